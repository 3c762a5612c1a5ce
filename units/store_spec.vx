// ---------------------------------------------------------------------------------------------
// what a document store means
// ---------------------------------------------------------------------------------------------
pub open spec fn stored(s: DocumentStore, d: String) -> bool { s.docs@.contains_key(d) }
pub open spec fn content(s: DocumentStore, d: String) -> Map<String, String> { s.docs@[d]@ }
/// the field length kept for (document, field)
pub open spec fn kept(s: DocumentStore, d: String, f: String) -> Option<usize> {
    if s.doc_info@.contains_key(d) && s.doc_info@[d]@.contains_key(f) { Some(s.doc_info@[d]@[f]) } else { None }
}
/// the length field is exact, and without saving nothing is retained
pub open spec fn swf(s: DocumentStore) -> bool {
    &&& s.length == s.docs@.len()
    &&& !s.save ==> forall|d: String| #[trigger] s.docs@.contains_key(d) ==> content(s, d) == Map::<String, String>::empty()
}
pub open spec fn same_lengths(a: DocumentStore, b: DocumentStore) -> bool {
    forall|d: String, f: String| #[trigger] kept(b, d, f) == kept(a, d, f)
}
pub open spec fn other_docs_same(a: DocumentStore, b: DocumentStore, d: String) -> bool {
    forall|e: String| e != d ==> (#[trigger] stored(b, e) <==> stored(a, e)) && (stored(a, e) ==> content(b, e) == content(a, e))
}
pub open spec fn doc_added(a: DocumentStore, b: DocumentStore, d: String, doc: Map<String, String>) -> bool {
    &&& b.save == a.save
    &&& stored(b, d)
    &&& content(b, d) == if a.save { doc } else { Map::empty() }
    &&& other_docs_same(a, b, d)
    &&& same_lengths(a, b)
}
pub open spec fn doc_removed(a: DocumentStore, b: DocumentStore, d: String) -> bool {
    &&& b.save == a.save
    &&& !stored(b, d)
    &&& other_docs_same(a, b, d)
    &&& forall|e: String, f: String| #[trigger] kept(b, e, f) == if e == d && stored(a, d) { None } else { kept(a, e, f) }
}
pub open spec fn len_added(a: DocumentStore, b: DocumentStore, d: String, f: String, n: usize) -> bool {
    &&& b.save == a.save && b.docs == a.docs && b.length == a.length
    &&& forall|e: String, g: String| #[trigger] kept(b, e, g) == if e == d && g == f { Some(n) } else { kept(a, e, g) }
}
