// ---------------------------------------------------------------------------------------------
// what a trie means: the node at a path, its documents, its document frequency
// ---------------------------------------------------------------------------------------------
/// the node reached from `n` along `t`
pub open spec fn node(n: IndexItem, t: Seq<char>) -> Option<IndexItem>
    decreases t.len()
{
    if t.len() == 0 { Some(n) }
    else if n.children@.contains_key(t[0]) { node(n.children@[t[0]], t.drop_first()) }
    else { None }
}
pub open spec fn present(n: IndexItem, t: Seq<char>) -> bool { node(n, t) is Some }
/// documents listed for `t`
pub open spec fn tdocs(n: IndexItem, t: Seq<char>) -> Map<String, TermFrequency> {
    match node(n, t) { Some(x) => x.docs@, None => Map::empty() }
}
pub open spec fn tdf(n: IndexItem, t: Seq<char>) -> int {
    match node(n, t) { Some(x) => x.doc_freq as int, None => 0 }
}
pub open spec fn empty_item(n: IndexItem) -> bool {
    n.docs@ == Map::<String, TermFrequency>::empty() && n.doc_freq == 0 && n.children@ == Map::<char, IndexItem>::empty()
}
/// the document frequency of every node is the number of its documents
pub open spec fn wf(n: IndexItem) -> bool {
    forall|t: Seq<char>| #[trigger] tdf(n, t) == tdocs(n, t).len()
}
pub open spec fn prefix(p: Seq<char>, t: Seq<char>) -> bool { p.len() <= t.len() && t.take(p.len() as int) == p }

/// what inserting (token, doc) does to a trie
pub open spec fn added(a: IndexItem, b: IndexItem, doc: String, token: Seq<char>, tf: f64) -> bool {
    &&& token.len() == 0 ==> b == a
    &&& forall|t: Seq<char>| #[trigger] present(b, t) <==> present(a, t) || prefix(t, token)
    &&& forall|t: Seq<char>| t == token && token.len() > 0 ==> #[trigger] tdocs(b, t) == tdocs(a, t).insert(doc, TermFrequency { term_freq: tf })
    &&& forall|t: Seq<char>| t != token || token.len() == 0 ==> #[trigger] tdocs(b, t) == tdocs(a, t)
    &&& forall|t: Seq<char>| t != token || token.len() == 0 ==> #[trigger] tdf(b, t) == tdf(a, t)
}
/// what removing (token, doc) does to a trie
pub open spec fn removed(a: IndexItem, b: IndexItem, doc: String, token: Seq<char>) -> bool {
    &&& forall|t: Seq<char>| #[trigger] present(b, t) <==> present(a, t)
    &&& forall|t: Seq<char>| t == token && token.len() > 0 ==> #[trigger] tdocs(b, t) == tdocs(a, t).remove(doc)
    &&& forall|t: Seq<char>| t != token || token.len() == 0 ==> #[trigger] tdocs(b, t) == tdocs(a, t)
    &&& forall|t: Seq<char>| t != token || token.len() == 0 ==> #[trigger] tdf(b, t) == tdf(a, t)
}
