pub proof fn lemma_store_distinct()
    ensures "save"@ != "docs"@, "save"@ != "docInfo"@, "save"@ != "length"@, "docs"@ != "docInfo"@, "docs"@ != "length"@, "docInfo"@ != "length"@,
{ lemma_store_keys(); let k = store_keys(); assert(k[0] != k[1] && k[0] != k[2] && k[0] != k[3] && k[1] != k[2] && k[1] != k[3] && k[2] != k[3]); }
pub open spec fn store_dec(m: Map<Seq<char>, J>, r: Option<DocumentStore>) -> bool {
    match r {
        Some(v) => member_dec(m, "save"@, Some(v.save)) && member_dec(m, "docs"@, Some(v.docs)) && member_dec(m, "docInfo"@, Some(v.doc_info)) && member_dec(m, "length"@, Some(v.length)),
        None => member_dec(m, "save"@, None::<bool>) || member_dec(m, "docs"@, None::<BTreeMap<String, BTreeMap<String, String>>>)
            || member_dec(m, "docInfo"@, None::<BTreeMap<String, BTreeMap<String, usize>>>) || member_dec(m, "length"@, None::<usize>),
    }
}
impl FromJson for DocumentStore {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Obj ==> store_dec(j->Obj_0, r) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
pub open spec fn tf_dec(m: Map<Seq<char>, J>, r: Option<TermFrequency>) -> bool {
    match r { Some(v) => member_dec(m, "tf"@, Some(v.term_freq)), None => member_dec(m, "tf"@, None::<f64>) }
}
impl FromJson for TermFrequency {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Obj ==> tf_dec(j->Obj_0, r) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
pub open spec fn root_dec(m: Map<Seq<char>, J>, r: Option<InvertedIndex>) -> bool {
    match r { Some(v) => member_dec(m, "root"@, Some(v.root)), None => member_dec(m, "root"@, None::<IndexItem>) }
}
impl FromJson for InvertedIndex {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Obj ==> root_dec(j->Obj_0, r) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
/// a node: its documents, their number, and one child per other member, whose name is one character
pub open spec fn item_dec(j: J, r: Option<IndexItem>) -> bool
    decreases j
{
    j matches J::Obj(o) ==> match r {
        Some(n) => {
            &&& member_dec(o, "docs"@, Some(n.docs))
            &&& member_dec(o, "df"@, Some(n.doc_freq))
            &&& forall|k: Seq<char>| #[trigger] o.contains_key(k) ==> k == "docs"@ || k == "df"@ || k.len() == 1 && n.children@.contains_key(k[0])
            &&& forall|c: char| #[trigger] n.children@.contains_key(c) ==> o.contains_key(seq![c]) && item_dec(o[seq![c]], Some(n.children@[c]))
        }
        None => {
            ||| member_dec(o, "docs"@, None::<BTreeMap<String, TermFrequency>>)
            ||| member_dec(o, "df"@, None::<i64>)
            ||| exists|k: Seq<char>| #[trigger] o.contains_key(k) && k != "docs"@ && k != "df"@ && (k.len() == 1 ==> item_dec(o[k], None))
        }
    }
}
impl FromJson for IndexItem {
    open spec fn dec(j: J, r: Option<Self>) -> bool { item_dec(j, r) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
pub open spec fn kids_dec(o: Map<Seq<char>, J>, r: Option<BTreeMap<char, IndexItem>>) -> bool {
    match r {
        Some(m) => {
            &&& forall|k: Seq<char>| #[trigger] o.contains_key(k) ==> k.len() == 1 && m@.contains_key(k[0])
            &&& forall|c: char| #[trigger] m@.contains_key(c) ==> o.contains_key(seq![c]) && item_dec(o[seq![c]], Some(m@[c]))
        }
        None => exists|k: Seq<char>| #[trigger] o.contains_key(k) && (k.len() == 1 ==> item_dec(o[k], None)),
    }
}
// TRUSTED: serde's Deserialize for a map keyed by characters
impl FromJson for BTreeMap<char, IndexItem> {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Obj ==> kids_dec(j->Obj_0, r) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
// ---- C23: reading back gives what was written
/// a map whose values can be read back is read back with the same keys
pub proof fn lemma_map_back<V: ToJson + FromJson>(x: Map<String, V>, j: J, r: Option<BTreeMap<String, V>>)
    requires j is Obj, map_enc(x, j->Obj_0), BTreeMap::<String, V>::dec(j, r),
        forall|k: String| #[trigger] x.contains_key(k) ==> !V::dec(j->Obj_0[k@], None),
    ensures r is Some,
        forall|k: String| #[trigger] r.unwrap()@.contains_key(k) <==> x.contains_key(k),
        forall|k: String| #[trigger] r.unwrap()@.contains_key(k) ==> V::dec(j->Obj_0[k@], Some(r.unwrap()@[k])) && x[k].enc(j->Obj_0[k@]),
{
    let o = j->Obj_0;
    if r is None {
        let k = choose|k: Seq<char>| o.contains_key(k) && #[trigger] V::dec(o[k], None);
        assert(x.contains_key(mk(k)) && mk(k)@ == k);
    } else {
        let m = r.unwrap()@;
        assert(map_dec(o, m));
        assert forall|k: String| #[trigger] m.contains_key(k) <==> x.contains_key(k) by { assert(mk(k@) == k); assert(m.contains_key(k) <==> o.contains_key(k@)); }
        assert forall|k: String| #[trigger] m.contains_key(k) implies V::dec(o[k@], Some(m[k])) && x[k].enc(o[k@]) by { assert(mk(k@) == k); assert(o.contains_key(k@)); }
    }
}
/// ... and with the same values, when those are determined
pub proof fn lemma_map_same<V: ToJson + FromJson>(x: Map<String, V>, j: J, r: Option<BTreeMap<String, V>>)
    requires j is Obj, map_enc(x, j->Obj_0), BTreeMap::<String, V>::dec(j, r),
        forall|k: String, q: Option<V>| x.contains_key(k) && #[trigger] V::dec(j->Obj_0[k@], q) ==> q == Some(x[k]),
    ensures r is Some, r.unwrap()@ == x,
{
    lemma_map_back(x, j, r);
    assert(r.unwrap()@ =~= x);
}
pub proof fn lemma_texts_back(x: Map<String, String>, j: J, r: Option<BTreeMap<String, String>>)
    requires j is Obj, map_enc(x, j->Obj_0), BTreeMap::<String, String>::dec(j, r),
    ensures r is Some, r.unwrap()@ == x,
{
    assert forall|k: String, q: Option<String>| x.contains_key(k) && #[trigger] String::dec(j->Obj_0[k@], q) implies q == Some(x[k]) by {
        assert(j->Obj_0.contains_key(k@)); assert(mk(k@) == k);
        assert(mk(x[k]@) == x[k] && mk(q.unwrap()@) == q.unwrap());
    }
    lemma_map_same(x, j, r);
}
pub proof fn lemma_counts_back(x: Map<String, usize>, j: J, r: Option<BTreeMap<String, usize>>)
    requires j is Obj, map_enc(x, j->Obj_0), BTreeMap::<String, usize>::dec(j, r),
    ensures r is Some, r.unwrap()@ == x,
{
    assert forall|k: String, q: Option<usize>| x.contains_key(k) && #[trigger] usize::dec(j->Obj_0[k@], q) implies q == Some(x[k]) by {
        assert(j->Obj_0.contains_key(k@)); assert(mk(k@) == k);
    }
    lemma_map_same(x, j, r);
}
/// C23: a store read back from its JSON is the store
pub proof fn theorem_store_back(x: DocumentStore, j: J, r: Option<DocumentStore>)
    requires x.enc(j), DocumentStore::dec(j, r),
    ensures r is Some, ({ let y = r.unwrap();
        &&& y.save == x.save && y.length == x.length
        &&& forall|d: String| #[trigger] stored(y, d) <==> stored(x, d)
        &&& forall|d: String| #[trigger] stored(y, d) ==> content(y, d) == content(x, d)
        &&& forall|d: String, f: String| #[trigger] kept(y, d, f) == kept(x, d, f)
    }),
{
    lemma_store_keys(); lemma_store_distinct();
    let o = j->Obj_0;
    assert(store_dec(o, r));
    let (jd, ji) = (o["docs"@], o["docInfo"@]);
    assert forall|k: String| #[trigger] x.docs@.contains_key(k) implies !BTreeMap::<String, String>::dec(jd->Obj_0[k@], None) by {
        assert(jd->Obj_0.contains_key(k@)); assert(mk(k@) == k);
        if BTreeMap::<String, String>::dec(jd->Obj_0[k@], None) { lemma_texts_back(x.docs@[k]@, jd->Obj_0[k@], None); }
    }
    assert forall|k: String| #[trigger] x.doc_info@.contains_key(k) implies !BTreeMap::<String, usize>::dec(ji->Obj_0[k@], None) by {
        assert(ji->Obj_0.contains_key(k@)); assert(mk(k@) == k);
        if BTreeMap::<String, usize>::dec(ji->Obj_0[k@], None) { lemma_counts_back(x.doc_info@[k]@, ji->Obj_0[k@], None); }
    }
    if r is None {
        if BTreeMap::<String, BTreeMap<String, String>>::dec(jd, None) { lemma_map_back(x.docs@, jd, None); }
        if BTreeMap::<String, BTreeMap<String, usize>>::dec(ji, None) { lemma_map_back(x.doc_info@, ji, None); }
        assert(false);
    }
    let y = r.unwrap();
    lemma_map_back(x.docs@, jd, Some(y.docs));
    lemma_map_back(x.doc_info@, ji, Some(y.doc_info));
    assert forall|d: String| #[trigger] stored(y, d) <==> stored(x, d) by { assert(y.docs@.contains_key(d) <==> x.docs@.contains_key(d)); }
    assert forall|d: String| #[trigger] stored(y, d) implies content(y, d) == content(x, d) by {
        assert(y.docs@.contains_key(d));
        lemma_texts_back(x.docs@[d]@, jd->Obj_0[d@], Some(y.docs@[d]));
    }
    assert forall|d: String, f: String| #[trigger] kept(y, d, f) == kept(x, d, f) by {
        if y.doc_info@.contains_key(d) { lemma_counts_back(x.doc_info@[d]@, ji->Obj_0[d@], Some(y.doc_info@[d])); }
        else { assert(!x.doc_info@.contains_key(d)); }
    }
}
/// the documents of a node
pub proof fn lemma_docs_back(x: Map<String, TermFrequency>, j: J, r: Option<BTreeMap<String, TermFrequency>>)
    requires j is Obj, map_enc(x, j->Obj_0), BTreeMap::<String, TermFrequency>::dec(j, r),
    ensures r is Some, r.unwrap()@ == x,
{
    lemma_keys();
    assert forall|k: String, q: Option<TermFrequency>| x.contains_key(k) && #[trigger] <TermFrequency as FromJson>::dec(j->Obj_0[k@], q) implies q == Some(x[k]) by {
        assert(j->Obj_0.contains_key(k@)); assert(mk(k@) == k);
        let d = j->Obj_0[k@];
        assert(tf_enc(x[k], d));
        assert(tf_dec(d->Obj_0, q));
    }
    lemma_map_same(x, j, r);
}
/// reading a node back gives no error
pub proof fn lemma_item_reads(n: IndexItem, j: J)
    requires item_enc(n, j),
    ensures !item_dec(j, None),
    decreases j,
{
    lemma_keys();
    let o = j->Obj_0;
    if item_dec(j, None) {
        if BTreeMap::<String, TermFrequency>::dec(o["docs"@], None) { lemma_docs_back(n.docs@, o["docs"@], None); }
        assert(o["df"@] is Int);
        let k = choose|k: Seq<char>| #[trigger] o.contains_key(k) && k != "docs"@ && k != "df"@ && (k.len() == 1 ==> item_dec(o[k], None));
        assert(k.len() == 1 && n.children@.contains_key(k[0]));
        assert(k =~= seq![k[0]]);
        lemma_item_reads(n.children@[k[0]], o[k]);
    }
}
/// a node read back has the same documents, and children of the same characters read back from the same parts
pub proof fn lemma_node_back(n: IndexItem, j: J, m: IndexItem)
    requires item_enc(n, j), item_dec(j, Some(m)),
    ensures m.docs@ == n.docs@, m.doc_freq == n.doc_freq,
        forall|c: char| #[trigger] m.children@.contains_key(c) <==> n.children@.contains_key(c),
        forall|c: char| #[trigger] n.children@.contains_key(c) ==> item_enc(n.children@[c], j->Obj_0[seq![c]]) && item_dec(j->Obj_0[seq![c]], Some(m.children@[c])),
{
    lemma_keys();
    let o = j->Obj_0;
    lemma_docs_back(n.docs@, o["docs"@], Some(m.docs));
    assert forall|c: char| #[trigger] m.children@.contains_key(c) <==> n.children@.contains_key(c) by {
        assert(seq![c].len() == 1 && seq![c][0] == c);
        assert(m.children@.contains_key(c) ==> o.contains_key(seq![c]));
        assert(n.children@.contains_key(c) ==> o.contains_key(seq![c]));
        assert(seq![c] != "docs"@ && seq![c] != "df"@);
    }
    assert forall|c: char| #[trigger] n.children@.contains_key(c) implies item_enc(n.children@[c], o[seq![c]]) && item_dec(o[seq![c]], Some(m.children@[c])) by {
        assert(m.children@.contains_key(c));
    }
}
pub proof fn lemma_item_back(n: IndexItem, j: J, m: IndexItem, t: Seq<char>)
    requires item_enc(n, j), item_dec(j, Some(m)),
    ensures present(m, t) <==> present(n, t), tdocs(m, t) == tdocs(n, t), tdf(m, t) == tdf(n, t),
    decreases t.len(),
{
    lemma_node_back(n, j, m);
    if t.len() > 0 && n.children@.contains_key(t[0]) {
        lemma_item_back(n.children@[t[0]], j->Obj_0[seq![t[0]]], m.children@[t[0]], t.drop_first());
    } else if t.len() > 0 { assert(!m.children@.contains_key(t[0])); }
}
/// C23: a trie read back from its JSON has the same nodes, documents, frequencies and document frequencies
pub proof fn theorem_trie_back(x: InvertedIndex, j: J, r: Option<InvertedIndex>, t: Seq<char>)
    requires x.enc(j), InvertedIndex::dec(j, r),
    ensures r is Some, present(r.unwrap().root, t) <==> present(x.root, t), tdocs(r.unwrap().root, t) == tdocs(x.root, t), tdf(r.unwrap().root, t) == tdf(x.root, t),
{
    lemma_keys();
    let o = j->Obj_0;
    assert(root_dec(o, r));
    lemma_item_reads(x.root, o["root"@]);
    lemma_item_back(x.root, o["root"@], r.unwrap().root, t);
}
