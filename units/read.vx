#![feature(allocator_api)]
#![feature(slice_index_methods, fn_traits, sized_hierarchy)]
#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_braces, unused_parens, non_snake_case, non_camel_case_types)]
//! expand
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use vstd::std_specs::iter::*;
use std::collections::BTreeMap;
use std::marker::PhantomData;
verus! {
broadcast use { vstd::utf8::group_utf8_lib, vxmap::group_map, vxstd::group_std, vxtext::group_text, vstd::std_specs::btree::group_btree_axioms };
//@include ext_map.vx
//@include ext_opt.vx
//@include ext_std.vx
//@include ext_text.vx
//@include serde.vx
//@include serde_de.vx
//@struct src/inverted_index.rs TermFrequency attr=derive(Clone,Copy)
//@struct src/inverted_index.rs IndexItem
//@struct src/inverted_index.rs InvertedIndex
//@include trie_spec.vx
//@struct src/document_store.rs DocumentStore
//@include store_spec.vx
//@include json_parts.vx
//@include read_spec.vx
#[verifier::external_body]
pub exec const FIELDS: &'static [&'static str] ensures true { &[] }

// ---- the document store
//@local __Field StoreKey Deserialize for DocumentStore
//@local __FieldVisitor StoreKeyVisitor Deserialize for DocumentStore
//@local __Visitor StoreVisitor Deserialize for DocumentStore
pub open spec fn store_key(s: Seq<char>) -> StoreKey { if s == "save"@ { StoreKey::__field@{src/document_store.rs DocumentStore save} } else if s == "docs"@ { StoreKey::__field@{src/document_store.rs DocumentStore docs} } else if s == "docInfo"@ { StoreKey::__field@{src/document_store.rs DocumentStore doc_info} } else if s == "length"@ { StoreKey::__field@{src/document_store.rs DocumentStore length} } else { StoreKey::__ignore } }
impl<'de> StrVisitor<'de> for StoreKeyVisitor {
    type Value = StoreKey;
    open spec fn on_str(s: Seq<char>, r: Option<StoreKey>) -> bool { r == Some(store_key(s)) }
//@fn expanded <Visitor for __FieldVisitor in Deserialize for DocumentStore>::visit_str
//@rename __Field StoreKey
//@at begin
    proof { lemma_store_keys(); lemma_store_distinct(); }
//@end
}
impl FromJson for StoreKey {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Str ==> r == Some(store_key(j->Str_0)) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
impl<'de> Deserialize<'de> for StoreKey {
//@fn expanded <Deserialize for __Field in Deserialize for DocumentStore>::deserialize
//@rename __FieldVisitor StoreKeyVisitor
//@end
}
impl<'de> MapVisitor<'de> for StoreVisitor<'de> {
    type Value = DocumentStore;
    open spec fn on_map(m: Map<Seq<char>, J>, r: Option<DocumentStore>) -> bool { store_dec(m, r) }
//@fn expanded <Visitor for __Visitor in Deserialize for DocumentStore>::visit_map
//@rename __Field StoreKey
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@at begin
    let ghost m0 = __map.rest();
    let ghost mut r0 = m0;
    proof { lemma_store_keys(); lemma_store_distinct(); }
//@loop 0 while
    invariant __map.cur() is None, within(__map.rest(), m0),
        seen(m0, __map.rest(), "save"@, __field@{src/document_store.rs DocumentStore save}), seen(m0, __map.rest(), "docs"@, __field@{src/document_store.rs DocumentStore docs}), seen(m0, __map.rest(), "docInfo"@, __field@{src/document_store.rs DocumentStore doc_info}), seen(m0, __map.rest(), "length"@, __field@{src/document_store.rs DocumentStore length}),
        r0 == __map.rest(),
    ensures __map.rest() == Map::<Seq<char>, J>::empty(),
    decreases __map.rest().len(),
//@at in-loop 0
    let ghost s = choose|s: Seq<char>| r0.contains_key(s) && #[trigger] StoreKey::dec(J::Str(s), Some(__key)) && __map.rest() == r0.remove(s) && __map.cur() == Some(r0[s]);
    proof { lemma_store_keys(); lemma_store_distinct(); assert(m0.contains_key(s) && m0[s] == r0[s]); assert(__key == store_key(s)); }
//@at end-loop 0
    proof { r0 = __map.rest(); }
//@end
}
impl<'de> Deserialize<'de> for DocumentStore {
//@fn expanded <Deserialize for DocumentStore>::deserialize
//@rename __Visitor StoreVisitor
//@end
}
// ---- the term frequency
//@local __Field TfKey Deserialize for TermFrequency
//@local __FieldVisitor TfKeyVisitor Deserialize for TermFrequency
//@local __Visitor TfVisitor Deserialize for TermFrequency
pub open spec fn tf_key(s: Seq<char>) -> TfKey { if s == "tf"@ { TfKey::__field@{src/inverted_index.rs TermFrequency term_freq} } else { TfKey::__ignore } }
impl<'de> StrVisitor<'de> for TfKeyVisitor {
    type Value = TfKey;
    open spec fn on_str(s: Seq<char>, r: Option<TfKey>) -> bool { r == Some(tf_key(s)) }
//@fn expanded <Visitor for __FieldVisitor in Deserialize for TermFrequency>::visit_str
//@rename __Field TfKey
//@at begin
    proof { lemma_keys(); }
//@end
}
impl FromJson for TfKey {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Str ==> r == Some(tf_key(j->Str_0)) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
impl<'de> Deserialize<'de> for TfKey {
//@fn expanded <Deserialize for __Field in Deserialize for TermFrequency>::deserialize
//@rename __FieldVisitor TfKeyVisitor
//@end
}
impl<'de> MapVisitor<'de> for TfVisitor<'de> {
    type Value = TermFrequency;
    open spec fn on_map(m: Map<Seq<char>, J>, r: Option<TermFrequency>) -> bool { tf_dec(m, r) }
//@fn expanded <Visitor for __Visitor in Deserialize for TermFrequency>::visit_map
//@rename __Field TfKey
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@at begin
    let ghost m0 = __map.rest();
    let ghost mut r0 = m0;
    proof { lemma_keys(); }
//@loop 0 while
    invariant __map.cur() is None, within(__map.rest(), m0),
        seen(m0, __map.rest(), "tf"@, __field@{src/inverted_index.rs TermFrequency term_freq}),
        r0 == __map.rest(),
    ensures __map.rest() == Map::<Seq<char>, J>::empty(),
    decreases __map.rest().len(),
//@at in-loop 0
    let ghost s = choose|s: Seq<char>| r0.contains_key(s) && #[trigger] TfKey::dec(J::Str(s), Some(__key)) && __map.rest() == r0.remove(s) && __map.cur() == Some(r0[s]);
    proof { lemma_keys(); assert(m0.contains_key(s) && m0[s] == r0[s]); assert(__key == tf_key(s)); }
//@at end-loop 0
    proof { r0 = __map.rest(); }
//@end
}
impl<'de> Deserialize<'de> for TermFrequency {
//@fn expanded <Deserialize for TermFrequency>::deserialize
//@rename __Visitor TfVisitor
//@end
}
// ---- the trie
//@local __Field RootKey Deserialize for InvertedIndex
//@local __FieldVisitor RootKeyVisitor Deserialize for InvertedIndex
//@local __Visitor RootVisitor Deserialize for InvertedIndex
pub open spec fn root_key(s: Seq<char>) -> RootKey { if s == "root"@ { RootKey::__field@{src/inverted_index.rs InvertedIndex root} } else { RootKey::__ignore } }
impl<'de> StrVisitor<'de> for RootKeyVisitor {
    type Value = RootKey;
    open spec fn on_str(s: Seq<char>, r: Option<RootKey>) -> bool { r == Some(root_key(s)) }
//@fn expanded <Visitor for __FieldVisitor in Deserialize for InvertedIndex>::visit_str
//@rename __Field RootKey
//@at begin
    proof { lemma_keys(); }
//@end
}
impl FromJson for RootKey {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Str ==> r == Some(root_key(j->Str_0)) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
impl<'de> Deserialize<'de> for RootKey {
//@fn expanded <Deserialize for __Field in Deserialize for InvertedIndex>::deserialize
//@rename __FieldVisitor RootKeyVisitor
//@end
}
impl<'de> MapVisitor<'de> for RootVisitor<'de> {
    type Value = InvertedIndex;
    open spec fn on_map(m: Map<Seq<char>, J>, r: Option<InvertedIndex>) -> bool { root_dec(m, r) }
//@fn expanded <Visitor for __Visitor in Deserialize for InvertedIndex>::visit_map
//@rename __Field RootKey
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@at begin
    let ghost m0 = __map.rest();
    let ghost mut r0 = m0;
    proof { lemma_keys(); }
//@loop 0 while
    invariant __map.cur() is None, within(__map.rest(), m0),
        seen(m0, __map.rest(), "root"@, __field@{src/inverted_index.rs InvertedIndex root}),
        r0 == __map.rest(),
    ensures __map.rest() == Map::<Seq<char>, J>::empty(),
    decreases __map.rest().len(),
//@at in-loop 0
    let ghost s = choose|s: Seq<char>| r0.contains_key(s) && #[trigger] RootKey::dec(J::Str(s), Some(__key)) && __map.rest() == r0.remove(s) && __map.cur() == Some(r0[s]);
    proof { lemma_keys(); assert(m0.contains_key(s) && m0[s] == r0[s]); assert(__key == root_key(s)); }
//@at end-loop 0
    proof { r0 = __map.rest(); }
//@end
}
impl<'de> Deserialize<'de> for InvertedIndex {
//@fn expanded <Deserialize for InvertedIndex>::deserialize
//@rename __Visitor RootVisitor
//@end
}
//@local __Field NodeKey Deserialize for IndexItem
//@local __FieldVisitor NodeKeyVisitor Deserialize for IndexItem
//@local __Visitor NodeVisitor Deserialize for IndexItem
pub open spec fn node_key(s: Seq<char>, k: NodeKey) -> bool {
    match k {
        NodeKey::__field@{src/inverted_index.rs IndexItem docs} => s == "docs"@,
        NodeKey::__field@{src/inverted_index.rs IndexItem doc_freq} => s == "df"@,
        NodeKey::__other(c) => s != "docs"@ && s != "df"@ && c.doc() == J::Str(s),
    }
}
impl<'de> StrVisitor<'de> for NodeKeyVisitor {
    type Value = NodeKey<'de>;
    open spec fn on_str(s: Seq<char>, r: Option<NodeKey<'de>>) -> bool { r is Some && node_key(s, r.unwrap()) }
//@fn expanded <Visitor for __FieldVisitor in Deserialize for IndexItem>::visit_str
//@rename __Field NodeKey
//@at begin
    proof { lemma_keys(); }
//@end
//@fn expanded <Visitor for __FieldVisitor in Deserialize for IndexItem>::visit_borrowed_str
//@rename __Field NodeKey
//@at begin
    proof { lemma_keys(); }
//@end
}
impl<'de> FromJson for NodeKey<'de> {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Str ==> r is Some && node_key(j->Str_0, r.unwrap()) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
impl<'de> Deserialize<'de> for NodeKey<'de> {
//@fn expanded <Deserialize for __Field in Deserialize for IndexItem>::deserialize
//@rename __FieldVisitor NodeKeyVisitor
//@end
}
/// the members buffered so far: all those read but "docs" and "df"
pub open spec fn others(m0: Map<Seq<char>, J>, rest: Map<Seq<char>, J>, o: Map<Seq<char>, J>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] o.contains_key(k) <==> m0.contains_key(k) && !rest.contains_key(k) && k != "docs"@ && k != "df"@
    &&& forall|k: Seq<char>| #[trigger] o.contains_key(k) ==> o[k] == m0[k]
}
pub proof fn lemma_member<'de>(a: Seq<Option<(Content<'de>, Content<'de>)>>, x: Option<(Content<'de>, Content<'de>)>, o: Map<Seq<char>, J>, k: Seq<char>)
    requires members(a, o), x is Some, x.unwrap().0.doc() == J::Str(k), !o.contains_key(k),
    ensures members(a.push(x), o.insert(k, x.unwrap().1.doc())),
{
    let b = a.push(x);
    let p = o.insert(k, x.unwrap().1.doc());
    assert forall|q: Seq<char>| #[trigger] p.contains_key(q) implies exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).unwrap().0.doc() == J::Str(q) by {
        if q == k { assert(b[a.len() as int].unwrap().0.doc() == J::Str(k)); }
        else { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).unwrap().0.doc() == J::Str(q); assert(b[i] == a[i]); }
    }
}
impl<'de> MapVisitor<'de> for NodeVisitor<'de> {
    type Value = IndexItem;
    open spec fn on_map(m: Map<Seq<char>, J>, r: Option<IndexItem>) -> bool { item_dec(J::Obj(m), r) }
//@fn expanded <Visitor for __Visitor in Deserialize for IndexItem>::visit_map
//@exits 9
//@rename __Field NodeKey
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@at begin
    let ghost m0 = __map.rest();
    let ghost mut r0 = m0;
    let ghost mut o = Map::<Seq<char>, J>::empty();
    proof { lemma_keys(); }
//@loop 0 while
    invariant __map.cur() is None, within(__map.rest(), m0),
        seen(m0, __map.rest(), "docs"@, __field@{src/inverted_index.rs IndexItem docs}), seen(m0, __map.rest(), "df"@, __field@{src/inverted_index.rs IndexItem doc_freq}),
        members(__collect@, o), others(m0, __map.rest(), o),
        r0 == __map.rest(),
    ensures __map.rest() == Map::<Seq<char>, J>::empty(),
    decreases __map.rest().len(),
//@at in-loop 0
    let ghost s = choose|s: Seq<char>| r0.contains_key(s) && #[trigger] NodeKey::dec(J::Str(s), Some(__key)) && __map.rest() == r0.remove(s) && __map.cur() == Some(r0[s]);
    proof { lemma_keys(); assert(m0.contains_key(s) && m0[s] == r0[s]); assert(node_key(s, __key)); }
    let ghost c0 = __collect@;
//@at end-loop 0
    proof {
        if s != "docs"@ && s != "df"@ {
            assert(__collect@ =~= c0.push(__collect@.last()));
            lemma_member(c0, __collect@.last(), o, s);
            o = o.insert(s, r0[s]);
        }
        r0 = __map.rest();
    }
//@at after-loop 0
    proof {
        assert(forall|k: Seq<char>| #[trigger] o.contains_key(k) <==> m0.contains_key(k) && k != "docs"@ && k != "df"@);
        assert(forall|c: char| (#[trigger] seq![c]).len() == 1);
    }
//@at end
    proof {
        assert(kids_dec(o, Some(__field@{src/inverted_index.rs IndexItem children})));
        assert forall|k: Seq<char>| #[trigger] m0.contains_key(k) implies k == "docs"@ || k == "df"@ || k.len() == 1 && __field@{src/inverted_index.rs IndexItem children}@.contains_key(k[0]) by { assert(k == "docs"@ || k == "df"@ || o.contains_key(k)); }
        assert forall|c: char| #[trigger] __field@{src/inverted_index.rs IndexItem children}@.contains_key(c) implies m0.contains_key(seq![c]) && item_dec(m0[seq![c]], Some(__field@{src/inverted_index.rs IndexItem children}@[c])) by { assert(o.contains_key(seq![c])); }
        assert(item_dec(J::Obj(m0), Some(IndexItem { docs: __field@{src/inverted_index.rs IndexItem docs}, doc_freq: __field@{src/inverted_index.rs IndexItem doc_freq}, children: __field@{src/inverted_index.rs IndexItem children} })));
    }
//@end
}
impl<'de> Deserialize<'de> for IndexItem {
//@fn expanded <Deserialize for IndexItem>::deserialize
//@rename __Visitor NodeVisitor
//@end
}
}
fn main() {}
