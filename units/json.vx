#![feature(allocator_api)]
#![feature(slice_index_methods, fn_traits, sized_hierarchy)]
#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_braces, unused_parens, non_snake_case, non_camel_case_types)]
//! expand
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use vstd::std_specs::iter::*;
use std::collections::BTreeMap;
use std::marker::PhantomData;
verus! {
broadcast use { vstd::utf8::group_utf8_lib, vxmap::group_map, vxstd::group_std, vstd::std_specs::btree::group_btree_axioms };
//@include ext_map.vx
//@include ext_opt.vx
//@include ext_std.vx
//@include ext_index.vx
//@include serde.vx
//@struct src/inverted_index.rs TermFrequency attr=derive(Clone,Copy)
//@struct src/inverted_index.rs IndexItem
//@struct src/inverted_index.rs InvertedIndex
//@include trie_spec.vx
//@struct src/document_store.rs DocumentStore
//@include store_spec.vx
pub trait PipelineFn {
    spec fn fpost(&self, t: Seq<char>, o: Option<Seq<char>>) -> bool;
    spec fn fname(&self) -> Seq<char>;
//@fn src/pipeline.rs trait PipelineFn::name
//@spec
        ensures r@ == self.fname(),
//@end
//@fn src/pipeline.rs trait PipelineFn::filter
//@spec
        ensures self.fpost(token@, sview(r)),
//@end
}
//@struct src/pipeline.rs Pipeline
//@include pipe_spec.vx
//@include lang_trait.vx
#[verifier::external_body]
pub struct TokenizerFn(Box<dyn Fn(&str) -> Vec<String>>);
pub type Tokenizer = Option<TokenizerFn>;
//@struct src/lib.rs Index
//@include json_spec.vx

impl Serialize for Pipeline {
//@fn src/pipeline.rs <Serialize for Pipeline>::serialize
//@exits 2
//@loop 0 for
    invariant it0.seq() == self.queue@.as_ref(), 0 <= it0.index() <= self.queue@.len(),
        names_enc(self.queue@.take(it0.index() as int), seq.done()), serializer.total() ==> seq.total(),
        forall|ok: S::Ok| #[trigger] seq.emitted(ok) == serializer.emitted(ok),
//@at end
    proof { assert(self.queue@.take(self.queue@.len() as int) =~= self.queue@); }
//@end
}
impl Serialize for TermFrequency {
//@fn expanded <Serialize for TermFrequency>::serialize
//@at begin
    proof { lemma_keys(); }
//@end
}
//@local __SerializeWith FlatChildren Serialize for IndexItem
impl<'a> ToJson for FlatChildren<'a> {
    open spec fn enc(&self, j: J) -> bool { j is Obj && children_enc(self.values.0@, j->Obj_0) }
}
impl<'a> Serialize for FlatChildren<'a> {
//@fn expanded <Serialize for __SerializeWith in Serialize for IndexItem>::serialize
//@rename __SerializeWith FlatChildren
//@end
}
impl IndexItem {
//@fn src/inverted_index.rs IndexItem::serialize
//@exits 2
//@spec
    ensures r.is_ok() ==> ser.emitted(r->Ok_0) is Obj && children_enc(map@, ser.emitted(r->Ok_0)->Obj_0), ser.total() ==> r.is_ok(),
//@rename .encode_utf8 vx_encode_utf8
//@loop 0 for
    invariant children_part(it0.seq().take(it0.index() as int), ser_map.done()), ser.total() ==> ser_map.total(),
        it0.seq().no_duplicates(),
        forall|i: int| 0 <= i < it0.seq().len() ==> map@.contains_key(*(#[trigger] it0.seq()[i]).0) && map@[*it0.seq()[i].0] == *it0.seq()[i].1,
        forall|q: char| #[trigger] map@.contains_key(q) ==> it0.seq().contains((&q, &map@[q])),
        it0.seq().len() == map@.len(),
        it0.index() == it0.seq().len() && map@.len() > 0 ==> children_enc(map@, ser_map.done()),
        forall|ok: S::Ok| #[trigger] ser_map.emitted(ok) == ser.emitted(ok),
//@at in-loop 0
    let ghost (d0, k0) = (ser_map.done(), it0.index() as int);
//@at end-loop 0
    proof { lemma_children_step(it0.seq(), k0, map@, d0, ser_map.done()); }
//@at end
    proof { lemma_children_none(map@, ser_map.done()); }
//@end
}
impl Serialize for IndexItem {
//@fn expanded <Serialize for IndexItem>::serialize
//@rename __SerializeWith FlatChildren
//@at begin
    proof { lemma_keys(); }
//@end
}
impl Serialize for InvertedIndex {
//@fn expanded <Serialize for InvertedIndex>::serialize
//@at begin
    proof { lemma_keys(); }
//@end
}
impl Serialize for DocumentStore {
//@fn expanded <Serialize for DocumentStore>::serialize
//@at begin
    proof { lemma_keys(); lemma_store_keys(); }
//@end
}
//@fn src/lib.rs serialize
//@as ser_lang_serialize
//@spec
    ensures r.is_ok() ==> serializer.emitted(r->Ok_0) == J::Str(lang.lname()), serializer.total() ==> r.is_ok(),
//@end
//@local __SerializeWith LangWith Serialize for Index
impl<'a> ToJson for LangWith<'a> {
    open spec fn enc(&self, j: J) -> bool { j == J::Str(self.values.0.lname()) }
}
impl<'a> Serialize for LangWith<'a> {
//@fn expanded <Serialize for __SerializeWith in Serialize for Index>::serialize
//@rename __SerializeWith LangWith
//@rename ser_lang::serialize ser_lang_serialize
//@end
}
impl Serialize for Index {
//@fn expanded <Serialize for Index>::serialize
//@rename __SerializeWith LangWith
//@at begin
    proof { lemma_index_keys(); }
//@end
}
/// the JSON texts a document can be written as
pub uninterp spec fn json_text(j: J, t: Seq<char>) -> bool;
/// stands for serde_json::to_string and to_string_pretty: the text of a document the value serialises as
#[verifier::external_body]
pub fn vx_to_json<T: ToJson + ?Sized>(v: &T) -> (r: Result<String, ()>)
    ensures r.is_ok(), exists|j: J| #[trigger] v.enc(j) && json_text(j, r->Ok_0@),
{ unimplemented!() }
//@rename serde_json::to_string vx_to_json
//@rename serde_json::to_string_pretty vx_to_json
impl Index {
//@fn src/lib.rs Index::to_json
//@spec
    ensures exists|j: J| #[trigger] self.enc(j) && json_text(j, r@),
//@end
//@fn src/lib.rs Index::to_json_pretty
//@spec
    ensures exists|j: J| #[trigger] self.enc(j) && json_text(j, r@),
//@end
}
/// reading a JSON trie along `t`
pub open spec fn jnode(j: J, t: Seq<char>) -> Option<Map<Seq<char>, J>>
    decreases t.len()
{
    if !(j is Obj) { None }
    else if t.len() == 0 { Some(j->Obj_0) }
    else if j->Obj_0.contains_key(seq![t[0]]) { jnode(j->Obj_0[seq![t[0]]], t.drop_first()) }
    else { None }
}
/// the postings a JSON trie lists for `t`: reference and {tf}
pub open spec fn jposting(j: J, t: Seq<char>, d: Seq<char>) -> Option<f64> {
    match jnode(j, t) {
        Some(o) => if o.contains_key("docs"@) && o["docs"@] is Obj && o["docs"@]->Obj_0.contains_key(d) && o["docs"@]->Obj_0[d] is Obj
            && o["docs"@]->Obj_0[d]->Obj_0.contains_key("tf"@) && o["docs"@]->Obj_0[d]->Obj_0["tf"@] is Float { Some(o["docs"@]->Obj_0[d]->Obj_0["tf"@]->Float_0) } else { None },
        None => None,
    }
}
pub proof fn lemma_jnode(n: IndexItem, j: J, t: Seq<char>)
    requires item_enc(n, j),
    ensures jnode(j, t) is Some <==> node(n, t) is Some,
        jnode(j, t) is Some ==> item_enc(node(n, t).unwrap(), J::Obj(jnode(j, t).unwrap())),
    decreases t.len(),
{
    lemma_keys();
    assert(j is Obj);
    if t.len() > 0 {
        let k = seq![t[0]];
        assert(k[0] == t[0] && k.len() == 1);
        if n.children@.contains_key(t[0]) { lemma_jnode(n.children@[t[0]], j->Obj_0[k], t.drop_first()); }
        else if j->Obj_0.contains_key(k) { assert(k.len() != "docs"@.len() && k.len() != "df"@.len()); }
    } else { assert(J::Obj(j->Obj_0) == j); }
}
/// C21: an index's JSON lists exactly the index's postings, with their exact values, and every node's df
pub proof fn theorem_json_postings(x: Index, j: J, f: String, t: Seq<char>, d: String)
    requires x.enc(j), x.index@.contains_key(f),
    ensures j is Obj, j->Obj_0["index"@] is Obj, j->Obj_0["index"@]->Obj_0.contains_key(f@), j->Obj_0["index"@]->Obj_0[f@] is Obj, ({
        let r = j->Obj_0["index"@]->Obj_0[f@]->Obj_0["root"@];
        let root = x.index@[f].root;
        &&& jnode(r, t) is Some <==> present(root, t)
        &&& jposting(r, t, d@) == if tdocs(root, t).contains_key(d) { Some(tdocs(root, t)[d].term_freq) } else { None }
        &&& present(root, t) ==> jnode(r, t).unwrap()["df"@] == J::Int(tdf(root, t))
    }),
{
    let o = j->Obj_0["index"@]->Obj_0;
    assert(mk(f@) == f);
    assert(map_enc(x.index@, o));
    assert(x.index@[f].enc(o[f@]));
    let r = o[f@]->Obj_0["root"@];
    let root = x.index@[f].root;
    lemma_jnode(root, r, t);
    if present(root, t) {
        let m = jnode(r, t).unwrap();
        let n = node(root, t).unwrap();
        assert(n.docs.enc(m["docs"@]));
        assert(map_enc(n.docs@, m["docs"@]->Obj_0));
        let dm = m["docs"@]->Obj_0;
        assert(mk(d@) == d);
        if n.docs@.contains_key(d) { assert(dm.contains_key(d@)); assert(n.docs@[d].enc(dm[d@])); assert(tf_enc(n.docs@[d], dm[d@])); }
        else { assert(!dm.contains_key(d@)); }
    }
}
/// C21: and no other field, document or stored text
pub proof fn theorem_json_nothing_else(x: Index, j: J, k: Seq<char>, f: Seq<char>)
    requires x.enc(j),
    ensures j is Obj,
        j->Obj_0.contains_key(k) <==> index_keys().contains(k),
        j->Obj_0["index"@] is Obj && (j->Obj_0["index"@]->Obj_0.contains_key(k) <==> x.index@.contains_key(mk(k)) && mk(k)@ == k),
        j->Obj_0["documentStore"@] is Obj, ({
        let s = j->Obj_0["documentStore"@]->Obj_0;
        let docs = s["docs"@]->Obj_0;
        let info = s["docInfo"@]->Obj_0;
        &&& s["save"@] == J::Bool(x.document_store.save) && s["length"@] == J::Int(x.document_store.length as int)
        &&& s["docs"@] is Obj && s["docInfo"@] is Obj
        &&& docs.contains_key(k) <==> stored(x.document_store, mk(k)) && mk(k)@ == k
        &&& docs.contains_key(k) ==> docs[k] is Obj && (docs[k]->Obj_0.contains_key(f) <==> content(x.document_store, mk(k)).contains_key(mk(f)) && mk(f)@ == f)
            && (docs[k]->Obj_0.contains_key(f) ==> docs[k]->Obj_0[f] == J::Str(content(x.document_store, mk(k))[mk(f)]@))
        &&& info.contains_key(k) ==> info[k] is Obj && (info[k]->Obj_0.contains_key(f) ==> kept(x.document_store, mk(k), mk(f)) is Some
            && info[k]->Obj_0[f] == J::Int(kept(x.document_store, mk(k), mk(f)).unwrap() as int))
        &&& kept(x.document_store, mk(k), mk(f)) is Some && mk(k)@ == k && mk(f)@ == f ==> info.contains_key(k) && info[k]->Obj_0.contains_key(f)
    }),
{
    lemma_index_keys();
    lemma_store_keys();
    assert(map_enc(x.index@, j->Obj_0["index"@]->Obj_0));
    let s = j->Obj_0["documentStore"@]->Obj_0;
    assert(map_enc(x.document_store.docs@, s["docs"@]->Obj_0));
    assert(map_enc(x.document_store.doc_info@, s["docInfo"@]->Obj_0));
    if s["docs"@]->Obj_0.contains_key(k) { assert(map_enc(x.document_store.docs@[mk(k)]@, s["docs"@]->Obj_0[k]->Obj_0)); }
    if s["docInfo"@]->Obj_0.contains_key(k) { assert(map_enc(x.document_store.doc_info@[mk(k)]@, s["docInfo"@]->Obj_0[k]->Obj_0)); }
    if mk(k)@ == k && x.document_store.doc_info@.contains_key(mk(k)) { assert(s["docInfo"@]->Obj_0.contains_key(mk(k)@)); }
    if mk(k)@ == k && x.document_store.docs@.contains_key(mk(k)) { assert(s["docs"@]->Obj_0.contains_key(mk(k)@)); }
    if mk(k)@ == k && x.index@.contains_key(mk(k)) { assert(j->Obj_0["index"@]->Obj_0.contains_key(mk(k)@)); }
    if mk(f)@ == f && s["docs"@]->Obj_0.contains_key(k) && x.document_store.docs@[mk(k)]@.contains_key(mk(f)) { assert(s["docs"@]->Obj_0[k]->Obj_0.contains_key(mk(f)@)); }
    if mk(f)@ == f && s["docInfo"@]->Obj_0.contains_key(k) && x.document_store.doc_info@[mk(k)]@.contains_key(mk(f)) { assert(s["docInfo"@]->Obj_0[k]->Obj_0.contains_key(mk(f)@)); }
}
}
fn main() {}
