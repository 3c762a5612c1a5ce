#![feature(allocator_api)]
#![feature(slice_index_methods, fn_traits, sized_hierarchy)]
#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_braces, unused_parens, non_snake_case, non_camel_case_types)]
//! expand
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use vstd::std_specs::iter::*;
use std::collections::BTreeMap;
use std::marker::PhantomData;
verus! {
broadcast use { vstd::utf8::group_utf8_lib, vxmap::group_map, vxstd::group_std, vxtext::group_text, vstd::std_specs::btree::group_btree_axioms };
//@include ext_map.vx
//@include ext_opt.vx
//@include ext_std.vx
//@include ext_text.vx
//@include serde.vx
//@include serde_de.vx
//@struct src/inverted_index.rs TermFrequency attr=derive(Clone,Copy)
//@struct src/inverted_index.rs IndexItem
//@struct src/inverted_index.rs InvertedIndex
//@include trie_spec.vx
//@struct src/document_store.rs DocumentStore
//@include store_spec.vx
pub trait PipelineFn {
    spec fn fpost(&self, t: Seq<char>, o: Option<Seq<char>>) -> bool;
    spec fn fname(&self) -> Seq<char>;
//@fn src/pipeline.rs trait PipelineFn::name
//@spec
        ensures r@ == self.fname(),
//@end
//@fn src/pipeline.rs trait PipelineFn::filter
//@spec
        ensures self.fpost(token@, sview(r)),
//@end
}
//@struct src/pipeline.rs Pipeline
//@include pipe_spec.vx
//@include lang_trait.vx
#[verifier::external_body]
pub struct TokenizerFn(Box<dyn Fn(&str) -> Vec<String>>);
pub type Tokenizer = Option<TokenizerFn>;
//@struct src/lib.rs Index
//@include json_spec.vx
//@include read_spec.vx
#[verifier::external_body]
pub exec const FIELDS: &'static [&'static str] ensures true { &[] }
// the registry (unit lang): which names and codes there are
pub uninterp spec fn registered(n: Seq<char>, c: Seq<char>) -> bool;
pub uninterp spec fn reg_has_name(n: Seq<char>) -> bool;
pub uninterp spec fn reg_has_code(c: Seq<char>) -> bool;
//@extern lang src/lang/mod.rs from_name
//@rename crate::lang::from_name from_name
//@extern lang src/lang/mod.rs from_code
//@rename crate::lang::from_code from_code

pub proof fn lemma_ix_distinct()
    ensures "fields"@ != "pipeline"@, "fields"@ != "ref"@, "fields"@ != "version"@, "fields"@ != "index"@, "fields"@ != "documentStore"@, "fields"@ != "lang"@, "pipeline"@ != "ref"@, "pipeline"@ != "version"@, "pipeline"@ != "index"@, "pipeline"@ != "documentStore"@, "pipeline"@ != "lang"@, "ref"@ != "version"@, "ref"@ != "index"@, "ref"@ != "documentStore"@, "ref"@ != "lang"@, "version"@ != "index"@, "version"@ != "documentStore"@, "version"@ != "lang"@, "index"@ != "documentStore"@, "index"@ != "lang"@, "documentStore"@ != "lang"@,
{ lemma_index_keys(); let k = index_keys(); assert(k[0] != k[1]); assert(k[0] != k[2]); assert(k[0] != k[3]); assert(k[0] != k[4]); assert(k[0] != k[5]); assert(k[0] != k[6]); assert(k[1] != k[2]); assert(k[1] != k[3]); assert(k[1] != k[4]); assert(k[1] != k[5]); assert(k[1] != k[6]); assert(k[2] != k[3]); assert(k[2] != k[4]); assert(k[2] != k[5]); assert(k[2] != k[6]); assert(k[3] != k[4]); assert(k[3] != k[5]); assert(k[3] != k[6]); assert(k[4] != k[5]); assert(k[4] != k[6]); assert(k[5] != k[6]); }
/// a language read from its name
pub open spec fn lang_dec(j: J, r: Option<Box<dyn Language>>) -> bool {
    j is Str ==> match r { Some(l) => l.lname() == j->Str_0, None => !reg_has_name(j->Str_0) }
}
impl FromJson for Box<dyn Language> {
    open spec fn dec(j: J, r: Option<Self>) -> bool { lang_dec(j, r) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
/// nothing is said about reading a pipeline (see known_findings.txt)
pub uninterp spec fn pipeline_dec(j: J, r: Option<Pipeline>) -> bool;
impl FromJson for Pipeline {
    open spec fn dec(j: J, r: Option<Self>) -> bool { pipeline_dec(j, r) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
pub mod de { pub use super::Error; }
pub struct LanguageVisitor;
#[verifier::external_body]
pub fn vx_format(f: &str, a: &str) -> String { unimplemented!() }
impl<'de> BorrowVisitor<'de> for LanguageVisitor {
    type Value = Box<dyn Language>;
    open spec fn on_text(s: Seq<char>, r: Option<Box<dyn Language>>) -> bool { lang_dec(J::Str(s), r) }
//@fn src/lib.rs <Visitor for LanguageVisitor>::visit_borrowed_str
//@end
}
//@fn src/lib.rs deserialize
//@as ser_lang_deserialize
//@spec
    ensures lang_dec(deserializer.input(), okay(r)),
//@end
//@local __DeserializeWith LangFrom Deserialize for Index
impl FromJson for LangFrom {
    open spec fn dec(j: J, r: Option<Self>) -> bool { lang_dec(j, match r { Some(w) => Some(w.value), None => None }) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
impl Deserialize<'static> for LangFrom {
//@fn expanded <Deserialize for __DeserializeWith in Deserialize for Index>::deserialize
//@rename __DeserializeWith LangFrom
//@rename ser_lang::deserialize ser_lang_deserialize
//@end
}
//@local __Field IxKey Deserialize for Index
//@local __FieldVisitor IxKeyVisitor Deserialize for Index
//@local __Visitor IxVisitor Deserialize for Index
pub open spec fn ix_key(s: Seq<char>) -> IxKey { if s == "fields"@ { IxKey::__field@{src/lib.rs Index fields} } else if s == "pipeline"@ { IxKey::__field@{src/lib.rs Index pipeline} } else if s == "ref"@ { IxKey::__field@{src/lib.rs Index ref_field} } else if s == "version"@ { IxKey::__field@{src/lib.rs Index version} } else if s == "index"@ { IxKey::__field@{src/lib.rs Index index} } else if s == "documentStore"@ { IxKey::__field@{src/lib.rs Index document_store} } else if s == "lang"@ { IxKey::__field@{src/lib.rs Index lang} } else { IxKey::__ignore } }
impl<'de> StrVisitor<'de> for IxKeyVisitor {
    type Value = IxKey;
    open spec fn on_str(s: Seq<char>, r: Option<IxKey>) -> bool { r == Some(ix_key(s)) }
//@fn expanded <Visitor for __FieldVisitor in Deserialize for Index>::visit_str
//@rename __Field IxKey
//@at begin
    proof { lemma_index_keys(); lemma_ix_distinct(); }
//@end
}
impl FromJson for IxKey {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Str ==> r == Some(ix_key(j->Str_0)) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
impl<'de> Deserialize<'de> for IxKey {
//@fn expanded <Deserialize for __Field in Deserialize for Index>::deserialize
//@rename __FieldVisitor IxKeyVisitor
//@end
}
pub open spec fn ix_dec(m: Map<Seq<char>, J>, r: Option<Index>) -> bool {
    match r {
        Some(v) => member_dec(m, "fields"@, Some(v.fields)) && member_dec(m, "pipeline"@, Some(v.pipeline)) && member_dec(m, "ref"@, Some(v.ref_field)) && member_dec(m, "version"@, Some(v.version)) && member_dec(m, "index"@, Some(v.index)) && member_dec(m, "documentStore"@, Some(v.document_store)) && member_dec(m, "lang"@, Some(v.lang)),
        None => member_dec(m, "fields"@, None::<Vec<String>>)
            || member_dec(m, "pipeline"@, None::<Pipeline>)
            || member_dec(m, "ref"@, None::<String>)
            || member_dec(m, "version"@, None::<&'static str>)
            || member_dec(m, "index"@, None::<BTreeMap<String, InvertedIndex>>)
            || member_dec(m, "documentStore"@, None::<DocumentStore>)
            || member_dec(m, "lang"@, None::<Box<dyn Language>>),
    }
}
impl MapVisitor<'static> for IxVisitor {
    type Value = Index;
    open spec fn on_map(m: Map<Seq<char>, J>, r: Option<Index>) -> bool { ix_dec(m, r) }
//@fn expanded <Visitor for __Visitor in Deserialize for Index>::visit_map
//@rename __Field IxKey
//@rename __DeserializeWith LangFrom
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@at begin
    let ghost m0 = __map.rest();
    let ghost mut r0 = m0;
    proof { lemma_index_keys(); lemma_ix_distinct(); }
//@loop 0 while
    invariant __map.cur() is None, within(__map.rest(), m0),
        seen(m0, __map.rest(), "fields"@, __field@{src/lib.rs Index fields}), seen(m0, __map.rest(), "pipeline"@, __field@{src/lib.rs Index pipeline}), seen(m0, __map.rest(), "ref"@, __field@{src/lib.rs Index ref_field}), seen(m0, __map.rest(), "version"@, __field@{src/lib.rs Index version}), seen(m0, __map.rest(), "index"@, __field@{src/lib.rs Index index}), seen(m0, __map.rest(), "documentStore"@, __field@{src/lib.rs Index document_store}), seen(m0, __map.rest(), "lang"@, __field@{src/lib.rs Index lang}),
        r0 == __map.rest(),
    ensures __map.rest() == Map::<Seq<char>, J>::empty(),
    decreases __map.rest().len(),
//@at in-loop 0
    let ghost s = choose|s: Seq<char>| r0.contains_key(s) && #[trigger] IxKey::dec(J::Str(s), Some(__key)) && __map.rest() == r0.remove(s) && __map.cur() == Some(r0[s]);
    proof { lemma_index_keys(); lemma_ix_distinct(); assert(m0.contains_key(s) && m0[s] == r0[s]); assert(__key == ix_key(s)); }
//@at end-loop 0
    proof { r0 = __map.rest(); }
//@end
}
impl FromJson for Index {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Obj ==> ix_dec(j->Obj_0, r) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
impl Deserialize<'static> for Index {
//@fn expanded <Deserialize for Index>::deserialize
//@rename __Visitor IxVisitor
//@end
}
/// C23: an index whose language is registered and whose pipeline is read is read back with the same fields,
/// reference field, version, language, documents and postings
pub proof fn theorem_index_back(x: Index, j: J, r: Option<Index>, f: String, t: Seq<char>)
    requires x.enc(j), Index::dec(j, r),
    ensures
        r is None ==> pipeline_dec(j->Obj_0["pipeline"@], None) || !reg_has_name(x.lang.lname()),
        r matches Some(y) ==> {
            &&& y.fields@ == x.fields@ && y.ref_field == x.ref_field && y.version@ == x.version@ && y.lang.lname() == x.lang.lname()
            &&& y.document_store.save == x.document_store.save && y.document_store.length == x.document_store.length
            &&& forall|d: String| #[trigger] stored(y.document_store, d) <==> stored(x.document_store, d)
            &&& forall|d: String| #[trigger] stored(y.document_store, d) ==> content(y.document_store, d) == content(x.document_store, d)
            &&& forall|d: String, g: String| #[trigger] kept(y.document_store, d, g) == kept(x.document_store, d, g)
            &&& y.index@.contains_key(f) <==> x.index@.contains_key(f)
            &&& y.index@.contains_key(f) ==> (present(y.index@[f].root, t) <==> present(x.index@[f].root, t))
                && tdocs(y.index@[f].root, t) == tdocs(x.index@[f].root, t) && tdf(y.index@[f].root, t) == tdf(x.index@[f].root, t)
        },
{
    lemma_index_keys(); lemma_ix_distinct();
    let o = j->Obj_0;
    assert(ix_dec(o, r));
    let (jf, ji, js) = (o["fields"@], o["index"@], o["documentStore"@]);
    assert forall|k: String| #[trigger] x.index@.contains_key(k) implies !InvertedIndex::dec(ji->Obj_0[k@], None) by {
        assert(ji->Obj_0.contains_key(k@)); assert(mk(k@) == k);
        if InvertedIndex::dec(ji->Obj_0[k@], None) { theorem_trie_back(x.index@[k], ji->Obj_0[k@], None, t); }
    }
    match r {
        None => {
            if Vec::<String>::dec(jf, None) { let i = choose|i: int| 0 <= i < jf->Arr_0.len() && #[trigger] String::dec(jf->Arr_0[i], None); assert(x.fields@[i].enc(jf->Arr_0[i])); }
            if BTreeMap::<String, InvertedIndex>::dec(ji, None) { lemma_map_back(x.index@, ji, None); }
            if DocumentStore::dec(js, None) { theorem_store_back(x.document_store, js, None); }
        }
        Some(y) => {
            assert forall|i: int| 0 <= i < x.fields@.len() implies y.fields@[i] == x.fields@[i] by {
                assert(x.fields@[i].enc(jf->Arr_0[i]));
                assert(String::dec(jf->Arr_0[i], Some(y.fields@[i])));
                assert(mk(x.fields@[i]@) == x.fields@[i] && mk(y.fields@[i]@) == y.fields@[i]);
            }
            assert(y.fields@ =~= x.fields@);
            assert(mk(x.ref_field@) == x.ref_field && mk(y.ref_field@) == y.ref_field);
            theorem_store_back(x.document_store, js, Some(y.document_store));
            lemma_map_back(x.index@, ji, Some(y.index));
            if y.index@.contains_key(f) { theorem_trie_back(x.index@[f], ji->Obj_0[f@], Some(y.index@[f]), t); }
        }
    }
}
}
fn main() {}
