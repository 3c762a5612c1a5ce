#![feature(allocator_api)]
#![feature(slice_index_methods, fn_traits, sized_hierarchy)]
#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_braces, unused_parens)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use vstd::std_specs::iter::*;
use std::collections::BTreeMap;
verus! {
broadcast use { vstd::utf8::group_utf8_lib, vxmap::group_map, vxstd::group_std, vxidx::group_idx, vstd::std_specs::btree::group_btree_axioms };
//@include ext_map.vx
//@include ext_opt.vx
//@include ext_std.vx
//@include ext_index.vx
//@castf64
//@rename .enumerate vx_enumerate
//@rename .sqrt vx_sqrt

// ---- the parts the index is made of, under the contracts that the units trie, store and pipe discharge
//@struct src/inverted_index.rs TermFrequency attr=derive(Clone,Copy)
//@struct src/inverted_index.rs IndexItem
//@struct src/inverted_index.rs InvertedIndex
//@include trie_spec.vx
impl InvertedIndex {
//@extern trie src/inverted_index.rs InvertedIndex::new
//@extern trie src/inverted_index.rs InvertedIndex::add_token
//@extern trie src/inverted_index.rs InvertedIndex::remove_token
//@extern trie src/inverted_index.rs InvertedIndex::has_token
//@extern trie src/inverted_index.rs InvertedIndex::get_doc_frequency
}
//@struct src/document_store.rs DocumentStore
//@include store_spec.vx
impl DocumentStore {
//@extern store src/document_store.rs DocumentStore::new
//@extern store src/document_store.rs DocumentStore::add_doc
//@extern store src/document_store.rs DocumentStore::add_field_length
//@extern store src/document_store.rs DocumentStore::is_stored
//@extern store src/document_store.rs DocumentStore::has_doc
//@extern store src/document_store.rs DocumentStore::get_doc
//@extern store src/document_store.rs DocumentStore::remove_doc
//@extern store src/document_store.rs DocumentStore::get_field_length
}
pub trait PipelineFn {
    spec fn fpost(&self, t: Seq<char>, o: Option<Seq<char>>) -> bool;
    spec fn fname(&self) -> Seq<char>;
//@fn src/pipeline.rs trait PipelineFn::name
//@spec
        ensures r@ == self.fname(),
//@end
//@fn src/pipeline.rs trait PipelineFn::filter
//@spec
        ensures self.fpost(token@, sview(r)),
//@end
}
//@struct src/pipeline.rs Pipeline
//@include pipe_spec.vx
impl Pipeline {
//@extern pipe src/pipeline.rs Pipeline::run
}
//@include lang_trait.vx
#[verifier::external_body]
pub struct English();
/// stands for unit lang's `impl Language for English`
impl Language for English {
    open spec fn lname(&self) -> Seq<char> { "English"@ }
    open spec fn lcode(&self) -> Seq<char> { "en"@ }
    uninterp spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool;
    uninterp spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool;
    #[verifier::external_body]
    fn name(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn code(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn tokenize(&self, text: &str) -> (r: Vec<String>) { unimplemented!() }
    #[verifier::external_body]
    fn make_pipeline(&self) -> (r: Pipeline) { unimplemented!() }
}
impl English {
//@extern lang src/lang/en.rs English::new
}
/// `Box<dyn Fn(&str) -> Vec<String>>`
#[verifier::external_body]
pub struct TokenizerFn(Box<dyn Fn(&str) -> Vec<String>>);
/// the tokenizer can split text t into ts
pub uninterp spec fn tokrel(f: TokenizerFn, t: Seq<char>, ts: Seq<Seq<char>>) -> bool;
#[verifier::external_body]
pub fn vx_call(f: &TokenizerFn, s: &str) -> (r: Vec<String>)
    ensures tokrel(*f, s@, views(r@)),
{ (f.0)(s) }
pub type Tokenizer = Option<TokenizerFn>;

// ---- the builder
//@struct src/lib.rs IndexBuilder
//@struct src/lib.rs Index
//@conststr src/lib.rs ELASTICLUNR_VERSION
//@include index_spec.vx
//@include index_hist.vx
//@default src/lib.rs IndexBuilder
//@spec
    ensures bwf(r), fresh_builder(r), r.language.lname() == "English"@,
//@end
impl IndexBuilder {
//@fn src/lib.rs IndexBuilder::new
//@spec
    ensures bwf(r), fresh_builder(r), r.language.lname() == "English"@,
//@end
//@fn src/lib.rs IndexBuilder::with_language
//@spec
    ensures bwf(r), fresh_builder(r), r.language == language,
//@end
//@fn src/lib.rs IndexBuilder::save_docs
//@spec
    ensures r == (IndexBuilder { save: save, ..self }), bwf(self) ==> bwf(r),
//@end
//@fn src/lib.rs IndexBuilder::add_field
//@panic has_field(self.fields@, field@)
//@spec
    ensures !has_field(self.fields@, field@), field_added(self, r, field@, None), bwf(self) ==> bwf(r),
//@end
//@fn src/lib.rs IndexBuilder::add_field_with_tokenizer
//@panic has_field(self.fields@, field@)
//@spec
    ensures !has_field(self.fields@, field@), field_added(self, r, field@, Some(tokenizer)), bwf(self) ==> bwf(r),
//@end
//@fn src/lib.rs IndexBuilder::set_ref
//@spec
    ensures r == (IndexBuilder { ref_field: r.ref_field, ..self }), r.ref_field@ == ref_field@, bwf(self) ==> bwf(r),
//@end
//@fn src/lib.rs IndexBuilder::build
//@spec
    requires bwf(self),
    ensures built(self, r), iwf(r),
//@closure 0
types &String
-> (p: (String, InvertedIndex)) ensures p.0 == *$0, empty_item(p.1.root), wf(p.1.root)
//@closure 1
-> (p: Pipeline) ensures language.lpipe(p.queue@)
//@at wrap
    proof {
        assert(r.fields == self.fields);
        assert forall|f: String| #[trigger] r.index@.contains_key(f) implies self.fields@.contains(f) by {}
        assert forall|f: String| self.fields@.contains(f) implies #[trigger] r.index@.contains_key(f) by {
            let i = choose|i: int| 0 <= i < self.fields@.len() && self.fields@[i] == f;
            assert(*self.fields@.as_ref()[i] == f);
        }
        assert forall|f: String| #[trigger] r.index@.contains_key(f) implies empty_item(r.index@[f].root) by {}
        assert forall|f: String| #[trigger] r.index@.contains_key(f) implies wf(r.index@[f].root) by {}
        assert(r.version@ == "0.9.5"@);
        assert(match self.pipeline { Some(p) => r.pipeline == p, None => self.language.lpipe(r.pipeline.queue@) });
    }
//@end
//@fn src/lib.rs IndexBuilder::add_fields
//@spec
    requires plain(fields), bwf(self),
    ensures fields_added(self, r, texts(fields)), bwf(r),
//@foriter 0 vx_each
//@loop 0 for
    invariant it0.seq() == items(fields), fields_added(self, $asg0, texts(fields).take(it0.index() as int)), bwf($asg0),
//@at in-loop 0
    let ghost (vs, k) = (texts(fields), it0.index() as int);
    proof { assert(vs.take(k + 1).drop_last() =~= vs.take(k)); assert(vs.take(k + 1).last() == vs[k]); }
//@at end-loop 0
    proof {
        lemma_fields_step(self, vs, k, $asg0);
    }
//@at end
    proof { assert(texts(fields).take(texts(fields).len() as int) =~= texts(fields)); }
//@end
}
impl Index {
//@fn src/lib.rs Index::new
//@spec
    requires plain(fields),
    ensures iwf(r), index_of(r, texts(fields)), r.lang.lname() == "English"@,
//@end
//@fn src/lib.rs Index::with_language
//@spec
    requires plain(fields),
    ensures iwf(r), index_of(r, texts(fields)), r.lang == lang,
//@end
//@fn src/lib.rs Index::get_fields
//@spec
    ensures r@ == self.fields@,
//@end
//@fn src/lib.rs Index::add_doc
//@spec
    requires iwf(*old(self)), plain(data), items(data).len() <= old(self).fields@.len(),
    ensures iwf(*final(self)), same_settings(*old(self), *final(self)), doc_stored(*old(self), *final(self), mk(doc_ref@), texts(data)),
        exists|ys: Seq<Seq<Seq<char>>>| #[trigger] fields_indexed(*old(self), *final(self), mk(doc_ref@), texts(data), ys),
//@at begin
    let ghost s0 = *self;
    let ghost mut ys = Seq::<Seq<Seq<char>>>::empty();
    let ghost n = items(data).len() as int;
    let ghost ds = items(data);
    let ghost vals = texts(data);
    let ghost d0 = mk(doc_ref@);
    proof { assert(self.fields.len() <= usize::MAX); lemma_index_start(s0, *self, d0, vals.take(0)); }
//@loop 0 for
    invariant it0.seq() == Seq::new(ds.len(), |i: int| (i as usize, ds[i])), n == ds.len(), n <= usize::MAX, n <= s0.fields@.len(), vals == ds.map_values(|x: I::Item| x.as_ref_spec()@), d0 == mk(doc_ref@),
        iwf(*self), same_settings(s0, *self), self.document_store.docs == s0.document_store.docs,
        $mut0@ == doc_fields(s0.ref_field, d0, s0.fields@, vals.take(it0.index() as int)),
        fields_indexed(s0, *self, d0, vals.take(it0.index() as int), ys),
//@at in-loop 0
    let ghost k = it0.index() as int;
    let ghost s1 = *self;
    let ghost ys1 = ys;
    proof { ys = ys.push(Seq::empty()); lemma_doc_step(s0.ref_field, d0, s0.fields@, vals, k); }
//@at before-loop 1
    let ghost toks = tokens@;
    proof { assert(toks.len() <= usize::MAX); assert(views(toks.take(0)) =~= Seq::<Seq<char>>::empty()); }
//@loop 1 for
    invariant it1.seq() == toks, counts($mut1@, views(toks.take(it1.index() as int))), toks.len() <= usize::MAX,
//@at in-loop 1
    let ghost j = it1.index() as int;
    let ghost m0 = $mut1@;
    proof {
        assert(views(toks.take(j + 1)).drop_last() =~= views(toks.take(j)));
        assert(views(toks.take(j + 1)).last() == toks[j]@);
        lemma_occ_le(views(toks.take(j)), toks[j]@);
    }
//@at before-loop 2
    let ghost s3 = *self;
    let ghost m = $mut1@;
    let ghost f = s0.fields@[k];
    proof {
        assert(toks.take(toks.len() as int) =~= toks);
        if m.len() == 0 { lemma_part_none(s1.index@[f].root, d0, m, toks); }
        assert(f == *field);
        assert(s1.fields@.contains(f));
        assert(s1.index@.contains_key(f));
        assert(self.index@ == s1.index@);
        assert(wf(s1.index@[f].root));
    }
//@loop 2 for
    invariant it2.seq().len() == m.len(), counts(m, views(toks)), f == *field,
        forall|i: int| 0 <= i < it2.seq().len() ==> m.contains_key(*(#[trigger] it2.seq()[i]).0) && m[*it2.seq()[i].0] == *it2.seq()[i].1,
        forall|q: String| #[trigger] m.contains_key(q) ==> it2.seq().contains((&q, &m[q])),
        d0 == mk(doc_ref@), s1.index@.contains_key(f), same_settings(s3, *self), self.document_store == s3.document_store,
        forall|g: String| #[trigger] self.index@.contains_key(g) <==> s1.index@.contains_key(g),
        forall|g: String| g != f ==> #[trigger] self.index@[g] == s1.index@[g],
        wf(self.index@[f].root),
        part(s1.index@[f].root, self.index@[f].root, d0, m, it2.seq().take(it2.index() as int)),
        it2.index() == it2.seq().len() ==> tallied(s1.index@[f].root, self.index@[f].root, d0, views(toks)),
//@at in-loop 2
    let ghost e = it2.index() as int;
    let ghost y0 = self.index@[f].root;
//@at end-loop 2
    proof {
        lemma_part_step(s1.index@[f].root, y0, self.index@[f].root, d0, m, it2.seq(), e);
        lemma_part_end(s1.index@[f].root, self.index@[f].root, d0, m, it2.seq(), e, toks);
    }
//@at block-end 2
    proof {
        ys = ys1.push(views(toks));
        lemma_field_done(s0, s1, *self, d0, vals, k, ys1, views(toks));
    }
//@at end-loop 0
    proof { if s0.fields@[k] == s0.ref_field { lemma_field_skip(s0, *self, d0, vals, k, ys1, Seq::empty()); } }
//@at after-loop 0
    let ghost s9 = *self;
    proof { assert(vals.take(n) =~= vals); }
//@at end
    proof { lemma_doc_end(s0, s9, *self, d0, vals, ys); }
//@end
}
/// the history theorems (index_hist.vx) speak of what add_doc's contract gives
pub fn vx_link_add_doc<I>(x: &mut Index, doc_ref: &str, data: I)
where I: IntoIterator, I::Item: AsRef<str>,
    requires iwf(*old(x)), plain(data), items(data).len() <= old(x).fields@.len(),
    ensures exists|r: Rec| #[trigger] did(*old(x), *final(x), r) && r.d == mk(doc_ref@) && r.vals == texts(data),
{
    let ghost a = *x;
    x.add_doc(doc_ref, data);
    proof {
        let ys = choose|ys: Seq<Seq<Seq<char>>>| #[trigger] fields_indexed(a, *x, mk(doc_ref@), texts(data), ys);
        let r = Rec { d: mk(doc_ref@), vals: texts(data), ys };
        assert(did(a, *x, r));
    }
}
/// C15: adding a document d leaves every other document's postings, its contribution to document
/// frequencies, its stored content and its field lengths as they were, and touches only fields it has values for
pub proof fn theorem_isolation(a: Index, b: Index, d: String, vals: Seq<Seq<char>>, ys: Seq<Seq<Seq<char>>>, e: String, f: String, t: Seq<char>)
    requires iwf(a), iwf(b), vals.len() <= a.fields@.len(), same_settings(a, b), doc_stored(a, b, d, vals), fields_indexed(a, b, d, vals, ys),
    ensures
        b.index@.contains_key(f) <==> a.index@.contains_key(f),
        // other documents
        e != d && a.index@.contains_key(f) ==> {
            &&& tdocs(b.index@[f].root, t).contains_key(e) <==> tdocs(a.index@[f].root, t).contains_key(e)
            &&& tdocs(a.index@[f].root, t).contains_key(e) ==> tdocs(b.index@[f].root, t)[e] == tdocs(a.index@[f].root, t)[e]
        },
        e != d ==> kept(b.document_store, e, f) == kept(a.document_store, e, f),
        e != d ==> (stored(b.document_store, e) <==> stored(a.document_store, e)) && (stored(a.document_store, e) ==> content(b.document_store, e) == content(a.document_store, e)),
        // document frequencies: only d's own contribution changes
        a.index@.contains_key(f) ==> tdf(b.index@[f].root, t) == tdf(a.index@[f].root, t)
            + (if tdocs(b.index@[f].root, t).contains_key(d) { 1int } else { 0 }) - (if tdocs(a.index@[f].root, t).contains_key(d) { 1int } else { 0 }),
        // fields without a value, and the reference field
        a.index@.contains_key(f) && (f == a.ref_field || !a.fields@.take(vals.len() as int).contains(f)) ==> b.index@[f] == a.index@[f] && kept(b.document_store, e, f) == kept(a.document_store, e, f),
        // settings
        b.fields == a.fields && b.ref_field == a.ref_field && b.document_store.save == a.document_store.save && b.pipeline == a.pipeline && b.lang == a.lang,
{
    if a.index@.contains_key(f) {
        assert(a.fields@.contains(f));
        let i = choose|i: int| 0 <= i < a.fields@.len() && a.fields@[i] == f;
        assert(b.index@.contains_key(f));
        let (x, y) = (a.index@[f].root, b.index@[f].root);
        assert(wf(x) && wf(y));
        assert(tdf(x, t) == tdocs(x, t).len() && tdf(y, t) == tdocs(y, t).len());
        lemma_docs_finite(x, t);
        if i < vals.len() && f != a.ref_field {
            assert(tallied(x, y, d, ys[i]));
            assert(tdocs(y, t) == if t.len() > 0 && occ(ys[i], t) > 0 { tdocs(x, t).insert(d, tf_of(occ(ys[i], t))) } else { tdocs(x, t) });
            assert(a.fields@.take(vals.len() as int)[i] == f);
        } else {
            if a.fields@.take(vals.len() as int).contains(f) {
                let j = choose|j: int| 0 <= j < vals.len() && a.fields@.take(vals.len() as int)[j] == f;
                assert(a.fields@[j] == f);
            }
        }
    }
}
/// the documents of a node are those of an actual map
pub proof fn lemma_docs_finite(x: IndexItem, t: Seq<char>)
    ensures tdocs(x, t).dom().finite(),
{ }
}
fn main() {}
