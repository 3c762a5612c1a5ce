#![feature(allocator_api)]
#![feature(slice_index_methods, fn_traits)]
#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_braces, unused_parens, non_snake_case)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use vstd::std_specs::iter::*;
use std::collections::BTreeMap;
verus! {
broadcast use { vstd::utf8::group_utf8_lib, vxmap::group_map, vxstd::group_std, vstd::std_specs::btree::group_btree_axioms };
//@include ext_map.vx
//@include ext_opt.vx
//@include ext_std.vx

pub trait PipelineFn {
    /// the function can turn a token with characters t into o
    spec fn fpost(&self, t: Seq<char>, o: Option<Seq<char>>) -> bool;
    spec fn fname(&self) -> Seq<char>;
//@fn src/pipeline.rs trait PipelineFn::name
//@spec
        ensures r@ == self.fname(),
//@end
//@fn src/pipeline.rs trait PipelineFn::filter
//@spec
        ensures self.fpost(token@, sview(r)),
//@end
}
/// `fn(String) -> Option<String>`: some function of the token (opaque; Verus has no fn pointers)
#[verifier::external_body]
pub struct FnPtr(fn(String) -> Option<String>);
pub uninterp spec fn fnrel(f: FnPtr, t: Seq<char>, o: Option<Seq<char>>) -> bool;
#[verifier::external_body]
pub fn vx_call(f: &FnPtr, s: String) -> (r: Option<String>)
    ensures fnrel(*f, s@, sview(r)),
{ (f.0)(s) }
//@struct src/pipeline.rs FnWrapper
impl PipelineFn for FnWrapper {
    open spec fn fpost(&self, t: Seq<char>, o: Option<Seq<char>>) -> bool { fnrel(self.1, t, o) }
    open spec fn fname(&self) -> Seq<char> { self.0@ }
//@fn src/pipeline.rs <PipelineFn for FnWrapper>::name
//@end
//@fn src/pipeline.rs <PipelineFn for FnWrapper>::filter
//@end
}
//@struct src/pipeline.rs Pipeline
//@include pipe_spec.vx

impl Pipeline {
//@fn src/pipeline.rs Pipeline::run
//@spec
    ensures pipe_yields(self.queue@, views(tokens@), views(r@)),
//@at begin
    let ghost mut outs = Seq::<Option<Seq<char>>>::empty();
//@loop 0 for
    invariant it0.seq() == tokens@, 0 <= it0.index() <= tokens@.len(), chains(self.queue@, views(tokens@.take(it0.index() as int)), outs), views($mut0@) == somes(outs),
//@at in-loop 0
    let ghost t0 = $pat0@; let ghost q = self.queue@; let ghost i0 = it0.index() as int;
    proof { assert(q.take(0) =~= Seq::<Box<dyn PipelineFn>>::empty()); assert(q.take(q.len() as int) =~= q); }
//@loop 1 for
    invariant it1.seq() == self.queue@.as_ref(), q == self.queue@, q.take(q.len() as int) == q, 0 <= it1.index() <= q.len(), chain(q.take(it1.index() as int), t0, sview($asg1)),
    ensures chain(q, t0, sview($asg1)),
//@at in-loop 1
    let ghost m0 = sview($asg1); let ghost k0 = it1.index() as int;
    proof { assert(*$pat1 == q[k0]); if m0 is None { lemma_chain_none(q, k0, t0); lemma_chain_push(q, k0, t0, m0, None); } }
//@at end-loop 1
    proof { lemma_chain_push(q, k0, t0, m0, sview($asg1)); }
//@at after-loop 1
    let ghost ret0 = $mut0@;
    proof {
        lemma_chains_push(q, views(tokens@.take(i0)), outs, t0, sview($asg1));
        outs = outs.push(sview($asg1));
        assert(views(tokens@.take(i0 + 1)) =~= views(tokens@.take(i0)).push(t0));
        assert(forall|s: String| views(#[trigger] ret0.push(s)) =~= views(ret0).push(s@));
    }
//@at end
    proof { assert(tokens@.take(tokens@.len() as int) =~= tokens@); }
//@end
}
}
fn main() {}
