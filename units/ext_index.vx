// ---------------------------------------------------------------------------------------------
// TRUSTED: std items the index uses
// ---------------------------------------------------------------------------------------------
pub mod vxidx {
use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::cmp::*;
use crate::vxmap::*;
/// `[T]::contains`
pub uninterp spec fn slice_has<T>(s: Seq<T>, x: T) -> bool;
pub broadcast axiom fn axiom_slice_has(s: Seq<String>, x: String)
    ensures #[trigger] slice_has(s, x) == s.contains(x);
pub assume_specification<T> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
          where
          T: std::cmp::PartialEq,
    ensures r == slice_has(s@, *x);
/// String equality compares characters
pub broadcast axiom fn axiom_string_eq(a: &String, b: &String)
    ensures #[trigger] <String as PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn axiom_string_eq_obeys()
    ensures #[trigger] <String as PartialEqSpec<String>>::obeys_eq_spec();
// square root of an f64
pub uninterp spec fn sqrt_f64(x: f64) -> f64;
pub trait VxF64: Sized {
    spec fn root(self) -> f64;
    fn vx_sqrt(self) -> (r: f64) ensures r == self.root();
}
impl VxF64 for f64 {
    open spec fn root(self) -> f64 { sqrt_f64(self) }
    #[verifier::external_body]
    fn vx_sqrt(self) -> (r: f64) { self.sqrt() }
}
/// `n as f64`
pub uninterp spec fn f64_of(n: int) -> f64;
pub trait VxNum: Sized {
    spec fn num(self) -> int;
}
impl VxNum for u64 { open spec fn num(self) -> int { self as int } }
impl VxNum for usize { open spec fn num(self) -> int { self as int } }
impl VxNum for u32 { open spec fn num(self) -> int { self as int } }
#[verifier::external_body]
pub fn vx_as_f64<T: VxNum>(n: T) -> (r: f64) ensures r == f64_of(n.num()) { unimplemented!() }

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(AsRefSpec via AsRefSpecImpl)]
pub trait ExAsRef<T: std::marker::PointeeSized>: std::marker::PointeeSized {
    type ExternalTraitSpecificationFor: AsRef<T>;
    spec fn as_ref_spec(&self) -> &T;
    fn as_ref(&self) -> (r: &T) ensures r == self.as_ref_spec();
}
/// stands for `Iterator::enumerate`: the same items with their positions
pub trait VxEnum: Iterator + Sized {
    fn vx_enumerate(self) -> (r: std::vec::IntoIter<(usize, Self::Item)>)
        requires IteratorSpec::obeys_prophetic_iter_laws(&self),
        ensures IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::decrease(&r) is Some,
            IteratorSpec::remaining(&r) == Seq::new(IteratorSpec::remaining(&self).len(), |i: int| (i as usize, IteratorSpec::remaining(&self)[i]));
}
impl<I: Iterator> VxEnum for I {
    #[verifier::external_body]
    fn vx_enumerate(self) -> (r: std::vec::IntoIter<(usize, Self::Item)>) { self.enumerate().collect::<Vec<_>>().into_iter() }
}
/// what a value yields when iterated
pub uninterp spec fn items<I: IntoIterator>(d: I) -> Seq<I::Item>;
#[verifier::prophetic]
pub open spec fn plain<I: IntoIterator>(d: I) -> bool {
    &&& call_requires(I::into_iter, (d,))
    &&& forall|it: I::IntoIter| #[trigger] call_ensures(I::into_iter, (d,), it) ==> IteratorSpec::obeys_prophetic_iter_laws(&it) && IteratorSpec::decrease(&it) is Some && IteratorSpec::remaining(&it) == items(d)
}
/// stands for `for x in d` over a generic iterator: the same items in the same order
#[verifier::external_body]
pub fn vx_each<I: IntoIterator>(d: I) -> (r: std::vec::IntoIter<I::Item>)
    requires plain(d),
    ensures IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::decrease(&r) is Some, IteratorSpec::remaining(&r) == items(d),
{ d.into_iter().collect::<Vec<_>>().into_iter() }
pub assume_specification<'a, K, V, A: std::alloc::Allocator + std::clone::Clone> [<&'a std::collections::BTreeMap<K, V, A> as IntoIterator>::into_iter] (m: &'a std::collections::BTreeMap<K, V, A>) -> (r: std::collections::btree_map::Iter<'a, K, V>)
    ensures IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::decrease(&r) is Some,
        IteratorSpec::remaining(&r).len() == m@.len(),
        IteratorSpec::remaining(&r).no_duplicates(),
        forall|i: int| 0 <= i < IteratorSpec::remaining(&r).len() ==> m@.contains_key(*(#[trigger] IteratorSpec::remaining(&r)[i]).0) && m@[*IteratorSpec::remaining(&r)[i].0] == *IteratorSpec::remaining(&r)[i].1,
        forall|k: K| #[trigger] m@.contains_key(k) ==> IteratorSpec::remaining(&r).contains((&k, &m@[k]));
pub broadcast group group_idx { axiom_slice_has, axiom_string_eq, axiom_string_eq_obeys }
}
pub use vxidx::*;
