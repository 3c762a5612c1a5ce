// ---------------------------------------------------------------------------------------------
// TRUSTED: plain std functions vstd has no contract for
// ---------------------------------------------------------------------------------------------
pub mod vxopt {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
/// `&x[..]` is all of x
pub trait VxFull { type Out: ?Sized; spec fn all(&self, r: &Self::Out) -> bool; fn vx_full(&self) -> (r: &Self::Out) ensures self.all(r); }
impl VxFull for String { type Out = str; open spec fn all(&self, r: &str) -> bool { r@ == self@ } #[verifier::external_body] fn vx_full(&self) -> (r: &str) { self.as_str() } }
impl VxFull for str { type Out = str; open spec fn all(&self, r: &str) -> bool { r@ == self@ } #[verifier::external_body] fn vx_full(&self) -> (r: &str) { self } }
impl<T> VxFull for Vec<T> { type Out = [T]; open spec fn all(&self, r: &[T]) -> bool { r@ == self@ } #[verifier::external_body] fn vx_full(&self) -> (r: &[T]) { self.as_slice() } }
impl<T> VxFull for [T] { type Out = [T]; open spec fn all(&self, r: &[T]) -> bool { r@ == self@ } #[verifier::external_body] fn vx_full(&self) -> (r: &[T]) { self } }
pub assume_specification<T, U, F: FnOnce(T) -> U> [Option::<T>::map_or] (o: Option<T>, default: U, f: F) -> (r: U)
    requires o.is_some() ==> f.requires((o.unwrap(),)),
    ensures o.is_none() ==> r == default, o.is_some() ==> f.ensures((o.unwrap(),), r);
pub assume_specification<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U> [Option::<T>::map_or_else] (o: Option<T>, d: D, f: F) -> (r: U)
    requires o.is_some() ==> f.requires((o.unwrap(),)), o.is_none() ==> d.requires(()),
    ensures o.is_none() ==> d.ensures((), r), o.is_some() ==> f.ensures((o.unwrap(),), r);
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
    requires o.is_some() ==> f.requires((o.unwrap(),)),
    ensures o.is_none() ==> r == false, o.is_some() ==> f.ensures((o.unwrap(),), r);
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_none_or] (o: Option<T>, f: F) -> (r: bool)
    requires o.is_some() ==> f.requires((o.unwrap(),)),
    ensures o.is_none() ==> r == true, o.is_some() ==> f.ensures((o.unwrap(),), r);
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures o.is_none() ==> r.is_none(), o.is_some() ==> r == Some(*o.unwrap());
pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter] (o: Option<T>, p: P) -> (r: Option<T>)
    requires o.is_some() ==> p.requires((&o.unwrap(),)),
    ensures o.is_none() ==> r.is_none(), o.is_some() ==> p.ensures((&o.unwrap(),), r.is_some()), r.is_some() ==> r == o;
pub assume_specification<T> [Option::<T>::or] (o: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if o.is_some() { o } else { b });
pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o.is_none() ==> f.requires(()),
    ensures o.is_some() ==> r == o, o.is_none() ==> f.ensures((), r);
pub assume_specification<T, U> [Option::<T>::and] (o: Option<T>, b: Option<U>) -> (r: Option<U>)
    ensures r == (if o.is_some() { b } else { None });
pub assume_specification<T, U> [Option::<T>::zip] (o: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures r == (if o.is_some() && b.is_some() { Some((o.unwrap(), b.unwrap())) } else { None });
pub assume_specification<T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T> [Option::<Option<T>>::flatten] (o: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => x, None => None });
pub assume_specification<T> [bool::then_some] (b: bool, t: T) -> (r: Option<T>)
    ensures r == (if b { Some(t) } else { None });
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o.is_ok() ==> f.requires((o->Ok_0,)),
    ensures o.is_ok() ==> f.ensures((o->Ok_0,), r), o.is_err() ==> r == Err::<U, E>(o->Err_0);
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (o: Result<T, E>, d: T) -> (r: T)
    ensures r == (if o.is_ok() { o->Ok_0 } else { d });
pub assume_specification<T, E, F: FnOnce(E) -> T> [Result::<T, E>::unwrap_or_else] (o: Result<T, E>, f: F) -> (r: T)
    requires o.is_err() ==> f.requires((o->Err_0,)),
    ensures o.is_ok() ==> r == o->Ok_0, o.is_err() ==> f.ensures((o->Err_0,), r);
pub assume_specification<T, E, F: FnOnce(T) -> bool> [Result::<T, E>::is_ok_and] (o: Result<T, E>, f: F) -> (r: bool)
    requires o.is_ok() ==> f.requires((o->Ok_0,)),
    ensures o.is_err() ==> r == false, o.is_ok() ==> f.ensures((o->Ok_0,), r);
pub assume_specification<T: Clone> [<T as std::borrow::ToOwned>::to_owned] (a: &T) -> (r: T)
    ensures vstd::pervasive::cloned::<T>(*a, r);
pub assume_specification [String::len] (s: &String) -> (r: usize)
    ensures r == encode_utf8(s@).len();
pub assume_specification [String::as_bytes] (s: &String) -> (r: &[u8])
    ensures r@ == encode_utf8(s@);
pub assume_specification [String::with_capacity] (n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty();
pub assume_specification<T> [std::mem::replace] (a: &mut T, b: T) -> (r: T)
    ensures r == *old(a), *final(a) == b;
/// `match` on string literals compares in order (see the extractor)
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn vx_some_str_eq(a: Option<&str>, b: &str) -> (r: bool) ensures r == (a is Some && a->Some_0@ == b@) { a == Some(b) }
}
pub use vxopt::*;
