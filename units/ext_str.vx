// ---------------------------------------------------------------------------------------------
// TRUSTED: contracts of standard-library string functions (bytes are encode_utf8 of the chars)
// ---------------------------------------------------------------------------------------------
pub open spec fn low(c: u8) -> u8 { if 65 <= c <= 90 { (c + 32) as u8 } else { c } }
pub open spec fn lower(w: Seq<u8>) -> Seq<u8> { w.map_values(|c: u8| low(c)) }
pub open spec fn low_char(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u32 + 32) as u32) as char } else { c } }

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);

pub assume_specification [String::from_utf8] (v: std::vec::Vec<u8>) -> (r: std::result::Result<std::string::String, std::string::FromUtf8Error>)
    ensures
        r.is_ok() <==> valid_utf8(v@),
        r.is_ok() ==> encode_utf8(r.unwrap()@) == v@,
;
pub assume_specification<T: std::clone::Clone> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned::<T>(s@[i], #[trigger] r@[i]),
;
/// `u8: Copy`, so its clone is the value itself
pub broadcast axiom fn axiom_cloned_u8(a: u8, b: u8)
    ensures #[trigger] vstd::pervasive::cloned::<u8>(a, b) ==> a == b;
pub broadcast proof fn lemma_cloned_seq_u8(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> vstd::pervasive::cloned::<u8>(a[i], #[trigger] b[i]),
    ensures #![trigger b.len(), a.len()] a == b,
{ broadcast use axiom_cloned_u8; assert(a =~= b); }
/// a byte length always fits in usize
pub broadcast axiom fn axiom_str_fits(s: &str)
    ensures #[trigger] s.spec_bytes().len() <= usize::MAX, s.spec_bytes() == encode_utf8(s@);
pub assume_specification [u8::is_ascii] (c: &u8) -> (r: bool)
    ensures r == (*c < 128),
;
pub assume_specification [std::string::String::into_bytes] (s: std::string::String) -> (r: std::vec::Vec<u8>)
    ensures r@ == encode_utf8(s@),
;
pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (r: std::string::String)
    ensures encode_utf8(r@) == lower(encode_utf8(s@)), valid_utf8(lower(encode_utf8(s@))),
;

pub assume_specification<T, I: std::slice::SliceIndex<[T]>, A: std::alloc::Allocator> [<Vec<T, A> as std::ops::IndexMut<I>>::index_mut] (v: &mut Vec<T, A>, i: I) -> (r: &mut <Vec<T, A> as std::ops::Index<I>>::Output)
    ensures exists|s0: &mut [T]| #[trigger] s0@ == old(v)@ && final(s0)@ == final(v)@ && call_ensures(<I as std::slice::SliceIndex<[T]>>::index_mut, (i, s0), r),
;
