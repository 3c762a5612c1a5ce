// ---------------------------------------------------------------------------------------------
// TRUSTED: text functions of std, as functions on character sequences
// ---------------------------------------------------------------------------------------------
pub mod vxtext {
use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::cmp::*;
use crate::vxmap::*;
/// `char::is_whitespace` (Unicode White_Space)
pub uninterp spec fn is_ws(c: char) -> bool;
pub trait VxChar: Sized {
    spec fn ws(self) -> bool;
    fn vx_is_whitespace(self) -> (r: bool) ensures r == self.ws();
}
impl VxChar for char {
    open spec fn ws(self) -> bool { is_ws(self) }
    #[verifier::external_body]
    fn vx_is_whitespace(self) -> (r: bool) { self.is_whitespace() }
}
#[verifier::external_body]
pub fn vx_char_is_whitespace(c: char) -> (r: bool) ensures r == is_ws(c) { c.is_whitespace() }
pub open spec fn ascii_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn ascii_alpha(c: char) -> bool { ('a' <= c <= 'z') || ('A' <= c <= 'Z') }
pub assume_specification [char::is_digit] (c: char, radix: u32) -> (r: bool)
    requires 2 <= radix <= 36,
    ensures r == ((ascii_digit(c) && (c as u32) - 48 < radix) || ('a' <= c <= 'z' && (c as u32) - 97 + 10 < radix) || ('A' <= c <= 'Z' && (c as u32) - 65 + 10 < radix));
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool) ensures r == (ascii_digit(*c) || ascii_alpha(*c));
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == ascii_alpha(*c);
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == ascii_digit(*c);

/// `t` without its longest prefix and suffix of characters marked in `bs`
pub open spec fn strip(t: Seq<char>, bs: Seq<bool>) -> Seq<char>
    decreases t.len()
{
    if t.len() == 0 || bs.len() != t.len() { t }
    else if bs[0] { strip(t.skip(1), bs.skip(1)) }
    else if bs.last() { strip(t.drop_last(), bs.drop_last()) }
    else { t }
}
pub open spec fn marks(t: Seq<char>, p: spec_fn(char) -> bool) -> Seq<bool> { Seq::new(t.len(), |i: int| p(t[i])) }
/// `bs` marks the characters of `t` for which the predicate value `f` answers true
pub open spec fn answers<F: Fn(char) -> bool>(f: F, t: Seq<char>, bs: Seq<bool>) -> bool {
    bs.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> call_ensures(f, (#[trigger] t[i],), bs[i])
}
/// completed pieces, and the piece being read
pub open spec fn split_rec(t: Seq<char>, bs: Seq<bool>) -> (Seq<Seq<char>>, Seq<char>)
    decreases t.len()
{
    if t.len() == 0 || bs.len() != t.len() { (Seq::empty(), Seq::empty()) }
    else {
        let (d, c) = split_rec(t.drop_last(), bs.drop_last());
        if bs.last() { (d.push(c), Seq::empty()) } else { (d, c.push(t.last())) }
    }
}
/// the pieces between the characters marked in `bs`
pub open spec fn split_by(t: Seq<char>, bs: Seq<bool>) -> Seq<Seq<char>> { split_rec(t, bs).0.push(split_rec(t, bs).1) }

/// stands for the iterator of `str::split`: the same pieces in the same order
pub type VxSplit<'a> = std::vec::IntoIter<&'a str>;
/// std's `str::split`, `trim_matches` for predicates
pub trait VxText {
    spec fn chars_of(&self) -> Seq<char>;
    fn vx_split<'a, F: Fn(char) -> bool>(&'a self, f: F) -> (r: VxSplit<'a>)
        requires forall|c: char| #[trigger] call_requires(f, (c,)),
        ensures IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::decrease(&r) is Some,
            exists|bs: Seq<bool>| #[trigger] answers(f, self.chars_of(), bs) && str_views(IteratorSpec::remaining(&r)) == split_by(self.chars_of(), bs);
    fn vx_trim_matches<'a, F: Fn(char) -> bool>(&'a self, f: F) -> (r: &'a str)
        requires forall|c: char| #[trigger] call_requires(f, (c,)),
        ensures exists|bs: Seq<bool>| #[trigger] answers(f, self.chars_of(), bs) && r@ == strip(self.chars_of(), bs);
    fn vx_trim<'a>(&'a self) -> (r: &'a str)
        ensures r@ == strip(self.chars_of(), marks(self.chars_of(), |c: char| is_ws(c)));
    fn vx_to_lowercase(&self) -> (r: String)
        ensures r@ == lc(self.chars_of());
    fn vx_to_ascii_lowercase(&self) -> (r: String)
        ensures r@ == ascii_lc(self.chars_of());
    fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool)
        ensures r == (ascii_lc(self.chars_of()) == ascii_lc(o@));
}
impl VxText for str {
    open spec fn chars_of(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_split<'a, F: Fn(char) -> bool>(&'a self, f: F) -> (r: VxSplit<'a>) { self.split(f).collect::<Vec<_>>().into_iter() }
    #[verifier::external_body]
    fn vx_trim_matches<'a, F: Fn(char) -> bool>(&'a self, f: F) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim<'a>(&'a self) -> (r: &'a str) { self.trim() }
    #[verifier::external_body]
    fn vx_to_lowercase(&self) -> (r: String) { self.to_lowercase() }
    #[verifier::external_body]
    fn vx_to_ascii_lowercase(&self) -> (r: String) { self.to_ascii_lowercase() }
    #[verifier::external_body]
    fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { self.eq_ignore_ascii_case(o) }
}
pub open spec fn str_views(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }

/// Unicode lowercase mapping
pub uninterp spec fn lc(t: Seq<char>) -> Seq<char>;
pub open spec fn sep(c: char) -> bool { is_ws(c) || c == '-' }
/// ASCII letters to lower case, everything else unchanged
pub open spec fn ascii_lc_char(c: char) -> char {
    if 'A' <= c <= 'Z' { ((c as u32 + 32) as u32) as char } else { c }
}
pub open spec fn ascii_lc(t: Seq<char>) -> Seq<char> { t.map_values(|c: char| ascii_lc_char(c)) }
/// lowercasing empties nothing and produces no white space or hyphen
pub broadcast axiom fn axiom_lc(t: Seq<char>)
    requires t.len() > 0, forall|i: int| 0 <= i < t.len() ==> !sep(#[trigger] t[i]),
    ensures #![trigger lc(t)] lc(t).len() > 0, forall|i: int| 0 <= i < lc(t).len() ==> !sep(#[trigger] lc(t)[i]);



// Cow<str>
pub broadcast axiom fn axiom_cow_eq(a: &std::borrow::Cow<'_, str>, b: &String)
    ensures #[trigger] <std::borrow::Cow<'_, str> as PartialEqSpec<String>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn axiom_cow_eq_obeys()
    ensures #[trigger] <std::borrow::Cow<'_, str> as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn axiom_string_from_cow(s: std::borrow::Cow<'_, str>)
    ensures #[trigger] <String as FromSpec<std::borrow::Cow<'_, str>>>::from_spec(s)@ == s@;
pub broadcast axiom fn axiom_string_from_cow_obeys()
    ensures #[trigger] <String as FromSpec<std::borrow::Cow<'_, str>>>::obeys_from_spec();
pub uninterp spec fn cow_ref<'a, 'b, B: ?Sized + ToOwned>(c: &'b std::borrow::Cow<'a, B>) -> &'b B;
pub assume_specification<'a, 'b, B: ?Sized + ToOwned> [<std::borrow::Cow<'a, B> as std::ops::Deref>::deref] (c: &'b std::borrow::Cow<'a, B>) -> (r: &'b B)
    ensures r == cow_ref(c);
pub broadcast axiom fn axiom_cow_ref(c: &std::borrow::Cow<'_, str>)
    ensures (#[trigger] cow_ref::<str>(c))@ == c@;
pub assume_specification<'a, B: ?Sized + ToOwned> [std::borrow::Cow::<'a, B>::into_owned] (c: std::borrow::Cow<'a, B>) -> (r: <B as ToOwned>::Owned)
    ensures owned_of::<B>(c, r);
pub uninterp spec fn owned_of<B: ?Sized + ToOwned>(c: std::borrow::Cow<'_, B>, r: <B as ToOwned>::Owned) -> bool;
pub broadcast axiom fn axiom_owned_of(c: std::borrow::Cow<'_, str>, r: String)
    ensures #[trigger] owned_of::<str>(c, r) ==> r@ == c@;

// `&str` to String through Display
pub broadcast axiom fn axiom_display_ref_str(t: &&str, r: String)
    ensures #[trigger] to_string_from_display_ensures::<&str>(t, r) ==> r@ == t@;
pub broadcast axiom fn axiom_display_str(t: &str, r: String)
    ensures #[trigger] to_string_from_display_ensures::<str>(t, r) ==> r@ == t@;

pub broadcast axiom fn axiom_display_cow(t: &std::borrow::Cow<'_, str>, r: String)
    ensures #[trigger] to_string_from_display_ensures::<std::borrow::Cow<'_, str>>(t, r) ==> r@ == t@;
/// String equality compares characters
pub broadcast axiom fn axiom_string_eq_str(a: &String, b: &str)
    ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn axiom_string_eq_str_obeys()
    ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn axiom_string_eq_ref<'a>(a: &String, b: &&'a str)
    ensures #[trigger] <String as PartialEqSpec<&'a str>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn axiom_string_eq_ref_obeys<'a>()
    ensures #[trigger] <String as PartialEqSpec<&'a str>>::obeys_eq_spec();
pub broadcast axiom fn axiom_str_eq(a: &str, b: &str)
    ensures #[trigger] <str as PartialEqSpec<str>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn axiom_str_eq_obeys()
    ensures #[trigger] <str as PartialEqSpec<str>>::obeys_eq_spec();

// HashSet<String>
pub broadcast axiom fn axiom_hash_key_string()
    ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<String>();
pub broadcast axiom fn axiom_set_contains_str(m: Set<String>, k: &str)
    ensures #[trigger] vstd::std_specs::hash::set_contains_borrowed_key::<String, str>(m, k) <==> m.contains(mk(k@));
pub broadcast axiom fn axiom_collect_hashset(s: Seq<String>, m: std::collections::HashSet<String>)
    ensures #[trigger] <std::collections::HashSet<String> as FromIteratorSpec<String>>::from_iter_ensures(s, m) ==> m@ == s.to_set();

pub broadcast group group_text {
    axiom_lc, axiom_cow_eq, axiom_cow_eq_obeys, axiom_string_from_cow, axiom_string_from_cow_obeys, axiom_cow_ref, axiom_owned_of,
    axiom_display_ref_str, axiom_display_str, axiom_display_cow, axiom_string_eq_str, axiom_string_eq_str_obeys, axiom_string_eq_ref, axiom_string_eq_ref_obeys, axiom_str_eq, axiom_str_eq_obeys, axiom_hash_key_string, axiom_set_contains_str, axiom_collect_hashset,
}
}
pub use vxtext::*;
