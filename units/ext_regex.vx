// ---------------------------------------------------------------------------------------------
// TRUSTED stand-ins for crates that cannot be linked here: regex, rust_stemmers
// ---------------------------------------------------------------------------------------------
pub mod regex {
use super::*;
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { e: u8 }
#[verifier::external_body]
pub struct Regex { p: String }
/// `regex::Regex` accepts this pattern
pub uninterp spec fn rx_ok(pat: Seq<char>) -> bool;
pub uninterp spec fn rx_replace_all(pat: Seq<char>, t: Seq<char>, rep: Seq<char>) -> Seq<char>;
pub uninterp spec fn rx_replace(pat: Seq<char>, t: Seq<char>, rep: Seq<char>) -> Seq<char>;
impl Regex {
    pub uninterp spec fn pat(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(re: &str) -> (r: Result<Regex, Error>)
        ensures rx_ok(re@) ==> r is Ok && r->Ok_0.pat() == re@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn replace_all<'h>(&self, h: &'h str, rep: &str) -> (r: std::borrow::Cow<'h, str>)
        ensures r@ == rx_replace_all(self.pat(), h@, rep@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn replace<'h>(&self, h: &'h str, rep: &str) -> (r: std::borrow::Cow<'h, str>)
        ensures r@ == rx_replace(self.pat(), h@, rep@),
    { unimplemented!() }
}
impl Clone for Regex {
    #[verifier::external_body]
    fn clone(&self) -> (r: Regex) ensures r.pat() == self.pat() { unimplemented!() }
}
/// `format!(f, a)` with one argument
pub uninterp spec fn fmt1(f: Seq<char>, a: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_format(f: &str, a: &str) -> (r: String) ensures r@ == fmt1(f@, a@) { unimplemented!() }
/// `w` is the inside of a bracketed class, e.g. `\p{Latin}` or `0-9A-Za-z`; `in_class`: c matches `[w]`
pub uninterp spec fn class_ok(w: Seq<char>) -> bool;
pub uninterp spec fn in_class(w: Seq<char>, c: char) -> bool;
/// what `^[^w]+|[^w]+$` matches: the longest prefix and the longest suffix outside the class
pub broadcast axiom fn axiom_trim_regex(w: Seq<char>, t: Seq<char>)
    requires class_ok(w),
    ensures (#[trigger] rx_replace_all(fmt1("^[^{0}]+|[^{0}]+$"@, w), t, ""@)) == strip(t, marks(t, |c: char| !in_class(w, c)));
pub broadcast axiom fn axiom_trim_regex_ok(w: Seq<char>)
    requires class_ok(w),
    ensures rx_ok(#[trigger] fmt1("^[^{0}]+|[^{0}]+$"@, w));
/// the classes the languages are built with are valid
pub axiom fn axiom_classes()
    ensures class_ok("\\p{Latin}"@), class_ok("\\p{Cyrillic}"@), class_ok("\\p{Latin}\\p{Hangul}"@), class_ok("\\p{Unified_Ideograph}\\p{Latin}"@),
        class_ok("0-9A-Za-z\\p{Hiragana}\\p{Katakana}\\p{Unified_Ideograph}"@);
/// a pattern that is one character class: its first match, all its matches
pub open spec fn is_dia(c: char) -> bool { c == '\u{640}' || ('\u{64b}' <= c <= '\u{65b}') }
pub open spec fn is_alef(c: char) -> bool { c == '\u{622}' || c == '\u{623}' || c == '\u{625}' || c == '\u{671}' || c == '\u{649}' }
pub open spec fn subst_all(t: Seq<char>, p: spec_fn(char) -> bool, rep: Seq<char>) -> Seq<char>
    decreases t.len()
{
    if t.len() == 0 { t } else { let h = subst_all(t.drop_last(), p, rep); if p(t.last()) { h + rep } else { h.push(t.last()) } }
}
pub open spec fn subst_first(t: Seq<char>, p: spec_fn(char) -> bool, rep: Seq<char>) -> Seq<char>
    decreases t.len()
{
    if t.len() == 0 { t } else if p(t[0]) { rep + t.skip(1) } else { seq![t[0]] + subst_first(t.skip(1), p, rep) }
}
pub open spec fn pat_dia() -> Seq<char> { "[\u{0640}\u{064b}-\u{065b}]"@ }
pub open spec fn pat_alef() -> Seq<char> { "[\u{0622}\u{0623}\u{0625}\u{0671}\u{0649}]"@ }
pub axiom fn axiom_arabic_patterns()
    ensures rx_ok(pat_dia()), rx_ok(pat_alef()),
        forall|t: Seq<char>, rep: Seq<char>| #[trigger] rx_replace(pat_dia(), t, rep) == subst_first(t, |c: char| is_dia(c), rep),
        forall|t: Seq<char>, rep: Seq<char>| #[trigger] rx_replace_all(pat_dia(), t, rep) == subst_all(t, |c: char| is_dia(c), rep),
        forall|t: Seq<char>, rep: Seq<char>| #[trigger] rx_replace(pat_alef(), t, rep) == subst_first(t, |c: char| is_alef(c), rep),
        forall|t: Seq<char>, rep: Seq<char>| #[trigger] rx_replace_all(pat_alef(), t, rep) == subst_all(t, |c: char| is_alef(c), rep);
pub broadcast group group_regex { axiom_trim_regex, axiom_trim_regex_ok }
}
pub use regex::*;
pub mod rust_stemmers {
use super::*;
#[derive(Clone, Copy)]
pub enum Algorithm { Arabic, Danish, Dutch, English, Finnish, French, German, Greek, Hungarian, Italian, Norwegian, Portuguese, Romanian, Russian, Spanish, Swedish, Tamil, Turkish }
#[verifier::external_body]
pub struct Stemmer { a: Algorithm }
/// the Snowball stemmer of a language
pub uninterp spec fn snowball(a: Algorithm, t: Seq<char>) -> Seq<char>;
impl Stemmer {
    pub uninterp spec fn algo(&self) -> Algorithm;
    #[verifier::external_body]
    pub fn create(lang: Algorithm) -> (r: Stemmer) ensures r.algo() == lang { unimplemented!() }
    #[verifier::external_body]
    pub fn stem<'a>(&self, input: &'a str) -> (r: std::borrow::Cow<'a, str>) ensures r@ == snowball(self.algo(), input@) { unimplemented!() }
}
}
pub use rust_stemmers::{Algorithm, snowball};
