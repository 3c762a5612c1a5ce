#![feature(allocator_api)]
#![feature(slice_index_methods, fn_traits)]
#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_braces, unused_parens, non_snake_case)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use vstd::std_specs::iter::*;
use std::collections::*;
verus! {
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, lemma_tokenize, lemma_strip_clean, langspec::group_lang, axiom_string_from_str, axiom_string_from_str_obeys };
//@include ext_map.vx
pub mod vxfrom {
use super::*;
/// `String: From<&str>`
pub broadcast axiom fn axiom_string_from_str(s: &str)
    ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<&str>>::from_spec(s) == mk(s@);
pub broadcast axiom fn axiom_string_from_str_obeys()
    ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<&str>>::obeys_from_spec();
}
pub use vxfrom::*;
//@include ext_opt.vx
//@include ext_text.vx
//@include text_spec.vx
//@include ext_regex.vx
//@include ext_seg.vx
//@rename .filter_map vx_filter_map
//@rename .split vx_split
//@rename .trim vx_trim
//@rename .trim_matches vx_trim_matches
//@rename .to_lowercase vx_to_lowercase
//@rename .to_ascii_lowercase vx_to_ascii_lowercase
//@rename .eq_ignore_ascii_case vx_eq_ignore_ascii_case
//@rename .is_whitespace vx_is_whitespace
//@rename =char::is_whitespace vx_char_is_whitespace
//@fnptr FnWrapper 1
//@own push insert extend
/// the identity: the verifier knows the static type of a function's result, `dyn` or not
pub fn vx_own<X>(x: X) -> (r: X) ensures r == x { x }
pub trait PipelineFn {
    /// what the function does to a token
    spec fn fpost(&self, t: Seq<char>, o: Option<Seq<char>>) -> bool;
    spec fn fname(&self) -> Seq<char>;
//@fn src/pipeline.rs trait PipelineFn::name
//@spec
        ensures r@ == self.fname(),
//@end
//@fn src/pipeline.rs trait PipelineFn::filter
//@spec
        ensures self.fpost(token@, sview(r)),
//@end
}
//@include pipe_spec.vx
//@include lang_spec.vx
/// `fn(String) -> Option<String>` (Verus has no fn pointers)
#[verifier::external_body]
pub struct FnPtr(fn(String) -> Option<String>);
/// the function can turn a String with characters t into o
pub uninterp spec fn fnrel(f: FnPtr, t: Seq<char>, o: Option<Seq<char>>) -> bool;
#[verifier::external_body]
pub fn vx_call(f: &FnPtr, s: String) -> (r: Option<String>)
    ensures fnrel(*f, s@, sview(r)),
{ (f.0)(s) }
/// a function item coerced to a fn pointer
#[verifier::external_body]
pub fn vx_fnptr<F: Fn(String) -> Option<String>>(f: F) -> (r: FnPtr)
    requires forall|s: String| #[trigger] call_requires(f, (s,)),
    ensures forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] fnrel(r, t, o) ==> exists|s: String, x: Option<String>| s@ == t && o == sview(x) && #[trigger] call_ensures(f, (s,), x),
{ unimplemented!() }
//@struct src/pipeline.rs FnWrapper
impl PipelineFn for FnWrapper {
    open spec fn fpost(&self, t: Seq<char>, o: Option<Seq<char>>) -> bool { fnrel(self.1, t, o) }
    open spec fn fname(&self) -> Seq<char> { self.0@ }
//@fn src/pipeline.rs <PipelineFn for FnWrapper>::name
//@end
//@fn src/pipeline.rs <PipelineFn for FnWrapper>::filter
//@end
}
//@struct src/pipeline.rs Pipeline

//@fn src/lang/mod.rs tokenize_whitespace
//@twin
//@spec
    ensures views(r@) == tokens(text@),
//@closure 0
-> (b: bool) ensures b == sep($0)
//@closure 1
types &&str
-> (b: bool) ensures b == ($0@.len() > 0)
//@closure 2
types &str
-> (q: String) ensures no_sep($0@) ==> q@ == lc($0@)
//@end

// src/lang/common.rs
//@struct src/lang/common.rs StopWordFilter
impl StopWordFilter {
    pub open spec fn words(&self) -> Set<String> { self.stop_words@ }
//@fn src/lang/common.rs StopWordFilter::new
//@twin
//@spec
    ensures r.fname() == name@, forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] r.fpost(t, o) ==> o == drop_words(lit_views(stop_words@), t),
//@closure 0
types &&str
-> (q: String) ensures q@ == $0@
//@at wrap
    proof { 
        assert(words_of(stop_words@.as_ref()) =~= lit_views(stop_words@));
    }
//@end
}
impl PipelineFn for StopWordFilter {
    /// `t` is some String's characters, dropped exactly when it is in the set
    open spec fn fpost(&self, t: Seq<char>, o: Option<Seq<char>>) -> bool { exists|s: String| #[trigger] s@ == t && o == (if self.stop_words@.contains(s) { None } else { Some(t) }) }
    open spec fn fname(&self) -> Seq<char> { self.name@ }
//@fn src/lang/common.rs <PipelineFn for StopWordFilter>::name
//@end
//@fn src/lang/common.rs <PipelineFn for StopWordFilter>::filter
//@end
}
//@struct src/lang/common.rs RegexTrimmer
impl RegexTrimmer {
//@fn src/lang/common.rs RegexTrimmer::new
//@spec
    requires class_ok(word_chars@),
    ensures r.fname() == name@, forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] r.fpost(t, o) ==> o == keep(script_trim(word_chars@, t)),
//@end
}
impl PipelineFn for RegexTrimmer {
    open spec fn fpost(&self, t: Seq<char>, o: Option<Seq<char>>) -> bool { o == keep(rx_replace_all(self.trimmer.pat(), t, ""@)) }
    open spec fn fname(&self) -> Seq<char> { self.name@ }
//@fn src/lang/common.rs <PipelineFn for RegexTrimmer>::name
//@end
//@fn src/lang/common.rs <PipelineFn for RegexTrimmer>::filter
//@end
}
//@struct src/lang/common.rs RustStemmer
impl RustStemmer {
//@fn src/lang/common.rs RustStemmer::new
//@spec
    ensures r.fname() == name@, forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] r.fpost(t, o) ==> o == keep(snowball(algo, t)),
//@end
}
impl PipelineFn for RustStemmer {
    open spec fn fpost(&self, t: Seq<char>, o: Option<Seq<char>>) -> bool { o == keep(snowball(self.stemmer.algo(), t)) }
    open spec fn fname(&self) -> Seq<char> { self.name@ }
//@fn src/lang/common.rs <PipelineFn for RustStemmer>::name
//@end
//@fn src/lang/common.rs <PipelineFn for RustStemmer>::filter
//@end
}
/// a stop-word filter for some list of words
pub open spec fn stops(f: Box<dyn PipelineFn>, ws: Seq<Seq<char>>) -> bool { forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] f.fpost(t, o) ==> o == drop_words(ws, t) }

//@include lang_trait.vx
/// the fixed elasticlunr stop words, and the empty string
//@pinlist en_words ["", "a", "able", "about", "across", "after", "all", "almost", "also", "am", "among", "an", "and", "any", "are", "as", "at", "be", "because", "been", "but", "by", "can", "cannot", "could", "dear", "did", "do", "does", "either", "else", "ever", "every", "for", "from", "get", "got", "had", "has", "have", "he", "her", "hers", "him", "his", "how", "however", "i", "if", "in", "into", "is", "it", "its", "just", "least", "let", "like", "likely", "may", "me", "might", "most", "must", "my", "neither", "no", "nor", "not", "of", "off", "often", "on", "only", "or", "other", "our", "own", "rather", "said", "say", "says", "she", "should", "since", "so", "some", "than", "that", "the", "their", "them", "then", "there", "these", "they", "this", "tis", "to", "too", "twas", "us", "wants", "was", "we", "were", "what", "when", "where", "which", "while", "who", "whom", "why", "will", "with", "would", "yet", "you", "your"]

pub mod en {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, langspec::group_lang, axiom_string_from_str, axiom_string_from_str_obeys };
pub proof fn lemma_en_words() ensures drop_words(en_words(), Seq::empty()) is None { let w = en_words(); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert(w[0] == ""@); }
//@constlist src/lang/en.rs WORDS en_words
//@struct src/lang/en.rs Stemmer
/// Porter's algorithm on bytes (defined in unit porter)
pub uninterp spec fn english_stem(w: Seq<u8>) -> Seq<u8>;
pub open spec fn en_stem_post(t: Seq<char>, o: Option<Seq<char>>) -> bool {
    &&& o is Some
    &&& encode_utf8(o->Some_0) == english_stem(encode_utf8(t))
    &&& encode_utf8(t).len() > 0 ==> encode_utf8(o->Some_0).len() > 0
}
impl Stemmer {
//@fn src/lang/en.rs Stemmer::new
//@end
}
impl Clone for Stemmer { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl PipelineFn for Stemmer {
    open spec fn fpost(&self, t: Seq<char>, o: Option<Seq<char>>) -> bool { en_stem_post(t, o) }
    open spec fn fname(&self) -> Seq<char> { "stemmer"@ }
//@fn src/lang/en.rs <PipelineFn for Stemmer>::name
//@end
    /// verified in unit porter against this contract
    #[verifier::external_body]
    fn filter(&self, token: String) -> (r: Option<String>) { unimplemented!() }
}
//@fn src/lang/en.rs trimmer
//@twin
//@spec
    ensures sview(r) == Some(en_trim(token@)),
//@closure 0
-> (b: bool) ensures b == !en_word_char($0)
//@end
//@struct src/lang/en.rs English
impl English {
//@fn src/lang/en.rs English::new
//@end
}
impl Language for English {
    open spec fn lname(&self) -> Seq<char> { "English"@ }
    open spec fn lcode(&self) -> Seq<char> { "en"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == tokens(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 3 && fnames(q) == seq!["trimmer"@, "stopWordFilter"@, "stemmer"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == Some(en_trim(t))
        &&& stops(q[1], en_words())
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> en_stem_post(t, o)
        &&& never_empty(q)
    }
//@fn src/lang/en.rs <Language for English>::name
//@end
//@fn src/lang/en.rs <Language for English>::code
//@end
//@fn src/lang/en.rs <Language for English>::tokenize
//@end
//@fn src/lang/en.rs <Language for English>::make_pipeline
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer"@, "stopWordFilter"@, "stemmer"@]);
        lemma_en_words();
        lemma_never_empty(r.queue@, 1);
    }
//@end
}
}
pub use en::English;
//@include lang_modules.vx
//@include lang_reg.vx
}
fn main() {}
