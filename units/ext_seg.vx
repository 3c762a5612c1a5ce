// ---------------------------------------------------------------------------------------------
// TRUSTED: the dictionary segmenters of jieba-rs and lindera: how they cut a text is theirs
// ---------------------------------------------------------------------------------------------
pub mod jieba_rs {
use vstd::prelude::*;
use vstd::string::*;
use crate::vxtext::*;
#[verifier::external_body]
pub struct Jieba { x: u8 }
/// the words of search mode, with or without the hidden Markov model for unknown words
pub uninterp spec fn jieba_cut(j: Jieba, t: Seq<char>, hmm: bool) -> Seq<Seq<char>>;
/// the other modes
pub uninterp spec fn jieba_cut_plain(j: Jieba, t: Seq<char>, hmm: bool) -> Seq<Seq<char>>;
pub uninterp spec fn jieba_cut_all(j: Jieba, t: Seq<char>) -> Seq<Seq<char>>;
/// the dictionary shipped with the crate is loaded
pub uninterp spec fn jieba_std(j: Jieba) -> bool;
/// the words of the shipped dictionary's search mode
pub uninterp spec fn zh_words(t: Seq<char>) -> Seq<Seq<char>>;
impl Jieba {
    #[verifier::external_body]
    pub fn new() -> (r: Jieba) ensures jieba_std(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn empty() -> (r: Jieba) { unimplemented!() }
    #[verifier::external_body]
    pub fn cut_for_search<'a>(&self, sentence: &'a str, hmm: bool) -> (r: Vec<&'a str>)
        ensures str_views(r@) == jieba_cut(*self, sentence@, hmm), jieba_std(*self) && !hmm ==> str_views(r@) == zh_words(sentence@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cut<'a>(&self, sentence: &'a str, hmm: bool) -> (r: Vec<&'a str>)
        ensures str_views(r@) == jieba_cut_plain(*self, sentence@, hmm),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn cut_all<'a>(&self, sentence: &'a str) -> (r: Vec<&'a str>)
        ensures str_views(r@) == jieba_cut_all(*self, sentence@),
    { unimplemented!() }
}
impl Clone for Jieba { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
pub mod lindera_core {
pub mod viterbi {
use vstd::prelude::*;
#[verifier::external_body]
pub struct Penalty { x: u8 }
pub uninterp spec fn std_penalty() -> Penalty;
impl Default for Penalty { #[verifier::external_body] fn default() -> (r: Self) ensures r == std_penalty() { unimplemented!() } }
pub enum Mode { Normal, Decompose(Penalty) }
}
}
pub mod lindera {
pub mod tokenizer {
use vstd::prelude::*;
use vstd::string::*;
use crate::lindera_core::viterbi::*;
#[verifier::external_body]
pub struct DictionaryConfig { x: u8 }
#[verifier::external_body]
pub struct UserDictionaryConfig { x: u8 }
/// the shipped dictionary
pub uninterp spec fn ipadic() -> DictionaryConfig;
pub struct TokenizerConfig { pub dictionary: DictionaryConfig, pub user_dictionary: Option<UserDictionaryConfig>, pub mode: Mode }
impl Default for TokenizerConfig {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r == (TokenizerConfig { dictionary: ipadic(), user_dictionary: None, mode: Mode::Normal }) { unimplemented!() }
}
pub struct LinderaError { x: u8 }
impl std::fmt::Debug for LinderaError { #[verifier::external_body] fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
pub struct Token<'a> { pub text: &'a str, pub detail: Vec<String> }
/// a token as lindera gives it: its text and its details, the first of which is the part of speech
pub ghost struct Tok { pub text: Seq<char>, pub detail: Seq<Seq<char>> }
pub open spec fn tok_of(t: Token<'_>) -> Tok { Tok { text: t.text@, detail: t.detail@.map_values(|s: String| s@) } }
pub open spec fn toks_of(s: Seq<Token<'_>>) -> Seq<Tok> { s.map_values(|t: Token<'_>| tok_of(t)) }
#[verifier::external_body]
pub struct Tokenizer { x: u8 }
pub uninterp spec fn cfg_of(t: Tokenizer) -> TokenizerConfig;
/// the configured dictionaries can be loaded
pub uninterp spec fn loads(c: TokenizerConfig) -> bool;
pub uninterp spec fn lindera_cut(c: TokenizerConfig, t: Seq<char>) -> Seq<Tok>;
/// the shipped dictionary always loads: errors come from user dictionaries
pub broadcast axiom fn axiom_loads(c: TokenizerConfig)
    requires c.dictionary == ipadic(), c.user_dictionary is None,
    ensures #[trigger] loads(c);
impl Tokenizer {
    #[verifier::external_body]
    pub fn with_config(config: TokenizerConfig) -> (r: Result<Tokenizer, LinderaError>)
        ensures r is Ok <==> loads(config), r is Ok ==> cfg_of(r->Ok_0) == config,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Result<Tokenizer, LinderaError>)
        ensures r is Ok, cfg_of(r->Ok_0) == (TokenizerConfig { dictionary: ipadic(), user_dictionary: None, mode: Mode::Normal }),
    { unimplemented!() }
    /// a loaded tokenizer cuts every text
    #[verifier::external_body]
    pub fn tokenize<'a>(&self, text: &'a str) -> (r: Result<Vec<Token<'a>>, LinderaError>)
        ensures r is Ok, toks_of(r->Ok_0@) == lindera_cut(cfg_of(*self), text@),
    { unimplemented!() }
}
impl Clone for Tokenizer { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
}
/// `Iterator::filter_map` of a vector's items: the same items in the same order, collected at once
pub mod vxseg {
use vstd::prelude::*;
use vstd::string::*;
use vstd::std_specs::iter::*;
use crate::vxtext::*;
use crate::vxmap::*;
use crate::lindera::tokenizer::*;
use crate::*;
pub open spec fn some_vals<B>(s: Seq<Option<B>>) -> Seq<B>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { match s.last() { Some(x) => some_vals(s.drop_last()).push(x), None => some_vals(s.drop_last()) } } }
pub trait VxFilterMap: Sized + Iterator {
    #[verifier::prophetic]
    spec fn rest(&self) -> Seq<Self::Item>;
    fn vx_filter_map<B, F: FnMut(Self::Item) -> Option<B>>(self, f: F) -> (r: std::vec::IntoIter<B>)
        requires forall|x: Self::Item| #[trigger] call_requires(f, (x,)),
        ensures IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::decrease(&r) is Some,
            exists|o: Seq<Option<B>>| IteratorSpec::remaining(&r) == #[trigger] some_vals(o) && o.len() == self.rest().len()
                && forall|i: int| 0 <= i < o.len() ==> call_ensures(f, (self.rest()[i],), #[trigger] o[i]);
}
impl<T> VxFilterMap for std::vec::IntoIter<T> {
    #[verifier::prophetic]
    open spec fn rest(&self) -> Seq<T> { IteratorSpec::remaining(self) }
    #[verifier::external_body]
    fn vx_filter_map<B, F: FnMut(T) -> Option<B>>(self, f: F) -> (r: std::vec::IntoIter<B>) { unimplemented!() }
}
/// the texts of the tokens, in order, without particles (助詞), auxiliary verbs (助動詞), symbols (記号) and words the dictionary does not know (UNK)
pub open spec fn ja_left_out(d: Seq<Seq<char>>) -> bool { d.len() > 0 && (d[0] == "助詞"@ || d[0] == "助動詞"@ || d[0] == "記号"@ || d[0] == "UNK"@) }
pub open spec fn ja_kept(t: Tok) -> Option<Seq<char>> { if ja_left_out(t.detail) { None } else { Some(t.text) } }
pub open spec fn ja_words(s: Seq<Tok>) -> Seq<Seq<char>> { some_vals(s.map_values(|t: Tok| ja_kept(t))) }
pub broadcast proof fn lemma_ja_words(s: Seq<Token<'_>>, o: Seq<Option<String>>)
    requires o.len() == s.len(), forall|i: int| 0 <= i < o.len() ==> sview(#[trigger] o[i]) == ja_kept(tok_of(s[i])),
    ensures #![trigger some_vals(o), toks_of(s)] views(some_vals(o)) == ja_words(toks_of(s)),
    decreases s.len(),
{
    let k = toks_of(s).map_values(|t: Tok| ja_kept(t));
    if s.len() == 0 {
        assert(views(some_vals(o)) =~= some_vals(k));
    } else {
        let n = s.len() - 1;
        assert(sview(o[n]) == ja_kept(tok_of(s[n])));
        assert forall|i: int| 0 <= i < n implies sview(#[trigger] o.drop_last()[i]) == ja_kept(tok_of(s.drop_last()[i])) by { assert(o.drop_last()[i] == o[i]); }
        lemma_ja_words(s.drop_last(), o.drop_last());
        assert(toks_of(s.drop_last()).map_values(|t: Tok| ja_kept(t)) =~= k.drop_last());
        assert(k.last() == sview(o.last()));
        assert(views(some_vals(o)) =~= some_vals(k));
    }
}
/// one token more
pub proof fn lemma_ja_step(s: Seq<Token<'_>>, t: Token<'_>)
    ensures ja_words(toks_of(s.push(t))) == if ja_left_out(tok_of(t).detail) { ja_words(toks_of(s)) } else { ja_words(toks_of(s)).push(t.text@) },
{
    let k = toks_of(s.push(t)).map_values(|t: Tok| ja_kept(t));
    assert(k.drop_last() =~= toks_of(s).map_values(|t: Tok| ja_kept(t)));
    assert(k.last() == ja_kept(tok_of(t)));
}
/// mapping the pieces of a cut to Strings
pub open spec fn refs_of(a: Seq<&&str>) -> Seq<Seq<char>> { a.map_values(|x: &&str| x@) }
pub broadcast proof fn lemma_map_pieces<'a, 'b, G: FnMut(&'a &'b str) -> String>(i: std::slice::Iter<'a, &'b str>, g: G, m: std::iter::Map<std::slice::Iter<'a, &'b str>, G>)
    requires
        #[trigger] map_post(i, g, m), IteratorSpec::obeys_prophetic_iter_laws(&i), IteratorSpec::will_return_none(&m),
        forall|x: &'a &'b str, y: String| #[trigger] call_ensures(g, (x,), y) ==> y@ == x@,
    ensures views(IteratorSpec::remaining(&m)) == refs_of(IteratorSpec::remaining(&i)),
{
    map_postcondition(i, g, m);
    let a = IteratorSpec::remaining(&i);
    let b = IteratorSpec::remaining(&m);
    assert forall|k: int| 0 <= k < a.len() implies b[k]@ == #[trigger] refs_of(a)[k] by { assert(call_ensures(g, (a[k],), b[k])); }
    assert(views(b) =~= refs_of(a));
}
pub broadcast proof fn lemma_map_strs<'b, G: FnMut(&'b str) -> String>(i: std::vec::IntoIter<&'b str>, g: G, m: std::iter::Map<std::vec::IntoIter<&'b str>, G>)
    requires
        #[trigger] map_post(i, g, m), IteratorSpec::obeys_prophetic_iter_laws(&i), IteratorSpec::will_return_none(&m),
        forall|x: &'b str, y: String| #[trigger] call_ensures(g, (x,), y) ==> y@ == x@,
    ensures views(IteratorSpec::remaining(&m)) == str_views(IteratorSpec::remaining(&i)),
{
    map_postcondition(i, g, m);
    let a = IteratorSpec::remaining(&i);
    let b = IteratorSpec::remaining(&m);
    assert forall|k: int| 0 <= k < a.len() implies b[k]@ == #[trigger] str_views(a)[k] by { assert(call_ensures(g, (a[k],), b[k])); }
    assert(views(b) =~= str_views(a));
}
/// the pieces behind references
pub broadcast proof fn lemma_refs(s: Seq<&str>) ensures #[trigger] refs_of(s.as_ref()) == str_views(s) { assert(refs_of(s.as_ref()) =~= str_views(s)); }
pub broadcast group group_seg { lemma_refs, lemma_ja_words, lemma_map_pieces, lemma_map_strs, axiom_loads }
}
pub use vxseg::*;
