#!/usr/bin/env python3
"""writes units/lang_modules.vx: one module of contracts per language file of /repo/src/lang"""
import sys
SNOW = [("da", "Danish"), ("du", "Dutch"), ("fi", "Finnish"), ("fr", "French"), ("de", "German"), ("hu", "Hungarian"), ("it", "Italian"), ("no", "Norwegian"),
        ("pt", "Portuguese"), ("ro", "Romanian"), ("ru", "Russian"), ("es", "Spanish"), ("sv", "Swedish"), ("tr", "Turkish")]
o = []
def head(code, name, ext=""):
    o.append(f"pub mod {code} {{\nuse super::*;\nbroadcast use {{ vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys{", group_seg" if ext else ""} }};" + (f"\nuse {{{ext}}};" if ext else ""))
def lang(code, name, pipe, hints, ws=True, extra="", ltok=""):
    f = f"src/lang/{code}.rs"
    o.append(f"""//@struct {f} {name}
impl {name} {{
//@fn {f} {name}::new
//@end
}}""" if ws is True else "")
    tok = "out == tokens(text)" if ws is True else ltok
    o.append(f"""impl Language for {name} {{
    open spec fn lname(&self) -> Seq<char> {{ "{name}"@ }}
    open spec fn lcode(&self) -> Seq<char> {{ "{code}"@ }}
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool {{ {tok} }}
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {{
{pipe}
    }}
//@fn {f} <Language for {name}>::name
//@end
//@fn {f} <Language for {name}>::code
//@end""")
    if ws is True:
        o.append(f"""//@fn {f} <Language for {name}>::tokenize
//@end""")
    else:
        o.append(ws)
    o.append(f"""//@fn {f} <Language for {name}>::make_pipeline
//@at begin
    proof {{ axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }}
//@at wrap
    proof {{
{hints}
    }}
//@end
}}
{extra}}}
pub use {code}::{name};
""")
def trim(i, w): return f'        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[{i}].fpost(t, o) ==> o == keep(script_trim("{w}"@, t))'
def names(*n): return f"        &&& q.len() == {len(n)} && fnames(q) == seq![" + ", ".join(f'"{x}"@' for x in n) + "]"
def fn_names(n): return f"        assert(fnames(r.queue@) =~= seq![" + ", ".join(f'"{x}"@' for x in n) + "]);\n        lemma_never_empty(r.queue@, %d);"
def hints(n, k): return fn_names(n) % k
NE = "        &&& never_empty(q)"
for c, n in SNOW:
    w = r"\\p{Cyrillic}" if c == "ru" else r"\\p{Latin}"
    head(c, n)
    nm = [f"trimmer-{c}", f"stopWordFilter-{c}", f"stemmer-{c}"]
    o.append(f"//@constlist src/lang/{c}.rs STOP_WORDS")
    lang(c, n, "\n".join([names(*nm), trim(0, w), "        &&& stops(q[1], STOP_WORDS__words())",
        f"        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> o == keep(snowball(Algorithm::{n}, t))", NE]), hints(nm, 0))
# Korean
head("ko", "Korean")
nm = ["trimmer-ko", "stopWordFilter-ko", "stemmer-ko"]
ident = lambda i: f"        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[{i}].fpost(t, o) ==> o == Some(t)"
stem = lambda c: f"""//@fn src/lang/{c}.rs stemmer
//@spec
    ensures sview(r) == Some(token@),
//@end
"""
o.append("//@constlist src/lang/ko.rs STOP_WORDS")
lang("ko", "Korean", "\n".join([names(*nm), trim(0, r"\\p{Latin}\\p{Hangul}"), "        &&& stops(q[1], STOP_WORDS__words())", ident(2), NE]), hints(nm, 0), extra=stem("ko"))
# Chinese
head("zh", "Chinese", "jieba_rs::*")
nm = ["trimmer-zh", "stopWordFilter-zh", "stemmer-zh"]
o.append("""//@struct src/lang/zh.rs Chinese
impl Default for Chinese {
//@fn src/lang/zh.rs <Default for Chinese>::default
//@spec
    ensures jieba_std(r.jieba),
//@end
}
impl Chinese {
    pub closed spec fn std(&self) -> bool { jieba_std(self.jieba) }
//@fn src/lang/zh.rs Chinese::new
//@spec
    ensures r.std(),
//@end
    // a method of the type itself: Verus states the trait facts about its closure only after everything that depends on it
//@fn src/lang/zh.rs <Language for Chinese>::tokenize
//@as tokenize__v
//@spec
    ensures self.ltok(text@, views(r@)),
//@closure 0
types &&str
-> (q: String) ensures q@ == $0@
//@end
//@alt src/lang/zh.rs <Language for Chinese>::tokenize
//@closure 0
types &str
-> (q: String) ensures q@ == $0@
//@end
//@alt src/lang/zh.rs <Language for Chinese>::tokenize
//@loop 0 for
    invariant self.std() ==> str_views(it0.seq()) == zh_words(text@), 0 <= it0.index() <= it0.seq().len(),
        views($mut0@) == str_views(it0.seq().take(it0.index() as int)),
//@at end-loop 0
    proof {
        assert(views($mut0@) =~= views($mut0@.drop_last()).push($pat0@));
        assert(str_views(it0.seq().take(it0.index() as int + 1)) =~= str_views(it0.seq().take(it0.index() as int)).push($pat0@));
    }
//@at after-loop 0
    proof { if self.std() { assert(views($mut0@) =~= zh_words(text@)); } }
//@end
//@alt src/lang/zh.rs <Language for Chinese>::tokenize
//@loop 0 for
    invariant self.std() ==> refs_of(it0.seq()) == zh_words(text@), 0 <= it0.index() <= it0.seq().len(),
        views($mut0@) == refs_of(it0.seq().take(it0.index() as int)),
//@at end-loop 0
    proof {
        assert(views($mut0@) =~= views($mut0@.drop_last()).push($pat0@));
        assert(refs_of(it0.seq().take(it0.index() as int + 1)) =~= refs_of(it0.seq().take(it0.index() as int)).push($pat0@));
    }
//@at after-loop 0
    proof { if self.std() { assert(views($mut0@) =~= zh_words(text@)); } }
//@end
}""")
lang("zh", "Chinese", "\n".join([names(*nm), trim(0, r"\\p{Unified_Ideograph}\\p{Latin}"),
    '        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[1].fpost(t, o) ==> o == drop_words(seq!["的"@, "了"@], t)', ident(2), NE]), hints(nm, 0), ltok="self.std() ==> out == zh_words(text)", ws="""    /// verified as tokenize__v against this contract
    #[verifier::external_body]
    fn tokenize(&self, text: &str) -> Vec<String> { unimplemented!() }""",
    extra="""//@fn src/lang/zh.rs stop_word_filter
//@spec
    ensures sview(r) == drop_words(seq!["的"@, "了"@], token@),
//@at begin
    proof { let s = seq!["的"@, "了"@]; assert(s[0] == "的"@ && s[1] == "了"@); }
//@end
""" + stem("zh"))
# Japanese
head("ja", "Japanese", "lindera::tokenizer::*, lindera_core::viterbi::*")
nm = ["trimmer-ja", "stemmer-ja"]
o.append("""//@struct src/lang/ja.rs Japanese
impl Default for Japanese {
//@fn src/lang/ja.rs <Default for Japanese>::default
//@spec
    ensures ja_std(cfg_of(r.tokenizer)),
//@end
}
/// the shipped dictionary alone, with compound words taken apart
pub open spec fn ja_std(c: TokenizerConfig) -> bool { c.dictionary == ipadic() && c.user_dictionary is None && c.mode == Mode::Decompose(std_penalty()) }
impl Japanese {
    pub closed spec fn cfg(&self) -> TokenizerConfig { cfg_of(self.tokenizer) }
//@fn src/lang/ja.rs Japanese::new
//@spec
    ensures ja_std(r.cfg()),
//@end
//@fn src/lang/ja.rs Japanese::with_config
//@spec
    requires loads(config),
    ensures r.cfg() == config,
//@end
}
//@conststr src/lang/ja.rs WORD_CHARS""")
lang("ja", "Japanese", "\n".join([names(*nm), trim(0, r"0-9A-Za-z\\p{Hiragana}\\p{Katakana}\\p{Unified_Ideograph}"), ident(1), NE]), hints(nm, 0), ltok="out == ja_words(lindera_cut(self.cfg(), text))", ws="""//@fn src/lang/ja.rs <Language for Japanese>::tokenize
//@closure 0
types Token<'_>
-> (o: Option<String>) ensures sview(o) == ja_kept(tok_of($0))
//@closure 1
types &String
-> (q: &str) ensures q@ == $0@
//@end
//@alt src/lang/ja.rs <Language for Japanese>::tokenize
//@closure 0
types &String
-> (q: &str) ensures q@ == $0@
//@loop 0 for
    invariant toks_of(it0.seq()) == lindera_cut(self.cfg(), text@), 0 <= it0.index() <= it0.seq().len(),
        views($mut0@) == ja_words(toks_of(it0.seq().take(it0.index() as int))), it0.seq().take(it0.seq().len() as int) =~= it0.seq(),
//@at in-loop 0
    let ghost before = $mut0@; let ghost tok0 = $pat0;
//@at end-loop 0
    proof {
        lemma_ja_step(it0.seq().take(it0.index() as int), tok0);
        assert(it0.seq().take(it0.index() as int + 1) =~= it0.seq().take(it0.index() as int).push(tok0));
        if ja_left_out(tok_of(tok0).detail) { assert($mut0@ =~= before); } else { assert(views($mut0@) =~= views(before).push(tok0.text@)); }
    }
//@end""", extra=stem("ja"))
# Arabic
head("ar", "Arabic")
nm = ["stemmer-ar"]
o.append("""//@struct src/lang/ar.rs Stemmer
/// no tatweel or diacritic, every alef variant plain
pub open spec fn ar_norm(t: Seq<char>) -> Seq<char> { subst_all(subst_all(t, |c: char| is_dia(c), ""@), |c: char| is_alef(c), "\\u{627}"@) }
/// known finding C24: only the first diacritic and the first alef variant are treated
pub open spec fn ar_first(t: Seq<char>) -> Seq<char> { subst_first(subst_first(t, |c: char| is_dia(c), ""@), |c: char| is_alef(c), "\\u{627}"@) }
pub open spec fn count(t: Seq<char>, p: spec_fn(char) -> bool) -> nat { t.filter(p).len() }
pub open spec fn few(t: Seq<char>) -> bool { count(t, |c: char| is_dia(c)) <= 1 && count(t, |c: char| is_alef(c)) <= 1 }
pub open spec fn ar_post(t: Seq<char>, o: Option<Seq<char>>) -> bool {
    &&& few(t) ==> o == keep(ar_norm(t))
    &&& o == keep(ar_norm(t)) || o == keep(ar_first(t))
}
impl Stemmer {
    pub open spec fn wf(&self) -> bool { self.diacritics.pat() == pat_dia() && self.alefs.pat() == pat_alef() }
//@fn src/lang/ar.rs Stemmer::new
//@spec
    ensures r.wf(),
//@at begin
    proof { axiom_arabic_patterns(); }
//@end
}
impl PipelineFn for Stemmer {
    open spec fn fname(&self) -> Seq<char> { "stemmer-ar"@ }
    open spec fn fpost(&self, t: Seq<char>, o: Option<Seq<char>>) -> bool { self.wf() ==> ar_post(t, o) }
//@fn src/lang/ar.rs <PipelineFn for Stemmer>::name
//@end
//@fn src/lang/ar.rs <PipelineFn for Stemmer>::filter
//@at begin
    proof { axiom_arabic_patterns(); lemma_few(token@); }
//@end
}""")
o.append("//@include lang_ar.vx")
lang("ar", "Arabic", "\n".join([names(*nm), "        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> ar_post(t, o)", NE]), hints(nm, 0))
open(sys.argv[1] if len(sys.argv) > 1 else __file__.replace("tools/genlang.py", "units/lang_modules.vx"), "w").write("\n".join(o))
