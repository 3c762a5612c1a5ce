//! C26
use crate::{gen, Ctx, Res};
use serde_json::{json, Value};
#[cfg(feature = "full")]
thread_local! {
    static ZH: (jieba_rs::Jieba, Vec<Box<dyn elasticlunr::Language>>) = (jieba_rs::Jieba::new(), langs("Chinese"));
    static JA: (lindera::tokenizer::Tokenizer, Vec<Box<dyn elasticlunr::Language>>) = (
        lindera::tokenizer::Tokenizer::with_config(lindera::tokenizer::TokenizerConfig {
            mode: lindera_core::viterbi::Mode::Decompose(Default::default()),
            ..Default::default()
        }).unwrap(),
        langs("Japanese"),
    );
}
/// the ways to get at a language: the registry, the constructor, Default
#[cfg(feature = "full")]
fn langs(name: &str) -> Vec<Box<dyn elasticlunr::Language>> {
    use elasticlunr::lang::{Chinese, Japanese};
    let mut v: Vec<Box<dyn elasticlunr::Language>> = elasticlunr::lang::languages().into_iter().filter(|l| l.name() == name).collect();
    v.extend(elasticlunr::lang::from_code(if name == "Chinese" { "zh" } else { "ja" }));
    if name == "Chinese" { v.push(Box::new(Chinese::new())); v.push(Box::new(Chinese::default())); } else { v.push(Box::new(Japanese::new())); v.push(Box::new(Japanese::default())); }
    v
}
/// case: {"lang": "zh" | "ja", "text": ..}
#[cfg(feature = "full")]
pub fn c26(case: &Value) -> Res {
    let t = case["text"].as_str().ok_or("badcase")?;
    let chk = |l: &[Box<dyn elasticlunr::Language>], want: Vec<String>| -> Res {
        for (i, l) in l.iter().enumerate() {
            let got = l.tokenize(t);
            if got != want { return Err(format!("{} ({i}) tokenize({t:?}) = {got:?}, expected {want:?}", l.name())); }
        }
        Ok(!want.is_empty())
    };
    if case["lang"] == "zh" {
        ZH.with(|z| chk(&z.1, z.0.cut_for_search(t, false).into_iter().map(String::from).collect()))
    } else {
        JA.with(|j| {
            let mut want = vec![];
            for w in j.0.tokenize(t).map_err(|e| format!("badcase {e}"))? {
                let pos = w.detail.get(0).cloned().unwrap_or_default();
                if ["助詞", "助動詞", "記号", "UNK"].contains(&&*pos) { continue; }
                want.push(w.text.to_string());
            }
            chk(&j.1, want)
        })
    }
}
#[cfg(not(feature = "full"))]
pub fn c26(_: &Value) -> Res { Ok(false) }

const ZH_BITS: &[&str] = &["我", "来到", "北京", "清华大学", "中华人民共和国", "的", "了", "小明", "硕士", "毕业", "于", "中国科学院", "计算所", "后", "在", "日本", "京都大学", "深造", "是", "，", "。", "！", "abc", "ABC", "A", "9", "2021", "C++", "3.14", " ", "  ", "\n", "-", "、", "杭研", "行", "乾清宫", "﨑", "𠮷", "é", "ñandú", "あ", "한", "🙂", "\u{301}", "\0", "《", "％", "１２", "南京市长江大桥", "研究生命起源"];
const JA_BITS: &[&str] = &["関西国際空港", "限定", "トートバッグ", "を", "は", "が", "です", "ます", "すもも", "も", "もも", "のうち", "東京", "都", "京都", "行きました", "食べ", "た", "ない", "、", "。", "！", "「", "」", "abc", "ABC", "A", "9", "２０２１", " ", "  ", "\n", "-", "コンピューター", "ｶﾅ", "﨑", "𠮷", "é", "🙂", "한", "\u{3099}", "\0", "ほげほげ", "ゑ", "日本語", "形態素解析", "すごい", "とても", "しかし", "えーと", "ああ", "私", "この", "お", "さん", "クヮルテット", "1.5", "km"];
pub fn gen_c26(c: &mut Ctx) {
    if !cfg!(feature = "full") { return; }
    let lits: Vec<String> = c.lits.iter().filter(|l| l.chars().count() < 200).cloned().collect();
    for (code, bits) in [("ja", JA_BITS), ("zh", ZH_BITS)] {
        for a in [""].iter().chain(bits) { for b in [""].iter().chain(bits) { if !c.test(json!({"lang": code, "text": format!("{a}{b}")})) { return; } } }
    }
    for l in &lits { for code in ["ja", "zh"] { for t in [l.clone(), format!("東京{l}京都"), format!("我{l}的{l}")] { if !c.test(json!({"lang": code, "text": t})) { return; } } } }
    for n in c.big.clone() { for (code, u) in [("zh", "我来到北京清华大学，Rust 语言。\n"), ("ja", "関西国際空港限定トートバッグを、Rustで\n"), ("zh", "中国"), ("ja", "東京都")] {
        for s in [u.repeat(n / u.len() + 1), u.chars().cycle().take(n.min(300_000)).collect()] { if !c.test(json!({"lang": code, "text": s})) { return; } }
    } }
    for code in ["ja", "zh"] { for n in [500usize, 1000, 3000] { let bits = if code == "ja" { JA_BITS } else { ZH_BITS }; let s: String = (0..n).map(|_| *c.rng.pick(bits)).collect(); if !c.test(json!({"lang": code, "text": s})) { return; } } }
    while c.time_left() {
        let (code, bits) = *c.rng.pick(&[("ja", JA_BITS), ("zh", ZH_BITS)]);
        let n = 1 + c.rng.n(12);
        let mut s = String::new();
        for _ in 0..n {
            match c.rng.n(10) {
                0 => s.push_str(c.rng.pick(gen::TRICKY)),
                1 if !lits.is_empty() => s.push_str(c.rng.pick(&lits)),
                2 => s.push(char::from_u32(0x4e00 + c.rng.n(0x51a5) as u32).unwrap()),
                3 => s.push(char::from_u32(0x3041 + c.rng.n(0xbe) as u32).unwrap_or('あ')),
                _ => s.push_str(c.rng.pick(bits)),
            }
        }
        let ints = c.ints.clone();
        let s = c.rng.stretch(s, &ints);
        if !c.test(json!({"lang": code, "text": s})) { return; }
    }
}
