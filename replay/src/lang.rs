//! C09 C10 C11 C12 C17 C18 C19 C20 C24
use crate::{gen, Ctx, Res};
use elasticlunr::lang::common::{RegexTrimmer, StopWordFilter};
use elasticlunr::lang::{self, tokenize_whitespace, English, Language};
use elasticlunr::pipeline::{FnWrapper, Pipeline, PipelineFn};
use regex::Regex;
use rust_stemmers::{Algorithm, Stemmer};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const EN_WORDS: &str = include_str!("en_words.txt");

/// code, name, script class of the trimmer ("" = none), stop-word filter?, Snowball algorithm
#[allow(clippy::type_complexity)]
pub const LANGS: &[(&str, &str, &str, bool, Option<Algorithm>)] = &[
    ("en", "English", "", true, None),
    ("ar", "Arabic", "", false, None),
    ("zh", "Chinese", r"\p{Unified_Ideograph}\p{Latin}", true, None),
    ("da", "Danish", r"\p{Latin}", true, Some(Algorithm::Danish)),
    ("du", "Dutch", r"\p{Latin}", true, Some(Algorithm::Dutch)),
    ("fi", "Finnish", r"\p{Latin}", true, Some(Algorithm::Finnish)),
    ("fr", "French", r"\p{Latin}", true, Some(Algorithm::French)),
    ("de", "German", r"\p{Latin}", true, Some(Algorithm::German)),
    ("hu", "Hungarian", r"\p{Latin}", true, Some(Algorithm::Hungarian)),
    ("it", "Italian", r"\p{Latin}", true, Some(Algorithm::Italian)),
    ("ja", "Japanese", r"0-9A-Za-z\p{Hiragana}\p{Katakana}\p{Unified_Ideograph}", false, None),
    ("ko", "Korean", r"\p{Latin}\p{Hangul}", true, None),
    ("no", "Norwegian", r"\p{Latin}", true, Some(Algorithm::Norwegian)),
    ("pt", "Portuguese", r"\p{Latin}", true, Some(Algorithm::Portuguese)),
    ("ro", "Romanian", r"\p{Latin}", true, Some(Algorithm::Romanian)),
    ("ru", "Russian", r"\p{Cyrillic}", true, Some(Algorithm::Russian)),
    ("es", "Spanish", r"\p{Latin}", true, Some(Algorithm::Spanish)),
    ("sv", "Swedish", r"\p{Latin}", true, Some(Algorithm::Swedish)),
    ("tr", "Turkish", r"\p{Latin}", true, Some(Algorithm::Turkish)),
];
pub fn full() -> bool { cfg!(feature = "full") }
pub fn avail(code: &str) -> bool { full() || !matches!(code, "zh" | "ja") }
pub fn names(code: &str) -> Vec<String> {
    match code {
        "en" => vec!["trimmer".into(), "stopWordFilter".into(), "stemmer".into()],
        "ar" => vec!["stemmer-ar".into()],
        "ja" => vec!["trimmer-ja".into(), "stemmer-ja".into()],
        c => vec![format!("trimmer-{c}"), format!("stopWordFilter-{c}"), format!("stemmer-{c}")],
    }
}
thread_local! {
    static CACHE: RefCell<BTreeMap<String, Rc<(Box<dyn Language>, Pipeline)>>> = Default::default();
    static RX: RefCell<BTreeMap<String, Rc<Regex>>> = Default::default();
    static TR: RefCell<BTreeMap<String, Rc<RegexTrimmer>>> = Default::default();
    static LISTING: Rc<Vec<(String, String)>> = Rc::new(lang::languages().iter().map(|l| (l.name(), l.code())).collect());
}
fn by_code(code: &str) -> Result<Rc<(Box<dyn Language>, Pipeline)>, String> {
    if let Some(l) = CACHE.with(|c| c.borrow().get(code).cloned()) { return Ok(l); }
    let name = LANGS.iter().find(|l| l.0 == code).ok_or("badcase")?.1;
    let l = lang::languages().into_iter().find(|l| l.name() == name).ok_or(format!("no language {name}"))?;
    let p = l.make_pipeline();
    let r = Rc::new((l, p));
    CACHE.with(|c| c.borrow_mut().insert(code.into(), r.clone()));
    Ok(r)
}
fn class_rx(class: &str) -> Rc<Regex> {
    RX.with(|c| c.borrow_mut().entry(class.into()).or_insert_with(|| Rc::new(Regex::new(&format!("^[{class}]$")).unwrap())).clone())
}
fn in_class(class: &str, c: char) -> bool { let mut b = [0; 4]; class_rx(class).is_match(c.encode_utf8(&mut b)) }
fn trim_class(class: &str, t: &str) -> Option<String> {
    let cs: Vec<char> = t.chars().collect();
    let i = cs.iter().position(|c| in_class(class, *c))?;
    let j = cs.iter().rposition(|c| in_class(class, *c))?;
    Some(cs[i..=j].iter().collect())
}
fn fnof<'a>(p: &'a Pipeline, prefix: &str, i: usize) -> Result<&'a Box<dyn PipelineFn>, String> {
    p.queue.iter().find(|f| f.name().starts_with(prefix)).or_else(|| p.queue.get(i)).ok_or(format!("no {prefix}"))
}

pub fn c09(case: &Value) -> Res {
    let t = case.as_str().ok_or("badcase")?;
    let l = by_code("en")?;
    let r = fnof(&l.1, "trimmer", 0)?.filter(t.to_string());
    let w = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let cs: Vec<char> = t.chars().collect();
    let want: String = match cs.iter().position(|c| w(*c)) { None => String::new(), Some(i) => cs[i..=cs.iter().rposition(|c| w(*c)).unwrap()].iter().collect() };
    if r.as_deref() != Some(&want) { return Err(format!("English trimmer({t:?}) = {r:?}, expected Some({want:?})")); }
    Ok(want != t)
}
pub fn c10(case: &Value) -> Res {
    let t = case.as_str().ok_or("badcase")?;
    let mut want: Vec<String> = vec![];
    let mut cur = String::new();
    for c in t.chars().chain([' ']) {
        if c.is_whitespace() || c == '-' { if !cur.is_empty() { want.push(cur.to_lowercase()); cur.clear(); } } else { cur.push(c) }
    }
    let got = tokenize_whitespace(t);
    if got != want { return Err(format!("tokenize_whitespace({t:?}) = {got:?}, expected {want:?}")); }
    for c in LANGS.iter().map(|l| l.0).filter(|c| !matches!(*c, "zh" | "ja")) {
        let got = by_code(c)?.0.tokenize(t);
        if got != want { return Err(format!("{c} tokenize({t:?}) = {got:?}, expected {want:?}")); }
    }
    Ok(want.len() > 1 || want.first().map_or(!t.is_empty(), |w| w != t))
}
/// case: {"words": [..], "token": ..} or {"en": token}
pub fn c11(case: &Value) -> Res {
    if let Some(t) = case["en"].as_str() {
        let l = by_code("en")?;
        let r = fnof(&l.1, "stopWordFilter", 1)?.filter(t.to_string());
        let stop = EN_WORDS.split('\n').any(|w| w == t); // the file's last line is the empty word
        let want = if stop { None } else { Some(t.to_string()) };
        if r != want { return Err(format!("English stop-word filter({t:?}) = {r:?}, expected {want:?}")); }
        return Ok(true);
    }
    let t = case["token"].as_str().ok_or("badcase")?;
    let ws: Vec<&str> = case["words"].as_array().ok_or("badcase")?.iter().map(|w| w.as_str().unwrap_or("")).collect();
    let f = StopWordFilter::new("n", &ws);
    if f.name() != "n" { return Err(format!("name {:?}", f.name())); }
    let want = if ws.contains(&t) { None } else { Some(t.to_string()) };
    let r = f.filter(t.to_string());
    if r != want { return Err(format!("StopWordFilter::new(\"n\", {ws:?}).filter({t:?}) = {r:?}, expected {want:?}")); }
    Ok(!ws.is_empty())
}
pub fn gen_c11(c: &mut Ctx) {
    for w in EN_WORDS.split('\n') { for t in [w.to_string(), w.to_uppercase(), format!("{w}s"), format!(" {w}"), format!("{w} "), w.chars().skip(1).collect(), w.chars().rev().collect()] {
        if !c.test(json!({"en": t})) { return; }
    } }
    for l in c.lits.clone() { if !c.test(json!({"en": l})) { return; } }
    for w in gen::strings(&["a", "b", "h", "i", "n", "o", "s", "t", "A", " "], 3) { if !c.test(json!({"en": w})) { return; } }
    for a in 'a'..='z' { for b in 'a'..='z' { if !c.test(json!({"en": format!("{a}{b}")})) { return; } for d in 'a'..='z' { if !c.test(json!({"en": format!("{a}{b}{d}")})) { return; } } } }
    let mut base: Vec<String> = ["", "a", "A", "the", "The", " the", "é", "e\u{301}", "漢", "thé", "a b", "aa"].iter().map(|s| s.to_string()).collect();
    base.extend(c.lits.iter().take(100).cloned());
    for n in c.ints.clone() { if n < 500 { for n in [n.saturating_sub(1), n, n + 1] { let ws: Vec<String> = (0..n).map(|i| format!("w{i}")).collect(); for t in ["w0".to_string(), format!("w{}", n.saturating_sub(1)), format!("w{n}"), "".into()] { if !c.test(json!({"words": ws, "token": t})) { return; } } let w = "a".repeat(n); if !c.test(json!({"words": [w], "token": w})) { return; } } } }
    while c.time_left() {
        let n = c.rng.n(6);
        let ws: Vec<String> = (0..n).map(|_| c.rng.pick(&base).clone()).collect();
        let mut t = if c.rng.p(1, 2) && n > 0 { c.rng.pick(&ws).clone() } else { c.rng.pick(&base).clone() };
        if c.rng.p(1, 4) { t.push_str(c.rng.pick(gen::TRICKY)); }
        if c.rng.p(1, 6) { t = t.to_uppercase(); }
        let i = c.ints.clone();
        if c.rng.p(1, 3) { t = c.rng.mutate(&t); }
        if c.rng.p(1, 8) { t = c.rng.pick(&EN_WORDS.split('\n').collect::<Vec<_>>()).to_string(); t = c.rng.mutate(&t); }
        t = c.rng.stretch(t, &i);
        let k = if c.rng.p(1, 4) { json!({"en": t}) } else if c.rng.p(1, 6) { { let mut ws = ws; ws.push(t.clone()); json!({"words": ws, "token": t}) } } else { json!({"words": ws, "token": t}) };
        if !c.test(k) { return; }
    }
}

struct F { name: String, log: Rc<RefCell<Vec<(String, String)>>> }
fn apply(name: &str, t: String) -> Option<String> {
    let (k, a) = name.split_once(':').unwrap_or((name, ""));
    match k {
        "drop" => if t.contains(a) { None } else { Some(t) },
        "app" => Some(t + a),
        "rep" => Some(t.replace(a, "")),
        "up" => Some(t.to_uppercase()),
        "rev" => Some(t.chars().rev().collect()),
        "none" => None,
        _ => Some(t),
    }
}
impl PipelineFn for F {
    fn name(&self) -> String { self.name.clone() }
    fn filter(&self, t: String) -> Option<String> { self.log.borrow_mut().push((self.name.clone(), t.clone())); apply(&self.name, t) }
}
/// case: {"fns": ["drop:x", ...], "tokens": [..]}
/// functions behind the crate's own wrapper for plain functions
fn wrapped(name: &str) -> Option<fn(String) -> Option<String>> {
    match name {
        "w:app" => Some(|t| Some(t + "b")),
        "w:rev" => Some(|t| Some(t.chars().rev().collect())),
        "w:none" => Some(|_| None),
        "w:odd" => Some(|t| if t.len() % 2 == 1 { Some(t) } else { None }),
        "w:const" => Some(|_| Some("ab".into())),
        _ => None,
    }
}
pub fn c12(case: &Value) -> Res {
    let fns: Vec<String> = case["fns"].as_array().ok_or("badcase")?.iter().map(|w| w.as_str().unwrap_or("").to_string()).collect();
    let toks: Vec<String> = case["tokens"].as_array().ok_or("badcase")?.iter().map(|w| w.as_str().unwrap_or("").to_string()).collect();
    let log = Rc::new(RefCell::new(vec![]));
    let p = Pipeline { queue: fns.iter().map(|n| match wrapped(n) {
        Some(f) => Box::new(FnWrapper(n.clone(), f)) as Box<dyn PipelineFn>,
        None => Box::new(F { name: n.clone(), log: log.clone() }),
    }).collect() };
    let js = serde_json::to_value(&p).map_err(|e| e.to_string())?;
    if js != json!(fns) { return Err(format!("pipeline {fns:?} serialises as {js}")); }
    let (mut want, mut calls) = (vec![], vec![]);
    for t in &toks {
        let mut t = t.clone();
        let mut live = true;
        for f in &fns {
            if wrapped(f).is_none() { calls.push((f.clone(), t.clone())); }
            match match wrapped(f) { Some(w) => w(t.clone()), None => apply(f, t.clone()) } { Some(x) => t = x, None => { live = false; break; } }
        }
        if live { want.push(t); }
    }
    let got = p.run(toks.clone());
    if got != want { return Err(format!("pipeline {fns:?} on {toks:?} gives {got:?}, expected {want:?}")); }
    let mut a = log.borrow().clone();
    a.sort(); calls.sort();
    if a != calls { return Err(format!("pipeline {fns:?} on {toks:?} made calls {a:?}, expected {calls:?}")); }
    Ok(!toks.is_empty() && !fns.is_empty())
}
pub fn gen_c12(c: &mut Ctx) {
    let fns = ["drop:a", "app:b", "rep:b", "rev", "none", "id", "drop:", "app:a", "up", "w:app", "w:rev", "w:none", "w:odd", "w:const"];
    let toks = ["", "a", "ab", "b", "bc"];
    for f in fns { for g in fns { for t in toks { for u in toks { if !c.test(json!({"fns": [f, g], "tokens": [t, u]})) { return; } } } } }
    for f in fns { for t in toks { if !c.test(json!({"fns": [f], "tokens": [t]})) || !c.test(json!({"fns": [], "tokens": [t]})) { return; } } }
    let mut sizes = vec![10, 16, 33, 64, 100, 129, 257];
    sizes.extend(c.ints.iter().filter(|n| **n < 2000).flat_map(|n| [n.saturating_sub(1), *n, n + 1]));
    for n in sizes {
        let many: Vec<String> = (0..n).map(|i| format!("t{i}")).collect();
        let dup: Vec<&str> = (0..n).map(|_| "ab").collect();
        let fs: Vec<String> = (0..n.min(300)).map(|i| format!("app:{}", i % 10)).collect();
        if !c.test(json!({"fns": ["app:b", "drop:9"], "tokens": many})) || !c.test(json!({"fns": ["rev"], "tokens": dup})) || !c.test(json!({"fns": fs, "tokens": ["x", "x"]}))
            || !c.test(json!({"fns": ["id", "rev"], "tokens": ["x".repeat(n), "y"]})) { return; }
    }
    for n in c.big.clone() {
        let many: Vec<String> = (0..n).map(|i| format!("t{i}")).collect();
        if !c.test(json!({"fns": ["app:b", "drop:9"], "tokens": many})) || !c.test(json!({"fns": ["rev"], "tokens": ["ab".repeat(n)]})) { return; }
    }
    let mut tk: Vec<String> = toks.iter().map(|s| s.to_string()).collect();
    tk.extend(gen::TRICKY.iter().map(|s| s.to_string()));
    tk.extend(c.lits.iter().take(300).cloned());
    while c.time_left() {
        let (n, m) = (c.rng.n(6), c.rng.n(8));
        let f: Vec<&str> = (0..n).map(|_| *c.rng.pick(&fns)).collect();
        let i = c.ints.clone();
        let t: Vec<String> = (0..m).map(|_| { let t = c.rng.pick(&tk).clone(); c.rng.stretch(t, &i) }).collect();
        if !c.test(json!({"fns": f, "tokens": t})) { return; }
    }
}

pub fn c17(case: &Value) -> Res {
    let q = case.as_str().ok_or("badcase")?;
    let ls = LISTING.with(|l| l.clone());
    let (n, k): (BTreeSet<&String>, BTreeSet<&String>) = (ls.iter().map(|l| &l.0).collect(), ls.iter().map(|l| &l.1).collect());
    if n.len() != ls.len() || k.len() != ls.len() { return Err(format!("names or codes are not pairwise distinct: {ls:?}")); }
    if !ls.iter().any(|l| l.0 == "Dutch" && l.1 == "du") { return Err(format!("Dutch/du missing from {ls:?}")); }
    for l in LANGS { if avail(l.0) && !ls.iter().any(|x| x.1 == l.0 && x.0 == l.1) { return Err(format!("{} ({}) is not listed: {ls:?}", l.1, l.0)); } }
    let a = lang::from_name(q);
    let want = ls.iter().find(|l| l.0 == q);
    match (&a, want) {
        (None, None) => {}
        (Some(x), Some(w)) if x.name() == w.0 && x.code() == w.1 => {}
        _ => return Err(format!("from_name({q:?}) finds {:?}, expected {want:?}", a.map(|l| (l.name(), l.code())))),
    }
    let b = lang::from_code(q);
    let want = ls.iter().find(|l| l.1.eq_ignore_ascii_case(q));
    match (&b, want) {
        (None, None) => {}
        (Some(x), Some(w)) if x.name() == w.0 && x.code() == w.1 => {}
        _ => return Err(format!("from_code({q:?}) finds {:?}, expected {want:?}", b.map(|l| (l.name(), l.code())))),
    }
    Ok(a.is_some() || b.is_some())
}
pub fn gen_c17(c: &mut Ctx) {
    let mut q: Vec<String> = vec!["".into(), "nl".into(), "english".into(), "xx".into(), " en".into(), "en ".into(), "en-US".into(), "eng".into(), "Englis".into(), "ja\u{130}".into(), "\u{130}t".into(), "Klingon".into(), "f\u{131}".into()];
    for l in LANGS { if avail(l.0) { for s in [l.0, l.1] {
        q.push(s.into()); q.push(s.to_uppercase()); q.push(s.to_lowercase()); q.push(format!("{s} ")); q.push(s[1..].into()); q.push(s[..s.len() - 1].into());
        q.push(format!("{}{}", &s[..1].to_uppercase(), &s[1..])); q.push(format!("{}{}", &s[..s.len() - 1], &s[s.len() - 1..].to_uppercase()));
    } } }
    for l in LANGS { if avail(l.0) { for s in [l.0, l.1] { for x in gen::TRICKY { q.push(format!("{s}{x}")); q.push(format!("{x}{s}")); q.push(format!("{s}{x}{s}")); } } } }
    // every character whose case mappings touch ASCII, in every place of every code and name
    for u in 0x80..0x110000u32 {
        let Some(ch) = char::from_u32(u) else { continue };
        let m: Vec<char> = ch.to_lowercase().chain(ch.to_uppercase()).filter(|x| x.is_ascii()).collect();
        if m.is_empty() { continue; }
        for l in LANGS { if avail(l.0) { for s in [l.0, l.1] { let cs: Vec<char> = s.chars().collect(); for i in 0..cs.len() { if m.iter().any(|x| x.eq_ignore_ascii_case(&cs[i])) { let mut d = cs.clone(); d[i] = ch; q.push(d.into_iter().collect()); } } } } }
    }
    q.extend(c.lits.iter().cloned());
    for w in q { if !c.test(json!(w)) { return; } }
    for a in 'a'..='z' { for b in 'a'..='z' { if !c.test(json!(format!("{a}{b}"))) { return; } } }
    for a in 'a'..='z' { for b in 'a'..='z' { for d in ['a', 'e', 'n', 'r', 's'] { if !c.test(json!(format!("{a}{b}{d}"))) { return; } } } }
    while c.time_left() {
        let l = c.rng.pick(LANGS);
        let mut s = if c.rng.p(1, 2) { l.0 } else { l.1 }.to_string();
        for _ in 0..=c.rng.n(2) { s = c.rng.mutate(&s); }
        let i = c.ints.clone();
        s = c.rng.stretch(s, &i);
        if !c.test(json!(s)) { return; }
    }
}

/// case: {"lang": code, "token": t}: names, script and algorithm of one language
pub fn c18(case: &Value) -> Res {
    let code = case["lang"].as_str().ok_or("badcase")?;
    let t = case["token"].as_str().ok_or("badcase")?;
    let l = by_code(code)?;
    let spec = LANGS.iter().find(|l| l.0 == code).unwrap();
    let want = names(code);
    let got: Vec<String> = l.1.queue.iter().map(|f| f.name()).collect();
    if got != want { return Err(format!("{} pipeline is {got:?}, expected {want:?}", spec.1)); }
    let js = serde_json::to_value(&l.1).map_err(|e| e.to_string())?;
    if js != json!(want) { return Err(format!("{} pipeline serialises as {js}, expected {want:?}", spec.1)); }
    if !spec.2.is_empty() {
        let (r, w) = (l.1.queue[0].filter(t.into()), trim_class(spec.2, t));
        if r != w { return Err(format!("{}({t:?}) = {r:?}, expected {w:?}", want[0])); }
    }
    if let Some(alg) = spec.4 {
        let w = Stemmer::create(alg).stem(t).into_owned();
        let w = if w.is_empty() { None } else { Some(w) };
        let r = l.1.queue[2].filter(t.into());
        if r != w { return Err(format!("{}({t:?}) = {r:?}, expected {w:?}", want[2])); }
    }
    if matches!(code, "ko" | "ja" | "zh") {
        let r = l.1.queue.last().unwrap().filter(t.into());
        if r.as_deref() != Some(t) { return Err(format!("{}({t:?}) = {r:?}", want.last().unwrap())); }
    }
    Ok(!t.is_empty())
}
pub fn gen_c18(c: &mut Ctx) {
    let mut ts: Vec<String> = gen::TRICKY.iter().map(|s| s.to_string()).collect();
    ts.extend(["katzen", "lopende", "running", "nationalisierung", "книгами", "бегущий", "casas", "habitaciones", "kirjoissa", "evlerimizden", "flickorna", "pigerne", "barnene", "házakban", "livros", "cărților", "continuellement", "abbandonati", "кот-кот", "..a..", "漢字", "ひらがな!"].iter().map(|s| s.to_string()));
    ts.push("".into());
    for l in LANGS { if avail(l.0) { for t in &ts { if !c.test(json!({"lang": l.0, "token": t})) { return; } } } }
    let lits: Vec<String> = c.lits.iter().filter(|l| l.chars().count() < 30).cloned().collect();
    for l in LANGS { if avail(l.0) { for t in lits.iter().take(600) { if !c.test(json!({"lang": l.0, "token": t})) { return; } } } }
    for n in c.big.clone() { for l in LANGS { if avail(l.0) { for u in ["a", "é!", "ver", "й"] { if !c.test(json!({"lang": l.0, "token": format!("{}en", u.repeat(n / u.len()))})) { return; } } } } }
    // words with endings, at every length up to 80 and now and then beyond
    let ends = ["", "s", "en", "er", "ungen", "heten", "lere", "issä", "ssa", "ment", "emment", "azione", "amente", "ções", "ando", "iendo", "ului", "ilor", "ами", "ость", "ывать", "arna", "heterna", "lerimizden", "lar", "ében", "jainkat", "ing", "edly"];
    let mid = ["a", "ab", "ver", "sch", "k", "й", "пере", "ő", "ı", "é", "ss", "un", "o", "nal", "t"];
    let mut n = 0;
    while c.time_left() {
        n += 1;
        let l = LANGS[n % LANGS.len()].0;
        if !avail(l) { continue; }
        let mut t = String::new();
        let want = c.rng.n(80);
        while t.len() < want { let hot = !c.hot.is_empty() && c.rng.p(1, 8); if hot { let i = c.rng.n(c.hot.len()); t.push_str(&c.hot[i].clone()); } else { t.push_str(*c.rng.pick(&mid)); } }
        t.push_str(*c.rng.pick(&ends));
        if c.rng.p(1, 6) && !lits.is_empty() { let i = c.rng.n(lits.len()); t = format!("{}{}", lits[i], c.rng.pick(&ends)); }
        let i = c.ints.clone();
        let t = c.rng.stretch(t, &i);
        if !c.test(json!({"lang": l, "token": t})) { return; }
    }
}

/// case: {"lang": code, "text": t} or {"lang": code, "tokens": [..]}
pub fn c19(case: &Value) -> Res {
    let code = case["lang"].as_str().ok_or("badcase")?;
    let l = by_code(code)?;
    let toks = match case["text"].as_str() { Some(t) => l.0.tokenize(t), None => case["tokens"].as_array().ok_or("badcase")?.iter().map(|w| w.as_str().unwrap_or("").to_string()).collect() };
    let n = toks.len();
    let r = l.1.run(toks);
    if r.iter().any(|t| t.is_empty()) { return Err(format!("{code} pipeline output for {case} contains an empty token: {r:?}")); }
    Ok(n > 0)
}
pub fn gen_c19(c: &mut Ctx) {
    let mut ts: Vec<String> = gen::TRICKY.iter().map(|s| s.to_string()).collect();
    ts.extend(["", "s", "ing", "ed", "...", "!?", "'''", "\u{640}\u{640}", "\u{640}", "\u{64b}", "a..", "、。", "123"].iter().map(|s| s.to_string()));
    let lits = c.lits.clone();
    for l in LANGS { if avail(l.0) {
        for t in &ts { if !c.test(json!({"lang": l.0, "text": t})) || !c.test(json!({"lang": l.0, "tokens": [t]})) { return; } }
        for t in lits.iter().take(if l.0 == "ja" { 50 } else { 500 }) { if !c.test(json!({"lang": l.0, "tokens": [t]})) { return; } }
    } }
    while c.time_left() {
        let l = c.rng.pick(LANGS).0;
        if !avail(l) { continue; }
        let n = c.rng.n(6);
        let t: String = (0..n).map(|_| if c.rng.p(1, 5) { c.rng.pick(&ts).clone() } else { c.rng.pick(gen::TRICKY).to_string() }).collect();
        let i = c.ints.clone();
        let t = c.rng.stretch(t, &i);
        let k = if c.rng.p(1, 2) { json!({"lang": l, "tokens": [t]}) } else { json!({"lang": l, "text": t}) };
        if !c.test(k) { return; }
    }
}

/// case: {"lang": code, "token": t} or {"class": c, "token": t}
pub fn c20(case: &Value) -> Res {
    let t = case["token"].as_str().ok_or("badcase")?;
    let (r, class) = if let Some(code) = case["lang"].as_str() {
        let l = by_code(code)?;
        (fnof(&l.1, "trimmer", 0)?.filter(t.into()), LANGS.iter().find(|l| l.0 == code).unwrap().2.to_string())
    } else {
        let class = case["class"].as_str().ok_or("badcase")?.to_string();
        if Regex::new(&format!("^[{class}]$")).is_err() || class.is_empty() || class.starts_with('^') { return Err("badcase".into()); }
        let f = TR.with(|c| c.borrow_mut().entry(class.clone()).or_insert_with(|| Rc::new(RegexTrimmer::new("n", &class))).clone());
        if f.name() != "n" { return Err(format!("name {}", f.name())); }
        (f.filter(t.into()), class)
    };
    let want = trim_class(&class, t);
    if r != want { return Err(format!("trimmer for [{class}] maps {t:?} to {r:?}, expected {want:?}")); }
    Ok(want.as_deref() != Some(t))
}

pub fn c24(case: &Value) -> Res {
    let t = case.as_str().ok_or("badcase")?;
    let r = by_code("ar")?.1.queue[0].filter(t.into());
    let w: String = t.chars().filter(|c| !matches!(c, '\u{640}' | '\u{64b}'..='\u{65b}')).map(|c| if matches!(c, '\u{622}' | '\u{623}' | '\u{625}' | '\u{671}' | '\u{649}') { '\u{627}' } else { c }).collect();
    let w = if w.is_empty() { None } else { Some(w) };
    // known finding C24: with two or more of either, only the first diacritic and the first alef variant are treated
    let dia = |c: char| matches!(c, '\u{640}' | '\u{64b}'..='\u{65b}');
    let alef = |c: char| matches!(c, '\u{622}' | '\u{623}' | '\u{625}' | '\u{671}' | '\u{649}');
    let f = t.replacen(dia, "", 1).replacen(alef, "\u{627}", 1);
    if (t.chars().filter(|c| dia(*c)).count() > 1 || t.chars().filter(|c| alef(*c)).count() > 1) && r == (if f.is_empty() { None } else { Some(f) }) { return Ok(false); }
    if r != w { return Err(format!("Arabic stemmer({t:?}) = {r:?}, expected {w:?}")); }
    Ok(true)
}

/// texts for C09, C10, C20, C24
pub fn gen_text(c: &mut Ctx) {
    let prop = c.prop.clone();
    let classes = [r"\p{Latin}", "a", "a-z", r"0-9A-Za-z\p{Hiragana}", r"\p{Hangul}", r"\p{Cyrillic}", r"\w", "_", r"\p{Unified_Ideograph}\p{Latin}"];
    let codes: Vec<&str> = LANGS.iter().filter(|l| !l.2.is_empty() && avail(l.0)).map(|l| l.0).collect();
    let wrap = |c: &mut Ctx, t: &str| -> bool {
        if prop == "C20" {
            let i = c.rng.n(codes.len() + classes.len());
            let k = if i < codes.len() { json!({"lang": codes[i], "token": t}) } else { json!({"class": classes[i - codes.len()], "token": t}) };
            c.test(k)
        } else { c.test(json!(t)) }
    };
    if prop == "C20" {
        for l in &codes { for t in gen::TRICKY { for s in [t.to_string(), format!("a{t}"), format!("{t}a"), format!("a{t}a"), format!("{t}я한漢あ{t}")] { if !c.test(json!({"lang": l, "token": s})) { return; } } } }
        for l in classes { for t in gen::TRICKY { for s in [t.to_string(), format!("a{t}"), format!("{t}a"), format!("a{t}a")] { if !c.test(json!({"class": l, "token": s})) { return; } } } }
        // every short token of small letters and digits, every character of the lower planes
        let abc: Vec<String> = "abcdefghijklmnopqrstuvwxyz0".chars().map(|c| c.to_string()).collect();
        let abc: Vec<&str> = abc.iter().map(|s| &s[..]).collect();
        for t in gen::strings(&abc, 3) { for l in ["ru", "ko"] { if !c.test(json!({"lang": l, "token": t})) { return; } } }
        for u in 0..0x3400u32 { if let Some(ch) = char::from_u32(u) { for l in ["de", "ru", "ko", "ja", "zh"] { if avail(l) { for s in [ch.to_string(), format!("{ch}a{ch}я한漢{ch}")] { if !c.test(json!({"lang": l, "token": s})) { return; } } } } } }
        for l in ["de", "ru", "ko"] { for t in gen::strings(&["a", "я", "한", "!", " "], 4) { if !c.test(json!({"lang": l, "token": t})) { return; } } }
    }
    for t in gen::strings(&["a", "B", "_", "-", "é", " ", "!", "9"], if c.thorough { 5 } else { 4 }) { if !wrap(c, &t) { return; } }
    for a in gen::TRICKY { for b in gen::TRICKY { if !wrap(c, &format!("{a}{b}")) { return; } if !wrap(c, &format!("x{a}y{b}z")) { return; } } }
    for l in c.lits.clone() { for t in [l.clone(), format!("({l})"), format!("a{l}b-{l}")] { if !wrap(c, &t) { return; } } }
    for n in c.ints.clone() { if n < 5000 { for k in [n.saturating_sub(1), n, n + 1] { for (p, q) in [("a", ""), ("", "-"), ("!", "a"), ("a-", " "), ("é", "!"), ("a", "Ä"), ("é ", "Σ"), ("ab", "é_!")] { if !wrap(c, &format!("{}{}", p.repeat(k), q)) || !wrap(c, &format!("{}{}", q, p.repeat(k))) { return; } } } } }
    for n in c.big.clone() { for u in ["a", "ab ", "é!", "Ab-", "\u{640}", "я한漢", "Σ "] { for p in ["", "x", " "] {
        let s = format!("{p}{}", u.repeat(n / if n < 70_000 { 1 } else { u.len() }));
        if !wrap(c, &s) { return; }
    } } }
    // every Unicode scalar value, in context
    if prop != "C20" {
        let step = if c.thorough { 1 } else { 1 };
        let mut u = 0u32;
        while u < 0x110000 {
            let s: String = match char::from_u32(u) { Some(ch) => if prop == "C09" { format!("{ch}a{ch}b{ch}") } else { format!("A{ch}B {ch}") }, None => { u += 1; continue; } };
            if u > 0x3000 && u % 7 != 0 && !c.thorough { u += step; continue; }
            if !c.test(json!(s)) { return; }
            u += step;
        }
    }
    while c.time_left() {
        let n = c.rng.n(9);
        let s: String = (0..n).map(|_| if !c.hot.is_empty() && c.rng.p(1, 6) { let i = c.rng.n(c.hot.len()); c.hot[i].clone() } else if c.rng.p(1, 8) { ((b'a' + c.rng.n(26) as u8) as char).to_string() } else if c.rng.p(1, 3) { c.rng.pick(&["a", "b", "Z", "-", " "]).to_string() } else { c.rng.pick(gen::TRICKY).to_string() }).collect();
        let s = { let i = c.ints.clone(); c.rng.stretch(s, &i) };
        if !wrap(c, &s) { return; }
    }
}
#[allow(unused)]
pub fn english() -> English { English::new() }
