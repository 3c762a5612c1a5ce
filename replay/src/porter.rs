//! C07, C08: English stemmer against an independent Porter implementation
use crate::{gen, Ctx, Res};
use elasticlunr::lang::{English, Language};
use serde_json::{json, Value};

thread_local! { static P: elasticlunr::Pipeline = English::new().make_pipeline(); }

fn stem(w: &str) -> Result<Option<String>, String> {
    P.with(|p| {
        let f = p.queue.iter().find(|f| f.name() == "stemmer").or_else(|| p.queue.last()).ok_or("no stemmer in the English pipeline")?;
        Ok(f.filter(w.to_string()))
    })
}
pub fn c07(case: &Value) -> Res {
    let w = case.as_str().ok_or("badcase")?;
    let Some(r) = stem(w)? else { return Err(format!("stem({w:?}) returned no token")) };
    if r.len() > w.len() { return Err(format!("stem({w:?}) = {r:?} is longer than its input")); }
    if r.is_empty() && !w.is_empty() { return Err(format!("stem({w:?}) is empty")); }
    if w.len() <= 2 && r != w { return Err(format!("stem({w:?}) = {r:?}")); }
    Ok(w.len() > 2)
}
pub fn c08(case: &Value) -> Res {
    let w = case.as_str().ok_or("badcase")?;
    if w.len() <= 2 { return Ok(false); }
    let want = String::from_utf8(porter(w.to_ascii_lowercase().into_bytes())).map_err(|_| "badcase oracle")?;
    match stem(w)? {
        Some(r) if r == want => Ok(true),
        r => Err(format!("stem({w:?}) = {r:?}, Porter gives {want:?}")),
    }
}

fn vowel(c: u8) -> bool { matches!(c, b'a' | b'e' | b'i' | b'o' | b'u') }
fn classes(w: &[u8]) -> Vec<bool> {
    // true = consonant
    let mut v: Vec<bool> = vec![];
    for (i, &c) in w.iter().enumerate() {
        v.push(if vowel(c) { false } else if c == b'y' { i == 0 || !v[i - 1] } else { true });
    }
    v
}
fn m(w: &[u8]) -> usize { classes(w).windows(2).filter(|p| !p[0] && p[1]).count() }
fn has_vowel(w: &[u8]) -> bool { classes(w).iter().any(|c| !c) }
fn dbl(w: &[u8]) -> bool { let n = w.len(); n >= 2 && w[n - 1] == w[n - 2] && w[n - 1] < 128 && classes(w)[n - 1] }
fn star_o(w: &[u8]) -> bool {
    let n = w.len();
    if n < 3 { return false; }
    let c = classes(w);
    c[n - 3] && !c[n - 2] && c[n - 1] && !matches!(w[n - 1], b'w' | b'x' | b'y')
}
fn stripped<'a>(w: &'a [u8], s: &str) -> Option<&'a [u8]> { w.strip_suffix(s.as_bytes()) }
fn with(w: &[u8], s: &str) -> Vec<u8> { [w, s.as_bytes()].concat() }

pub fn porter(mut w: Vec<u8>) -> Vec<u8> {
    // 1a
    if let Some(s) = stripped(&w, "sses") { w = with(s, "ss") }
    else if let Some(s) = stripped(&w, "ies") { w = with(s, "i") }
    else if stripped(&w, "ss").is_some() {}
    else if let Some(s) = stripped(&w, "s") { w = s.to_vec() }
    // 1b
    let mut again = false;
    if let Some(s) = stripped(&w, "eed") { if m(s) > 0 { w = with(s, "ee") } }
    else if let Some(s) = stripped(&w, "ed") { if has_vowel(s) { w = s.to_vec(); again = true } }
    else if let Some(s) = stripped(&w, "ing") { if has_vowel(s) { w = s.to_vec(); again = true } }
    if again {
        if w.ends_with(b"at") || w.ends_with(b"bl") || w.ends_with(b"iz") { w.push(b'e') }
        else if dbl(&w) { if !matches!(w[w.len() - 1], b'l' | b's' | b'z') { w.pop(); } }
        else if m(&w) == 1 && star_o(&w) { w.push(b'e') }
    }
    // 1c (elasticlunr rule)
    let n = w.len();
    if n > 2 && w[n - 1] == b'y' && !vowel(w[n - 2]) { w[n - 1] = b'i' }
    let s2 = [("ational", "ate"), ("tional", "tion"), ("enci", "ence"), ("anci", "ance"), ("izer", "ize"), ("bli", "ble"), ("alli", "al"),
        ("entli", "ent"), ("eli", "e"), ("ousli", "ous"), ("ization", "ize"), ("ation", "ate"), ("ator", "ate"), ("alism", "al"),
        ("iveness", "ive"), ("fulness", "ful"), ("ousness", "ous"), ("aliti", "al"), ("iviti", "ive"), ("biliti", "ble"), ("logi", "log")];
    let s3 = [("icate", "ic"), ("ative", ""), ("alize", "al"), ("iciti", "ic"), ("ical", "ic"), ("ful", ""), ("ness", "")];
    for t in [&s2[..], &s3[..]] {
        for (suf, rep) in t {
            if let Some(s) = stripped(&w, suf) { if m(s) > 0 { w = with(s, rep) } break; }
        }
    }
    for suf in ["al", "ance", "ence", "er", "ic", "able", "ible", "ant", "ement", "ment", "ent", "ion", "ou", "ism", "ate", "iti", "ous", "ive", "ize"] {
        if let Some(s) = stripped(&w, suf) {
            if m(s) > 1 && (suf != "ion" || s.ends_with(b"s") || s.ends_with(b"t")) { w = s.to_vec() }
            break;
        }
    }
    if let Some(s) = stripped(&w, "e") { if m(s) > 1 || (m(s) == 1 && !star_o(s)) { w = s.to_vec() } }
    if m(&w) > 1 && dbl(&w) && w.ends_with(b"l") { w.pop(); }
    w
}

pub fn gen(c: &mut Ctx) {
    for t in ["", "s", "S", "é", "漢", "日本", "😀", "sses", "yyy", "ying", "bing", "ééed", "éing", "漢ing", "漢y", "\0\0\0", "'s", "ssss", "eeee", "aaaaaaaa"] { if !c.test(json!(t)) { return; } }
    for l in c.lits.clone() {
        if !c.test(json!(l)) { return; }
        for p in ["", "a", "b", "ab", "tr", "oat", "relat", "é", "abcad", "y"] { for q in ["", "s", "ed", "ing", "y", "e", "ly"] {
            if !c.test(json!(format!("{p}{l}{q}"))) { return; }
        } }
    }
    let suf = ["", "s", "sses", "ies", "ss", "eed", "ed", "ing", "y", "ational", "tional", "enci", "ency", "anci", "ancy", "izer", "bli", "bly", "alli", "ally", "entli", "ently", "eli", "ely", "ousli", "ously",
        "ization", "ation", "ator", "alism", "iveness", "fulness", "ousness", "aliti", "ality", "iviti", "ivity", "biliti", "bility", "logi", "logy", "icate", "ative", "alize", "iciti", "icity", "ical", "ful", "ness",
        "al", "ance", "ence", "er", "ic", "able", "ible", "ant", "ement", "ment", "ent", "ion", "sion", "tion", "ou", "ism", "ate", "iti", "ous", "ive", "ize", "e", "l", "ll", "at", "bl", "iz", "zz", "tt"];
    let mut stems = vec![];
    let cs = ["b", "tr", "y", "w", "x", "é", "ll", "ss", "1"];
    let vs = ["a", "oa", "y", "e"];
    for a in ["", "b", "sk", "y", "漢"] {
        stems.push(a.to_string());
        for v in vs { stems.push(format!("{a}{v}")); for k in cs { stems.push(format!("{a}{v}{k}"));
            for v2 in ["i", "ee"] { stems.push(format!("{a}{v}{k}{v2}")); for k2 in ["t", "w", "ll", "s"] { stems.push(format!("{a}{v}{k}{v2}{k2}")); } } } }
    }
    for st in &stems { for s in suf { if !c.test(json!(format!("{st}{s}"))) { return; } } }
    for st in stems.iter().step_by(7) { for s in suf { for t in ["ed", "ing", "s", "ly", "y", "e", "ness", "al"] { if !c.test(json!(format!("{st}{s}{t}"))) { return; } } } }
    for w in gen::strings(&["a", "y", "s", "e", "l", "t", "i", "é"], if c.thorough { 6 } else { 5 }) { if !c.test(json!(w)) { return; } }
    for n in c.ints.clone() { if n < 3000 { for k in [n.saturating_sub(1), n, n + 1] { for b in ["a", "ba", "ab", "y", "é"] { for s in ["", "ing", "ed", "ization"] {
        let w: String = b.chars().cycle().take(k).collect(); let w = format!("{w}{s}"); if !c.test(json!(w)) { return; } } } } } }
    for n in c.big.clone() { for b in ["ab", "a", "é"] { for s in ["", "ing", "ational"] { if !c.test(json!(format!("{}{s}", b.repeat(n / b.len())))) { return; } } } }
    while c.time_left() {
        let mut w = String::new();
        for _ in 0..c.rng.n(7) {
            match c.rng.n(6) {
                0 => w.push_str(c.rng.pick(&suf)),
                1 => w.push_str(c.rng.pick(&stems).clone().as_str()),
                2 => w.push_str(c.rng.pick(gen::TRICKY)),
                3 => w.push((b'a' + c.rng.n(26) as u8) as char),
                4 => w.push((c.rng.n(128) as u8) as char),
                _ => { w.push(*c.rng.pick(&['a', 'e', 'i', 'o', 'u', 'y'])); w.push((b'a' + c.rng.n(26) as u8) as char) }
            }
        }
        if c.rng.p(1, 8) { w = w.to_uppercase(); }
        let i = c.ints.clone();
        w = c.rng.stretch(w, &i);
        if !c.test(json!(w)) { return; }
    }
}
