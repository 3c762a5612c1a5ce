//! C13 C14 C15 C21 (adding documents, index JSON), C16 (builder), C22 (search options)
use crate::{gen, lang, Ctx, Res};
use elasticlunr::config::{SearchBool, SearchOptions, SearchOptionsField};
use elasticlunr::lang::{English, Language};
use elasticlunr::pipeline::FnWrapper;
use elasticlunr::{Index, IndexBuilder, Pipeline};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// a language given by the case: name, code, separator and pipeline functions [[name, kind]]
struct Given { name: String, code: String, sep: String, fns: Vec<(String, String)> }
fn drop_x(t: String) -> Option<String> { if t.contains('x') { None } else { Some(t) } }
fn fold(t: String) -> Option<String> { Some(t.replace("b1", "b2").replace("e", "")) }
fn rev(t: String) -> Option<String> { Some(t.chars().rev().collect()) }
fn twice(t: String) -> Option<String> { if t.len() < 100 { Some(format!("{t}{t}")) } else { Some(t) } }
fn same(t: String) -> Option<String> { Some(t) }
fn none(_: String) -> Option<String> { None }
fn func(kind: &str) -> fn(String) -> Option<String> {
    match kind { "dropx" => drop_x, "fold" => fold, "rev" => rev, "twice" => twice, "none" => none, _ => same }
}
impl Language for Given {
    fn name(&self) -> String { self.name.clone() }
    fn code(&self) -> String { self.code.clone() }
    fn tokenize(&self, text: &str) -> Vec<String> { text.split(&self.sep[..]).map(|s| s.to_string()).collect() }
    fn make_pipeline(&self) -> Pipeline { Pipeline { queue: self.fns.iter().map(|(n, k)| -> Box<dyn elasticlunr::pipeline::PipelineFn> { Box::new(FnWrapper(n.clone(), func(k))) }).collect() } }
}
pub fn language(v: &Value) -> Result<Box<dyn Language>, String> {
    let own = |name: &str, code: &str, sep: &str, fns: Vec<(String, String)>| Box::new(Given { name: name.into(), code: code.into(), sep: sep.into(), fns });
    if let Some(o) = v.as_object() {
        let g = |k: &str| o.get(k).and_then(|x| x.as_str()).ok_or("badcase");
        let f = o.get("fns").and_then(|x| x.as_array()).ok_or("badcase")?;
        let fns = f.iter().map(|x| Ok((x[0].as_str().ok_or("badcase")?.to_string(), x[1].as_str().ok_or("badcase")?.to_string()))).collect::<Result<Vec<_>, String>>()?;
        return Ok(own(g("name")?, g("code")?, g("sep")?, fns));
    }
    Ok(match v.as_str().ok_or("badcase")? {
        "custom" => own("Custom tongue", "cu", "|", vec![("dropx".into(), "dropx".into()), ("fold".into(), "fold".into())]),
        "en" => Box::new(English::new()),
        c => elasticlunr::lang::from_code(c).ok_or("badcase")?,
    })
}
fn gen_lang(c: &mut Ctx, lits: &[String]) -> Value {
    if c.rng.p(1, 2) { return json!(*c.rng.pick(&["en", "en", "custom", "de", "ru", "ar", "ko"])); }
    let names = ["", "L", "l", "L1", "English", "english", "trimmer", "stopWordFilter", "a b", "é", "en", "\u{0}", "  "];
    let pick = |c: &mut Ctx| { let b = if c.rng.p(1, 6) && !lits.is_empty() { c.rng.pick(lits).clone() } else { c.rng.pick(&names).to_string() }; if c.rng.p(1, 4) { c.rng.mutate(&b) } else { b } };
    let name = pick(c);
    let code = match c.rng.n(5) { 0 => name.clone(), 1 => name.to_lowercase(), 2 => name.to_uppercase(), 3 => c.rng.mutate(&name), _ => pick(c) };
    let n = c.rng.n(4);
    let fns: Vec<Value> = (0..n).map(|_| { let f = pick(c); json!([f, *c.rng.pick(&["dropx", "fold", "rev", "twice", "same", "same", "none"])]) }).collect();
    json!({"name": name, "code": code, "sep": *c.rng.pick(&["|", " ", ","]), "fns": fns})
}
fn tok(kind: &str) -> Option<Box<dyn Fn(&str) -> Vec<String>>> {
    match kind {
        "chars" => Some(Box::new(|s: &str| s.chars().map(|c| c.to_string()).collect())),
        "comma" => Some(Box::new(|s: &str| s.split(',').map(|c| c.to_string()).collect())),
        "const" => Some(Box::new(|_: &str| vec!["konst".into(), "konst".into(), "z".into()])),
        "none" => Some(Box::new(|_: &str| vec![])),
        _ => None,
    }
}
/// a field's text: a string, or [n, text] for the text n times
fn text(v: &Value) -> String {
    match v[0].as_u64() {
        Some(n) => v[1].as_str().unwrap_or("").repeat(n.min(20_000_000) as usize),
        None => v.as_str().unwrap_or("").to_string(),
    }
}
fn tokenize(kind: &str, l: &dyn Language, s: &str) -> Vec<String> { match tok(kind) { Some(f) => f(s), None => l.tokenize(s) } }

struct Model {
    fields: Vec<String>, kinds: Vec<String>, rf: String, save: bool, lang: String, pipe: Vec<String>,
    post: BTreeMap<String, BTreeMap<String, BTreeMap<String, f64>>>, // field -> token -> ref -> tf
    present: BTreeMap<String, Vec<String>>,
    docs: BTreeMap<String, BTreeMap<String, String>>, info: BTreeMap<String, BTreeMap<String, usize>>,
}
fn trie(post: &BTreeMap<String, BTreeMap<String, f64>>, prefix: &str) -> Value {
    let mut o = Map::new();
    let d = post.get(prefix).cloned().unwrap_or_default();
    o.insert("df".into(), json!(d.len()));
    o.insert("docs".into(), Value::Object(d.iter().map(|(k, v)| (k.clone(), json!({"tf": v}))).collect()));
    let n = prefix.chars().count();
    let mut nexts: Vec<char> = post.keys().filter(|t| t.starts_with(prefix)).filter_map(|t| t.chars().nth(n)).collect();
    nexts.sort(); nexts.dedup();
    for c in nexts { o.insert(c.to_string(), trie(post, &format!("{prefix}{c}"))); }
    Value::Object(o)
}
impl Model {
    fn json(&self) -> Value {
        json!({
            "fields": self.fields, "pipeline": self.pipe, "ref": self.rf, "version": "0.9.5", "lang": self.lang,
            "index": self.fields.iter().map(|f| (f.clone(), json!({"root": trie(&self.post[f], "")}))).collect::<Map<_, _>>(),
            "documentStore": {"save": self.save, "length": self.docs.len(), "docInfo": self.info,
                "docs": self.docs.iter().map(|(k, d)| (k.clone(), if self.save { json!(d) } else { json!({}) })).collect::<Map<_, _>>()},
        })
    }
}
/// postings of one field from its JSON trie: token -> (df, ref -> tf)
fn walk(v: &Value, pre: &str, out: &mut BTreeMap<String, (i64, BTreeMap<String, f64>)>) {
    if let Some(o) = v.as_object() {
        let df = o.get("df").and_then(|x| x.as_i64()).unwrap_or(0);
        let docs: BTreeMap<String, f64> = o.get("docs").and_then(|d| d.as_object()).map(|d| d.iter().map(|(k, x)| (k.clone(), x["tf"].as_f64().unwrap_or(-1.))).collect()).unwrap_or_default();
        if df != 0 || !docs.is_empty() { out.insert(pre.into(), (df, docs)); }
        for (k, c) in o { if k.chars().count() == 1 { walk(c, &format!("{pre}{k}"), out); } }
    }
}
/// adds the pipeline's mismatch if the oracle's pipeline differs from the crate's; the oracle's
/// pipeline is run token by token from the language's public pipeline functions
fn process(p: &Pipeline, toks: Vec<String>) -> Vec<String> {
    toks.into_iter().filter_map(|t| p.queue.iter().try_fold(t, |t, f| f.filter(t))).collect()
}

/// case: {"lang","save","ref","fields":[[name, tokenizer]], "docs":[[ref,[text..]]..]}
pub fn add_doc(prop: &str, case: &Value) -> Res {
    if case.get("ops").is_some() { return trie_json(case); }
    let str_ = |v: &Value| v.as_str().map(|s| s.to_string()).ok_or("badcase".to_string());
    let code = case["lang"].clone();
    let l = language(&code)?;
    let p = l.make_pipeline();
    let mut m = Model {
        fields: vec![], kinds: vec![], rf: str_(&case["ref"])?, save: case["save"].as_bool().ok_or("badcase")?, lang: l.name(),
        pipe: p.queue.iter().map(|f| f.name()).collect(), post: Default::default(), present: Default::default(), docs: Default::default(), info: Default::default(),
    };
    let mut b = IndexBuilder::with_language(language(&code)?).save_docs(m.save).set_ref(&m.rf);
    for f in case["fields"].as_array().ok_or("badcase")? {
        let (n, k) = (str_(&f[0])?, str_(&f[1])?);
        if m.fields.contains(&n) { return Err("badcase".into()); }
        b = match tok(&k) { Some(t) => b.add_field_with_tokenizer(&n, t), None => b.add_field(&n) };
        m.post.insert(n.clone(), Default::default());
        m.fields.push(n); m.kinds.push(k);
    }
    let mut ix = b.build();
    let docs = &gen::unfold(case["docs"].as_array().ok_or("badcase")?);
    let total = docs.len();
    for (di, d) in docs.iter().enumerate() {
        let r = str_(&d[0])?;
        let vals: Vec<String> = d[1].as_array().ok_or("badcase")?.iter().map(text).collect();
        if vals.len() > m.fields.len() { return Err("badcase".into()); }
        let before = if total <= 12 || di + 1 == total { serde_json::to_value(&ix).map_err(|e| e.to_string())? } else { Value::Null };
        ix.add_doc(&r, &vals);
        let mut doc: BTreeMap<String, String> = [(m.rf.clone(), r.clone())].into();
        let mut touched: Vec<(String, Vec<String>)> = vec![];
        for (i, v) in vals.iter().enumerate() {
            let f = m.fields[i].clone();
            doc.insert(f.clone(), v.clone());
            if f == m.rf { continue; }
            let t = process(&p, tokenize(&m.kinds[i], &*l, v));
            m.info.entry(r.clone()).or_default().insert(f.clone(), t.len());
            let mut cnt: BTreeMap<String, u64> = BTreeMap::new();
            for x in &t { *cnt.entry(x.clone()).or_default() += 1; }
            for (x, n) in cnt { if !x.is_empty() { m.post.get_mut(&f).unwrap().entry(x).or_default().insert(r.clone(), (n as f64).sqrt()); } }
            touched.push((f, t));
        }
        m.docs.insert(r.clone(), doc.clone());
        if total > 12 && di + 1 != total { continue; }
        let js = serde_json::to_value(&ix).map_err(|e| e.to_string())?;
        let at = format!("after adding document {} ({r:?})", di + 1);
        match prop {
            "C13" => for f in &m.fields {
                let mut got = BTreeMap::new();
                walk(&js["index"][f]["root"], "", &mut got);
                let g: BTreeMap<&String, f64> = got.iter().filter_map(|(t, (_, d))| d.get(&r).map(|x| (t, *x))).collect();
                let w: BTreeMap<&String, f64> = m.post[f].iter().filter_map(|(t, d)| d.get(&r).map(|x| (t, *x))).collect();
                if g != w { return Err(format!("field {f:?} records {g:?} for {r:?}, expected {w:?} {at}")); }
                let gl = js["documentStore"]["docInfo"][&r][f].as_u64();
                let wl = m.info.get(&r).and_then(|x| x.get(f)).map(|x| *x as u64);
                if gl != wl { return Err(format!("recorded length of field {f:?} of {r:?} is {gl:?}, expected {wl:?} {at}")); }
            },
            "C14" => {
                let want = if m.save { json!(doc) } else { json!({}) };
                let got = &js["documentStore"]["docs"][&r];
                if *got != want { return Err(format!("stored document {got}, expected {want} {at}")); }
                let all: Value = json!(m.docs.iter().map(|(k, d)| (k.clone(), if m.save { json!(d) } else { json!({}) })).collect::<Map<_, _>>());
                if js["documentStore"]["docs"] != all { return Err(format!("stored documents {}, expected {all} {at}", js["documentStore"]["docs"])); }
                if js["documentStore"]["length"] != json!(m.docs.len()) { return Err(format!("length {} {at}", js["documentStore"]["length"])); }
            }
            "C15" => {
                for f in &m.fields {
                    let (mut a, mut b) = (BTreeMap::new(), BTreeMap::new());
                    walk(&before["index"][f]["root"], "", &mut a);
                    walk(&js["index"][f]["root"], "", &mut b);
                    let strip = |x: &BTreeMap<String, (i64, BTreeMap<String, f64>)>| -> BTreeMap<(String, String), u64> {
                        x.iter().flat_map(|(t, (_, d))| d.iter().filter(|(k, _)| **k != r).map(move |(k, v)| ((t.clone(), k.clone()), v.to_bits()))).collect() };
                    if strip(&a) != strip(&b) { return Err(format!("adding {r:?} changed the postings of another document in field {f:?}: {:?} became {:?}", strip(&a), strip(&b))); }
                    for t in a.keys().chain(b.keys()) {
                        let others = |x: &BTreeMap<String, (i64, BTreeMap<String, f64>)>| x.get(t).map_or(0, |(df, d)| df - d.contains_key(&r) as i64);
                        if others(&a) != others(&b) { return Err(format!("adding {r:?} changed other documents' df contribution for {t:?} in {f:?} from {} to {}", others(&a), others(&b))); }
                    }
                    let own = touched.iter().find(|x| &x.0 == f).map(|x| x.1.clone()).unwrap_or_default();
                    for (t, (_, d)) in &b { if let Some(v) = d.get(&r) {
                        let old = a.get(t).and_then(|x| x.1.get(&r));
                        if old.map(|x| x.to_bits()) != Some(v.to_bits()) && !own.contains(t) { return Err(format!("token {t:?} was recorded in field {f:?}, whose text does not yield it, {at}")); }
                    } }
                }
                for sect in ["docs", "docInfo"] {
                    let strip = |v: &Value| { let mut o = v["documentStore"][sect].as_object().cloned().unwrap_or_default(); o.remove(&r); o };
                    if strip(&before) != strip(&js) { return Err(format!("adding {r:?} changed another document's {sect}")); }
                }
                for k in ["fields", "ref", "pipeline", "lang", "version"] { if before[k] != js[k] { return Err(format!("adding {r:?} changed {k} from {} to {}", before[k], js[k])); } }
                if before["documentStore"]["save"] != js["documentStore"]["save"] { return Err("saving mode changed".into()); }
                let keys = |v: &Value| v["index"].as_object().map(|o| o.keys().cloned().collect::<Vec<_>>());
                if keys(&before) != keys(&js) { return Err("set of indexed fields changed".into()); }
                if ix.get_fields() != &m.fields[..] { return Err("get_fields changed".into()); }
            }
            _ => {
                let want = m.json();
                if js != want { return Err(format!("index JSON is {js}, expected {want} {at}")); }
                let txt = ix.to_json();
                if txt != serde_json::to_string(&ix).unwrap() || ix.to_json_pretty() != serde_json::to_string_pretty(&ix).unwrap() { return Err("to_json and serde_json disagree".into()); }
                if depth(&want) > 100 { continue; } // serde_json refuses to parse deeper than 128 levels
                let v: Value = serde_json::from_str(&txt).map_err(|e| format!("to_json is not JSON: {e}"))?;
                if v.to_string().len() != txt.len() && !close(&v, &want) { return Err(format!("to_json {txt} repeats members")); }
                if !close(&v, &want) { return Err(format!("to_json is {v}, expected {want}")); }
            }
        }
    }
    if total == 0 && prop == "C21" {
        let js = serde_json::to_value(&ix).map_err(|e| e.to_string())?;
        if js != m.json() { return Err(format!("index JSON is {js}, expected {}", m.json())); }
    }
    let _ = &m.present;
    Ok(total > 0)
}
/// C25, cases as for add_doc: the documents (the last given for each reference) in several orders, and some again
pub fn order(case: &Value) -> Res {
    let str_ = |v: &Value| v.as_str().map(|s| s.to_string()).ok_or("badcase".to_string());
    let mut docs: Vec<(String, Vec<String>)> = vec![];
    let mut at: BTreeMap<String, usize> = BTreeMap::new();
    for d in gen::unfold(case["docs"].as_array().ok_or("badcase")?) {
        let r = str_(&d[0])?;
        let v = d[1].as_array().ok_or("badcase")?.iter().map(text).collect();
        match at.get(&r) {
            Some(&i) => docs[i].1 = v,
            None => { at.insert(r.clone(), docs.len()); docs.push((r, v)); }
        }
    }
    let fields = case["fields"].as_array().ok_or("badcase")?;
    let build = |ord: &[usize]| -> Result<(Value, String), String> {
        let mut b = IndexBuilder::with_language(language(&case["lang"])?).save_docs(case["save"].as_bool().ok_or("badcase")?).set_ref(&str_(&case["ref"])?);
        for (i, f) in fields.iter().enumerate() {
            let (n, k) = (str_(&f[0])?, str_(&f[1])?);
            if fields[..i].iter().any(|g| g[0] == f[0]) { return Err("badcase".into()); }
            b = match tok(&k) { Some(t) => b.add_field_with_tokenizer(&n, t), None => b.add_field(&n) };
        }
        let mut ix = b.build();
        for &i in ord { if docs[i].1.len() > fields.len() { return Err("badcase".into()); } ix.add_doc(&docs[i].0, &docs[i].1); }
        Ok((serde_json::to_value(&ix).map_err(|e| e.to_string())?, ix.to_json()))
    };
    let n = docs.len();
    let there: Vec<usize> = (0..n).collect();
    let mut orders: Vec<Vec<usize>> = vec![there.iter().rev().copied().collect(), (0..n).map(|i| (i + n / 2) % n).collect(), there.iter().flat_map(|&i| [i, i]).collect(), there.iter().chain(&there).copied().collect(), there.iter().chain(there.iter().rev()).copied().collect()];
    if n == 0 { return Ok(false); }
    if n > 12 { orders.truncate(2); }
    if n > 2 { orders.push((0..n).map(|i| (i * 2) % n + if n % 2 == 0 && i >= n / 2 { 1 } else { 0 }).collect()); orders.push((0..n).chain([0]).collect()); }
    let (a, at) = build(&there)?;
    for o in orders {
        let (b, bt) = build(&o)?;
        if a != b || at != bt { return Err(format!("adding {docs:?} in the order {there:?} gives {a}, in the order {o:?} {b}")); }
    }
    Ok(true)
}

pub fn depth(v: &Value) -> usize {
    match v { Value::Object(o) => 1 + o.values().map(depth).max().unwrap_or(0), Value::Array(o) => 1 + o.iter().map(depth).max().unwrap_or(0), _ => 0 }
}
pub fn close(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| close(v, w))),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| close(p, q)),
        (Value::Number(x), Value::Number(y)) => { let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap()); (x - y).abs() <= 1e-12 * y.abs() }
        _ => a == b,
    }
}

/// case: {"ops": [["add", ref, token, frequency] | ["rem", ref, token]]} on an inverted index of its own
fn trie_json(case: &Value) -> Res {
    let mut ix = elasticlunr::inverted_index::InvertedIndex::new();
    let mut post: BTreeMap<String, BTreeMap<String, f64>> = BTreeMap::new();
    for o in case["ops"].as_array().ok_or("badcase")? {
        let (r, t) = (o[1].as_str().ok_or("badcase")?, o[2].as_str().ok_or("badcase")?);
        if o[0] == json!("add") {
            let f = o[3].as_f64().ok_or("badcase")?;
            ix.add_token(r, t, f);
            if !t.is_empty() { post.entry(t.into()).or_default().insert(r.into(), f); }
        } else {
            ix.remove_token(r, t);
            if let Some(d) = post.get_mut(t) { d.remove(r); }
        }
    }
    let (js, want) = (serde_json::to_value(&ix).map_err(|e| e.to_string())?, json!({"root": trie(&post, "")}));
    if js != want { return Err(format!("the field's JSON is {js}, expected {want}")); }
    let txt = serde_json::to_string(&ix).map_err(|e| e.to_string())?;
    for f in post.values().flat_map(|d| d.values()) {
        let n = serde_json::to_string(f).unwrap();
        if !txt.contains(&format!("\"tf\":{n}")) { return Err(format!("the field's JSON {txt} does not spell the frequency {n}")); }
    }
    Ok(!post.is_empty())
}
fn gen_trie_json(c: &mut Ctx) -> bool {
    let pool = ["a", "ab", "abc", "b", "é", "e\u{301}", "漢字", "😀", "😀a", "\"", "\\", "\u{0}", "\u{7f}", "\u{85}", "\u{feff}", "\u{10ffff}", "\u{ffff}", "ß", "ı", "A", "d", "docs", "df", ""];
    for t in pool { for u in pool {
        for ops in [json!([["add", "1", t, 1.5]]), json!([["add", "1", t, 1.0], ["add", "2", u, 2.0]]), json!([["add", "1", t, 1.0], ["add", "2", u, 0.25], ["rem", "1", t]]), json!([["add", "1", t, 0.0], ["rem", "1", u], ["rem", "1", t], ["add", "1", u, 3.0]])] {
            if !c.test(json!({"ops": ops})) { return false; }
        }
    } }
    for _ in 0..3000 {
        let n = 1 + c.rng.n(12);
        let ops: Vec<Value> = (0..n).map(|_| {
            let mut t = c.rng.pick(&pool).to_string();
            if c.rng.p(1, 2) { t.push_str(*c.rng.pick(&pool)); }
            if c.rng.p(1, 6) && !c.lits.is_empty() { let l = c.lits.clone(); t = c.rng.pick(&l).clone(); }
            if c.rng.p(1, 5) { t = c.rng.mutate(&t); }
            let r = c.rng.pick(&["1", "2", "", "é", "docs", "df"]).to_string();
            if c.rng.p(1, 3) { json!(["rem", r, t]) } else {
                let k = c.rng.n(2000) as f64;
                let f = [k.sqrt(), k, k / 7.0, 1e300 * k, k * 1e-310, -k][c.rng.n(6)];
                json!(["add", r, t, f])
            }
        }).collect();
        if !c.test(json!({"ops": ops})) { return false; }
    }
    true
}

pub fn gen_add_doc(c: &mut Ctx) {
    if c.prop == "C21" && !gen_trie_json(c) { return; }
    let base = |lang: Value, save: bool, rf: &str, fields: Value, docs: Value| json!({"lang": lang, "save": save, "ref": rf, "fields": fields, "docs": docs});
    let texts = ["", "apple", "apple apple pie", "the running dogs run", "a|b1|b2|b1|e||x|bx", "é 漢 é", "b1,b2,b1", "x", "e"];
    let fsets = [json!([["title", ""], ["body", ""]]), json!([["body", "chars"], ["title", ""], ["z", "comma"]]), json!([["id", ""], ["body", ""]]), json!([["body", ""], ["id", "chars"], ["a", "const"]]), json!([["a", "none"], ["b", ""], ["c", ""]])];
    for lang in ["en", "custom"] { for save in [true, false] { for docs in [json!([]), json!([["1", []]]), json!([["1", []], ["", []], ["1", []]])] { for fs in [json!([]), json!([["a", ""]]), json!([["id", ""]]), json!([["", ""]])] {
        if !c.test(base(json!(lang), save, "id", fs, docs.clone())) { return; }
    } } } }
    for lang in ["en", "custom"] { for save in [true, false] { for rf in ["id", "body", "uid"] { for fs in &fsets {
        if !c.test(base(json!(lang), save, rf, fs.clone(), json!([]))) { return; }
        for t in texts { for u in texts {
            if !c.test(base(json!(lang), save, rf, fs.clone(), json!([["1", [t, u]]]))) { return; }
            if !c.test(base(json!(lang), save, rf, fs.clone(), json!([["1", [t]], ["2", [u, t]], ["1", [u]]]))) { return; }
            if !c.test(base(json!(lang), save, rf, fs.clone(), json!([["1", [t, u]], ["1", [u, t]], ["1", [format!("{t} {u}")]]]))) { return; }
        } }
    } } } }
    let mut sizes = vec![2usize, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000];
    sizes.extend(c.ints.iter().filter(|n| **n <= 5000).flat_map(|n| [n.saturating_sub(1), *n, n + 1]));
    sizes.sort(); sizes.dedup();
    for n in sizes {
        let rep = "apple ".repeat(n);
        let uniq: String = (0..n).map(|i| format!("word{i} ")).collect();
        let long = "q".repeat(n.min(600));
        for save in [true, false] {
            if !c.test(base(json!("en"), save, "id", json!([["title", ""], ["body", ""]]), json!([["1", [rep, uniq]], ["2", [long, rep]]]))) { return; }
        }
        if n <= 130 {
            let fs: Vec<Value> = (0..n).map(|i| json!([format!("f{i}"), ""])).collect();
            let vals: Vec<String> = (0..n).map(|i| format!("v{i} same")).collect();
            if !c.test(base(json!("en"), true, "id", json!(fs), json!([["1", vals], ["2", ["x y"]]]))) { return; }
            let vals: Vec<&str> = (0..n).map(|i| if i % 3 == 0 { "" } else { "the x" }).collect();
            if !c.test(base(json!("en"), true, "id", json!(fs), json!([["1", vals], ["2", vals]]))) { return; }
            let docs: Vec<Value> = (0..n).map(|i| json!([format!("d{i}"), [format!("same w{i}"), "same"]])).collect();
            if !c.test(base(json!("en"), true, "id", json!([["title", ""], ["body", ""]]), json!(docs))) { return; }
        }
    }
    for n in gen::many(&c.ints) {
        if !c.test(base(json!("en"), false, "id", json!([["body", ""]]), json!([["*", n, ["d#", ["same"]]]]))) { return; }
        if !c.test(base(json!("en"), true, "id", json!([["body", ""]]), json!([["1", ["apple"]], ["*", n, ["2", ["apple pie"]]]]))) { return; }
        if n < 5000 { if !c.test(base(json!("en"), true, "id", json!([["body", ""]]), json!([["*", n, ["d#", ["w#"]]]]))) { return; } }
    }
    // counts that a narrower number cannot hold: 16-bit integers, and the 24-bit significand of f32
    for n in c.big.clone().into_iter().chain([(1 << 24) + 1]) {
        if n > 5_000_000 {
            if c.prop == "C13" && !c.test(base(json!("en"), false, "id", json!([["body", ""]]), json!([["1", [[n, "z "]]]]))) { return; }
            continue;
        }
        for save in [true, false] { for u in ["z ", "ab cd-e ", "é"] {
            if u == "é" && n > 3000 { continue; } // a token of that length is one node deep per character
            if !c.test(base(json!("en"), save, "id", json!([["a", ""], ["body", ""]]), json!([["1", ["x", [n / u.len(), u]]], ["2", [[n, u], "y"]]]))) { return; }
        } }
    }
    let lits: Vec<String> = c.lits.iter().filter(|l| l.len() < 60).cloned().collect();
    for l in lits.iter().take(500) {
        if !c.test(base(json!("en"), true, "id", json!([["title", ""], ["body", ""]]), json!([["1", [format!("{l} foo {l}"), "foo"]], [l, ["foo bar", l]]]))) { return; }
        if l != "b" && l != "c" { if !c.test(base(json!("en"), true, l, json!([[l, ""], ["b", ""], ["c", ""]]), json!([["1", ["one two", "two three", "docs df"]], ["2", ["two", "q"]]]))) { return; } }
    }
    let names = ["id", "title", "body", "", "é", "docs", "df", "root", "ref", "a b", "ID", "x"];
    while c.time_left() {
        let lang = gen_lang(c, &lits);
        let sep: String = lang["sep"].as_str().unwrap_or(if lang == json!("custom") { "|" } else { " " }).to_string();
        let nf = if c.rng.p(1, 20) { c.rng.n(40) } else { c.rng.n(4) } + 1;
        let mut fs: Vec<(String, &str)> = vec![];
        for _ in 0..nf {
            let n = if c.rng.p(1, 8) && !lits.is_empty() { c.rng.pick(&lits).clone() } else { c.rng.pick(&names).to_string() };
            let n = if c.rng.p(1, 4) { let b = if fs.is_empty() { n } else { c.rng.pick(&fs).0.clone() }; c.rng.mutate(&b) } else { n };
            if !fs.iter().any(|f| f.0 == n) { fs.push((n, *c.rng.pick(&["", "", "", "chars", "comma", "const", "none"]))); }
        }
        let rf = if c.rng.p(1, 2) { "id".to_string() } else if c.rng.p(1, 3) { let b = c.rng.pick(&fs).0.clone(); if c.rng.p(1, 2) { b } else { c.rng.mutate(&b) } } else { c.rng.pick(&names).to_string() };
        let nd = 1 + c.rng.n(4);
        let mut docs = vec![];
        for _ in 0..nd {
            let k = c.rng.n(fs.len() + 1);
            let vals: Vec<String> = (0..k).map(|_| {
                let n = c.rng.n(8);
                (0..n).map(|_| { let s = &sep[..]; match c.rng.n(8) {
                    0 => c.rng.pick(gen::TRICKY).to_string(),
                    1 if !lits.is_empty() => format!("{}{s}", c.rng.pick(&lits)),
                    2 => format!("b1{s}"), 3 => format!("bx{s}"), 4 => format!("apple{s}"), 5 => format!("the{s}"), 6 => format!("runs{s}"), _ => format!("running,b1{s}") } }).collect::<String>()
            }).collect();
            let i = c.ints.clone();
            let vals: Vec<String> = vals.into_iter().map(|v| c.rng.stretch(v, &i)).collect();
            let r = c.rng.pick(&["1", "2", "", "10", "é", "id", "12"]).to_string();
            let r = if c.rng.p(1, 6) { c.rng.mutate(&r) } else { r };
            docs.push(json!([r, vals]));
        }
        let save = c.rng.p(1, 2);
        if !c.test(base(lang.clone(), save, &rf, json!(fs), json!(docs))) { return; }
    }
}

/// case: {"lang": null|code, "steps": [["field", n], ["tok", n, kind], ["fields", [..]], ["save", b], ["ref", s]]}
pub fn builder(case: &Value) -> Res {
    let code = if case["lang"].is_null() { None } else { Some(&case["lang"]) };
    let en = json!("en");
    let steps = case["steps"].as_array().ok_or("badcase")?;
    let (mut fields, mut kinds, mut save, mut rf): (Vec<String>, Vec<String>, bool, String) = (vec![], vec![], true, "id".into());
    let mut dup = false;
    for s in steps {
        let mut add = |n: &str, k: &str| { if fields.iter().any(|f| f == n) { dup = true } else { fields.push(n.into()); kinds.push(k.into()) } };
        match s[0].as_str().ok_or("badcase")? {
            "field" => add(s[1].as_str().ok_or("badcase")?, ""),
            "tok" => add(s[1].as_str().ok_or("badcase")?, s[2].as_str().ok_or("badcase")?),
            "fields" => for f in s[1].as_array().ok_or("badcase")? { add(f.as_str().ok_or("badcase")?, "") },
            "save" => save = s[1].as_bool().ok_or("badcase")?,
            _ => rf = s[1].as_str().ok_or("badcase")?.into(),
        }
        if dup { break; }
    }
    let lname = language(code.unwrap_or(&en))?.name();
    let plain = code.is_none() && steps.len() == 1 && steps[0][0] == json!("fields");
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut b = match code { Some(c) => IndexBuilder::with_language(language(c).unwrap()), None => IndexBuilder::new() };
        for s in steps {
            b = match s[0].as_str().unwrap() {
                "field" => b.add_field(s[1].as_str().unwrap()),
                "tok" => match tok(s[2].as_str().unwrap()) { Some(t) => b.add_field_with_tokenizer(s[1].as_str().unwrap(), t), None => b.add_field(s[1].as_str().unwrap()) },
                "fields" => b.add_fields(s[1].as_array().unwrap().iter().map(|f| f.as_str().unwrap())),
                "save" => b.save_docs(s[1].as_bool().unwrap()),
                _ => b.set_ref(s[1].as_str().unwrap()),
            }
        }
        b.build()
    }));
    let mut ixs: Vec<Index> = vec![];
    match r {
        Err(_) => return if dup { Ok(true) } else { Err("building panicked without a duplicate field".into()) },
        Ok(_) if dup => return Err("a duplicate field was accepted".into()),
        Ok(i) => ixs.push(i),
    }
    if plain { ixs.push(Index::new(&fields)); ixs.push(Index::with_language(Box::new(English::new()), &fields)); }
    if let (Some(c), 1) = (code, steps.len()) { if steps[0][0] == json!("fields") { ixs.push(Index::with_language(language(c)?, &fields)); } }
    for mut ix in ixs {
        if ix.get_fields() != &fields[..] { return Err(format!("get_fields() = {:?}, expected {fields:?}", ix.get_fields())); }
        let js = serde_json::to_value(&ix).map_err(|e| e.to_string())?;
        let l = language(code.unwrap_or(&en))?;
        let p = l.make_pipeline();
        let want = json!({"fields": fields, "pipeline": p.queue.iter().map(|f| f.name()).collect::<Vec<_>>(), "ref": rf, "version": "0.9.5", "lang": lname,
            "index": fields.iter().map(|f| (f.clone(), json!({"root": {"docs": {}, "df": 0}}))).collect::<Map<_, _>>(),
            "documentStore": {"save": save, "docs": {}, "docInfo": {}, "length": 0}});
        if js != want { return Err(format!("built index is {js}, expected {want}")); }
        // the tokenizers sit with their fields
        let text = "ab,cd ef";
        let vals: Vec<&str> = fields.iter().map(|_| text).collect();
        ix.add_doc("r", &vals);
        let js = serde_json::to_value(&ix).map_err(|e| e.to_string())?;
        for (i, f) in fields.iter().enumerate() {
            if *f == rf { continue; }
            let t = process(&p, tokenize(&kinds[i], &*l, text));
            if js["documentStore"]["docInfo"]["r"][f] != json!(t.len()) { return Err(format!("field {f:?} does not use its own tokenizer: length {} for {text:?}, expected {}", js["documentStore"]["docInfo"]["r"][f], t.len())); }
            let mut got = BTreeMap::new();
            walk(&js["index"][f]["root"], "", &mut got);
            let mut w: Vec<&String> = t.iter().filter(|x| !x.is_empty()).collect(); w.sort(); w.dedup();
            if got.keys().collect::<Vec<_>>() != w { return Err(format!("field {f:?} does not use its own tokenizer: {:?}, expected {w:?}", got.keys())); }
        }
    }
    let _ = lang::full();
    Ok(!fields.is_empty())
}
pub fn gen_builder(c: &mut Ctx) {
    let mut steps = vec![json!(["save", false]), json!(["save", true]), json!(["ref", "uid"]), json!(["ref", "a"]), json!(["ref", ""])];
    for f in ["a", "b", "", "id"] { steps.push(json!(["field", f])); steps.push(json!(["tok", f, "chars"])); steps.push(json!(["tok", f, "comma"])); }
    steps.push(json!(["fields", ["a", "b"]])); steps.push(json!(["fields", []])); steps.push(json!(["fields", ["b", "b"]])); steps.push(json!(["fields", ["z", "y", "x"]]));
    for lang in [json!(null), json!("de"), json!("custom"), json!("ru")] {
        if !c.test(json!({"lang": lang, "steps": []})) { return; }
        for a in &steps { if !c.test(json!({"lang": lang, "steps": [a]})) { return; } for b in &steps { if !c.test(json!({"lang": lang, "steps": [a, b]})) { return; } } }
    }
    for a in &steps { for b in &steps { for d in &steps { if !c.test(json!({"lang": null, "steps": [a, b, d]})) { return; } } } }
    let mut sizes = vec![3, 5, 8, 10, 16, 17, 20, 24, 32, 33, 64, 65, 100];
    sizes.extend(c.ints.iter().filter(|n| **n < 400).flat_map(|n| [n.saturating_sub(1), *n, n + 1]));
    for n in sizes {
        let fs: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
        if !c.test(json!({"lang": null, "steps": [["fields", fs]]})) { return; }
        if !c.test(json!({"lang": null, "steps": [["fields", fs], ["field", "f0"]]})) { return; }
        for f in ["f0", "f1", "f2"] { if !c.test(json!({"lang": null, "steps": [["fields", fs], ["tok", f, "comma"]]})) || !c.test(json!({"lang": null, "steps": [["fields", fs], ["fields", [f]]]})) { return; } }
        if !c.test(json!({"lang": null, "steps": [["fields", fs], ["tok", format!("f{}", n.saturating_sub(1)), "chars"]]})) { return; }
        if !c.test(json!({"lang": null, "steps": [["tok", "a".repeat(n), "comma"], ["field", "a"], ["ref", "r".repeat(n)]]})) { return; }
    }
    let mut names: Vec<String> = ["a", "A", "b", "title", "body", "id", "", "é", " a", "a ", "e\u{301}"].iter().map(|s| s.to_string()).collect();
    names.extend(c.lits.iter().take(300).cloned());
    while c.time_left() {
        let n = if c.rng.p(1, 12) { c.rng.n(60) } else { c.rng.n(7) };
        let extra: Vec<String> = (0..4).map(|_| { let b = c.rng.pick(&names).clone(); if c.rng.p(1, 2) { c.rng.mutate(&b) } else { format!("{b}{}", c.rng.n(1000)) } }).collect();
        let names: Vec<String> = if n > 8 { (0..300).map(|i| format!("f{i}")).collect() } else if c.rng.p(1, 2) { extra.iter().chain(names.iter().take(4)).cloned().collect() } else { names.clone() };
        let s: Vec<Value> = (0..n).map(|_| match c.rng.n(6) {
            0 => json!(["save", c.rng.p(1, 2)]),
            1 => json!(["ref", c.rng.pick(&names)]),
            2 => { let k = c.rng.n(4); let f: Vec<&String> = (0..k).map(|_| c.rng.pick(&names)).collect::<Vec<_>>().into_iter().collect(); json!(["fields", f]) }
            3 => json!(["tok", c.rng.pick(&names), *c.rng.pick(&["chars", "comma", "const", "none"])]),
            _ => json!(["field", c.rng.pick(&names)]),
        }).collect();
        let l = if c.rng.p(1, 3) { json!(null) } else { gen_lang(c, &names) };
        if !c.test(json!({"lang": l, "steps": s})) { return; }
    }
}

/// case: {"bool": "OR"|"AND", "expand": b, "fields": {name: {boost?, bool?, expand?}}}
pub fn search_opts(case: &Value) -> Res {
    let sb = |v: &Value| match v.as_str() { Some("OR") => Ok(SearchBool::Or), Some("AND") => Ok(SearchBool::And), _ => Err("badcase".to_string()) };
    let mut o = SearchOptions { bool: sb(&case["bool"])?, expand: case["expand"].as_bool().ok_or("badcase")?, fields: Default::default() };
    for (k, f) in case["fields"].as_object().ok_or("badcase")? {
        let mut x = SearchOptionsField::default();
        if x.boost.is_some() || x.bool.is_some() || x.expand.is_some() { return Err("default field options are not unset".into()); }
        if !f["boost"].is_null() { x.boost = Some(f["boost"].as_u64().ok_or("badcase")? as u8); }
        if !f["bool"].is_null() { x.bool = Some(sb(&f["bool"])?); }
        if !f["expand"].is_null() { x.expand = Some(f["expand"].as_bool().ok_or("badcase")?); }
        o.fields.insert(k.clone(), x);
        let fj = serde_json::to_value(x).map_err(|e| e.to_string())?;
        if fj != *f { return Err(format!("field options serialise as {fj}, expected {f}")); }
    }
    let js = serde_json::to_value(&o).map_err(|e| e.to_string())?;
    if js != *case { return Err(format!("search options serialise as {js}, expected {case}")); }
    let txt = serde_json::to_string(&o).map_err(|e| e.to_string())?;
    match serde_json::from_str::<SearchOptions>(&txt) {
        Ok(b) if b == o => {}
        Ok(b) => return Err(format!("{txt} reads back as {b:?}, expected {o:?}")),
        Err(e) => return Err(format!("{txt} does not read back: {e}")),
    }
    Ok(true)
}
pub fn gen_search(c: &mut Ctx) {
    let mut fields = vec![];
    let mut boosts = vec![json!(null), json!(0), json!(1), json!(255)];
    for n in c.ints.clone() { if n < 256 { boosts.push(json!(n)); } }
    for b in &boosts { for k in [json!(null), json!("OR"), json!("AND")] { for e in [json!(null), json!(true), json!(false)] {
        let mut o = Map::new();
        if !b.is_null() { o.insert("boost".into(), b.clone()); }
        if !k.is_null() { o.insert("bool".into(), k.clone()); }
        if !e.is_null() { o.insert("expand".into(), e.clone()); }
        fields.push(Value::Object(o));
    } } }
    for b in ["OR", "AND"] { for e in [true, false] {
        if !c.test(json!({"bool": b, "expand": e, "fields": {}})) { return; }
        for f in &fields { for n in ["title", "", "bool", "é\"\\"] { if !c.test(json!({"bool": b, "expand": e, "fields": {n: f}})) { return; } } }
        for f in fields.iter().take(36) { for g in fields.iter().take(36) { if !c.test(json!({"bool": b, "expand": e, "fields": {"a": f, "b": g}})) { return; } } }
    } }
    for n in 0..=255 { if !c.test(json!({"bool": "OR", "expand": true, "fields": {"a": {"boost": n}}})) { return; } }
}
