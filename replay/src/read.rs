//! C23: what a store, a field's trie or an index serialises as can be read back
use crate::{gen, index, Ctx, Res};
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use elasticlunr::{Index, IndexBuilder};
use serde_json::{json, Value};
use std::collections::BTreeMap;

fn s(v: &Value) -> Result<&str, String> { v.as_str().ok_or_else(|| "badcase".to_string()) }
fn same_store(a: &DocumentStore, b: &DocumentStore, how: &str) -> Result<(), String> {
    if a.save != b.save || a.length != b.length || a.docs != b.docs || a.doc_info != b.doc_info { return Err(format!("the store {a:?} reads back {how} as {b:?}")); }
    Ok(())
}
/// case: {"store": bool, "ops": [["add", ref, {field: text}], ["rm", ref], ["len", ref, field, n]]}
///     | {"trie": [["add", ref, token, frequency], ["rm", ref, token]]}
///     | {"lang", "save", "ref", "fields": [..], "docs": [[ref, [text..]]..]}
pub fn back(case: &Value) -> Res {
    if let Some(save) = case.get("store") {
        let mut a = DocumentStore::new(save.as_bool().ok_or("badcase")?);
        for o in case["ops"].as_array().ok_or("badcase")? {
            let r = s(&o[1])?;
            match s(&o[0])? {
                "add" => a.add_doc(r, o[2].as_object().ok_or("badcase")?.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect::<BTreeMap<_, _>>()),
                "rm" => a.remove_doc(r),
                _ => a.add_field_length(r, s(&o[2])?, o[3].as_u64().ok_or("badcase")? as usize),
            }
        }
        let txt = serde_json::to_string(&a).map_err(|e| e.to_string())?;
        same_store(&a, &serde_json::from_str(&txt).map_err(|e| format!("the store {txt} does not read back: {e}"))?, "from text")?;
        let v = serde_json::to_value(&a).map_err(|e| e.to_string())?;
        same_store(&a, &serde_json::from_value(v).map_err(|e| format!("the store {txt} does not read back: {e}"))?, "from a value")?;
        return Ok(true);
    }
    if let Some(ops) = case.get("trie") {
        let mut a = InvertedIndex::new();
        let (mut toks, mut docs, mut deep) = (vec![String::new()], vec![], 0);
        for o in ops.as_array().ok_or("badcase")? {
            let (r, t) = (s(&o[1])?, s(&o[2])?);
            if s(&o[0])? == "add" { a.add_token(r, t, o[3].as_f64().ok_or("badcase")?) } else { a.remove_token(r, t) }
            let c: Vec<char> = t.chars().collect();
            for i in 1..=c.len() { toks.push(c[..i].iter().collect()); }
            docs.push(r.to_string());
            deep = deep.max(c.len());
        }
        let txt = serde_json::to_string(&a).map_err(|e| e.to_string())?;
        let v = serde_json::to_value(&a).map_err(|e| e.to_string())?;
        let mut reads: Vec<(&str, InvertedIndex)> = vec![("from a value", serde_json::from_value(v).map_err(|e| format!("the trie {txt} does not read back: {e}"))?)];
        // serde_json reads at most 128 levels from text, and rounds some numbers differently there
        if deep < 100 { reads.push(("from text", serde_json::from_str(&txt).map_err(|e| format!("the trie {txt} does not read back: {e}"))?)); }
        for (how, b) in &reads {
            let exact = *how == "from a value";
            if exact && *b != a { return Err(format!("the trie {txt} reads back {how} as {}", serde_json::to_string(b).unwrap_or_default())); }
            for t in &toks {
                if a.has_token(t) != b.has_token(t) || a.get_doc_frequency(t) != b.get_doc_frequency(t) { return Err(format!("{t:?}: present {}, document frequency {}, but {} and {} read back {how}", a.has_token(t), a.get_doc_frequency(t), b.has_token(t), b.get_doc_frequency(t))); }
                let keys = |x: &InvertedIndex| x.get_docs(t).map(|d| d.into_keys().collect::<Vec<_>>());
                if keys(&a) != keys(b) { return Err(format!("documents of {t:?}: {:?}, read back {how}: {:?}", keys(&a), keys(b))); }
                for d in &docs {
                    let (x, y) = (a.get_term_frequency(d, t), b.get_term_frequency(d, t));
                    if x != y && (exact || (x - y).abs() > 1e-12 * x.abs()) { return Err(format!("frequency of {t:?} in {d:?} is {x}, read back {how}: {y}")); }
                }
            }
        }
        return Ok(true);
    }
    let (l, l2) = (index::language(&case["lang"])?, index::language(&case["lang"])?);
    let (name, n) = (l.name(), l.make_pipeline().queue.len());
    let mut b = IndexBuilder::with_language(l).save_docs(case["save"].as_bool().ok_or("badcase")?).set_ref(s(&case["ref"])?);
    let fields: Vec<&str> = case["fields"].as_array().ok_or("badcase")?.iter().map(s).collect::<Result<_, _>>()?;
    for (i, f) in fields.iter().enumerate() { if fields[..i].contains(f) { return Err("badcase".into()); } b = b.add_field(f); }
    let mut ix = b.build();
    for d in case["docs"].as_array().ok_or("badcase")? {
        let v: Vec<&str> = d[1].as_array().ok_or("badcase")?.iter().map(s).collect::<Result<_, _>>()?;
        if v.len() > fields.len() { return Err("badcase".into()); }
        ix.add_doc(s(&d[0])?, &v);
    }
    let _ = l2;
    let want = serde_json::to_value(&ix).map_err(|e| e.to_string())?;
    if index::depth(&want) > 110 { return Err("badcase".into()); }
    let txt: &'static str = Box::leak(ix.to_json().into_boxed_str());
    match serde_json::from_str::<Index>(txt) {
        // known finding C23: the pipeline's list of names is not read
        Err(_) if n > 0 => Ok(false),
        // a language the crate does not know by that name
        Err(_) if elasticlunr::lang::from_name(&name).is_none() => Ok(false),
        Err(e) => Err(format!("the index {txt} does not read back: {e}")),
        Ok(b) => {
            if b.get_fields() != ix.get_fields() { return Err(format!("fields {:?} read back as {:?}", ix.get_fields(), b.get_fields())); }
            let got = serde_json::to_value(&b).map_err(|e| e.to_string())?;
            if !index::close(&got, &want) { return Err(format!("the index {want} reads back as {got}")); }
            Ok(true)
        }
    }
}

pub fn gen_back(c: &mut Ctx) {
    let mut ops = vec![];
    for r in ["1", "2", "", "save", "docs"] {
        ops.push(json!(["add", r, {"title": "some text", "docInfo": "b"}]));
        ops.push(json!(["rm", r]));
        ops.push(json!(["len", r, "title", 3]));
        ops.push(json!(["len", r, "length", 0]));
    }
    ops.push(json!(["add", "1", {}]));
    ops.push(json!(["add", "1", {"": "é\"\\\u{0}\u{2028}😀"}]));
    ops.push(json!(["len", "1", "big", usize::MAX]));
    for save in [true, false] {
        if !c.test(json!({"store": save, "ops": []})) { return; }
        for a in &ops { if !c.test(json!({"store": save, "ops": [a]})) { return; } for b in &ops { if !c.test(json!({"store": save, "ops": [a, b]})) { return; } } }
    }
    let pool = ["a", "ab", "abc", "b", "é", "e\u{301}", "漢字", "😀", "😀a", "\"", "\\", "\u{0}", "\u{7f}", "\u{feff}", "\u{10ffff}", "\u{ffff}", "A", "d", "docs", "df", "tf", "root", ""];
    if !c.test(json!({"trie": []})) { return; }
    for t in pool { for u in pool {
        for o in [json!([["add", "1", t, 1.5]]), json!([["add", "docs", t, 1.0], ["add", "2", u, 2.0]]), json!([["add", "1", t, 1.0], ["add", "", u, 0.0], ["rm", "1", t]]), json!([["rm", "1", u], ["add", "1", t, -3.0], ["add", "2", t, 1e300]])] {
            if !c.test(json!({"trie": o})) { return; }
        }
    } }
    let empty = |code: &str, name: &str| json!({"name": name, "code": code, "sep": " ", "fns": []});
    let langs: Vec<Value> = [("en", "English"), ("xx", "German"), ("", "Romanian"), ("ar", "Arabic"), ("ko", "Korean"), ("q", "Nonsense"), ("en", "english"), ("x", "de"), ("x", "DE"), ("x", "en"), ("x", " English"), ("x", "English "), ("x", "ENGLISH"), ("x", ""), ("x", "Englis")].iter().map(|(a, b)| empty(a, b)).chain([json!("en"), json!("de"), json!("custom")]).collect();
    let texts = ["", "a b a", "é 漢 é docs df", "tf root"];
    for l in &langs { for save in [true, false] { for rf in ["id", "body", ""] { for fs in [json!([]), json!(["body"]), json!(["title", "body"]), json!(["id", "", "é"])] {
        let k = fs.as_array().unwrap().len();
        if !c.test(json!({"lang": l, "save": save, "ref": rf, "fields": fs, "docs": []})) { return; }
        for t in texts { for u in texts {
            let v: Vec<&str> = [t, u, t].into_iter().take(k).collect();
            if !c.test(json!({"lang": l, "save": save, "ref": rf, "fields": fs, "docs": [["1", v], ["2", []], ["1", v]]})) { return; }
        } }
    } } } }
    let mut sizes = vec![5, 8, 16, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257];
    for &i in &c.ints { if i <= 5000 { sizes.extend([i.saturating_sub(1), i, i + 1]); } }
    sizes.sort(); sizes.dedup();
    for n in sizes {
        let text = "x".repeat(n);
        if !c.test(json!({"store": true, "ops": [["add", text, {"a": text, &text: "q"}], ["len", text, text, n]]})) { return; }
        if n <= 400 {
            let o: Vec<Value> = (0..n).flat_map(|i| [json!(["add", format!("r{i}"), {"t": format!("t{i}")}]), json!(["len", format!("r{i}"), "title", i])]).collect();
            if !c.test(json!({"store": true, "ops": o})) { return; }
            let o: Vec<Value> = (0..n).map(|i| json!(["len", "1", format!("f{i}"), i % 3])).collect();
            if !c.test(json!({"store": false, "ops": o})) { return; }
            if !c.test(json!({"trie": [["add", "1", text, (n as f64).sqrt()], ["add", text, "b", 1.0]]})) { return; }
            let o: Vec<Value> = (0..n).map(|i| json!(["add", format!("d{i}"), "tok", (i as f64).sqrt()])).collect();
            if !c.test(json!({"trie": o})) { return; }
            let o: Vec<Value> = (0..n).map(|i| json!(["add", "1", format!("t{}", char::from_u32(0x400 + i as u32).unwrap()), i as f64])).collect();
            if !c.test(json!({"trie": o})) { return; }
            let fs: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
            if !c.test(json!({"lang": empty("en", "English"), "save": true, "ref": "id", "fields": fs, "docs": [["1", fs]]})) { return; }
        }
    }
    for n in c.big.clone() {
        let text = "x\ty é".repeat(n / 6);
        if !c.test(json!({"store": true, "ops": [["add", "1", {"a": text}], ["len", "1", "a", n]]})) { return; }
        if !c.test(json!({"trie": [["add", "1", "ab", n as f64], ["add", "2", "b", (n as f64).sqrt()]]})) { return; }
    }
    let lits = c.lits.clone();
    let mut names: Vec<String> = ["1", "2", "", "10", "é", "title", "body", "id", "save", "docs", "docInfo", "doc_info", "length", "df", "tf"].iter().map(|s| s.to_string()).collect();
    names.extend(lits.iter().take(200).cloned());
    while c.time_left() {
        let pick = |c: &mut Ctx| -> String { let b = if c.rng.p(1, 4) { c.rng.pick(gen::TRICKY).to_string() } else { c.rng.pick(&names).clone() }; let b = if c.rng.p(1, 4) { c.rng.mutate(&b) } else { b }; let i = c.ints.clone(); c.rng.stretch(b, &i) };
        let n = 1 + c.rng.n(12);
        let case = match c.rng.n(3) {
            0 => {
                let o: Vec<Value> = (0..n).map(|_| { let r = pick(c); match c.rng.n(4) {
                    0 => json!(["rm", r]),
                    1 => { let k = c.rng.n(5); json!(["len", r, pick(c), k]) }
                    _ => { let mut d = serde_json::Map::new(); for _ in 0..c.rng.n(4) { let (k, v) = (pick(c), pick(c)); d.insert(k, json!(v)); } json!(["add", r, d]) }
                } }).collect();
                json!({"store": c.rng.p(1, 2), "ops": o})
            }
            1 => {
                let o: Vec<Value> = (0..n).map(|_| { let (r, t) = (pick(c), pick(c)); if c.rng.p(1, 4) { json!(["rm", r, t]) } else {
                    let k = c.rng.n(2000) as f64;
                    let f = [k.sqrt(), k, k / 7.0, 1e300 * k, -k][c.rng.n(5)];
                    json!(["add", r, t, f]) } }).collect();
                json!({"trie": o})
            }
            _ => {
                let mut fs: Vec<String> = (0..c.rng.n(5)).map(|_| pick(c)).collect();
                fs.sort(); fs.dedup();
                let docs: Vec<Value> = (0..c.rng.n(4)).map(|_| { let r = pick(c); let k = c.rng.n(fs.len() + 1); let v: Vec<String> = (0..k).map(|_| format!("{} {}", pick(c), pick(c))).collect(); json!([r, v]) }).collect();
                json!({"lang": c.rng.pick(&langs).clone(), "save": c.rng.p(1, 2), "ref": pick(c), "fields": fs, "docs": docs})
            }
        };
        if let Err(w) = crate::exec("C23", &case) { if w == "badcase" { continue; } }
        if !c.test(case) { return; }
    }
}
