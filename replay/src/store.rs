//! C01-C03 inverted index, C04-C06 document store
use crate::{gen, Ctx, Res};
use elasticlunr::document_store::DocumentStore;
use elasticlunr::inverted_index::InvertedIndex;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

fn s<'a>(v: &'a Value) -> Result<&'a str, String> { v.as_str().ok_or_else(|| "badcase".to_string()) }

/// a frequency: a number, or the name of one that JSON cannot write
fn freq(v: &Value) -> Option<f64> {
    match v.as_str() { Some("nan") => Some(f64::NAN), Some("inf") => Some(f64::INFINITY), Some("-inf") => Some(f64::NEG_INFINITY), _ => v.as_f64() }
}
/// case: [["add", doc, token, freq], ["rm", doc, token], ...]
pub fn trie(prop: &str, case: &Value) -> Res {
    let mut ix = InvertedIndex::new();
    let mut m: BTreeMap<(String, String), f64> = BTreeMap::new(); // (token, doc) -> tf
    let mut present: BTreeSet<String> = [String::new()].into();
    let mut toks: BTreeSet<String> = ["", "a", "b", "ab", "q", "é"].iter().map(|s| s.to_string()).collect();
    let mut docs: BTreeSet<String> = ["", "1", "nope"].iter().map(|s| s.to_string()).collect();
    let ops = &gen::unfold(case.as_array().ok_or("badcase")?);
    let cap = if ops.len() > 1000 { 12 } else { 400 };
    let mut ops_v = vec![];
    for op in ops {
        let o = op.as_array().ok_or("badcase")?;
        if o.len() < 3 { return Err("badcase".into()); }
        let f = if s(&o[0])? == "add" { o.get(3).and_then(freq).ok_or("badcase")? } else { 0. };
        ops_v.push((s(&o[0])?.to_string(), s(&o[1])?.to_string(), s(&o[2])?.to_string(), f));
        docs.insert(s(&o[1])?.into());
        let t: Vec<char> = s(&o[2])?.chars().collect();
        for i in 0..=t.len() {
            toks.insert(t[..i].iter().collect());
            toks.insert(t[i..].iter().collect());
            if i < t.len() { let mut u = t.clone(); u.remove(i); toks.insert(u.into_iter().collect()); }
        }
        toks.insert(format!("{}a", s(&o[2])?));
        if toks.len() > cap { while toks.len() > cap { toks.pop_last(); } toks.insert(s(&o[2])?.into()); }
    }
    let long = ops_v.len() > 60 || toks.len() > 150;
    let last = ops_v.len();
    for (k, (op, d, t, f)) in ops_v.iter().enumerate() {
        if op == "add" {
            ix.add_token(d, t, *f);
            if !t.is_empty() { m.insert((t.clone(), d.clone()), *f); }
            let c: Vec<char> = t.chars().collect();
            for i in 0..=c.len() { present.insert(c[..i].iter().collect()); }
        } else {
            ix.remove_token(d, t);
            m.remove(&(t.clone(), d.clone()));
        }
        if long && k + 1 != last { continue; }
        for t in &toks {
            let want: BTreeMap<String, f64> = m.iter().filter(|((a, _), _)| a == t).map(|((_, d), f)| (d.clone(), *f)).collect();
            let pres = present.contains(t);
            if prop == "C03" {
                if ix.has_token(t) != pres { return Err(format!("has_token({t:?}) = {} after {} operations, expected {pres}", ix.has_token(t), k + 1)); }
                if !pres {
                    if ix.get_docs(t).is_some() { return Err(format!("get_docs({t:?}) is Some for an absent token")); }
                    if ix.get_doc_frequency(t) != 0 { return Err(format!("get_doc_frequency({t:?}) = {} for an absent token", ix.get_doc_frequency(t))); }
                    for d in &docs { if ix.get_term_frequency(d, t).to_bits() != 0 { return Err(format!("get_term_frequency({d:?},{t:?}) = {} for an absent token", ix.get_term_frequency(d, t))); } }
                }
            }
            if prop == "C02" {
                let df = ix.get_doc_frequency(t);
                let n = ix.get_docs(t).map_or(0, |x| x.len()) as i64;
                let want = if t.is_empty() { 0 } else { want.len() as i64 };
                if df != want || n != want { return Err(format!("get_doc_frequency({t:?}) = {df}, documents listed = {n}, expected {want} after {} operations", k + 1)); }
            }
            if prop == "C01" {
                let got = ix.get_docs(t).unwrap_or_default();
                let bits = |m: &BTreeMap<String, f64>| m.iter().map(|(k, v)| (k.clone(), v.to_bits())).collect::<Vec<_>>();
                if bits(&got) != bits(&want) { return Err(format!("get_docs({t:?}) = {got:?}, expected {want:?} after {} operations", k + 1)); }
                for d in &docs {
                    let w = want.get(d).copied().unwrap_or(0.);
                    let g = ix.get_term_frequency(d, t);
                    if g.to_bits() != w.to_bits() { return Err(format!("get_term_frequency({d:?},{t:?}) = {g}, expected {w} after {} operations", k + 1)); }
                }
            }
        }
    }
    Ok(!ops_v.is_empty())
}

pub fn gen_trie(c: &mut Ctx) {
    let toks = ["", "a", "ab", "b", "aé", "é"];
    let docs = ["1", "2"];
    let mut ops: Vec<Value> = vec![];
    for t in toks { for d in docs { ops.push(json!(["add", d, t, 1.5])); ops.push(json!(["rm", d, t])); } }
    ops.push(json!(["add", "1", "a", 2.0]));
    ops.push(json!(["add", "1", "ab", 0.0]));
    ops.push(json!(["add", "1", "ab", "nan"]));
    ops.push(json!(["add", "1", "ab", "inf"]));
    ops.push(json!(["add", "2", "ab", "-inf"]));
    ops.push(json!(["add", "1", "ab", -0.0]));
    ops.push(json!(["add", "", "abc", -3.25]));
    ops.push(json!(["add", "11", "abcé😀", 7.0]));
    for a in &ops { if !c.test(json!([a])) { return; } }
    for a in &ops { for b in &ops { if !c.test(json!([a, b])) { return; } } }
    for a in &ops { for b in &ops { for d in &ops { if !c.test(json!([a, b, d])) { return; } } } }
    // sizes and strings that occur in the source
    let mut words: Vec<String> = vec!["a".into(), "ab".into(), "abc".into(), "é".into(), "😀b".into(), "".into(), "ba".into(), "aa".into(), "aaa".into()];
    words.extend(c.lits.iter().take(400).cloned());
    let mut sizes = vec![5, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257];
    for &i in &c.ints { if i <= 2000 { sizes.extend([i.saturating_sub(1), i, i + 1]); } }
    sizes.sort(); sizes.dedup();
    for n in sizes {
        let w = "abcdefghij".chars().cycle().take(n).collect::<String>();
        let w2 = "é😀".chars().cycle().take(n).collect::<String>();
        for w in [w, w2] {
            let mut v = w.clone(); v.push('x');
            if !c.test(json!([["add","1",w,1.0],["add","2",v,2.0],["add","1",v,3.0],["rm","1",w],["rm","1",w],["rm","2",v]])) { return; }
            if !c.test(json!([["add",w,"tok",1.0],["add",v,"tok",2.0],["add","2","tok",1.0],["rm",w,"tok"]])) { return; }
        }
        // n documents on one token; n tokens under one node
        if n <= 300 {
            let mut o: Vec<Value> = (0..n).map(|i| json!(["add", format!("d{i}"), "tok", (i as f64).sqrt()])).collect();
            o.push(json!(["rm", "d0", "tok"]));
            if !c.test(json!(o)) { return; }
            let o: Vec<Value> = (0..n).map(|i| json!(["add", "1", format!("t{}", char::from_u32(0x400 + i as u32).unwrap()), i as f64])).collect();
            if !c.test(json!(o)) { return; }
            let mut o: Vec<Value> = (0..n).map(|i| json!(["add", "1", "t", i as f64])).collect();
            o.push(json!(["rm", "1", "t"]));
            if !c.test(json!(o)) { return; }
        }
    }
    for n in gen::many(&c.ints) {
        if !c.test(json!([["*", n, ["add", "d#", "tok", 1.5]], ["rm", "d0", "tok"]])) { return; }
        if !c.test(json!([["add", "1", "tok", 1.0], ["*", n, ["add", "2", "tok", 2.0]], ["rm", "2", "tok"]])) { return; }
        if !c.test(json!([["*", n, ["add", "1", "t#", 3.0]], ["add", "2", "t", 1.0]])) { return; }
    }
    let mut dn: Vec<String> = vec!["1".into(), "2".into(), "".into(), "10".into(), "é".into(), "doc".into()];
    dn.extend(c.lits.iter().take(60).cloned());
    let fr = [0.0, 1.0, 2.0, 0.5, 1.4142135623730951, -1.0, 1e300, 1e-300, 3.0];
    while c.time_left() {
        let local = c.rng.p(1, 2);
        let nt = 2 + c.rng.n(5);
        let mut ts: Vec<String> = vec![];
        for _ in 0..nt {
            let r = c.rng.n(4);
            let t = if r == 0 { c.rng.pick(&words).clone() }
            else if r == 1 && !ts.is_empty() { let b = c.rng.pick(&ts).clone(); let x = *c.rng.pick(gen::TRICKY); if c.rng.p(1, 2) { format!("{b}{x}") } else { format!("{x}{b}") } }
            else { (0..c.rng.n(5)).map(|_| *c.rng.pick(&["a", "b", "c", "é", "漢", "😀"])).collect() };
            let i = c.ints.clone();
            let t = c.rng.stretch(t, &i);
            ts.push(t);
        }
        let nd = 1 + c.rng.n(if local { 2 } else { 6 });
        let mut ds: Vec<String> = (0..nd).map(|_| c.rng.pick(&dn).clone()).collect();
        if c.rng.p(1, 3) { let d = ds[0].clone(); ds.push(c.rng.mutate(&d)); }
        if c.rng.p(1, 3) { let t = ts[0].clone(); ts.push(c.rng.mutate(&t)); }
        let n = { let m = if local { 8 } else if c.rng.p(1, 12) { 150 } else { 30 }; 1 + c.rng.n(m) };
        let mut o = vec![];
        for _ in 0..n {
            let (d, t) = (c.rng.pick(&ds).clone(), c.rng.pick(&ts).clone());
            if c.rng.p(3, 5) { o.push(json!(["add", d, t, c.rng.pick(&fr)])) } else { o.push(json!(["rm", d, t])) }
        }
        if !c.test(json!(o)) { return; }
    }
}

/// case: {"save": bool, "ops": [["add", ref, {field: text}], ["rm", ref], ["len", ref, field, n]]}
pub fn docs(prop: &str, case: &Value) -> Res {
    let save = case["save"].as_bool().ok_or("badcase")?;
    let mut ds = DocumentStore::new(save);
    let mut m: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
    let mut lens: BTreeMap<String, BTreeMap<String, usize>> = BTreeMap::new();
    let mut refs: BTreeSet<String> = ["", "1", "2", "zz"].iter().map(|s| s.to_string()).collect();
    let mut flds: BTreeSet<String> = ["", "title", "body"].iter().map(|s| s.to_string()).collect();
    let ops = &gen::unfold(case["ops"].as_array().ok_or("badcase")?);
    for op in ops {
        let o = op.as_array().ok_or("badcase")?;
        refs.insert(s(o.get(1).ok_or("badcase")?)?.into());
        if s(&o[0])? == "len" { flds.insert(s(o.get(2).ok_or("badcase")?)?.into()); }
    }
    let long = ops.len() > 60;
    for (k, op) in ops.iter().enumerate() {
        let o = op.as_array().unwrap();
        let r = s(&o[1])?;
        match s(&o[0])? {
            "add" => {
                let d: BTreeMap<String, String> = o.get(2).and_then(|x| x.as_object()).ok_or("badcase")?.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect();
                ds.add_doc(r, d.clone());
                m.insert(r.into(), d);
            }
            "rm" => { ds.remove_doc(r); if m.remove(r).is_some() { lens.remove(r); } }
            _ => {
                let n = o.get(3).and_then(|x| x.as_u64()).ok_or("badcase")? as usize;
                ds.add_field_length(r, s(&o[2])?, n);
                lens.entry(r.into()).or_default().insert(s(&o[2])?.into(), n);
            }
        }
        if long && k + 1 != ops.len() { continue; }
        let at = format!("after {} operations", k + 1);
        if prop == "C04" {
            if ds.length != m.len() || ds.len() != m.len() || ds.is_empty() != m.is_empty() {
                return Err(format!("length field {}, len() {}, is_empty() {}, but {} distinct references stored {at}", ds.length, ds.len(), ds.is_empty(), m.len()));
            }
            for r in &refs {
                if ds.has_doc(r) != m.contains_key(r) { return Err(format!("has_doc({r:?}) = {} {at}", ds.has_doc(r))); }
                if ds.get_doc(r).is_some() != m.contains_key(r) { return Err(format!("get_doc({r:?}) = {:?} {at}", ds.get_doc(r))); }
                if r != s(&o[1])? && ds.get_doc(r) != m.get(r).map(|d| if save { d.clone() } else { BTreeMap::new() }) {
                    return Err(format!("an operation on {} changed the document of {r:?} {at}", o[1]));
                }
            }
        }
        if prop == "C05" {
            if ds.is_stored() != save { return Err(format!("is_stored() = {} {at}, created with {save}", ds.is_stored())); }
            for r in &refs {
                let want = m.get(r).map(|d| if save { d.clone() } else { BTreeMap::new() });
                if ds.get_doc(r) != want { return Err(format!("get_doc({r:?}) = {:?}, expected {want:?} {at}", ds.get_doc(r))); }
            }
            if !save && ds.docs.values().any(|d| !d.is_empty()) { return Err(format!("content retained with saving disabled: {:?} {at}", ds.docs)); }
            if !save {
                let txt = serde_json::to_string(&ds).unwrap();
                for d in m.values() { for v in d.values() { if v.len() > 12 && !refs.iter().chain(&flds).any(|x| x.contains(v.as_str())) && txt.contains(v.as_str()) { return Err(format!("content {v:?} retained with saving disabled {at}")); } } }
            }
        }
        if prop == "C06" {
            for r in &refs { for f in &flds {
                let want = if m.contains_key(r) { lens.get(r).and_then(|x| x.get(f)).copied().unwrap_or(0) } else { 0 };
                let got = ds.get_field_length(r, f);
                if got != want { return Err(format!("get_field_length({r:?},{f:?}) = {got}, expected {want} {at}")); }
            } }
        }
    }
    Ok(!ops.is_empty())
}

pub fn gen_docs(c: &mut Ctx) {
    let mut ops = vec![];
    for r in ["1", "2", ""] {
        ops.push(json!(["add", r, {"title": "some secret content", "body": "b"}]));
        ops.push(json!(["rm", r]));
        ops.push(json!(["len", r, "title", 3]));
        ops.push(json!(["len", r, "body", 4]));
    }
    ops.push(json!(["add", "1", {"title": "other"}]));
    ops.push(json!(["add", "1", {}]));
    ops.push(json!(["len", "1", "title", 0]));
    ops.push(json!(["len", "1", "title", 9]));
    for save in [true, false] {
        for a in &ops { if !c.test(json!({"save": save, "ops": [a]})) { return; } }
        for a in &ops { for b in &ops { if !c.test(json!({"save": save, "ops": [a, b]})) { return; } } }
        for a in &ops { for b in &ops { for d in &ops { if !c.test(json!({"save": save, "ops": [a, b, d]})) { return; } } } }
    }
    let mut sizes = vec![5, 8, 16, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257];
    for &i in &c.ints { if i <= 5000 { sizes.extend([i.saturating_sub(1), i, i + 1]); } }
    sizes.sort(); sizes.dedup();
    for n in sizes {
        for save in [true, false] {
            let text = "x".repeat(n);
            if !c.test(json!({"save": save, "ops": [["add", text, {"a": text}], ["len", text, text, n], ["add", "1", {"b": text}], ["rm", text], ["add", text, {"a": "z"}]]})) { return; }
            if n <= 400 {
                let mut o: Vec<Value> = (0..n).map(|i| json!(["add", format!("r{i}"), {"t": format!("t{i}")}])).collect();
                o.extend((0..n).map(|i| json!(["len", format!("r{i}"), "title", i])));
                o.push(json!(["rm", "r0"]));
                if !c.test(json!({"save": save, "ops": o})) { return; }
                // many field lengths of one document, zero and non-zero
                for z in [true, false] {
                    let mut o = vec![json!(["add", "1", {"t": "x"}])];
                    o.extend((0..n).map(|i| json!(["len", "1", format!("f{i}"), if z { 0 } else { i % 3 }])));
                    if !c.test(json!({"save": save, "ops": o})) { return; }
                }
                let d: serde_json::Map<String, Value> = (0..n).map(|i| (format!("f{i}"), json!(format!("v{i}")))).collect();
                if !c.test(json!({"save": save, "ops": [["add", "1", d], ["len", "1", "title", n]]})) { return; }
            }
        }
    }
    for n in c.big.clone() { for save in [true, false] {
        let text = "x y".repeat(n / 3 + 1);
        if !c.test(json!({"save": save, "ops": [["add", "1", {"a": &text[..n], "b": "z"}], ["len", "1", "a", n], ["add", &text[..n.min(100_000)], {"a": "b"}]]})) { return; }
    } }
    for n in gen::many(&c.ints) {
        for save in [true, false] {
            if !c.test(json!({"save": save, "ops": [["*", n, ["add", "r#", {"t": "v#"}]], ["*", n, ["len", "r#", "title", 2]], ["rm", "r0"]]})) { return; }
            if !c.test(json!({"save": save, "ops": [["add", "1", {"t": "x"}], ["*", n, ["add", "1", {"t": "v#"}]], ["*", n, ["len", "1", "title", 2]]]})) { return; }
            if !c.test(json!({"save": save, "ops": [["add", "1", {"t": "x"}], ["len", "1", "title", n]]})) { return; }
        }
    }
    let mut names: Vec<String> = vec!["1".into(), "2".into(), "".into(), "10".into(), "é".into(), "title".into(), "body".into(), "id".into(), " 1".into(), "1 ".into()];
    names.extend(c.lits.iter().take(200).cloned());
    while c.time_left() {
        let nr = 1 + c.rng.n(4);
        let rs: Vec<String> = (0..nr).map(|_| if c.rng.p(1, 3) { c.rng.pick(&names).clone() } else { c.rng.pick(&["1", "2", "3", "01", "1 ", "é"]).to_string() }).collect();
        let rs: Vec<String> = { let i = c.ints.clone(); let m = c.rng.p(1, 3); let mut v = rs.clone(); for r in rs { if m { v.push(c.rng.mutate(&r)); } else if c.rng.p(1, 8) { v.push(c.rng.stretch(r, &i)); } } v };
        let n = { let m = if c.rng.p(1, 10) { 90 } else { 25 }; 1 + c.rng.n(m) };
        let mut o = vec![];
        for _ in 0..n {
            let r = c.rng.pick(&rs).clone();
            match c.rng.n(4) {
                0 => o.push(json!(["rm", r])),
                1 => o.push(json!(["len", r, c.rng.pick(&names[..8]), c.rng.n(6)])),
                _ => {
                    let mut d = serde_json::Map::new();
                    for _ in 0..c.rng.n(4) { let v = if c.rng.p(1, 4) { c.rng.pick(gen::TRICKY).to_string() } else { c.rng.pick(&names).clone() }; d.insert(c.rng.pick(&names).clone(), json!(v)); }
                    o.push(json!(["add", r, d]))
                }
            }
        }
        let save = c.rng.p(1, 2);
        if !c.test(json!({"save": save, "ops": o})) { return; }
    }
}
