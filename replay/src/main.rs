//! replay PROP TIER SEED [--case JSON] [--lits FILE]
//! Runs the real elasticlunr crate (path dependency on /repo) through its public API against an
//! executable oracle of one property. Prints one JSON line per run:
//! {"evaluations":..,"distinct":..,"samples":[..],"violation":null|{"case":..,"why":..}}
mod gen;
mod index;
mod lang;
mod porter;
mod read;
mod seg;
mod store;

use serde_json::{json, Value};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub type Res = Result<bool, String>; // Ok(non-trivial?) or Err(why)

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub rng: gen::Rng,
    pub lits: Vec<String>,
    /// the literals that the tree these checks were written against does not have
    pub hot: Vec<String>,
    pub ints: Vec<usize>,
    /// sizes around the large numbers of the source, and around 65536
    pub big: Vec<usize>,
    pub t0: Instant,
    pub budget: Duration,
    pub n: u64,
    pub seen: HashSet<u64>,
    pub samples: Vec<Value>,
    pub bad: Option<(Value, String)>,
}

pub fn exec(prop: &str, case: &Value) -> Res {
    let r = catch_unwind(AssertUnwindSafe(|| match prop {
        "C01" | "C02" | "C03" => store::trie(prop, case),
        "C04" | "C05" | "C06" => store::docs(prop, case),
        "C07" => porter::c07(case),
        "C08" => porter::c08(case),
        "C09" => lang::c09(case),
        "C10" => lang::c10(case),
        "C11" => lang::c11(case),
        "C12" => lang::c12(case),
        "C13" | "C14" | "C15" | "C21" => index::add_doc(prop, case),
        "C16" => index::builder(case),
        "C17" => lang::c17(case),
        "C18" => lang::c18(case),
        "C19" => lang::c19(case),
        "C20" => lang::c20(case),
        "C22" => index::search_opts(case),
        "C23" => read::back(case),
        "C24" => lang::c24(case),
        "C25" => index::add_doc("C13", case).and_then(|_| index::add_doc("C14", case)).and_then(|_| index::order(case)),
        "C26" => seg::c26(case),
        _ => Err(format!("no oracle for {prop}")),
    }));
    match r {
        Ok(Err(w)) if w.chars().count() > 3000 => Err(w.chars().take(3000).collect()),
        Ok(x) => x,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panicked: {m}"))
        }
    }
}

impl Ctx {
    /// false: stop generating (a violation was found or the time is used up)
    pub fn test(&mut self, case: Value) -> bool {
        if self.bad.is_some() { return false; }
        self.n += 1;
        match exec(&self.prop.clone(), &case) {
            Ok(nontrivial) => {
                if nontrivial {
                    let h = gen::hash(case.to_string().as_bytes());
                    if self.seen.insert(h) && case.to_string().len() < 4000 && (self.samples.len() < 3 || (self.samples.len() < 8 && h % 1013 == 0)) { self.samples.push(case); }
                }
            }
            Err(why) if why.starts_with("badcase") => {}
            Err(why) => { self.bad = Some((case, why)); return false; }
        }
        self.n % 64 != 0 || self.t0.elapsed() < self.budget
    }
    pub fn time_left(&self) -> bool { self.bad.is_none() && self.t0.elapsed() < self.budget }
}

/// greedy shrinking: drop array elements, shorten strings
fn shrink(prop: &str, mut case: Value, mut why: String) -> (Value, String) {
    fn cands(v: &Value) -> Vec<Value> {
        let mut out = vec![];
        match v {
            Value::Number(n) if n.as_u64().map_or(false, |n| n > 1) => { let n = n.as_u64().unwrap(); out.push(json!(n / 2)); out.push(json!(n - n / 8)); out.push(json!(n - 1)); }
            Value::Array(a) if a.len() > 200 => {
                let k = a.len() / 16;
                for i in 0..16 { let mut b = a.clone(); b.drain(i * k..(i + 1) * k); out.push(Value::Array(b)); }
            }
            Value::Array(a) => {
                for i in 0..a.len() { let mut b = a.clone(); b.remove(i); out.push(Value::Array(b)); }
                for i in 0..a.len() { for c in cands(&a[i]) { let mut b = a.clone(); b[i] = c; out.push(Value::Array(b)); } }
            }
            Value::Object(o) => {
                for k in o.keys() { for c in cands(&o[k]) { let mut p = o.clone(); p[k] = c; out.push(Value::Object(p)); } }
            }
            Value::String(s) => {
                let ch: Vec<char> = s.chars().collect();
                if ch.len() > 200 {
                    let k = ch.len() / 16;
                    for i in 0..16 { let mut d = ch.clone(); d.drain(i * k..(i + 1) * k); out.push(json!(d.into_iter().collect::<String>())); }
                    return out;
                }
                for i in 0..ch.len() { let mut d = ch.clone(); d.remove(i); out.push(json!(d.into_iter().collect::<String>())); }
            }
            _ => {}
        }
        out
    }
    let t0 = Instant::now();
    'again: while t0.elapsed() < Duration::from_secs(10) {
        for c in cands(&case) {
            if let Err(w) = exec(prop, &c) {
                if w.starts_with("badcase") { continue; }
                case = c; why = w;
                continue 'again;
            }
            if t0.elapsed() > Duration::from_secs(10) { break; }
        }
        break;
    }
    (case, why)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    std::panic::set_hook(Box::new(|_| {}));
    if let Some(i) = a.iter().position(|x| x == "--case") {
        let case: Value = serde_json::from_str(&a[i + 1]).expect("case");
        match exec(&prop, &case) {
            Ok(_) => println!("HOLDS"),
            Err(w) => { println!("VIOLATED {w}"); std::process::exit(1); }
        }
        return;
    }
    let thorough = a[2] == "thorough";
    let seed: u64 = a[3].parse().unwrap_or(1);
    let (mut lits, mut ints, mut hot, mut big) = (vec![], vec![], 0, vec![65535usize, 65536, 65537]);
    let mut budget = if thorough { 150.0 } else { 20.0 };
    if let Some(i) = a.iter().position(|x| x == "--budget") { budget = a[i + 1].parse().unwrap(); }
    if let Some(i) = a.iter().position(|x| x == "--lits") {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[i + 1]).unwrap()).unwrap();
        lits = v["strings"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
        hot = v["new"].as_u64().unwrap_or(0) as usize;
        for n in v["big"].as_array().unwrap_or(&vec![]).iter().filter_map(|s| s.as_u64()) { let n = n as usize; big.extend([n - 1, n, n + 1, 2 * n + 1]); }
        big.sort();
        big.dedup();
        ints = v["ints"].as_array().unwrap().iter().map(|s| s.as_u64().unwrap() as usize).collect();
    }
    let mut c = Ctx {
        prop: prop.clone(), thorough, rng: gen::Rng::new(seed), hot: lits.iter().take(hot).cloned().collect(), lits, ints, big, t0: Instant::now(),
        budget: Duration::from_secs_f64(budget), n: 0, seen: Default::default(), samples: vec![], bad: None,
    };
    match prop.as_str() {
        "C01" | "C02" | "C03" => store::gen_trie(&mut c),
        "C04" | "C05" | "C06" => store::gen_docs(&mut c),
        "C07" | "C08" => porter::gen(&mut c),
        "C09" | "C10" | "C20" | "C24" => lang::gen_text(&mut c),
        "C11" => lang::gen_c11(&mut c),
        "C12" => lang::gen_c12(&mut c),
        "C13" | "C14" | "C15" | "C21" | "C25" => index::gen_add_doc(&mut c),
        "C16" => index::gen_builder(&mut c),
        "C17" => lang::gen_c17(&mut c),
        "C18" => lang::gen_c18(&mut c),
        "C19" => lang::gen_c19(&mut c),
        "C22" => index::gen_search(&mut c),
        "C23" => read::gen_back(&mut c),
        "C26" => seg::gen_c26(&mut c),
        _ => {}
    }
    let v = match c.bad.take() {
        None => Value::Null,
        Some((case, why)) => { let (case, why) = shrink(&prop, case, why); json!({"case": case, "why": why}) }
    };
    println!("{}", json!({"evaluations": c.n, "distinct": c.seen.len(), "samples": c.samples, "violation": v,
        "wall_s": c.t0.elapsed().as_secs_f64()}));
}
