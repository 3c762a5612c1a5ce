//! vx: mechanical extraction of the real functions of /repo into a Verus crate.
//!
//! usage: vx UNIT.vx SRC_ROOT OUT.rs REPORT.json [--mutate-assert-false]
//!
//! A unit file is Verus text with `//@` directives. Text outside directives (specifications,
//! lemmas, trusted externals) is copied; `//@fn FILE PATH` is replaced by the function's current
//! source text with the contract, loop invariants and proof hints of the block spliced in.
mod edit;
mod expand;
mod find;
mod inline;
mod rewrite;

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};

#[derive(Default, Clone, Debug)]
pub struct FnOverlay {
    pub file: String,
    pub path: String,
    pub ret: String,
    pub spec: String,
    pub loops: Vec<(usize, Option<String>, String)>,
    pub hints: Vec<(String, String)>,
    pub closures: BTreeMap<usize, String>,
    pub inst: Vec<(String, String)>,
    pub renames: Vec<(String, String)>,
    pub rename_fn: Option<String>,
    pub panic_spec: Option<String>,
    pub nloops: Option<usize>,
    /// `return`s and `?`s the function had when its contract was written
    pub exits: usize,
    /// loop N iterates NAME(E) instead of E
    pub foriter: Vec<(usize, String)>,
    pub nclosures: Option<usize>,
    pub attrs: String,
    pub optional: bool,
    pub trusted: bool,
    pub twin: bool,
    pub no_inline: BTreeSet<String>,
}

#[derive(Default, Clone)]
pub struct Unit {
    pub renames: Vec<(String, String)>,
    pub castf64: bool,
    /// parameter names the contracts were written with, by function id
    pub params: BTreeMap<String, Vec<String>>,
    pub fnptrs: Vec<(String, usize)>,
    /// methods whose arguments pass through `vx_own`
    pub own: Vec<String>,
    /// put a function's final hints at its new early exits too
    pub exit_hints: bool,
}

pub struct FnReport {
    pub id: String,
    pub params: Vec<String>,
    pub file: String,
    pub src_line: usize,
    pub out_start: usize,
    pub out_end: usize,
    pub found: bool,
    pub notes: Vec<String>,
    pub calls: BTreeSet<String>,
    pub loops: usize,
    pub inlined: Vec<String>,
    pub contracted: bool,
    pub hash: u64,
    pub trusted: bool,
    /// unit that verifies this function, when this one only uses its contract
    pub ext: String,
    pub twin: bool,
    /// further proofs of its contract in the unit
    pub alts: usize,
}

fn read_unit(path: &Path, out: &mut Vec<String>) {
    let txt = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path.display(), e));
    for l in txt.lines() {
        if let Some(inc) = l.trim().strip_prefix("//@include ") {
            read_unit(&path.parent().unwrap().join(inc.trim()), out);
        } else {
            out.push(l.to_string());
        }
    }
}

/// `T::f` of `T::f`, `<Trait for T>::f` and `<Trait for T in ..>::f`; `f` of a free function
fn typed_name(path: &str) -> String {
    let f = find::last_seg(path);
    let ty = match path.strip_prefix('<') {
        Some(p) => p.split(" for ").nth(1).and_then(|s| s.split(|c: char| c == '>' || c == ' ' || c == '<').next()),
        None => path.rsplit_once("::").map(|x| x.0.rsplit("::").next().unwrap()),
    };
    ty.map(|t| format!("{}::{f}", t.trim())).unwrap_or_else(|| f.to_string())
}

fn parse_block(first: &str, lines: &[String], i: &mut usize) -> FnOverlay {
    let mut it = first.split_whitespace();
    it.next();
    let file = it.next().unwrap().to_string();
    let path = it.collect::<Vec<_>>().join(" ");
    let mut o = FnOverlay { file, path, ret: "r".into(), ..Default::default() };
    enum Sec { None, Spec, Loop(usize, Option<String>), Hint(String), Closure(usize) }
    let mut sec = Sec::None;
    let mut buf = String::new();
    fn flush(o: &mut FnOverlay, sec: &Sec, buf: &mut String) {
        let t = std::mem::take(buf);
        match sec {
            Sec::None => {}
            Sec::Spec => o.spec.push_str(&t),
            Sec::Loop(n, k) => o.loops.push((*n, k.clone(), t)),
            Sec::Hint(p) => o.hints.push((p.clone(), t)),
            Sec::Closure(n) => { o.closures.insert(*n, t); }
        }
    }
    while *i < lines.len() {
        let l = &lines[*i];
        *i += 1;
        if let Some(d) = l.trim().strip_prefix("//@") {
            flush(&mut o, &sec, &mut buf);
            sec = Sec::None;
            let d = d.trim();
            let (w, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
            let rest = rest.trim();
            match w {
                "end" => return o,
                "ret" => o.ret = rest.into(),
                "spec" => sec = Sec::Spec,
                "loop" => {
                    let mut p = rest.split_whitespace();
                    let n = p.next().unwrap().parse().unwrap();
                    sec = Sec::Loop(n, p.next().map(|s| s.to_string()));
                }
                "at" => sec = Sec::Hint(rest.into()),
                "closure" => sec = Sec::Closure(rest.parse().unwrap()),
                "inst" => { let (a, b) = rest.split_once('=').unwrap(); o.inst.push((a.trim().into(), b.trim().into())); }
                "rename" => { let (a, b) = rest.split_once(' ').unwrap(); o.renames.push((a.trim().into(), b.trim().into())); }
                "as" => o.rename_fn = Some(rest.into()),
                "panic" => o.panic_spec = Some(rest.into()),
                "exits" => o.exits = rest.parse().unwrap(),
                "nloops" => o.nloops = Some(rest.parse().unwrap()),
                "foriter" => { let (a, b) = rest.split_once(' ').unwrap(); o.foriter.push((a.trim().parse().unwrap(), b.trim().into())); }
                "nclosures" => o.nclosures = Some(rest.parse().unwrap()),
                "attr" => { o.attrs.push_str(rest); o.attrs.push('\n'); }
                "optional" => o.optional = true,
                "trusted" => o.trusted = true,
                // verify the body under the name F__v; callers see F with the same contract and no body
                "twin" => o.twin = true,
                _ => panic!("unknown directive {l}"),
            }
        } else {
            buf.push_str(l);
            buf.push('\n');
        }
    }
    panic!("unterminated block {first}");
}

/// serde is always in scope; names of local types of derived code are replaced by those //@local gave them
fn tidy(mut f: find::Found, o: &FnOverlay) -> find::Found {
    for m in ["::serde::ser::", "::serde::de::", "::serde::"] { f.text = f.text.replace(&format!(" {m}"), " "); }
    if f.file == "expanded" { for (a, b) in &o.renames { f.text = rewrite::reword(&f.text, a, b); } }
    // Verus wants a trait method's type parameter named as in the trait
    if f.trait_name.is_some() {
        if let Ok(a) = inline::parse_fn(&f.text) {
            let want = match a.sig.ident.to_string().as_str() { "serialize" => "S", "deserialize" => "D", "visit_map" | "visit_seq" | "visit_enum" => "A", n if n.starts_with("visit_") => "E", _ => "" };
            let ps: Vec<String> = a.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
            if !want.is_empty() && ps.len() == 1 && ps[0] != want { f.text = rewrite::reword(&f.text, &ps[0], want); }
        }
    }
    f
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(&a[2]);
    let vacuity = a.iter().any(|x| x == "--vacuity");
    let demote: BTreeSet<String> = a.iter().filter_map(|x| x.strip_prefix("--demote=").map(|s| s.to_string())).collect();
    let mut lines = vec![];
    read_unit(Path::new(&a[1]), &mut lines);
    let mut src = find::Sources::load(&root);
    if let Some(p) = a.iter().find_map(|x| x.strip_prefix("--expanded=")) { src.add_expanded(p); }

    // @{FILE TYPE NAME}: the position of a field or variant in its declaration
    for l in &mut lines {
        while let Some(a) = l.find("@{") {
            let Some(e) = l[a..].find('}') else { break };
            let p: Vec<String> = l[a + 2..a + e].split_whitespace().map(|x| x.to_string()).collect();
            let k = src.position(&p[0], &p[1], &p[2]).map_or("_absent".into(), |k| k.to_string());
            l.replace_range(a..a + e + 1, &k);
        }
    }
    // //@alt FILE PATH: another proof of the function's contract (loop invariants and hints for another shape of
    // its body), used instead of the first with --alt=K@FILE#PATH; the contract itself stays the one of its //@fn block
    let mut alts: BTreeMap<String, Vec<FnOverlay>> = BTreeMap::new();
    {
        let (mut kept, mut k) = (vec![], 0);
        while k < lines.len() {
            let l = lines[k].clone();
            k += 1;
            match l.trim().strip_prefix("//@") {
                Some(d) if d.starts_with("alt ") => {
                    let o = parse_block(d, &lines, &mut k);
                    if !o.spec.trim().is_empty() { panic!("a contract in {l}"); }
                    alts.entry(format!("{}#{}", o.file, o.path)).or_default().push(o);
                }
                _ => kept.push(l),
            }
        }
        lines = kept;
    }
    let alt: BTreeMap<String, usize> = a.iter().filter_map(|x| x.strip_prefix("--alt=")).map(|x| x.split_once('@').unwrap()).map(|(k, id)| (id.to_string(), k.parse().unwrap())).collect();
    // pass 1: which functions are under contract (so they are never inlined)
    let mut contracted: BTreeSet<String> = BTreeSet::new();
    for l in &lines {
        let t = l.trim();
        if let Some(d) = t.strip_prefix("//@fn ") {
            let mut p = d.split_whitespace();
            p.next();
            let path = p.collect::<Vec<_>>().join(" ");
            contracted.insert(typed_name(&path));
        }
        if let Some(d) = t.strip_prefix("//@extern ") {
            contracted.insert(typed_name(&d.split_whitespace().skip(2).collect::<Vec<_>>().join(" ")));
        }
        if let Some(d) = t.strip_prefix("//@noinline ") {
            for x in d.split_whitespace() { contracted.insert(format!("*{x}")); }
        }
    }

    let mut unit = Unit { exit_hints: a.iter().any(|x| x == "--exit-hints"), ..Default::default() };
    if let Ok(t) = std::fs::read_to_string(Path::new(&a[1]).parent().unwrap().join("params.txt")) {
        for l in t.lines() {
            if let Some((id, ps)) = l.split_once('\t') { unit.params.insert(id.into(), ps.split_whitespace().map(|x| x.to_string()).collect()); }
        }
    }
    let mut out = String::new();
    let mut reports: Vec<FnReport> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut structs: BTreeMap<String, (String, Vec<String>)> = BTreeMap::new();
    let mut pins: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut i = 0;
    let nl = |s: &str| s.matches('\n').count() + 1;
    while i < lines.len() {
        let l = lines[i].clone();
        i += 1;
        let t = l.trim();
        let Some(d) = t.strip_prefix("//@") else {
            out.push_str(&l);
            out.push('\n');
            continue;
        };
        let w = d.split_whitespace().next().unwrap_or("");
        match w {
            // //@default FILE NAME: `impl Default`, written by hand or by #[derive(Default)]
            "fn" | "default" => {
                let mut o = parse_block(d, &lines, &mut i);
                let def = w == "default";
                let name = o.path.clone();
                if def { o.path = format!("<Default for {name}>::default"); }
                let id = format!("{}#{}", o.file, o.path);
                let nalts = alts.get(&id).map_or(0, |v| v.len());
                if let Some(x) = alt.get(&id).and_then(|k| alts.get(&id).and_then(|v| v.get(*k))) {
                    let x = x.clone();
                    o = FnOverlay { spec: o.spec, ret: o.ret, inst: o.inst, renames: o.renames, rename_fn: o.rename_fn, panic_spec: o.panic_spec, attrs: o.attrs + &x.attrs, trusted: o.trusted, twin: o.twin, optional: o.optional, ..x };
                }
                let mut found = src.find_fn(&o.file, &o.path).map(|f| tidy(f, &o));
                if def && found.is_none() { found = src.derived_default(&o.file, &name); }
                if def { out.push_str(&format!("impl Default for {name} {{\n")); }
                match found {
                    Some(f) => {
                        let mut rep = FnReport {
                            id: id.clone(), params: vec![], file: f.file.clone(), src_line: f.line, out_start: nl(&out), out_end: 0,
                            found: true, notes: vec![], calls: Default::default(), loops: 0, inlined: vec![],
                            contracted: !o.spec.trim().is_empty(), hash: hash(&f.text), trusted: o.trusted, ext: String::new(), twin: o.twin, alts: nalts,
                        };
                        let demoted = demote.contains(&id) || o.trusted;
                        let text = inline::inline_helpers(&src, &f, &contracted, &mut rep);
                        let mut o2 = o.clone();
                        if o.twin { o2.rename_fn = Some(format!("{}__v", find::last_seg(&o.path))); }
                        match rewrite::emit(&text, &f, &o2, &unit, &mut rep, vacuity, demoted) {
                            Ok(s) => {
                                out.push_str(&s);
                                out.push('\n');
                                if o.twin {
                                    let n = rep.notes.len();
                                    if let Ok(s) = rewrite::emit(&text, &f, &o, &unit, &mut rep, false, true) { out.push_str(&s); out.push('\n'); }
                                    rep.notes.truncate(n);
                                }
                            }
                            Err(e) => { rep.found = false; rep.notes.push(format!("extract: {e}")); errors.push(format!("{id}: {e}")); }
                        }
                        rep.out_end = nl(&out);
                        reports.push(rep);
                    }
                    None => {
                        if !o.optional { errors.push(format!("{id}: lost anchor")); }
                        reports.push(FnReport { id, params: vec![], file: o.file.clone(), src_line: 0, out_start: 0, out_end: 0, found: false,
                            notes: vec!["lost anchor".into()], calls: Default::default(), loops: 0, inlined: vec![], contracted: true, hash: 0, trusted: o.trusted, ext: String::new(), twin: o.twin, alts: nalts });
                    }
                }
                if def { out.push_str("}\n"); }
            }
            // //@extern UNIT FILE PATH: the function as unit UNIT verifies it: same contract, no body
            "extern" => {
                let (u, rest) = d["extern".len()..].trim().split_once(' ').unwrap();
                let want = format!("fn {}", rest.trim());
                let mut ul = vec![];
                read_unit(&Path::new(&a[1]).parent().unwrap().join(format!("{u}.vx")), &mut ul);
                let k = ul.iter().position(|l| l.trim().strip_prefix("//@").map_or(false, |x| x == want)).unwrap_or_else(|| panic!("{u}: no block for {want}"));
                let mut j = k + 1;
                let mut o = parse_block(&want, &ul, &mut j);
                o.twin = true; // body replaced
                let id = format!("{}#{}", o.file, o.path);
                let mut rep = FnReport { id: id.clone(), params: vec![], file: o.file.clone(), src_line: 0, out_start: nl(&out), out_end: 0, found: false, notes: vec![],
                    calls: Default::default(), loops: 0, inlined: vec![], contracted: true, hash: 0, trusted: false, ext: u.to_string(), twin: false, alts: 0 };
                match src.find_fn(&o.file, &o.path) {
                    Some(f) => match rewrite::emit(&f.text, &f, &o, &unit, &mut rep, false, true) {
                        Ok(s) => { out.push_str(&s); out.push('\n'); rep.found = true; rep.notes.clear(); }
                        Err(e) => errors.push(format!("{id}: {e}")),
                    },
                    None => errors.push(format!("{id}: lost anchor")),
                }
                rep.out_end = nl(&out);
                reports.push(rep);
            }
            "struct" => {
                let p: Vec<&str> = d.split_whitespace().collect();
                match src.find_struct(p[1], p[2]) {
                    Some(s) => {
                        structs.insert(format!("struct:{}#{}", p[1], p[2]), (p[1].to_string(), find::field_types(&s.1)));
                        out.push_str(&rewrite::emit_struct(&s, &p[3..]));
                        out.push('\n');
                    }
                    None => errors.push(format!("struct {} not found in {}", p[2], p[1])),
                }
            }
            "enum" => {
                let p: Vec<&str> = d.split_whitespace().collect();
                match src.find_enum(p[1], p[2]) {
                    Some((t, s)) => {
                        for x in &p[3..] { if let Some(a) = x.strip_prefix("attr=") { out.push_str(&format!("#[{a}]\n")); } }
                        out.push_str(&rewrite::emit_local(&s, &t, p[2]));
                    }
                    None => errors.push(format!("enum {} not found in {}", p[2], p[1])),
                }
            }
            // //@local NAME NEW CTX: a struct or enum inside the derived impl CTX, under the name NEW
            "local" => {
                let p: Vec<&str> = d.splitn(4, ' ').collect();
                match src.find_local(p[3], p[1]) {
                    Some((t, s)) => { out.push_str(&rewrite::emit_local(&s, &t, p[2])); out.push('\n'); }
                    None => errors.push(format!("{} not found in {}", p[1], p[3])),
                }
            }
            "const" => {
                let p: Vec<&str> = d.split_whitespace().collect();
                match src.find_const(p[1], p[2]) {
                    Some(s) => { out.push_str(&s); out.push('\n'); }
                    None => errors.push(format!("const {} not found in {}", p[2], p[1])),
                }
            }
            // //@conststr FILE NAME: a `&str` constant
            "conststr" => {
                let p: Vec<&str> = d.split_whitespace().collect();
                match src.find_const(p[1], p[2]).and_then(|t| syn::parse_str::<syn::ItemConst>(&t).ok()) {
                    Some(syn::ItemConst { expr, .. }) if matches!(&*expr, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(_), .. })) => {
                        let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(v), .. }) = &*expr else { unreachable!() };
                        out.push_str(&format!("pub exec const {0}: &'static str ensures {0}@ == {1:?}@ {{ {1:?} }}\n", p[2], v.value()));
                    }
                    _ => errors.push(format!("const {} not found in {}", p[2], p[1])),
                }
            }
            // //@pinlist SPEC ["w", ..]: a fixed word list as a spec function
            "pinlist" => {
                let (name, rest) = d["pinlist".len()..].trim().split_once(' ').unwrap();
                let ws: Vec<String> = syn::parse_str::<syn::ExprArray>(rest).unwrap().elems.iter().map(|e| match e {
                    syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s.value(), _ => panic!("pinlist") }).collect();
                out.push_str(&rewrite::emit_pinlist(name, &ws));
                pins.insert(name.to_string(), ws);
            }
            // //@constlist FILE NAME [SPEC]: a `&[&str]` constant, proved to hold exactly SPEC's words
            "constlist" => {
                let p: Vec<&str> = d.split_whitespace().collect();
                let id = format!("{}#{}", p[1], p[2]);
                match src.find_strlist(p[1], p[2]) {
                    Some(ws) => {
                        let start = nl(&out);
                        out.push_str(&rewrite::emit_constlist(p[2], &ws, p.get(3).map(|s| (*s, &pins[*s]))));
                        if p.len() > 3 {
                            reports.push(FnReport { id, params: vec![], file: p[1].into(), src_line: 0, out_start: start, out_end: nl(&out), found: true, notes: vec![],
                                calls: Default::default(), loops: 0, inlined: vec![], contracted: true, hash: hash(&ws.join("|")), trusted: false, ext: String::new(), twin: false, alts: 0 });
                        }
                    }
                    None => errors.push(format!("{id}: word list not found")),
                }
            }
            // //@fnptr CTOR N: argument N of CTOR is a fn pointer
            "fnptr" => { let p: Vec<&str> = d.split_whitespace().collect(); unit.fnptrs.push((p[1].into(), p[2].parse().unwrap())); }
            "rename" => { let p: Vec<&str> = d.split_whitespace().collect(); unit.renames.push((p[1].into(), p[2].into())); }
            "own" => unit.own.extend(d.split_whitespace().skip(1).map(String::from)),
            "castf64" => unit.castf64 = true,
            "noinline" | "" => {}
            _ => panic!("unknown directive {l}"),
        }
    }
    std::fs::write(&a[3], &out).unwrap();
    // the contracts of a file are written against the fields its types had
    for (id, (file, tys)) in &structs {
        if unit.params.get(id).map_or(false, |want| want != tys) {
            for r in reports.iter_mut().filter(|r| r.file == *file) { r.notes.push(format!("the fields of {} have other types", id.rsplit('#').next().unwrap())); }
        }
    }
    let mut j = String::from("{\"functions\":[");
    for (k, r) in reports.iter().enumerate() {
        if k > 0 { j.push(','); }
        let _ = write!(j, "\n{{\"id\":{},\"params\":[{}],\"file\":{},\"src_line\":{},\"out_start\":{},\"out_end\":{},\"found\":{},\"contracted\":{},\"trusted\":{},\"ext\":{},\"twin\":{},\"alts\":{},\"loops\":{},\"hash\":\"{:016x}\",\"notes\":[{}],\"inlined\":[{}],\"calls\":[{}]}}",
            jstr(&r.id), r.params.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","), jstr(&r.file), r.src_line, r.out_start, r.out_end, r.found, r.contracted, r.trusted, jstr(&r.ext), r.twin, r.alts, r.loops, r.hash,
            r.notes.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            r.inlined.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
            r.calls.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    }
    let _ = write!(j, "],\n\"structs\":{{{}}},", structs.iter().map(|(k, v)| format!("{}:{}", jstr(k), jstr(&v.1.join(" ")))).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\n\"errors\":[{}]}}\n", errors.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
    std::fs::write(&a[4], j).unwrap();
}
