use crate::edit::Edits;
use crate::find::Found;
use crate::{FnOverlay, FnReport, Unit};
use std::collections::BTreeSet;
use syn::spanned::Spanned;
use syn::visit::Visit;

fn rng<T: Spanned>(t: &T) -> std::ops::Range<usize> { t.span().byte_range() }

struct Body<'a> {
    txt: &'a str,
    o: &'a FnOverlay,
    unit: &'a Unit,
    e: Edits,
    loops: Vec<(String, std::ops::Range<usize>, usize, usize)>, // kind, whole, body start, body end
    nclos: usize,
    notes: Vec<String>,
    bound: BTreeSet<String>,
    used_hints: BTreeSet<String>,
    loop_specs: usize,
    vacuity: bool,
    vac: usize,
    mut_self: bool,
    derived: bool,
    for_bodies: BTreeSet<usize>, // starts of `for` bodies
    blocks: Vec<(usize, usize, bool)>, // enclosing blocks: range start, position for hints at their end, whether a `;` is due there
    units: BTreeSet<usize>, // starts of blocks known to have the value ()
    exits: usize, // `return`s and `?`s of the function itself
    rets: Vec<(std::ops::Range<usize>, Option<std::ops::Range<usize>>)>, // its `return`s and what they return
    in_closure: usize,
}

/// the blocks whose value is the expression's value
fn value_blocks<'b>(e: &'b syn::Expr, out: &mut Vec<&'b syn::Block>) {
    match e {
        syn::Expr::If(i) => { out.push(&i.then_branch); if let Some((_, e)) = &i.else_branch { value_blocks(e, out); } }
        syn::Expr::Match(m) => for a in &m.arms { value_blocks(&a.body, out); },
        syn::Expr::Block(b) => out.push(&b.block),
        _ => {}
    }
}
fn block_like(e: &syn::Expr) -> bool { matches!(e, syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Block(_) | syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_)) }
fn surely_unit(e: &syn::Expr) -> bool {
    matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Assign(_)) || matches!(e, syn::Expr::If(i) if i.else_branch.is_none())
}

fn only_panic(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Macro(m) => m.mac.path.segments.last().map_or(false, |s| s.ident == "panic"),
        syn::Expr::Block(b) => b.block.stmts.len() == 1 && match &b.block.stmts[0] {
            syn::Stmt::Expr(e, _) => only_panic(e),
            syn::Stmt::Macro(m) => m.mac.path.segments.last().map_or(false, |s| s.ident == "panic"),
            _ => false,
        },
        _ => false,
    }
}

fn is_simple(p: &syn::Pat) -> bool {
    match p {
        syn::Pat::Ident(i) => i.subpat.is_none() && i.by_ref.is_none(),
        syn::Pat::Wild(_) => true,
        syn::Pat::Type(t) => is_simple(&t.pat),
        _ => false,
    }
}

/// pattern text with `&x` replaced by `x__r`, plus the dereferencing lets
fn depattern(p: &syn::Pat, txt: &str, lets: &mut String) -> String {
    match p {
        syn::Pat::Reference(r) => {
            if let syn::Pat::Ident(i) = &*r.pat {
                lets.push_str(&format!(" let {} = *{}__r;", i.ident, i.ident));
                format!("{}__r", i.ident)
            } else { txt[rng(p)].to_string() }
        }
        syn::Pat::Tuple(t) => {
            let v: Vec<String> = t.elems.iter().map(|e| depattern(e, txt, lets)).collect();
            if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }
        }
        syn::Pat::Paren(q) => depattern(&q.pat, txt, lets),
        _ => txt[rng(p)].to_string(),
    }
}

impl<'a> Body<'a> {
    fn hint(&mut self, key: &str) -> String {
        self.used_hints.insert(key.to_string());
        self.o.hints.iter().filter(|h| h.0 == key).map(|h| h.1.clone()).collect()
    }
    fn loop_common(&mut self, kind: &str, whole: std::ops::Range<usize>, block: &syn::Block) -> usize {
        let n = self.loops.len();
        let b = rng(block);
        self.loops.push((kind.into(), whole.clone(), b.start, b.end));
        let mut spec = String::new();
        let mut any = false;
        for (k, kd, t) in &self.o.loops {
            if *k == n && kd.as_deref().map_or(true, |x| x == kind) { spec.push_str(t); any = true; }
        }
        if any { self.loop_specs += 1; }
        else if self.o.loops.iter().any(|l| l.0 == n) { self.notes.push(format!("loop {n} is now a `{kind}` loop")); }
        if any && kind != "for" { self.e.insert(b.start, format!("\n{spec}")); }
        let h = self.hint(&format!("before-loop {n}"));
        if !h.is_empty() { self.e.insert(whole.start, format!("\n{h}\n")); }
        let mut h = self.hint(&format!("in-loop {n}"));
        if self.vacuity { h.push_str(&format!("\nproof {{ if vstd::pervasive::arbitrary::<spec_fn(int) -> bool>()({0}) {{ assert(false); }} }} // VACUITY {0}\n", self.vac)); self.vac += 1; }
        if !h.is_empty() && kind != "for" { self.e.insert(b.start + 1, format!("\n{h}\n")); }
        let h = self.hint(&format!("after-loop {n}"));
        if !h.is_empty() { self.e.insert(b.end, format!("\n{h}\n")); }
        let h = self.hint(&format!("block-end {n}"));
        if !h.is_empty() { if let Some(&(_, at, semi)) = self.blocks.last() { self.e.insert(at, format!("{}\n{h}\n", if semi { ";" } else { "" })); } }
        n
    }
    fn loop_end(&mut self, n: usize, block: &syn::Block) {
        let h = self.hint(&format!("end-loop {n}"));
        let semi = matches!(block.stmts.last(), Some(syn::Stmt::Expr(_, None))) && !h.is_empty();
        if !h.is_empty() { self.e.insert(rng(block).end - 1, format!("{}\n{h}\n", if semi { ";" } else { "" })); }
    }
}

fn only_continue(b: &syn::Block) -> bool {
    b.stmts.len() == 1 && matches!(&b.stmts[0], syn::Stmt::Expr(syn::Expr::Continue(c), _) if c.label.is_none())
}

impl<'a, 'ast> Visit<'ast> for Body<'a> {
    // items local to a body: `use` is dropped, and in derived code the local types (declared by //@local)
    fn visit_item(&mut self, i: &'ast syn::Item) {
        let drop = match i {
            syn::Item::Use(u) => self.txt[rng(&u.tree)].split("::").next().map_or(false, |s| s.trim() == "serde"),
            syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Impl(_) | syn::Item::Const(_) => self.derived,
            _ => false,
        };
        if drop { self.e.replace(rng(i), ""); } else { syn::visit::visit_item(self, i); }
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        let unit = self.units.contains(&rng(b).start);
        let last = b.stmts.len().saturating_sub(1);
        for (k, s) in b.stmts.iter().enumerate() {
            if let syn::Stmt::Expr(e, semi) = s {
                if (k < last && semi.is_none()) || (k == last && semi.is_none() && (unit || surely_unit(e))) {
                    let mut v = vec![];
                    value_blocks(e, &mut v);
                    for x in v { self.units.insert(rng(x).start); }
                }
            }
        }
        let (at, semi) = match b.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) if unit || surely_unit(e) => (rng(b).end - 1, !block_like(e)),
            Some(syn::Stmt::Expr(e, None)) => (rng(e).start, false),
            _ => (rng(b).end - 1, false),
        };
        self.blocks.push((rng(b).start, at, semi));
        // Verus has no `continue` in `for`: `if C { continue; } REST` => `if C { } else { REST }`
        let mut closes = 0;
        if self.for_bodies.contains(&rng(b).start) {
            for s in &b.stmts {
                match s {
                    syn::Stmt::Expr(syn::Expr::If(i), _) if i.else_branch.is_none() && only_continue(&i.then_branch) => {
                        let n = self.loops.len() - 1;
                        let h = self.hint(&format!("continue {n}"));
                        self.visit_expr(&i.cond);
                        self.e.replace(rng(&i.then_branch).start..rng(s).end, format!("{{ {h} }} else {{"));
                        closes += 1;
                        continue;
                    }
                    syn::Stmt::Local(l) => {
                        if let Some((els, d)) = l.init.as_ref().and_then(|i| i.diverge.as_ref()).map(|(e, d)| (e, d)) {
                            if let syn::Expr::Block(d) = &**d {
                                if only_continue(&d.block) {
                                    self.e.replace(l.let_token.span.byte_range(), "if let");
                                    self.e.replace(els.span.byte_range().start..rng(s).end, " {");
                                    self.visit_pat(&l.pat);
                                    self.visit_expr(&l.init.as_ref().unwrap().expr);
                                    closes += 1;
                                    continue;
                                }
                            }
                        }
                    }
                    _ => {}
                }
                self.visit_stmt(s);
            }
        } else { syn::visit::visit_block(self, b); }
        let end = rng(b).end - 1;
        for _ in 0..closes { self.e.insert(end, "}\n"); }
        self.blocks.pop();
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) { self.e.replace(rng(a), ""); }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        for a in &l.attrs { self.e.replace(rng(a), ""); }
        let whole = l.for_token.span().byte_range().start..rng(l).end;
        let n = self.loop_common("for", whole, &l.body);
        let b = rng(&l.body);
        let mut spec = String::new();
        for (k, kd, t) in &self.o.loops {
            if *k == n && kd.as_deref().map_or(true, |x| x == "for") { spec.push_str(t); }
        }
        let mut pre = String::new();
        if !is_simple(&l.pat) {
            let mut lets = String::new();
            let p = depattern(&l.pat, self.txt, &mut lets);
            self.e.replace(rng(&*l.pat), format!("__x{n}"));
            pre = format!(" let {p} = __x{n};{lets}");
        }
        if !spec.is_empty() { self.e.insert(rng(&*l.expr).start, format!("it{n}: ")); }
        for (k, w) in &self.o.foriter {
            if *k == n { self.e.insert(rng(&*l.expr).start, format!("{w}(")); self.e.insert(rng(&*l.expr).end, ")"); }
        }
        let mut h = self.hint(&format!("in-loop {n}"));
        if self.vacuity { h.push_str(&format!("\nproof {{ if vstd::pervasive::arbitrary::<spec_fn(int) -> bool>()({0}) {{ assert(false); }} }} // VACUITY {0}\n", self.vac)); self.vac += 1; }
        if !spec.is_empty() { self.e.insert(b.start, format!("\n{spec}")); }
        self.e.insert(b.start + 1, format!("{pre}\n{h}"));
        self.visit_expr(&l.expr);
        bind(&l.pat, &mut self.bound);
        self.for_bodies.insert(b.start);
        self.units.insert(b.start);
        self.visit_block(&l.body);
        self.loop_end(n, &l.body);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        for a in &l.attrs { self.e.replace(rng(a), ""); }
        let n = self.loop_common("while", l.while_token.span().byte_range().start..rng(l).end, &l.body);
        self.visit_expr(&l.cond);
        self.visit_block(&l.body);
        self.loop_end(n, &l.body);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        for a in &l.attrs { self.e.replace(rng(a), ""); }
        let n = self.loop_common("loop", l.loop_token.span().byte_range().start..rng(l).end, &l.body);
        self.visit_block(&l.body);
        self.loop_end(n, &l.body);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let n = self.nclos;
        self.nclos += 1;
        let mut pre = String::new();
        let mut spec = self.o.closures.get(&n).cloned().unwrap_or_default();
        // first line `types T1; T2`: parameter types (rustc infers them, Verus wants them written)
        let mut tys: Vec<String> = vec![];
        if let Some(r) = spec.trim_start().strip_prefix("types ") {
            let (a, b) = r.split_once('\n').unwrap_or((r, ""));
            tys = a.split(';').map(|s| s.trim().to_string()).collect();
            spec = b.to_string();
        }
        for (i, p) in c.inputs.iter().enumerate() {
            let mut s = BTreeSet::new();
            bind(p, &mut s);
            if s.len() == 1 { spec = spec.replace(&format!("${i}"), s.iter().next().unwrap()); }
        }
        for i in 0..4 { spec = spec.replace(&format!("${i}"), "vx_no_such_variable"); }
        for (i, p) in c.inputs.iter().enumerate() {
            bind(p, &mut self.bound);
            let ty = tys.get(i).map(|t| format!(": {t}")).unwrap_or_default();
            if is_simple(p) && !matches!(p, syn::Pat::Wild(_)) {
                if !ty.is_empty() && !matches!(p, syn::Pat::Type(_)) { self.e.insert(rng(p).end, ty); }
                continue;
            }
            if matches!(p, syn::Pat::Wild(_)) { self.e.replace(rng(p), format!("__c{n}_{i}{ty}")); continue; }
            let mut lets = String::new();
            let t = depattern(p, self.txt, &mut lets);
            self.e.replace(rng(p), format!("__c{n}_{i}{ty}"));
            pre.push_str(&format!(" let {t} = __c{n}_{i};{lets}"));
        }
        let body = rng(&*c.body);
        let is_block = matches!(&*c.body, syn::Expr::Block(_));
        if !spec.trim().is_empty() || !pre.is_empty() {
            if let syn::ReturnType::Type(a, t) = &c.output {
                if !spec.trim().is_empty() { self.e.replace(a.span().byte_range().start..rng(&**t).end, ""); }
            }
            if is_block {
                self.e.insert(body.start, format!(" {} ", spec.trim_end()));
                self.e.insert(body.start + 1, pre);
            } else {
                self.e.insert(body.start, format!(" {} {{{}", spec.trim_end(), pre + " "));
                self.e.insert(body.end, " }");
            }
        }
        self.in_closure += 1;
        self.visit_expr(&c.body);
        self.in_closure -= 1;
    }
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        if self.in_closure == 0 { self.exits += 1; self.rets.push((rng(r), r.expr.as_ref().map(|e| rng(&**e)))); }
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, r: &'ast syn::ExprTry) {
        if self.in_closure == 0 { self.exits += 1; }
        syn::visit::visit_expr_try(self, r);
    }
    fn visit_pat(&mut self, p: &'ast syn::Pat) { bind(p, &mut self.bound); syn::visit::visit_pat(self, p) }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let name = m.method.to_string();
        // `.unwrap_or_else(|| panic!(..))` on an Option: `.unwrap()`
        if name == "unwrap_or_else" && m.args.len() == 1 {
            if let syn::Expr::Closure(c) = &m.args[0] {
                if c.inputs.is_empty() && only_panic(&c.body) {
                    self.e.replace(rng(&m.method).start..rng(m).end, "unwrap()");
                    self.visit_expr(&m.receiver);
                    return;
                }
            }
        }
        for (a, b) in self.o.renames.iter().chain(self.unit.renames.iter()) {
            if a.strip_prefix('.').map_or(false, |a| a == name) { self.e.replace(rng(&m.method), b.clone()); }
        }
        // a value coerced to `dyn` keeps its type when it passes through a function (see ext_own)
        if self.unit.own.iter().any(|o| *o == name) {
            for a in &m.args { self.e.insert(rng(a).start, "vx_own("); }
            syn::visit::visit_expr_method_call(self, m);
            for a in &m.args { self.e.insert(rng(a).end, ")"); }
            return;
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    /// `&x[..]`: all of x
    fn visit_expr_reference(&mut self, r: &'ast syn::ExprReference) {
        if let (None, syn::Expr::Index(i)) = (&r.mutability, &*r.expr) {
            if matches!(&*i.index, syn::Expr::Range(g) if g.start.is_none() && g.end.is_none()) {
                self.e.replace(rng(r).start..rng(&i.expr).start, "(");
                self.visit_expr(&i.expr);
                self.e.replace(rng(&i.expr).end..rng(r).end, ").vx_full()");
                return;
            }
        }
        syn::visit::visit_expr_reference(self, r);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        let mut f: &syn::Expr = &c.func;
        while let syn::Expr::Paren(p) = f { f = &p.expr; }
        let dynamic = match f {
            syn::Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.bound.contains(&i.to_string())),
            _ => true,
        };
        // `Serialize::serialize(&&X, FlatMapSerializer(M))` => `vx_flatten(&X, M)`
        if self.derived && c.args.len() == 2 {
            if let (syn::Expr::Path(p), syn::Expr::Reference(a), syn::Expr::Call(b)) = (f, &c.args[0], &c.args[1]) {
                let flat = matches!(&*b.func, syn::Expr::Path(q) if q.path.is_ident("FlatMapSerializer")) && b.args.len() == 1;
                if flat && p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::") == "Serialize::serialize" {
                    self.e.replace(rng(&*c.func), "vx_flatten");
                    self.e.replace(a.and_token.span().byte_range(), "");
                    self.e.replace(rng(&*b.func).start..rng(&b.args[0]).start, "");
                    self.e.replace(rng(&b.args[0]).end..rng(b).end, "");
                    self.visit_expr(&a.expr);
                    self.visit_expr(&b.args[0]);
                    return;
                }
            }
        }
        // `Deserialize::deserialize(FlatMapDeserializer(M, PhantomData))` => `vx_unflatten(M)`
        if self.derived && c.args.len() == 1 {
            if let (syn::Expr::Path(p), syn::Expr::Call(b)) = (f, &c.args[0]) {
                let flat = matches!(&*b.func, syn::Expr::Path(q) if q.path.segments.last().map_or(false, |s| s.ident == "FlatMapDeserializer")) && b.args.len() == 2;
                if flat && p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::").ends_with("Deserialize::deserialize") {
                    self.e.replace(rng(&*c.func), "vx_unflatten");
                    self.e.replace(rng(&*b.func).start..rng(&b.args[0]).start, "");
                    self.e.replace(rng(&b.args[0]).end..rng(b).end, "");
                    self.visit_expr(&b.args[0]);
                    return;
                }
            }
        }
        if dynamic {
            // call of a value: `f(args)` => `vx_call(&f, args)`
            let fr = rng(&*c.func);
            let amp = if matches!(f, syn::Expr::Path(_)) { "" } else { "&" };
            self.e.insert(fr.start, format!("vx_call({amp}"));
            let after = c.paren_token.span.open().byte_range();
            self.e.replace(after, if c.args.is_empty() { "" } else { ", " });
        } else if let syn::Expr::Path(p) = f {
            let full: String = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            for (a, b) in self.o.renames.iter().chain(self.unit.renames.iter()) {
                if *a == full { self.e.replace(rng(&p.path), b.clone()); }
            }
            // `Ctor(.., f)` with f a function name: Verus has no fn pointers, FnPtr stands for the coercion
            for (ctor, n) in &self.unit.fnptrs {
                if *ctor == full {
                    if let Some(syn::Expr::Path(a)) = c.args.iter().nth(*n) {
                        if a.path.segments.last().map_or(false, |s| !self.bound.contains(&s.ident.to_string())) {
                            self.e.insert(rng(a).start, "vx_fnptr(");
                            self.e.insert(rng(a).end, ")");
                        }
                    }
                }
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
    // a renamed function passed as a value, e.g. `char::is_whitespace`
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if self.mut_self && p.path.is_ident("self") { self.e.replace(rng(&p.path), "vx_self"); }
        let full: String = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
        for (a, b) in self.unit.renames.iter() {
            if a.strip_prefix('=').map_or(false, |a| a == full) { self.e.replace(rng(&p.path), b.clone()); }
        }
        syn::visit::visit_expr_path(self, p);
    }
    // a match on string literals => comparisons, in order
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        let n = m.arms.len();
        let mut conds: Vec<Option<String>> = vec![];
        let ok = n > 1 && m.arms.iter().enumerate().all(|(i, a)| {
            let mut v = vec![];
            if i + 1 == n { conds.push(None); return a.guard.is_none() && match &a.pat { syn::Pat::Wild(_) => true, syn::Pat::Ident(i) => i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none(), _ => false }; }
            let ok = lits(&a.pat, &mut v);
            if ok { conds.push(Some(v.iter().map(|l| format!("vx_str_eq(__m, {l})")).collect::<Vec<_>>().join(" || "))); return true; }
            let mut v = vec![];
            let ok = olits(&a.pat, &mut v);
            conds.push(Some(v.join(" || ")));
            ok
        });
        if !ok { syn::visit::visit_expr_match(self, m); return; }
        self.e.replace(m.match_token.span().byte_range(), "match");
        self.visit_expr(&m.expr);
        self.e.insert(rng(&*m.expr).end, " { __m => {");
        self.e.replace(m.brace_token.span.open().byte_range(), "");
        self.e.replace(m.brace_token.span.close().byte_range(), " }}");
        for (i, a) in m.arms.iter().enumerate() {
            for x in &a.attrs { self.e.replace(rng(x), ""); }
            let mut c = conds[i].clone().unwrap_or_default();
            if let Some((_, g)) = &a.guard { c = format!("({c}) && ({})", &self.txt[rng(&**g)]); }
            let head = match &conds[i] { Some(_) => format!("{}if {c} {{ ", if i > 0 { "else " } else { "" }), None => match &a.pat { syn::Pat::Ident(x) => format!("else {{ let {} = __m; ", x.ident), _ => "else { ".into() } };
            self.e.replace(rng(&a.pat).start..a.fat_arrow_token.span().byte_range().end, head);
            self.visit_expr(&a.body);
            let end = rng(&*a.body).end;
            match &a.comma { Some(c) => self.e.replace(end..c.span().byte_range().end, " }"), None => self.e.insert(end, " }") }
        }
    }
    fn visit_expr_cast(&mut self, c: &'ast syn::ExprCast) {
        if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Bool(b), .. }) = &*c.expr {
            self.e.replace(rng(c), format!("{}{}", b.value as u8, &self.txt[rng(&*c.ty)]));
            return;
        }
        if self.unit.castf64 && &self.txt[rng(&*c.ty)] == "f64" {
            self.e.insert(rng(&*c.expr).start, "vx_as_f64(");
            self.e.replace(rng(&*c.expr).end..rng(&*c.ty).end, ")");
        }
        self.visit_expr(&c.expr);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                let cond = self.o.panic_spec.clone().unwrap_or("false".into());
                self.e.replace(rng(m), format!("{{ assert({cond}); vx_diverge() }}"));
            }
            "format" => {
                self.e.replace(rng(m), format!("vx_format({})", m.tokens));
            }
            // on string literals: comparisons, in order
            "matches" => {
                let parsed = m.parse_body_with(|i: syn::parse::ParseStream| {
                    let e: syn::Expr = i.parse()?;
                    let c: syn::Token![,] = i.parse()?;
                    let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(syn::Token![if]) { i.parse::<syn::Token![if]>()?; Some(i.parse::<syn::Expr>()?) } else { None };
                    if i.peek(syn::Token![,]) { i.parse::<syn::Token![,]>()?; }
                    Ok((e, c, p, g))
                });
                if let Ok((e, c, p, g)) = parsed {
                    self.visit_expr(&e);
                    let (mut v, mut w) = (vec![], vec![]);
                    if lits(&p, &mut v) || olits(&p, &mut w) {
                        let cond = if w.is_empty() { v.iter().map(|l| format!("vx_str_eq(__m, {l})")).collect::<Vec<_>>() } else { w }.join(" || ");
                        self.e.replace(rng(m).start..rng(&e).start, "(match ");
                        self.e.replace(c.span().byte_range().start..rng(&p).end, format!(" {{ __m => ({cond})"));
                        match g {
                            Some(g) => { self.e.replace(rng(&p).end..rng(&g).start, " && ("); self.visit_expr(&g); self.e.replace(rng(&g).end..rng(m).end, ") })"); }
                            None => self.e.replace(rng(&p).end..rng(m).end, " })"),
                        }
                    }
                }
            }
            "debug_assert" | "assert" => {
                if let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                    let mut t = self.txt[rng(&a[0])].to_string();
                    if self.mut_self { t = reword(&t, "self", "vx_self"); }
                    let cond = self.o.panic_spec.clone().unwrap_or("false".into());
                    self.notes.push(format!("{name}! on {t}"));
                    self.e.replace(rng(m), format!("if !({t}) {{ assert({cond}); vx_diverge() }}"));
                }
            }
            "vec" => {
                if let Ok(a) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                    for x in &a { self.visit_expr(x); }
                }
            }
            _ => {}
        }
    }
}

/// the string literals of a pattern made of nothing else
fn lits(p: &syn::Pat, out: &mut Vec<String>) -> bool {
    match p {
        syn::Pat::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => { out.push(format!("{:?}", s.value())); true }
        syn::Pat::Macro(x) if x.mac.path.is_ident("stringify") => { out.push(format!("{:?}", x.mac.tokens.to_string())); true }
        syn::Pat::Or(o) => o.cases.iter().all(|c| lits(c, out)),
        syn::Pat::Paren(q) => lits(&q.pat, out),
        _ => false,
    }
}

/// `Some("a") | Some("b")`: the comparisons with `__m`
fn olits(p: &syn::Pat, out: &mut Vec<String>) -> bool {
    match p {
        syn::Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => { let mut v = vec![]; if !lits(&t.elems[0], &mut v) { return false; } out.extend(v.iter().map(|l| format!("vx_some_str_eq(__m, {l})"))); true }
        syn::Pat::Or(o) => o.cases.iter().all(|c| olits(c, out)),
        syn::Pat::Paren(q) => olits(&q.pat, out),
        _ => false,
    }
}

fn bind(p: &syn::Pat, s: &mut BTreeSet<String>) {
    struct B<'a>(&'a mut BTreeSet<String>);
    impl<'a, 'b> Visit<'b> for B<'a> {
        fn visit_pat_ident(&mut self, i: &'b syn::PatIdent) { self.0.insert(i.ident.to_string()); }
    }
    B(s).visit_pat(p);
}

/// `$patN`, `$asgN`, `$mutN` in a contract: the variable loop N binds, the first variable its body assigns,
/// the first one it pushes to or inserts into
struct LoopNames { pats: Vec<String>, asgs: Vec<Vec<String>>, muts: Vec<Vec<String>>, open: Vec<usize> }
impl<'b> Visit<'b> for LoopNames {
    fn visit_expr(&mut self, e: &'b syn::Expr) {
        let pat = match e {
            syn::Expr::ForLoop(l) => Some(match &*l.pat { syn::Pat::Ident(i) => i.ident.to_string(), _ => String::new() }),
            syn::Expr::While(w) => Some(match &*w.cond { syn::Expr::Let(l) => { let mut s = BTreeSet::new(); bind(&l.pat, &mut s); if s.len() == 1 { s.into_iter().next().unwrap() } else { String::new() } } _ => String::new() }),
            syn::Expr::Loop(_) => Some(String::new()),
            _ => None,
        };
        let is = pat.is_some();
        if let Some(p) = pat { self.open.push(self.pats.len()); self.pats.push(p); self.asgs.push(vec![]); self.muts.push(vec![]); }
        if let syn::Expr::Assign(a) = e {
            if let syn::Expr::Path(p) = &*a.left { if let (Some(i), Some(n)) = (p.path.get_ident(), self.open.last()) { self.asgs[*n].push(i.to_string()); } }
        }
        if let syn::Expr::MethodCall(m) = e {
            if ["push", "insert", "entry", "extend", "push_str"].contains(&m.method.to_string().as_str()) {
                if let syn::Expr::Path(p) = &*m.receiver { if let (Some(i), Some(n)) = (p.path.get_ident(), self.open.last()) { self.muts[*n].push(i.to_string()); } }
            }
        }
        syn::visit::visit_expr(self, e);
        if is { self.open.pop(); }
    }
}
fn fill(t: &str, n: &LoopNames, slf: bool) -> String {
    let mut t = t.to_string();
    if !t.contains('$') { return t; }
    for k in 0..10 {
        let p = n.pats.get(k).filter(|p| !p.is_empty()).cloned().unwrap_or("vx_no_such_variable".into());
        let a = n.asgs.get(k).and_then(|v| v.first()).cloned().unwrap_or("vx_no_such_variable".into());
        let a = if a == "self" && slf { "vx_self".into() } else { a };
        let m = n.muts.get(k).and_then(|v| v.first()).cloned().unwrap_or("vx_no_such_variable".into());
        t = t.replace(&format!("$mut{k}"), &m).replace(&format!("$pat{k}"), &p).replace(&format!("$asg{k}"), &a);
    }
    t
}

pub fn emit(text: &str, f: &Found, o: &FnOverlay, unit: &Unit, rep: &mut FnReport, vacuity: bool, external: bool) -> Result<String, String> {
    if f.in_trait_decl {
        let ast: syn::TraitItemFn = syn::parse_str(text).map_err(|e| e.to_string())?;
        if ast.default.is_none() {
            let mut e = Edits::default();
            for a in &ast.attrs { e.replace(rng(a), ""); }
            sig_edits(&ast.sig, text, o, &mut e);
            param_names(&ast.sig, unit, rep, &mut e);
            let semi = ast.semi_token.unwrap().span.byte_range();
            e.insert(semi.start, format!("\n{}", o.spec));
            return e.apply(text);
        }
    }
    let ast = crate::inline::parse_fn(text)?;
    if !external { cfgs(&ast)?; }
    let mut names = LoopNames { pats: vec![], asgs: vec![], muts: vec![], open: vec![] };
    for s in &ast.block.stmts { names.visit_stmt(s); }
    let slf = ast.sig.receiver().map_or(false, |r| r.reference.is_none() && r.mutability.is_some());
    let mut o3 = o.clone();
    for l in &mut o3.loops { l.2 = fill(&l.2, &names, slf); }
    for h in &mut o3.hints { h.1 = fill(&h.1, &names, slf); }
    let o = &o3;
    let mut b = Body { txt: text, o, unit, e: Edits::default(), loops: vec![], nclos: 0, notes: vec![], bound: Default::default(), used_hints: Default::default(), loop_specs: 0, vacuity, vac: 0, mut_self: false, derived: f.file == "expanded", for_bodies: Default::default(), blocks: vec![], units: Default::default(), exits: 0, rets: vec![], in_closure: 0 };
    if ast.sig.output == syn::ReturnType::Default { b.units.insert(rng(&ast.block).start); }
    for a in &ast.attrs { b.e.replace(rng(a), ""); }
    let is_trait_impl = f.trait_name.is_some() || f.in_trait_decl;
    let fn_start = ast.sig.span().byte_range().start;
    if !matches!(ast.vis, syn::Visibility::Inherited) { b.e.replace(rng(&ast.vis), ""); }
    let mut head = String::from("\n");
    head.push_str(&o.attrs);
    if external { head.push_str("#[verifier::external_body]\n"); }
    if !is_trait_impl { head.push_str("pub "); }
    b.e.insert(fn_start, head);
    sig_edits(&ast.sig, text, o, &mut b.e);
    let lets = param_names(&ast.sig, unit, rep, &mut b.e);
    if let Some(n) = &o.rename_fn { b.e.replace(rng(&ast.sig.ident), n.clone()); }
    for p in &ast.sig.inputs { if let syn::FnArg::Typed(t) = p { bind(&t.pat, &mut b.bound); } }
    let br = rng(&ast.block);
    b.e.insert(br.start, format!("\n{}", o.spec));
    if external {
        // not verified
        if !matches!(&ast.sig.output, syn::ReturnType::Type(_, t) if matches!(**t, syn::Type::ImplTrait(_))) {
            b.e.replace(br.clone(), "{ unimplemented!() }");
            if let Some((None, Some(m))) = ast.sig.receiver().map(|r| (&r.reference, &r.mutability)) {
                b.e.replace(m.span().byte_range(), "");
            }
        }
        let r = b.e.apply(text)?;
        rep.notes.push("assumed".into());
        return Ok(r);
    }
    // `mut self`: Verus takes no mutable self by value
    let mut lets = lets;
    if let Some(r) = ast.sig.receiver() {
        if let (None, Some(m)) = (&r.reference, &r.mutability) {
            let at = m.span().byte_range();
            b.e.replace(at.start..r.self_token.span().byte_range().start, "");
            b.mut_self = true;
            lets.push_str("\nlet mut vx_self = self;");
        }
    }
    let mut h = format!("{lets}{}", b.hint("begin"));
    if vacuity { h.push_str(&format!("\nproof {{ if vstd::pervasive::arbitrary::<spec_fn(int) -> bool>()({0}) {{ assert(false); }} }} // VACUITY {0}\n", b.vac)); b.vac += 1; }
    if !h.is_empty() { b.e.insert(br.start + 1, format!("\n{h}\n")); }
    let params = b.bound.clone();
    b.visit_block(&ast.block);
    early_exits(&mut b, &params, &ast.sig);
    let h = b.hint("end");
    if !h.is_empty() {
        let at = match ast.block.stmts.last() {
            // a unit function's trailing block-like expression is a statement
            Some(syn::Stmt::Expr(e, None)) if ast.sig.output == syn::ReturnType::Default && matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Loop(_) | syn::Expr::Block(_)) => br.end - 1,
            Some(syn::Stmt::Expr(e, None)) if ast.sig.output == syn::ReturnType::Default => { b.e.insert(rng(e).end, ";"); br.end - 1 }
            Some(syn::Stmt::Expr(e, None)) => rng(e).start,
            _ => br.end - 1,
        };
        b.e.insert(at, format!("\n{h}\n"));
    }
    let h = b.hint("wrap");
    if !h.is_empty() {
        // bind the body's value, prove, return it
        let ty = match &ast.sig.output {
            syn::ReturnType::Type(_, t) if !text[rng(&**t)].contains("impl ") && !o.inst.iter().any(|x| x.0.starts_with("ret:")) => format!(": {}", &text[rng(&**t)]),
            _ => String::new(),
        };
        b.e.insert(br.start + 1, format!(" let {}{ty} = {{", o.ret));
        b.e.insert(br.end - 1, format!("}};\n{h}\n{} ", o.ret));
    }
    if let Some(n) = o.nloops { if b.loops.len() != n { b.notes.push(format!("{} loops, contract written for {}", b.loops.len(), n)); } }
    else {
        let want = o.loops.iter().map(|l| l.0 + 1).max().unwrap_or(0);
        if b.loops.len() != want { b.notes.push(format!("{} loops, contract written for {}", b.loops.len(), want)); }
    }
    let want = o.nclosures.unwrap_or_else(|| o.closures.keys().map(|k| k + 1).max().unwrap_or(0));
    if b.nclos != want { b.notes.push(format!("{} closures, contract written for {}", b.nclos, want)); }
    for (k, _) in &o.hints { if !b.used_hints.contains(k) { b.notes.push(format!("hint position {k} not found")); } }
    rep.loops = b.loops.len();
    rep.notes.append(&mut b.notes);
    b.e.apply(text)
}

/// the hints for the end of the function, at the `return`s it has gained since the contract was written
fn early_exits(b: &mut Body, params: &BTreeSet<String>, sig: &syn::Signature) {
    let text = |k: &str| -> String { b.o.hints.iter().filter(|h| h.0 == k).map(|h| h.1.clone()).collect() };
    let (end, wrap) = (text("end"), text("wrap"));
    if b.exits == b.o.exits || (end.is_empty() && wrap.is_empty()) { return; }
    let mut local: BTreeSet<String> = b.bound.difference(params).cloned().collect();
    for (k, h) in &b.o.hints {
        if k == "begin" || k == "end" || k == "wrap" { continue; }
        for l in h.split("let ghost ").skip(1) {
            let l = l.trim_start().trim_start_matches("mut ");
            local.insert(l.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap().to_string());
        }
    }
    let outside = |h: &str| h.split(|c: char| !c.is_alphanumeric() && c != '_').all(|w| !local.contains(w));
    if b.exits != b.rets.len() || !outside(&end) || !outside(&wrap) {
        b.notes.push(format!("{} early exits, contract written for {}", b.exits, b.o.exits));
        return;
    }
    // a second way to verify the function (see check.py)
    if !b.unit.exit_hints { return; }
    let ty = match &sig.output {
        syn::ReturnType::Type(_, t) if !b.txt[rng(&**t)].contains("impl ") && !b.o.inst.iter().any(|x| x.0.starts_with("ret:")) => format!(": {}", &b.txt[rng(&**t)]),
        _ => String::new(),
    };
    for (r, v) in std::mem::take(&mut b.rets) {
        match v {
            Some(v) if !wrap.is_empty() => {
                b.e.replace(r.start..v.start, format!("{{ {end} let {}{ty} = ", b.o.ret));
                b.e.insert(v.end, format!(";\n{wrap}\nreturn {}; }}", b.o.ret));
            }
            _ => {
                b.e.insert(r.start, format!("{{\n{end}{wrap}\n"));
                b.e.insert(r.end, "; }");
            }
        }
    }
}

/// a parameter renamed since the contract was written keeps the contract's name in the signature
fn param_names(sig: &syn::Signature, unit: &Unit, rep: &mut FnReport, e: &mut Edits) -> String {
    let mut lets = String::new();
    let ids: Vec<Option<&syn::PatIdent>> = sig.inputs.iter().filter_map(|p| match p {
        syn::FnArg::Typed(t) => Some(match &*t.pat { syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some(i), _ => None }),
        _ => None,
    }).collect();
    rep.params = ids.iter().map(|i| i.map_or("_".into(), |i| i.ident.to_string())).collect();
    if let Some(old) = unit.params.get(&rep.id) {
        if old.len() == ids.len() {
            for (o, i) in old.iter().zip(&ids) {
                let Some(i) = i else { continue };
                if i.ident == o.as_str() || o == "_" { continue; }
                e.replace(rng(*i), o.clone());
                lets.push_str(&format!("\nlet {}{} = {o};", if i.mutability.is_some() { "mut " } else { "" }, i.ident));
            }
        }
    }
    lets
}

/// conditional compilation inside a body: everything is taken as with all features on
fn cfgs(ast: &syn::ImplItemFn) -> Result<(), String> {
    struct C(Option<String>);
    impl<'b> Visit<'b> for C {
        fn visit_attribute(&mut self, a: &'b syn::Attribute) {
            if a.path().is_ident("cfg") || a.path().is_ident("cfg_attr") {
                let t = match &a.meta { syn::Meta::List(l) => l.tokens.to_string().replace(' ', ""), _ => String::new() };
                if !(a.path().is_ident("cfg") && t.starts_with("feature=\"") && t.matches('"').count() == 2) { self.0 = Some(format!("conditional compilation: {t}")); }
            }
        }
        fn visit_macro(&mut self, m: &'b syn::Macro) {
            let t = m.tokens.to_string().replace(' ', "");
            if let Some(k) = t.match_indices("#[cfg").find(|(k, _)| { let r = &t[*k..]; !r.starts_with("#[cfg(feature=\"") || !r[15..].split_once('"').map_or(false, |x| x.1.starts_with(")]")) }) {
                self.0 = Some(format!("conditional compilation: {}", &t[k.0..].chars().take(40).collect::<String>()));
            }
            if m.path.is_ident("cfg") { self.0 = Some("conditional compilation: cfg!".into()); }
        }
    }
    let mut c = C(None);
    for s in &ast.block.stmts { c.visit_stmt(s); }
    match c.0 { Some(e) => Err(e), None => Ok(()) }
}

fn sig_edits(sig: &syn::Signature, text: &str, o: &FnOverlay, e: &mut Edits) {
    if let syn::ReturnType::Type(_, t) = &sig.output {
        let mut ty = text[rng(&**t)].to_string();
        for (a, b) in &o.inst { if let Some(n) = a.strip_prefix("ret:") { let _ = n; ty = b.clone(); } }
        e.replace(rng(&**t), format!("({}: {})", o.ret, ty));
    }
    let gens: Vec<(String, String)> = o.inst.iter().filter(|x| !x.0.starts_with("ret:")).cloned().collect();
    if gens.is_empty() { return; }
    // instantiate type parameters with concrete types
    let keep: Vec<String> = sig.generics.params.iter().filter_map(|p| match p {
        syn::GenericParam::Type(t) if gens.iter().any(|g| t.ident == g.0) => None,
        p => Some(text[rng(p)].to_string()),
    }).collect();
    if let (Some(l), Some(g)) = (&sig.generics.lt_token, &sig.generics.gt_token) {
        let r = l.span.byte_range().start..g.span.byte_range().end;
        e.replace(r, if keep.is_empty() { String::new() } else { format!("<{}>", keep.join(", ")) });
    }
    if let Some(w) = &sig.generics.where_clause {
        let preds: Vec<String> = w.predicates.iter().filter_map(|p| {
            let t = text[rng(p)].to_string();
            if let syn::WherePredicate::Type(pt) = p {
                let s = text[rng(&pt.bounded_ty)].to_string();
                if gens.iter().any(|g| s == g.0 || s.starts_with(&format!("{}::", g.0))) { return None; }
            }
            Some(t)
        }).collect();
        e.replace(rng(w), if preds.is_empty() { String::new() } else { format!("where {}", preds.join(", ")) });
    }
    for p in &sig.inputs {
        if let syn::FnArg::Typed(t) = p {
            let s = text[rng(&*t.ty)].trim().to_string();
            for g in &gens {
                if s == g.0 { e.replace(rng(&*t.ty), g.1.clone()); }
                if let Some(w) = s.strip_prefix("impl ") { let _ = w; if g.0 == "impl" { e.replace(rng(&*t.ty), g.1.clone()); } }
            }
        }
    }
}

/// Verus has no fn-pointer types: such a field becomes the opaque type FnPtr
fn field_ty(t: &syn::Type, txt: &str) -> String {
    match t {
        syn::Type::BareFn(_) => "FnPtr".into(),
        _ => txt[rng(t)].to_string(),
    }
}

pub fn emit_struct(s: &(String, syn::ItemStruct), opts: &[&str]) -> String {
    let mut o = String::new();
    for x in opts { if let Some(a) = x.strip_prefix("attr=") { o.push_str(&format!("#[{a}]\n")); } }
    o.push_str(&emit_struct_named(&s.0, &s.1, &s.1.ident.to_string()));
    o
}
fn emit_struct_named(txt: &str, s: &syn::ItemStruct, name: &str) -> String {
    let mut o = String::new();
    o.push_str(&format!("pub struct {}{}", name, &if s.generics.params.is_empty() { String::new() } else { txt[rng(&s.generics)].to_string() }));
    match &s.fields {
        syn::Fields::Named(n) => {
            o.push_str(" {\n");
            for f in &n.named { o.push_str(&format!("    pub {}: {},\n", f.ident.as_ref().unwrap(), field_ty(&f.ty, txt))); }
            o.push_str("}\n");
        }
        syn::Fields::Unnamed(n) => {
            o.push('(');
            for f in &n.unnamed { o.push_str(&format!("pub {}, ", field_ty(&f.ty, txt))); }
            o.push_str(");\n");
        }
        syn::Fields::Unit => o.push_str(";\n"),
    }
    o
}

/// a `&[&str]` constant, with the proof that it has exactly the words of the spec list `spec`
pub fn emit_constlist(name: &str, ws: &[String], pin: Option<(&str, &Vec<String>)>) -> String {
    let lits = ws.iter().map(|w| format!("{w:?}")).collect::<Vec<_>>().join(", ");
    let ty = "&'static [&'static str]";
    let Some((spec, pins)) = pin else { 
        // the list's content stays abstract: NAME__words() is whatever the constant holds
        return format!("pub uninterp spec fn {name}__words() -> Seq<Seq<char>>;\n#[verifier::external_body]\npub exec const {name}: {ty} ensures lit_views({name}@) == {name}__words() {{ &[{lits}] }}\n");
    };
    let mut o = format!("pub exec const {name}: {ty} ensures same_words(lit_views({name}@), {spec}())\n{{ let r: {ty} = &[{lits}];\nproof {{\n let a = lit_views(r@); let b = {spec}();\n");
    let case = |o: &mut String, from: &str, to: &str, xs: &[String], ys: &[String]| {
        o.push_str(&format!(" assert forall|i: int| 0 <= i < {from}.len() implies {to}.contains(#[trigger] {from}[i]) by {{\n"));
        for (i, x) in xs.iter().enumerate() {
            if let Some(j) = ys.iter().position(|y| y == x) { o.push_str(&format!("  if i == {i} {{ assert({to}[{j}] == {from}[{i}]); }}\n")); }
        }
        o.push_str(" }\n");
    };
    case(&mut o, "a", "b", ws, pins);
    case(&mut o, "b", "a", pins, ws);
    o.push_str("}\nr }\n");
    o
}
pub fn emit_pinlist(spec: &str, ws: &[String]) -> String {
    format!("pub open spec fn {spec}() -> Seq<Seq<char>> {{ seq![{}] }}\n", ws.iter().map(|w| format!("{w:?}@")).collect::<Vec<_>>().join(", "))
}

/// words of `t` equal to `from` become `to`
pub fn reword(t: &str, from: &str, to: &str) -> String {
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let mut o = String::new();
    let mut r = t;
    while let Some(i) = r.find(from) {
        let before = r[..i].chars().last().or(o.chars().last()).map_or(false, id);
        let after = r[i + from.len()..].chars().next().map_or(false, id);
        o.push_str(&r[..i]);
        o.push_str(if before || after { from } else { to });
        r = &r[i + from.len()..];
    }
    o.push_str(r);
    o
}

/// a struct or enum local to derived code, at top level under another name
pub fn emit_local(s: &syn::Item, txt: &str, new: &str) -> String {
    match s {
        syn::Item::Struct(s) => {
            let mut s = s.clone();
            s.attrs.clear();
            emit_struct_named(txt, &s, new)
        }
        syn::Item::Enum(e) => {
            let vs: Vec<String> = e.variants.iter().map(|v| txt[rng(&v.ident).start..rng(v).end].to_string()).collect();
            format!("pub enum {new}{} {{ {} }}\n", if e.generics.params.is_empty() { String::new() } else { txt[rng(&e.generics)].to_string() }, vs.join(", "))
        }
        _ => String::new(),
    }
}
