//! Uncontracted local helpers are inlined at their call sites (text splice, repeated), so that a
//! helper extracted from a contracted function is still verified as part of that function.
use crate::edit::Edits;
use crate::find::{Found, Sources};
use crate::FnReport;
use std::collections::BTreeSet;
use syn::spanned::Spanned;
use syn::visit::Visit;

pub fn parse_fn(text: &str) -> Result<syn::ImplItemFn, String> {
    syn::parse_str::<syn::ImplItemFn>(text).map_err(|e| format!("parse: {e}"))
}

struct Calls {
    hits: Vec<Hit>,
    all: BTreeSet<String>,
}
#[derive(Clone)]
struct Hit {
    name: String,
    qual: Option<String>,
    recv: Option<(String, bool)>, // receiver text, is literally `self`
    range: std::ops::Range<usize>,
    args: Vec<std::ops::Range<usize>>,
    method: bool,
}

impl<'a> Visit<'a> for Calls {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let name = segs.last().unwrap().clone();
            self.all.insert(name.clone());
            self.hits.push(Hit {
                name,
                qual: if segs.len() > 1 { Some(segs[segs.len() - 2].clone()) } else { None },
                recv: None,
                range: c.span().byte_range(),
                args: c.args.iter().map(|a| a.span().byte_range()).collect(),
                method: false,
            });
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        let name = c.method.to_string();
        self.all.insert(name.clone());
        let (rt, is_self) = match &*c.receiver {
            syn::Expr::Path(p) if p.path.is_ident("self") => (Some("self".to_string()), true),
            syn::Expr::Path(p) => (p.path.get_ident().map(|i| i.to_string()), false),
            _ => (None, false),
        };
        self.hits.push(Hit {
            name,
            qual: None,
            recv: rt.map(|t| (t, is_self)),
            range: c.span().byte_range(),
            args: c.args.iter().map(|a| a.span().byte_range()).collect(),
            method: true,
        });
        syn::visit::visit_expr_method_call(self, c);
    }
    // function names passed as values (e.g. FnWrapper(.., trimmer))
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        self.all.insert(p.path.segments.last().unwrap().ident.to_string());
        syn::visit::visit_expr_path(self, p);
    }
}

struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

struct SelfUses(Vec<std::ops::Range<usize>>);
impl<'a> Visit<'a> for SelfUses {
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        if p.path.is_ident("self") { self.0.push(p.span().byte_range()) }
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        fn rec(ts: proc_macro2::TokenStream, v: &mut Vec<std::ops::Range<usize>>) {
            for t in ts {
                match t {
                    proc_macro2::TokenTree::Ident(i) if i == "self" => v.push(i.span().byte_range()),
                    proc_macro2::TokenTree::Group(g) => rec(g.stream(), v),
                    _ => {}
                }
            }
        }
        rec(m.tokens.clone(), &mut self.0);
    }
}

fn find_helper(src: &Sources, f: &Found, h: &Hit) -> Option<Found> {
    // same file only; methods of the caller's own type, or free functions
    let ty = match &h.qual {
        Some(q) if q == "Self" => f.self_ty.clone(),
        Some(q) => if q.chars().next().unwrap().is_uppercase() { Some(q.clone()) } else { None },
        None => None,
    };
    if h.method {
        let _ = h.recv.as_ref()?;
        // own type first, then any type of the same file with an inherent method of that name
        let mut tys = vec![];
        if let Some(t) = &f.self_ty { tys.push(t.clone()); }
        let (_, ast) = src.files.get(&f.file)?;
        for i in &ast.items {
            if let syn::Item::Impl(im) = i {
                if im.trait_.is_none() { if let Some(t) = crate::find::ty_last(&im.self_ty) { tys.push(t) } }
            }
        }
        for t in tys {
            if let Some(r) = src.find_fn(&f.file, &format!("{}::{}", t, h.name)) { if r.file == f.file { return Some(r); } }
        }
        None
    } else if let Some(t) = ty {
        src.find_fn(&f.file, &format!("{}::{}", t, h.name)).filter(|r| r.file == f.file)
    } else if h.qual.is_none() {
        src.find_fn(&f.file, &h.name).filter(|r| r.file == f.file)
    } else { None }
}

/// `if c { ..return x; } rest` => `if c { ..x } else { rest }` on the statement level, so that simple
/// guard-style helpers can be inlined.
fn unguard(block: &syn::Block, text: &str) -> Option<String> {
    let inner = |b: &syn::Block| -> String {
        let r = b.span().byte_range();
        text[r.start + 1..r.end - 1].to_string()
    };
    fn ret_value(b: &syn::Block, text: &str) -> Option<String> {
        // block whose last statement is `return x;` and nothing before returns
        let (last, rest) = b.stmts.split_last()?;
        for s in rest { let mut h = HasReturn(false); h.visit_stmt(s); if h.0 { return None; } }
        let e = match last { syn::Stmt::Expr(e, _) => e, _ => return None };
        if let syn::Expr::Return(r) = e {
            let pre: String = rest.iter().map(|s| text[s.span().byte_range()].to_string() + "\n").collect();
            return Some(pre + &r.expr.as_ref().map(|e| text[e.span().byte_range()].to_string()).unwrap_or("()".into()));
        }
        None
    }
    fn go(stmts: &[syn::Stmt], text: &str) -> Option<String> {
        let mut out = String::new();
        for (i, s) in stmts.iter().enumerate() {
            let mut h = HasReturn(false);
            h.visit_stmt(s);
            if !h.0 { out.push_str(&text[s.span().byte_range()]); out.push('\n'); continue; }
            match s {
                syn::Stmt::Expr(syn::Expr::If(e), _) if e.else_branch.is_none() => {
                    let v = ret_value(&e.then_branch, text)?;
                    let rest = go(&stmts[i + 1..], text)?;
                    let mut hc = HasReturn(false);
                    hc.visit_expr(&e.cond);
                    if hc.0 { return None; }
                    out.push_str(&format!("if {} {{ {} }} else {{ {} }}", &text[e.cond.span().byte_range()], v, rest));
                    return Some(out);
                }
                syn::Stmt::Expr(syn::Expr::Return(r), _) if i + 1 == stmts.len() => {
                    let v = r.expr.as_ref().map(|e| text[e.span().byte_range()].to_string()).unwrap_or("()".into());
                    out.push_str(&v);
                    return Some(out);
                }
                _ => return None,
            }
        }
        Some(out)
    }
    let _ = inner;
    go(&block.stmts, text)
}

pub fn inline_helpers(src: &Sources, f: &Found, contracted: &BTreeSet<String>, rep: &mut FnReport) -> String {
    let mut text = f.text.clone();
    for round in 0..24 {
        let Ok(ast) = parse_fn(&text) else { break };
        let mut c = Calls { hits: vec![], all: Default::default() };
        c.visit_block(&ast.block);
        rep.calls = c.all.clone();
        let me = ast.sig.ident.to_string();
        let mut done = true;
        for h in &c.hits {
            if h.name == me || contracted.contains(&format!("*{}", h.name)) { continue; }
            let Some(hf) = find_helper(src, f, h) else { continue };
            if contracted.contains(&hf.self_ty.as_ref().map(|t| format!("{t}::{}", h.name)).unwrap_or_else(|| h.name.clone())) { continue; }
            let Ok(ha) = parse_fn(&hf.text) else { continue };
            // never inline recursion
            let mut hc = Calls { hits: vec![], all: Default::default() };
            hc.visit_block(&ha.block);
            if hc.all.contains(&h.name) { rep.notes.push(format!("recursive helper {} without contract", h.name)); continue; }
            let mut hr = HasReturn(false);
            hr.visit_block(&ha.block);
            let br = ha.block.span().byte_range();
            let mut body: String;
            let self_edit;
            if hr.0 {
                match unguard(&ha.block, &hf.text) {
                    Some(b) => { body = format!("{{ {} }}", b); self_edit = true; }
                    None => { rep.notes.push(format!("helper {} with early return not inlined", h.name)); continue; }
                }
            } else { body = hf.text[br.clone()].to_string(); self_edit = false; }
            // parameters
            let mut lets = String::new();
            let mut k = 0;
            let mut ok = true;
            let mut tmp = String::new();
            let mut args: Vec<String> = h.args.iter().map(|r| text[r.clone()].to_string()).collect();
            let mut has_recv = None;
            for p in &ha.sig.inputs {
                match p {
                    syn::FnArg::Receiver(r) => { has_recv = Some((r.reference.is_some(), r.mutability.is_some())); }
                    syn::FnArg::Typed(t) => {
                        if k >= args.len() { ok = false; break; }
                        let generic = !ha.sig.generics.params.is_empty() || matches!(&*t.ty, syn::Type::ImplTrait(_));
                        let pat = &hf.text[t.pat.span().byte_range()];
                        tmp.push_str(&format!("let __h{round}_{k} = {};\n", args[k]));
                        let has_lt = { let s = &hf.text[t.ty.span().byte_range()]; s.contains('\'') };
                        if generic || has_lt { lets.push_str(&format!("let {pat} = __h{round}_{k};\n")); }
                        else { lets.push_str(&format!("let {pat}: {} = __h{round}_{k};\n", &hf.text[t.ty.span().byte_range()])); }
                        k += 1;
                    }
                }
            }
            if !ok { continue; }
            if h.method {
                let Some((by_ref, mutable)) = has_recv else { continue };
                let (rt, is_self) = h.recv.clone().unwrap();
                if !is_self || (!by_ref && mutable) {
                    let nb = format!("{{ {} }}", body);
                    let Ok(bb) = syn::parse_str::<syn::Block>(&nb) else { continue };
                    let mut su = SelfUses(vec![]);
                    su.visit_block(&bb);
                    let mut e = Edits::default();
                    for r in su.0 { e.replace(r, format!("__recv{round}")); }
                    let Ok(b2) = e.apply(&nb) else { continue };
                    body = b2;
                    let rb = if by_ref { if mutable { format!("&mut *{rt}") } else { format!("&*{rt}") } } else { rt };
                    lets.push_str(&format!("let {}__recv{round} = {rb};\n", if !by_ref && mutable { "mut " } else { "" }));
                }
            } else if has_recv.is_some() {
                // Type::method(self_arg, ..)
                continue;
            }
            let _ = (self_edit, &mut args);
            let rep_text = format!("({{ {tmp}{lets}{body} }})");
            text.replace_range(h.range.clone(), &rep_text);
            rep.inlined.push(h.name.clone());
            done = false;
            break;
        }
        if done { break; }
    }
    text
}
