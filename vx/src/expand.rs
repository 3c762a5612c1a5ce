//! Expansion of item-level invocations of macros defined by `macro_rules!` in the same file.
//! The expanded items are appended to the file's text, so contracts attach to them as to any
//! other function. `stringify!` of plain tokens becomes the literal it stands for.
use proc_macro2::{Delimiter, Group, Literal, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::parse::{ParseStream, Parser};

#[derive(Clone, Debug)]
enum Bind { One(TokenStream), Many(Vec<BTreeMap<String, Bind>>) }
type Binds = BTreeMap<String, Bind>;

#[derive(Debug)]
enum Pat {
    Tok(TokenTree),
    Group(Delimiter, Vec<Pat>),
    Var(String, String),
    Rep(Vec<Pat>, Vec<TokenTree>, char),
}

fn is_punct(t: &TokenTree, c: char) -> bool { matches!(t, TokenTree::Punct(p) if p.as_char() == c) }
/// separator and operator after `$( .. )`
fn rep_tail(v: &[TokenTree], i: &mut usize) -> Option<(Vec<TokenTree>, char)> {
    let mut sep = vec![];
    while *i < v.len() {
        if let TokenTree::Punct(p) = &v[*i] {
            if matches!(p.as_char(), '+' | '*' | '?') { *i += 1; return Some((sep, p.as_char())); }
        }
        sep.push(v[*i].clone());
        *i += 1;
        if sep.len() > 2 { return None; }
    }
    None
}
fn parse_pat(ts: TokenStream) -> Option<Vec<Pat>> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let (mut i, mut out) = (0, vec![]);
    while i < v.len() {
        if is_punct(&v[i], '$') {
            match v.get(i + 1)? {
                TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                    i += 2;
                    let (sep, op) = rep_tail(&v, &mut i)?;
                    out.push(Pat::Rep(parse_pat(g.stream())?, sep, op));
                }
                TokenTree::Ident(n) => {
                    if !is_punct(v.get(i + 2)?, ':') { return None; }
                    out.push(Pat::Var(n.to_string(), v.get(i + 3)?.to_string()));
                    i += 4;
                }
                _ => return None,
            }
        } else {
            match &v[i] {
                TokenTree::Group(g) => out.push(Pat::Group(g.delimiter(), parse_pat(g.stream())?)),
                t => out.push(Pat::Tok(t.clone())),
            }
            i += 1;
        }
    }
    Some(out)
}

fn frag<T: syn::parse::Parse + ToTokens>(v: &[TokenTree]) -> Option<(TokenStream, usize)> {
    let ts: TokenStream = v.iter().cloned().collect();
    let (x, rest) = (|s: ParseStream| { let x: T = s.parse()?; let r: TokenStream = s.parse()?; Ok((x.to_token_stream(), r)) }).parse2(ts).ok()?;
    Some((x, v.len() - rest.into_iter().count()))
}
fn match_frag(kind: &str, v: &[TokenTree]) -> Option<(TokenStream, usize)> {
    match kind {
        "ident" => match v.first()? { t @ TokenTree::Ident(_) => Some((t.clone().into(), 1)), _ => None },
        "tt" => Some((v.first()?.clone().into(), 1)),
        "literal" => frag::<syn::Lit>(v),
        "expr" => frag::<syn::Expr>(v),
        "ty" => frag::<syn::Type>(v),
        "path" => frag::<syn::Path>(v),
        "meta" => frag::<syn::Meta>(v),
        "block" => frag::<syn::Block>(v),
        "item" => frag::<syn::Item>(v),
        "vis" => frag::<syn::Visibility>(v),
        "lifetime" => frag::<syn::Lifetime>(v),
        _ => None,
    }
}
fn same(a: &TokenTree, b: &TokenTree) -> bool { a.to_string() == b.to_string() }
/// tokens matched, or None
fn matches(p: &[Pat], v: &[TokenTree], b: &mut Binds) -> Option<usize> {
    let mut i = 0;
    for (k, x) in p.iter().enumerate() {
        match x {
            Pat::Tok(t) => { if !same(t, v.get(i)?) { return None; } i += 1; }
            Pat::Group(d, q) => match v.get(i)? {
                TokenTree::Group(g) if g.delimiter() == *d => {
                    let w: Vec<TokenTree> = g.stream().into_iter().collect();
                    if matches(q, &w, b)? != w.len() { return None; }
                    i += 1;
                }
                _ => return None,
            },
            Pat::Var(n, kind) => {
                let (ts, l) = match_frag(kind, &v[i..])?;
                b.insert(n.clone(), Bind::One(ts));
                i += l;
            }
            Pat::Rep(q, sep, op) => {
                let mut rows: Vec<Binds> = vec![];
                loop {
                    if *op == '?' && rows.len() == 1 { break; }
                    let mut j = i;
                    if !rows.is_empty() && !sep.is_empty() {
                        if v.len() < j + sep.len() || !sep.iter().zip(&v[j..]).all(|(a, b)| same(a, b)) { break; }
                        j += sep.len();
                    }
                    let mut row = Binds::new();
                    match matches(q, &v[j..], &mut row) {
                        // an empty row would repeat for ever
                        Some(l) if j + l > i => { i = j + l; rows.push(row); }
                        _ => break,
                    }
                }
                if *op == '+' && rows.is_empty() { return None; }
                fn names(p: &[Pat], out: &mut Vec<String>) {
                    for x in p { match x { Pat::Var(n, _) => out.push(n.clone()), Pat::Group(_, q) | Pat::Rep(q, ..) => names(q, out), _ => {} } }
                }
                let mut ns = vec![];
                names(q, &mut ns);
                for n in ns { b.insert(n, Bind::Many(rows.clone())); }
                let _ = k;
            }
        }
    }
    Some(i)
}

fn vars(v: &[TokenTree], out: &mut Vec<String>) {
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Ident(n) if i > 0 && is_punct(&v[i - 1], '$') => out.push(n.to_string()),
            TokenTree::Group(g) => vars(&g.stream().into_iter().collect::<Vec<_>>(), out),
            _ => {}
        }
    }
}
fn transcribe(ts: TokenStream, b: &Binds) -> Option<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let (mut i, mut out) = (0, TokenStream::new());
    while i < v.len() {
        if is_punct(&v[i], '$') {
            match v.get(i + 1)? {
                TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                    i += 2;
                    let (sep, _) = rep_tail(&v, &mut i)?;
                    let mut ns = vec![];
                    vars(&g.stream().into_iter().collect::<Vec<_>>(), &mut ns);
                    let rows = ns.iter().find_map(|n| match b.get(n) { Some(Bind::Many(r)) => Some(r.clone()), _ => None })?;
                    for (k, r) in rows.iter().enumerate() {
                        if k > 0 { out.extend(sep.clone()); }
                        let mut c = b.clone();
                        for (n, x) in r { c.insert(n.clone(), x.clone()); }
                        out.extend(transcribe(g.stream(), &c)?);
                    }
                }
                TokenTree::Ident(n) if n == "crate" => { out.extend([v[i + 1].clone()]); i += 2; }
                TokenTree::Ident(n) => {
                    match b.get(&n.to_string())? { Bind::One(t) => out.extend(t.clone()), _ => return None }
                    i += 2;
                }
                _ => return None,
            }
        } else {
            match &v[i] {
                TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), transcribe(g.stream(), b)?))]),
                t => out.extend([t.clone()]),
            }
            i += 1;
        }
    }
    Some(out)
}
/// `stringify!(..)` as the literal it stands for
fn literals(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let (mut i, mut out) = (0, TokenStream::new());
    while i < v.len() {
        if let (TokenTree::Ident(n), Some(p), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1), v.get(i + 2)) {
            if n == "stringify" && is_punct(p, '!') && g.stream().into_iter().count() == 1 {
                out.extend([TokenTree::Literal(Literal::string(&g.stream().to_string()))]);
                i += 3;
                continue;
            }
        }
        match &v[i] {
            TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), literals(g.stream())))]),
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

/// the text of the items that the file's own macros produce
pub fn expand(f: &syn::File) -> String {
    let mut out = String::new();
    for it in &f.items {
        let syn::Item::Macro(m) = it else { continue };
        if m.ident.is_some() { continue; }
        let Some(n) = m.mac.path.get_ident() else { continue };
        let Some(def) = f.items.iter().find_map(|x| match x { syn::Item::Macro(d) if d.ident.as_ref() == Some(n) => Some(d), _ => None }) else { continue };
        let v: Vec<TokenTree> = def.mac.tokens.clone().into_iter().collect();
        let input: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
        for rule in v.split(|t| is_punct(t, ';')) {
            let [TokenTree::Group(p), .., TokenTree::Group(body)] = rule else { continue };
            let Some(pat) = parse_pat(p.stream()) else { continue };
            let mut b = Binds::new();
            if matches(&pat, &input, &mut b) != Some(input.len()) { continue; }
            if let Some(t) = transcribe(body.stream(), &b) {
                out.push_str(&literals(t).to_string());
                out.push('\n');
            }
            break;
        }
    }
    out
}
