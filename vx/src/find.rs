use std::collections::BTreeMap;
use std::path::Path;
use syn::spanned::Spanned;

pub struct Sources {
    pub files: BTreeMap<String, (String, syn::File)>,
    pub unparsable: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub file: String,
    pub line: usize,
    pub text: String,
    /// self type (last path segment) if a method
    pub self_ty: Option<String>,
    pub trait_name: Option<String>,
    pub in_trait_decl: bool,
    pub impl_generics: String,
}

pub fn last_seg(p: &str) -> &str {
    p.rsplit("::").next().unwrap().trim().split_whitespace().last().unwrap()
}

pub fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && matches!(&a.meta, syn::Meta::List(l) if l.tokens.to_string().replace(' ', "") == "test")
            || a.path().is_ident("test")
    })
}

pub fn ty_last(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        syn::Type::Reference(r) => ty_last(&r.elem),
        syn::Type::Paren(r) => ty_last(&r.elem),
        syn::Type::Group(r) => ty_last(&r.elem),
        _ => None,
    }
}

impl Sources {
    pub fn load(root: &Path) -> Self {
        let mut files = BTreeMap::new();
        let mut unparsable = vec![];
        fn walk(d: &Path, root: &Path, files: &mut BTreeMap<String, (String, syn::File)>, un: &mut Vec<String>) {
            let mut es: Vec<_> = match std::fs::read_dir(d) { Ok(r) => r.flatten().collect(), Err(_) => return };
            es.sort_by_key(|e| e.path());
            for e in es {
                let p = e.path();
                if p.is_dir() { walk(&p, root, files, un); }
                else if p.extension().map_or(false, |x| x == "rs") {
                    let t = match std::fs::read_to_string(&p) { Ok(t) => t, Err(_) => continue };
                    // byte offsets: syn keeps them relative to the string it parses
                    let name = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
                    match syn::parse_file(&t) {
                        Ok(f) => {
                            let x = crate::expand::expand(&f);
                            let t2 = format!("{t}\n{x}");
                            match syn::parse_file(&t2) {
                                Ok(f2) if !x.is_empty() => { files.insert(name, (t2, f2)); }
                                _ => { files.insert(name, (t, f)); }
                            }
                        }
                        Err(e) => un.push(format!("{name}: {e}")),
                    }
                }
            }
        }
        walk(&root.join("src"), root, &mut files, &mut unparsable);
        Sources { files, unparsable }
    }
    /// the crate after macro expansion, as file `expanded`: what serde's derives generate
    pub fn add_expanded(&mut self, path: &str) {
        let t = match std::fs::read_to_string(path) { Ok(t) => normalize_derive(&t), Err(e) => { self.unparsable.push(format!("expanded: {e}")); return } };
        match syn::parse_file(&t) {
            Ok(f) => { self.files.insert("expanded".into(), (t, f)); }
            Err(e) => self.unparsable.push(format!("expanded: {e}")),
        }
    }
    /// a struct or enum declared anywhere inside the expanded code of `ctx` ("Trait for Type")
    pub fn find_local(&self, ctx: &str, name: &str) -> Option<(String, syn::Item)> {
        let (t, a) = self.files.get("expanded")?;
        let mut v = Nested { ctx: vec![], want_ctx: ctx.into(), want: name.into(), fns: vec![], item: None };
        syn::visit::Visit::visit_file(&mut v, a);
        v.item.map(|i| (t.clone(), i))
    }

    fn order<'a>(&'a self, file: &str) -> Vec<&'a String> {
        let mut v: Vec<&String> = self.files.keys().filter(|k| *k == file).collect();
        v.extend(self.files.keys().filter(|k| *k != file && *k != "expanded"));
        v
    }

    pub fn find_fn(&self, file: &str, path: &str) -> Option<Found> {
        // other files only for functions that moved: language modules share names, so stay in file there
        if file == "expanded" {
            let (txt, ast) = self.files.get(file)?;
            let (inner, n) = path.strip_prefix('<')?.rsplit_once(">::")?;
            let (head, ctx) = inner.split_once(" in ").unwrap_or((inner, ""));
            let mut v = Nested { ctx: vec![], want_ctx: ctx.into(), want: head.into(), fns: vec![], item: None };
            syn::visit::Visit::visit_file(&mut v, ast);
            let f = v.fns.into_iter().find(|f| f.sig.ident == n)?;
            let (tr, ty) = head.split_once(" for ")?;
            return Some(Found { file: file.into(), line: f.sig.span().start().line, text: txt[f.span().byte_range()].into(), self_ty: Some(ty.into()), trait_name: Some(tr.into()), in_trait_decl: false, impl_generics: String::new() });
        }
        let strict = file.contains("lang/") && !file.ends_with("en.rs") && !file.ends_with("common.rs") && !file.ends_with("mod.rs");
        for f in self.order(file) {
            if strict && f != file { continue; }
            if f != file && f.contains("lang/") && !f.ends_with("common.rs") && !f.ends_with("lang/mod.rs") && !f.ends_with("lang/en.rs") { continue; }
            let (txt, ast) = &self.files[f];
            if let Some(r) = find_in(&ast.items, txt, f, path) { return Some(r); }
        }
        None
    }

    /// the position of a field or variant in its declaration
    pub fn position(&self, file: &str, ty: &str, name: &str) -> Option<usize> {
        if let Some((_, s)) = self.find_struct(file, ty) { return s.fields.iter().position(|f| f.ident.as_ref().map_or(false, |i| i == name)); }
        if let Some((_, syn::Item::Enum(e))) = self.find_enum(file, ty) { return e.variants.iter().position(|v| v.ident == name); }
        None
    }
    pub fn find_struct(&self, file: &str, name: &str) -> Option<(String, syn::ItemStruct)> {
        fn rec(items: &[syn::Item], name: &str) -> Option<syn::ItemStruct> {
            for i in items {
                match i {
                    syn::Item::Struct(s) if s.ident == name => return Some(s.clone()),
                    syn::Item::Mod(m) if !is_test(&m.attrs) => if let Some((_, it)) = &m.content { if let Some(r) = rec(it, name) { return Some(r) } },
                    _ => {}
                }
            }
            None
        }
        for f in self.order(file) {
            let (t, a) = &self.files[f];
            if let Some(s) = rec(&a.items, name) { return Some((t.clone(), s)); }
        }
        None
    }

    pub fn find_enum(&self, file: &str, name: &str) -> Option<(String, syn::Item)> {
        fn rec(items: &[syn::Item], name: &str) -> Option<syn::Item> {
            for i in items {
                match i {
                    syn::Item::Enum(s) if s.ident == name => return Some(i.clone()),
                    syn::Item::Mod(m) if !is_test(&m.attrs) => if let Some((_, it)) = &m.content { if let Some(r) = rec(it, name) { return Some(r) } },
                    _ => {}
                }
            }
            None
        }
        self.order(file).into_iter().find_map(|f| rec(&self.files[f].1.items, name).map(|s| (self.files[f].0.clone(), s)))
    }

    /// the expansion of `#[derive(Default)]`: every field is `Default::default()`
    pub fn derived_default(&self, file: &str, name: &str) -> Option<Found> {
        let (_, s) = self.find_struct(file, name)?;
        let has = s.attrs.iter().any(|a| a.path().is_ident("derive") && matches!(&a.meta, syn::Meta::List(l) if l.tokens.to_string().split(',').any(|x| x.trim().rsplit("::").next().unwrap().trim() == "Default")));
        if !has { return None; }
        let fs: Vec<String> = match &s.fields {
            syn::Fields::Named(n) => n.named.iter().map(|f| format!("{}: Default::default()", f.ident.as_ref().unwrap())).collect(),
            _ => return None,
        };
        Some(Found { file: file.into(), line: s.ident.span().start().line, text: format!("fn default() -> Self {{ {} {{ {} }} }}", name, fs.join(", ")),
            self_ty: Some(name.into()), trait_name: Some("Default".into()), in_trait_decl: false, impl_generics: String::new() })
    }

    pub fn find_const(&self, file: &str, name: &str) -> Option<String> {
        let (t, a) = self.files.get(file)?;
        for i in &a.items {
            match i {
                syn::Item::Const(c) if c.ident == name => {
                    return Some(format!("pub const {}: {} = {};", name, &t[c.ty.span().byte_range()], &t[c.expr.span().byte_range()]));
                }
                syn::Item::Static(c) if c.ident == name => {
                    return Some(format!("pub const {}: {} = {};", name, &t[c.ty.span().byte_range()], &t[c.expr.span().byte_range()]));
                }
                _ => {}
            }
        }
        None
    }

    pub fn find_strlist(&self, file: &str, name: &str) -> Option<Vec<String>> {
        let (_, a) = self.files.get(file)?;
        for i in &a.items {
            let e = match i {
                syn::Item::Const(c) if c.ident == name => &c.expr,
                syn::Item::Static(c) if c.ident == name => &c.expr,
                _ => continue,
            };
            let mut e: &syn::Expr = e;
            loop {
                match e {
                    syn::Expr::Reference(r) => e = &r.expr,
                    syn::Expr::Paren(r) => e = &r.expr,
                    _ => break,
                }
            }
            if let syn::Expr::Array(arr) = e {
                let mut v = vec![];
                for x in &arr.elems {
                    if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = x { v.push(s.value()) } else { return None }
                }
                return Some(v);
            }
        }
        None
    }
}

fn find_in(items: &[syn::Item], txt: &str, file: &str, path: &str) -> Option<Found> {
    let (want_ty, want_trait, decl, name): (Option<String>, Option<String>, bool, String) = if let Some(r) = path.strip_prefix('<') {
        let (inner, n) = r.rsplit_once(">::").unwrap();
        let (tr, ty) = inner.split_once(" for ").unwrap();
        (Some(ty.trim().into()), Some(tr.trim().into()), false, n.into())
    } else if let Some(r) = path.strip_prefix("trait ") {
        let (t, n) = r.rsplit_once("::").unwrap();
        (Some(t.trim().into()), None, true, n.into())
    } else if let Some((t, n)) = path.rsplit_once("::") {
        (Some(t.into()), None, false, n.into())
    } else { (None, None, false, path.into()) };
    for i in items {
        match i {
            syn::Item::Fn(f) if want_ty.is_none() && f.sig.ident == name && !is_test(&f.attrs) => {
                let r = f.span().byte_range();
                return Some(Found { file: file.into(), line: f.sig.span().start().line, text: txt[r].into(), self_ty: None, trait_name: None, in_trait_decl: false, impl_generics: String::new() });
            }
            syn::Item::Impl(im) if want_ty.is_some() && !decl && !is_test(&im.attrs) => {
                let ty = ty_last(&im.self_ty);
                let tr = im.trait_.as_ref().and_then(|t| t.1.segments.last().map(|s| s.ident.to_string()));
                if ty != want_ty || tr != want_trait { continue; }
                for it in &im.items {
                    if let syn::ImplItem::Fn(f) = it {
                        if f.sig.ident == name {
                            return Some(Found { file: file.into(), line: f.sig.span().start().line, text: txt[f.span().byte_range()].into(), self_ty: ty, trait_name: tr, in_trait_decl: false, impl_generics: String::new() });
                        }
                    }
                }
            }
            syn::Item::Trait(t) if decl && Some(t.ident.to_string()) == want_ty => {
                for it in &t.items {
                    if let syn::TraitItem::Fn(f) = it {
                        if f.sig.ident == name {
                            return Some(Found { file: file.into(), line: f.sig.span().start().line, text: txt[f.span().byte_range()].into(), self_ty: want_ty.clone(), trait_name: None, in_trait_decl: true, impl_generics: String::new() });
                        }
                    }
                }
            }
            syn::Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, it)) = &m.content {
                    if let Some(r) = find_in(it, txt, file, path) { return Some(r); }
                }
            }
            _ => {}
        }
    }
    None
}

/// finds impls ("Trait for Type") and items by name inside the innermost enclosing impl `want_ctx`
struct Nested { ctx: Vec<String>, want_ctx: String, want: String, fns: Vec<syn::ImplItemFn>, item: Option<syn::Item> }
impl<'ast> syn::visit::Visit<'ast> for Nested {
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) { if !is_test(&m.attrs) { syn::visit::visit_item_mod(self, m) } }
    fn visit_item_impl(&mut self, im: &'ast syn::ItemImpl) {
        let ty = ty_last(&im.self_ty).unwrap_or_default();
        let name = match im.trait_.as_ref().and_then(|t| t.1.segments.last().map(|s| s.ident.to_string())) { Some(t) => format!("{t} for {ty}"), None => ty };
        if name == self.want && (self.want_ctx.is_empty() && self.ctx.is_empty() || self.ctx.contains(&self.want_ctx)) && self.fns.is_empty() {
            for it in &im.items { if let syn::ImplItem::Fn(f) = it { self.fns.push(f.clone()); } }
        }
        self.ctx.push(name);
        syn::visit::visit_item_impl(self, im);
        self.ctx.pop();
    }
    fn visit_item(&mut self, i: &'ast syn::Item) {
        let n = match i { syn::Item::Struct(s) => Some(&s.ident), syn::Item::Enum(s) => Some(&s.ident), _ => None };
        if n.map_or(false, |n| *n == self.want) && (if self.want_ctx.is_empty() { self.ctx.is_empty() } else { self.ctx.contains(&self.want_ctx) }) && self.item.is_none() { self.item = Some(i.clone()); }
        syn::visit::visit_item(self, i);
    }
}

/// paths of derive output: `_serde::__privateN::de::x`, `_serde::ser::X`, ... => `x`, `X`
fn normalize_derive(t: &str) -> String {
    let mut o = String::with_capacity(t.len());
    let mut r = t;
    while let Some(i) = r.find("_serde::") {
        o.push_str(&r[..i]);
        r = &r[i + 8..];
        if let Some(q) = r.strip_prefix("__private") { r = q.trim_start_matches(|c: char| c.is_ascii_digit()).strip_prefix("::").unwrap_or(q); }
        for m in ["ser::", "de::"] { if let Some(q) = r.strip_prefix(m) { r = q; } }
    }
    o.push_str(r);
    o
}

/// the types of the fields, in the order of their text, without the paths before their names
pub fn field_types(s: &syn::ItemStruct) -> Vec<String> {
    let mut v: Vec<String> = s.fields.iter().map(|f| quote_ty(&f.ty)).collect();
    v.sort();
    v
}
fn quote_ty(t: &syn::Type) -> String {
    use quote::ToTokens;
    let mut out = String::new();
    let txt: String = t.to_token_stream().to_string().split_whitespace().collect();
    // `a::b::C` is `C`
    let mut word = String::new();
    let mut cs = txt.chars().peekable();
    while let Some(c) = cs.next() {
        if c.is_alphanumeric() || c == '_' { word.push(c); continue; }
        if c == ':' && cs.peek() == Some(&':') { cs.next(); word.clear(); continue; }
        out.push_str(&word);
        word.clear();
        out.push(c);
    }
    out + &word
}
