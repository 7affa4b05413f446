//! All items of the crate, by file.
use std::collections::BTreeMap;
use std::path::Path;
use syn::*;

#[derive(Clone)]
pub struct Func {
    /// `trace.rs::Tracer::trace_relation`
    pub id: String,
    pub file: String,
    pub name: String,
    pub self_ty: Option<Box<Type>>,
    pub ty_name: Option<String>,
    pub trait_name: Option<String>,
    pub impl_generics: Option<Generics>,
    pub sig: Signature,
    pub body: Option<Block>,
}

#[derive(Default)]
pub struct Table {
    pub funcs: BTreeMap<String, Func>,
    pub types: BTreeMap<String, (String, Item)>, // name -> file, item
    pub consts: BTreeMap<String, (String, Item)>,
    /// regular expressions in statics: (file, name) -> pattern
    pub regexes: BTreeMap<(String, String), String>,
    /// `Type::Trait` -> file for every impl of a trait
    pub impls: BTreeMap<String, String>,
}

pub fn ty_name(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Type::Reference(r) => ty_name(&r.elem),
        _ => None,
    }
}

/// The pattern of the one `Regex::new("..")` in the expression
fn regex_of(e: &Expr) -> Option<String> {
    #[derive(Default)]
    struct V(Vec<Option<String>>);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if quote::quote!(#c).to_string().replace(' ', "").starts_with("Regex::new(") || quote::quote!(#c).to_string().replace(' ', "").starts_with("regex::Regex::new(") {
                self.0.push(match c.args.first() {
                    Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) if c.args.len() == 1 => Some(s.value()),
                    _ => None,
                });
            }
            visit::visit_expr_call(self, c);
        }
    }
    let mut v = V::default();
    visit::Visit::visit_expr(&mut v, e);
    match &v.0[..] {
        [Some(s)] => Some(s.clone()),
        _ => None,
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string().replace(' ', "");
        s == "#[cfg(test)]" || s == "#[test]"
    })
}

/// Names brought into scope by `use`: variants of enums (`use State::*` is not resolved) and renamed items
#[derive(Default, Clone)]
struct Aliases(BTreeMap<String, Vec<String>>);
impl Aliases {
    fn tree(&mut self, pre: &mut Vec<String>, t: &UseTree) {
        match t {
            UseTree::Path(p) => {
                pre.push(p.ident.to_string());
                self.tree(pre, &p.tree);
                pre.pop();
            }
            UseTree::Group(g) => g.items.iter().for_each(|t| self.tree(pre, t)),
            UseTree::Name(n) => {
                let upper = pre.last().and_then(|p| p.chars().next()).is_some_and(char::is_uppercase);
                if upper {
                    self.0.insert(n.ident.to_string(), vec![pre.last().unwrap().clone(), n.ident.to_string()]);
                }
            }
            UseTree::Rename(r) => {
                let upper = pre.last().and_then(|p| p.chars().next()).is_some_and(char::is_uppercase);
                if upper {
                    self.0.insert(r.rename.to_string(), vec![pre.last().unwrap().clone(), r.ident.to_string()]);
                } else if r.rename != "_" {
                    self.0.insert(r.rename.to_string(), vec![r.ident.to_string()]);
                }
            }
            UseTree::Glob(_) => {}
        }
    }
}
impl visit_mut::VisitMut for Aliases {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.leading_colon.is_none() {
            if let Some(full) = self.0.get(&p.segments[0].ident.to_string()) {
                let sp = p.segments[0].ident.span();
                p.segments[0].ident = Ident::new(full.last().unwrap(), sp);
                for f in full.iter().rev().skip(1) {
                    p.segments.insert(0, PathSegment::from(Ident::new(f, sp)));
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(i) = p {
            if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() {
                if let Some(full) = self.0.get(&i.ident.to_string()) {
                    if full.len() > 1 {
                        let x = full.join("::");
                        *p = Pat::Path(parse_str::<ExprPath>(&x).unwrap());
                        return;
                    }
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // arguments of macros: identifiers that are not part of a longer path
        fn walk(a: &Aliases, ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
            use proc_macro2::TokenTree;
            let v: Vec<TokenTree> = ts.into_iter().collect();
            let mut out: Vec<TokenTree> = Vec::new();
            for (i, t) in v.iter().enumerate() {
                match t {
                    TokenTree::Group(g) => out.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), walk(a, g.stream())))),
                    TokenTree::Ident(id) => {
                        let bound = i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '.' || p.as_char() == ':');
                        match a.0.get(&id.to_string()) {
                            Some(full) if !bound => out.extend(full.join("::").parse::<proc_macro2::TokenStream>().unwrap()),
                            _ => out.push(t.clone()),
                        }
                    }
                    t => out.push(t.clone()),
                }
            }
            out.into_iter().collect()
        }
        m.tokens = walk(self, m.tokens.clone());
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let save = self.clone();
        for s in &b.stmts {
            if let Stmt::Item(Item::Use(u)) = s {
                self.tree(&mut vec![], &u.tree);
            }
        }
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        visit_mut::visit_block_mut(self, b);
        *self = save;
    }
}

/// Different spellings of a regular expression with the same meaning: the names of groups do not count; where it is only
/// asked whether there is a match (`whole` is false), groups and repetitions at the end do not count either.
fn meaning(pattern: &str, whole: bool) -> Option<String> {
    use regex_syntax::hir::{Hir, HirKind};
    fn norm(h: &Hir, whole: bool) -> Hir {
        match h.kind() {
            HirKind::Capture(c) if whole => Hir::capture(regex_syntax::hir::Capture { index: c.index, name: None, sub: Box::new(norm(&c.sub, whole)) }),
            HirKind::Capture(c) => norm(&c.sub, whole),
            HirKind::Concat(v) => Hir::concat(v.iter().map(|h| norm(h, whole)).collect()),
            HirKind::Alternation(v) => Hir::alternation(v.iter().map(|h| norm(h, whole)).collect()),
            HirKind::Repetition(r) => Hir::repetition(regex_syntax::hir::Repetition { min: r.min, max: r.max, greedy: r.greedy || !whole, sub: Box::new(norm(&r.sub, whole)) }),
            _ => h.clone(),
        }
    }
    /// without what may be missing at the end
    fn cut(h: Hir) -> Hir {
        match h.kind() {
            HirKind::Concat(v) => {
                let mut v = v.clone();
                let last = cut(v.pop().unwrap());
                let empty = matches!(last.kind(), HirKind::Empty);
                if !empty {
                    v.push(last);
                }
                let n = Hir::concat(v);
                if empty { cut(n) } else { n }
            }
            HirKind::Repetition(r) => match r.min {
                0 => Hir::empty(),
                1 => cut((*r.sub).clone()),
                n => Hir::repetition(regex_syntax::hir::Repetition { min: n, max: Some(n), greedy: true, sub: r.sub.clone() }),
            },
            _ => h,
        }
    }
    let h = norm(&regex_syntax::parse(pattern).ok()?, whole);
    Some(format!("{:?}", if whole { h } else { cut(h) }))
}

impl Table {
    /// Patterns which mean the same as one of the contracts' are given as those (the patterns of `asked` are only asked for a match).
    pub fn respell(&mut self, known: &[String], asked: &[String]) {
        for r in self.regexes.values_mut().filter(|r| !known.contains(r) && !asked.contains(r)) {
            let same = |k: &&String, whole| meaning(k, whole).is_some() && meaning(k, whole) == meaning(r, whole);
            if let Some(k) = known.iter().find(|k| same(k, true)).or_else(|| asked.iter().find(|k| same(k, false))) {
                *r = k.clone();
            }
        }
    }
    pub fn load(src: &Path) -> std::result::Result<Self, String> {
        let mut t = Table::default();
        t.dir(src, "")?;
        Ok(t)
    }
    fn dir(&mut self, dir: &Path, prefix: &str) -> std::result::Result<(), String> {
        let mut entries: Vec<_> = std::fs::read_dir(dir).map_err(|e| e.to_string())?.flatten().collect();
        entries.sort_by_key(|e| e.file_name());
        for e in entries {
            let n = e.file_name().to_string_lossy().to_string();
            if e.path().is_dir() {
                self.dir(&e.path(), &format!("{prefix}{n}/"))?;
            } else if n.ends_with(".rs") {
                let text = std::fs::read_to_string(e.path()).map_err(|e| e.to_string())?;
                let file = parse_file(&text).map_err(|err| format!("{prefix}{n}: {err}"))?;
                self.items(&format!("{prefix}{n}"), file.items);
            }
        }
        Ok(())
    }
    fn items(&mut self, file: &str, items: Vec<Item>) {
        let mut names = Aliases::default();
        for it in &items {
            if let Item::Use(u) = it {
                names.tree(&mut vec![], &u.tree);
            }
        }
        for mut it in items {
            if matches!(it, Item::Fn(_) | Item::Impl(_)) {
                visit_mut::VisitMut::visit_item_mut(&mut names, &mut it);
            }
            match it {
                Item::Fn(f) => {
                    if is_test(&f.attrs) {
                        continue;
                    }
                    let id = format!("{file}::{}", f.sig.ident);
                    self.funcs.insert(
                        id.clone(),
                        Func {
                            id,
                            file: file.into(),
                            name: f.sig.ident.to_string(),
                            self_ty: None,
                            ty_name: None,
                            trait_name: None,
                            impl_generics: None,
                            sig: f.sig,
                            body: Some(*f.block),
                        },
                    );
                }
                Item::Impl(im) => {
                    if is_test(&im.attrs) {
                        continue;
                    }
                    let tn = ty_name(&im.self_ty).unwrap_or_default();
                    let mut tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    if let Some(tr) = &tr {
                        self.impls.insert(format!("{tn}::{tr}"), file.into());
                    }
                    // `From` may be implemented for several types: From<str> for RequirementId
                    if let (Some("From"), Some((_, p, _))) = (tr.as_deref(), &im.trait_) {
                        if let PathArguments::AngleBracketed(a) = &p.segments.last().unwrap().arguments {
                            if let Some(GenericArgument::Type(t)) = a.args.first() {
                                tr = Some(format!("From<{}>", ty_name(t).unwrap_or_default()));
                            }
                        }
                    }
                    for ii in im.items {
                        if let ImplItem::Fn(f) = ii {
                            let id = match &tr {
                                Some(tr) => format!("{file}::{tn}::{tr}::{}", f.sig.ident),
                                None => format!("{file}::{tn}::{}", f.sig.ident),
                            };
                            self.funcs.insert(
                                id.clone(),
                                Func {
                                    id,
                                    file: file.into(),
                                    name: f.sig.ident.to_string(),
                                    self_ty: Some(im.self_ty.clone()),
                                    ty_name: Some(tn.clone()),
                                    trait_name: tr.clone(),
                                    impl_generics: Some(im.generics.clone()),
                                    sig: f.sig,
                                    body: Some(f.block),
                                },
                            );
                        }
                    }
                }
                Item::Struct(ref s) => {
                    self.types.insert(s.ident.to_string(), (file.into(), it));
                }
                Item::Enum(ref s) => {
                    self.types.insert(s.ident.to_string(), (file.into(), it));
                }
                Item::Const(ref s) => {
                    self.consts.insert(s.ident.to_string(), (file.into(), it));
                }
                Item::Macro(ref m) if m.mac.path.segments.last().map(|s| s.ident == "lazy_static").unwrap_or(false) => {
                    let p = |i: parse::ParseStream| {
                        let mut v = Vec::new();
                        while !i.is_empty() {
                            let _ = i.call(Attribute::parse_outer)?;
                            let _: Visibility = i.parse()?;
                            let _: Token![static] = i.parse()?;
                            let _: Token![ref] = i.parse()?;
                            let n: Ident = i.parse()?;
                            let _: Token![:] = i.parse()?;
                            let _: Type = i.parse()?;
                            let _: Token![=] = i.parse()?;
                            let e: Expr = i.parse()?;
                            let _: Token![;] = i.parse()?;
                            v.push((n.to_string(), e));
                        }
                        Ok(v)
                    };
                    if let Ok(v) = parse::Parser::parse2(p, m.mac.tokens.clone()) {
                        for (n, e) in v {
                            if let Some(r) = regex_of(&e) {
                                self.regexes.insert((file.into(), n), r);
                            }
                        }
                    }
                }
                Item::Static(ref s) => {
                    if let Some(r) = regex_of(&s.expr) {
                        self.regexes.insert((file.into(), s.ident.to_string()), r);
                    }
                    self.consts.insert(s.ident.to_string(), (file.into(), it));
                }
                Item::Mod(m) => {
                    if is_test(&m.attrs) {
                        continue;
                    }
                    if let Some((_, items)) = m.content {
                        self.items(file, items);
                    }
                }
                _ => {}
            }
        }
    }
}
