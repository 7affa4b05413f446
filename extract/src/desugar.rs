//! Mechanical rewriting of the bodies of extracted functions into the subset of Rust that the
//! verifier accepts. Every rule is listed in DESIGN.md.
use proc_macro2::{TokenStream as TokenStream2, TokenTree as TokenTree2};
use crate::table::{ty_name, Func, Table};
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit::{self, Visit};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct D<'a> {
    pub table: &'a Table,
    pub known: &'a BTreeSet<String>, // ids of functions with a contract (or an assumed one)
    pub file: String,
    pub self_ty: Option<String>,
    pub uid: usize,
    pub unsupported: Vec<String>,
    pub inlined: Vec<String>,
    pub dropped: BTreeMap<String, usize>,
    pub rules: BTreeMap<String, usize>,
    pub loops: BTreeMap<usize, (String, String)>, // uid -> kind, source text
    pub depth: usize,
    pub try_items: bool, // the items of the chain that is collected are operands of `?`
    pub try_ctx: bool, // the expression is the operand of `?` or leaves the function
    pub let_ty: Option<Type>, // annotated type of the let whose initialiser is being rewritten
}

const MODS: &[&str] = &[
    "crate", "self", "super", "models", "trace", "aggregator", "controller", "formatters", "parsers", "util", "reqtrace",
];
const DROP_MACROS: &[&str] = &["requirement_covered", "eprintln", "debug_assert", "debug_assert_eq", "debug_assert_ne", "dbg"];
const ITER_SOURCES: &[&str] = &[
    "iter", "iter_mut", "into_iter", "values", "keys", "lines", "split", "chars", "enumerate", "zip", "rev", "chain",
    "into_values", "into_keys", "split_whitespace", "drain", "skip", "take", "peekable", "cloned", "copied",
];
const ADAPTERS: &[&str] = &["map", "filter", "flat_map", "filter_map", "inspect", "cloned", "copied"];
const TERMINALS: &[&str] = &[
    "collect", "any", "all", "find", "position", "unzip", "for_each", "count", "find_map",
];

pub fn txt<T: ToTokens>(t: &T) -> String {
    crate::print::print_inline(t.to_token_stream())
}

struct Chain {
    src: Expr,
    ads: Vec<(String, Option<Expr>)>,
}

fn path1(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            return Some(p.path.segments[0].ident.to_string());
        }
    }
    None
}

fn strip_parens(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_parens(&p.expr),
        Expr::Group(p) => strip_parens(&p.expr),
        _ => e,
    }
}

/// a place or a borrow of a place, without side effects
fn is_simple(e: &Expr) -> bool {
    match strip_parens(e) {
        Expr::Path(_) => true,
        Expr::Lit(_) => true,
        Expr::Field(f) => is_simple(&f.base),
        Expr::Reference(r) => is_simple(&r.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_simple(&u.expr),
        _ => false,
    }
}

#[derive(Default)]
pub struct Bound(pub Vec<String>);
impl<'ast> Visit<'ast> for Bound {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        let s = p.ident.to_string();
        if p.subpat.is_some() || !s.chars().next().unwrap().is_uppercase() {
            self.0.push(s);
        }
        visit::visit_pat_ident(self, p);
    }
}
pub fn bound_in_pat(p: &Pat) -> Vec<String> {
    let mut b = Bound::default();
    b.visit_pat(p);
    b.0
}

/// is the name captured by a format string of a macro (`"{name}"`)?
fn captured(b: &Block, name: &str) -> bool {
    let t = quote!(#b).to_string();
    t.contains(&format!("{{{name}}}")) || t.contains(&format!("{{{name}:"))
}

/// captured by a format string with a format specification
fn captured_with(b: &Block, name: &str) -> bool {
    quote!(#b).to_string().contains(&format!("{{{name}:"))
}

struct Idents(BTreeSet<String>);
impl<'ast> Visit<'ast> for Idents {
    fn visit_ident(&mut self, i: &'ast Ident) {
        self.0.insert(i.to_string());
    }
}

#[derive(Default)]
struct Flow {
    ret: bool,
    try_: bool,
    brk: bool,
}
impl<'ast> Visit<'ast> for Flow {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Return(_) => self.ret = true,
            Expr::Try(_) => self.try_ = true,
            Expr::Break(_) | Expr::Continue(_) => self.brk = true,
            Expr::Closure(_) => return,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}
fn flow<T: Fn(&mut Flow)>(f: T) -> Flow {
    let mut fl = Flow::default();
    f(&mut fl);
    fl
}

/// `Self` of an inlined function is the type it belongs to
struct SelfTy<'a>(&'a str);
impl VisitMut for SelfTy<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.leading_colon.is_none() && p.segments[0].ident == "Self" {
            p.segments[0].ident = format_ident!("{}", self.0);
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// Replace uses of identifiers by expressions
struct Subst<'a>(&'a BTreeMap<String, Expr>);
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = path1(e) {
            if let Some(x) = self.0.get(&n) {
                *e = if matches!(x, Expr::Path(_) | Expr::Lit(_)) { x.clone() } else { parse_quote!((#x)) };
                return;
            }
        }
        // place `self` and struct shorthand
        if let Expr::Struct(s) = e {
            for f in s.fields.iter_mut() {
                if f.colon_token.is_none() {
                    if let Some(n) = path1(&f.expr) {
                        if self.0.contains_key(&n) {
                            f.colon_token = Some(Default::default());
                        }
                    }
                }
            }
        }
        // (&mut x).f  ->  x.f   and   (&x).f -> x.f
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Macro(m) = e {
            m.mac.tokens = self.tokens(m.mac.tokens.clone());
        }
        simplify_ref(e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Macro(m) = s {
            m.mac.tokens = self.tokens(m.mac.tokens.clone());
        }
    }
}
impl Subst<'_> {
    fn tokens(&self, ts: TokenStream) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out = Vec::new();
        for (i, t) in v.iter().enumerate() {
            match t {
                TokenTree::Group(g) => out.push(TokenTree::Group(proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream())))),
                TokenTree::Literal(l) => {
                    // a captured parameter that stands for a text
                    let mut l = l.clone();
                    if let Ok(t) = parse_str::<syn::LitStr>(&l.to_string()) {
                        let mut v = t.value();
                        for (n, x) in self.0 {
                            if let Some(y) = str_of(x) {
                                v = v.replace(&format!("{{{n}}}"), &y);
                            }
                        }
                        if v != t.value() {
                            l = proc_macro2::Literal::string(&v);
                        }
                    }
                    out.push(TokenTree::Literal(l));
                }
                TokenTree::Ident(id) => {
                    let after_dot = i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '.');
                    match self.0.get(&id.to_string()) {
                        Some(e) if !after_dot => out.push(TokenTree::Group(proc_macro2::Group::new(
                            proc_macro2::Delimiter::Parenthesis,
                            e.to_token_stream(),
                        ))),
                        _ => out.push(t.clone()),
                    }
                }
                _ => out.push(t.clone()),
            }
        }
        out.into_iter().collect()
    }
}
fn simplify_ref(e: &mut Expr) {
    fn inner(x: &Expr) -> Option<Expr> {
        if let Expr::Reference(r) = strip_parens(x) {
            return Some((*r.expr).clone());
        }
        None
    }
    match e {
        Expr::Field(f) => {
            if let Some(x) = inner(&f.base) {
                *f.base = x;
            }
        }
        Expr::MethodCall(m) => {
            if matches!(strip_parens(&m.receiver), Expr::Reference(_)) && m.method != "into_iter" && m.method != "clone" {
                if let Some(x) = inner(&m.receiver) {
                    if matches!(strip_parens(&x), Expr::Path(_) | Expr::Field(_)) {
                        *m.receiver = x;
                    }
                }
            }
        }
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
            if let Some(x) = inner(&u.expr) {
                *e = x;
            }
        }
        Expr::Index(i) => {
            if let Some(x) = inner(&i.expr) {
                *i.expr = x;
            }
        }
        // &mut *x  of a place that is itself a reference stays
        _ => {}
    }
}

/// Rename identifiers everywhere
pub struct Rename<'a>(pub &'a BTreeMap<String, String>);
impl VisitMut for Rename<'_> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = Ident::new(n, i.span());
        }
    }
}

impl<'a> D<'a> {
    fn rule(&mut self, r: &str) {
        *self.rules.entry(r.into()).or_default() += 1;
    }
    fn unsup(&mut self, s: impl Into<String>) {
        self.unsupported.push(s.into());
    }
    fn new_uid(&mut self) -> usize {
        self.uid += 1;
        self.uid
    }

    // ---------------------------------------------------------------- blocks
    pub fn block(&mut self, b: &mut Block) {
        let stmts = self.lazy_chains(std::mem::take(&mut b.stmts));
        let n = stmts.len();
        let mut out: Vec<Stmt> = Vec::new();
        for (i, s) in stmts.into_iter().enumerate() {
            self.stmt(s, i + 1 == n, &mut out);
        }
        b.stmts = out;
    }

    /// `let it = places.iter().map(..); .. for x in it`: an iterator chain is lazy, so it is moved to its only use
    fn lazy_chains(&mut self, mut stmts: Vec<Stmt>) -> Vec<Stmt> {
        let mut i = 0;
        while i < stmts.len() {
            if let Stmt::Local(l) = &stmts[i] {
                let name = match &l.pat {
                    Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() => Some(p.ident.to_string()),
                    _ => None,
                };
                let init = l.init.as_ref().filter(|x| x.diverge.is_none()).map(|x| (*x.expr).clone());
                if let (Some(name), Some(init)) = (name, init) {
                    let lazy = match as_chain(&init) {
                        Some(c) if is_iter_chain(&c) => match strip_parens(&c.src) {
                            Expr::MethodCall(m) => is_simple(&m.receiver) && m.args.is_empty(),
                            _ => false,
                        },
                        _ => false,
                    };
                    let rest: TokenStream2 = stmts[i + 1..].iter().map(|s| quote!(#s)).collect();
                    if lazy && count_ident(rest.clone(), &name) == 1 && !rest.to_string().contains(&format!("{{{name}")) {
                        self.rule("let-bound iterator chain moved to its use");
                        stmts.remove(i);
                        let map = BTreeMap::from([(name, init)]);
                        for s in stmts[i..].iter_mut() {
                            Subst(&map).visit_stmt_mut(s);
                        }
                        continue;
                    }
                }
            }
            i += 1;
        }
        stmts
    }

    fn stmt(&mut self, s: Stmt, _last: bool, out: &mut Vec<Stmt>) {
        match s {
            Stmt::Item(i) => {
                match i {
                    Item::Use(_) => {}
                    Item::Const(_) => out.push(Stmt::Item(i)),
                    _ => self.unsup("nested item"),
                }
            }
            Stmt::Macro(m) => {
                if self.is_dropped(&m.mac) {
                    for a in log_args(&m.mac) {
                        self.rule("argument of a log message that can panic or change something is kept");
                        self.stmt(parse_quote!(let _logged = #a;), false, out);
                    }
                    return;
                }
                if m.mac.path.is_ident("__vcg") || m.mac.path.is_ident("__vcinv") {
                    out.push(Stmt::Macro(m));
                    return;
                }
                let mut semi = m.semi_token.is_some();
                let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac });
                self.expr(&mut e);
                if let Expr::Call(c) = &mut e {
                    if semi && txt(&c.func) == "vpanic" {
                        if _last {
                            semi = false; // the block has the type that is expected of it
                        } else {
                            *c.func = parse_quote!(vpanic::<()>);
                        }
                    }
                }
                out.push(Stmt::Expr(e, if semi { Some(Default::default()) } else { None }));
            }
            Stmt::Expr(mut e, semi) => {
                self.expr(&mut e);
                if let Expr::Block(b) = &e {
                    if b.label.is_none() && b.block.stmts.is_empty() && !_last {
                        return;
                    }
                }
                let semi = match (&e, semi) {
                    // a block that is a statement
                    (_, s) => s,
                };
                out.push(Stmt::Expr(e, semi));
            }
            Stmt::Local(mut l) => {
                l.attrs.clear();
                self.pat(&mut l.pat);
                let mut lt = None;
                if let Pat::Type(t) = &l.pat {
                    lt = Some((*t.ty).clone());
                }
                if let Some(init) = &mut l.init {
                    if let Some((_, els)) = init.diverge.take() {
                        // let P = E else { D };  ->  let (vars) = match E { P => (vars), _ => D };
                        self.rule("let-else to match");
                        let pat = &l.pat;
                        let e = &init.expr;
                        let vars: Vec<Ident> = bound_in_pat(pat).iter().map(|v| Ident::new(v, Span::call_site())).collect();
                        let mut m: Expr = parse_quote!(match #e { #pat => (#(#vars),*), _ => #els });
                        self.expr(&mut m);
                        out.push(parse_quote!(let (#(#vars),*) = #m;));
                        return;
                    }
                    let save = self.let_ty.take();
                    self.let_ty = lt;
                    self.expr(&mut init.expr);
                    self.let_ty = save;
                }
                out.push(Stmt::Local(l));
            }
        }
    }

    fn is_dropped(&mut self, m: &Macro) -> bool {
        let p = txt(&m.path).replace(' ', "");
        let last = m.path.segments.last().unwrap().ident.to_string();
        let d = p.starts_with("log::") || DROP_MACROS.contains(&last.as_str());
        if d {
            *self.dropped.entry(format!("{p}!")).or_default() += 1;
        }
        d
    }

    pub fn ty(&mut self, t: &mut Type) {
        struct V;
        impl VisitMut for V {
            fn visit_path_mut(&mut self, p: &mut Path) {
                shorten(p);
                visit_mut::visit_path_mut(self, p);
            }
        }
        V.visit_type_mut(t);
    }

    fn pat(&mut self, p: &mut Pat) {
        struct V;
        impl VisitMut for V {
            fn visit_path_mut(&mut self, p: &mut Path) {
                shorten(p);
                visit_mut::visit_path_mut(self, p);
            }
        }
        V.visit_pat_mut(p);
    }

    // ---------------------------------------------------------------- expressions
    /// body of an extracted function
    pub fn fn_body(&mut self, b: &mut Block) {
        let stmts = self.lazy_chains(std::mem::take(&mut b.stmts));
        let n = stmts.len();
        let mut out: Vec<Stmt> = Vec::new();
        for (i, s) in stmts.into_iter().enumerate() {
            if i + 1 == n {
                if let Stmt::Expr(Expr::Call(_) | Expr::MethodCall(_), None) = &s {
                    self.try_ctx = true;
                }
            }
            self.stmt(s, i + 1 == n, &mut out);
        }
        b.stmts = out;
    }

    pub fn expr(&mut self, e: &mut Expr) {
        let tc = std::mem::take(&mut self.try_ctx);
        match e {
            Expr::Paren(p) => {
                // keep the let type through parentheses
                self.expr(&mut p.expr);
            }
            Expr::Macro(_) => self.expr_macro(e),
            Expr::Block(b) => self.block(&mut b.block),
            Expr::ForLoop(_) => self.expr_for(e),
            Expr::While(_) => self.expr_while(e),
            Expr::Loop(l) => {
                let u = self.new_uid();
                self.loops.insert(u, ("loop".into(), String::new()));
                self.block(&mut l.body);
                let b = &l.body.stmts;
                let ul = proc_macro2::Literal::usize_unsuffixed(u);
                let (h, t) = (format!("{u}.head"), format!("{u}.tail"));
                let body: Block = parse_quote!({ __vcinv!(#ul); __vcg!(#h); #(#b)* __vcg!(#t); });
                l.body = body;
                let (pre, post) = (format!("{u}.pre"), format!("{u}.post"));
                let lp = e.clone();
                *e = parse_quote!({ __vcg!(#pre); #lp __vcg!(#post); });
            }
            Expr::MethodCall(_) => self.expr_method(e, tc),
            Expr::Call(_) => self.expr_call(e, tc),
            Expr::Index(_) => {
                let Expr::Index(mut i) = e.clone() else { unreachable!() };
                self.expr(&mut i.expr);
                self.expr(&mut i.index);
                let (a, b) = (&i.expr, &i.index);
                self.rule("index expression to vidx");
                *e = parse_quote!((*#a.vidx(#b)));
            }
            Expr::Match(_) => self.expr_match(e),
            Expr::If(_) => self.expr_if(e),
            Expr::Binary(_) => self.expr_binary(e),
            Expr::Closure(_) => {
                self.unsup(format!("closure {}", txt(e)));
            }
            Expr::Path(p) => {
                if let Some(n) = p.path.segments.last().map(|s| s.ident.to_string()) {
                    if n.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) {
                        if let Some(x) = self.constant(&n) {
                            *e = x;
                            return;
                        }
                    }
                }
                shorten(&mut p.path)
            }
            Expr::Lit(l) => {
                if let Lit::ByteStr(b) = &l.lit {
                    match String::from_utf8(b.value()) {
                        Ok(s) => {
                            self.rule("byte string to vbytes");
                            *e = parse_quote!(vbytes(#s));
                        }
                        Err(_) => self.unsup("byte string that is no text"),
                    }
                }
            }
            Expr::Struct(s) => {
                shorten(&mut s.path);
                let save = self.let_ty.take();
                for f in s.fields.iter_mut() {
                    self.expr(&mut f.expr);
                }
                if let Some(r) = &mut s.rest {
                    self.expr(r);
                }
                self.let_ty = save;
            }
            Expr::Let(l) => {
                self.pat(&mut l.pat);
                self.expr(&mut l.expr);
            }
            Expr::Cast(c) => {
                self.expr(&mut c.expr);
                self.ty(&mut c.ty);
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.try_ctx = matches!(**x, Expr::Call(_) | Expr::MethodCall(_));
                    self.expr(x);
                }
            }
            Expr::Try(t) if try_collect(&t.expr).is_some() => {
                self.rule("collecting results to a loop with `?`");
                let m = try_collect(&t.expr).unwrap();
                self.try_items = true;
                match self.terminal(&m) {
                    Some(x) => *e = x,
                    None => self.unsup("collecting results"),
                }
            }
            Expr::Try(t) => {
                self.try_ctx = matches!(*t.expr, Expr::Call(_) | Expr::MethodCall(_));
                self.expr(&mut t.expr);
                let inner = strip_parens(&t.expr);
                if !matches!(inner, Expr::MethodCall(_) | Expr::Call(_) | Expr::Path(_) | Expr::Paren(_)) {
                    let x = &t.expr;
                    let p: Expr = parse_quote!((#x));
                    *t.expr = p;
                }
            }
            Expr::Async(_) | Expr::Await(_) | Expr::Unsafe(_) | Expr::TryBlock(_) | Expr::Yield(_) => {
                self.unsup("async or unsafe expression");
            }
            _ => {
                // default recursion over the sub expressions
                struct V<'b, 'a>(&'b mut D<'a>);
                impl VisitMut for V<'_, '_> {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        self.0.expr(e);
                    }
                    fn visit_block_mut(&mut self, b: &mut Block) {
                        self.0.block(b);
                    }
                    fn visit_type_mut(&mut self, t: &mut Type) {
                        self.0.ty(t);
                    }
                }
                visit_mut::visit_expr_mut(&mut V(self), e);
            }
        }
    }

    fn expr_binary(&mut self, e: &mut Expr) {
        let Expr::Binary(b) = e else { unreachable!() };
        self.expr(&mut b.left);
        self.expr(&mut b.right);
        let bits = match b.op {
            BinOp::BitOr(_) | BinOp::BitOrAssign(_) => Some("vbitor"),
            BinOp::BitAnd(_) | BinOp::BitAndAssign(_) => Some("vbitand"),
            BinOp::BitXor(_) | BinOp::BitXorAssign(_) => Some("vbitxor"),
            _ => None,
        };
        if let Some(f) = bits {
            let (l, r) = (b.left.clone(), b.right.clone());
            let f = Ident::new(f, Span::call_site());
            let set = matches!(b.op, BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitXorAssign(_));
            self.rule("`|`, `&`, `^` on bool to functions");
            *e = if set { parse_quote!(#l = #f(#l, #r)) } else { parse_quote!(#f(#l, #r)) };
            return;
        }
        if matches!(b.op, BinOp::Add(_)) {
            if matches!(strip_parens(&b.right), Expr::Reference(_)) || matches!(strip_parens(&b.right), Expr::Lit(l) if matches!(l.lit, Lit::Str(_))) {
                let (l, r) = (b.left.clone(), b.right.clone());
                self.rule("`+` of a string to vconcat");
                *e = match one_char(&r) {
                    Some(c) => parse_quote!(vpushed(#l, #c)),
                    None => parse_quote!(vconcat(#l, #r)),
                };
            }
            return;
        }
        let ne = match b.op {
            BinOp::Eq(_) => false,
            BinOp::Ne(_) => true,
            _ => return,
        };
        fn strlike(e: &Expr) -> bool {
            match strip_parens(e) {
                Expr::Lit(l) => matches!(l.lit, Lit::Str(_)),
                Expr::Path(p) => {
                    let s = p.path.segments.last().unwrap().ident.to_string();
                    s.len() > 1 && s.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric())
                }
                Expr::Reference(r) => strlike(&r.expr),
                _ => false,
            }
        }
        if strlike(&b.left) || strlike(&b.right) {
            let (l, r) = (b.left.clone(), b.right.clone());
            self.rule("comparison with a string constant to vstr_eq");
            *e = if ne { parse_quote!(!vstr_eq(&#l, &#r)) } else { parse_quote!(vstr_eq(&#l, &#r)) };
        }
    }

    fn expr_if(&mut self, e: &mut Expr) {
        let Expr::If(i) = e else { unreachable!() };
        // if let Entry::X(p) = M.entry(K) { A } else { B }
        if let Expr::Let(l) = &*i.cond {
            if entry_call(&l.expr).is_some() {
                let (p, x, a) = (&l.pat, &l.expr, &i.then_branch);
                let b: Expr = match &i.else_branch {
                    Some((_, b)) => (**b).clone(),
                    None => parse_quote!({}),
                };
                let other: Pat = if txt(p).contains("Occupied") { parse_quote!(Entry::Vacant(_)) } else { parse_quote!(Entry::Occupied(_)) };
                let mut m: Expr = parse_quote!(match #x { #p => #a, #other => #b });
                self.expr(&mut m);
                *e = m;
                return;
            }
        }
        let save = self.let_ty.clone();
        self.let_ty = None;
        self.expr(&mut i.cond);
        self.let_ty = save;
        self.block(&mut i.then_branch);
        if let Some((_, b)) = &mut i.else_branch {
            self.expr(b);
        }
        if let Expr::Block(b) = strip_parens(&i.cond) {
            let b = b.clone();
            *i.cond = parse_quote!((#b));
        }
    }

    fn expr_match(&mut self, e: &mut Expr) {
        let Expr::Match(mut m) = e.clone() else { unreachable!() };
        if let Some((map, key)) = entry_call(&m.expr) {
            self.rule("match on map entry to contains_key");
            let (mut map, mut key) = (map, key);
            self.expr(&mut map);
            self.expr(&mut key);
            let u = self.new_uid();
            let k = format_ident!("__k_{}", u);
            let (mut occ, mut vac) = (None, None);
            for arm in &m.arms {
                if arm.guard.is_some() {
                    self.unsup("guard on map entry");
                }
                let t = txt(&arm.pat);
                let body = &arm.body;
                let var = bound_in_pat(&arm.pat).first().cloned();
                let is_occ = t.contains("Occupied");
                let is_vac = t.contains("Vacant");
                let mut b: Expr = parse_quote!({ #body });
                if is_occ || is_vac {
                    if let Some(v) = var {
                        EntrySubst { var: v.clone(), map: map.clone(), key: k.clone(), occ: is_occ }.visit_expr_mut(&mut b);
                        let mut ids = Idents(Default::default());
                        ids.visit_expr(&b);
                        if ids.0.contains(&v) {
                            self.unsup("use of map entry");
                        }
                    }
                }
                self.expr(&mut b);
                if is_occ {
                    occ = Some(b);
                } else if is_vac {
                    vac = Some(b);
                } else if occ.is_none() {
                    occ = Some(b);
                } else {
                    vac = Some(b);
                }
            }
            let (occ, vac) = (occ.unwrap_or(parse_quote!({})), vac.unwrap_or(parse_quote!({})));
            *e = parse_quote!({ let #k = #key; if #map.contains_key(&#k) #occ else #vac });
            return;
        }
        let save = self.let_ty.clone();
        self.let_ty = None;
        self.expr(&mut m.expr);
        self.let_ty = save;
        // match on string constants
        let strpat = m.arms.iter().any(|a| str_pat(&a.pat));
        for a in m.arms.iter_mut() {
            a.attrs.clear();
            self.pat(&mut a.pat);
            if let Some((_, g)) = &mut a.guard {
                self.expr(g);
            }
            self.expr(&mut a.body);
        }
        if strpat {
            self.rule("match on string constants to if");
            let x = &m.expr;
            let u = self.new_uid();
            let v = format_ident!("__m_{}", u);
            let mut res: Option<Expr> = None;
            for a in m.arms.iter().rev() {
                let body = &a.body;
                if a.guard.is_some() {
                    self.unsup("guard in match on strings");
                }
                match str_pats(&a.pat) {
                    Some(mut ps) => {
                        ps.iter_mut().for_each(|p| self.expr(p));
                        let r = res.unwrap_or(parse_quote!({ vpanic() }));
                        res = Some(parse_quote!(if #(vstr_eq(&#v, &#ps))||* { #body } else { #r }));
                    }
                    None => match &a.pat {
                        Pat::Wild(_) => res = Some(parse_quote!({ #body })),
                        Pat::Ident(i) => {
                            let i = &i.ident;
                            res = Some(parse_quote!({ let #i = #v; #body }))
                        }
                        _ => self.unsup("mixed match on strings"),
                    },
                }
            }
            let r = res.unwrap();
            *e = parse_quote!({ let #v = #x; #r });
            return;
        }
        *e = Expr::Match(m);
    }

    // ---------------------------------------------------------------- loops
    fn expr_while(&mut self, e: &mut Expr) {
        let Expr::While(mut w) = e.clone() else { unreachable!() };
        let u = self.new_uid();
        let label = &w.label;
        let ul = proc_macro2::Literal::usize_unsuffixed(u);
        let (pre, post, h, t) = (format!("{u}.pre"), format!("{u}.post"), format!("{u}.head"), format!("{u}.tail"));
        if let Expr::Let(l) = &*w.cond {
            self.rule("while let to loop");
            self.loops.insert(u, ("while-let".into(), txt(&l.expr)));
            let (mut p, mut x) = ((*l.pat).clone(), (*l.expr).clone());
            self.pat(&mut p);
            self.expr(&mut x);
            self.block(&mut w.body);
            let b = &w.body.stmts;
            *e = parse_quote!({ __vcg!(#pre); #label loop { __vcinv!(#ul); if let #p = #x { __vcg!(#h); #(#b)* __vcg!(#t); } else { break; } } __vcg!(#post); });
            return;
        }
        self.loops.insert(u, ("while".into(), txt(&w.cond)));
        self.expr(&mut w.cond);
        self.block(&mut w.body);
        let c = &w.cond;
        let b = &w.body.stmts;
        *e = parse_quote!({ __vcg!(#pre); #label while #c { __vcinv!(#ul); __vcg!(#h); #(#b)* __vcg!(#t); } __vcg!(#post); });
    }

    fn expr_for(&mut self, e: &mut Expr) {
        let Expr::ForLoop(f) = e.clone() else { unreachable!() };
        let save = self.let_ty.take();
        self.rule("for to while over a snapshot");
        let chain = as_chain(&f.expr).unwrap_or(Chain { src: (*f.expr).clone(), ads: vec![] });
        let mut body = f.body.clone();
        let nested = chain.ads.iter().any(|(n, _)| n == "flat_map");
        let label = match (&f.label, nested && has_break(&body)) {
            (Some(l), _) => Some(l.clone()),
            (None, true) => {
                let u = self.new_uid();
                let lt = Lifetime::new(&format!("'l{u}"), Span::call_site());
                relabel(&mut body, &lt);
                Some(parse_quote!(#lt:))
            }
            _ => None,
        };
        if nested && f.label.is_some() {
            // `continue 'label` would skip the rest of the inner sequence
            let mut fl = Flow::default();
            fl.visit_block(&body);
            if fl.brk {
                self.unsup("labelled loop over flat_map");
            }
        }
        self.block(&mut body);
        if let Some(Stmt::Expr(_, semi)) = body.stmts.last_mut() {
            *semi = Some(Default::default());
        }
        let mut pat = (*f.pat).clone();
        self.pat(&mut pat);
        let stmts = self.run_chain(chain, label, &mut |_d, x| {
            let b = &body.stmts;
            let b2: Vec<Stmt> = b.clone();
            let l: Stmt = parse_quote!(let #pat = #x;);
            (vec![l], b2)
        });
        *e = parse_quote!({ #(#stmts)* });
        self.let_ty = save;
    }

    /// Statements that run `body` for each element that the chain yields.
    /// body returns (binding statements, rest); ghost head marker goes between
    fn run_chain(
        &mut self,
        c: Chain,
        label: Option<Label>,
        body: &mut dyn FnMut(&mut Self, Expr) -> (Vec<Stmt>, Vec<Stmt>),
    ) -> Vec<Stmt> {
        let u = self.new_uid();
        let mut src = c.src.clone();
        let save = self.let_ty.take();
        self.expr(&mut src);
        self.let_ty = save;
        self.loops.insert(u, ("for".into(), txt(&c.src)));
        let it = format_ident!("__it_{}", u);
        let x = format_ident!("__x_{}", u);
        let ul = proc_macro2::Literal::usize_unsuffixed(u);
        let (pre, post, h, t) = (format!("{u}.pre"), format!("{u}.post"), format!("{u}.head"), format!("{u}.tail"));
        let mut b: Vec<Stmt> = vec![parse_quote!(let #x = #it.take_next();)];
        let r: Vec<Stmt>;
        let head: Stmt = parse_quote!(__vcg!(#h););
        if c.ads.is_empty() {
            let (bind, rest) = body(self, parse_quote!(#x));
            b.extend(bind);
            r = rest;
        } else {
            r = self.run_ads(&c.ads, parse_quote!(#x), body);
        }
        if !matches!(src, Expr::Path(_) | Expr::MethodCall(_) | Expr::Field(_)) {
            src = parse_quote!((#src));
        }
        parse_quote! {
            let mut #it = #src.into_snap();
            __vcg!(#pre);
            #label while #it.has_next() {
                __vcinv!(#ul);
                #(#b)*
                #head
                #(#r)*
                __vcg!(#t);
            }
            __vcg!(#post);
        }
    }

    fn run_ads(
        &mut self,
        ads: &[(String, Option<Expr>)],
        x: Expr,
        body: &mut dyn FnMut(&mut Self, Expr) -> (Vec<Stmt>, Vec<Stmt>),
    ) -> Vec<Stmt> {
        if ads.is_empty() {
            let (mut b, r) = body(self, x);
            b.extend(r);
            return b;
        }
        let (name, arg) = &ads[0];
        let u = self.new_uid();
        let y = format_ident!("__y_{}", u);
        match name.as_str() {
            "map" => {
                let v = self.apply(arg.as_ref().unwrap(), x, false);
                let rest = self.run_ads(&ads[1..], parse_quote!(#y), body);
                parse_quote!(let #y = #v; #(#rest)*)
            }
            "cloned" | "copied" => {
                let rest = self.run_ads(&ads[1..], parse_quote!(#y), body);
                parse_quote!(let #y = (#x).clone(); #(#rest)*)
            }
            "inspect" => self.run_ads(&ads[1..], x, body),
            "filter" => {
                let c = self.apply(arg.as_ref().unwrap(), x.clone(), true);
                let rest = self.run_ads(&ads[1..], x, body);
                parse_quote!(let #y: bool = #c; if #y { #(#rest)* })
            }
            "filter_map" => {
                let v = self.apply(arg.as_ref().unwrap(), x, false);
                let z = format_ident!("__z_{}", u);
                let rest = self.run_ads(&ads[1..], parse_quote!(#z), body);
                parse_quote!(let #y = #v; if let Some(#z) = #y { #(#rest)* })
            }
            "flat_map" => {
                // the closure yields another chain
                let (pat, inner) = match strip_parens(arg.as_ref().unwrap()) {
                    Expr::Closure(c) if c.inputs.len() == 1 => {
                        let p = match &c.inputs[0] {
                            Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        };
                        (p, block_value(&c.body))
                    }
                    _ => {
                        self.unsup("flat_map with a function");
                        return vec![];
                    }
                };
                let chain = as_chain(&inner).unwrap_or(Chain { src: inner, ads: vec![] });
                let mut ads2: Vec<_> = chain.ads.clone();
                ads2.extend(ads[1..].iter().cloned());
                let inner = self.run_chain(Chain { src: chain.src, ads: ads2 }, None, body);
                parse_quote!(let #pat = #x; #(#inner)*)
            }
            _ => {
                self.unsup(format!("adapter {name}"));
                vec![]
            }
        }
    }

    /// apply a closure or function path to a value
    fn apply(&mut self, f: &Expr, x: Expr, by_ref: bool) -> Expr {
        let arg: Expr = if by_ref { parse_quote!(&#x) } else { x };
        match strip_parens(f) {
            Expr::Closure(c) => {
                if c.inputs.len() != 1 {
                    self.unsup("closure arity");
                    return arg;
                }
                let fl = flow(|fl| fl.visit_expr(&c.body));
                if fl.ret || fl.try_ {
                    self.unsup("return in closure");
                }
                let p = &c.inputs[0];
                let mut body = (*c.body).clone();
                self.expr(&mut body);
                let mut p = p.clone();
                self.pat(&mut p);
                if matches!(p, Pat::Wild(_)) {
                    return parse_quote!({ #body });
                }
                // |x| body  with x used as is
                parse_quote!({ let #p = #arg; #body })
            }
            Expr::Path(p) => {
                let last = p.path.segments.last().unwrap().ident.to_string();
                if last == "clone" || last == "to_string" || last == "to_owned" || last == "as_str" || last == "is_empty" || last == "into" {
                    let m = Ident::new(&last, Span::call_site());
                    let mut e: Expr = parse_quote!(#arg.#m());
                    self.expr(&mut e);
                    e
                } else {
                    let mut e: Expr = parse_quote!(#p(#arg));
                    self.expr(&mut e);
                    e
                }
            }
            _ => {
                self.unsup("function value");
                arg
            }
        }
    }

    // ---------------------------------------------------------------- method calls
    fn expr_method(&mut self, e: &mut Expr, tc: bool) {
        let Expr::MethodCall(m) = e.clone() else { unreachable!() };
        let name = m.method.to_string();
        let nargs = m.args.len();
        // iterator chains that end here
        if TERMINALS.contains(&name.as_str()) {
            if let Some(x) = self.terminal(&m) {
                *e = x;
                return;
            }
        }
        if name == "extend" && nargs == 1 {
            let save = self.let_ty.take();
            let arg = &m.args[0];
            let mut recv = (*m.receiver).clone();
            if let Some(c) = as_chain(arg) {
                if !c.ads.is_empty() {
                    self.rule("iterator chain to loop");
                    self.expr(&mut recv);
                    let s = self.run_chain(c, None, &mut |_d, x| (vec![], vec![parse_quote!(#recv.vadd(#x);)]));
                    *e = parse_quote!({ #(#s)* });
                    self.let_ty = save;
                    return;
                }
            }
            self.expr(&mut recv);
            let mut a = arg.clone();
            self.expr(&mut a);
            *e = parse_quote!(#recv.vextend(#a));
            self.let_ty = save;
            return;
        }
        // a chain with closures used as a value: materialise
        if ADAPTERS.contains(&name.as_str()) {
            if let Some(c) = as_chain(e) {
                if is_iter_chain(&c) {
                    self.rule("iterator chain to materialised snapshot");
                    let u = self.new_uid();
                    let acc = format_ident!("__acc_{}", u);
                    let s = self.run_chain(c, None, &mut |_d, x| (vec![], vec![parse_quote!(#acc.push(#x);)]));
                    *e = parse_quote!({ let mut #acc = Vec::new(); #(#s)* #acc.into_snap() });
                    return;
                }
            }
        }
        // entry API with default
        if matches!(name.as_str(), "or_default" | "or_insert" | "or_insert_with") {
            if let Some((mut map, mut key)) = entry_call(&m.receiver) {
                self.rule("entry().or_insert to vor_insert");
                self.expr(&mut map);
                self.expr(&mut key);
                let v: Expr = match (name.as_str(), m.args.first()) {
                    ("or_default", _) => parse_quote!(VDefault::vdefault()),
                    ("or_insert", Some(v)) => {
                        let mut v = v.clone();
                        self.expr(&mut v);
                        v
                    }
                    (_, Some(f)) => self.thunk(f),
                    _ => parse_quote!(()),
                };
                *e = parse_quote!(#map.vor_insert(#key, #v));
                return;
            }
        }
        // Option / Result / bool combinators with closures
        let has_fn = m.args.iter().any(|a| matches!(strip_parens(a), Expr::Closure(_)))
            || (matches!(name.as_str(), "map" | "map_err" | "and_then") && matches!(m.args.first().map(strip_parens), Some(Expr::Path(_))));
        if has_fn {
            if let Some(x) = self.combinator(&m) {
                self.rule("Option/Result combinator to match");
                *e = x;
                return;
            }
            if matches!(name.as_str(), "sort_by" | "sort_unstable_by" | "sort_by_key" | "sort_unstable_by_key" | "sort_by_cached_key") {
                if let Some(x) = self.sort_by(&m) {
                    *e = x;
                    return;
                }
            }
        }
        if matches!(name.as_str(), "sort_by_key" | "sort_unstable_by_key" | "sort_by_cached_key") {
            if let Some(x) = self.sort_by(&m) {
                *e = x;
                return;
            }
        }
        // methods of this crate without contract: inline
        if let Some(f) = self.resolve_method(&m) {
            if !self.known.contains(&f.id) {
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                if let Some(x) = self.inline(&f, Some((*m.receiver).clone()), args, tc) {
                    *e = x;
                    return;
                }
            }
        }
        let save = self.let_ty.take();
        let Expr::MethodCall(m) = e else { unreachable!() };
        if matches!(name.as_str(), "push_str" | "replace" | "split" | "starts_with" | "ends_with") && nargs >= 1 {
            if let Some(c) = one_char(&m.args[0]) {
                self.rule("string of one character to a character");
                m.args[0] = parse_quote!(#c);
                if name == "push_str" {
                    m.method = Ident::new("push", Span::call_site());
                }
            }
        }
        let name = m.method.to_string();
        let one_arg_replace = name == "replace" && nargs == 1; // Option::replace
        let char_arg = nargs == 1 && matches!(strip_parens(&m.args[0]), Expr::Lit(l) if matches!(l.lit, syn::Lit::Char(_)));
        self.expr(&mut m.receiver);
        if let Expr::Unary(_) | Expr::Reference(_) | Expr::Cast(_) | Expr::Binary(_) = &*m.receiver {
            let r = &m.receiver;
            *m.receiver = parse_quote!((#r));
        }
        for a in m.args.iter_mut() {
            self.expr(a);
        }
        self.let_ty = save;
        m.attrs.clear();
        if matches!(name.as_str(), "zip" | "chain") && nargs == 1 && !matches!(strip_parens(&m.args[0]), Expr::MethodCall(_)) {
            let a = m.args[0].clone();
            m.args[0] = parse_quote!((#a).into_snap());
        }
        if name == "into_iter" && nargs == 0 {
            m.method = Ident::new("into_snap", Span::call_site());
        } else if name == "into" && nargs == 0 {
            m.method = Ident::new("vinto", Span::call_site());
        } else if char_arg && name == "push" {
            m.method = Ident::new("vpush_char", Span::call_site());
        } else if name == "contains" && nargs == 1 && matches!(strip_parens(&m.args[0]), Expr::Lit(l) if matches!(l.lit, syn::Lit::Char(_) | syn::Lit::Str(_))) {
            m.method = Ident::new("vhas", Span::call_site());
        } else if name == "dedup" && nargs == 0 {
            m.method = Ident::new("vdedup", Span::call_site());
        } else if char_arg && name == "split" {
            m.method = Ident::new("vsplit", Span::call_site());
        } else if matches!(name.as_str(), "sort" | "sort_unstable") && nargs == 0 {
            m.method = Ident::new("vsort", Span::call_site());
        } else if name == "join" && nargs == 1 {
            m.method = Ident::new("vjoin", Span::call_site());
        } else if matches!(
            name.as_str(),
            "to_owned" | "to_string" | "trim" | "trim_start" | "trim_end" | "starts_with" | "ends_with" | "is_match" | "push_str" | "as_str" | "replace"
                | "as_bytes" | "to_lowercase" | "unwrap_or_default" | "cloned" | "last" | "first" | "last_mut" | "write_all"
                | "is_empty" | "into_owned" | "display" | "to_path_buf" | "copied" | "cmp" | "partial_cmp" | "iter" | "as_deref" | "pop"
        ) && (name != "pop" || nargs == 0) && !one_arg_replace
        {
            m.method = format_ident!("v{}", name);
        }
    }

    fn thunk(&mut self, f: &Expr) -> Expr {
        match strip_parens(f) {
            Expr::Closure(c) => {
                let fl = flow(|fl| fl.visit_expr(&c.body));
                if fl.ret || fl.try_ {
                    self.unsup("return in closure");
                }
                let mut b = (*c.body).clone();
                self.expr(&mut b);
                b
            }
            Expr::Path(p) => {
                let mut e: Expr = parse_quote!(#p());
                self.expr(&mut e);
                e
            }
            _ => {
                self.unsup("function value");
                parse_quote!(())
            }
        }
    }

    fn sort_by(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let mut recv = (*m.receiver).clone();
        self.expr(&mut recv);
        let name = m.method.to_string();
        let f = m.args.first()?;
        if name.contains("_key") {
            // key by display text
            let t = txt(f).replace(' ', "");
            if t == "ToString::to_string" {
                self.rule("sort_by_key(to_string) to vsort_by_text");
                return Some(parse_quote!(#recv.vsort_by_text()));
            }
            if let Expr::Closure(c) = strip_parens(f) {
                if c.inputs.len() == 1 {
                    let a = txt(&c.inputs[0]);
                    let body = txt(&block_value(&c.body)).replace(' ', "");
                    if body == format!("{a}.id.clone()") {
                        self.rule("sort_by(id) to vsort_by_id");
                        return Some(parse_quote!(#recv.vsort_by_id()));
                    }
                    if body == format!("{a}.to_string()") {
                        self.rule("sort_by_key(to_string) to vsort_by_text");
                        return Some(parse_quote!(#recv.vsort_by_text()));
                    }
                }
            }
            return None;
        }
        if let Expr::Closure(c) = strip_parens(f) {
            if c.inputs.len() == 2 {
                let (a, b) = (txt(&c.inputs[0]), txt(&c.inputs[1]));
                let body = txt(&block_value(&c.body)).replace(' ', "");
                if body == format!("{a}.id.cmp(&{b}.id)") {
                    self.rule("sort_by(id) to vsort_by_id");
                    return Some(parse_quote!(#recv.vsort_by_id()));
                }
            }
        }
        None
    }

    /// Whether an expression is known to be a `Result` (and not an `Option`), by the signature of what it calls.
    fn is_result(&self, e: &Expr) -> bool {
        let f = match strip_parens(e) {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    if matches!(p.path.segments.last().map(|s| s.ident.to_string()).as_deref(), Some("Ok" | "Err")) {
                        return true;
                    }
                    self.resolve_path(&p.path)
                }
                _ => None,
            },
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "map_err" | "ok_or" | "ok_or_else" | "write_all" | "read_line" | "inspect_err" => return true,
                "map" | "and_then" | "or_else" if self.is_result(&m.receiver) => return true,
                _ => self.resolve_method(m),
            },
            _ => None,
        };
        let Some(f) = f else { return false };
        match &f.sig.output {
            ReturnType::Type(_, t) => match &**t {
                Type::Path(p) => p.path.segments.last().map(|s| s.ident == "Result").unwrap_or(false),
                _ => false,
            },
            _ => false,
        }
    }

    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let ok = matches!(
            name.as_str(),
            "map" | "map_err" | "and_then" | "unwrap_or_else" | "or_else" | "map_or" | "map_or_else" | "is_some_and" | "is_none_or" | "ok_or_else" | "then" | "is_ok_and" | "is_err_and" | "inspect_err" | "filter"
        );
        if !ok {
            return None;
        }
        let save = self.let_ty.take();
        let mut r = (*m.receiver).clone();
        self.expr(&mut r);
        let a: Vec<Expr> = m.args.iter().cloned().collect();
        let v = format_ident!("__v_{}", self.new_uid());
        let isres = self.is_result(&m.receiver);
        let res = match name.as_str() {
            "map" if isres => {
                let b = self.apply(&a[0], parse_quote!(#v), false);
                parse_quote!(match #r { Ok(#v) => Ok(#b), Err(__er) => Err(__er) })
            }
            "and_then" if isres => {
                let b = self.apply(&a[0], parse_quote!(#v), false);
                parse_quote!(match #r { Ok(#v) => #b, Err(__er) => Err(__er) })
            }
            "or_else" if isres => {
                let b = self.apply(&a[0], parse_quote!(#v), false);
                parse_quote!(match #r { Ok(__ok) => Ok(__ok), Err(#v) => #b })
            }
            "map" => {
                let b = self.apply(&a[0], parse_quote!(#v), false);
                parse_quote!(match #r { Some(#v) => Some(#b), None => None })
            }
            "and_then" => {
                let b = self.apply(&a[0], parse_quote!(#v), false);
                parse_quote!(match #r { Some(#v) => #b, None => None })
            }
            // what is left of `filter` here is not part of an iterator chain
            "filter" => {
                let b = self.apply(&a[0], parse_quote!(#v), true);
                parse_quote!(match #r { Some(#v) => if #b { Some(#v) } else { None }, None => None })
            }
            "map_err" => {
                let b = self.apply(&a[0], parse_quote!(#v), false);
                parse_quote!(match #r { Ok(__ok) => Ok(__ok), Err(#v) => Err(#b) })
            }
            "inspect_err" => r,
            "unwrap_or_else" => {
                if let Expr::Closure(c) = strip_parens(&a[0]) {
                    if c.inputs.len() == 1 {
                        let b = self.apply(&a[0], parse_quote!(#v), false);
                        let x: Expr = parse_quote!(match #r { Ok(__ok) => __ok, Err(#v) => #b });
                        self.let_ty = save;
                        return Some(x);
                    }
                }
                let b = self.thunk(&a[0]);
                parse_quote!(match #r { Some(#v) => #v, None => #b })
            }
            "or_else" => {
                let b = self.thunk(&a[0]);
                parse_quote!(match #r { Some(#v) => Some(#v), None => #b })
            }
            "ok_or_else" => {
                let b = self.thunk(&a[0]);
                parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#b) })
            }
            "map_or" => {
                let b = self.apply(&a[1], parse_quote!(#v), false);
                let mut d = a[0].clone();
                self.expr(&mut d);
                parse_quote!(match #r { Some(#v) => #b, None => #d })
            }
            "map_or_else" => {
                let b = self.apply(&a[1], parse_quote!(#v), false);
                let d = self.thunk(&a[0]);
                parse_quote!(match #r { Some(#v) => #b, None => #d })
            }
            "is_some_and" => {
                let b = self.apply(&a[0], parse_quote!(#v), false);
                parse_quote!((match #r { Some(#v) => #b, None => false }))
            }
            "is_none_or" => {
                let b = self.apply(&a[0], parse_quote!(#v), false);
                parse_quote!((match #r { Some(#v) => #b, None => true }))
            }
            "is_ok_and" => {
                let b = self.apply(&a[0], parse_quote!(#v), false);
                parse_quote!((match #r { Ok(#v) => #b, Err(_) => false }))
            }
            "is_err_and" => {
                let b = self.apply(&a[0], parse_quote!(#v), false);
                parse_quote!((match #r { Err(#v) => #b, Ok(_) => false }))
            }
            "then" => {
                let b = self.thunk(&a[0]);
                parse_quote!(if #r { Some(#b) } else { None })
            }
            _ => return None,
        };
        self.let_ty = save;
        Some(res)
    }

    fn terminal(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let try_items = std::mem::take(&mut self.try_items);
        let c = as_chain(&m.receiver).unwrap_or(Chain { src: (*m.receiver).clone(), ads: vec![] });
        let fnarg = m.args.first().cloned();
        self.rule("iterator chain to loop");
        let u = self.new_uid();
        let acc = format_ident!("__acc_{}", u);
        match name.as_str() {
            "collect" => {
                let mut ty: Option<Type> = self.let_ty.clone();
                if let Some(tf) = &m.turbofish {
                    if let Some(GenericArgument::Type(t)) = tf.args.first() {
                        ty = Some(t.clone());
                    }
                }
                let s = self.run_chain(c, None, &mut |_d, x| {
                    let x: Expr = if try_items { parse_quote!((#x)?) } else { x };
                    (vec![], vec![parse_quote!(#acc.vadd(#x);)])
                });
                Some(match ty {
                    Some(mut t) => {
                        self.ty(&mut t);
                        parse_quote!({ let mut #acc: #t = VCollect::vnew(); #(#s)* #acc })
                    }
                    None => {
                        let a = format!("{u}");
                        let _ = a;
                        parse_quote!({ let mut #acc: __VCACC<#u> = VCollect::vnew(); #(#s)* #acc })
                    }
                })
            }
            "unzip" => {
                let (a, b) = (format_ident!("__acca_{}", u), format_ident!("__accb_{}", u));
                let s = self.run_chain(c, None, &mut |_d, x| {
                    (vec![], vec![parse_quote!(let (__ua, __ub) = #x;), parse_quote!(#a.vadd(__ua);), parse_quote!(#b.vadd(__ub);)])
                });
                Some(parse_quote!({ let mut #a: __VCACCA<#u> = VCollect::vnew(); let mut #b: __VCACCB<#u> = VCollect::vnew(); #(#s)* (#a, #b) }))
            }
            "count" => {
                let s = self.run_chain(c, None, &mut |_d, _x| (vec![], vec![parse_quote!(#acc += 1;)]));
                Some(parse_quote!({ let mut #acc: usize = 0; #(#s)* #acc }))
            }
            "for_each" => {
                let f = fnarg?;
                let s = self.run_chain(c, None, &mut |d, x| {
                    let b = d.apply(&f, x, false);
                    (vec![], vec![parse_quote!(#b;)])
                });
                Some(parse_quote!({ #(#s)* }))
            }
            "any" | "all" => {
                let f = fnarg?;
                let lt = Lifetime::new(&format!("'l{u}"), Span::call_site());
                let any = name == "any";
                let s = self.run_chain(c, Some(parse_quote!(#lt:)), &mut |d, x| {
                    let y = format_ident!("__e_{}", u);
                    let b = d.apply(&f, parse_quote!(#y), false);
                    let r: Stmt = if any { parse_quote!(if __c { #acc = true; break #lt; }) } else { parse_quote!(if !__c { #acc = true; break #lt; }) };
                    (vec![parse_quote!(let #y = #x;)], vec![parse_quote!(let __c: bool = #b;), r])
                });
                // "all are" is "none is not", so that both have an accumulator of the same meaning
                let fin: Expr = if any { parse_quote!(#acc) } else { parse_quote!(!#acc) };
                Some(parse_quote!({ let mut #acc = false; #(#s)* #fin }))
            }
            "find" | "position" | "find_map" => {
                let f = fnarg?;
                if !matches!(strip_parens(&f), Expr::Closure(_)) {
                    return None; // str::find
                }
                let lt = Lifetime::new(&format!("'l{u}"), Span::call_site());
                if name == "position" {
                    let s = self.run_chain(c, Some(parse_quote!(#lt:)), &mut |d, x| {
                        let y = format_ident!("__e_{}", u);
                        let n = format_ident!("__n_{}", u);
                        let b = d.apply(&f, parse_quote!(#y), false);
                        (vec![parse_quote!(let #y = #x;)], vec![parse_quote!(let __c: bool = #b;), parse_quote!(if __c { #acc = Some(#n); break #lt; }), parse_quote!(#n += 1;)])
                    });
                    let n = format_ident!("__n_{}", u);
                    return Some(parse_quote!({ let mut #acc = None; let mut #n: usize = 0; #(#s)* #acc }));
                }
                let fm = name == "find_map";
                let s = self.run_chain(c, Some(parse_quote!(#lt:)), &mut |d, x| {
                    let y = format_ident!("__e_{}", u);
                    if fm {
                        let b = d.apply(&f, parse_quote!(#y), false);
                        return (vec![parse_quote!(let #y = #x;)], vec![parse_quote!(if let Some(__fm) = #b { #acc = Some(__fm); break #lt; })]);
                    }
                    let b = d.apply(&f, parse_quote!(#y), true);
                    (vec![parse_quote!(let #y = #x;)], vec![parse_quote!(let __c: bool = #b;), parse_quote!(if __c { #acc = Some(#y); break #lt; })])
                });
                Some(parse_quote!({ let mut #acc = None; #(#s)* #acc }))
            }
            _ => None,
        }
    }

    // ---------------------------------------------------------------- calls
    fn expr_call(&mut self, e: &mut Expr, tc: bool) {
        let Expr::Call(c) = e.clone() else { unreachable!() };
        if let Expr::Path(p) = &*c.func {
            if let Some(f) = self.resolve_path(&p.path) {
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                if self.known.contains(&f.id) {
                    let Expr::Call(c) = e else { unreachable!() };
                    if f.ty_name.is_none() {
                        let n = Ident::new(&mangle(&f), Span::call_site());
                        *c.func = parse_quote!(#n);
                    } else {
                        let Expr::Path(p) = &mut *c.func else { unreachable!() };
                        let k = p.path.segments.len();
                        if k > 2 {
                            p.path.leading_colon = None;
                            p.path.segments = p.path.segments.iter().skip(k - 2).cloned().collect();
                        }
                    }
                    let save = self.let_ty.take();
                    for a in c.args.iter_mut() {
                        self.expr(a);
                    }
                    self.let_ty = save;
                    return;
                }
                if let Some(x) = self.inline(&f, None, args, tc) {
                    *e = x;
                    return;
                }
            }
            let t = txt(&p.path).replace(' ', "");
            if t == "std::iter::once" || t == "iter::once" || t == "once" {
                let Expr::Call(c) = e else { unreachable!() };
                *c.func = parse_quote!(vonce);
            } else if t == "mem::take" || t == "std::mem::take" || t == "core::mem::take" {
                let Expr::Call(c) = e else { unreachable!() };
                *c.func = parse_quote!(vmem_take);
            } else if t == "mem::replace" || t == "std::mem::replace" || t == "core::mem::replace" {
                let Expr::Call(c) = e else { unreachable!() };
                *c.func = parse_quote!(vmem_replace);
            } else if t == "Rc::from" {
                let Expr::Call(c) = e else { unreachable!() };
                *c.func = parse_quote!(rc_from);
            } else if t == "Rc::get_mut" {
                let Expr::Call(c) = e else { unreachable!() };
                *c.func = parse_quote!(rc_get_mut);
            } else if t == "RequirementId::from" || t == "ArtefactId::from" || t == "String::from" {
                let Expr::Call(c) = e else { unreachable!() };
                let ty: Type = parse_str(t.trim_end_matches("::from")).unwrap();
                *c.func = parse_quote!(VInto::<#ty>::vinto);
            }
        }
        let save = self.let_ty.take();
        let Expr::Call(c) = e else { unreachable!() };
        c.attrs.clear();
        if let Expr::Path(p) = &mut *c.func {
            shorten(&mut p.path);
        } else {
            self.expr(&mut c.func);
        }
        for a in c.args.iter_mut() {
            self.expr(a);
        }
        self.let_ty = save;
    }

    /// A static regular expression, or a constant with a literal value
    fn constant(&mut self, n: &str) -> Option<Expr> {
        let r = self.table.regexes.get(&(self.file.clone(), n.to_string())).cloned().or_else(|| {
            let c: Vec<_> = self.table.regexes.iter().filter(|((_, k), _)| k == n).collect();
            if c.len() == 1 { Some(c[0].1.clone()) } else { None }
        });
        if let Some(r) = r {
            self.rule("static regular expression to its pattern");
            let Some(groups) = groups_of(&r) else {
                self.unsup(format!("invalid regular expression {r}"));
                return None;
            };
            return Some(parse_quote!(vregex(#r, [#(#groups),*])));
        }
        let x = match &self.table.consts.get(n)?.1 {
            Item::Const(c) => (*c.expr).clone(),
            Item::Static(c) => (*c.expr).clone(),
            _ => return None,
        };
        if matches!(&x, Expr::Lit(l) if !matches!(l.lit, Lit::ByteStr(_))) {
            self.rule("constant to its value");
            return Some(x);
        }
        None
    }

    fn resolve_path(&self, p: &Path) -> Option<Func> {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let name = segs.last()?;
        let quals = &segs[..segs.len() - 1];
        if let Some(q) = quals.last() {
            let q = if q == "Self" { self.self_ty.clone().unwrap_or_default() } else { q.clone() };
            if q.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) {
                return self.table.funcs.values().find(|f| f.ty_name.as_deref() == Some(&q) && &f.name == name && f.trait_name.is_none()).cloned();
            }
        }
        let cands: Vec<&Func> = self.table.funcs.values().filter(|f| &f.name == name && f.ty_name.is_none()).collect();
        if quals.is_empty() || quals == ["self"] || quals == ["Self"] {
            if let Some(f) = cands.iter().find(|f| f.file == self.file) {
                return Some((*f).clone());
            }
            if cands.len() == 1 && quals.is_empty() {
                return Some(cands[0].clone());
            }
            return None;
        }
        let q: Vec<&String> = quals.iter().filter(|q| !["crate", "super", "self", "reqtrace"].contains(&q.as_str())).collect();
        if q.is_empty() {
            return if cands.len() == 1 { Some(cands[0].clone()) } else { None };
        }
        let suffix = q.iter().map(|s| s.as_str()).collect::<Vec<_>>().join("/");
        let m: Vec<&&Func> = cands
            .iter()
            .filter(|f| {
                let stem = f.file.trim_end_matches(".rs").trim_end_matches("/mod");
                stem == suffix || stem.ends_with(&format!("/{suffix}"))
            })
            .collect();
        if m.len() == 1 {
            return Some((**m[0]).clone());
        }
        // relative to the current directory
        let dir = self.file.rsplit_once('/').map(|(d, _)| d.to_string()).unwrap_or_default();
        m.iter().find(|f| f.file.rsplit_once('/').map(|(d, _)| d == dir).unwrap_or(false)).map(|f| (**f).clone())
    }

    fn resolve_method(&self, m: &ExprMethodCall) -> Option<Func> {
        let name = m.method.to_string();
        if path1(strip_parens(&m.receiver)).as_deref() == Some("self") {
            if let Some(t) = &self.self_ty {
                if let Some(f) = self.table.funcs.values().find(|f| f.ty_name.as_ref() == Some(t) && f.name == name) {
                    return Some(f.clone());
                }
            }
        }
        const STD: &[&str] = &[
            "new", "fmt", "from", "partial_cmp", "cmp", "eq", "clone", "default", "into", "run", "parse", "data", "get", "insert",
            "len", "push", "name", "remove", "contains", "iter", "values", "next",
        ];
        if STD.contains(&name.as_str()) {
            return None;
        }
        let c: Vec<&Func> = self.table.funcs.values().filter(|f| f.ty_name.is_some() && f.name == name && f.sig.receiver().is_some()).collect();
        if c.len() == 1 {
            return Some(c[0].clone());
        }
        None
    }

    fn inline(&mut self, f: &Func, recv: Option<Expr>, args: Vec<Expr>, tc: bool) -> Option<Expr> {
        if self.depth > 5 {
            return None;
        }
        let body = f.body.clone()?;
        let fl = flow(|x| x.visit_block(&body));
        let mut body = body;
        if fl.ret {
            body = elim_return(body)?;
        }
        // `?` leaves the enclosing function with the same error only if the caller uses `?` too
        if fl.try_ && !tc {
            return None;
        }
        let mut subst: BTreeMap<String, Expr> = BTreeMap::new();
        let mut lets: Vec<Stmt> = Vec::new();
        let mut bound = Bound::default();
        bound.visit_block(&body);
        let locals: BTreeSet<String> = bound.0.into_iter().collect();
        let mut params: Vec<(Pat, Option<Type>, Expr)> = Vec::new();
        let mut ai = args.into_iter();
        for inp in &f.sig.inputs {
            match inp {
                FnArg::Receiver(r) => {
                    let x = match &recv {
                        Some(x) => x.clone(),
                        None => ai.next()?,
                    };
                    if path1(strip_parens(&x)).as_deref() == Some("self") && recv.is_some() {
                        continue;
                    }
                    if !is_simple(&x) {
                        if r.reference.is_some() && r.mutability.is_none() {
                            let v = format_ident!("__self_{}", self.new_uid());
                            lets.push(parse_quote!(let #v = &#x;));
                            subst.insert("self".into(), parse_quote!(#v));
                            continue;
                        }
                        return None;
                    }
                    subst.insert("self".into(), x);
                }
                FnArg::Typed(t) => params.push(((*t.pat).clone(), Some((*t.ty).clone()), ai.next()?)),
            }
        }
        let generic = !f.sig.generics.params.is_empty();
        let mut stage2: Vec<Stmt> = Vec::new();
        for (p, t, a) in params {
            let mut ids = Idents(Default::default());
            ids.visit_expr(&a);
            let clash = ids.0.iter().any(|i| locals.contains(i));
            if let Pat::Ident(pi) = &p {
                let foldable = str_of(&a).is_some_and(|t| !t.contains(['{', '}'])) && !captured_with(&body, &pi.ident.to_string());
                if is_simple(&a) && !clash && (foldable || !captured(&body, &pi.ident.to_string())) && pi.mutability.is_none() && pi.by_ref.is_none() && !locals.contains(&pi.ident.to_string()) {
                    // a plain path that is passed for an owned parameter is moved: same here
                    subst.insert(pi.ident.to_string(), strip_parens(&a).clone());
                    continue;
                }
            }
            let v = format_ident!("__p_{}", self.new_uid());
            let is_mut = matches!(&t, Some(Type::Reference(r)) if r.mutability.is_some());
            let a: Expr = if is_mut && path1(&a).is_some() { parse_quote!(&mut *#a) } else { a };
            lets.push(parse_quote!(let #v = #a;));
            let plain = t.as_ref().map(|t| !generic && !txt(t).contains("impl ") && !txt(t).contains('\'') ).unwrap_or(false);
            if plain {
                let t = t.unwrap();
                stage2.push(parse_quote!(let #p: #t = #v;));
            } else {
                stage2.push(parse_quote!(let #p = #v;));
            }
        }
        Subst(&subst).visit_block_mut(&mut body);
        if let Some(t) = &f.ty_name {
            SelfTy(t).visit_block_mut(&mut body);
        }
        let b = &body.stmts;
        let mut e: Expr = parse_quote!({ #(#lets)* #(#stage2)* #(#b)* });
        self.inlined.push(f.id.clone());
        self.depth += 1;
        let (sf, st) = (self.file.clone(), self.self_ty.clone());
        let save = self.let_ty.take();
        // arguments were written in the caller's file, the body in the callee's: names resolve
        // the same way in almost all cases; prefer the callee's
        self.file = f.file.clone();
        if f.ty_name.is_some() {
            self.self_ty = f.ty_name.clone();
        }
        self.expr(&mut e);
        self.let_ty = save;
        self.file = sf;
        self.self_ty = st;
        self.depth -= 1;
        Some(e)
    }

    // ---------------------------------------------------------------- macros
    fn expr_macro(&mut self, e: &mut Expr) {
        let Expr::Macro(m) = e.clone() else { unreachable!() };
        if self.is_dropped(&m.mac) {
            let a = log_args(&m.mac);
            *e = parse_quote!({});
            if !a.is_empty() {
                self.rule("argument of a log message that can panic or change something is kept");
                *e = parse_quote!({ #(let _logged = #a;)* });
                self.expr(e);
            }
            return;
        }
        let name = m.mac.path.segments.last().unwrap().ident.to_string();
        let toks = m.mac.tokens.clone();
        let args = || Punctuated::<Expr, Token![,]>::parse_terminated.parse2(toks.clone());
        match name.as_str() {
            "__vcg" | "__vcinv" => {}
            "panic" | "todo" | "unreachable" | "unimplemented" => {
                self.rule("panic to vpanic");
                *e = parse_quote!(vpanic());
            }
            "assert" => {
                if let Ok(a) = args() {
                    let mut c = a[0].clone();
                    self.expr(&mut c);
                    *e = parse_quote!(vassert(#c));
                }
            }
            "assert_eq" | "assert_ne" => {
                if let Ok(a) = args() {
                    let (x, y) = (&a[0], &a[1]);
                    let mut c: Expr = if name == "assert_eq" { parse_quote!(#x == #y) } else { parse_quote!(#x != #y) };
                    self.expr(&mut c);
                    *e = parse_quote!(vassert(#c));
                }
            }
            "vec" => {
                if let Ok(a) = args() {
                    let mut a: Vec<Expr> = a.into_iter().collect();
                    for x in a.iter_mut() {
                        self.expr(x);
                    }
                    *e = if a.is_empty() {
                        parse_quote!(Vec::new())
                    } else {
                        let v = format_ident!("__vec_{}", self.new_uid());
                        parse_quote!({ let mut #v = Vec::new(); #(#v.push(#a);)* #v })
                    };
                } else {
                    self.unsup("vec! form");
                }
            }
            "matches" => {
                let p = |input: syn::parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                    let e: Expr = input.parse()?;
                    input.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(input)?;
                    let g = if input.peek(Token![if]) {
                        input.parse::<Token![if]>()?;
                        Some(input.parse()?)
                    } else {
                        None
                    };
                    let _ = input.parse::<Option<Token![,]>>()?;
                    Ok((e, p, g))
                };
                match p.parse2(toks) {
                    Ok((x, p, None)) => {
                        let mut n: Expr = parse_quote!((match #x { #p => true, _ => false }));
                        self.expr(&mut n);
                        *e = n;
                    }
                    Ok((x, p, Some(g))) => {
                        let mut n: Expr = parse_quote!((match #x { #p if #g => true, _ => false }));
                        self.expr(&mut n);
                        *e = n;
                    }
                    Err(_) => self.unsup("matches!"),
                }
            }
            "format" | "write" | "writeln" | "concat" => match self.format(&name, toks) {
                Some(x) => {
                    self.rule("format macro to pieces");
                    *e = x
                }
                None => self.unsup(format!("{name}! form")),
            },
            _ => self.unsup(format!("macro {name}!")),
        }
    }

    fn format(&mut self, name: &str, toks: TokenStream) -> Option<Expr> {
        let parser = |input: syn::parse::ParseStream| -> Result<Vec<(Option<Ident>, Expr)>> {
            let mut v = Vec::new();
            while !input.is_empty() {
                if input.peek(Ident) && input.peek2(Token![=]) && !input.peek2(Token![==]) {
                    let i: Ident = input.parse()?;
                    input.parse::<Token![=]>()?;
                    v.push((Some(i), input.parse()?));
                } else {
                    v.push((None, input.parse()?));
                }
                if input.is_empty() {
                    break;
                }
                input.parse::<Token![,]>()?;
            }
            Ok(v)
        };
        let mut a = parser.parse2(toks).ok()?;
        if name == "concat" {
            let mut s = String::new();
            for (_, x) in a {
                s.push_str(&str_of(&x)?);
            }
            return Some(parse_quote!(#s));
        }
        let writer = if name == "format" { None } else { Some(a.remove(0).1) };
        let mut text = String::new();
        let mut rest: Vec<(Option<Ident>, Expr)> = Vec::new();
        if !a.is_empty() {
            text = str_of(&a[0].1)?;
            rest = a.split_off(1);
        }
        if name == "writeln" {
            text.push('\n');
        }
        // split into pieces
        let mut stmts: Vec<Stmt> = Vec::new();
        let f = format_ident!("__f_{}", self.new_uid());
        let mut lit = String::new();
        let mut it = text.chars().peekable();
        let mut next = 0;
        let flush = |lit: &mut String, stmts: &mut Vec<Stmt>| {
            // line feeds are pieces of their own
            let mut cur = String::new();
            for c in lit.chars() {
                if c == '\n' {
                    if !cur.is_empty() {
                        stmts.push(parse_quote!(#f.lit(#cur);));
                        cur.clear();
                    }
                    stmts.push(parse_quote!(#f.nl();));
                } else {
                    cur.push(c);
                }
            }
            if !cur.is_empty() {
                stmts.push(parse_quote!(#f.lit(#cur);));
            }
            lit.clear();
        };
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => {
                    it.next();
                    lit.push('{');
                }
                '}' if it.peek() == Some(&'}') => {
                    it.next();
                    lit.push('}');
                }
                '{' => {
                    let mut s = String::new();
                    for c in it.by_ref() {
                        if c == '}' {
                            break;
                        }
                        s.push(c);
                    }
                    let (who, how) = match s.split_once(':') {
                        Some((a, b)) => (a.trim().to_string(), b.trim().to_string()),
                        None => (s.trim().to_string(), String::new()),
                    };
                    let x: Expr = if who.is_empty() {
                        let x = rest.iter().filter(|(n, _)| n.is_none()).nth(next)?.1.clone();
                        next += 1;
                        x
                    } else if let Ok(i) = who.parse::<usize>() {
                        rest.get(i)?.1.clone()
                    } else if let Some((_, x)) = rest.iter().find(|(n, _)| n.as_ref().map(|n| n == &who).unwrap_or(false)) {
                        x.clone()
                    } else {
                        let i: Ident = parse_str(&who).ok()?;
                        parse_quote!(#i)
                    };
                    let mut x = x;
                    self.expr(&mut x);
                    if how.is_empty() {
                        let mut y = strip_parens(&x);
                        while let Expr::Reference(r) = y {
                            y = strip_parens(&r.expr);
                        }
                        if let Some(t) = str_of(y) {
                            lit.push_str(&t);
                            continue;
                        }
                    }
                    flush(&mut lit, &mut stmts);
                    if matches!(x, Expr::Binary(_) | Expr::Cast(_) | Expr::Range(_)) {
                        x = parse_quote!((#x));
                    }
                    match how.as_str() {
                        "" => stmts.push(parse_quote!(#f.disp(&#x);)),
                        "?" => stmts.push(parse_quote!(#f.debug(&#x);)),
                        "#?" => stmts.push(parse_quote!(#f.debug_alt(&#x);)),
                        _ => return None,
                    }
                }
                c => lit.push(c),
            }
        }
        flush(&mut lit, &mut stmts);
        Some(match writer {
            None => parse_quote!({ let mut #f = VBuf::new(); #(#stmts)* #f.done() }),
            Some(mut w) => {
                self.expr(&mut w);
                parse_quote!({ let mut #f = VBuf::new(); #(#stmts)* #w.write_vbuf(#f) })
            }
        })
    }
}

/// which groups of a regular expression take part in every match
fn groups_of(pattern: &str) -> Option<Vec<bool>> {
    use regex_syntax::hir::{Hir, HirKind};
    fn walk(h: &Hir, always: bool, out: &mut Vec<bool>) {
        match h.kind() {
            HirKind::Capture(c) => {
                let i = c.index as usize;
                if out.len() <= i {
                    out.resize(i + 1, false);
                }
                out[i] = always;
                walk(&c.sub, always, out);
            }
            HirKind::Concat(v) => v.iter().for_each(|h| walk(h, always, out)),
            HirKind::Alternation(v) => v.iter().for_each(|h| walk(h, false, out)),
            HirKind::Repetition(r) => walk(&r.sub, always && r.min > 0, out),
            _ => {}
        }
    }
    let mut out = vec![true];
    walk(&regex_syntax::parse(pattern).ok()?, true, &mut out);
    Some(out)
}

fn str_of(e: &Expr) -> Option<String> {
    match strip_parens(e) {
        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
        Expr::Macro(m) if m.mac.path.is_ident("concat") => {
            let a = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.mac.tokens.clone()).ok()?;
            let mut s = String::new();
            for x in a {
                s.push_str(&str_of(&x)?);
            }
            Some(s)
        }
        _ => None,
    }
}

pub fn mangle(f: &Func) -> String {
    format!("{}__{}", f.file.trim_end_matches(".rs").replace(['/', '.'], "_"), f.name)
}

fn shorten(p: &mut Path) {
    if p.leading_colon.is_some() {
        p.leading_colon = None;
    }
    let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    if names.len() < 2 {
        return;
    }
    let mut k = 0;
    while k + 1 < names.len() {
        let n = names[k].as_str();
        let drop = MODS.contains(&n) || n == "std" || n == "core" || n == "alloc"
            || (k > 0 && ["std", "core", "alloc"].contains(&names[0].as_str()) && ["collections", "rc", "path", "cmp", "string", "vec", "option", "result", "time", "boxed", "borrow"].contains(&n));
        if !drop {
            break;
        }
        // only one `self` kept when it is a receiver
        k += 1;
    }
    if k > 0 {
        p.segments = p.segments.iter().skip(k).cloned().collect();
    }
}

fn entry_call(e: &Expr) -> Option<(Expr, Expr)> {
    if let Expr::MethodCall(m) = strip_parens(e) {
        if m.method == "entry" && m.args.len() == 1 {
            return Some(((*m.receiver).clone(), m.args[0].clone()));
        }
    }
    None
}

struct EntrySubst {
    var: String,
    map: Expr,
    key: Ident,
    occ: bool,
}
impl VisitMut for EntrySubst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if path1(strip_parens(&m.receiver)).as_deref() == Some(&self.var) {
                let (map, k) = (&self.map, &self.key);
                let n = m.method.to_string();
                let a = m.args.first().cloned();
                let x: Option<Expr> = match (n.as_str(), a, self.occ) {
                    ("get", None, true) => Some(parse_quote!(#map.vat(&#k))),
                    ("get_mut" | "into_mut", None, true) => Some(parse_quote!(#map.vat_mut(&#k))),
                    ("insert", Some(v), true) => Some(parse_quote!(#map.vset(&#k, #v))),
                    ("insert", Some(v), false) => Some(parse_quote!(#map.insert(#k, #v))),
                    ("key", None, _) => Some(parse_quote!(&#k)),
                    ("remove", None, true) => Some(parse_quote!(#map.vtake(&#k))),
                    _ => None,
                };
                if let Some(x) = x {
                    *e = x;
                }
            }
        }
    }
}

fn block_value(e: &Expr) -> Expr {
    if let Expr::Block(b) = e {
        if b.block.stmts.len() == 1 {
            if let Stmt::Expr(x, None) = &b.block.stmts[0] {
                return block_value(x);
            }
        }
    }
    e.clone()
}

/// split `SRC.adapter(..).adapter(..)`
fn count_ident(t: TokenStream2, name: &str) -> usize {
    t.into_iter()
        .map(|t| match t {
            TokenTree2::Ident(i) => (i == name) as usize,
            TokenTree2::Group(g) => count_ident(g.stream(), name),
            _ => 0,
        })
        .sum()
}

/// `chain.collect::<Result<C, _>>()` as `chain.collect::<C>()`
fn try_collect(e: &Expr) -> Option<ExprMethodCall> {
    let Expr::MethodCall(m) = strip_parens(e) else { return None };
    if m.method != "collect" || !m.args.is_empty() {
        return None;
    }
    let GenericArgument::Type(Type::Path(t)) = m.turbofish.as_ref()?.args.first()? else { return None };
    let s = t.path.segments.last()?;
    let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    let GenericArgument::Type(c) = a.args.first()? else { return None };
    if !s.ident.to_string().ends_with("Result") {
        return None;
    }
    let mut m = m.clone();
    m.turbofish = if matches!(c, Type::Infer(_)) { None } else { Some(parse_quote!(::<#c>)) };
    Some(m)
}
fn as_chain(e: &Expr) -> Option<Chain> {
    let e = strip_parens(e);
    if let Expr::MethodCall(m) = e {
        let n = m.method.to_string();
        if ADAPTERS.contains(&n.as_str()) {
            let inner = as_chain(&m.receiver).unwrap_or(Chain { src: (*m.receiver).clone(), ads: vec![] });
            let Chain { src, mut ads } = inner;
            ads.push((n, m.args.first().cloned()));
            return Some(Chain { src, ads });
        }
        if n == "into_iter" || n == "iter" {
            // chain.into_iter() of a chain is the chain
            if let Some(c) = as_chain(&m.receiver) {
                if n == "into_iter" && is_iter_chain(&c) {
                    return Some(c);
                }
            }
        }
    }
    None
}

fn is_iter_chain(c: &Chain) -> bool {
    if c.ads.iter().any(|(n, _)| n == "flat_map" || n == "filter_map") {
        return true;
    }
    if let Expr::MethodCall(m) = strip_parens(&c.src) {
        return ITER_SOURCES.contains(&m.method.to_string().as_str());
    }
    false
}

fn str_pat(p: &Pat) -> bool {
    str_pats(p).is_some()
}
fn str_pats(p: &Pat) -> Option<Vec<Expr>> {
    match p {
        Pat::Lit(l) => match &l.lit {
            Lit::Str(_) => Some(vec![Expr::Lit(l.clone())]),
            _ => None,
        },
        Pat::Ident(i) => {
            let s = i.ident.to_string();
            if s.len() > 1 && s.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) {
                let i = &i.ident;
                Some(vec![parse_quote!(#i)])
            } else {
                None
            }
        }
        Pat::Path(p) => {
            let s = p.path.segments.last().unwrap().ident.to_string();
            if s.len() > 1 && s.chars().all(|c| c.is_uppercase() || c == '_' || c.is_numeric()) {
                let mut p = p.path.clone();
                shorten(&mut p);
                Some(vec![parse_quote!(#p)])
            } else {
                None
            }
        }
        Pat::Or(o) => {
            let mut v = Vec::new();
            for c in &o.cases {
                v.extend(str_pats(c)?);
            }
            Some(v)
        }
        Pat::Reference(r) => str_pats(&r.pat),
        _ => None,
    }
}

struct Brk<'a> {
    depth: usize,
    found: bool,
    label: Option<&'a Lifetime>,
}
impl VisitMut for Brk<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                return;
            }
            Expr::Closure(_) => return,
            Expr::Break(b) if b.label.is_none() && self.depth == 0 => {
                self.found = true;
                if let Some(l) = self.label {
                    b.label = Some(l.clone());
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn has_break(b: &Block) -> bool {
    let mut v = Brk { depth: 0, found: false, label: None };
    v.visit_block_mut(&mut b.clone());
    v.found
}
fn relabel(b: &mut Block, l: &Lifetime) {
    let mut v = Brk { depth: 0, found: false, label: Some(l) };
    v.visit_block_mut(b);
}

// -------------------------------------------------------------------- return elimination
fn diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(i), _)) => {
            diverges(&i.then_branch)
                && match &i.else_branch {
                    Some((_, e)) => match &**e {
                        Expr::Block(b) => diverges(&b.block),
                        Expr::If(_) => diverges(&parse_quote!({ #e })),
                        _ => false,
                    },
                    None => false,
                }
        }
        _ => false,
    }
}
fn has_ret_stmt(s: &Stmt) -> bool {
    flow(|f| f.visit_stmt(s)).ret
}
/// Turn early returns into if/else nesting
pub fn elim_return(b: Block) -> Option<Block> {
    let idx = match b.stmts.iter().position(has_ret_stmt) {
        Some(i) => i,
        None => return Some(b),
    };
    let mut out: Vec<Stmt> = b.stmts[..idx].to_vec();
    let rest: Vec<Stmt> = b.stmts[idx + 1..].to_vec();
    let with_rest = |blk: &Block| -> Option<Block> {
        if diverges(blk) {
            elim_return(blk.clone())
        } else {
            let mut s = blk.stmts.clone();
            // value of a non diverging branch is ()
            if let Some(Stmt::Expr(e, semi @ None)) = s.last_mut() {
                if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Block(_)) {
                    *semi = Some(Default::default());
                }
            }
            s.extend(rest.iter().cloned());
            elim_return(Block { brace_token: Default::default(), stmts: s })
        }
    };
    match &b.stmts[idx] {
        Stmt::Expr(Expr::Return(r), _) => {
            let x: Expr = match &r.expr {
                Some(x) => (**x).clone(),
                None => parse_quote!(()),
            };
            if flow(|f| f.visit_expr(&x)).ret {
                return None;
            }
            out.push(Stmt::Expr(x, None));
        }
        Stmt::Expr(Expr::If(i), _) => {
            if flow(|f| f.visit_expr(&i.cond)).ret {
                return None;
            }
            let els: Block = match &i.else_branch {
                None => parse_quote!({}),
                Some((_, e)) => match &**e {
                    Expr::Block(b) => b.block.clone(),
                    e => parse_quote!({ #e }),
                },
            };
            if rest.is_empty() {
                // tail position
                let t = elim_return(i.then_branch.clone())?;
                let f = elim_return(els)?;
                let c = &i.cond;
                out.push(Stmt::Expr(parse_quote!(if #c #t else #f), None));
            } else {
                if !diverges(&i.then_branch) && !diverges(&els) && rest.len() > 3 {
                    return None;
                }
                let t = with_rest(&i.then_branch)?;
                let f = with_rest(&els)?;
                let c = &i.cond;
                out.push(Stmt::Expr(parse_quote!(if #c #t else #f), None));
            }
        }
        Stmt::Expr(Expr::Match(m), _) => {
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                let blk: Block = match &*a.body {
                    Expr::Block(b) => b.block.clone(),
                    e @ Expr::Return(_) => parse_quote!({ #e; }),
                    e => parse_quote!({ #e }),
                };
                let r = if rest.is_empty() { elim_return(blk)? } else { with_rest(&blk)? };
                *a.body = parse_quote!(#r);
            }
            out.push(Stmt::Expr(Expr::Match(m), None));
        }
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let pat = &l.pat;
            if let Some((_, els)) = &init.diverge {
                let Expr::Block(eb) = &**els else { return None };
                let d = elim_return(eb.block.clone())?;
                let x = &init.expr;
                let r = elim_return(Block { brace_token: Default::default(), stmts: rest })?;
                out.push(Stmt::Expr(parse_quote!(match #x { #pat => #r, _ => #d }), None));
            } else if let Expr::Match(m) = &*init.expr {
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    let ret = flow(|f| f.visit_expr(&a.body)).ret;
                    if ret {
                        let blk: Block = match &*a.body {
                            Expr::Block(b) => b.block.clone(),
                            e => parse_quote!({ #e; }),
                        };
                        let d = elim_return(blk)?;
                        *a.body = parse_quote!(#d);
                    } else {
                        let v = &a.body;
                        let r = elim_return(Block { brace_token: Default::default(), stmts: rest.clone() })?;
                        let s = &r.stmts;
                        *a.body = parse_quote!({ let #pat = #v; #(#s)* });
                    }
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
            } else {
                return None;
            }
        }
        _ => return None,
    }
    Some(Block { brace_token: Default::default(), stmts: out })
}

/// names introduced by let, for-patterns, match arms, in order
pub fn locals(b: &Block) -> Vec<String> {
    let mut bd = Bound::default();
    bd.visit_block(b);
    let mut seen = BTreeSet::new();
    bd.0.into_iter().filter(|n| !n.starts_with("__") && seen.insert(n.clone())).collect()
}

fn one_char(e: &Expr) -> Option<char> {
    let Expr::Lit(l) = strip_parens(e) else { return None };
    let Lit::Str(s) = &l.lit else { return None };
    let s = s.value();
    let mut i = s.chars();
    match (i.next(), i.next()) {
        (Some(c), None) => Some(c),
        _ => None,
    }
}

pub fn type_name(t: &Type) -> Option<String> {
    ty_name(t)
}

/// The arguments of a log message whose evaluation can panic or change something
fn log_args(m: &Macro) -> Vec<Expr> {
    struct Risky(bool);
    impl<'a> Visit<'a> for Risky {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Index(_) | Expr::Try(_) | Expr::Assign(_) | Expr::Return(_) => self.0 = true,
                Expr::Binary(b) => {
                    if !matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)) {
                        self.0 = true;
                    }
                }
                Expr::Macro(m) => {
                    if !m.mac.path.is_ident("format") || !log_args(&m.mac).is_empty() {
                        self.0 = true;
                    }
                }
                Expr::MethodCall(c) => {
                    const PURE: [&str; 32] = [
                        "len", "is_empty", "display", "to_string", "clone", "as_ref", "as_str", "iter", "keys", "values", "elapsed", "as_millis",
                        "as_micros", "as_secs", "to_owned", "location", "id", "kind", "trim", "trim_start", "trim_end", "is_some", "is_none", "to_string_lossy", "as_deref",
                        "file_name", "file_stem", "parent", "map", "count", "collect", "span",
                    ];
                    if !PURE.contains(&c.method.to_string().as_str()) {
                        self.0 = true;
                    }
                }
                _ => {}
            }
            visit::visit_expr(self, e);
        }
    }
    let Ok(args) = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()) else {
        return vec![];
    };
    args.into_iter()
        .filter_map(|a| {
            let a = match a {
                Expr::Assign(a) => *a.right,
                a => a,
            };
            let mut r = Risky(false);
            r.visit_expr(&a);
            r.0.then_some(a)
        })
        .collect()
}
