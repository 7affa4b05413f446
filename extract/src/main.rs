mod desugar;
mod print;
mod table;

use desugar::{mangle, txt, D};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use syn::*;
use table::{Func, Table};

fn main() {
    let src = std::env::args().nth(1).expect("source directory");
    let mut inp = String::new();
    std::io::stdin().read_to_string(&mut inp).unwrap();
    let req: Value = serde_json::from_str(&inp).unwrap();
    let mut table = match Table::load(std::path::Path::new(&src)) {
        Ok(t) => t,
        Err(e) => {
            println!("{}", json!({ "error": e }));
            return;
        }
    };
    let strs = |k: &str| -> Vec<String> { req[k].as_array().map(|a| a.iter().map(|v| v.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
    table.respell(&strs("regexes"), &strs("asked"));
    let fns = strs("fns");
    let known: BTreeSet<String> = fns.iter().cloned().chain(strs("external")).collect();
    let ends: BTreeSet<String> = strs("end_markers").into_iter().collect();
    let mut out_fns = serde_json::Map::new();
    for id in &fns {
        let v = match table.funcs.get(id) {
            None => json!({"missing": true}),
            Some(f) => extract_fn(&table, &known, f, ends.contains(id)),
        };
        out_fns.insert(id.clone(), v);
    }
    let mut out_ty = serde_json::Map::new();
    for n in strs("types") {
        let v = match table.types.get(&n) {
            None => json!({"missing": true}),
            Some((file, it)) => extract_type(file, it),
        };
        out_ty.insert(n, v);
    }
    let mut out_c = serde_json::Map::new();
    for n in strs("consts") {
        let v = match table.consts.get(&n) {
            None => json!({"missing": true}),
            Some((_, Item::Const(c))) => {
                let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                let t = txt(t);
                let t = if t == "& str" { "&'static str".to_string() } else { t };
                json!({"text": format!("pub const {}: {} = {};", i, t, txt(e))})
            }
            Some((_, Item::Static(c))) => {
                let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                json!({"text": format!("pub const {}: {} = {};", i, txt(t), txt(e))})
            }
            _ => json!({"missing": true}),
        };
        out_c.insert(n, v);
    }
    let impls: Vec<&String> = table.impls.keys().collect();
    let all: Vec<&String> = table.funcs.keys().collect();
    println!("{}", serde_json::to_string_pretty(&json!({"fns": out_fns, "types": out_ty, "consts": out_c, "impls": impls, "all_fns": all})).unwrap());
}

fn extract_type(file: &str, it: &Item) -> Value {
    let mut derives: Vec<String> = Vec::new();
    let mut serde: Vec<String> = Vec::new();
    let mut note = |at: &str, attrs: &Vec<Attribute>| {
        for a in attrs.iter().filter(|a| a.path().is_ident("serde")) {
            serde.push(format!("{at}: {}", txt(&a.meta).replace(' ', "")));
        }
    };
    match it {
        Item::Struct(s) => {
            note("", &s.attrs);
            for f in s.fields.iter() {
                note(&f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), &f.attrs);
            }
        }
        Item::Enum(s) => {
            note("", &s.attrs);
            for v in s.variants.iter() {
                note(&v.ident.to_string(), &v.attrs);
                for f in v.fields.iter() {
                    note(&format!("{}.{}", v.ident, f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default()), &f.attrs);
                }
            }
        }
        _ => {}
    }
    let mut take = |attrs: &mut Vec<Attribute>| {
        for a in attrs.iter() {
            if a.path().is_ident("derive") {
                let t = txt(&a.meta.require_list().unwrap().tokens);
                for d in t.split(',') {
                    derives.push(d.trim().rsplit("::").next().unwrap().trim().to_string());
                }
            }
        }
        attrs.clear();
    };
    let fix = |fs: &mut Fields, public: bool| {
        for f in fs.iter_mut() {
            f.attrs.clear();
            f.vis = if public { parse_quote!(pub) } else { Visibility::Inherited };
        }
    };
    struct V;
    impl syn::visit_mut::VisitMut for V {
        fn visit_path_mut(&mut self, p: &mut Path) {
            let n = p.segments.len();
            if n > 1 {
                p.segments = p.segments.iter().skip(n - 1).cloned().collect();
                p.leading_colon = None;
            }
            syn::visit_mut::visit_path_mut(self, p);
        }
    }
    use syn::visit_mut::VisitMut;
    let mut it = it.clone();
    let mut fields = json!(null);
    match &mut it {
        Item::Struct(s) => {
            take(&mut s.attrs);
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                V.visit_type_mut(&mut f.ty);
            }
            fix(&mut s.fields, true);
            fields = json!(s.fields.iter().map(|f| f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default()).collect::<Vec<_>>());
        }
        Item::Enum(s) => {
            take(&mut s.attrs);
            s.vis = parse_quote!(pub);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    V.visit_type_mut(&mut f.ty);
                }
                fix(&mut v.fields, false);
            }
            fields = json!(s.variants.iter().map(|v| v.ident.to_string()).collect::<Vec<_>>());
        }
        _ => {}
    }
    let gen = match &it {
        Item::Struct(s) => txt(&s.generics),
        Item::Enum(s) => txt(&s.generics),
        _ => String::new(),
    };
    json!({"file": file, "text": print::print_inline(it.to_token_stream()), "derives": derives, "serde": serde, "generics": gen, "fields": fields})
}

fn extract_fn(table: &Table, known: &BTreeSet<String>, f: &Func, end: bool) -> Value {
    let mut d = D {
        table,
        known,
        file: f.file.clone(),
        self_ty: f.ty_name.clone(),
        uid: 0,
        unsupported: vec![],
        inlined: vec![],
        dropped: BTreeMap::new(),
        rules: BTreeMap::new(),
        loops: BTreeMap::new(),
        depth: 0,
        try_items: false,
        try_ctx: false,
        let_ty: None,
    };
    let mut body = f.body.clone().unwrap();
    let raw_locals = desugar::locals(&body);
    d.fn_body(&mut body);
    let locals = desugar::locals(&body);
    // signature
    let mut sig = f.sig.clone();
    let mut gens: Vec<String> = Vec::new();
    // type parameters that are iterators become snapshots
    let mut snap_params: BTreeMap<String, Type> = BTreeMap::new();
    let scan = |name: &Ident, bounds: &punctuated::Punctuated<TypeParamBound, Token![+]>, sp: &mut BTreeMap<String, Type>| -> bool {
        for b in bounds {
            if let TypeParamBound::Trait(t) = b {
                let seg = t.path.segments.last().unwrap();
                if seg.ident == "Iterator" || seg.ident == "IntoIterator" {
                    if let PathArguments::AngleBracketed(a) = &seg.arguments {
                        for g in &a.args {
                            if let GenericArgument::AssocType(at) = g {
                                if at.ident == "Item" {
                                    sp.insert(name.to_string(), at.ty.clone());
                                    return true;
                                }
                            }
                        }
                    }
                }
            }
        }
        false
    };
    for p in &sig.generics.params {
        if let GenericParam::Type(t) = p {
            scan(&t.ident, &t.bounds, &mut snap_params);
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                if let Type::Path(tp) = &t.bounded_ty {
                    if let Some(i) = tp.path.get_ident() {
                        scan(i, &t.bounds, &mut snap_params);
                    }
                }
            }
        }
    }
    let mut where_: Vec<String> = Vec::new();
    if let Some(w) = sig.generics.where_clause.take() {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                if let Type::Path(tp) = &t.bounded_ty {
                    if let Some(i) = tp.path.get_ident() {
                        if snap_params.contains_key(&i.to_string()) {
                            continue;
                        }
                    }
                }
            }
            where_.push(txt(p));
        }
    }
    for p in &sig.generics.params {
        match p {
            GenericParam::Type(t) if snap_params.contains_key(&t.ident.to_string()) => {}
            p => gens.push(txt(p)),
        }
    }
    let mut inputs: Vec<String> = Vec::new();
    let mut n = 0;
    struct ST<'a>(&'a BTreeMap<String, Type>);
    impl syn::visit_mut::VisitMut for ST<'_> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t {
                if let Some(i) = p.path.get_ident() {
                    if let Some(x) = self.0.get(&i.to_string()) {
                        *t = parse_quote!(Snap<#x>);
                        return;
                    }
                }
            }
            syn::visit_mut::visit_type_mut(self, t);
        }
    }
    use syn::visit_mut::VisitMut;
    let mut params: Vec<String> = Vec::new();
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                r.attrs.clear();
                params.push("self".into());
                inputs.push(txt(r));
            }
            FnArg::Typed(t) => {
                t.attrs.clear();
                ST(&snap_params).visit_type_mut(&mut t.ty);
                // impl Trait in argument position
                let (inner, pre): (Type, Option<(Option<Lifetime>, bool)>) = match &*t.ty {
                    Type::Reference(r) => ((*r.elem).clone(), Some((r.lifetime.clone(), r.mutability.is_some()))),
                    x => (x.clone(), None),
                };
                if let Type::ImplTrait(it) = &inner {
                    let mut sp = BTreeMap::new();
                    if scan(&Ident::new("X", proc_macro2::Span::call_site()), &it.bounds, &mut sp) {
                        let x = &sp["X"];
                        *t.ty = parse_quote!(Snap<#x>);
                    } else {
                        n += 1;
                        let g = format!("VT{n}");
                        gens.push(format!("{g}: {}", txt(&it.bounds)));
                        let gi = Ident::new(&g, proc_macro2::Span::call_site());
                        *t.ty = match pre {
                            Some((_, true)) => parse_quote!(&mut #gi),
                            Some((_, false)) => parse_quote!(&#gi),
                            None => parse_quote!(#gi),
                        };
                    }
                }
                let mut ty = (*t.ty).clone();
                d.ty(&mut ty);
                if let Pat::Ident(p) = &*t.pat {
                    params.push(p.ident.to_string());
                }
                inputs.push(format!("{}: {}", txt(&t.pat), txt(&ty)));
            }
        }
    }
    let output = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => {
            let mut t = (**t).clone();
            d.ty(&mut t);
            txt(&t)
        }
    };
    // tail
    if end {
        if output.is_empty() {
            if let Some(Stmt::Expr(e, semi @ None)) = body.stmts.last_mut() {
                if !matches!(e, Expr::Block(_) | Expr::If(_) | Expr::Match(_) | Expr::While(_) | Expr::Loop(_)) {
                    *semi = Some(Default::default());
                }
            }
            body.stmts.push(parse_quote!(__vcg!("end");));
        } else if let Some(Stmt::Expr(e, None)) = body.stmts.last().cloned() {
            body.stmts.pop();
            let ty: Type = parse_str(&output).unwrap();
            body.stmts.push(parse_quote!(let __ret: #ty = #e;));
            body.stmts.push(parse_quote!(__vcg!("end");));
            body.stmts.push(Stmt::Expr(parse_quote!(__ret), None));
        }
    }
    let text = print::print(quote!(#body));
    // loop numbers: order of the invariant markers
    let mut order: Vec<usize> = Vec::new();
    let mut rest = text.as_str();
    while let Some(i) = rest.find("__vcinv ! (") {
        rest = &rest[i + 11..];
        let e = rest.find(')').unwrap();
        order.push(rest[..e].trim().parse().unwrap());
    }
    let loops: Vec<Value> = order
        .iter()
        .map(|u| {
            let (k, s) = d.loops.get(u).cloned().unwrap_or_default();
            json!({"uid": u, "kind": k, "src": s})
        })
        .collect();
    let igen = f.impl_generics.as_ref().map(|g| txt(g)).unwrap_or_default();
    json!({
        "id": f.id, "file": f.file, "name": f.name,
        "mangled": match f.trait_name.as_deref().and_then(|t| t.strip_prefix("From<")) {
            _ if f.ty_name.is_none() => mangle(f),
            Some(t) => format!("{}_{}", f.name, t.trim_end_matches('>')),
            None => f.name.clone(),
        },
        "self_ty": f.self_ty.as_ref().map(|t| txt(t)), "ty_name": f.ty_name, "trait": f.trait_name, "impl_generics": igen,
        "generics": gens, "where": where_, "inputs": inputs, "params": params, "output": output,
        "body": text, "locals": locals, "raw_locals": raw_locals, "loops": loops, "unsupported": d.unsupported, "inlined": d.inlined,
        "dropped": d.dropped, "rules": d.rules,
    })
}
