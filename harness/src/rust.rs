//! C16: coverage marks in Rust sources
use crate::{diff, Case, Env, Rng};
use reqtrace::models::*;
use std::path::Path;

const PATH: &str = "src/x.rs";

#[derive(Default)]
struct Src {
    text: String,
    line: usize,
    col: usize,
    scope: Vec<(String, (usize, usize))>,
    uniq: usize,
    /// (path, location of the item, referenced id, title, location)
    marks: Vec<(String, (usize, usize), String, Option<String>, (usize, usize))>,
    bad: Vec<usize>,
}
impl Src {
    fn w(&mut self, s: &str) {
        for c in s.chars() {
            if c == '\n' {
                self.line += 1;
                self.col = 0;
            } else {
                self.col += 1;
            }
        }
        self.text.push_str(s);
    }
    fn sp(&mut self, r: &mut Rng) {
        let s = *r.pick(&[" ", "\n", "  ", "\n    ", " /* ä */ ", " // requirement_covered!(NO)\n"]);
        self.w(s);
    }
    fn here(&self) -> (usize, usize) {
        (self.line + 1, self.col)
    }
    fn name(&mut self, p: &str) -> String {
        self.uniq += 1;
        format!("{p}{}", self.uniq)
    }
    fn mark(&mut self, r: &mut Rng) {
        let at = self.here();
        let id = *r.pick(&["REQ_1", "REQ_2", "DSG_A", "Äb", "a", "REQ_1_", "_r__"]);
        let title = *r.pick(&["Title", "A b: c", "", " x ", "Ä, (b)", "a'b"]);
        let (args, ok): (String, Option<(&str, Option<&str>)>) = match r.below(14) {
            0..=4 => (id.to_string(), Some((id, None))),
            5 => (format!("\"{id}\""), Some((id, None))),
            6 | 7 => (format!("{id}, \"{title}\""), Some((id, Some(title)))),
            8 => (format!("{id}: \"{title}\""), Some((id, Some(title)))),
            9 => (String::new(), None),
            10 => ((*r.pick(&["17", "(A)", "'c'", "r\"REQ_1\"", "b\"REQ_1\"", "-", "{A}", "1.5"])).to_string(), None),
            11 => ((*r.pick(&["REQ_1, 17", "REQ_1, REQ_2", "17, \"x\"", "\"REQ_1\", \"x\"", "REQ_1, 'x'", "REQ_1, r\"x\"", "REQ_1, b\"x\""])).to_string(), None),
            12 => ((*r.pick(&["REQ_1 \"x\"", "REQ_1,"])).to_string(), None),
            _ => ((*r.pick(&["REQ_1, \"x\",", "a::b", "A, \"b\", C"])).to_string(), None),
        };
        let (o, c) = *r.pick(&[("(", ")"), ("[", "]"), ("(", ")")]);
        let s = format!("requirement_covered!{o}{args}{c}");
        self.w(&s);
        match ok {
            Some((id, t)) => {
                let path = self.scope.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join("::");
                let loc = self.scope.last().map_or(at, |x| x.1);
                self.marks.push((path, loc, id.into(), t.map(Into::into), at));
            }
            None => self.bad.push(at.0),
        }
    }
    fn block(&mut self, r: &mut Rng, depth: usize) {
        self.w("{");
        let many = if r.chance(1, 1500) { *r.pick(&[20, 70, 130]) } else { 0 };
        for k in 0..many + r.below(4) {
            self.sp(r);
            match if k < many { 0 } else { r.below(16) } {
                0..=3 => {
                    self.mark(r);
                    self.w(";");
                }
                12 => {
                    self.w(r.pick(&["while ", "for _ in "]));
                    self.mark(r);
                    self.w(" ");
                    self.block(r, depth);
                }
                13 => {
                    self.w(r.pick(&["loop ", "unsafe ", "let _ = async ", "let c = move |_: u8| ", "let c = |_: u8, _: u8, (_, _): (u8, u8)| ", "let c = || -> u8 "]));
                    self.block(r, depth);
                    self.w(";");
                }
                14 => {
                    let (a, b) = *r.pick(&[("x.m(1, ", ");"), ("let [_] = [", "];"), ("let _ = (1, ", ");"), ("x = S { a: ", " };"), ("return ", ";"), ("let _ = &mut -", ";"), ("g()?[", "];"), ("*p += ", ".f as u8;")]);
                    self.w(a);
                    self.mark(r);
                    self.w(b);
                }
                15 => {
                    self.w("if let Some(_) = x ");
                    self.block(r, depth);
                    self.w(" else ");
                    self.block(r, depth);
                }
                4 => {
                    self.w("let x = ");
                    self.mark(r);
                    self.w(";");
                }
                5 => {
                    self.w("if ");
                    self.mark(r);
                    self.w(" ");
                    self.block(r, depth);
                }
                6 => {
                    self.w("f(|| ");
                    self.mark(r);
                    self.w(");");
                }
                7 => self.w("println!(\"requirement_covered!(NO)\");"),
                8 => self.w(r.pick(&["other!(requirement_covered!(NO));", "a::requirement_covered!(NO);", "requirement_coverd!(NO);", "requirement_covered::a!(NO);", "my_requirement_covered!(NO);", "requirement_covered_!(NO);", "Requirement_covered!(NO);", "requirement_covered(NO);", "let requirement_covered = 1;", "::std::println!(\"{}\", 1);"])),
                9 => {
                    self.w("match x { _ => ");
                    self.mark(r);
                    self.w(" }");
                }
                10 if depth > 0 => self.item(r, depth - 1),
                _ => self.w("let y = 1;"),
            }
        }
        self.sp(r);
        self.w("}");
    }
    fn func(&mut self, r: &mut Rng, depth: usize) {
        self.func_in(r, depth, false);
    }
    fn func_in(&mut self, r: &mut Rng, depth: usize, in_trait: bool) {
        let kw = *r.pick(&["", "", "", "pub ", "async ", "unsafe ", "const ", "pub(crate) unsafe extern \"C\" ", "#[test]\n", "/// ä requirement_covered!(NO)\n"]);
        let kw = if in_trait { kw.trim_start_matches("pub(crate) ").trim_start_matches("pub ") } else { kw };
        self.w(kw);
        self.w("fn ");
        let n = self.name("f");
        self.scope.push((n.clone(), self.here()));
        self.w(&n);
        let args = *r.pick(&["() ", "() ", "(a: u8) -> u8 ", "<T: Tr>(t: T) where T: Copy ", "<'a>(x: &'a str, _: [u8; 2]) -> &'a str "]);
        self.w(args);
        self.block(r, depth);
        self.scope.pop();
    }
    fn item(&mut self, r: &mut Rng, depth: usize) {
        match r.below(8) {
            0 | 1 => self.func(r, depth),
            2 | 3 => {
                self.w(r.pick(&["mod ", "mod ", "pub mod ", "#[cfg(test)] mod "]));
                let n = self.name("m");
                self.scope.push((n.clone(), self.here()));
                self.w(&n);
                self.w(" {");
                self.items(r, depth);
                self.w("}");
                self.scope.pop();
            }
            4 | 5 => {
                let mut ty = self.name("T");
                let mut shown = ty.clone();
                match r.below(6) {
                    0 => {
                        ty += "<u8>";
                        shown += " < u8 >";
                    }
                    1 => {
                        ty = format!("a::{ty}");
                        shown = format!("a :: {shown}");
                    }
                    _ => {}
                }
                let sym = if r.chance(1, 2) {
                    let mut tr = self.name("Tr");
                    let mut tr_shown = tr.clone();
                    if r.chance(1, 4) {
                        tr = format!("b::{tr}<u8>");
                        tr_shown = format!("b :: {tr_shown} < u8 >");
                    }
                    let neg = if r.chance(1, 8) { "!" } else { "" };
                    self.w(r.pick(&["", "", "unsafe "]));
                    self.w(&format!("impl {neg}{tr} for "));
                    format!("({shown} as {neg}{tr_shown})")
                } else {
                    self.w("impl ");
                    shown
                };
                self.scope.push((sym, self.here()));
                self.w(&ty);
                self.w(" {");
                for _ in 0..r.below(3) {
                    self.sp(r);
                    self.func(r, depth);
                }
                self.sp(r);
                self.w("}");
                self.scope.pop();
            }
            6 => {
                self.w(r.pick(&["trait ", "trait ", "pub trait ", "unsafe trait ", "pub unsafe trait "]));
                let n = self.name("Tr");
                self.scope.push((n.clone(), self.here()));
                self.w(&n);
                self.w(r.pick(&["", "", ": Copy", "<T>: Copy + Clone where T: Copy"]));
                self.w(" {");
                for _ in 0..r.below(3) {
                    self.sp(r);
                    if r.chance(1, 4) {
                        let n = self.name("f");
                        self.w(&format!("fn {n}();"));
                    } else {
                        self.func_in(r, depth, true);
                    }
                }
                self.sp(r);
                self.w("}");
                self.scope.pop();
            }
            _ => {
                let n = self.name("X");
                match r.below(12) {
                    0 | 1 => self.w(&format!("{}mod {n};", r.pick(&["", "pub ", "#[cfg(test)] ", "#[path = \"x.rs\"] "]))),
                    2 => self.w(r.pick(&["use a::b;", "pub use a::{b, c as d};", "extern crate a;", "extern \"C\" { fn f(); }", "struct S(u8);", "pub struct S { a: [u8; 2] }", "union U { a: u8 }", "type T = u8;", "macro_rules! m { () => { requirement_covered!(NO) } }", "enum E { A, B(u8) }", "use requirement_covered;"])),
                    3 => {
                        self.w(&format!("enum {n} {{ A = "));
                        self.mark(r);
                        self.w(" }");
                    }
                    4 => {
                        self.w(&format!("pub static mut {n}: [u8; 1] = ["));
                        self.mark(r);
                        self.w("];");
                    }
                    _ => {
                        self.w(&format!("const {n}: () = "));
                        self.mark(r);
                        self.w(";");
                    }
                }
            }
        }
    }
    fn items(&mut self, r: &mut Rng, depth: usize) {
        for _ in 0..r.below(4) {
            self.sp(r);
            if depth > 0 {
                self.item(r, depth - 1);
            } else {
                self.w("struct S;");
            }
        }
        self.sp(r);
    }
}

pub fn marks(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let mut s = Src::default();
    s.items(r, 1 + size / 2);
    c.input = s.text.clone();
    c.nontrivial = s.marks.len() > 1;
    let (reqs, errs) = reqtrace::parsers::rust::parse(&mut s.text.as_bytes(), Path::new(PATH));
    let lc = |p: (usize, usize)| Location::new_with_line_and_column(PATH.into(), p.0, p.1);
    type Q = (String, Location, Vec<(String, Option<String>, Location)>);
    let mut exp: Vec<Q> = Vec::new();
    for (path, at, id, t, loc) in &s.marks {
        let rf = (id.clone(), t.clone(), lc(*loc));
        match exp.last_mut() {
            Some(l) if l.0 == *path => l.2.push(rf),
            _ => exp.push((path.clone(), lc(*at), vec![rf])),
        }
    }
    let act: Vec<Q> = reqs.iter().map(|q| (q.id.to_string(), q.location.clone(), q.covers.iter().map(|x| (x.id.to_string(), x.title.clone(), x.location.clone())).collect())).collect();
    diff("requirements", &exp, &act)?;
    for q in &reqs {
        diff("depends, title, attributes", &(0, None, 0), &(q.depends.len(), q.title.clone(), q.attributes.len()))?;
    }
    let act: Vec<usize> = errs
        .iter()
        .map(|e| match e {
            Error::Format(Location { file, location_in_file: Some(LocationInFile::LineAndColumn(l, _)) }, _) if file == Path::new(PATH) => *l,
            _ => usize::MAX,
        })
        .collect();
    diff("lines of malformed marks", &s.bad, &act)
}

pub fn no_panic(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let mut s = Src::default();
    s.items(r, 1 + size / 2);
    let mut t: Vec<char> = s.text.chars().collect();
    if !t.is_empty() {
        for _ in 0..r.below(3) {
            let i = r.below(t.len());
            match r.below(3) {
                0 => {
                    t.remove(i);
                }
                1 => t.insert(i, *r.pick(&['{', '}', '(', '"', 'ä', '#', '\'', '\n', ';'])),
                _ => t.truncate(i.max(t.len() / 2)),
            }
            if t.is_empty() {
                break;
            }
        }
    }
    let t: String = t.into_iter().collect();
    c.input = t.clone();
    c.nontrivial = t.len() > 20;
    let (q, e) = reqtrace::parsers::rust::parse(&mut t.as_bytes(), Path::new(PATH));
    let _ = format!("{q:?}{e:?}");
    Ok(())
}
