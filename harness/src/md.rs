//! C12-C14: Markdown requirements
use crate::{diff, Case, Env, Rng};
use reqtrace::models::*;
use std::collections::BTreeMap;
use std::io::{self, BufRead, Read};
use std::path::Path;

const PATH: &str = "dir/file.md";

/// reader that fails once a number of bytes is read
pub struct Failing<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub fail_at: Option<usize>,
    pub step: usize,
}
impl Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = {
            let b = self.fill_buf()?;
            let n = b.len().min(buf.len());
            buf[..n].copy_from_slice(&b[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Failing<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let end = self.fail_at.unwrap_or(self.data.len());
        if Some(self.pos) == self.fail_at {
            return Err(io::Error::other("broken"));
        }
        Ok(&self.data[self.pos..end.min(self.pos + self.step)])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}

#[derive(Debug, Clone)]
enum Kind {
    Empty,
    Req(String, String),
    Heading,
    Text,
}

pub fn ident_prefix(s: &str) -> Option<(&str, &str)> {
    let mut end = 0;
    for (n, (i, c)) in s.char_indices().enumerate() {
        if n == 0 && !unicode_ident::is_xid_start(c) {
            return None;
        }
        if n > 0 && !unicode_ident::is_xid_continue(c) {
            break;
        }
        end = i + c.len_utf8();
    }
    if s[..end].chars().count() < 2 {
        None
    } else {
        Some((&s[..end], &s[end..]))
    }
}
fn kind(l: &str) -> Kind {
    if l == "\n" || l == "\r\n" {
        return Kind::Empty;
    }
    if !l.starts_with('#') {
        return Kind::Text;
    }
    let rest = l.trim_start_matches('#').trim_start();
    if let Some((id, rest)) = ident_prefix(rest) {
        if let Some(t) = rest.strip_prefix(':') {
            if !t.trim().is_empty() {
                return Kind::Req(id.into(), t.trim().into());
            }
        }
    }
    Kind::Heading
}
fn attribute(l: &str) -> Option<(&str, &str)> {
    let (name, v) = l.split_once(':')?;
    let mut ch = name.chars();
    if !ch.next()?.is_ascii_uppercase() || name.len() < 2 || !ch.all(|c| c.is_ascii_lowercase()) {
        return None;
    }
    let v = v.strip_suffix('\n').unwrap_or(v);
    Some((name, v.trim_start()))
}
/// `* ID: Title`
fn bullet(l: &str) -> Option<(&str, Option<&str>)> {
    let l = l.trim_start();
    let l = l.strip_prefix(['*', '+', '-'])?;
    let t = l.trim_start();
    if t.len() == l.len() {
        return None;
    }
    let (id, rest) = ident_prefix(t)?;
    match rest.strip_prefix(':') {
        Some(t) if !t.trim().is_empty() => Some((id, Some(t.trim()))),
        Some(_) => None,
        None if rest.trim().is_empty() => Some((id, None)),
        None => None,
    }
}

#[derive(Debug, Clone, PartialEq, Default)]
struct Req {
    id: String,
    title: String,
    line: usize,
    covers: Vec<(String, Option<String>, usize)>,
    depends: Vec<(String, Option<String>, usize)>,
    attributes: BTreeMap<String, String>,
}
#[derive(Debug, Clone, PartialEq)]
enum Err_ {
    Format(usize),
    Dup(usize, String, String),
    Io,
}

struct Parsed {
    reqs: Vec<Req>,
    errs: Vec<Err_>,
    /// the last requirement has a malformed line and no heading follows
    f1: bool,
}

fn reference(data: &[u8], fail_at: Option<usize>) -> Parsed {
    let data = &data[..fail_at.unwrap_or(data.len())];
    let mut lines: Vec<String> = Vec::new();
    let mut io = fail_at.is_some();
    for l in data.split_inclusive(|b| *b == b'\n') {
        match std::str::from_utf8(l) {
            Ok(s) => lines.push(s.to_string()),
            Err(_) => {
                io = true;
                break;
            }
        }
    }
    let mut p = Parsed { reqs: vec![], errs: vec![], f1: false };
    // blocks: heading .. next heading
    let mut i = 0;
    while i < lines.len() {
        let Kind::Req(id, title) = kind(&lines[i]) else {
            i += 1;
            continue;
        };
        let mut end = i + 1;
        while end < lines.len() && matches!(kind(&lines[end]), Kind::Empty | Kind::Text) {
            end += 1;
        }
        let mut q = Req { id, title, line: i + 1, ..Default::default() };
        let bad = body(&lines[i + 1..end], i + 2, &mut q, &mut p.errs);
        p.f1 = bad && end == lines.len();
        p.reqs.push(q);
        i = end;
    }
    if io {
        p.errs.push(Err_::Io);
    }
    p
}

/// true if a malformed line ended it
fn body(lines: &[String], first: usize, q: &mut Req, errs: &mut Vec<Err_>) -> bool {
    let empty = |l: &String| l == "\n" || l == "\r\n";
    let mut i = 0;
    while i < lines.len() && empty(&lines[i]) {
        i += 1;
    }
    // description: up to an attribute that follows an empty line
    let mut desc = String::new();
    let mut para = true;
    while i < lines.len() {
        if para && attribute(&lines[i]).is_some() {
            break;
        }
        para = empty(&lines[i]);
        desc.push_str(if para { "\n" } else { &lines[i] });
        i += 1;
    }
    if !desc.is_empty() {
        q.attributes.insert("Description".into(), desc);
    }
    // attributes
    while i < lines.len() {
        let at = first + i;
        if empty(&lines[i]) {
            i += 1;
            continue;
        }
        let Some((name, v)) = attribute(&lines[i]) else {
            errs.push(Err_::Format(at));
            return true;
        };
        i += 1;
        if name == "Covers" || name == "Depends" {
            let had = if name == "Covers" { !q.covers.is_empty() } else { !q.depends.is_empty() };
            if had {
                errs.push(Err_::Dup(at, name.into(), q.id.clone()));
            }
            let mut list: Vec<(String, Option<String>, usize)> =
                v.split(',').map(str::trim).filter(|x| !x.is_empty()).map(|x| (x.to_string(), None, at)).collect();
            let mut bad = false;
            while i < lines.len() {
                if let Some((id, t)) = bullet(&lines[i]) {
                    list.push((id.into(), t.map(Into::into), first + i));
                    i += 1;
                } else if lines[i].trim().is_empty() {
                    i += 1;
                    break;
                } else {
                    bad = true;
                    break;
                }
            }
            if name == "Covers" {
                q.covers = list;
            } else {
                q.depends = list;
            }
            if bad {
                errs.push(Err_::Format(first + i));
                return true;
            }
        } else {
            if q.attributes.contains_key(name) {
                errs.push(Err_::Dup(at, name.into(), q.id.clone()));
            }
            let mut val = v.to_string();
            while i < lines.len() && attribute(&lines[i]).is_none() {
                if empty(&lines[i]) {
                    val.push('\n');
                } else {
                    if !val.is_empty() && !val.ends_with('\n') {
                        val.push('\n');
                    }
                    val.push_str(&lines[i]);
                }
                i += 1;
            }
            q.attributes.insert(name.into(), val);
        }
    }
    false
}

fn hashes(r: &mut Rng) -> usize {
    1 + if r.chance(1, 8) { r.below(12) } else { r.below(4) }
}
fn doc(r: &mut Rng, size: usize, bytes: bool) -> (Vec<u8>, Option<usize>) {
    let n = r.below(3 + size * 4);
    let crlf = r.chance(1, 8);
    let blank = r.chance(1, 2);
    let mut out: Vec<u8> = Vec::new();
    let mut starts = vec![0usize];
    let ids = ["REQ_1", "REQ_2", "Äb9", "DSG_X", "ab", "req_1", "REQ_1_é", "REQ_10", "REQ_1_", "_r__"];
    if r.chance(1, 60) {
        let far = *r.pick(&[300, 300, 1100, 5000]);
        out.extend(vec![b'\n'; far]);
        starts = (0..=far).collect();
    }
    let many = if r.chance(1, 80) { *r.pick(&[60, 120, 270]) } else { 0 };
    let what = r.below(4);
    for k in 0..n + many {
        let long = ["REQ", &"_LONG".repeat(30)].concat();
        let id = if r.chance(1, 60) { long.as_str() } else { *r.pick(&ids) };
        if k >= n / 2 && k < n / 2 + many {
            let s = match what {
                0 => format!("# M_{k}: Many\n"),
                1 => format!("* M_{k}\n"),
                2 => format!("text {k}\n"),
                _ => format!("A{}: v\n", (b'a' + (k % 26) as u8) as char),
            };
            out.extend(s.as_bytes());
            starts.push(out.len());
            continue;
        }
        if r.chance(1, 200) {
            out.extend(format!("{} {}\n", r.pick(&["# REQ_1:", "Comment:", "* REQ_1:", "text"]), "long line ".repeat(r.below(120) + 20)).as_bytes());
            starts.push(out.len());
            continue;
        }
        let s: String = match r.below(34) {
            0..=4 => format!("{}{}{id}:{}{}{}", "#".repeat(hashes(r)), r.pick(&[" ", "", "  ", "\t"]), r.pick(&[" ", "", "  ", "\t "]), r.pick(&["Title", "A: b", "x", "Mit Ä #", "T ##", "*b* _c_ `d`", "1.", "REQ_2: T"]), r.pick(&["", "", " ", " \t"])),
            5 => format!("{} {}", "#".repeat(hashes(r)), r.pick(&["Plain", "REQ-1: no", "A: short", "", "REQ_1:", "1AB: x", "REQ 1: x"])),
            6 => (*r.pick(&["REQ_1: not a heading", " # REQ_1: indented", "#", "==="])).to_string(),
            7..=9 => format!("Covers:{}", r.pick(&["", " ", " REQ_1", " REQ_1, REQ_2", " REQ_1,,REQ_2 ,", "X1", " REQ_1;REQ_2", " REQ_1; REQ_2, X1", " REQ_1 REQ_2", " REQ_1/REQ_2", " a|b"])),
            10..=12 => format!("Depends:{}", r.pick(&["", " ", " REQ_1", " REQ_1, REQ_2", ",", " REQ_1;REQ_2", " REQ_1 REQ_2;"])),
            13..=17 => format!("{}{}{}{id}{}{}", r.pick(&["", "", "  "]), r.pick(&["*", "*", "-", "+"]), r.pick(&[" ", "   ", "\t"]), r.pick(&["", ": Title", ":Ti: tle", ": T "]), r.pick(&["", "", " "])),
            18 => (*r.pick(&["*REQ_1", "* REQ-1", "* 1AB", "* REQ_1 title", "x * REQ_1", "* A", ". REQ_1", ") REQ_1", "REQ_1", "*"])).to_string(),
            19..=21 => format!("{}:{}", r.pick(&["Comment", "Aim", "Description", "Note", "Tags", "Zz", "Title"]), r.pick(&["", " some text", " x", " ", "tight", " a: b", "  two  ", " * REQ_1", " # x"])),
            22 => (*r.pick(&["covers: REQ_1", "COVERS: REQ_1", "Cov ers: x", " Covers: REQ_1", "C: x", "Covers REQ_1", "Comment2: x", "COmment: x", "Äim: x", "Co: x", "Comment : x", "* Comment: x"])).to_string(),
            23..=25 => (*r.pick(&["some text", "text, text", "  indented", "1. one", "ä", "x", "```", "```rust", "---", "<!--", "-->", "<!-- x -->", "| a | b |", "+++", "\\# REQ_1: x", "[a]: b", "    # REQ_1: code", "end of line\\", "TODO", "&nbsp;", "=======", "___", "trail  ", "\ttab", "a: b", "  Covers: REQ_1", "-", "> q", "Aim"])).to_string(),
            26 => (*r.pick(&[" ", "\t", "  \t "])).to_string(),
            _ => String::new(),
        };
        if bytes && r.chance(1, 30) {
            out.extend([0xff, 0xfe, b'x']);
        }
        out.extend(s.as_bytes());
        // blank titles behind a colon are left open by the property
        out.extend(if crlf && !s.ends_with(':') { &b"\r\n"[..] } else { &b"\n"[..] });
        starts.push(out.len());
        if blank && r.chance(1, 3) {
            out.extend(if crlf { &b"\r\n"[..] } else { &b"\n"[..] });
            starts.push(out.len());
        }
    }
    if r.chance(1, 3) && out.last() == Some(&b'\n') {
        out.pop();
        if out.last() == Some(&b'\r') {
            out.pop();
        }
    }
    let fail = if r.chance(1, 12) { Some((*r.pick(&starts)).min(out.len())) } else { None };
    // only at the start of a line
    let fail = fail.filter(|f| *f == 0 || out[*f - 1] == b'\n');
    (out, fail)
}

fn run(r: &mut Rng, size: usize, c: &mut Case) -> (Parsed, Vec<std::rc::Rc<Requirement>>, Vec<Error>) {
    let (mut d, mut fail) = doc(r, size, true);
    let before = d.clone();
    if sprinkle(r, &mut d) > 0 {
        // blank titles behind a colon are left open by the property
        let open = |l: &str| l.starts_with('#') && ident_prefix(l.trim_start_matches('#').trim_start()).and_then(|x| x.1.strip_prefix(':')).is_some_and(|t| t.trim().is_empty());
        if String::from_utf8_lossy(&d).lines().any(open) {
            d = before;
        } else {
            fail = None;
        }
    }
    let e = reference(&d, fail);
    c.input = format!("{}{}", String::from_utf8_lossy(&d), fail.map(|f| format!("<read error at byte {f}>")).unwrap_or_default());
    c.nontrivial = e.reqs.len() > 1;
    let step = *r.pick(&[1usize, 3, 8192]);
    let (q, errs) = reqtrace::parsers::markdown::parse(&mut Failing { data: &d, pos: 0, fail_at: fail, step }, Path::new(PATH));
    (e, q, errs)
}
fn line(l: &Location) -> usize {
    match l.location_in_file {
        Some(LocationInFile::Line(n)) if l.file == Path::new(PATH) => n,
        _ => usize::MAX,
    }
}
fn refs(v: &[Reference]) -> Vec<(String, Option<String>, usize)> {
    v.iter().map(|x| (x.id.to_string(), x.title.clone(), line(&x.location))).collect()
}

pub fn headings(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let (e, q, _) = run(r, size, c);
    let exp: Vec<(String, Option<String>, usize)> = e.reqs.iter().map(|x| (x.id.clone(), Some(x.title.clone()), x.line)).collect();
    let act: Vec<_> = q.iter().map(|x| (x.id.to_string(), x.title.clone(), line(&x.location))).collect();
    if e.f1 && exp[..exp.len() - 1] == act[..] {
        c.known = Some("F1".into());
    }
    diff("requirements (id, title, line)", &exp, &act)
}
pub fn bodies(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let (e, q, _) = run(r, size, c);
    for x in &e.reqs {
        let Some(a) = q.iter().find(|a| line(&a.location) == x.line) else { continue };
        diff(&format!("attributes of the requirement in line {}", x.line), &x.attributes, &a.attributes)?;
        diff(&format!("covers of the requirement in line {}", x.line), &x.covers, &refs(&a.covers))?;
        diff(&format!("depends of the requirement in line {}", x.line), &x.depends, &refs(&a.depends))?;
        diff("tags", &0, &a.tags.len())?;
    }
    Ok(())
}
pub fn errors(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let (e, q, errs) = run(r, size, c);
    c.nontrivial = !e.errs.is_empty();
    let act: Vec<Err_> = errs
        .iter()
        .map(|x| match x {
            Error::Format(l, _) => Err_::Format(line(l)),
            Error::DuplicateAttribute(l, a, i) => Err_::Dup(line(l), a.clone(), i.to_string()),
            Error::Io(p, _) if p == Path::new(PATH) => Err_::Io,
            x => Err_::Dup(0, format!("{x:?}"), String::new()),
        })
        .collect();
    diff("errors", &e.errs, &act)?;
    // the other requirements are there
    let lines: Vec<usize> = q.iter().map(|x| line(&x.location)).collect();
    for (n, x) in e.reqs.iter().enumerate() {
        if !(e.f1 && n + 1 == e.reqs.len()) && !lines.contains(&x.line) {
            return Err(format!("the requirement in line {} is lost", x.line));
        }
    }
    Ok(())
}

/// puts wide characters into a text, mostly at the ends of lines
pub fn sprinkle(r: &mut Rng, d: &mut Vec<u8>) -> usize {
    let Ok(t) = std::str::from_utf8(d) else { return 0 };
    let mut t = t.to_string();
    let n = if r.chance(1, 3) { 1 + r.below(4) } else { 0 };
    for _ in 0..n {
        let all: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
        let ends: Vec<usize> = t.match_indices('\n').map(|x| x.0).chain([t.len()]).collect();
        let from = if r.chance(2, 3) { &ends } else { &all };
        let at = if r.chance(1, 8) { 0 } else { *r.pick(from) };
        t.insert(at, *r.pick(&['ä', '—', '🦀', '\u{3000}', '\u{a0}', '“', 'İ', '\u{c}', '\u{b}', '\u{85}', '\u{feff}', '\0', '\u{200b}', '\u{2028}', '`', '\\', '<']));
    }
    *d = t.into_bytes();
    n
}
pub fn no_panic(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let (mut d, fail) = doc(r, size, true);
    sprinkle(r, &mut d);
    for _ in 0..r.below(4) {
        if d.is_empty() {
            break;
        }
        let i = r.below(d.len());
        match r.below(3) {
            0 => d[i] = r.next() as u8,
            1 => d.insert(i, *r.pick(&[b'#', b':', b'\n', b'\r', b' ', b'*', 0xc3, 0xe2])),
            _ => d.truncate(i),
        }
    }
    let fail = fail.filter(|f| *f <= d.len());
    c.input = format!("{d:?} {:?} fail at {fail:?}", String::from_utf8_lossy(&d));
    c.nontrivial = d.len() > 10;
    let _ = reqtrace::parsers::markdown::parse(&mut Failing { data: &d, pos: 0, fail_at: fail, step: 7 }, Path::new(PATH));
    Ok(())
}
