//! C17-C19: reports
use crate::gen;
use crate::{diff, Case, Env, Rng};
use reqtrace::models::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io;
use std::path::PathBuf;
use std::rc::Rc;

fn ploc(l: &Location) -> String {
    let f = l.file.to_str().unwrap();
    match &l.location_in_file {
        None => f.to_string(),
        Some(LocationInFile::Line(n)) => format!("{f}:{n}"),
        Some(LocationInFile::LineAndColumn(n, k)) => format!("{f}:{n}:{k}"),
        Some(LocationInFile::String(s)) => format!("{f}:{s}"),
    }
}
fn prel(r: &Relation) -> String {
    format!("{} => [{}]", r.upper, r.lower.iter().map(ToString::to_string).collect::<Vec<_>>().join(", "))
}
fn title(q: &Requirement, none: &str) -> String {
    q.title.clone().unwrap_or_else(|| none.to_string())
}

/// without duplicates and with further errors
fn traced(r: &mut Rng, size: usize, c: &mut Case) -> (Graph, TracedGraph) {
    let mut g = gen::graph(r, size);
    let mut seen = BTreeSet::new();
    for a in g.artefacts.values_mut() {
        Rc::get_mut(a).unwrap().requirements.retain(|k, _| seen.insert(k.clone()));
    }
    let mut t = reqtrace::trace::trace(&g);
    let reqs: Vec<Rc<Requirement>> = g.artefacts.values().flat_map(|a| a.requirements.values().cloned()).collect();
    let mut u = 1000;
    for _ in 0..r.below(4) {
        let i = r.below(t.errors.len() + 1);
        let e = if !t.errors.is_empty() && r.chance(1, 3) { t.errors[r.below(t.errors.len())].clone() } else { gen::error(r, &reqs, &mut u) };
        t.errors.insert(i, e);
    }
    c.input = format!("{}tracing errors: {:?}", gen::dump(&g), t.errors);
    c.nontrivial = t.traced_relations.iter().any(|x| !x.covered.is_empty());
    (g, t)
}

fn gnu_err(e: &Error) -> String {
    let none = "<no title>";
    match e {
        Error::Format(l, m) => format!("{}: {m}\n", ploc(l)),
        Error::DuplicateRequirement(a, b) => format!("{}: Duplicate Requirement: {}\n{}: note: previously seen here\n", ploc(&b.location), a.id, ploc(&a.location)),
        Error::DuplicateAttribute(l, a, q) => format!("{}: {q} has duplicate Attribute: {a}\n", ploc(l)),
        Error::Io(p, m) => format!("{}: IO Error: {m}\n", p.to_str().unwrap()),
        Error::UnusedRelation(_) | Error::Config(_) | Error::DuplicateArtefact(_) | Error::UnknownArtefact(_) | Error::EmptyGraph => format!("Error in config file: {e:?}\n"),
        Error::CoveredWithWrongTitle { upper, wrong_title, location, .. } => {
            format!("{}: {} covered with wrong title. Expected {:?}, actual {:?}\n{}: note: Defined here\n", ploc(location), upper.id, title(upper, none), wrong_title, ploc(&upper.location))
        }
        Error::DependWithWrongTitle { lower, wrong_title, location, .. } => {
            format!("{}: {} depended with wrong title. Expected {:?}, actual {:?}\n{}: note: Defined here\n", ploc(location), lower.id, title(lower, none), wrong_title, ploc(&lower.location))
        }
        Error::DependOnUnknownRequirement(q, d, l) => format!("{}: {} Depends on unknown requirement {d}\n", ploc(l), q.id),
        Error::CoversUnknownRequirement(q, d, l) => format!("{}: {} Covers unknown requirement {d}\n", ploc(l), q.id),
        Error::ReferencedWithoutTitle { referenced, location } => format!("{}: should reference {} with title {:?}\n", ploc(location), referenced.id, title(referenced, none)),
        Error::RequirementWithoutTitle(q) => format!("{}: requirement {} without title in artefact that requires referencing with title\n", ploc(&q.location), q.id),
    }
}

fn expect_gnu(t: &TracedGraph) -> String {
    let mut s = String::from("# Parsing Errors\n");
    for a in t.artefacts.values() {
        a.errors.iter().for_each(|e| s += &gnu_err(e));
    }
    s += "# Tracing Errors\n";
    t.errors.iter().for_each(|e| s += &gnu_err(e));
    s += "# Uncovered Requirement\n";
    for rel in &t.traced_relations {
        let _ = writeln!(s, "## {}", prel(&rel.relation));
        for id in &rel.uncovered {
            let q = &t.artefacts[&rel.relation.upper].requirements[id];
            let _ = writeln!(s, "{}: {id} Uncovered", ploc(&q.location));
        }
    }
    s += "Derived Requirement\n";
    for (a, l) in &t.derived {
        let _ = writeln!(s, "## {a}");
        for id in l {
            let _ = writeln!(s, "{}: {id} Derived", ploc(&t.artefacts[a].requirements[id].location));
        }
    }
    s
}
/// line by line, so that a difference is easy to see
fn lines(what: &str, exp: &str, act: &[u8]) -> Result<(), String> {
    let act = std::str::from_utf8(act).map_err(|e| e.to_string())?;
    if exp == act {
        return Ok(());
    }
    let e: Vec<&str> = exp.split('\n').collect();
    let a: Vec<&str> = act.split('\n').collect();
    let i = e.iter().zip(&a).take_while(|(x, y)| x == y).count();
    Err(format!("{what}: line {} differs:\n  expected {:?}\n  actual   {:?}\nexpected text:\n{exp}\nactual text:\n{act}", i + 1, e.get(i), a.get(i)))
}

pub fn gnu(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let (_, t) = traced(r, size, c);
    let mut out = Vec::new();
    reqtrace::formatters::tracing(&t, &Format::GnuError, &mut out).map_err(|e| format!("unexpected error {e}"))?;
    lines("GNU report", &expect_gnu(&t), &out)
}

struct Limited {
    left: usize,
    kind: io::ErrorKind,
}
impl io::Write for Limited {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.left == 0 {
            return Err(io::Error::new(self.kind, "full"));
        }
        let n = b.len().min(self.left);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn fails(r: &mut Rng, len: usize, f: impl Fn(&mut Limited) -> io::Result<()>) -> Result<(), String> {
    let mut at: Vec<usize> = (0..6).map(|_| r.below(len.max(1))).collect();
    at.push(len.saturating_sub(1));
    for left in at.into_iter().filter(|x| *x < len) {
        let kind = *r.pick(&[io::ErrorKind::Other, io::ErrorKind::BrokenPipe, io::ErrorKind::StorageFull]);
        if f(&mut Limited { left, kind }).is_ok() {
            return Err(format!("writing fails ({kind:?}) after {left} of {len} bytes, but success is returned"));
        }
    }
    f(&mut Limited { left: len, kind: io::ErrorKind::Other }).map_err(|e| format!("room for {len} bytes, but failed: {e}"))
}
pub fn gnu_fail(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let (_, t) = traced(r, size, c);
    let n = expect_gnu(&t).len();
    fails(r, n, |w| reqtrace::formatters::tracing(&t, &Format::GnuError, w))
}

// ---------------------------------------------------------------- markdown
fn anchor(s: &str) -> String {
    s.to_lowercase().chars().map(|c| if c == ' ' { '-' } else { c }).filter(|c| c.is_ascii_alphanumeric() || *c == '_' || *c == '-').collect()
}
fn rlink(q: &Requirement) -> String {
    match &q.title {
        Some(t) => format!("[{}](#{} \"{t}\")", q.id, anchor(&format!("{}-{t}", q.id))),
        None => format!("[{}](#{})", q.id, anchor(&q.id.to_string())),
    }
}
fn llink(l: &Location) -> String {
    let f = l.file.to_str().unwrap();
    match &l.location_in_file {
        Some(LocationInFile::Line(n)) => format!("[{f}:{n}](../{f}?plain=1#L{n})"),
        Some(LocationInFile::LineAndColumn(n, k)) => format!("[{f}:{n}:{k}](../{f}?plain=1#L{n})"),
        Some(LocationInFile::String(s)) => format!("[{f}](../{f}):{s}"),
        None => format!("[{f}](../{f})"),
    }
}
fn md_err(e: &Error) -> String {
    let wrong = |how: &str, which: &str, u: &Requirement, l: &Requirement, q: &Requirement, w: &str, at: &Location| {
        format!(
            "*   Requirement {how} with wrong title:\n    *   Upper Requirement {}\n    *   Lower Requirement {}\n    *   Title of {which} Requirement:\n        *    ````{}````\n    *   Title used to cover it:\n        *    ````{w}````\n    *  At: {}\n",
            rlink(u), rlink(l), title(q, ""), ploc(at)
        )
    };
    match e {
        Error::Format(l, m) => format!("*   Format Error: {m}\n    in {}\n", llink(l)),
        // the order of the two places is kept as it is
        Error::DuplicateRequirement(a, b) => format!("*   Duplicate Requirement: {}\n    first seen in {}\n    then again in {}\n", a.id, llink(&b.location), llink(&a.location)),
        Error::DuplicateAttribute(l, a, q) => format!("*   Duplicate Attribute: {a} when parsing {q}\n    {}\n", llink(l)),
        Error::Io(p, m) => format!("*   IO Error: {m}\n   {}\n", p.to_str().unwrap()),
        Error::Config(m) => format!("*   Config Error: {m}\n"),
        Error::DuplicateArtefact(a) => format!("*   Duplicate Artefact: {a}\n"),
        Error::UnknownArtefact(a) => format!("*    Unknown Artefact: {a}\n"),
        Error::CoveredWithWrongTitle { upper, lower, wrong_title, location } => wrong("covered", "Upper", upper, lower, upper, wrong_title, location),
        Error::DependWithWrongTitle { upper, lower, wrong_title, location } => wrong("depended on", "Lower", upper, lower, lower, wrong_title, location),
        Error::DependOnUnknownRequirement(q, d, l) => format!("*   {} depends on unknown Requirement {d}\n    {}\n", rlink(q), llink(l)),
        Error::CoversUnknownRequirement(q, d, l) => format!("*   {} covers unknown Requirement {d}\n    {}\n", rlink(q), llink(l)),
        Error::EmptyGraph => "Tracing Graph is empty\n".to_string(),
        Error::UnusedRelation(x) => format!("*   No requirement was traced along the relation {}. (Configuration error?)\n", prel(x)),
        Error::ReferencedWithoutTitle { referenced, location } => format!("*   {} covered without title\n    {}\n", rlink(referenced), ploc(location)),
        Error::RequirementWithoutTitle(q) => format!("*   Requirement {} without title in artefact that requires referencing with title\n", rlink(q)),
    }
}
fn head(s: &mut String, name: &str) {
    let _ = write!(s, "\n\n# {name}\n\n");
}
fn sub(s: &mut String, name: &str) {
    let _ = write!(s, "\n## {name}\n\n");
}
fn input_errors(s: &mut String, arts: &BTreeMap<ArtefactId, Rc<Artefact>>) {
    if arts.values().any(|a| !a.errors.is_empty()) {
        head(s, "Input Errors");
    }
    for a in arts.values().filter(|a| !a.errors.is_empty()) {
        sub(s, &a.id.to_string());
        a.errors.iter().for_each(|e| *s += &md_err(e));
    }
}
fn attributes(s: &mut String, q: &Requirement) {
    for (k, v) in q.attributes.iter().filter(|x| x.0 != "Description" && !x.1.trim().is_empty()) {
        let _ = write!(s, "\n{k}:\n{}\n", v.trim());
    }
}
fn expect_trace(t: &TracedGraph) -> String {
    let mut s = String::new();
    let all: BTreeMap<&RequirementId, &Requirement> = t.artefacts.values().flat_map(|a| a.requirements.iter().map(|(k, v)| (k, &**v))).collect();
    input_errors(&mut s, &t.artefacts);
    if !t.errors.is_empty() {
        head(&mut s, "Tracing Errors");
        let mut seen = BTreeSet::new();
        for e in &t.errors {
            let m = md_err(e);
            if seen.insert(m.clone()) {
                s += &m;
            }
        }
    }
    if t.traced_relations.iter().any(|x| !x.uncovered.is_empty()) {
        head(&mut s, "Uncovered Requirements");
    }
    for x in t.traced_relations.iter().filter(|x| !x.uncovered.is_empty()) {
        sub(&mut s, &prel(&x.relation));
        x.uncovered.iter().for_each(|i| s += &format!("*   {}\n", rlink(all[i])));
    }
    if t.derived.values().any(|x| !x.is_empty()) {
        head(&mut s, "Derived Requirements");
    }
    for (a, l) in t.derived.iter().filter(|x| !x.1.is_empty()) {
        sub(&mut s, &a.to_string());
        l.iter().for_each(|i| s += &format!("*   {}\n", rlink(all[i])));
    }
    head(&mut s, "Requirements");
    for a in t.artefacts.values() {
        let _ = writeln!(s, "## {}", a.id);
        for q in a.requirements.values() {
            let _ = write!(s, "\n### {}{}\n\nOrigin: {}, {}\n", q.id, q.title.as_ref().map_or(String::new(), |x| format!(": {x}")), a.id, llink(&q.location));
            if let Some(d) = q.attributes.get("Description") {
                let _ = write!(s, "\n\n{d}\n");
            }
            attributes(&mut s, q);
            let mut up: BTreeMap<&Relation, Vec<(&Requirement, &Location)>> = BTreeMap::new();
            let mut down = up.clone();
            for x in &t.traced_relations {
                if x.relation.upper == a.id {
                    down.entry(&x.relation).or_default().extend(x.covered.iter().filter(|c| c.upper == q.id).map(|c| (all[&c.lower], &c.location)));
                }
                if x.relation.lower.contains(&a.id) {
                    up.entry(&x.relation).or_default().extend(x.covered.iter().filter(|c| c.lower == q.id).map(|c| (all[&c.upper], &c.location)));
                }
            }
            s += "\nUpwards Tracing:\n";
            for (rel, l) in &up {
                let _ = writeln!(s, "*   {}", prel(rel));
                for (q, at) in l {
                    let _ = write!(s, "    *   {}\n        Reference: {}\n", rlink(q), llink(at));
                }
            }
            if up.values().all(Vec::is_empty) {
                s += "    *   Derived\n";
            }
            s += "\nDownwards Tracing:\n";
            for (rel, l) in &down {
                let _ = writeln!(s, "*   {}", prel(rel));
                if l.is_empty() {
                    s += "    *    UNCOVERED\n";
                }
                for (q, at) in l {
                    let _ = write!(s, "    *   {}\n        Reference: {}\n", rlink(q), llink(at));
                }
            }
        }
    }
    s
}
pub fn markdown_trace(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let (_, t) = traced(r, size, c);
    let mut out = Vec::new();
    reqtrace::formatters::tracing(&t, &Format::Markdown, &mut out).map_err(|e| format!("unexpected error {e}"))?;
    lines("Markdown trace report", &expect_trace(&t), &out)
}
pub fn markdown_trace_fail(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let (_, t) = traced(r, size, c);
    let n = expect_trace(&t).len();
    fails(r, n, |w| reqtrace::formatters::tracing(&t, &Format::Markdown, w))
}

// ---------------------------------------------------------------- exports
fn expect_reqs(g: &Graph) -> String {
    let mut s = String::new();
    input_errors(&mut s, &g.artefacts);
    let mut all: Vec<&Requirement> = g.artefacts.values().flat_map(|a| a.requirements.values().map(|x| &**x)).collect();
    all.sort_by_key(|q| q.id.to_string()); // stable: artefact order among equal ids
    for q in all {
        let _ = write!(s, "\n### {}: {}\n\nOrigin: {}\n", q.id, title(q, ""), llink(&q.location));
        if let Some(d) = q.attributes.get("Description") {
            let _ = write!(s, "\n\n{d}\n");
        }
        for (name, l) in [("Covers", &q.covers), ("Depends", &q.depends)] {
            if !l.is_empty() {
                let _ = write!(s, "\n{name}:\n");
                for x in l.iter() {
                    let _ = writeln!(s, "*   {}{}", x.id, x.title.as_ref().map_or(String::new(), |t| format!(": {t}")));
                }
            }
        }
        attributes(&mut s, q);
    }
    s
}
fn export(g: &Graph, f: &Format) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    reqtrace::formatters::requirements(g, f, &mut out).map_err(|e| format!("unexpected error {e}"))?;
    Ok(out)
}
fn plain(r: &mut Rng, size: usize, c: &mut Case) -> Graph {
    let g = gen::graph(r, size);
    c.input = gen::dump(&g);
    c.nontrivial = g.artefacts.values().map(|a| a.requirements.len()).sum::<usize>() > 1;
    g
}
pub fn markdown_reqs(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let g = plain(r, size, c);
    lines("Markdown export", &expect_reqs(&g), &export(&g, &Format::Markdown)?)
}
const TAGS: &str = "!_TAG_FILE_SORTED\t1\t/0=unsorted, 1=sorted, 2=foldcase/\n!_TAG_PROGRAM_NAME\treqtrace/\n!_TAG_PROGRAM_URL\thttps://github.com/wonkodv/reqtrace/\n!_TAG_PROGRAM_VERSION\t0\t//\n";
fn expect_tags(g: &Graph) -> String {
    let mut l: Vec<String> = Vec::new();
    for q in g.artefacts.values().flat_map(|a| a.requirements.values()) {
        if let Some(LocationInFile::Line(n) | LocationInFile::LineAndColumn(n, _)) = &q.location.location_in_file {
            l.push(format!("{}\t{}\t{n};\"\tr\n", q.id, q.location.file.to_str().unwrap()));
        }
    }
    l.sort();
    TAGS.to_string() + &l.concat()
}
pub fn tags(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let g = plain(r, size, c);
    lines("tags", &expect_tags(&g), &export(&g, &Format::Tags)?)
}
fn jloc(l: &Location) -> serde_json::Value {
    let p = match &l.location_in_file {
        None => serde_json::Value::Null,
        Some(LocationInFile::Line(n)) => serde_json::json!({ "Line": n }),
        Some(LocationInFile::LineAndColumn(n, k)) => serde_json::json!({ "LineAndColumn": [n, k] }),
        Some(LocationInFile::String(s)) => serde_json::json!({ "String": s }),
    };
    serde_json::json!({"file": l.file.to_str().unwrap(), "location_in_file": p})
}
fn jreq(q: &Requirement) -> serde_json::Value {
    let rf = |v: &[Reference]| v.iter().map(|x| serde_json::json!({"id": x.id.to_string(), "title": x.title, "location": jloc(&x.location)})).collect::<Vec<_>>();
    serde_json::json!({"id": q.id.to_string(), "title": q.title, "location": jloc(&q.location), "covers": rf(&q.covers), "depends": rf(&q.depends), "tags": q.tags, "attributes": q.attributes})
}
pub fn json_reqs(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let g = plain(r, size, c);
    let v: serde_json::Value = serde_json::from_slice(&export(&g, &Format::Json)?).map_err(|e| format!("not JSON: {e}"))?;
    let mut all: Vec<&Requirement> = g.artefacts.values().flat_map(|a| a.requirements.values().map(|x| &**x)).collect();
    all.sort_by_key(|q| q.id.to_string());
    let exp: Vec<serde_json::Value> = all.iter().map(|q| jreq(q)).collect();
    diff("JSON requirements", &serde_json::Value::from(exp), &v["requirements"])?;
    let mut exp: Vec<String> = g.artefacts.values().flat_map(|a| a.errors.iter()).map(|e| serde_json::to_value(e).unwrap().to_string()).collect();
    let mut act: Vec<String> = v["errors"].as_array().ok_or("no errors")?.iter().map(ToString::to_string).collect();
    exp.sort();
    act.sort();
    diff("JSON errors", &exp, &act)
}
pub fn unsupported(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let (g, t) = traced(r, size, c);
    c.nontrivial = true;
    for f in [Format::GnuError, Format::TemplateFile(PathBuf::from("x")), Format::TemplateString("x".into())] {
        let mut out = Vec::new();
        if reqtrace::formatters::requirements(&g, &f, &mut out).is_ok() {
            return Err(format!("requirements as {f:?} succeeds"));
        }
    }
    for f in [Format::Tags, Format::TemplateFile(PathBuf::from("x")), Format::TemplateString("x".into())] {
        let mut out = Vec::new();
        if reqtrace::formatters::tracing(&t, &f, &mut out).is_ok() {
            return Err(format!("tracing as {f:?} succeeds"));
        }
    }
    Ok(())
}
pub fn export_fail(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let g = plain(r, size, c);
    for f in [Format::Tags, Format::Markdown, Format::Json] {
        let n = export(&g, &f)?.len();
        fails(r, n, |w| reqtrace::formatters::requirements(&g, &f, w)).map_err(|e| format!("{f:?}: {e}"))?;
    }
    Ok(())
}

/// with redefined ids as well
pub fn no_panic(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let g = plain(r, size, c);
    let t = reqtrace::trace::trace(&g);
    let mut out = Vec::new();
    for f in [Format::GnuError, Format::Markdown, Format::Json, Format::Tags, Format::TemplateString(String::new())] {
        let _ = reqtrace::formatters::tracing(&t, &f, &mut out);
        let _ = reqtrace::formatters::requirements(&g, &f, &mut out);
    }
    Ok(())
}
