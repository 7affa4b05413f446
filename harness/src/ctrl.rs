//! C06, C09-C11, C20, C21: loading, jobs, exit code
use crate::gen;
use crate::{diff, Case, Env, Rng};
use reqtrace::controller::{parse_from_config, Controller, ControllerError, JobSuccess};
use reqtrace::models::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::rc::Rc;

struct Dir(PathBuf);
impl Dir {
    fn new(env: &Env) -> Dir {
        Dir::named(env, "case")
    }
    fn named(env: &Env, name: &str) -> Dir {
        let p = env.scratch.join(format!("{name}{}", std::process::id()));
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
    fn put(&self, name: &str, data: impl AsRef<[u8]>) -> PathBuf {
        let p = self.0.join(name);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(&p, data).unwrap();
        p
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn art(id: &str, parser: ArtefactParser, paths: &[&str]) -> ArtefactConfig {
    ArtefactConfig { id: id.into(), paths: paths.iter().map(ToString::to_string).collect(), parser, ignore_derived_requirements: None, reference_with_title: None }
}
fn reqs(r: &mut Rng, n: usize, dup: bool, u: &mut usize) -> Vec<Requirement> {
    let mut v: Vec<Requirement> = Vec::new();
    for i in 0..n {
        let id = if dup { *r.pick(&gen::IDS[..4]) } else { gen::IDS[i % gen::IDS.len()] };
        v.push(gen::requirement(r, 2, id, gen::IDS, u));
    }
    v
}
fn opt(r: &mut Rng) -> Option<bool> {
    *r.pick(&[None, Some(true), Some(false)])
}

/// a configuration of JSON artefacts for a random graph
fn config(r: &mut Rng, size: usize, d: &Dir, c: &mut Case) -> Config {
    let neat = r.chance(1, 2);
    let g = if neat { gen::tidy(r, size) } else { gen::graph(r, size) };
    let mut artefacts = Vec::new();
    for a in g.artefacts.values() {
        let f = format!("{}.json", a.id);
        let l: Vec<&Requirement> = a.requirements.values().map(|x| &**x).collect();
        let broken = if neat { !a.errors.is_empty() } else { r.chance(1, 8) };
        if broken {
            d.put(&f, "[");
        } else {
            d.put(&f, serde_json::to_string(&l).unwrap());
        }
        let mut x = art(&a.id.to_string(), ArtefactParser::Json, &[&f]);
        x.ignore_derived_requirements = if neat { Some(a.ignore_derived_requirements) } else { opt(r) };
        x.reference_with_title = if neat { Some(a.reference_with_title) } else { opt(r) };
        if !neat && r.chance(1, 20) {
            x.paths = if r.chance(1, 2) { vec![] } else { vec![f.clone(), f.clone()] };
        }
        c.input += &format!("{x:?} broken={broken}\n");
        artefacts.push(x);
    }
    // the order in the file is no order
    if r.chance(1, 2) {
        artefacts.reverse();
    }
    c.input += &gen::dump(&g);
    Config { version: None, artefacts, relations: g.relations, jobs: Some(BTreeMap::new()), default_jobs: None }
}
fn job(query: Query, format: Format, file: &str, set_return_code: Option<bool>) -> Job {
    Job { query, format, file: file.into(), set_return_code }
}
fn trace_json(ctl: &Controller, d: &Dir) -> Result<serde_json::Value, String> {
    ctl.run(&job(Query::Trace, Format::Json, "x/trace.json", None), "t").map_err(|e| format!("{e}"))?;
    let v: serde_json::Value = serde_json::from_slice(&fs::read(d.0.join("x/trace.json")).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    Ok(v["trace"].clone())
}
fn nonempty(v: &serde_json::Value) -> bool {
    v.as_array().is_some_and(|x| !x.is_empty())
}

// ---------------------------------------------------------------- C06
pub fn duplicates(r: &mut Rng, size: usize, c: &mut Case, env: &Env) -> Result<(), String> {
    let d = Dir::new(env);
    let n = r.below(size + 4) + if r.chance(1, 20) { 160 } else { 0 };
    let mut u = 0;
    let (cfg, expected): (ArtefactConfig, Vec<Rc<Requirement>>) = if r.chance(2, 3) {
        let l = reqs(r, n, true, &mut u);
        d.put("a.json", serde_json::to_string(&l).unwrap());
        (art("A", ArtefactParser::Json, &["a.json"]), l.into_iter().map(Rc::new).collect())
    } else {
        let mut l = Vec::new();
        for f in ["a.rs", "b.rs", "c.rs"] {
            let mut s = String::new();
            for _ in 0..r.below(4) {
                let name = *r.pick(&["f", "g", "h"]);
                s += &format!("fn {name}() {{ requirement_covered!({}); }}\n", r.pick(gen::IDS));
            }
            let p = d.put(f, &s);
            l.extend(reqtrace::parsers::rust::parse(&mut s.as_bytes(), &p).0);
        }
        (art("A", ArtefactParser::Rust, &["*.rs"]), l)
    };
    c.input = format!("{:?} {}", cfg.parser, expected.iter().map(|q| format!("{}@{}", q.id, q.location)).collect::<Vec<_>>().join(" "));
    let (_, map, errs) = parse_from_config(&cfg, &d.0);
    let mut keep: BTreeMap<RequirementId, Rc<Requirement>> = BTreeMap::new();
    let mut exp = Vec::new();
    for q in &expected {
        match keep.get(&q.id) {
            Some(k) => exp.push((format!("{k:?}"), format!("{q:?}"))),
            None => {
                keep.insert(q.id.clone(), q.clone());
            }
        }
    }
    c.nontrivial = !exp.is_empty();
    diff("kept definitions", &format!("{keep:?}"), &format!("{map:?}"))?;
    let act: Vec<(String, String)> = errs
        .iter()
        .filter_map(|e| match e {
            Error::DuplicateRequirement(a, b) => Some((format!("{a:?}"), format!("{b:?}"))),
            _ => None,
        })
        .collect();
    diff("duplicates", &exp, &act)
}

// ---------------------------------------------------------------- C09
pub fn verdict(r: &mut Rng, size: usize, c: &mut Case, env: &Env) -> Result<(), String> {
    let d = Dir::new(env);
    let mut cfg = config(r, size, &d, c);
    // make success likely enough
    if r.chance(1, 2) {
        for a in &mut cfg.artefacts {
            a.ignore_derived_requirements = Some(true);
            a.reference_with_title = Some(false);
        }
        if r.chance(1, 2) {
            cfg.relations.clear();
        }
    }
    c.input += &format!("{:?}", cfg.relations);
    let ctl = Controller::new(cfg, &d.0);
    let t = trace_json(&ctl, &d)?;
    let parse_err = t["artefacts"].as_object().ok_or("artefacts")?.values().any(|a| nonempty(&a["errors"]));
    let uncovered = t["traced_relations"].as_array().ok_or("relations")?.iter().any(|x| nonempty(&x["uncovered"]));
    let derived = t["derived"].as_object().ok_or("derived")?.values().any(nonempty);
    let trace_err = nonempty(&t["errors"]);
    c.nontrivial = true;
    c.input += &format!("\nparse_err={parse_err} uncovered={uncovered} derived={derived} trace_err={trace_err}");
    let word = |b: bool| if b { JobSuccess::ErrorsDetected } else { JobSuccess::Success };
    for f in [Format::GnuError, Format::Markdown, Format::Json] {
        let v = ctl.run(&job(Query::Trace, f.clone(), "o", None), "j").map_err(|e| format!("{f:?}: {e}"))?;
        diff(&format!("trace job with {f:?}"), &word(parse_err || uncovered || derived || trace_err), &v)?;
    }
    for f in [Format::Tags, Format::Markdown, Format::Json] {
        let v = ctl.run(&job(Query::Parse, f.clone(), "o", Some(false)), "j").map_err(|e| format!("{f:?}: {e}"))?;
        diff(&format!("parse job with {f:?}"), &word(parse_err), &v)?;
    }
    Ok(())
}
pub fn written(r: &mut Rng, size: usize, c: &mut Case, env: &Env) -> Result<(), String> {
    written_as(r, size, c, env, |_, _| true)
}
pub fn written_gnu(r: &mut Rng, size: usize, c: &mut Case, env: &Env) -> Result<(), String> {
    written_as(r, size, c, env, |q, f| matches!((q, f), (Query::Trace, Format::GnuError)))
}
pub fn written_markdown(r: &mut Rng, size: usize, c: &mut Case, env: &Env) -> Result<(), String> {
    written_as(r, size, c, env, |q, f| matches!((q, f), (Query::Trace, Format::Markdown)))
}
pub fn written_exports(r: &mut Rng, size: usize, c: &mut Case, env: &Env) -> Result<(), String> {
    written_as(r, size, c, env, |q, _| matches!(q, Query::Parse))
}
fn written_as(r: &mut Rng, size: usize, c: &mut Case, env: &Env, which: fn(&Query, &Format) -> bool) -> Result<(), String> {
    let d = Dir::new(env);
    let cfg = config(r, size, &d, c);
    let ctl = Controller::new(cfg, &d.0);
    c.nontrivial = true;
    d.put("plain", "x");
    d.put("stale", "z".repeat(100_000));
    fs::create_dir_all(d.0.join("dir")).unwrap();
    for (q, f) in [(Query::Trace, Format::GnuError), (Query::Trace, Format::Markdown), (Query::Trace, Format::Json), (Query::Parse, Format::Tags), (Query::Parse, Format::Markdown), (Query::Parse, Format::Json)] {
        if !which(&q, &f) {
            continue;
        }
        for bad in ["dir", "plain/sub/o", "/dev/full"] {
            if f_len(&ctl, &q, &f, &d)? == 0 && bad == "/dev/full" {
                continue;
            }
            if ctl.run(&job(q.clone(), f.clone(), bad, None), "j").is_ok() {
                return Err(format!("{q:?} as {f:?} to {bad} can not be written, but no error is returned"));
            }
        }
        let run = |file: &str| -> Result<Vec<u8>, String> {
            ctl.run(&job(q.clone(), f.clone(), file, None), "j").map_err(|e| format!("{file}: {e}"))?;
            fs::read(d.0.join(file)).map_err(|e| format!("{file}: {e}"))
        };
        let a = run("new/deep/o")?;
        let b = run("stale")?;
        let abs = d.0.join("abs/o");
        let x = run(abs.to_str().unwrap())?;
        if a != b || a != x {
            return Err(format!("{q:?} as {f:?}: output depends on the file it is written to"));
        }
        d.put("stale", "z".repeat(100_000));
    }
    Ok(())
}
fn f_len(ctl: &Controller, q: &Query, f: &Format, d: &Dir) -> Result<usize, String> {
    ctl.run(&job(q.clone(), f.clone(), "len", None), "j").map_err(|e| e.to_string())?;
    Ok(fs::read(d.0.join("len")).map_err(|e| e.to_string())?.len())
}

// ---------------------------------------------------------------- C10
/// names, whether the job detects errors, whether it can be executed
fn jobs(r: &mut Rng, d: &Dir) -> BTreeMap<String, (Job, bool, bool)> {
    fs::create_dir_all(d.0.join("dir")).unwrap();
    let mut m = BTreeMap::new();
    for n in ["a", "b", "c", "d", "e", ""] {
        let trace = r.chance(1, 2); // trace detects errors here, parse does not
        let ok = !r.chance(1, 8);
        let set = opt(r);
        let (q, f) = if trace { (Query::Trace, Format::GnuError) } else { (Query::Parse, Format::Tags) };
        let file = if ok { if r.chance(1, 5) { "shared".to_string() } else { format!("out_{n}") } } else { "dir".to_string() };
        m.insert(n.to_string(), (job(q, f, &file, set), trace, ok));
    }
    m
}
fn base(d: &Dir) -> Config {
    d.put("u.json", serde_json::to_string(&Vec::<Requirement>::new()).unwrap());
    let mut u = 0;
    let mut r = Rng::new(1);
    let mut q = gen::requirement(&mut r, 0, "R_1", &["R_1"], &mut u);
    q.location = Location::new_with_line_no("f".into(), 3);
    d.put("l.json", serde_json::to_string(&vec![q]).unwrap());
    Config {
        version: None,
        artefacts: vec![art("U", ArtefactParser::Json, &["u.json"]), art("L", ArtefactParser::Json, &["l.json"])],
        relations: vec![Relation { upper: "U".into(), lower: vec!["L".into()] }], // unused: detected by tracing
        jobs: None,
        default_jobs: None,
    }
}
struct Outcome {
    result: Result<bool, &'static str>, // detected | kind of error
    files: BTreeMap<String, &'static str>, // what each file was last written by
}
/// sometimes an artefact that cannot be read: every job detects an error
fn trouble(r: &mut Rng, cfg: &mut Config, m: &mut BTreeMap<String, (Job, bool, bool)>) -> bool {
    let bad = r.chance(1, 4);
    if bad {
        cfg.artefacts.push(art("X", ArtefactParser::Markdown, &["missing.md"]));
        for x in m.values_mut() {
            x.1 = true;
        }
    }
    bad
}
fn expect_run(names: &[String], m: &BTreeMap<String, (Job, bool, bool)>) -> Outcome {
    let mut o = Outcome { result: Ok(false), files: BTreeMap::new() };
    if names.iter().any(|n| !m.contains_key(n)) {
        o.result = Err("unknown");
        return o;
    }
    for n in names {
        let (j, detects, ok) = &m[n];
        if !ok {
            o.result = Err("io");
            return o;
        }
        o.files.insert(j.file.to_str().unwrap().into(), if matches!(j.query, Query::Trace) { "trace" } else { "parse" });
        if *detects && j.set_return_code != Some(false) {
            o.result = Ok(true);
        }
    }
    o
}
fn files(d: &Dir) -> BTreeMap<String, &'static str> {
    let mut m = BTreeMap::new();
    for e in fs::read_dir(&d.0).unwrap().flatten() {
        let n = e.file_name().into_string().unwrap();
        if n.starts_with("out_") || n == "shared" {
            m.insert(n, if fs::read(e.path()).unwrap().starts_with(b"!_TAG") { "parse" } else { "trace" });
        }
    }
    m
}
fn names(r: &mut Rng) -> Vec<String> {
    let unknown = r.chance(1, 5);
    (0..if r.chance(1, 30) { 5 + r.below(60) } else { r.below(5) }).map(|_| (*r.pick(if unknown { &["a", "b", "c", "d", "e", "", "zz", " a"][..] } else { &["a", "b", "c", "d", "e", "a", "b", "c", "d", "e", ""][..] })).to_string()).collect()
}
pub fn outcome(r: &mut Rng, _: usize, c: &mut Case, env: &Env) -> Result<(), String> {
    let d = Dir::new(env);
    let mut m = jobs(r, &d);
    let mut cfg = base(&d);
    let bad = trouble(r, &mut cfg, &mut m);
    let default = if r.chance(1, 4) { None } else { Some(names(r)) };
    cfg.jobs = Some(m.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect());
    cfg.default_jobs = default.clone();
    let by_name = names(r);
    let use_default = r.chance(1, 2);
    c.input = format!("{}\ndefault {default:?} by name {by_name:?} use default {use_default} unreadable artefact {bad}", m.values().map(|x| format!("{:?}", x.0)).collect::<Vec<_>>().join("\n"));
    c.nontrivial = true;
    let ctl = Controller::new(cfg, &d.0);
    let (e, a) = if use_default {
        let l = default.unwrap_or_default();
        let e = if l.is_empty() { Outcome { result: Err("config"), files: BTreeMap::new() } } else { expect_run(&l, &m) };
        (e, ctl.run_default_jobs())
    } else {
        (expect_run(&by_name, &m), ctl.run_jobs_by_name(&by_name))
    };
    let a = match a {
        Ok(JobSuccess::Success) => Ok(false),
        Ok(JobSuccess::ErrorsDetected) => Ok(true),
        Err(ControllerError::UnknownJob(_)) => Err("unknown"),
        Err(ControllerError::Config(_)) => Err("config"),
        Err(ControllerError::Io(..)) => Err("io"),
    };
    diff("outcome", &e.result, &a)?;
    diff("executed jobs", &e.files, &files(&d))
}

fn toml_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
fn toml(cfg: &Config, extra: &str) -> String {
    let mut s = String::new();
    if let Some(v) = cfg.version {
        s += &format!("version = {v}\n");
    }
    if let Some(l) = &cfg.default_jobs {
        s += &format!("default_jobs = [{}]\n", l.iter().map(|x| toml_str(x)).collect::<Vec<_>>().join(", "));
    }
    s += extra;
    if cfg.artefacts.is_empty() {
        s += "artefacts = []\n";
    }
    if cfg.relations.is_empty() {
        s += "relations = []\n";
    }
    for a in &cfg.artefacts {
        s += &format!("[[artefacts]]\nid = {}\npaths = [{}]\nparser = \"{:?}\"\n", toml_str(&a.id.to_string()), a.paths.iter().map(|x| toml_str(x)).collect::<Vec<_>>().join(", "), a.parser);
        if let Some(b) = a.ignore_derived_requirements {
            s += &format!("ignore_derived_requirements = {b}\n");
        }
        if let Some(b) = a.reference_with_title {
            s += &format!("reference_with_title = {b}\n");
        }
    }
    for x in &cfg.relations {
        s += &format!("[[relations]]\nupper = {}\nlower = [{}]\n", toml_str(&x.upper.to_string()), x.lower.iter().map(|l| toml_str(&l.to_string())).collect::<Vec<_>>().join(", "));
    }
    for (k, j) in cfg.jobs.iter().flatten() {
        s += &format!("[jobs.{}]\nquery = \"{:?}\"\nformat = \"{:?}\"\nfile = {}\n", toml_str(k), j.query, j.format, toml_str(j.file.to_str().unwrap()));
        if let Some(b) = j.set_return_code {
            s += &format!("set_return_code = {b}\n");
        }
    }
    s
}
fn exe(env: &Env, d: &Dir, args: &[String]) -> Result<(i32, String, Vec<u8>), String> {
    let o = std::process::Command::new(&env.bin).args(args).current_dir(&d.0).env_remove("REQTRACE_LOG").output().map_err(|e| format!("{}: {e}", env.bin))?;
    Ok((o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stderr).into_owned(), o.stdout))
}
pub fn exit_code(r: &mut Rng, _: usize, c: &mut Case, env: &Env) -> Result<(), String> {
    let d = Dir::new(env);
    let mut m = jobs(r, &d);
    for x in m.values_mut().filter(|x| x.2) {
        if r.chance(1, 8) {
            x.0.file = "-".into();
        }
    }
    let mut cfg = base(&d);
    let bad = trouble(r, &mut cfg, &mut m);
    cfg.jobs = if r.chance(1, 10) { None } else { Some(m.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect()) };
    cfg.default_jobs = if r.chance(1, 4) { None } else { Some(names(r)) };
    cfg.version = *r.pick(&[None, Some(0), Some(0), Some(1), Some(7)]);
    let req = names(r);
    let (mut text, mut broken) = (toml(&cfg, ""), cfg.version.is_some_and(|v| v > 0));
    match r.below(12) {
        0 => { text = "x = [".into(); broken = true }
        1 => { text += "\n[[relations]]\nupper = 5\n"; broken = true }
        2 => { text = text.replace("\"Json\"", "\"Jsn\""); broken = true }
        _ => {}
    }
    let file = if r.chance(1, 12) { broken = true; "none.toml" } else { "c.toml" };
    d.put("c.toml", &text);
    let mut args = vec!["--config".to_string(), file.to_string()];
    if r.chance(1, 3) {
        args.extend(["--base".to_string(), d.0.to_str().unwrap().to_string()]);
    }
    if r.chance(1, 4) {
        args.push((*r.pick(&["--quiet", "-q"])).to_string());
    }
    if r.chance(1, 3) {
        args.extend(["--log-level".to_string(), (*r.pick(&["trace", "debug", "off", "error"])).to_string()]);
    }
    args.extend(req.clone());
    c.input = format!("reqtrace {args:?}\n{text}");
    c.nontrivial = !broken;
    let (code, err, out) = exe(env, &d, &args)?;
    let known = if cfg.jobs.is_some() { m } else { BTreeMap::new() };
    let t = |b: &[u8], d: &Dir| String::from_utf8_lossy(b).replace(d.0.to_str().unwrap(), "").replace("./missing.md", "/missing.md");
    let mut written = (BTreeMap::new(), String::new());
    let exp = if broken {
        2
    } else {
        let l = if req.is_empty() { cfg.default_jobs.clone().unwrap_or_default() } else { req };
        let mut e = expect_run(&l, &known);
        e.files.remove("-");
        written.0 = e.files;
        if e.result != Err("unknown") {
            let q = Dir::named(env, "alone");
            let mut alone = base(&q);
            if bad {
                alone.artefacts.push(art("X", ArtefactParser::Markdown, &["missing.md"]));
            }
            alone.jobs = Some(known.iter().map(|(k, v)| (k.clone(), job(v.0.query.clone(), v.0.format.clone(), "o", None))).collect());
            let ctl = Controller::new(alone, &q.0);
            for n in l.iter().take_while(|n| known[*n].2).filter(|n| known[*n].0.file.as_os_str() == "-") {
                ctl.run_jobs_by_name(&[n.clone()]).map_err(|e| e.to_string())?;
                written.1 += &t(&fs::read(q.0.join("o")).map_err(|e| e.to_string())?, &q);
            }
        }
        if l.is_empty() { 2 } else { match expect_run(&l, &known).result { Ok(false) => 0, Ok(true) => 1, Err(_) => 2 } }
    };
    diff("exit code", &exp, &code).map_err(|m| format!("{m}\n{err}"))?;
    diff("executed jobs", &written.0, &files(&d))?;
    diff("standard output", &written.1, &t(&out, &d))
}

// ---------------------------------------------------------------- C11
pub fn defaults(r: &mut Rng, size: usize, c: &mut Case, env: &Env) -> Result<(), String> {
    let d = Dir::new(env);
    let cfg = config(r, size, &d, c);
    c.nontrivial = !cfg.relations.is_empty();
    let lower: BTreeSet<String> = cfg.relations.iter().flat_map(|x| x.lower.iter().map(ToString::to_string)).collect();
    let exp: BTreeMap<String, (bool, bool)> = cfg
        .artefacts
        .iter()
        .map(|a| (a.id.to_string(), (a.ignore_derived_requirements.unwrap_or(!lower.contains(&a.id.to_string())), a.reference_with_title == Some(true))))
        .collect();
    let cfg = if r.chance(1, 2) {
        let text = toml(&cfg, "");
        c.input += &text;
        ::toml::from_str(&text).map_err(|e| format!("{e}"))?
    } else {
        cfg
    };
    let ctl = Controller::new(cfg, &d.0);
    let t = trace_json(&ctl, &d)?;
    let arts = t["artefacts"].as_object().ok_or("artefacts")?;
    let act: BTreeMap<String, (bool, bool)> =
        arts.iter().map(|(k, a)| (k.clone(), (a["ignore_derived_requirements"].as_bool().unwrap(), a["reference_with_title"].as_bool().unwrap()))).collect();
    diff("(ignore_derived_requirements, reference_with_title)", &exp, &act)?;
    for (k, a) in arts {
        let mut e: Vec<String> = Vec::new();
        if exp[k].1 {
            e = a["requirements"].as_object().unwrap().values().filter(|q| q["title"].is_null()).map(ToString::to_string).collect();
        }
        let mut x: Vec<String> = a["errors"].as_array().unwrap().iter().filter_map(|e| e.get("RequirementWithoutTitle")).map(ToString::to_string).collect();
        e.sort();
        x.sort();
        diff(&format!("requirements without title of {k}"), &e, &x)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C21
pub fn loading(r: &mut Rng, size: usize, c: &mut Case, env: &Env) -> Result<(), String> {
    let d = Dir::new(env);
    c.nontrivial = true;
    match r.below(6) {
        0 => {
            // a wrong number of paths
            let p = *r.pick(&["Markdown", "Json", "Mono", "Rust"]);
            let (parser, paths): (ArtefactParser, &[&str]) = match p {
                "Markdown" => (ArtefactParser::Markdown, *r.pick(&[&[][..], &["a.md", "b.md"][..]])),
                "Json" => (ArtefactParser::Json, *r.pick(&[&[][..], &["a.md", "b.md"][..]])),
                "Mono" => (ArtefactParser::MonoRequirement, *r.pick(&[&[][..], &["a.md", "b.md"][..]])),
                _ => (ArtefactParser::Rust, &[]),
            };
            d.put("a.md", "# REQ_1: x\n");
            d.put("b.md", "# REQ_2: x\n");
            c.input = format!("{p} {paths:?}");
            let (_, q, e) = parse_from_config(&art("A", parser, paths), &d.0);
            diff("requirements", &0, &q.len())?;
            if e.len() != 1 || !matches!(e[0], Error::Config(_)) {
                return Err(format!("expected one configuration error, got {e:?}"));
            }
            Ok(())
        }
        1 => {
            // single files
            let text = "# REQ_1: x\n\nfoo\n\n# REQ_2: y\nCovers: REQ_1\nbad\n\n=> REQ_3\n";
            let kind = r.below(4);
            let p = d.0.join("a.md");
            match kind {
                0 => {}
                1 => fs::create_dir_all(&p).unwrap(),
                _ => {
                    d.put("a.md", text);
                }
            }
            let mono = r.chance(1, 2);
            c.input = format!("mono={mono} kind={kind}");
            let (_, q, e) = parse_from_config(&art("A", if mono { ArtefactParser::MonoRequirement } else { ArtefactParser::Markdown }, &["a.md"]), &d.0);
            let (eq, ee) = match kind {
                0 => (vec![], vec![]),
                _ if mono => reqtrace::parsers::monoreq::parse(&mut std::io::BufReader::new(fs::File::open(&p).unwrap()), &p),
                _ => reqtrace::parsers::markdown::parse(&mut std::io::BufReader::new(fs::File::open(&p).unwrap()), &p),
            };
            if kind == 0 {
                if e.len() != 1 || !matches!(&e[0], Error::Io(x, _) if *x == p) {
                    return Err(format!("expected one IO error of {}, got {e:?}", p.display()));
                }
                return diff("requirements", &0, &q.len());
            }
            diff("requirements", &eq.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>(), &q.values().map(|x| format!("{x:?}")).collect::<Vec<_>>())?;
            diff("errors", &format!("{ee:?}"), &format!("{e:?}"))
        }
        2 => {
            // errors in one artefact do not change another
            let cfg = config(r, size, &d, c);
            let ids: Vec<String> = cfg.artefacts.iter().map(|a| a.id.to_string()).collect();
            let exp: BTreeMap<String, String> = cfg.artefacts.iter().map(|a| (a.id.to_string(), {
                let (_, q, e) = parse_from_config(a, &d.0);
                let mut e = serde_json::to_value(&e).unwrap();
                if a.reference_with_title == Some(true) {
                    for x in q.values().filter(|x| x.title.is_none()) {
                        e.as_array_mut().unwrap().push(serde_json::to_value(Error::RequirementWithoutTitle(x.clone())).unwrap());
                    }
                }
                format!("{} {}", serde_json::to_value(&q).unwrap(), e)
            })).collect();
            let ctl = Controller::new(cfg, &d.0);
            let t = trace_json(&ctl, &d)?;
            for i in ids {
                let a = &t["artefacts"][&i];
                diff(&format!("artefact {i}"), &exp[&i], &format!("{} {}", a["requirements"], a["errors"]))?;
            }
            Ok(())
        }
        _ => {
            // several files
            let mut state: BTreeMap<&str, &str> = BTreeMap::new();
            for f in ["s/.h d.rs", "s/a.rs", "s/b.rs", "s/c.rs", "s/d.RS", "t/a.rs", "t/z.rs"] {
                let k = *r.pick(&["good", "good", "good", "empty", "long", "bad mark", "syntax", "bytes", "dir", "link", "none"]);
                let name = f.replace(['/', '.', ' '], "_");
                match k {
                    "good" => { d.put(f, format!("fn {name}() {{ requirement_covered!(REQ_1); }}\nfn {name}2() {{ requirement_covered!(REQ_2); }}\n")); }
                    "bad mark" => { d.put(f, format!("fn {name}() {{ requirement_covered!(17); requirement_covered!(REQ_2); }}\n")); }
                    "syntax" => { d.put(f, "fn {"); }
                    "bytes" => { d.put(f, [0xff, 0xfe]); }
                    "empty" => { d.put(f, ""); }
                    "long" => { d.put(f, format!("{}fn {name}() {{ requirement_covered!(REQ_1); }}\n", "// x\n".repeat(3000))); }
                    "dir" => { fs::create_dir_all(d.0.join(f)).unwrap(); }
                    "link" => { fs::create_dir_all(d.0.join(f).parent().unwrap()).unwrap(); std::os::unix::fs::symlink("gone", d.0.join(f)).unwrap(); }
                    _ => {}
                }
                state.insert(f, k);
            }
            let abs = |p: &str| format!("{}/{p}", d.0.display());
            let known: Vec<(String, fn(&str) -> bool)> = vec![
                ("s/*.rs".into(), |f| f.starts_with("s/") && f.ends_with(".rs")),
                ("t/*.rs".into(), |f| f.starts_with("t/")),
                ("*/a.rs".into(), |f| f.ends_with("/a.rs")),
                ("t/z.rs".into(), |f| f == "t/z.rs"),
                ("s/none.rs".into(), |_| false),
                (abs("s/*.rs"), |f| f.starts_with("s/") && f.ends_with(".rs")),
                (abs("s/a.rs"), |f| f == "s/a.rs"),
                ("*/*.rs".into(), |f| f.ends_with(".rs")),
                ("s/?.rs".into(), |f| f.starts_with("s/") && f.len() == 6 && f.ends_with(".rs")),
                ("s/[ab].rs".into(), |f| f == "s/a.rs" || f == "s/b.rs"),
                ("**/z.rs".into(), |f| f.ends_with("/z.rs")),
                ("s/*".into(), |f| f.starts_with("s/")),
                ("s/.h d.rs".into(), |f| f == "s/.h d.rs"),
                ("s/d.RS".into(), |f| f == "s/d.RS"),
                ("".into(), |f| f.is_empty()),
            ];
            let pats: Vec<(String, fn(&str) -> bool)> = (0..if r.chance(1, 20) { 12 } else { 1 + r.below(3) }).map(|_| if r.chance(1, 2) { known[r.below(8)].clone() } else { r.pick(&known).clone() }).collect();
            let preds: Vec<fn(&str) -> bool> = pats.iter().map(|p| p.1).collect();
            let pats: Vec<String> = pats.into_iter().map(|p| p.0).collect();
            if pats.contains(&String::new()) {
                state.insert("", "dir");
            }
            c.input = format!("{state:?} {pats:?}");
            let mut cfg = art("A", ArtefactParser::Rust, &[]);
            cfg.paths = pats.clone();
            let (paths, q, e) = parse_from_config(&cfg, &d.0);
            let mut exp: Vec<&str> = Vec::new();
            for (p, pred) in pats.iter().zip(&preds) {
                for (f, k) in &state {
                    // whether a literal name matches a broken link is up to the glob library
                    if *k == "link" && pred(f) && !p.rsplit('/').next().unwrap().contains(['*', '?', '[']) {
                        return Ok(());
                    }
                    if pred(f) && *k != "none" {
                        exp.push(f);
                    }
                }
            }
            let want: Vec<PathBuf> = exp.iter().map(|f| d.0.join(f)).collect();
            diff("files", &want, &paths)?;
            let (mut eq, mut ee) = (BTreeMap::new(), Vec::new());
            let mut dups = Vec::new();
            for p in &paths {
                match fs::File::open(p) {
                    Err(_) => ee.push(format!("Io {}", p.display())),
                    Ok(f) => {
                        let (l, e) = reqtrace::parsers::rust::parse(&mut std::io::BufReader::new(f), p);
                        for x in l {
                            if let Some(o) = eq.get(&x.id) {
                                dups.push(format!("{:?}", Error::DuplicateRequirement(Rc::clone(o), x)));
                            } else {
                                eq.insert(x.id.clone(), x);
                            }
                        }
                        ee.extend(e.iter().map(|x| format!("{x:?}")));
                    }
                }
            }
            ee.extend(dups);
            diff("requirements", &format!("{eq:?}"), &format!("{q:?}"))?;
            let open_err = |x: &Error| match x {
                Error::Io(p, _) if fs::File::open(p).is_err() => format!("Io {}", p.display()),
                x => format!("{x:?}"),
            };
            diff("errors", &ee, &e.iter().map(open_err).collect())
        }
    }
}

// ---------------------------------------------------------------- C20
pub fn no_panic(r: &mut Rng, size: usize, c: &mut Case, env: &Env) -> Result<(), String> {
    let (d, o) = (Dir::new(env), Dir::named(env, "other"));
    let mut cfg = config(r, size, &d, c);
    for (i, a) in cfg.artefacts.iter_mut().enumerate() {
        if r.chance(1, 2) {
            let f = format!("x{i}.md");
            let mut text: Vec<u8> = Vec::new();
            for _ in 0..r.below(12) {
                text.extend(*r.pick(&[&b"# R_1: T"[..], b"## S_2: Tee", b"Covers: R_1", b"* R_2: Tea", b"- ", b"Depends:", b"text", b"\xff", b"fn f() { requirement_covered!(R_1); }", b"=> R_1", b"#", b"x"]));
                text.extend(*r.pick(&[&b"\n"[..], b"\n\n", b"\r\n", b""]));
            }
            d.put(&f, &text);
            a.parser = match r.below(4) { 0 => ArtefactParser::Markdown, 1 => ArtefactParser::MonoRequirement, 2 => ArtefactParser::Rust, _ => ArtefactParser::Markdown };
            a.paths = vec![match r.below(12) {
                0 => "a[".to_string(),
                1 => d.0.join(&f).to_string_lossy().into_owned(),
                2 | 3 => {
                    fs::copy(d.0.join(&f), o.0.join(&f)).unwrap();
                    o.0.join(&f).to_string_lossy().into_owned()
                }
                4 => format!("./{f}"),
                5 => format!("sub/../{f}"),
                _ => f,
            }];
            c.input += &format!("{a:?} {text:?}\n");
        }
    }
    c.nontrivial = true;
    let ctl = Controller::new(cfg, &d.0);
    for q in [Query::Trace, Query::Parse] {
        for f in [Format::GnuError, Format::Markdown, Format::Json, Format::Tags, Format::TemplateFile("x".into())] {
            let _ = ctl.run(&job(q.clone(), f, "o", None), "j");
        }
    }
    Ok(())
}
pub fn bad_config(r: &mut Rng, _: usize, c: &mut Case, env: &Env) -> Result<(), String> {
    let d = Dir::new(env);
    let mut cfg = base(&d);
    match r.below(4) {
        0 => cfg.relations.push(Relation { upper: "Zz".into(), lower: vec!["L".into()] }),
        1 => cfg.relations.insert(0, Relation { upper: "U".into(), lower: vec!["L".into(), "Zz".into()] }),
        2 => cfg.artefacts.push(art("U", ArtefactParser::Json, &["l.json"])),
        _ => cfg.artefacts.insert(1, art("L", ArtefactParser::Markdown, &["l.json"])),
    }
    cfg.jobs = Some([("a".to_string(), job(Query::Parse, Format::Tags, "out_a", None))].into_iter().collect());
    let text = toml(&cfg, "");
    d.put("c.toml", &text);
    c.input = text;
    c.nontrivial = true;
    let (code, err, _) = exe(env, &d, &["--config".into(), "c.toml".into(), "a".into()])?;
    diff("exit code", &2, &code).map_err(|m| format!("{m}\n{err}"))?;
    if err.contains("panicked") {
        return Err(format!("crashed: {err}"));
    }
    Ok(())
}

#[allow(dead_code)]
fn unused(_: &Path) {}
