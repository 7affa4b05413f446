//! Executable oracles for the properties, run against the real crate.
//! They search for a failing input where a proof obligation fails, cross check the assumed contracts
//! and stand in (bounded) for code that is out of reach of the verifier.
mod aggr;
mod ctrl;
mod fmt;
mod gen;
mod graph;
mod loc;
mod md;
mod mono;
mod rust;

use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

#[derive(Default)]
pub struct Case {
    pub input: String,
    pub nontrivial: bool,
    /// carved out: the failure is a listed finding
    pub known: Option<String>,
}

pub struct Env {
    pub bin: String,
    pub scratch: std::path::PathBuf,
}

pub type Check = fn(&mut Rng, usize, &mut Case, &Env) -> Result<(), String>;

pub fn diff<T: std::fmt::Debug + PartialEq>(what: &str, expected: &T, actual: &T) -> Result<(), String> {
    if expected == actual {
        Ok(())
    } else {
        Err(format!("{what}:\n  expected {expected:#?}\n  actual   {actual:#?}"))
    }
}

/// per property: (name, check, cases per unit of budget)
fn checks(prop: &str) -> Vec<(&'static str, Check, usize)> {
    match prop {
        "C01" => vec![("coverage", graph::coverage, 400)],
        "C02" => vec![("uncovered", graph::uncovered, 400)],
        "C03" => vec![("derived", graph::derived, 400)],
        "C04" => vec![("dangling", graph::dangling, 400)],
        "C05" => vec![("titles", graph::titles, 400)],
        "C06" => vec![("cross artefact", graph::duplicates, 300), ("within artefact", ctrl::duplicates, 60)],
        "C07" => vec![("unused", graph::unused, 400)],
        "C08" => vec![("aggregated", aggr::aggregated, 300)],
        "C09" => vec![("job verdict", ctrl::verdict, 60), ("written", ctrl::written, 10)],
        "C10" => vec![("run outcome", ctrl::outcome, 60), ("exit code", ctrl::exit_code, 8)],
        "C11" => vec![("defaults", ctrl::defaults, 80)],
        "C12" => vec![("headings", md::headings, 500)],
        "C13" => vec![("bodies", md::bodies, 500)],
        "C14" => vec![("errors", md::errors, 500)],
        "C15" => vec![("mono", mono::mono, 400)],
        "C16" => vec![("marks", rust::marks, 200)],
        "C17" => vec![("gnu", fmt::gnu, 200), ("gnu write errors", fmt::gnu_fail, 20), ("written", ctrl::written_gnu, 3)],
        "C18" => vec![("markdown trace", fmt::markdown_trace, 150), ("write errors", fmt::markdown_trace_fail, 15), ("written", ctrl::written_markdown, 3)],
        "C19" => vec![("tags", fmt::tags, 200), ("markdown", fmt::markdown_reqs, 150), ("json", fmt::json_reqs, 150), ("unsupported", fmt::unsupported, 20), ("write errors", fmt::export_fail, 15), ("written", ctrl::written_exports, 3)],
        "C20" => vec![("markdown", md::no_panic, 400), ("mono", mono::no_panic, 200), ("rust", rust::no_panic, 100), ("graph", fmt::no_panic, 200), ("run", ctrl::no_panic, 30), ("config", ctrl::bad_config, 8)],
        "C21" => vec![("loading", ctrl::loading, 60)],
        "C22" => vec![("order", loc::order, 600), ("print", loc::print, 300)],
        _ => panic!("unknown property {prop}"),
    }
}

static PANIC: Mutex<String> = Mutex::new(String::new());

/// Every third case runs with all log messages on: their arguments are evaluated and formatted, too
struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, r: &log::Record<'_>) {
        struct Null;
        impl std::fmt::Write for Null {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = std::fmt::Write::write_fmt(&mut Null, *r.args());
    }
    fn flush(&self) {}
}

fn main() {
    log::set_logger(&Log).unwrap();
    let args: Vec<String> = std::env::args().collect();
    let mut prop = String::new();
    let (mut seed, mut units, mut only, mut bin, mut scratch, mut secs) = (1u64, 10usize, None, String::new(), String::from("/tmp"), 60u64);
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--seed" => { seed = args[i + 1].parse().unwrap(); i += 1 }
            "--units" => { units = args[i + 1].parse().unwrap(); i += 1 }
            "--only" => { only = Some(args[i + 1].clone()); i += 1 }
            "--bin" => { bin = args[i + 1].clone(); i += 1 }
            "--scratch" => { scratch = args[i + 1].clone(); i += 1 }
            "--secs" => { secs = args[i + 1].parse().unwrap(); i += 1 }
            p => prop = p.to_string(),
        }
        i += 1;
    }
    std::panic::set_hook(Box::new(|i| {
        *PANIC.lock().unwrap() = format!("{i}");
    }));
    let env = Env { bin, scratch: scratch.into() };
    let (mut evals, mut distinct) = (0usize, BTreeSet::new());
    let mut samples: Vec<String> = Vec::new();
    let mut viol = serde_json::Value::Null;
    let mut known: BTreeSet<String> = BTreeSet::new();
    let mut parts = Vec::new();
    let start = std::time::Instant::now();
    let list = checks(&prop);
    let n = list.len() as u64;
    'all: for (k, (name, f, per)) in list.iter().enumerate() {
        let mut done = 0;
        for idx in 0..per * units {
            let key = format!("{name}#{idx}");
            if let Some(o) = &only {
                if *o != key { continue }
            }
            if only.is_none() && start.elapsed().as_secs() > secs * (k as u64 + 1) / n {
                break;
            }
            let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(idx as u64).wrapping_add((k as u64) << 40));
            let size = 1 + idx * 6 / (per * units).max(1);
            let mut c = Case::default();
            log::set_max_level(if idx % 3 == 1 { log::LevelFilter::Trace } else { log::LevelFilter::Off });
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, size, &mut c, &env)));
            evals += 1;
            done += 1;
            if c.nontrivial {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                std::hash::Hash::hash(&c.input, &mut h);
                if distinct.insert(std::hash::Hasher::finish(&h)) && samples.len() < 2 && size > 2 {
                    samples.push(format!("[{name}] {}", c.input.chars().take(1500).collect::<String>()));
                }
            }
            let msg = match r {
                Ok(Ok(())) => None,
                Ok(Err(m)) => Some(m),
                Err(_) => Some(format!("the code panicked: {}", PANIC.lock().unwrap())),
            };
            if let Some(m) = msg {
                if let Some(id) = c.known {
                    known.insert(id);
                    continue;
                }
                viol = serde_json::json!({"case": key, "seed": seed, "units": units, "input": c.input, "failure": m});
                break 'all;
            }
        }
        parts.push(serde_json::json!({"part": name, "cases": done}));
    }
    println!(
        "{}",
        serde_json::json!({"property": prop, "evaluations": evals, "distinct_nontrivial": distinct.len(), "samples": samples,
            "violation": viol, "known": known, "parts": parts})
    );
}
