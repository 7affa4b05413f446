//! Random small graphs
use crate::Rng;
use reqtrace::models::*;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::rc::Rc;

pub const ARTS: &[&str] = &["Bb", "Aa", "ab", "Dd", "Ee", "Cc"];
pub const IDS: &[&str] = &["R_1", "R_2", "R_10", "S_1", "r_1", "R_1a", "S_2"];
const ODD: &[&str] = &["R_1", "R_2", "Ä_1", "R_", "R_1_", "R-1", "R 1", "REQ_1::a", "_x", "R_01", "(A as B)::f", "R_1\u{301}", "ÿ", "R_a_very_long_identifier_of_a_requirement_which_does_not_fit_into_a_line_of_eighty_columns", "R1", "1"];
pub const TITLES: &[&str] = &["Tee", "Tea", "tee", " Tee", "", "Ä—🦀", "Tee ", "TEE", "Tee: Tea", "a \"b\" 'c'", "a  b", "[x](y) | <b>", "Straße İ K", "Tee.", "<no title>", "{x} % \\", "a_b-c", "A rather long title of a requirement, which has more words than a title should have, and goes on and on and on until nobody reads it any more, more than two hundred characters altogether, which is too much"];

pub fn rid(s: &str) -> RequirementId {
    s.into()
}

pub fn location(r: &mut Rng, uniq: &mut usize) -> Location {
    *uniq += 1;
    let odd = r.chance(1, 6);
    let f = PathBuf::from(*r.pick(if odd { &["/abs/x.md", "./d.md", "../e/f.md", "ä.md", "a:1.md", "a.json", "Makefile", "A.MD", "x", "target/b.rs", "tests/t.rs", ".hidden/.x"][..] } else { &["a.md", "src/b.rs", "c d.md"][..] }));
    if r.chance(1, 40) {
        let n = *r.pick(&[0, 1, 9, 10, 99, 100, 255, 256, 999, 1000, 65535, 65536, 1 << 32, usize::MAX]);
        return if r.chance(1, 2) { Location::new_with_line_no(f, n) } else { Location::new_with_line_and_column(f, *uniq, n) };
    }
    match r.below(8) {
        0 => Location::new_with_no_pos(f),
        1 => Location::new_with_str(f, format!("sec{uniq}")),
        2 | 3 => Location::new_with_line_and_column(f, *uniq, r.below(5)),
        _ => Location::new_with_line_no(f, *uniq),
    }
}
fn title(r: &mut Rng) -> Option<String> {
    if r.chance(1, 3) {
        None
    } else {
        let n = if r.chance(1, 4) { TITLES.len() } else { 2 };
        Some(TITLES[r.below(n)].to_string())
    }
}
fn refs(r: &mut Rng, size: usize, pool: &[&str], u: &mut usize) -> Vec<Reference> {
    let n = if r.chance(1, 3) { 0 } else { r.below(size.min(3) + 1) };
    (0..n)
        .map(|_| Reference { id: rid(r.pick(pool)), title: title(r), location: location(r, u) })
        .collect()
}
pub fn text(r: &mut Rng) -> String {
    if r.chance(1, 8) {
        return (*r.pick(&["-", "TODO", "n/a", "none", "tbd", "?", ".", "TBD", "x", "---", " - ", "None.", "...", "\\", "[TBD]"])).to_string();
    }
    let n = r.below(4);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*r.pick(&["foo\n", "bar baz\n", "\n", " x", "ä*\n", "—", "\t\n", "# no heading\n", "a\r\n", "\u{a0}"]));
    }
    s
}
pub fn requirement(r: &mut Rng, size: usize, id: &str, pool: &[&str], u: &mut usize) -> Requirement {
    let mut attributes = BTreeMap::new();
    if r.chance(1, 4) {
        for k in if r.chance(1, 4) { ["Desc", "Description", "Descriptions", "description", "Title", "Covers", "A", "Status", "Tags", "Ä b"] } else { ["Description", "Comment", "Aim", "Zoo", "Description", "Comment", "Aim", "Zoo", "Description", "Comment"] } {
            if r.chance(1, 2) {
                attributes.insert(k.to_string(), text(r));
            }
        }
    }
    Requirement {
        id: rid(id),
        title: title(r),
        location: location(r, u),
        covers: refs(r, size, pool, u),
        depends: refs(r, size, pool, u),
        tags: if r.chance(1, 5) { ["todo", "a b", ""][..1 + r.below(3)].iter().map(|t| t.to_string()).collect() } else { vec![] },
        attributes,
    }
}
pub fn error(r: &mut Rng, reqs: &[Rc<Requirement>], u: &mut usize) -> Error {
    let any = |r: &mut Rng, u: &mut usize| -> Rc<Requirement> {
        if reqs.is_empty() {
            Rc::new(requirement(r, 1, "X_1", &["R_1"], u))
        } else {
            Rc::clone(r.pick(reqs))
        }
    };
    let l = location(r, u);
    let rel = || Relation { upper: "Aa".into(), lower: vec!["Bb".into(), "Cc".into()] };
    match r.below(15) {
        0 | 1 => Error::Format(l, format!("bad {}", r.below(3))),
        2 => Error::Format(l, (*r.pick(&["bad 0", "two\nlines", "{braces} and \"quotes\"", "", " x ", "Ä: b: c", "long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long 1", "long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long 2"])).to_string()),
        3 => Error::DuplicateRequirement(any(r, u), any(r, u)),
        4 => Error::DuplicateAttribute(l, "Comment".into(), rid("R_1")),
        5 => Error::Io(PathBuf::from("no/such"), "gone".into()),
        6 => Error::Config("cfg".into()),
        7 => Error::CoveredWithWrongTitle { upper: any(r, u), lower: any(r, u), wrong_title: "Wr\"ong".into(), location: l },
        8 => Error::DependWithWrongTitle { upper: any(r, u), lower: any(r, u), wrong_title: "Wr\"ong".into(), location: l },
        9 => Error::ReferencedWithoutTitle { referenced: any(r, u), location: l },
        10 => Error::RequirementWithoutTitle(any(r, u)),
        11 => Error::DependOnUnknownRequirement(any(r, u), rid("U_9"), l),
        12 => Error::CoversUnknownRequirement(any(r, u), rid("U_9"), l),
        13 => Error::UnusedRelation(rel()),
        _ => match r.below(3) {
            0 => Error::DuplicateArtefact("Aa".into()),
            1 => Error::UnknownArtefact("Zz".into()),
            _ => Error::EmptyGraph,
        },
    }
}

/// A graph in which everything is covered and derived, except for (at most) a single defect
pub fn tidy(r: &mut Rng, size: usize) -> Graph {
    let mut u = 0;
    let na = 2 + r.below(size.min(3));
    let mut names: Vec<&str> = ["Mm", "Aa", "Zz", "bb", "Cc"].to_vec();
    for i in (1..names.len()).rev() {
        names.swap(i, r.below(i + 1));
    }
    let nreq: Vec<usize> = (0..na).map(|_| 1 + r.below(3)).collect();
    let id = |a: usize, k: usize| format!("{}_{}", ["R", "s", "T", "U"][a], k + 1);
    let mut reqs: Vec<Vec<Requirement>> = Vec::new();
    for a in 0..na {
        reqs.push((0..nreq[a]).map(|k| Requirement { title: Some(format!("T {k}")), depends: vec![], covers: vec![], ..requirement(r, 0, &id(a, k), &["R_1"], &mut u) }).collect());
    }
    let mut relations: Vec<Relation> = Vec::new();
    let mut ups = vec![0; na];
    for a in 1..na {
        let up = r.below(a);
        ups[a] = up;
        match relations.iter_mut().find(|x| x.upper == names[up].into()) {
            Some(x) if r.chance(1, 2) => x.lower.push(names[a].into()),
            _ => relations.push(Relation { upper: names[up].into(), lower: vec![names[a].into()] }),
        }
        // each upper requirement is covered, each lower one covers
        for k in 0..nreq[a].max(nreq[up]) {
            let (l, h) = (k % nreq[a], k % nreq[up]);
            let title = if r.chance(1, 2) { Some(format!("T {}", if r.chance(1, 2) { h } else { l })) } else { None };
            if r.chance(3, 4) {
                let title = title.map(|_| format!("T {h}"));
                reqs[a][l].covers.push(Reference { id: rid(&id(up, h)), title, location: location(r, &mut u) });
            } else {
                let title = title.map(|_| format!("T {l}"));
                reqs[up][h].depends.push(Reference { id: rid(&id(a, l)), title, location: location(r, &mut u) });
            }
        }
    }
    let mut errors: Vec<Vec<Error>> = vec![vec![]; na];
    let at = r.below(na);
    match r.below(9) {
        0 => reqs[at].push(requirement(r, 0, "X_1", &["R_1"], &mut u)),
        1 => {
            // everything in one artefact covers the same requirement
            let a = 1 + r.below(na - 1);
            let to = id(ups[a], 0);
            for q in &mut reqs[a] {
                for x in &mut q.covers {
                    x.id = rid(&to);
                    x.title = None;
                }
            }
        }
        2 => errors[at].push(Error::Config("something".into())),
        3 => {
            let k = r.below(reqs[at].len());
            let l = location(r, &mut u);
            let to = (*r.pick(&["U_9", "R_1", "s_1"])).to_string();
            reqs[at][k].depends.push(Reference { id: rid(&to), title: Some("Other".into()), location: l });
        }
        4 => {
            let k = r.below(reqs[at].len());
            let l = location(r, &mut u);
            reqs[at][k].covers.push(Reference { id: rid("U_9"), title: None, location: l });
        }
        5 if r.chance(1, 3) => relations.push(Relation { upper: names[at].into(), lower: vec![] }),
        5 => relations.push(Relation { upper: names[4].into(), lower: vec![names[at].into()] }),
        6 => {
            let q = reqs[at][0].clone();
            let b = (at + 1) % na;
            reqs[b].push(q);
        }
        _ => {}
    }
    let ign = r.chance(1, 6);
    let with_title = r.chance(1, 6);
    let mut artefacts: BTreeMap<ArtefactId, Rc<Artefact>> = BTreeMap::new();
    for (a, name) in names.iter().enumerate().filter(|(a, _)| *a < na || *a == 4) {
        let requirements = reqs.get(a).into_iter().flatten().map(|q| (q.id.clone(), Rc::new(q.clone()))).collect();
        artefacts.insert(
            (*name).into(),
            Rc::new(Artefact {
                id: (*name).into(),
                files: vec![],
                ignore_derived_requirements: a == 0 || (ign && r.chance(1, 2)),
                reference_with_title: with_title && r.chance(1, 2),
                requirements,
                errors: errors.get(a).cloned().unwrap_or_default(),
            }),
        );
    }
    Graph { artefacts, relations }
}

/// more of something than there is usually
fn swell(r: &mut Rng, g: &mut Graph) {
    let mut u = 10_000;
    let n = *r.pick(&[12, 20, 40, 70, 110, 130, 130, 270]);
    let names: Vec<ArtefactId> = g.artefacts.keys().cloned().collect();
    let ids: Vec<String> = g.artefacts.values().flat_map(|a| a.requirements.keys()).map(ToString::to_string).collect();
    let pool: Vec<&str> = if ids.is_empty() { vec!["U_9"] } else { ids.iter().map(String::as_str).collect() };
    let name = r.pick(&names).clone();
    let kind = r.below(6);
    if kind == 5 {
        for i in 0..n.min(40) {
            let id: ArtefactId = format!("X{i}").as_str().into();
            let q = Requirement { covers: refs(r, 1, &pool, &mut u), ..requirement(r, 0, &format!("X_{i}"), &pool, &mut u) };
            let a = Artefact { id: id.clone(), files: vec![], ignore_derived_requirements: r.chance(1, 4), reference_with_title: false, requirements: [(q.id.clone(), Rc::new(q))].into_iter().collect(), errors: vec![] };
            g.artefacts.insert(id.clone(), Rc::new(a));
            match g.relations.last_mut() {
                Some(x) if r.chance(1, 2) => x.lower.push(id),
                _ => g.relations.push(Relation { upper: name.clone(), lower: vec![id] }),
            }
        }
        return;
    }
    let a = Rc::get_mut(g.artefacts.get_mut(&name).unwrap()).unwrap();
    match kind {
        0 | 1 => {
            for i in 0..n {
                let q = Requirement { covers: if r.chance(1, 2) { refs(r, 1, &pool, &mut u) } else { vec![] }, depends: if r.chance(1, 4) { refs(r, 1, &pool, &mut u) } else { vec![] }, ..requirement(r, 0, &format!("Z_{i}"), &pool, &mut u) };
                a.requirements.insert(q.id.clone(), Rc::new(q));
            }
        }
        2 => {
            let l: Vec<Rc<Requirement>> = a.requirements.values().cloned().collect();
            a.errors.extend((0..n).map(|i| if i % 3 == 0 { error(r, &l, &mut u) } else { Error::Format(location(r, &mut u), format!("bad {i}")) }));
        }
        3 => {
            if let Some(q) = a.requirements.values_mut().next() {
                let q = Rc::make_mut(q);
                let n = n.min(70);
                let list = if r.chance(1, 2) { &mut q.covers } else { &mut q.depends };
                list.extend((0..n).map(|_| Reference { id: rid(r.pick(&pool)), title: title(r), location: location(r, &mut u) }));
            }
        }
        _ => {
            if let Some(q) = a.requirements.values_mut().next() {
                let q = Rc::make_mut(q);
                q.title = Some("long title ".repeat(n));
                q.attributes.insert("Description".into(), "some words\n".repeat(n));
                for i in 0..n {
                    q.attributes.insert(format!("K{i}"), format!("v{i}"));
                }
            }
        }
    }
}
pub fn graph(r: &mut Rng, size: usize) -> Graph {
    let mut g = if r.chance(1, 4) { tidy(r, size) } else { wild(r, size) };
    if r.chance(1, 70) {
        swell(r, &mut g);
    }
    g
}
fn wild(r: &mut Rng, size: usize) -> Graph {
    let mut u = 0;
    let many = r.chance(1, 10);
    let na = if many { 4 + r.below(3) } else { (1 + r.below(1 + size.min(4))).min(4) };
    let mut artefacts = BTreeMap::new();
    let used: Vec<&str> = ARTS[..na].to_vec();
    let nid = (1 + size).min(IDS.len());
    let mut names: Vec<&str> = IDS[..nid].to_vec();
    if r.chance(1, 5) {
        names = (0..nid).map(|_| *r.pick(ODD)).collect();
    }
    let mut pool: Vec<&str> = names.clone();
    if r.chance(1, 2) {
        pool.push("U_9");
    }
    // ids are spread over the artefacts; sometimes defined twice
    let dup = r.chance(1, 3);
    let errs = r.chance(1, 3);
    let owner: Vec<usize> = (0..nid).map(|_| r.below(na + 1)).collect();
    for (n, a) in used.iter().enumerate() {
        let mut requirements = BTreeMap::new();
        for (i, id) in names.iter().enumerate() {
            let here = owner[i] == n || (dup && r.chance(1, 3));
            if here {
                let q = requirement(r, size, id, &pool, &mut u);
                requirements.insert(q.id.clone(), Rc::new(q));
            }
        }
        let list: Vec<Rc<Requirement>> = requirements.values().cloned().collect();
        let errors = if errs { (0..r.below(3)).map(|_| error(r, &list, &mut u)).collect() } else { vec![] };
        artefacts.insert(
            (*a).into(),
            Rc::new(Artefact {
                id: (*a).into(),
                files: vec![],
                ignore_derived_requirements: r.chance(1, 4),
                reference_with_title: r.chance(1, 2),
                requirements,
                errors,
            }),
        );
    }
    let nr = if r.chance(1, 8) { 0 } else { 1 + r.below(3) };
    let mut relations: Vec<Relation> = Vec::new();
    for _ in 0..nr {
        if !relations.is_empty() && r.chance(1, 10) {
            relations.push(r.pick(&relations).clone());
            continue;
        }
        let nl = if r.chance(1, 8) { 0 } else { 1 + r.below(if many { 7 } else { 3 }) };
        let self_rel = r.chance(1, 6);
        let upper = *r.pick(&used);
        let mut lower: Vec<ArtefactId> = Vec::new();
        for _ in 0..nl {
            let l = *r.pick(&used);
            if (l == upper && !self_rel) || (lower.contains(&l.into()) && !r.chance(1, 6)) {
                continue;
            }
            lower.push(l.into());
        }
        relations.push(Relation { upper: upper.into(), lower });
    }
    Graph { artefacts, relations }
}

/// A compact dump of a graph for replays
pub fn dump(g: &Graph) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    for a in g.artefacts.values() {
        let _ = writeln!(s, "artefact {} ignore_derived={} with_title={} errors={:?}", a.id, a.ignore_derived_requirements, a.reference_with_title, a.errors);
        for q in a.requirements.values() {
            let rf = |v: &[Reference]| v.iter().map(|c| format!("{}:{:?}@{}", c.id, c.title, c.location)).collect::<Vec<_>>().join(", ");
            let _ = writeln!(s, "  {} title={:?} at {} covers=[{}] depends=[{}] attributes={:?}", q.id, q.title, q.location, rf(&q.covers), rf(&q.depends), q.attributes);
        }
    }
    for r in &g.relations {
        let _ = writeln!(s, "relation {r}");
    }
    s
}
