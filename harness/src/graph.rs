//! C01-C07: tracing
use crate::gen;
use crate::{diff, Case, Env, Rng};
use reqtrace::models::*;
use reqtrace::trace::trace;
use std::collections::{BTreeMap, BTreeSet};

fn case(r: &mut Rng, size: usize, c: &mut Case) -> Graph {
    let g = gen::graph(r, size);
    c.input = gen::dump(&g);
    g
}

/// what a relation should be traced to: (upper, lower, location, down, reference, lower artefact)
pub struct Entry<'g> {
    pub upper: &'g Requirement,
    pub lower: &'g Requirement,
    pub reference: &'g Reference,
    pub down: bool,
    pub lower_art: &'g Artefact,
    pub upper_art: &'g Artefact,
}

/// the artefact whose definition of an id counts
fn owner<'g>(g: &'g Graph, id: &RequirementId) -> Option<&'g Artefact> {
    g.artefacts.values().find(|a| a.requirements.contains_key(id)).map(|a| &**a)
}

pub fn entries<'g>(g: &'g Graph, rel: &Relation) -> Vec<Entry<'g>> {
    let upper_art: &Artefact = &g.artefacts[&rel.upper];
    let mut out = Vec::new();
    for upper in upper_art.requirements.values() {
        for reference in &upper.depends {
            for l in &rel.lower {
                let lower_art: &Artefact = &g.artefacts[l];
                if let Some(o) = owner(g, &reference.id) {
                    if o.id == lower_art.id {
                        out.push(Entry { upper, lower: &lower_art.requirements[&reference.id], reference, down: true, lower_art, upper_art });
                    }
                }
            }
        }
        for l in &rel.lower {
            let lower_art: &Artefact = &g.artefacts[l];
            for lower in lower_art.requirements.values() {
                if owner(g, &lower.id).unwrap().id != lower_art.id {
                    continue;
                }
                for reference in lower.covers.iter().filter(|x| x.id == upper.id) {
                    out.push(Entry { upper, lower, reference, down: false, lower_art, upper_art });
                }
            }
        }
    }
    out
}

type Cov = (String, String, String, bool);
fn cov_key(u: &RequirementId, l: &RequirementId, loc: &Location, down: bool) -> Cov {
    (u.to_string(), l.to_string(), format!("{loc:?}"), down)
}

pub fn coverage(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let g = case(r, size, c);
    let t = trace(&g);
    diff("number of relations", &g.relations.len(), &t.traced_relations.len())?;
    for (rel, tr) in g.relations.iter().zip(&t.traced_relations) {
        let e: Vec<Cov> = entries(&g, rel).iter().map(|e| cov_key(&e.upper.id, &e.lower.id, &e.reference.location, e.down)).collect();
        c.nontrivial |= !e.is_empty();
        let a: Vec<Cov> = tr.covered.iter().map(|x| cov_key(&x.upper, &x.lower, &x.location, matches!(x.direction, CoverageDirection::Downwards))).collect();
        diff(&format!("coverage of {rel}"), &e, &a)?;
    }
    Ok(())
}

pub fn uncovered(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let g = case(r, size, c);
    let t = trace(&g);
    for (rel, tr) in g.relations.iter().zip(&t.traced_relations) {
        let cov: BTreeSet<&RequirementId> = entries(&g, rel).iter().map(|e| &e.upper.id).collect();
        let exp: Vec<String> = g.artefacts[&rel.upper].requirements.keys().filter(|k| !cov.contains(k)).map(ToString::to_string).collect();
        c.nontrivial |= !exp.is_empty() && !cov.is_empty();
        let act: Vec<String> = tr.uncovered.iter().map(ToString::to_string).collect();
        diff(&format!("uncovered requirements of {rel}"), &exp, &act)?;
        // and against the reported coverage itself
        let cov: BTreeSet<&RequirementId> = tr.covered.iter().map(|e| &e.upper).collect();
        let exp: Vec<String> = g.artefacts[&rel.upper].requirements.keys().filter(|k| !cov.contains(k)).map(ToString::to_string).collect();
        diff(&format!("uncovered against the coverage entries of {rel}"), &exp, &act)?;
    }
    Ok(())
}

pub fn derived(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let g = case(r, size, c);
    let t = trace(&g);
    let exp: BTreeMap<String, Vec<String>> = g
        .artefacts
        .values()
        .map(|a| {
            let mut covering: BTreeSet<&RequirementId> = BTreeSet::new();
            for rel in &g.relations {
                if rel.lower.contains(&a.id) {
                    covering.extend(entries(&g, rel).iter().filter(|e| e.lower_art.id == a.id).map(|e| &e.lower.id));
                }
            }
            let l: Vec<String> = if a.ignore_derived_requirements {
                vec![]
            } else {
                a.requirements.keys().filter(|k| owner(&g, k).unwrap().id == a.id && !covering.contains(k)).map(ToString::to_string).collect()
            };
            c.nontrivial |= !l.is_empty() && !covering.is_empty();
            (a.id.to_string(), l)
        })
        .collect();
    let act: BTreeMap<String, Vec<String>> = t.derived.iter().map(|(k, v)| (k.to_string(), v.iter().map(ToString::to_string).collect())).collect();
    diff("derived requirements", &exp, &act)
}

pub fn dangling(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let g = case(r, size, c);
    let t = trace(&g);
    let all: Vec<Entry<'_>> = g.relations.iter().flat_map(|rel| entries(&g, rel)).collect();
    let mut exp: Vec<(String, String, String, bool)> = Vec::new();
    for a in g.artefacts.values() {
        for q in a.requirements.values().filter(|q| owner(&g, &q.id).unwrap().id == a.id) {
            for (list, down) in [(&q.covers, false), (&q.depends, true)] {
                let mut seen = BTreeSet::new();
                for x in list.iter() {
                    if !seen.insert(&x.id) {
                        continue;
                    }
                    let hit = all.iter().any(|e| e.down == down && if down { e.upper.id == q.id && e.lower.id == x.id } else { e.lower.id == q.id && e.upper.id == x.id });
                    if !hit {
                        exp.push((format!("{q:?}"), x.id.to_string(), format!("{:?}", x.location), down));
                    } else {
                        c.nontrivial = true;
                    }
                }
            }
        }
    }
    let mut act: Vec<(String, String, String, bool)> = t
        .errors
        .iter()
        .filter_map(|e| match e {
            Error::CoversUnknownRequirement(q, i, l) => Some((format!("{q:?}"), i.to_string(), format!("{l:?}"), false)),
            Error::DependOnUnknownRequirement(q, i, l) => Some((format!("{q:?}"), i.to_string(), format!("{l:?}"), true)),
            _ => None,
        })
        .collect();
    exp.sort();
    act.sort();
    diff("dangling references", &exp, &act)
}

pub fn titles(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let g = case(r, size, c);
    let t = trace(&g);
    let mut exp: Vec<String> = Vec::new();
    for rel in &g.relations {
        for e in entries(&g, rel) {
            let (target, art) = if e.down { (e.lower, e.lower_art) } else { (e.upper, e.upper_art) };
            match &e.reference.title {
                Some(x) => {
                    if target.title.as_ref() != Some(x) {
                        exp.push(format!("wrong down={} {:?} {:?} {x:?} {:?}", e.down, e.upper, e.lower, e.reference.location));
                    } else {
                        c.nontrivial = true;
                    }
                }
                None => {
                    if art.reference_with_title {
                        exp.push(format!("without {target:?} {:?}", e.reference.location));
                    }
                }
            }
        }
    }
    let mut act: Vec<String> = t
        .errors
        .iter()
        .filter_map(|e| match e {
            Error::CoveredWithWrongTitle { upper, lower, wrong_title, location } => Some(format!("wrong down=false {upper:?} {lower:?} {wrong_title:?} {location:?}")),
            Error::DependWithWrongTitle { upper, lower, wrong_title, location } => Some(format!("wrong down=true {upper:?} {lower:?} {wrong_title:?} {location:?}")),
            Error::ReferencedWithoutTitle { referenced, location } => Some(format!("without {referenced:?} {location:?}")),
            _ => None,
        })
        .collect();
    exp.sort();
    act.sort();
    diff("title errors", &exp, &act)
}

pub fn duplicates(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let g = case(r, size, c);
    let t = trace(&g);
    let mut exp: Vec<(String, String)> = Vec::new();
    for a in g.artefacts.values() {
        for q in a.requirements.values() {
            let o = owner(&g, &q.id).unwrap();
            if o.id != a.id {
                exp.push((format!("{:?}", o.requirements[&q.id]), format!("{q:?}")));
            }
        }
    }
    c.nontrivial = !exp.is_empty();
    let mut act: Vec<(String, String)> = t
        .errors
        .iter()
        .filter_map(|e| match e {
            Error::DuplicateRequirement(a, b) => Some((format!("{a:?}"), format!("{b:?}"))),
            _ => None,
        })
        .collect();
    exp.sort();
    act.sort();
    diff("duplicates between artefacts", &exp, &act)
}

pub fn unused(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let g = case(r, size, c);
    let t = trace(&g);
    let exp: Vec<String> = g.relations.iter().map(|x| format!("{x:?}")).collect();
    let act: Vec<String> = t.traced_relations.iter().map(|x| format!("{:?}", x.relation)).collect();
    diff("traced relations", &exp, &act)?;
    let exp: Vec<String> = g.relations.iter().filter(|x| entries(&g, x).is_empty()).map(|x| format!("{x:?}")).collect();
    c.nontrivial = exp.len() < g.relations.len();
    let act: Vec<String> = t
        .errors
        .iter()
        .filter_map(|e| match e {
            Error::UnusedRelation(x) => Some(format!("{x:?}")),
            _ => None,
        })
        .collect();
    diff("unused relations", &exp, &act)?;
    // the traced graph holds the artefacts of the graph, unchanged
    let exp: Vec<String> = g.artefacts.values().map(|a| format!("{a:?}")).collect();
    let act: Vec<String> = t.artefacts.values().map(|a| format!("{a:?}")).collect();
    diff("artefacts", &exp, &act)
}
