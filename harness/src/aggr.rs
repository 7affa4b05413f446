//! C08: the aggregated view
use crate::gen;
use crate::{diff, Case, Env, Rng};
use reqtrace::aggregator::AggregatedGraph;
use reqtrace::models::*;
use std::collections::BTreeMap;

type View = BTreeMap<String, BTreeMap<String, Vec<(String, String)>>>;

pub fn aggregated(r: &mut Rng, size: usize, c: &mut Case, _: &Env) -> Result<(), String> {
    let mut g = gen::graph(r, size);
    // an id belongs to one artefact here; redefinitions are C06
    let mut seen = std::collections::BTreeSet::new();
    for a in g.artefacts.values_mut() {
        let a = std::rc::Rc::get_mut(a).unwrap();
        a.requirements.retain(|k, _| seen.insert(k.clone()));
    }
    c.input = gen::dump(&g);
    let t = reqtrace::trace::trace(&g);
    let ag = AggregatedGraph::new(&t);
    // artefacts
    let rels: Vec<String> = t.traced_relations.iter().map(|x| format!("{:p}", x)).collect();
    let mut exp: BTreeMap<String, (Vec<String>, Vec<String>, String)> = BTreeMap::new();
    for (id, a) in &t.artefacts {
        let lower = t.traced_relations.iter().zip(&rels).filter(|(x, _)| x.relation.upper == *id).map(|(_, p)| p.clone()).collect();
        let upper = t.traced_relations.iter().zip(&rels).flat_map(|(x, p)| x.relation.lower.iter().filter(|l| *l == id).map(move |_| p.clone())).collect();
        exp.insert(id.to_string(), (upper, lower, format!("{:p}", &**a)));
    }
    let act = ag
        .artefacts
        .iter()
        .map(|(k, v)| (k.to_string(), (v.upper.iter().map(|x| format!("{:p}", *x)).collect(), v.lower.iter().map(|x| format!("{:p}", *x)).collect(), format!("{:p}", v.artefact))))
        .collect();
    diff("relations of the artefacts", &exp, &act)?;
    // requirements
    let art_of: BTreeMap<&RequirementId, &Artefact> = t.artefacts.values().flat_map(|a| a.requirements.keys().map(move |k| (k, &**a))).collect();
    let (mut dep, mut cov): (View, View) = (BTreeMap::new(), BTreeMap::new());
    for (id, a) in &art_of {
        let d = dep.entry(id.to_string()).or_default();
        let v = cov.entry(id.to_string()).or_default();
        for tr in &t.traced_relations {
            let key = format!("{:?}", tr.relation);
            if tr.relation.upper == a.id {
                d.entry(key.clone()).or_default();
            }
            if tr.relation.lower.contains(&a.id) {
                v.entry(key).or_default();
            }
        }
    }
    for tr in &t.traced_relations {
        let key = format!("{:?}", tr.relation);
        for x in &tr.covered {
            c.nontrivial = true;
            let lower = format!("{:?}", art_of[&x.lower].requirements[&x.lower]);
            let upper = format!("{:?}", art_of[&x.upper].requirements[&x.upper]);
            dep.get_mut(&x.upper.to_string()).unwrap().get_mut(&key).unwrap().push((lower, format!("{:?}", x.location)));
            cov.get_mut(&x.lower.to_string()).unwrap().get_mut(&key).unwrap().push((upper, format!("{:?}", x.location)));
        }
    }
    let get = |m: &BTreeMap<&Relation, Vec<(&Requirement, &Location)>>| -> BTreeMap<String, Vec<(String, String)>> {
        m.iter().map(|(k, v)| (format!("{k:?}"), v.iter().map(|(q, l)| (format!("{q:?}"), format!("{l:?}"))).collect())).collect()
    };
    let adep: View = ag.requirements.iter().map(|(k, v)| (k.to_string(), get(&v.depends))).collect();
    let acov: View = ag.requirements.iter().map(|(k, v)| (k.to_string(), get(&v.covers))).collect();
    diff("requirements that cover", &dep, &adep)?;
    diff("requirements that are covered", &cov, &acov)?;
    for (k, v) in &ag.requirements {
        diff("artefact of a requirement", &format!("{:p}", art_of[k]), &format!("{:p}", v.artefact))?;
        diff("requirement", &format!("{:?}", art_of[k].requirements[*k]), &format!("{:?}", v.requirement))?;
    }
    diff("traced graph", &format!("{:p}", &t), &format!("{:p}", ag.traced_graph))
}
