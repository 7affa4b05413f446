@include text
@include tgok
@types RequirementTrace ArtefactRelations AggregatedGraph
@spec
// relation r is below (above) the artefact of requirement id
spec fn is_below(arts: Arts, ts: Seq<TracedRelation>, n: int, r: Relation, id: RequirementId) -> bool decreases n {
    n > 0 && ((ts[n - 1].relation == r && arts[r.upper].requirements@.contains_key(id)) || is_below(arts, ts, n - 1, r, id))
}
spec fn is_above(arts: Arts, ts: Seq<TracedRelation>, n: int, r: Relation, id: RequirementId) -> bool decreases n {
    n > 0 && ((ts[n - 1].relation == r && low_has(arts, r.lower@, r.lower@.len() as int, id)) || is_above(arts, ts, n - 1, r, id))
}
proof fn below_at(arts: Arts, ts: Seq<TracedRelation>, n: int, i: int, id: RequirementId)
    requires 0 <= i < n, arts[ts[i].relation.upper].requirements@.contains_key(id) ensures is_below(arts, ts, n, ts[i].relation, id) decreases n
{ if i < n - 1 { below_at(arts, ts, n - 1, i, id); } }
proof fn above_at(arts: Arts, ts: Seq<TracedRelation>, n: int, i: int, id: RequirementId)
    requires 0 <= i < n, low_has(arts, ts[i].relation.lower@, ts[i].relation.lower@.len() as int, id) ensures is_above(arts, ts, n, ts[i].relation, id) decreases n
{ if i < n - 1 { above_at(arts, ts, n - 1, i, id); } }
// ===== the requirement and artefact of an id: the last definition
spec fn d_art(m: Map<RequirementId, (Rc<Artefact>, Rc<Requirement>)>, a: Rc<Artefact>, k: int) -> Map<RequirementId, (Rc<Artefact>, Rc<Requirement>)> decreases k {
    if k <= 0 { m } else { d_art(m, a, k - 1).insert(a.requirements.keyseq()[k - 1], (a, a.requirements@[a.requirements.keyseq()[k - 1]])) }
}
spec fn d_all(arts: Seq<Rc<Artefact>>, n: int) -> Map<RequirementId, (Rc<Artefact>, Rc<Requirement>)> decreases n {
    if n <= 0 { Map::empty() } else { d_art(d_all(arts, n - 1), arts[n - 1], arts[n - 1].requirements.keyseq().len() as int) }
}
spec fn defs(g: TracedGraph) -> Map<RequirementId, (Rc<Artefact>, Rc<Requirement>)> { d_all(g.artefacts.valseq(), g.artefacts.valseq().len() as int) }
proof fn d_art_has(m: Map<RequirementId, (Rc<Artefact>, Rc<Requirement>)>, a: Rc<Artefact>, k: int)
    requires 0 <= k <= a.requirements.keyseq().len()
    ensures forall|id: RequirementId| #[trigger] m.contains_key(id) ==> d_art(m, a, k).contains_key(id), forall|j: int| 0 <= j < k ==> d_art(m, a, k).contains_key(#[trigger] a.requirements.keyseq()[j])
    decreases k { if k > 0 { d_art_has(m, a, k - 1); } }
proof fn d_all_has(arts: Seq<Rc<Artefact>>, n: int, i: int, id: RequirementId)
    requires 0 <= i < n <= arts.len(), arts[i].requirements@.contains_key(id) ensures d_all(arts, n).contains_key(id) decreases n
{ d_art_has(d_all(arts, n - 1), arts[n - 1], arts[n - 1].requirements.keyseq().len() as int);
  if i == n - 1 { assert(arts[i].requirements.keyseq().to_set().contains(id)); let j = choose|j: int| 0 <= j < arts[i].requirements.keyseq().len() && arts[i].requirements.keyseq()[j] == id; assert(d_all(arts, n).contains_key(arts[i].requirements.keyseq()[j])); }
  else { d_all_has(arts, n - 1, i, id); } }
proof fn defs_has(g: TracedGraph, a: ArtefactId, id: RequirementId)
    requires g.artefacts@.contains_key(a), g.artefacts@[a].requirements@.contains_key(id) ensures defs(g).contains_key(id)
{ assert(g.artefacts.keyseq().to_set().contains(a)); let i = choose|i: int| 0 <= i < g.artefacts.keyseq().len() && g.artefacts.keyseq()[i] == a; assert(g.artefacts.valseq()[i] == g.artefacts@[a]); d_all_has(g.artefacts.valseq(), g.artefacts.valseq().len() as int, i, id); }
proof fn low_defs(g: TracedGraph, lower: Seq<ArtefactId>, n: int, id: RequirementId)
    requires 0 <= n <= lower.len(), forall|j: int| 0 <= j < n ==> g.artefacts@.contains_key(#[trigger] lower[j]), low_has(g.artefacts@, lower, n, id) ensures defs(g).contains_key(id) decreases n
{ if g.artefacts@[lower[n - 1]].requirements@.contains_key(id) { assert(g.artefacts@.contains_key(lower[n - 1])); defs_has(g, lower[n - 1], id); } else { low_defs(g, lower, n - 1, id); } }
// ===== coverage along relation r of requirement id: the other requirement and the location, in order of the coverage entries
type Ent = (Requirement, Location);
spec fn dep_1(acc: Seq<Ent>, d: Map<RequirementId, (Rc<Artefact>, Rc<Requirement>)>, t: TracedRelation, k: int, r: Relation, id: RequirementId) -> Seq<Ent> decreases k {
    if k <= 0 { acc } else { let p = dep_1(acc, d, t, k - 1, r, id); if t.relation == r && t.covered@[k - 1].upper == id { p.push((*d[t.covered@[k - 1].lower].1, t.covered@[k - 1].location)) } else { p } }
}
spec fn dep_l(d: Map<RequirementId, (Rc<Artefact>, Rc<Requirement>)>, ts: Seq<TracedRelation>, n: int, r: Relation, id: RequirementId) -> Seq<Ent> decreases n {
    if n <= 0 { Seq::empty() } else { dep_1(dep_l(d, ts, n - 1, r, id), d, ts[n - 1], ts[n - 1].covered@.len() as int, r, id) }
}
spec fn cov_1(acc: Seq<Ent>, d: Map<RequirementId, (Rc<Artefact>, Rc<Requirement>)>, t: TracedRelation, k: int, r: Relation, id: RequirementId) -> Seq<Ent> decreases k {
    if k <= 0 { acc } else { let p = cov_1(acc, d, t, k - 1, r, id); if t.relation == r && t.covered@[k - 1].lower == id { p.push((*d[t.covered@[k - 1].upper].1, t.covered@[k - 1].location)) } else { p } }
}
spec fn cov_l(d: Map<RequirementId, (Rc<Artefact>, Rc<Requirement>)>, ts: Seq<TracedRelation>, n: int, r: Relation, id: RequirementId) -> Seq<Ent> decreases n {
    if n <= 0 { Seq::empty() } else { cov_1(cov_l(d, ts, n - 1, r, id), d, ts[n - 1], ts[n - 1].covered@.len() as int, r, id) }
}
spec fn ents(v: Seq<(&Requirement, &Location)>) -> Seq<Ent> { Seq::new(v.len(), |i: int| (*v[i].0, *v[i].1)) }
broadcast proof fn ents_push<'g>(v: Seq<(&'g Requirement, &'g Location)>, x: (&'g Requirement, &'g Location)) ensures #[trigger] ents(v.push(x)) == ents(v).push((*x.0, *x.1)) { assert(ents(v.push(x)) =~= ents(v).push((*x.0, *x.1))); }
// ===== relations of an artefact
spec fn low_rels(ts: Seq<TracedRelation>, n: int, a: ArtefactId) -> Seq<TracedRelation> decreases n {
    if n <= 0 { Seq::empty() } else if ts[n - 1].relation.upper == a { low_rels(ts, n - 1, a).push(ts[n - 1]) } else { low_rels(ts, n - 1, a) }
}
spec fn up_1(acc: Seq<TracedRelation>, t: TracedRelation, k: int, a: ArtefactId) -> Seq<TracedRelation> decreases k {
    if k <= 0 { acc } else if t.relation.lower@[k - 1] == a { up_1(acc, t, k - 1, a).push(t) } else { up_1(acc, t, k - 1, a) }
}
spec fn up_rels(ts: Seq<TracedRelation>, n: int, a: ArtefactId) -> Seq<TracedRelation> decreases n {
    if n <= 0 { Seq::empty() } else { up_1(up_rels(ts, n - 1, a), ts[n - 1], ts[n - 1].relation.lower@.len() as int, a) }
}
spec fn trs(v: Seq<&TracedRelation>) -> Seq<TracedRelation> { Seq::new(v.len(), |i: int| *v[i]) }
broadcast proof fn trs_push<'g>(v: Seq<&'g TracedRelation>, x: &'g TracedRelation) ensures #[trigger] trs(v.push(x)) == trs(v).push(*x) { assert(trs(v.push(x)) =~= trs(v).push(*x)); }
broadcast proof fn ents_nil<'g>(v: Seq<(&'g Requirement, &'g Location)>) requires v.len() == 0 ensures #[trigger] ents(v) == Seq::<Ent>::empty() { assert(ents(v) =~= Seq::empty()); }
broadcast proof fn trs_nil<'g>(v: Seq<&'g TracedRelation>) requires v.len() == 0 ensures #[trigger] trs(v) == Seq::<TracedRelation>::empty() { assert(trs(v) =~= Seq::empty()); }
broadcast group group_aggr { ents_push, trs_push, ents_nil, trs_nil }
// ===== the state of the aggregation
spec fn seen<K>(ks: Seq<K>, k: int, x: K) -> bool { exists|j: int| 0 <= j < k && #[trigger] ks[j] == x }
proof fn seen_step<K>(ks: Seq<K>, k: int) requires k > 0 ensures forall|x: K| #[trigger] seen(ks, k, x) <==> seen(ks, k - 1, x) || ks[k - 1] == x
{ assert forall|x: K| #[trigger] seen(ks, k, x) implies seen(ks, k - 1, x) || ks[k - 1] == x by {} }
spec fn reqs_ok<'g>(q: Map<&'g RequirementId, RequirementTrace<'g>>, d: Map<RequirementId, (Rc<Artefact>, Rc<Requirement>)>) -> bool {
    forall|id: RequirementId| #[trigger] q.contains_key(&id) <==> d.contains_key(id)
}
spec fn reqs_def<'g>(q: Map<&'g RequirementId, RequirementTrace<'g>>, d: Map<RequirementId, (Rc<Artefact>, Rc<Requirement>)>) -> bool {
    forall|id: RequirementId| q.contains_key(&id) ==> *(#[trigger] q[&id]).requirement == *d[id].1 && *q[&id].artefact == *d[id].0
}
spec fn dep_dom<'g>(q: Map<&'g RequirementId, RequirementTrace<'g>>, f: spec_fn(Relation, RequirementId) -> bool) -> bool {
    forall|r: Relation, id: RequirementId| q.contains_key(&id) ==> (#[trigger] q[&id].depends@.contains_key(&r) <==> f(r, id))
}
spec fn cov_dom<'g>(q: Map<&'g RequirementId, RequirementTrace<'g>>, f: spec_fn(Relation, RequirementId) -> bool) -> bool {
    forall|r: Relation, id: RequirementId| q.contains_key(&id) ==> (#[trigger] q[&id].covers@.contains_key(&r) <==> f(r, id))
}
spec fn dep_is<'g>(q: Map<&'g RequirementId, RequirementTrace<'g>>, f: spec_fn(Relation, RequirementId) -> Seq<Ent>) -> bool {
    forall|r: Relation, id: RequirementId| q.contains_key(&id) && q[&id].depends@.contains_key(&r) ==> ents((#[trigger] q[&id].depends@[&r])@) == f(r, id)
}
spec fn cov_is<'g>(q: Map<&'g RequirementId, RequirementTrace<'g>>, f: spec_fn(Relation, RequirementId) -> Seq<Ent>) -> bool {
    forall|r: Relation, id: RequirementId| q.contains_key(&id) && q[&id].covers@.contains_key(&r) ==> ents((#[trigger] q[&id].covers@[&r])@) == f(r, id)
}
// one entry of the view gets an empty list for a relation (below with dn, else above)
type Rq<'g> = Map<&'g RequirementId, RequirementTrace<'g>>;
spec fn entry_ins<'g>(p: Rq<'g>, q: Rq<'g>, x: RequirementId, t: Relation, dn: bool) -> bool {
    &&& q.dom() == p.dom() && p.contains_key(&x)
    &&& forall|id: RequirementId| id != x ==> #[trigger] q[&id] == p[&id]
    &&& q[&x].requirement == p[&x].requirement && q[&x].artefact == p[&x].artefact
    &&& if dn { q[&x].covers == p[&x].covers && q[&x].depends@ == p[&x].depends@.insert(&t, q[&x].depends@[&t]) && q[&x].depends@[&t]@.len() == 0 }
        else { q[&x].depends == p[&x].depends && q[&x].covers@ == p[&x].covers@.insert(&t, q[&x].covers@[&t]) && q[&x].covers@[&t]@.len() == 0 }
}
proof fn ins_step<'g>(p: Rq<'g>, q: Rq<'g>, x: RequirementId, t: Relation, dn: bool, d: Map<RequirementId, (Rc<Artefact>, Rc<Requirement>)>,
        f: spec_fn(Relation, RequirementId) -> bool, g: spec_fn(Relation, RequirementId) -> bool, c: spec_fn(Relation, RequirementId) -> bool, e: spec_fn(Relation, RequirementId) -> Seq<Ent>)
    requires entry_ins(p, q, x, t, dn), reqs_ok(p, d), forall|r: Relation, id: RequirementId| #[trigger] e(r, id) == Seq::<Ent>::empty(),
        forall|r: Relation, id: RequirementId| #[trigger] g(r, id) <==> f(r, id) || (r == t && id == x),
        if dn { dep_dom(p, f) && cov_dom(p, c) } else { cov_dom(p, f) && dep_dom(p, c) },
    ensures reqs_ok(q, d), reqs_def(p, d) ==> reqs_def(q, d), dep_is(p, e) ==> dep_is(q, e), cov_is(p, e) ==> cov_is(q, e),
        if dn { dep_dom(q, g) && cov_dom(q, c) } else { cov_dom(q, g) && dep_dom(q, c) },
{
    broadcast use group_aggr;
    assert forall|id: RequirementId| #[trigger] q.contains_key(&id) == p.contains_key(&id) by {}
    if reqs_def(p, d) { assert forall|id: RequirementId| q.contains_key(&id) implies *(#[trigger] q[&id]).requirement == *d[id].1 && *q[&id].artefact == *d[id].0 by { let y = p[&id]; } }
    assert forall|r: Relation, id: RequirementId| q.contains_key(&id) implies (#[trigger] q[&id].depends@.contains_key(&r) <==> if dn { g(r, id) } else { c(r, id) }) by {
        let b = p[&id].depends@.contains_key(&r); if dn { assert(b <==> f(r, id)); } else { assert(b <==> c(r, id)); }
    }
    assert forall|r: Relation, id: RequirementId| q.contains_key(&id) implies (#[trigger] q[&id].covers@.contains_key(&r) <==> if dn { c(r, id) } else { g(r, id) }) by {
        let b = p[&id].covers@.contains_key(&r); if dn { assert(b <==> c(r, id)); } else { assert(b <==> f(r, id)); }
    }
    if dn { assert(dep_dom(q, g) && cov_dom(q, c)); } else { assert(cov_dom(q, g) && dep_dom(q, c)); }
    if dep_is(p, e) { assert forall|r: Relation, id: RequirementId| q.contains_key(&id) && q[&id].depends@.contains_key(&r) implies ents((#[trigger] q[&id].depends@[&r])@) == e(r, id) by { let b = ents(p[&id].depends@[&r]@); let h = p[&id].depends@.contains_key(&r); } }
    if cov_is(p, e) { assert forall|r: Relation, id: RequirementId| q.contains_key(&id) && q[&id].covers@.contains_key(&r) implies ents((#[trigger] q[&id].covers@[&r])@) == e(r, id) by { let b = ents(p[&id].covers@[&r]@); let h = p[&id].covers@.contains_key(&r); } }
}
spec fn arts_ok<'g>(m: Map<ArtefactId, ArtefactRelations<'g>>, arts: Arts) -> bool {
    forall|a: ArtefactId| #[trigger] m.contains_key(a) <==> arts.contains_key(a)
}
spec fn arts_art<'g>(m: Map<ArtefactId, ArtefactRelations<'g>>, arts: Arts) -> bool {
    forall|a: ArtefactId| m.contains_key(a) ==> *(#[trigger] m[a]).artefact == *arts[a]
}
spec fn arts_low<'g>(m: Map<ArtefactId, ArtefactRelations<'g>>, f: spec_fn(ArtefactId) -> Seq<TracedRelation>) -> bool {
    forall|a: ArtefactId| m.contains_key(a) ==> trs((#[trigger] m[a]).lower@) == f(a)
}
spec fn arts_up<'g>(m: Map<ArtefactId, ArtefactRelations<'g>>, f: spec_fn(ArtefactId) -> Seq<TracedRelation>) -> bool {
    forall|a: ArtefactId| m.contains_key(a) ==> trs((#[trigger] m[a]).upper@) == f(a)
}
// everything C08 says about the view
spec fn view_of<'g>(ag: AggregatedGraph<'g>, g: TracedGraph) -> bool {
    let n = g.traced_relations@.len() as int;
    &&& arts_ok(ag.artefacts@, g.artefacts@) && arts_art(ag.artefacts@, g.artefacts@) && reqs_def(ag.requirements@, defs(g))
    &&& arts_low(ag.artefacts@, |a: ArtefactId| low_rels(g.traced_relations@, n, a))
    &&& arts_up(ag.artefacts@, |a: ArtefactId| up_rels(g.traced_relations@, n, a))
    &&& dep_dom(ag.requirements@, |r: Relation, id: RequirementId| is_below(g.artefacts@, g.traced_relations@, n, r, id))
    &&& cov_dom(ag.requirements@, |r: Relation, id: RequirementId| is_above(g.artefacts@, g.traced_relations@, n, r, id))
    &&& dep_is(ag.requirements@, |r: Relation, id: RequirementId| dep_l(defs(g), g.traced_relations@, n, r, id))
    &&& cov_is(ag.requirements@, |r: Relation, id: RequirementId| cov_l(defs(g), g.traced_relations@, n, r, id))
}
