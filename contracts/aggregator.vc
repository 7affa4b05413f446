@include agspec
@macro AG
[*] arts_ok(artefacts@, ga), reqs_ok(requirements@, dd)
[C08 C18] arts_art(artefacts@, ga)
[*] reqs_def(requirements@, dd)
@fn aggregator.rs::AggregatedGraph::new
@requires
[*] tg_ok(*traced_graph)
@ensures
[*] *ret.traced_graph == *traced_graph
[C08 C18] arts_ok(ret.artefacts@, traced_graph.artefacts@), arts_art(ret.artefacts@, traced_graph.artefacts@)
[*] reqs_ok(ret.requirements@, defs(*traced_graph))
[C08 C18] reqs_def(ret.requirements@, defs(*traced_graph))
[C08 C18] arts_low(ret.artefacts@, |a: ArtefactId| low_rels(traced_graph.traced_relations@, traced_graph.traced_relations@.len() as int, a))
[C08 C18] arts_up(ret.artefacts@, |a: ArtefactId| up_rels(traced_graph.traced_relations@, traced_graph.traced_relations@.len() as int, a))
[C08 C18] dep_dom(ret.requirements@, |r: Relation, id: RequirementId| is_below(traced_graph.artefacts@, traced_graph.traced_relations@, traced_graph.traced_relations@.len() as int, r, id))
[C08 C18] cov_dom(ret.requirements@, |r: Relation, id: RequirementId| is_above(traced_graph.artefacts@, traced_graph.traced_relations@, traced_graph.traced_relations@.len() as int, r, id))
[C08 C18] dep_is(ret.requirements@, |r: Relation, id: RequirementId| dep_l(defs(*traced_graph), traced_graph.traced_relations@, traced_graph.traced_relations@.len() as int, r, id))
[C08 C18] cov_is(ret.requirements@, |r: Relation, id: RequirementId| cov_l(defs(*traced_graph), traced_graph.traced_relations@, traced_graph.traced_relations@.len() as int, r, id))
@begin
broadcast use group_aggr;
let ghost ga = traced_graph.artefacts@;
let ghost gs = traced_graph.artefacts.valseq();
let ghost gk = traced_graph.artefacts.keyseq();
let ghost ts = traced_graph.traced_relations@;
let ghost tn = ts.len() as int;
let ghost dd = defs(*traced_graph);
@loop 1
@inv
[*] forall|a: ArtefactId| #[trigger] $acc1@.contains_key(a) <==> seen(gk, $it1.pos(), a)
[C08 C18] forall|a: ArtefactId| $acc1@.contains_key(a) ==> *(#[trigger] $acc1@[a]).artefact == *ga[a] && $acc1@[a].upper@.len() == 0 && $acc1@[a].lower@.len() == 0
@head
assert(*$x1.0 == gk[$it1.pos() - 1]);
@post
assert forall|a: ArtefactId| #[trigger] $acc1@.contains_key(a) <==> ga.contains_key(a) by {
    assert(gk.to_set() == ga.dom());
    if ga.contains_key(a) { assert(gk.to_set().contains(a)); assert(seen(gk, gk.len() as int, a)); }
    if seen(gk, gk.len() as int, a) { assert(gk.to_set().contains(a)); }
}
@loop 2
@pre
assert($s2 =~= refs(gs));
@inv
[*] reqs_ok($acc2@, d_all(gs, $it2.pos()))
[*] reqs_def($acc2@, d_all(gs, $it2.pos()))
[*] forall|id: RequirementId| $acc2@.contains_key(&id) ==> (#[trigger] $acc2@[&id]).covers@ == Map::<&Relation, Vec<(&Requirement, &Location)>>::empty() && $acc2@[&id].depends@ == Map::<&Relation, Vec<(&Requirement, &Location)>>::empty()
@head
let ghost d2 = d_all(gs, $it2.pos() - 1);
let ghost a2 = gs[$it2.pos() - 1];
@loop 3
@inv
[*] reqs_ok($acc2@, d_art(d2, a2, $it3.pos()))
[*] reqs_def($acc2@, d_art(d2, a2, $it3.pos()))
[*] forall|id: RequirementId| $acc2@.contains_key(&id) ==> (#[trigger] $acc2@[&id]).covers@ == Map::<&Relation, Vec<(&Requirement, &Location)>>::empty() && $acc2@[&id].depends@ == Map::<&Relation, Vec<(&Requirement, &Location)>>::empty()
@loop 4
@inv
%AG x
[C08 C18] arts_low(artefacts@, |a: ArtefactId| low_rels(ts, $it4.pos(), a))
[C08 C18] arts_up(artefacts@, |a: ArtefactId| up_rels(ts, $it4.pos(), a))
[*] dep_dom(requirements@, |r: Relation, id: RequirementId| is_below(ga, ts, $it4.pos(), r, id))
[*] cov_dom(requirements@, |r: Relation, id: RequirementId| is_above(ga, ts, $it4.pos(), r, id))
[C08 C18] dep_is(requirements@, |r: Relation, id: RequirementId| Seq::empty()), cov_is(requirements@, |r: Relation, id: RequirementId| Seq::empty())
@head
let ghost n4 = $it4.pos();
let ghost t4 = ts[n4 - 1];
let ghost k5 = ga[t4.relation.upper].requirements.keyseq();
assert(tg_rel_ok(ga, t4));
@loop 5
@inv
%AG x
[*] dep_dom(requirements@, |r: Relation, id: RequirementId| is_below(ga, ts, n4 - 1, r, id) || (r == t4.relation && seen(k5, $it5.pos(), id)))
[*] cov_dom(requirements@, |r: Relation, id: RequirementId| is_above(ga, ts, n4 - 1, r, id))
[C08 C18] dep_is(requirements@, |r: Relation, id: RequirementId| Seq::empty()), cov_is(requirements@, |r: Relation, id: RequirementId| Seq::empty())
@head
let ghost q5 = requirements@;
assert(*$x5 == k5[$it5.pos() - 1] && k5.to_set().contains(*$x5));
proof { defs_has(*traced_graph, t4.relation.upper, *$x5); seen_step(k5, $it5.pos()); }
@tail
proof {
    assert(requirements@.dom() =~= q5.dom());
    ins_step(q5, requirements@, *$x5, t4.relation, true, dd, |r: Relation, id: RequirementId| is_below(ga, ts, n4 - 1, r, id) || (r == t4.relation && seen(k5, $it5.pos() - 1, id)), |r: Relation, id: RequirementId| is_below(ga, ts, n4 - 1, r, id) || (r == t4.relation && seen(k5, $it5.pos(), id)), |r: Relation, id: RequirementId| is_above(ga, ts, n4 - 1, r, id), |r: Relation, id: RequirementId| Seq::empty());
}
@loop 6
@inv
%AG x
[C08 C18] arts_low(artefacts@, |a: ArtefactId| low_rels(ts, n4, a))
[C08 C18] arts_up(artefacts@, |a: ArtefactId| up_1(up_rels(ts, n4 - 1, a), t4, $it6.pos(), a))
[*] dep_dom(requirements@, |r: Relation, id: RequirementId| is_below(ga, ts, n4, r, id))
[*] cov_dom(requirements@, |r: Relation, id: RequirementId| is_above(ga, ts, n4 - 1, r, id) || (r == t4.relation && low_has(ga, t4.relation.lower@, $it6.pos(), id)))
[C08 C18] dep_is(requirements@, |r: Relation, id: RequirementId| Seq::empty()), cov_is(requirements@, |r: Relation, id: RequirementId| Seq::empty())
@head
let ghost k7 = ga[*$x6].requirements.keyseq();
let ghost n6 = $it6.pos();
@loop 7
@inv
%AG x
[*] dep_dom(requirements@, |r: Relation, id: RequirementId| is_below(ga, ts, n4, r, id))
[*] cov_dom(requirements@, |r: Relation, id: RequirementId| is_above(ga, ts, n4 - 1, r, id) || (r == t4.relation && (low_has(ga, t4.relation.lower@, n6 - 1, id) || seen(k7, $it7.pos(), id))))
[C08 C18] dep_is(requirements@, |r: Relation, id: RequirementId| Seq::empty()), cov_is(requirements@, |r: Relation, id: RequirementId| Seq::empty())
@head
assert(*$x7 == k7[$it7.pos() - 1] && k7.to_set().contains(*$x7));
proof { defs_has(*traced_graph, *$x6, *$x7); seen_step(k7, $it7.pos()); }
let ghost q7 = requirements@;
@tail
proof {
    assert(requirements@.dom() =~= q7.dom());
    ins_step(q7, requirements@, *$x7, t4.relation, false, dd, |r: Relation, id: RequirementId| is_above(ga, ts, n4 - 1, r, id) || (r == t4.relation && (low_has(ga, t4.relation.lower@, n6 - 1, id) || seen(k7, $it7.pos() - 1, id))), |r: Relation, id: RequirementId| is_above(ga, ts, n4 - 1, r, id) || (r == t4.relation && (low_has(ga, t4.relation.lower@, n6 - 1, id) || seen(k7, $it7.pos(), id))), |r: Relation, id: RequirementId| is_below(ga, ts, n4, r, id), |r: Relation, id: RequirementId| Seq::empty());
}
@loop 8
@inv
%AG x
[*] dep_dom(requirements@, |r: Relation, id: RequirementId| is_below(ga, ts, tn, r, id))
[*] cov_dom(requirements@, |r: Relation, id: RequirementId| is_above(ga, ts, tn, r, id))
[C08 C18] dep_is(requirements@, |r: Relation, id: RequirementId| dep_l(dd, ts, $it8.pos(), r, id))
[C08 C18] cov_is(requirements@, |r: Relation, id: RequirementId| cov_l(dd, ts, $it8.pos(), r, id))
@head
let ghost n8 = $it8.pos();
let ghost t8 = ts[n8 - 1];
assert(tg_rel_ok(ga, t8));
@loop 9
@inv
%AG x
[*] dep_dom(requirements@, |r: Relation, id: RequirementId| is_below(ga, ts, tn, r, id))
[*] cov_dom(requirements@, |r: Relation, id: RequirementId| is_above(ga, ts, tn, r, id))
[C08 C18] dep_is(requirements@, |r: Relation, id: RequirementId| dep_1(dep_l(dd, ts, n8 - 1, r, id), dd, t8, $it9.pos(), r, id))
[C08 C18] cov_is(requirements@, |r: Relation, id: RequirementId| cov_1(cov_l(dd, ts, n8 - 1, r, id), dd, t8, $it9.pos(), r, id))
@head
let ghost c9 = t8.covered@[$it9.pos() - 1];
proof {
    defs_has(*traced_graph, t8.relation.upper, c9.upper);
    low_defs(*traced_graph, t8.relation.lower@, t8.relation.lower@.len() as int, c9.lower);
    below_at(ga, ts, tn, n8 - 1, c9.upper);
    above_at(ga, ts, tn, n8 - 1, c9.lower);
}
