@spec
type Arts = Map<ArtefactId, Rc<Artefact>>;
// ===== what the tracer guarantees about the shape of its result
// the id is one of a requirement of the first n lower artefacts
spec fn low_has(arts: Arts, lower: Seq<ArtefactId>, n: int, id: RequirementId) -> bool decreases n {
    n > 0 && (arts[lower[n - 1]].requirements@.contains_key(id) || low_has(arts, lower, n - 1, id))
}
proof fn low_has_at(arts: Arts, lower: Seq<ArtefactId>, n: int, i: int, id: RequirementId)
    requires 0 <= i < n <= lower.len(), arts[lower[i]].requirements@.contains_key(id) ensures low_has(arts, lower, n, id) decreases n
{ if i < n - 1 { low_has_at(arts, lower, n - 1, i, id); } }
proof fn low_has_at_r(arts: Arts, lower: Seq<ArtefactId>, n: int, i: int, r: Rc<Requirement>)
    requires 0 <= i < n <= lower.len(), arts[lower[i]].requirements@.contains_key(r.id) ensures low_has(arts, lower, n, rid(r))
{ low_has_at(arts, lower, n, i, rid(r)); }
spec fn rid(r: Rc<Requirement>) -> RequirementId { r.id }
spec fn tg_cov_ok(arts: Arts, r: Relation, covered: Seq<Coverage>) -> bool {
    &&& forall|j: int| 0 <= j < covered.len() ==> arts[r.upper].requirements@.contains_key((#[trigger] covered[j]).upper)
    &&& forall|j: int| 0 <= j < covered.len() ==> low_has(arts, r.lower@, r.lower@.len() as int, (#[trigger] covered[j]).lower)
}
spec fn tg_unc_ok(arts: Arts, r: Relation, uncovered: Seq<RequirementId>) -> bool {
    forall|j: int| 0 <= j < uncovered.len() ==> arts[r.upper].requirements@.contains_key(#[trigger] uncovered[j])
}
spec fn tg_rel_ok(arts: Arts, t: TracedRelation) -> bool {
    &&& arts.contains_key(t.relation.upper)
    &&& forall|j: int| 0 <= j < t.relation.lower@.len() ==> arts.contains_key(#[trigger] t.relation.lower@[j])
    &&& tg_cov_ok(arts, t.relation, t.covered@)
    &&& tg_unc_ok(arts, t.relation, t.uncovered@)
}
spec fn keyed(arts: Arts) -> bool { forall|a: ArtefactId, id: RequirementId| arts.contains_key(a) && #[trigger] arts[a].requirements@.contains_key(id) ==> arts[a].requirements@[id].id == id }
spec fn tg_ok(g: TracedGraph) -> bool {
    &&& forall|i: int| 0 <= i < g.traced_relations@.len() ==> tg_rel_ok(g.artefacts@, #[trigger] g.traced_relations@[i])
    &&& forall|a: ArtefactId| #[trigger] g.derived@.contains_key(a) ==> g.artefacts@.contains_key(a)
    &&& forall|a: ArtefactId, j: int| g.derived@.contains_key(a) && 0 <= j < g.derived@[a]@.len() ==> g.artefacts@[a].requirements@.contains_key(#[trigger] g.derived@[a]@[j])
    &&& keyed(g.artefacts@)
    &&& forall|a: ArtefactId| #[trigger] g.artefacts@.contains_key(a) ==> g.artefacts@[a].id == a
}
