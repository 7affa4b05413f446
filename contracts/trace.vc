@include text
@include tgok
@types TracedArtefact Tracer

@spec
// ===== the index the tracer builds for an artefact
struct IdxA { art: Rc<Artefact>, by_id: Map<RequirementId, Rc<Requirement>>, cover: Map<RequirementId, Seq<(Rc<Requirement>, Reference)>> }
type Idx = Map<ArtefactId, IdxA>;
type Defs = Map<RequirementId, (ArtefactId, Rc<Requirement>)>;
type Link = (RequirementId, RequirementId);
spec fn cview(m: Map<RequirementId, Vec<(Rc<Requirement>, Reference)>>) -> Map<RequirementId, Seq<(Rc<Requirement>, Reference)>> { m.map_values(|v: Vec<(Rc<Requirement>, Reference)>| v@) }
spec fn idx_a(t: TracedArtefact) -> IdxA { IdxA { art: t.artefact, by_id: t.requirements_by_id@, cover: cview(t.requirements_that_cover@) } }
spec fn idx(ta: Map<ArtefactId, TracedArtefact>) -> Idx { ta.map_values(|t: TracedArtefact| idx_a(t)) }

// ===== what adding the first k requirements rs of artefact a to the definitions m gives
spec fn f_defs(m: Defs, a: ArtefactId, rs: Seq<Rc<Requirement>>, k: int) -> Defs decreases k {
    if k <= 0 { m } else { let p = f_defs(m, a, rs, k - 1); let r = rs[k - 1]; if p.contains_key(r.id) { p } else { p.insert(r.id, (a, r)) } }
}
spec fn fresh(m: Defs, a: ArtefactId, rs: Seq<Rc<Requirement>>, k: int) -> bool { !f_defs(m, a, rs, k).contains_key(rs[k].id) }
spec fn f_by(m: Defs, a: ArtefactId, rs: Seq<Rc<Requirement>>, k: int) -> Map<RequirementId, Rc<Requirement>> decreases k {
    if k <= 0 { Map::empty() } else { let p = f_by(m, a, rs, k - 1); if fresh(m, a, rs, k - 1) { p.insert(rs[k - 1].id, rs[k - 1]) } else { p } }
}
spec fn add_cov(m: Map<RequirementId, Seq<(Rc<Requirement>, Reference)>>, r: Rc<Requirement>, k: int) -> Map<RequirementId, Seq<(Rc<Requirement>, Reference)>> decreases k {
    if k <= 0 { m } else { let p = add_cov(m, r, k - 1); let c = r.covers@[k - 1];
      p.insert(c.id, (if p.contains_key(c.id) { p[c.id] } else { Seq::empty() }).push((r, c))) }
}
spec fn f_cov(m: Defs, a: ArtefactId, rs: Seq<Rc<Requirement>>, k: int) -> Map<RequirementId, Seq<(Rc<Requirement>, Reference)>> decreases k {
    if k <= 0 { Map::empty() } else { let p = f_cov(m, a, rs, k - 1); if fresh(m, a, rs, k - 1) { add_cov(p, rs[k - 1], rs[k - 1].covers@.len() as int) } else { p } }
}
spec fn f_der(m: Defs, a: ArtefactId, rs: Seq<Rc<Requirement>>, k: int, ign: bool) -> Set<RequirementId> decreases k {
    if k <= 0 { Set::empty() } else { let p = f_der(m, a, rs, k - 1, ign); if fresh(m, a, rs, k - 1) && !ign { p.insert(rs[k - 1].id) } else { p } }
}
spec fn add_lc(s: Set<Link>, r: Rc<Requirement>, k: int) -> Set<Link> decreases k { if k <= 0 { s } else { add_lc(s, r, k - 1).insert((r.covers@[k - 1].id, r.id)) } }
spec fn add_ld(s: Set<Link>, r: Rc<Requirement>, k: int) -> Set<Link> decreases k { if k <= 0 { s } else { add_ld(s, r, k - 1).insert((r.id, r.depends@[k - 1].id)) } }
spec fn f_lc(s: Set<Link>, m: Defs, a: ArtefactId, rs: Seq<Rc<Requirement>>, k: int) -> Set<Link> decreases k {
    if k <= 0 { s } else { let p = f_lc(s, m, a, rs, k - 1); if fresh(m, a, rs, k - 1) { add_lc(p, rs[k - 1], rs[k - 1].covers@.len() as int) } else { p } }
}
spec fn f_ld(s: Set<Link>, m: Defs, a: ArtefactId, rs: Seq<Rc<Requirement>>, k: int) -> Set<Link> decreases k {
    if k <= 0 { s } else { let p = f_ld(s, m, a, rs, k - 1); if fresh(m, a, rs, k - 1) { add_ld(p, rs[k - 1], rs[k - 1].depends@.len() as int) } else { p } }
}
spec fn f_dup(b: Seq<Error>, m: Defs, a: ArtefactId, rs: Seq<Rc<Requirement>>, k: int) -> Seq<Error> decreases k {
    if k <= 0 { b } else { let p = f_dup(b, m, a, rs, k - 1);
       if fresh(m, a, rs, k - 1) { p } else { p.push(Error::DuplicateRequirement(f_defs(m, a, rs, k - 1)[rs[k - 1].id].1, rs[k - 1])) } }
}
// ===== what adding the first n artefacts gives
spec fn g_defs(arts: Seq<Rc<Artefact>>, n: int) -> Defs decreases n {
    if n <= 0 { Map::empty() } else { let rs = arts[n - 1].requirements.valseq(); f_defs(g_defs(arts, n - 1), arts[n - 1].id, rs, rs.len() as int) }
}
spec fn g_entry(arts: Seq<Rc<Artefact>>, i: int) -> IdxA {
    let m = g_defs(arts, i); let rs = arts[i].requirements.valseq(); let n = rs.len() as int;
    IdxA { art: arts[i], by_id: f_by(m, arts[i].id, rs, n), cover: f_cov(m, arts[i].id, rs, n) }
}
spec fn g_idx(arts: Seq<Rc<Artefact>>, n: int) -> Idx decreases n {
    if n <= 0 { Map::empty() } else { g_idx(arts, n - 1).insert(arts[n - 1].id, g_entry(arts, n - 1)) }
}
spec fn g_der(arts: Seq<Rc<Artefact>>, n: int) -> Map<ArtefactId, Set<RequirementId>> decreases n {
    if n <= 0 { Map::empty() } else { let rs = arts[n - 1].requirements.valseq();
      g_der(arts, n - 1).insert(arts[n - 1].id, f_der(g_defs(arts, n - 1), arts[n - 1].id, rs, rs.len() as int, arts[n - 1].ignore_derived_requirements)) }
}
spec fn g_lc(arts: Seq<Rc<Artefact>>, n: int) -> Set<Link> decreases n {
    if n <= 0 { Set::empty() } else { let rs = arts[n - 1].requirements.valseq(); f_lc(g_lc(arts, n - 1), g_defs(arts, n - 1), arts[n - 1].id, rs, rs.len() as int) }
}
spec fn g_ld(arts: Seq<Rc<Artefact>>, n: int) -> Set<Link> decreases n {
    if n <= 0 { Set::empty() } else { let rs = arts[n - 1].requirements.valseq(); f_ld(g_ld(arts, n - 1), g_defs(arts, n - 1), arts[n - 1].id, rs, rs.len() as int) }
}
spec fn g_dup(arts: Seq<Rc<Artefact>>, n: int) -> Seq<Error> decreases n {
    if n <= 0 { Seq::empty() } else { let rs = arts[n - 1].requirements.valseq(); f_dup(g_dup(arts, n - 1), g_defs(arts, n - 1), arts[n - 1].id, rs, rs.len() as int) }
}
spec fn named(arts: Seq<Rc<Artefact>>, n: int, a: ArtefactId) -> bool { exists|i: int| 0 <= i < n && (#[trigger] arts[i]).id == a }
proof fn g_idx_dom(arts: Seq<Rc<Artefact>>, n: int)
    requires 0 <= n <= arts.len()
    ensures forall|a: ArtefactId| #[trigger] g_idx(arts, n).contains_key(a) <==> named(arts, n, a)
    decreases n
{ if n > 0 { g_idx_dom(arts, n - 1);
    assert forall|a: ArtefactId| #[trigger] g_idx(arts, n).contains_key(a) <==> named(arts, n, a) by {
        if a == arts[n - 1].id { assert(arts[n - 1].id == a); }
        else {
            assert(g_idx(arts, n).contains_key(a) == g_idx(arts, n - 1).contains_key(a));
            if named(arts, n - 1, a) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] arts[i]).id == a; assert(0 <= i < n && arts[i].id == a); }
            if named(arts, n, a) { let i = choose|i: int| 0 <= i < n && (#[trigger] arts[i]).id == a; assert(0 <= i < n - 1 && arts[i].id == a); }
        }
    } } }

// ===== coverage: one hit for each reference that connects an upper and a lower requirement
struct Hit { upper: Rc<Requirement>, lower: Rc<Requirement>, reference: Reference, down: bool, art: ArtefactId, strict: bool }
spec fn h_d(acc: Seq<Hit>, u: Rc<Requirement>, d: Reference, lowers: Seq<ArtefactId>, n: int, ix: Idx) -> Seq<Hit> decreases n {
    if n <= 0 { acc } else {
        let p = h_d(acc, u, d, lowers, n - 1, ix);
        let a = lowers[n - 1];
        if ix[a].by_id.contains_key(d.id) {
            p.push(Hit { upper: u, lower: ix[a].by_id[d.id], reference: d, down: true, art: a, strict: ix[a].art.reference_with_title })
        } else { p }
    }
}
spec fn h_dd(acc: Seq<Hit>, u: Rc<Requirement>, k: int, lowers: Seq<ArtefactId>, ix: Idx) -> Seq<Hit> decreases k {
    if k <= 0 { acc } else { h_d(h_dd(acc, u, k - 1, lowers, ix), u, u.depends@[k - 1], lowers, lowers.len() as int, ix) }
}
spec fn cov_list(t: IdxA, id: RequirementId) -> Seq<(Rc<Requirement>, Reference)> { if t.cover.contains_key(id) { t.cover[id] } else { Seq::empty() } }
spec fn cov_list_r(t: IdxA, u: Rc<Requirement>) -> Seq<(Rc<Requirement>, Reference)> { cov_list(t, u.id) }
spec fn h_c(acc: Seq<Hit>, u: Rc<Requirement>, l: Seq<(Rc<Requirement>, Reference)>, n: int, a: ArtefactId, strict: bool) -> Seq<Hit> decreases n {
    if n <= 0 { acc } else { h_c(acc, u, l, n - 1, a, strict).push(Hit { upper: u, lower: l[n - 1].0, reference: l[n - 1].1, down: false, art: a, strict }) }
}
spec fn h_cc(acc: Seq<Hit>, u: Rc<Requirement>, lowers: Seq<ArtefactId>, n: int, ix: Idx, strict: bool) -> Seq<Hit> decreases n {
    if n <= 0 { acc } else {
        let l = cov_list(ix[lowers[n - 1]], u.id);
        h_c(h_cc(acc, u, lowers, n - 1, ix, strict), u, l, l.len() as int, lowers[n - 1], strict)
    }
}
spec fn h_1(acc: Seq<Hit>, u: Rc<Requirement>, lowers: Seq<ArtefactId>, ix: Idx, strict: bool) -> Seq<Hit> {
    h_cc(h_dd(acc, u, u.depends@.len() as int, lowers, ix), u, lowers, lowers.len() as int, ix, strict)
}
spec fn h_all(us: Seq<Rc<Requirement>>, n: int, lowers: Seq<ArtefactId>, ix: Idx, strict: bool) -> Seq<Hit> decreases n {
    if n <= 0 { Seq::empty() } else { h_1(h_all(us, n - 1, lowers, ix, strict), us[n - 1], lowers, ix, strict) }
}
spec fn hits(ix: Idx, r: Relation) -> Seq<Hit> {
    let up = ix[r.upper].art; h_all(up.requirements.valseq(), up.requirements.valseq().len() as int, r.lower@, ix, up.reference_with_title)
}
spec fn unc(us: Seq<Rc<Requirement>>, n: int, lowers: Seq<ArtefactId>, ix: Idx, strict: bool) -> Seq<RequirementId> decreases n {
    if n <= 0 { Seq::empty() } else {
        let p = unc(us, n - 1, lowers, ix, strict);
        let a = h_all(us, n - 1, lowers, ix, strict);
        if h_1(a, us[n - 1], lowers, ix, strict).len() == a.len() { p.push(us[n - 1].id) } else { p }
    }
}
spec fn uncov(ix: Idx, r: Relation) -> Seq<RequirementId> {
    let up = ix[r.upper].art; unc(up.requirements.valseq(), up.requirements.valseq().len() as int, r.lower@, ix, up.reference_with_title)
}
spec fn cov_of(h: Hit) -> Coverage { Coverage { upper: h.upper.id, lower: h.lower.id, location: h.reference.location, direction: if h.down { CoverageDirection::Downwards } else { CoverageDirection::Upwards } } }
spec fn covs(h: Seq<Hit>) -> Seq<Coverage> { Seq::new(h.len(), |i: int| cov_of(h[i])) }
broadcast proof fn covs_push(h: Seq<Hit>, x: Hit) ensures #[trigger] covs(h.push(x)) == covs(h).push(cov_of(x)) { assert(covs(h.push(x)) =~= covs(h).push(cov_of(x))); }
spec fn rem(h: Seq<Hit>, a: ArtefactId, id: RequirementId) -> bool decreases h.len() {
    h.len() > 0 && ((h.last().art == a && h.last().lower.id == id) || rem(h.drop_last(), a, id))
}
broadcast proof fn rem_push(h: Seq<Hit>, x: Hit, a: ArtefactId, id: RequirementId) ensures #[trigger] rem(h.push(x), a, id) == ((x.art == a && x.lower.id == id) || rem(h, a, id)) { assert(h.push(x).drop_last() =~= h); }
spec fn linked(h: Seq<Hit>, down: bool, l: Link) -> bool decreases h.len() {
    h.len() > 0 && ((h.last().down == down && l == (h.last().upper.id, h.last().lower.id)) || linked(h.drop_last(), down, l))
}
broadcast proof fn linked_push(h: Seq<Hit>, x: Hit, down: bool, l: Link) ensures #[trigger] linked(h.push(x), down, l) == ((x.down == down && l == (x.upper.id, x.lower.id)) || linked(h, down, l)) { assert(h.push(x).drop_last() =~= h); }
// ===== errors by kind
spec fn kind(e: Error) -> int {
    match e {
        Error::DuplicateRequirement(..) => 1,
        Error::CoveredWithWrongTitle { .. } | Error::DependWithWrongTitle { .. } | Error::ReferencedWithoutTitle { .. } | Error::RequirementWithoutTitle(..) => 2,
        Error::UnusedRelation(..) => 3,
        Error::DependOnUnknownRequirement(..) | Error::CoversUnknownRequirement(..) => 4,
        _ => 0,
    }
}
spec fn sel(s: Seq<Error>, k: int) -> Seq<Error> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if kind(s.last()) == k { sel(s.drop_last(), k).push(s.last()) } else { sel(s.drop_last(), k) }
}
broadcast proof fn sel_push(s: Seq<Error>, x: Error, k: int) ensures #[trigger] sel(s.push(x), k) == if kind(x) == k { sel(s, k).push(x) } else { sel(s, k) } { assert(s.push(x).drop_last() =~= s); }
spec fn title_err(h: Hit) -> Option<Error> {
    let referenced = if h.down { h.lower } else { h.upper };
    match h.reference.title {
        Some(t) => if referenced.title == Some(t) { None } else if h.down {
            Some(Error::DependWithWrongTitle { upper: h.upper, lower: h.lower, wrong_title: t, location: h.reference.location })
        } else { Some(Error::CoveredWithWrongTitle { upper: h.upper, lower: h.lower, wrong_title: t, location: h.reference.location }) },
        None => if h.strict { Some(Error::ReferencedWithoutTitle { referenced, location: h.reference.location }) } else { None },
    }
}
spec fn terrs(base: Seq<Error>, h: Seq<Hit>) -> Seq<Error> decreases h.len() {
    if h.len() == 0 { base } else { match title_err(h.last()) { Some(e) => terrs(base, h.drop_last()).push(e), None => terrs(base, h.drop_last()) } }
}
broadcast proof fn terrs_push(base: Seq<Error>, h: Seq<Hit>, x: Hit) ensures #[trigger] terrs(base, h.push(x)) == match title_err(x) { Some(e) => terrs(base, h).push(e), None => terrs(base, h) } { assert(h.push(x).drop_last() =~= h); }
broadcast group group_trace { covs_push, rem_push, linked_push, sel_push, terrs_push }

spec fn same_idx(a: Map<ArtefactId, TracedArtefact>, b: Map<ArtefactId, TracedArtefact>) -> bool {
    &&& forall|k: ArtefactId| a.contains_key(k) == #[trigger] b.contains_key(k)
    &&& forall|k: ArtefactId| a.contains_key(k) ==> (#[trigger] b[k]).artefact == a[k].artefact && b[k].requirements_by_id == a[k].requirements_by_id && b[k].requirements_that_cover == a[k].requirements_that_cover
}
spec fn der_ok(a: Map<ArtefactId, TracedArtefact>, b: Map<ArtefactId, TracedArtefact>, h: Seq<Hit>) -> bool {
    forall|k: ArtefactId, id: RequirementId| a.contains_key(k) ==> (#[trigger] b[k].derived@.contains(id) <==> a[k].derived@.contains(id) && !rem(h, k, id))
}
spec fn links_ok(a: Set<Link>, b: Set<Link>, h: Seq<Hit>, down: bool) -> bool {
    forall|l: Link| #[trigger] b.contains(l) <==> a.contains(l) && !linked(h, down, l)
}
spec fn rel_ok(ta: Map<ArtefactId, TracedArtefact>, r: Relation) -> bool {
    ta.contains_key(r.upper) && forall|i: int| 0 <= i < r.lower@.len() ==> ta.contains_key(#[trigger] r.lower@[i])
}
// ===== all relations
spec fn all_rem(ix: Idx, rels: Seq<Relation>, n: int, a: ArtefactId, id: RequirementId) -> bool decreases n {
    n > 0 && (rem(hits(ix, rels[n - 1]), a, id) || all_rem(ix, rels, n - 1, a, id))
}
spec fn all_linked(ix: Idx, rels: Seq<Relation>, n: int, down: bool, l: Link) -> bool decreases n {
    n > 0 && (linked(hits(ix, rels[n - 1]), down, l) || all_linked(ix, rels, n - 1, down, l))
}
spec fn all_terrs(ix: Idx, rels: Seq<Relation>, n: int) -> Seq<Error> decreases n {
    if n <= 0 { Seq::empty() } else { terrs(all_terrs(ix, rels, n - 1), hits(ix, rels[n - 1])) }
}
spec fn all_unused(ix: Idx, rels: Seq<Relation>, n: int) -> Seq<Error> decreases n {
    if n <= 0 { Seq::empty() } else if hits(ix, rels[n - 1]).len() == 0 { all_unused(ix, rels, n - 1).push(Error::UnusedRelation(rels[n - 1])) } else { all_unused(ix, rels, n - 1) }
}
// ===== unknown references
spec fn first_ref(s: Seq<Reference>, id: RequirementId, n: int) -> Option<Reference> decreases n {
    if n <= 0 { None } else { match first_ref(s, id, n - 1) { Some(r) => Some(r), None => if s[n - 1].id == id { Some(s[n - 1]) } else { None } } }
}
proof fn first_none(s: Seq<Reference>, id: RequirementId, n: int)
    requires 0 <= n <= s.len(), forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).id != id
    ensures first_ref(s, id, n) is None decreases n { if n > 0 { first_none(s, id, n - 1); } }
proof fn first_some(s: Seq<Reference>, id: RequirementId, i: int, n: int)
    requires 0 <= i < n <= s.len(), s[i].id == id, forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).id != id
    ensures first_ref(s, id, n) == Some(s[i]) decreases n
{ if n == i + 1 { first_none(s, id, i); } else { first_some(s, id, i, n - 1); } }
spec fn unk_up(defs: Defs, l: Link) -> Error { let r = defs[l.1].1; Error::CoversUnknownRequirement(r, l.0, first_ref(r.covers@, l.0, r.covers@.len() as int)->Some_0.location) }
spec fn unk_down(defs: Defs, l: Link) -> Error { let r = defs[l.0].1; Error::DependOnUnknownRequirement(r, l.1, first_ref(r.depends@, l.1, r.depends@.len() as int)->Some_0.location) }
spec fn unks(base: Seq<Error>, defs: Defs, ls: Seq<Link>, n: int, up: bool) -> Seq<Error> decreases n {
    if n <= 0 { base } else { unks(base, defs, ls, n - 1, up).push(if up { unk_up(defs, ls[n - 1]) } else { unk_down(defs, ls[n - 1]) }) }
}
spec fn link_up(defs: Defs, l: Link) -> bool { defs.contains_key(l.1) && exists|i: int| 0 <= i < defs[l.1].1.covers@.len() && (#[trigger] defs[l.1].1.covers@[i]).id == l.0 }
spec fn link_down(defs: Defs, l: Link) -> bool { defs.contains_key(l.0) && exists|i: int| 0 <= i < defs[l.0].1.depends@.len() && (#[trigger] defs[l.0].1.depends@[i]).id == l.1 }
spec fn links_in(defs: Defs, lc: Set<Link>, ld: Set<Link>) -> bool {
    (forall|l: Link| #[trigger] lc.contains(l) ==> link_up(defs, l)) && (forall|l: Link| #[trigger] ld.contains(l) ==> link_down(defs, l))
}
spec fn sel_same(a: Seq<Error>, b: Seq<Error>, k: int) -> bool { sel(a, k) == sel(b, k) }

// ===== shape of the index: what is in it comes from the artefact's requirements
spec fn ta_wf1(t: TracedArtefact) -> bool {
    &&& forall|id: RequirementId| #[trigger] t.requirements_by_id@.contains_key(id) ==> t.requirements_by_id@[id].id == id && t.artefact.requirements@.contains_key(id)
    &&& forall|id: RequirementId, j: int| t.requirements_that_cover@.contains_key(id) && 0 <= j < t.requirements_that_cover@[id]@.len() ==> t.artefact.requirements@.contains_key((#[trigger] t.requirements_that_cover@[id]@[j]).0.id)
    &&& forall|id: RequirementId| #[trigger] t.derived@.contains(id) ==> t.artefact.requirements@.contains_key(id)
    &&& forall|id: RequirementId| #[trigger] t.artefact.requirements@.contains_key(id) ==> t.artefact.requirements@[id].id == id
}
spec fn ta_wf(ta: Map<ArtefactId, TracedArtefact>) -> bool { forall|a: ArtefactId| #[trigger] ta.contains_key(a) ==> ta_wf1(ta[a]) && ta[a].artefact.id == a }
spec fn tarts(ta: Map<ArtefactId, TracedArtefact>) -> Arts { ta.map_values(|t: TracedArtefact| t.artefact) }
spec fn der_wf(ta: Map<ArtefactId, TracedArtefact>) -> bool { forall|a: ArtefactId, id: RequirementId| ta.contains_key(a) && #[trigger] ta[a].derived@.contains(id) ==> ta[a].artefact.requirements@.contains_key(id) }
spec fn rels_wf(arts: Arts, ts: Seq<TracedRelation>) -> bool { forall|i: int| 0 <= i < ts.len() ==> tg_rel_ok(arts, #[trigger] ts[i]) }
spec fn art_keyed(a: Artefact) -> bool { forall|id: RequirementId| #[trigger] a.requirements@.contains_key(id) ==> a.requirements@[id].id == id }
proof fn val_in(a: Rc<Artefact>, i: int) requires 0 <= i < a.requirements.valseq().len(), art_keyed(*a) ensures a.requirements@.contains_key(a.requirements.valseq()[i].id), a.requirements@[a.requirements.valseq()[i].id] == a.requirements.valseq()[i]
{ assert(a.requirements.keyseq().to_set().contains(a.requirements.keyseq()[i])); }

@fn trace.rs::Tracer::add_artefact
@requires
[C08 C09 C10 C17 C18 C20] art_keyed(**artefact), ta_wf(old(self).traced_artefacts@)
@ensures
[C08 C09 C10 C17 C18 C20] ta_wf(final(self).traced_artefacts@)
[C08 C09 C10 C17 C18 C20] forall|a: ArtefactId| a != artefact.id && old(self).traced_artefacts@.contains_key(a) ==> #[trigger] final(self).traced_artefacts@[a].artefact == old(self).traced_artefacts@[a].artefact
[C08 C09 C10 C17 C18 C20] final(self).traced_artefacts@[artefact.id].artefact == *artefact
[C08 C09 C10 C17 C18 C20] final(self).relations == old(self).relations
[*] final(self).req_by_id@ == f_defs(old(self).req_by_id@, artefact.id, artefact.requirements.valseq(), artefact.requirements.valseq().len() as int)
[*] idx(final(self).traced_artefacts@) == idx(old(self).traced_artefacts@).insert(artefact.id, IdxA { art: *artefact,
        by_id: f_by(old(self).req_by_id@, artefact.id, artefact.requirements.valseq(), artefact.requirements.valseq().len() as int),
        cover: f_cov(old(self).req_by_id@, artefact.id, artefact.requirements.valseq(), artefact.requirements.valseq().len() as int) })
[*] final(self).traced_artefacts@.dom() == old(self).traced_artefacts@.dom().insert(artefact.id)
[C03] forall|a: ArtefactId| old(self).traced_artefacts@.contains_key(a) && a != artefact.id ==> (#[trigger] final(self).traced_artefacts@[a]).derived == old(self).traced_artefacts@[a].derived
[C03] final(self).traced_artefacts@[artefact.id].derived@ == f_der(old(self).req_by_id@, artefact.id, artefact.requirements.valseq(), artefact.requirements.valseq().len() as int, artefact.ignore_derived_requirements)
[C04] final(self).invalid_covers_links@ == f_lc(old(self).invalid_covers_links@, old(self).req_by_id@, artefact.id, artefact.requirements.valseq(), artefact.requirements.valseq().len() as int)
[C04] final(self).invalid_depends_links@ == f_ld(old(self).invalid_depends_links@, old(self).req_by_id@, artefact.id, artefact.requirements.valseq(), artefact.requirements.valseq().len() as int)
[*] links_in(old(self).req_by_id@, old(self).invalid_covers_links@, old(self).invalid_depends_links@) ==> links_in(final(self).req_by_id@, final(self).invalid_covers_links@, final(self).invalid_depends_links@)
[C06] sel(final(self).errors@, 1) == f_dup(sel(old(self).errors@, 1), old(self).req_by_id@, artefact.id, artefact.requirements.valseq(), artefact.requirements.valseq().len() as int)
[C05] sel_same(final(self).errors@, old(self).errors@, 2)
[C07] sel_same(final(self).errors@, old(self).errors@, 3)
[C04] sel_same(final(self).errors@, old(self).errors@, 4)
[C01 C02 C07] final(self).relations == old(self).relations
@type requirements_that_cover BTreeMap<RequirementId, Vec<(Rc<Requirement>, Reference)>>
@begin
broadcast use group_trace;
let ghost rs = artefact.requirements.valseq();
let ghost m0 = self.req_by_id@;
let ghost ta0 = self.traced_artefacts@;
@loop 1
@pre
assert($s1 =~= refs(rs));
assert(cview(requirements_that_cover@) =~= Map::empty());
@inv
[*] self.req_by_id@ == f_defs(m0, artefact.id, rs, $it1.pos())
[*] requirements_by_id@ == f_by(m0, artefact.id, rs, $it1.pos())
[*] cview(requirements_that_cover@) == f_cov(m0, artefact.id, rs, $it1.pos())
[*] self.traced_artefacts@ == ta0
[C03] derived@ == f_der(m0, artefact.id, rs, $it1.pos(), artefact.ignore_derived_requirements)
[C04] self.invalid_covers_links@ == f_lc(old(self).invalid_covers_links@, m0, artefact.id, rs, $it1.pos())
[C04] self.invalid_depends_links@ == f_ld(old(self).invalid_depends_links@, m0, artefact.id, rs, $it1.pos())
[*] links_in(m0, old(self).invalid_covers_links@, old(self).invalid_depends_links@) ==> links_in(self.req_by_id@, self.invalid_covers_links@, self.invalid_depends_links@)
[C06] sel(self.errors@, 1) == f_dup(sel(old(self).errors@, 1), m0, artefact.id, rs, $it1.pos())
[C05] sel_same(self.errors@, old(self).errors@, 2)
[C07] sel_same(self.errors@, old(self).errors@, 3)
[C04] sel_same(self.errors@, old(self).errors@, 4)
[C01 C02 C07] self.relations == old(self).relations
[C08 C09 C10 C17 C18 C20] self.relations == old(self).relations
[C08 C09 C10 C17 C18 C20] forall|id: RequirementId| #[trigger] requirements_by_id@.contains_key(id) ==> requirements_by_id@[id].id == id && artefact.requirements@.contains_key(id)
[C08 C09 C10 C17 C18 C20] forall|id: RequirementId, j: int| requirements_that_cover@.contains_key(id) && 0 <= j < requirements_that_cover@[id]@.len() ==> artefact.requirements@.contains_key((#[trigger] requirements_that_cover@[id]@[j]).0.id)
[C08 C09 C10 C17 C18 C20] forall|id: RequirementId| #[trigger] derived@.contains(id) ==> artefact.requirements@.contains_key(id)
@head
let ghost e0 = self.errors;
let ghost lc0 = self.invalid_covers_links@;
let ghost ld0 = self.invalid_depends_links@;
let ghost defs0 = self.req_by_id@;
let ghost der0 = derived;
let ghost rc0 = requirements_that_cover@;
[C08 C09 C10 C17 C18 C20] proof { val_in(*artefact, $it1.pos() - 1); }
@loop 2
@pre
let ghost ld1 = self.invalid_depends_links@;
@inv
[*] self.req_by_id@ == f_defs(m0, artefact.id, rs, $it1.pos()), self.traced_artefacts@ == ta0
[C04 C05 C06 C07] self.errors == e0
[C04] self.invalid_covers_links@ == add_lc(lc0, *req, $it2.pos())
[C04] self.invalid_depends_links@ == ld1
[*] links_in(m0, old(self).invalid_covers_links@, old(self).invalid_depends_links@) ==> links_in(self.req_by_id@, self.invalid_covers_links@, self.invalid_depends_links@)
[C01 C02 C07 C08 C09 C10 C17 C18 C20] self.relations == old(self).relations
@head
[*] assert($x2.id == req.covers@[$it2.pos() - 1].id && link_up(self.req_by_id@, ($x2.id, req.id)));
@loop 3
@pre
let ghost lc1 = self.invalid_covers_links@;
@inv
[*] self.req_by_id@ == f_defs(m0, artefact.id, rs, $it1.pos()), self.traced_artefacts@ == ta0
[C04 C05 C06 C07] self.errors == e0
[C04] self.invalid_covers_links@ == lc1
[C04] self.invalid_depends_links@ == add_ld(ld0, *req, $it3.pos())
[*] links_in(m0, old(self).invalid_covers_links@, old(self).invalid_depends_links@) ==> links_in(self.req_by_id@, self.invalid_covers_links@, self.invalid_depends_links@)
[C01 C02 C07 C08 C09 C10 C17 C18 C20] self.relations == old(self).relations
@head
[*] assert($x3.id == req.depends@[$it3.pos() - 1].id && link_down(self.req_by_id@, (req.id, $x3.id)));
@loop 4
@inv
[*] cview(requirements_that_cover@) == add_cov(cview(rc0), *req, $it4.pos())
[C08 C09 C10 C17 C18 C20] forall|id: RequirementId, j: int| requirements_that_cover@.contains_key(id) && 0 <= j < requirements_that_cover@[id]@.len() ==> artefact.requirements@.contains_key((#[trigger] requirements_that_cover@[id]@[j]).0.id)
@head
let ghost rc1 = requirements_that_cover@;
@tail
assert(cview(requirements_that_cover@) =~= add_cov(cview(rc0), *req, $it4.pos()));
@finish
assert(idx(self.traced_artefacts@) =~= idx(old(self).traced_artefacts@).insert(artefact.id, IdxA { art: *artefact,
        by_id: f_by(m0, artefact.id, rs, rs.len() as int), cover: f_cov(m0, artefact.id, rs, rs.len() as int) }));

@macro TRINV
[C08 C09 C10 C17 C18 C20] self.relations == old(self).relations
[C08 C09 C10 C17 C18 C20] tg_cov_ok(tarts(ta), *relation, covered@), tg_unc_ok(tarts(ta), *relation, uncovered@)
[C08 C09 C10 C17 C18 C20] der_wf(self.traced_artefacts@)
[*] same_idx(ta, self.traced_artefacts@)
[*] self.req_by_id == old(self).req_by_id
[C01 C02 C07] self.relations == old(self).relations
[C01 C02 C07] covered@ == covs($$)
[C03] der_ok(ta, self.traced_artefacts@, $$)
[*] links_ok(old(self).invalid_depends_links@, self.invalid_depends_links@, $$, true)
[*] links_ok(old(self).invalid_covers_links@, self.invalid_covers_links@, $$, false)
[C05] sel(self.errors@, 2) == terrs(sel(old(self).errors@, 2), $$)
[C06] sel_same(self.errors@, old(self).errors@, 1)
[C07] sel_same(self.errors@, old(self).errors@, 3)
[C04] sel_same(self.errors@, old(self).errors@, 4)
@fn trace.rs::Tracer::trace_relation
@requires
[*] rel_ok(old(self).traced_artefacts@, *relation)
[C08 C09 C10 C17 C18 C20] ta_wf(old(self).traced_artefacts@), rels_wf(tarts(old(self).traced_artefacts@), old(self).relations@)
@ensures
[C08 C09 C10 C17 C18 C20] ta_wf(final(self).traced_artefacts@), rels_wf(tarts(final(self).traced_artefacts@), final(self).relations@)
[*] same_idx(old(self).traced_artefacts@, final(self).traced_artefacts@)
[*] final(self).req_by_id == old(self).req_by_id
[C01 C02 C07] final(self).relations@.len() == old(self).relations@.len() + 1 && final(self).relations@.drop_last() == old(self).relations@
[C01 C02 C07] final(self).relations@.last().relation == *relation
[C01] final(self).relations@.last().covered@ == covs(hits(idx(old(self).traced_artefacts@), *relation))
[C02] final(self).relations@.last().uncovered@ == uncov(idx(old(self).traced_artefacts@), *relation)
[C03] der_ok(old(self).traced_artefacts@, final(self).traced_artefacts@, hits(idx(old(self).traced_artefacts@), *relation))
[*] links_ok(old(self).invalid_depends_links@, final(self).invalid_depends_links@, hits(idx(old(self).traced_artefacts@), *relation), true)
[*] links_ok(old(self).invalid_covers_links@, final(self).invalid_covers_links@, hits(idx(old(self).traced_artefacts@), *relation), false)
[C05] sel(final(self).errors@, 2) == terrs(sel(old(self).errors@, 2), hits(idx(old(self).traced_artefacts@), *relation))
[C06] sel_same(final(self).errors@, old(self).errors@, 1)
[C07] sel(final(self).errors@, 3) == if hits(idx(old(self).traced_artefacts@), *relation).len() == 0 { sel(old(self).errors@, 3).push(Error::UnusedRelation(*relation)) } else { sel(old(self).errors@, 3) }
[C04] sel_same(final(self).errors@, old(self).errors@, 4)
@begin
broadcast use group_trace;
let ghost ta = self.traced_artefacts@;
let ghost ix = idx(ta);
let ghost lowers = relation.lower@;
let ghost us = ix[relation.upper].art.requirements.valseq();
let ghost st = ix[relation.upper].art.reference_with_title;
@loop 1
@pre
assert($s1 =~= refs(us));
@inv
%TRINV h_all(us, $it1.pos(), lowers, ix, st)
[C02] uncovered@ == unc(us, $it1.pos(), lowers, ix, st)
[C07] any_req_coverd == (h_all(us, $it1.pos(), lowers, ix, st).len() > 0)
@head
let ghost h0 = h_all(us, $it1.pos() - 1, lowers, ix, st);
let ghost u = *$x1;
assert(u == us[$it1.pos() - 1]);
[C08 C09 C10 C17 C18 C20] proof { val_in(ix[relation.upper].art, $it1.pos() - 1); }
@loop 2
@inv
%TRINV h_dd(h0, u, $it2.pos(), lowers, ix)
[C02 C07] h_dd(h0, u, $it2.pos(), lowers, ix).len() >= h0.len()
[C02 C07] is_covered == (h_dd(h0, u, $it2.pos(), lowers, ix).len() > h0.len())
@head
let ghost h1 = h_dd(h0, u, $it2.pos() - 1, lowers, ix);
@loop 3
@inv
%TRINV h_d(h1, u, *$x2, lowers, $it3.pos(), ix)
[C02 C07] h_d(h1, u, *$x2, lowers, $it3.pos(), ix).len() >= h0.len()
[C02 C07] is_covered == (h_d(h1, u, *$x2, lowers, $it3.pos(), ix).len() > h0.len())
@head
[C08 C09 C10 C17 C18 C20] proof { assert(ta_wf1(ta[*$x3])); if ta[*$x3].requirements_by_id@.contains_key($x2.id) { low_has_at(tarts(ta), lowers, lowers.len() as int, $it3.pos() - 1, $x2.id); } }
@loop 4
@inv
%TRINV h_cc(h_dd(h0, u, u.depends@.len() as int, lowers, ix), u, lowers, $it4.pos(), ix, st)
[C02 C07] h_cc(h_dd(h0, u, u.depends@.len() as int, lowers, ix), u, lowers, $it4.pos(), ix, st).len() >= h0.len()
[C02 C07] is_covered == (h_cc(h_dd(h0, u, u.depends@.len() as int, lowers, ix), u, lowers, $it4.pos(), ix, st).len() > h0.len())
@head
let ghost h2 = h_cc(h_dd(h0, u, u.depends@.len() as int, lowers, ix), u, lowers, $it4.pos() - 1, ix, st);
let ghost a4 = *$x4;
let ghost l4 = cov_list_r(ix[a4], u);
let ghost t4 = self.traced_artefacts@;
@loop 5
@pre
assert($s5 =~= refs(l4));
@inv
[*] lower_artefact.artefact == ta[a4].artefact && lower_artefact.requirements_by_id == ta[a4].requirements_by_id && lower_artefact.requirements_that_cover == ta[a4].requirements_that_cover
[*] self.req_by_id == old(self).req_by_id
[C01 C02 C07] self.relations == old(self).relations
[C01 C02 C07] covered@ == covs(h_c(h2, u, l4, $it5.pos(), a4, st))
[C08 C09 C10 C17 C18 C20] self.relations == old(self).relations
[C08 C09 C10 C17 C18 C20] tg_cov_ok(tarts(ta), *relation, covered@), tg_unc_ok(tarts(ta), *relation, uncovered@)
[C08 C09 C10 C17 C18 C20] forall|id: RequirementId| #[trigger] lower_artefact.derived@.contains(id) ==> ta[a4].artefact.requirements@.contains_key(id)
[C03] forall|id: RequirementId| #[trigger] lower_artefact.derived@.contains(id) <==> ta[a4].derived@.contains(id) && !rem(h_c(h2, u, l4, $it5.pos(), a4, st), a4, id)
[C03] forall|k: ArtefactId, id: RequirementId| k != a4 ==> #[trigger] rem(h_c(h2, u, l4, $it5.pos(), a4, st), k, id) == rem(h2, k, id)
[*] links_ok(old(self).invalid_depends_links@, self.invalid_depends_links@, h_c(h2, u, l4, $it5.pos(), a4, st), true)
[*] links_ok(old(self).invalid_covers_links@, self.invalid_covers_links@, h_c(h2, u, l4, $it5.pos(), a4, st), false)
[C05] sel(self.errors@, 2) == terrs(sel(old(self).errors@, 2), h_c(h2, u, l4, $it5.pos(), a4, st))
[C06] sel_same(self.errors@, old(self).errors@, 1)
[C07] sel_same(self.errors@, old(self).errors@, 3)
[C04] sel_same(self.errors@, old(self).errors@, 4)
[C02 C07] h_c(h2, u, l4, $it5.pos(), a4, st).len() >= h0.len()
[C02 C07] is_covered == (h_c(h2, u, l4, $it5.pos(), a4, st).len() > h0.len())
@head
[C08 C09 C10 C17 C18 C20] proof { assert(ta_wf1(ta[a4])); assert(ta[a4].requirements_that_cover@[u.id]@[$it5.pos() - 1] == *$x5); low_has_at_r(tarts(ta), lowers, lowers.len() as int, $it4.pos() - 1, $x5.0); }
@finish
assert(idx(self.traced_artefacts@) =~= ix);
[C08 C09 C10 C17 C18 C20] assert(tarts(self.traced_artefacts@) =~= tarts(ta));
[C08 C09 C10 C17 C18 C20] assert forall|a: ArtefactId| #[trigger] self.traced_artefacts@.contains_key(a) implies ta_wf1(self.traced_artefacts@[a]) && self.traced_artefacts@[a].artefact.id == a by { assert(ta.contains_key(a) && ta_wf1(ta[a])); }
[C08 C09 C10 C17 C18 C20] assert forall|i: int| 0 <= i < self.relations@.len() implies tg_rel_ok(tarts(self.traced_artefacts@), #[trigger] self.relations@[i]) by { if i < old(self).relations@.len() { assert(self.relations@[i] == old(self).relations@[i]); } else { assert(self.relations@[i].relation == *relation); } }
[C01 C02 C07] assert(self.relations@.drop_last() =~= old(self).relations@);

@fn trace.rs::Tracer::validate_upwards
@acc 2 Option<&Reference>
@requires
[*] forall|l: Link| #[trigger] old(self).invalid_covers_links@.contains(l) ==> link_up(old(self).req_by_id@, l)
@ensures
[*] final(self).traced_artefacts == old(self).traced_artefacts, final(self).req_by_id == old(self).req_by_id
[C01 C02 C07 C08 C09 C10 C17 C18 C20] final(self).relations == old(self).relations
[*] final(self).invalid_depends_links == old(self).invalid_depends_links
[C04] sel(final(self).errors@, 4) == unks(sel(old(self).errors@, 4), old(self).req_by_id@, sorted_seq(old(self).invalid_covers_links@), sorted_seq(old(self).invalid_covers_links@).len() as int, true)
[C06] sel_same(final(self).errors@, old(self).errors@, 1)
[C05] sel_same(final(self).errors@, old(self).errors@, 2)
[C07] sel_same(final(self).errors@, old(self).errors@, 3)
@begin
broadcast use group_trace;
let ghost ls = sorted_seq(self.invalid_covers_links@);
@loop 1
@inv
[*] self.traced_artefacts == old(self).traced_artefacts, self.req_by_id == old(self).req_by_id
[C01 C02 C07 C08 C09 C10 C17 C18 C20] self.relations == old(self).relations
[*] self.invalid_depends_links == old(self).invalid_depends_links
[C04] sel(self.errors@, 4) == unks(sel(old(self).errors@, 4), self.req_by_id@, ls, $it1.pos(), true)
[C06] sel_same(self.errors@, old(self).errors@, 1)
[C05] sel_same(self.errors@, old(self).errors@, 2)
[C07] sel_same(self.errors@, old(self).errors@, 3)
@head
let ghost l3 = ls[$it1.pos() - 1];
assert(ls.to_set().contains(l3));
assert(link_up(self.req_by_id@, l3));
@loop 2
@inv
[*] $acc2 is None && forall|j: int| 0 <= j < $it2.pos() ==> (#[trigger] req.covers@[j]).id != *upper_id
@post
[C04] proof { if $acc2 is Some { first_some(req.covers@, *upper_id, $it2.pos() - 1, req.covers@.len() as int); } }

@fn trace.rs::Tracer::validate_downwards
@acc 2 Option<&Reference>
@requires
[*] forall|l: Link| #[trigger] old(self).invalid_depends_links@.contains(l) ==> link_down(old(self).req_by_id@, l)
@ensures
[*] final(self).traced_artefacts == old(self).traced_artefacts, final(self).req_by_id == old(self).req_by_id
[C01 C02 C07 C08 C09 C10 C17 C18 C20] final(self).relations == old(self).relations
[C04] sel(final(self).errors@, 4) == unks(sel(old(self).errors@, 4), old(self).req_by_id@, sorted_seq(old(self).invalid_depends_links@), sorted_seq(old(self).invalid_depends_links@).len() as int, false)
[C06] sel_same(final(self).errors@, old(self).errors@, 1)
[C05] sel_same(final(self).errors@, old(self).errors@, 2)
[C07] sel_same(final(self).errors@, old(self).errors@, 3)
@begin
broadcast use group_trace;
let ghost ls = sorted_seq(self.invalid_depends_links@);
@loop 1
@inv
[*] self.traced_artefacts == old(self).traced_artefacts, self.req_by_id == old(self).req_by_id
[C01 C02 C07 C08 C09 C10 C17 C18 C20] self.relations == old(self).relations
[C04] sel(self.errors@, 4) == unks(sel(old(self).errors@, 4), self.req_by_id@, ls, $it1.pos(), false)
[C06] sel_same(self.errors@, old(self).errors@, 1)
[C05] sel_same(self.errors@, old(self).errors@, 2)
[C07] sel_same(self.errors@, old(self).errors@, 3)
@head
let ghost l3 = ls[$it1.pos() - 1];
assert(ls.to_set().contains(l3));
assert(link_down(self.req_by_id@, l3));
@loop 2
@inv
[*] $acc2 is None && forall|j: int| 0 <= j < $it2.pos() ==> (#[trigger] req.depends@[j]).id != *lower_id
@post
[C04] proof { if $acc2 is Some { first_some(req.depends@, *lower_id, $it2.pos() - 1, req.depends@.len() as int); } }

@spec
spec fn graph_ok(g: Graph) -> bool {
    (forall|a: ArtefactId| #[trigger] g.artefacts@.contains_key(a) ==> g.artefacts@[a].id == a)
    && (forall|i: int| 0 <= i < g.relations@.len() ==> g.artefacts@.contains_key((#[trigger] g.relations@[i]).upper)
         && forall|j: int| 0 <= j < g.relations@[i].lower@.len() ==> g.artefacts@.contains_key(#[trigger] g.relations@[i].lower@[j]))
}
spec fn graph_keyed(g: Graph) -> bool { forall|a: ArtefactId| #[trigger] g.artefacts@.contains_key(a) ==> art_keyed(*g.artefacts@[a]) }
spec fn gix(g: Graph) -> Idx { g_idx(g.artefacts.valseq(), g.artefacts.valseq().len() as int) }
spec fn gdefs(g: Graph) -> Defs { g_defs(g.artefacts.valseq(), g.artefacts.valseq().len() as int) }
spec fn gder(g: Graph) -> Map<ArtefactId, Set<RequirementId>> { g_der(g.artefacts.valseq(), g.artefacts.valseq().len() as int) }
spec fn rels_cov(trs: Seq<TracedRelation>, ix: Idx, rels: Seq<Relation>, n: int) -> bool { trs.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] trs[i]).covered@ == covs(hits(ix, rels[i])) }
spec fn rels_unc(trs: Seq<TracedRelation>, ix: Idx, rels: Seq<Relation>, n: int) -> bool { trs.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] trs[i]).uncovered@ == uncov(ix, rels[i]) }
spec fn rels_rel(trs: Seq<TracedRelation>, rels: Seq<Relation>, n: int) -> bool { trs.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] trs[i]).relation == rels[i] }
spec fn der_all(ta: Map<ArtefactId, TracedArtefact>, ix: Idx, gd: Map<ArtefactId, Set<RequirementId>>, rels: Seq<Relation>, n: int) -> bool {
    forall|k: ArtefactId, id: RequirementId| ta.contains_key(k) ==> (#[trigger] ta[k].derived@.contains(id) <==> gd[k].contains(id) && !all_rem(ix, rels, n, k, id))
}
spec fn links_all(b: Set<Link>, gl: Set<Link>, ix: Idx, rels: Seq<Relation>, n: int, down: bool) -> bool {
    forall|l: Link| #[trigger] b.contains(l) <==> gl.contains(l) && !all_linked(ix, rels, n, down, l)
}
#[verifier::opaque]
spec fn unknown_ok(g: Graph, es: Seq<Error>) -> bool {
exists|lc: Set<Link>, ld: Set<Link>| sel(es, 4) == #[trigger] unk_errs(gdefs(g), lc, ld)
        && links_all(lc, g_lc(g.artefacts.valseq(), g.artefacts.valseq().len() as int), gix(g), g.relations@, g.relations@.len() as int, false)
        && links_all(ld, g_ld(g.artefacts.valseq(), g.artefacts.valseq().len() as int), gix(g), g.relations@, g.relations@.len() as int, true) }
spec fn unk_errs(defs: Defs, lc: Set<Link>, ld: Set<Link>) -> Seq<Error> {
    unks(unks(Seq::empty(), defs, sorted_seq(lc), sorted_seq(lc).len() as int, true), defs, sorted_seq(ld), sorted_seq(ld).len() as int, false)
}
@macro NEWENS
[C01 C02 C07] rels_rel($$.relations@, graph.relations@, graph.relations@.len() as int)
[C01] rels_cov($$.relations@, gix(*graph), graph.relations@, graph.relations@.len() as int)
[C02] rels_unc($$.relations@, gix(*graph), graph.relations@, graph.relations@.len() as int)
[C03] der_all($$.traced_artefacts@, gix(*graph), gder(*graph), graph.relations@, graph.relations@.len() as int)
[C05] sel($$.errors@, 2) == all_terrs(gix(*graph), graph.relations@, graph.relations@.len() as int)
[C06] sel($$.errors@, 1) == g_dup(graph.artefacts.valseq(), graph.artefacts.valseq().len() as int)
[C07] sel($$.errors@, 3) == all_unused(gix(*graph), graph.relations@, graph.relations@.len() as int)
@fn trace.rs::Tracer::new
@requires
[*] graph_ok(*graph)
[C08 C09 C10 C17 C18 C20] graph_keyed(*graph)
@ensures
[C08 C09 C10 C17 C18 C20] ta_wf(ret.traced_artefacts@), rels_wf(tarts(ret.traced_artefacts@), ret.relations@)
[*] idx(ret.traced_artefacts@) == gix(*graph)
%NEWENS ret
[C04] unknown_ok(*graph, ret.errors@)
@begin
broadcast use group_trace;
let ghost arts = graph.artefacts.valseq();
let ghost n = arts.len() as int;
let ghost rels = graph.relations@;
let ghost mut lc = Set::<Link>::empty();
let ghost mut ld = Set::<Link>::empty();
@loop 1
@pre
assert($s1 =~= refs(arts));
assert(idx(tracer.traced_artefacts@) =~= Map::empty());
@inv
[*] tracer.req_by_id@ == g_defs(arts, $it1.pos())
[*] idx(tracer.traced_artefacts@) == g_idx(arts, $it1.pos())
[C01 C02 C07] tracer.relations@.len() == 0
[C08 C09 C10 C17 C18 C20] tracer.relations@.len() == 0, ta_wf(tracer.traced_artefacts@)
[C03] forall|k: ArtefactId| #[trigger] tracer.traced_artefacts@.contains_key(k) ==> g_der(arts, $it1.pos()).contains_key(k) && tracer.traced_artefacts@[k].derived@ == g_der(arts, $it1.pos())[k]
[C04] tracer.invalid_covers_links@ == g_lc(arts, $it1.pos()) && tracer.invalid_depends_links@ == g_ld(arts, $it1.pos())
[*] links_in(tracer.req_by_id@, tracer.invalid_covers_links@, tracer.invalid_depends_links@)
[C06] sel(tracer.errors@, 1) == g_dup(arts, $it1.pos())
[C05] sel(tracer.errors@, 2) == Seq::<Error>::empty()
[C07] sel(tracer.errors@, 3) == Seq::<Error>::empty()
[C04] sel(tracer.errors@, 4) == Seq::<Error>::empty()
@head
[C08 C09 C10 C17 C18 C20] assert(graph.artefacts.keyseq().to_set().contains(graph.artefacts.keyseq()[$it1.pos() - 1]));
@post
proof { g_idx_dom(arts, n); assert(idx(tracer.traced_artefacts@).dom() =~= tracer.traced_artefacts@.dom()); rels_present(*graph, tracer.traced_artefacts@); }
let ghost ix = idx(tracer.traced_artefacts@);
@loop 2
@inv
[*] tracer.req_by_id@ == g_defs(arts, n)
[*] idx(tracer.traced_artefacts@) == gix(*graph)
[C01 C02 C07] rels_rel(tracer.relations@, rels, $it2.pos())
[C08 C09 C10 C17 C18 C20] ta_wf(tracer.traced_artefacts@), rels_wf(tarts(tracer.traced_artefacts@), tracer.relations@)
[C01] rels_cov(tracer.relations@, gix(*graph), rels, $it2.pos())
[C02] rels_unc(tracer.relations@, gix(*graph), rels, $it2.pos())
[C03] der_all(tracer.traced_artefacts@, gix(*graph), gder(*graph), rels, $it2.pos())
[C04] links_all(tracer.invalid_covers_links@, g_lc(arts, n), gix(*graph), rels, $it2.pos(), false) && links_all(tracer.invalid_depends_links@, g_ld(arts, n), gix(*graph), rels, $it2.pos(), true)
[*] links_in(tracer.req_by_id@, tracer.invalid_covers_links@, tracer.invalid_depends_links@)
[C06] sel(tracer.errors@, 1) == g_dup(arts, n)
[C05] sel(tracer.errors@, 2) == all_terrs(gix(*graph), rels, $it2.pos())
[C07] sel(tracer.errors@, 3) == all_unused(gix(*graph), rels, $it2.pos())
[C04] sel(tracer.errors@, 4) == Seq::<Error>::empty()
@head
let ghost t0 = tracer;
proof { g_idx_dom(arts, n); rels_present(*graph, tracer.traced_artefacts@); }
@tail
proof { idx_same(t0.traced_artefacts@, tracer.traced_artefacts@); }
[C01 C02 C07] assert forall|i: int| 0 <= i < t0.relations@.len() implies #[trigger] tracer.relations@[i] == t0.relations@[i] by { assert(tracer.relations@.drop_last()[i] == t0.relations@[i]); }
@post
proof { lc = tracer.invalid_covers_links@; ld = tracer.invalid_depends_links@; }
@finish
[C04] proof { reveal(unknown_ok); assert(sel(tracer.errors@, 4) == unk_errs(gdefs(*graph), lc, ld)); }
@spec
proof fn idx_same(a: Map<ArtefactId, TracedArtefact>, b: Map<ArtefactId, TracedArtefact>)
    requires same_idx(a, b) ensures idx(a) == idx(b), a.dom() == b.dom()
{ assert(a.dom() =~= b.dom()); assert(idx(a) =~= idx(b)); }
proof fn rels_present(g: Graph, ta: Map<ArtefactId, TracedArtefact>)
    requires graph_ok(g), idx(ta) == gix(g)
    ensures forall|i: int| 0 <= i < g.relations@.len() ==> rel_ok(ta, #[trigger] g.relations@[i])
{
    let arts = g.artefacts.valseq(); let n = arts.len() as int;
    g_idx_dom(arts, n);
    assert forall|a: ArtefactId| g.artefacts@.contains_key(a) implies #[trigger] ta.contains_key(a) by {
        assert(g.artefacts.keyseq().to_set().contains(a));
        let i = choose|i: int| 0 <= i < n && g.artefacts.keyseq()[i] == a;
        assert(arts[i].id == a);
        assert(idx(ta).contains_key(a));
    }
}
@fn trace.rs::Tracer::data
@requires
[C08 C09 C10 C17 C18 C20] ta_wf(self.traced_artefacts@), rels_wf(tarts(self.traced_artefacts@), self.relations@)
@acc 1 BTreeMap<ArtefactId, Rc<Artefact>> | BTreeMap<ArtefactId, Vec<RequirementId>>
@acc 2 Vec<RequirementId>
@ensures
[C08 C09 C10 C17 C18 C20] tg_ok(ret)
[C01 C02 C07 C08 C09 C10 C17 C18 C20] ret.traced_relations == self.relations
[C04 C05 C06 C07] ret.errors == self.errors
[C01 C03 C08 C09 C10 C17 C18 C20] ret.artefacts@ == self.traced_artefacts@.map_values(|t: TracedArtefact| t.artefact)
[C03 C08 C09 C10 C17 C18 C20] ret.derived@.dom() == self.traced_artefacts@.dom()
[C03 C08 C09 C10 C17 C18 C20] forall|k: ArtefactId| #[trigger] self.traced_artefacts@.contains_key(k) ==> ret.derived@[k]@ == sorted_seq(self.traced_artefacts@[k].derived@)
@finish
[C08 C09 C10 C17 C18 C20] proof { assert(tarts(ta) == artefacts@); assert forall|a: ArtefactId| #[trigger] artefacts@.contains_key(a) implies ta.contains_key(a) && ta_wf1(ta[a]) && artefacts@[a] == ta[a].artefact by { }
 assert(keyed(artefacts@)); assert forall|a: ArtefactId, j: int| ta.contains_key(a) && 0 <= j < derived@[a]@.len() implies artefacts@[a].requirements@.contains_key(#[trigger] derived@[a]@[j]) by { assert(sorted_seq(ta[a].derived@).to_set().contains(derived@[a]@[j])); } }
@begin
let ghost ta = self.traced_artefacts@;
let ghost ks = sorted_seq(ta.dom());
@loop 1
@inv
[*] forall|k: ArtefactId| #[trigger] $acca1@.contains_key(k) <==> exists|i: int| 0 <= i < $it1.pos() && #[trigger] ks[i] == k
[C01 C03 C08 C09 C10 C17 C18 C20] forall|k: ArtefactId| #[trigger] $acca1@.contains_key(k) ==> $acca1@[k] == ta[k].artefact
[C03 C08 C09 C10 C17 C18 C20] forall|k: ArtefactId| #[trigger] $accb1@.contains_key(k) <==> exists|i: int| 0 <= i < $it1.pos() && #[trigger] ks[i] == k
[C03 C08 C09 C10 C17 C18 C20] forall|k: ArtefactId| #[trigger] $accb1@.contains_key(k) ==> $accb1@[k]@ == sorted_seq(ta[k].derived@)
@head
let ghost d1 = sorted_seq($x1.1.derived@);
assert($x1.0 == ks[$it1.pos() - 1]);
@post
[C01 C03 C08 C09 C10 C17 C18 C20] assert($acca1@ =~= ta.map_values(|t: TracedArtefact| t.artefact)) by { assert(ks.to_set() == ta.dom()); assert forall|k: ArtefactId| ta.contains_key(k) implies #[trigger] $acca1@.contains_key(k) by { assert(ks.to_set().contains(k)); } }
[C03 C08 C09 C10 C17 C18 C20] assert($accb1@.dom() =~= ta.dom()) by { assert(ks.to_set() == ta.dom()); assert forall|k: ArtefactId| ta.contains_key(k) implies #[trigger] $accb1@.contains_key(k) by { assert(ks.to_set().contains(k)); } }
@loop 2
@inv
[C03 C08 C09 C10 C17 C18 C20] $acc2@ == d1.take($it2.pos())
@post
[C03 C08 C09 C10 C17 C18 C20] assert(d1.take(d1.len() as int) =~= d1);
@spec
#[verifier::opaque]
spec fn derived_ok(g: Graph, t: TracedGraph) -> bool {
forall|k: ArtefactId| #[trigger] gix(g).contains_key(k) ==> exists|s: Set<RequirementId>| t.derived@[k]@ == sorted_seq(s) && forall|id: RequirementId| #[trigger] s.contains(id) <==> gder(g)[k].contains(id) && !all_rem(gix(g), g.relations@, g.relations@.len() as int, k, id) }
@fn trace.rs::trace
@requires
[*] graph_ok(*graph)
[C08 C09 C10 C17 C18 C20] graph_keyed(*graph)
@ensures
[C08 C09 C10 C17 C18 C20] tg_ok(ret)
[C01 C02 C07] rels_rel(ret.traced_relations@, graph.relations@, graph.relations@.len() as int)
[C01] rels_cov(ret.traced_relations@, gix(*graph), graph.relations@, graph.relations@.len() as int)
[C02] rels_unc(ret.traced_relations@, gix(*graph), graph.relations@, graph.relations@.len() as int)
[C05] sel(ret.errors@, 2) == all_terrs(gix(*graph), graph.relations@, graph.relations@.len() as int)
[C06] sel(ret.errors@, 1) == g_dup(graph.artefacts.valseq(), graph.artefacts.valseq().len() as int)
[C07] sel(ret.errors@, 3) == all_unused(gix(*graph), graph.relations@, graph.relations@.len() as int)
[C03] derived_ok(*graph, ret)
[C04] unknown_ok(*graph, ret.errors@)
@begin
proof { reveal(derived_ok); }
