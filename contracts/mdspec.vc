@include text
@include agspec
@spec
// ===== links and lines of the Markdown reports.  Each md_ function appends to the text t.
spec fn re_remove() -> Seq<char> { "[^A-Za-z0-9_-]"@ }
spec fn anchor(s: Seq<char>) -> Seq<char> { re_replace("[^A-Za-z0-9_-]"@, re_replace("[ ]"@, lowered(s), "-"@), ""@) }
// a blank for each match of the pattern of a blank
broadcast axiom fn axiom_dash(s: Seq<char>) ensures #[trigger] re_replace("[ ]"@, s, "-"@) == replaced(s, ' ', "-"@);
spec fn req_link(r: Requirement) -> Seq<char> { match r.title {
    Some(title) => "["@.p(r.id.0@).p("](#"@).p(anchor(r.id.0@.p("-"@).p(title@))).p(" \""@).p(title@).p("\")"@),
    None => "["@.p(r.id.0@).p("](#"@).p(anchor(r.id.0@)).p(")"@) } }
spec fn loc_link(l: Location) -> Seq<char> { let file = path_text(l.file); match l.location_in_file {
    Some(LocationInFile::Line(line)) => "["@.p(file).p(":"@).p(line.shown()).p("](../"@).p(file).p("?plain=1#L"@).p(line.shown()).p(")"@),
    Some(LocationInFile::LineAndColumn(line, column)) => "["@.p(file).p(":"@).p(line.shown()).p(":"@).p(column.shown()).p("](../"@).p(file).p("?plain=1#L"@).p(line.shown()).p(")"@),
    Some(LocationInFile::String(s)) => "["@.p(file).p("](../"@).p(file).p("):"@).p(s@),
    None => "["@.p(file).p("](../"@).p(file).p(")"@) } }
spec fn title_or_nil(t: Option<String>) -> Seq<char> { match t { Some(s) => s@, None => ""@ } }
spec fn md_err(t: Seq<char>, e: Error) -> Seq<char> { match e {
    Error::Format(loc, m) => t.p("*   Format Error: "@).p(m@).p(nl()).p("    in "@).p(loc_link(loc)).p(nl()),
    Error::DuplicateRequirement(r1, r2) => t.p("*   Duplicate Requirement: "@).p(r1.id.0@).p(nl()).p("    first seen in "@).p(loc_link(r2.location)).p(nl()).p("    then again in "@).p(loc_link(r1.location)).p(nl()),
    Error::DuplicateAttribute(loc, attr, req) => t.p("*   Duplicate Attribute: "@).p(attr@).p(" when parsing "@).p(req.0@).p(nl()).p("    "@).p(loc_link(loc)).p(nl()),
    Error::Io(path, m) => t.p("*   IO Error: "@).p(m@).p(nl()).p("   "@).p(path_text(path)).p(nl()),
    Error::Config(m) => t.p("*   Config Error: "@).p(m@).p(nl()),
    Error::DuplicateArtefact(a) => t.p("*   Duplicate Artefact: "@).p(a@).p(nl()),
    Error::UnknownArtefact(a) => t.p("*    Unknown Artefact: "@).p(a.0@).p(nl()),
    Error::CoveredWithWrongTitle { upper, lower, wrong_title, location } => t.p("*   Requirement covered with wrong title:"@).p(nl()).p("    *   Upper Requirement "@).p(req_link(*upper)).p(nl()).p("    *   Lower Requirement "@).p(req_link(*lower)).p(nl()).p("    *   Title of Upper Requirement:"@).p(nl()).p("        *    ````"@).p(title_or_nil(upper.title)).p("````"@).p(nl()).p("    *   Title used to cover it:"@).p(nl()).p("        *    ````"@).p(wrong_title@).p("````"@).p(nl()).p("    *  At: "@).p(location.shown()).p(nl()),
    Error::DependWithWrongTitle { upper, lower, wrong_title, location } => t.p("*   Requirement depended on with wrong title:"@).p(nl()).p("    *   Upper Requirement "@).p(req_link(*upper)).p(nl()).p("    *   Lower Requirement "@).p(req_link(*lower)).p(nl()).p("    *   Title of Lower Requirement:"@).p(nl()).p("        *    ````"@).p(title_or_nil(lower.title)).p("````"@).p(nl()).p("    *   Title used to cover it:"@).p(nl()).p("        *    ````"@).p(wrong_title@).p("````"@).p(nl()).p("    *  At: "@).p(location.shown()).p(nl()),
    Error::DependOnUnknownRequirement(req, id, location) => t.p("*   "@).p(req_link(*req)).p(" depends on unknown Requirement "@).p(id.0@).p(nl()).p("    "@).p(loc_link(location)).p(nl()),
    Error::CoversUnknownRequirement(req, id, location) => t.p("*   "@).p(req_link(*req)).p(" covers unknown Requirement "@).p(id.0@).p(nl()).p("    "@).p(loc_link(location)).p(nl()),
    Error::EmptyGraph => t.p("Tracing Graph is empty"@).p(nl()),
    Error::UnusedRelation(rel) => t.p("*   No requirement was traced along the relation "@).p(rel.shown()).p(". (Configuration error?)"@).p(nl()),
    Error::ReferencedWithoutTitle { referenced, location } => t.p("*   "@).p(req_link(*referenced)).p(" covered without title"@).p(nl()).p("    "@).p(location.shown()).p(nl()),
    Error::RequirementWithoutTitle(req) => t.p("*   Requirement "@).p(req_link(*req)).p(" without title in artefact that requires referencing with title"@).p(nl()),
} }
spec fn md_errs(t: Seq<char>, es: Seq<Error>, n: int) -> Seq<char> decreases n { if n <= 0 { t } else { md_err(md_errs(t, es, n - 1), es[n - 1]) } }
spec fn md_h1(t: Seq<char>, h: Seq<char>) -> Seq<char> { t.p(nl()).p(nl()).p(h).p(nl()).p(nl()) }
spec fn md_h2(t: Seq<char>, h: Seq<char>) -> Seq<char> { t.p(nl()).p("## "@).p(h).p(nl()).p(nl()) }
// the errors of the first n artefacts, each artefact with errors under its heading
spec fn any_errs(arts: Seq<Rc<Artefact>>, n: int) -> bool decreases n { n > 0 && (arts[n - 1].errors@.len() > 0 || any_errs(arts, n - 1)) }
spec fn md_in_h(t: Seq<char>, arts: Seq<Rc<Artefact>>, n: int) -> Seq<char> { if arts[n - 1].errors@.len() == 0 { t } else { md_h2(if any_errs(arts, n - 1) { t } else { md_h1(t, "# Input Errors"@) }, arts[n - 1].id.0@) } }
spec fn md_in(t: Seq<char>, arts: Seq<Rc<Artefact>>, n: int) -> Seq<char> decreases n {
    if n <= 0 { t } else { md_errs(md_in_h(md_in(t, arts, n - 1), arts, n), arts[n - 1].errors@, arts[n - 1].errors@.len() as int) }
}
// attributes other than the description, unless blank
spec fn md_attrs(t: Seq<char>, m: BTreeMap<String, String>, n: int) -> Seq<char> decreases n {
    if n <= 0 { t } else { let p = md_attrs(t, m, n - 1); let k = m.keyseq()[n - 1]; let v = trimmed(m@[k]@);
        if k@ == "Description"@ || v.len() == 0 { p } else { p.p(nl()).p(k@).p(":"@).p(nl()).p(v).p(nl()) } }
}
spec fn md_desc(t: Seq<char>, m: BTreeMap<String, String>) -> Seq<char> {
    if m@.contains_key(string_of("Description"@)) { t.p(nl()).p(nl()).p(m@[string_of("Description"@)]@).p(nl()) } else { t }
}
// ===== a requirement of the export
spec fn md_refs(t: Seq<char>, rs: Seq<Reference>, n: int) -> Seq<char> decreases n {
    if n <= 0 { t } else { let p = md_refs(t, rs, n - 1).p("*   "@).p(rs[n - 1].id.0@); (match rs[n - 1].title { Some(s) => p.p(": "@).p(s@), None => p }).p(nl()) }
}
spec fn md_ref_list(t: Seq<char>, h: Seq<char>, rs: Seq<Reference>) -> Seq<char> { if rs.len() == 0 { t } else { md_refs(t.p(nl()).p(h).p(nl()), rs, rs.len() as int) } }
spec fn md_r1(t: Seq<char>, r: Requirement) -> Seq<char> { md_desc(t.p(nl()).p("### "@).p(r.id.0@).p(": "@).p(title_or_empty(r.title)).p(nl()).p(nl()).p("Origin: "@).p(loc_link(r.location)).p(nl()), r.attributes) }
spec fn title_or_empty(t: Option<String>) -> Seq<char> { match t { Some(s) => s@, None => Seq::empty() } }
spec fn md_r2(t: Seq<char>, r: Requirement) -> Seq<char> { md_ref_list(md_r1(t, r), "Covers:"@, r.covers@) }
spec fn md_r3(t: Seq<char>, r: Requirement) -> Seq<char> { md_ref_list(md_r2(t, r), "Depends:"@, r.depends@) }
spec fn md_req(t: Seq<char>, r: Requirement) -> Seq<char> { md_attrs(md_r3(t, r), r.attributes, r.attributes.keyseq().len() as int) }
spec fn md_reqs(t: Seq<char>, rs: Seq<Requirement>, n: int) -> Seq<char> decreases n { if n <= 0 { t } else { md_req(md_reqs(t, rs, n - 1), rs[n - 1]) } }
// all requirements of the first n artefacts
spec fn art_reqs(arts: Seq<Rc<Artefact>>, n: int) -> Seq<Requirement> decreases n { if n <= 0 { Seq::empty() } else { art_reqs(arts, n - 1) + rcs(arts[n - 1].requirements.valseq()) } }
spec fn md_export(t: Seq<char>, arts: Seq<Rc<Artefact>>) -> Seq<char> {
    let rs = sorted_by_id(art_reqs(arts, arts.len() as int)); md_reqs(md_in(t, arts, arts.len() as int), rs, rs.len() as int)
}
// ===== a requirement of the trace report
spec fn md_cov(t: Seq<char>, es: Seq<(&Requirement, &Location)>, n: int) -> Seq<char> decreases n {
    if n <= 0 { t } else { md_cov(t, es, n - 1).p("    *   "@).p(req_link(*es[n - 1].0)).p(nl()).p("        Reference: "@).p(loc_link(*es[n - 1].1)).p(nl()) }
}
type Covs<'g> = BTreeMap<&'g Relation, Vec<(&'g Requirement, &'g Location)>>;
spec fn md_up<'g>(t: Seq<char>, m: Covs<'g>, n: int) -> Seq<char> decreases n {
    if n <= 0 { t } else { let r = m.keyseq()[n - 1]; md_cov(md_up(t, m, n - 1).p("*   "@).p(r.shown()).p(nl()), m@[r]@, m@[r]@.len() as int) }
}
spec fn no_cov<'g>(m: Covs<'g>, n: int) -> bool decreases n { n <= 0 || (no_cov(m, n - 1) && m@[m.keyseq()[n - 1]]@.len() == 0) }
spec fn md_down_h<'g>(t: Seq<char>, m: Covs<'g>, n: int) -> Seq<char> {
    let r = m.keyseq()[n - 1]; let p = t.p("*   "@).p(r.shown()).p(nl()); if m@[r]@.len() == 0 { p.p("    *    UNCOVERED"@).p(nl()) } else { p }
}
spec fn md_down<'g>(t: Seq<char>, m: Covs<'g>, n: int) -> Seq<char> decreases n {
    if n <= 0 { t } else { let r = m.keyseq()[n - 1]; md_cov(md_down_h(md_down(t, m, n - 1), m, n), m@[r]@, m@[r]@.len() as int) }
}
spec fn md_title(t: Seq<char>, o: Option<String>) -> Seq<char> { match o { Some(s) => t.p(": "@).p(s@), None => t } }
spec fn md_t1<'g>(t: Seq<char>, q: RequirementTrace<'g>) -> Seq<char> { md_desc(md_title(t.p(nl()).p("### "@).p(q.requirement.id.0@), q.requirement.title).p(nl()).p(nl()).p("Origin: "@).p(q.artefact.id.0@).p(", "@).p(loc_link(q.requirement.location)).p(nl()), q.requirement.attributes) }
spec fn md_t2<'g>(t: Seq<char>, q: RequirementTrace<'g>) -> Seq<char> { md_attrs(md_t1(t, q), q.requirement.attributes, q.requirement.attributes.keyseq().len() as int).p(nl()).p("Upwards Tracing:"@).p(nl()) }
spec fn md_t3<'g>(t: Seq<char>, q: RequirementTrace<'g>) -> Seq<char> { let n = q.covers.keyseq().len() as int; let p = md_up(md_t2(t, q), q.covers, n); (if no_cov(q.covers, n) { p.p("    *   Derived"@).p(nl()) } else { p }).p(nl()).p("Downwards Tracing:"@).p(nl()) }
spec fn md_traced<'g>(t: Seq<char>, q: RequirementTrace<'g>) -> Seq<char> { md_down(md_t3(t, q), q.depends, q.depends.keyseq().len() as int) }
// ===== the trace report
spec fn md_seen(es: Seq<Error>, n: int) -> Set<Seq<char>> decreases n { if n <= 0 { Set::empty() } else { md_seen(es, n - 1).insert(md_err(Seq::empty(), es[n - 1])) } }
spec fn md_uniq(t: Seq<char>, es: Seq<Error>, n: int) -> Seq<char> decreases n {
    if n <= 0 { t } else { let p = md_uniq(t, es, n - 1); let x = md_err(Seq::empty(), es[n - 1]); if md_seen(es, n - 1).contains(x) { p } else { p.p(x) } }
}
type Reqs<'g> = Map<&'g RequirementId, RequirementTrace<'g>>;
spec fn md_list<'g>(t: Seq<char>, q: Reqs<'g>, ids: Seq<RequirementId>, n: int) -> Seq<char> decreases n {
    if n <= 0 { t } else { md_list(t, q, ids, n - 1).p("*   "@).p(req_link(*q[&ids[n - 1]].requirement)).p(nl()) }
}
spec fn any_unc(rs: Seq<TracedRelation>, n: int) -> bool decreases n { n > 0 && (rs[n - 1].uncovered@.len() > 0 || any_unc(rs, n - 1)) }
spec fn md_unc_h(t: Seq<char>, rs: Seq<TracedRelation>, n: int) -> Seq<char> { md_h2(if any_unc(rs, n - 1) { t } else { md_h1(t, "# Uncovered Requirements"@) }, rs[n - 1].shown()) }
spec fn md_unc<'g>(t: Seq<char>, q: Reqs<'g>, rs: Seq<TracedRelation>, n: int) -> Seq<char> decreases n {
    if n <= 0 { t } else { let p = md_unc(t, q, rs, n - 1); let ids = rs[n - 1].uncovered@; if ids.len() == 0 { p } else { md_list(md_unc_h(p, rs, n), q, ids, ids.len() as int) } }
}
type Der = BTreeMap<ArtefactId, Vec<RequirementId>>;
spec fn any_der(d: Der, n: int) -> bool decreases n { n > 0 && (d@[d.keyseq()[n - 1]]@.len() > 0 || any_der(d, n - 1)) }
spec fn md_der_h(t: Seq<char>, d: Der, n: int) -> Seq<char> { md_h2(if any_der(d, n - 1) { t } else { md_h1(t, "# Derived Requirements"@) }, d.keyseq()[n - 1].0@) }
spec fn md_der<'g>(t: Seq<char>, q: Reqs<'g>, d: Der, n: int) -> Seq<char> decreases n {
    if n <= 0 { t } else { let p = md_der(t, q, d, n - 1); let ids = d@[d.keyseq()[n - 1]]@; if ids.len() == 0 { p } else { md_list(md_der_h(p, d, n), q, ids, ids.len() as int) } }
}
spec fn md_all1<'g>(t: Seq<char>, q: Reqs<'g>, ids: Seq<RequirementId>, n: int) -> Seq<char> decreases n { if n <= 0 { t } else { md_traced(md_all1(t, q, ids, n - 1), q[&ids[n - 1]]) } }
spec fn md_all<'g>(t: Seq<char>, q: Reqs<'g>, arts: Seq<Rc<Artefact>>, n: int) -> Seq<char> decreases n {
    if n <= 0 { t } else { let ks = arts[n - 1].requirements.keyseq(); md_all1(md_all(t, q, arts, n - 1).p("## "@).p(arts[n - 1].id.0@).p(nl()), q, ks, ks.len() as int) }
}
spec fn md_g1<'g>(t: Seq<char>, ag: AggregatedGraph<'g>) -> Seq<char> { md_in(t, ag.traced_graph.artefacts.valseq(), ag.traced_graph.artefacts.valseq().len() as int) }
spec fn md_g2<'g>(t: Seq<char>, ag: AggregatedGraph<'g>) -> Seq<char> { let es = ag.traced_graph.errors@; if es.len() == 0 { md_g1(t, ag) } else { md_uniq(md_h1(md_g1(t, ag), "# Tracing Errors"@), es, es.len() as int) } }
spec fn md_g3<'g>(t: Seq<char>, ag: AggregatedGraph<'g>) -> Seq<char> { md_unc(md_g2(t, ag), ag.requirements@, ag.traced_graph.traced_relations@, ag.traced_graph.traced_relations@.len() as int) }
spec fn md_g4<'g>(t: Seq<char>, ag: AggregatedGraph<'g>) -> Seq<char> { md_h1(md_der(md_g3(t, ag), ag.requirements@, ag.traced_graph.derived, ag.traced_graph.derived.keyseq().len() as int), "# Requirements"@) }
spec fn md_report<'g>(t: Seq<char>, ag: AggregatedGraph<'g>) -> Seq<char> { md_all(md_g4(t, ag), ag.requirements@, ag.traced_graph.artefacts.valseq(), ag.traced_graph.artefacts.valseq().len() as int) }
spec fn ag_ok<'g>(ag: AggregatedGraph<'g>) -> bool { tg_ok(*ag.traced_graph) && reqs_ok(ag.requirements@, defs(*ag.traced_graph)) }
