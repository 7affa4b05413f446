@include text
@include tgok
@spec
// ===== the lines of the GNU error report.  Each function appends to the text t.
spec fn g_title(t: Option<String>) -> Seq<char> { match t { Some(s) => s@, None => "<no title>"@ } }
spec fn g_err(t: Seq<char>, e: Error) -> Seq<char> { match e {
    Error::Format(loc, m) => t.p(loc.shown()).p(": "@).p(m@).p(nl()),
    Error::DuplicateRequirement(r1, r2) => t.p(r2.location.shown()).p(": Duplicate Requirement: "@).p(r1.id.0@).p(nl()).p(r1.location.shown()).p(": note: previously seen here"@).p(nl()),
    Error::DuplicateAttribute(loc, attr, req) => t.p(loc.shown()).p(": "@).p(req.0@).p(" has duplicate Attribute: "@).p(attr@).p(nl()),
    Error::Io(path, m) => t.p(path_text(path)).p(": IO Error: "@).p(m@).p(nl()),
    Error::CoveredWithWrongTitle { upper, lower, wrong_title, location } =>
        t.p(location.shown()).p(": "@).p(upper.id.0@).p(" covered with wrong title. Expected "@).p(dbg_str(g_title(upper.title))).p(", actual "@).p(dbg_str(wrong_title@)).p(nl()).p(upper.location.shown()).p(": note: Defined here"@).p(nl()),
    Error::DependWithWrongTitle { upper, lower, wrong_title, location } =>
        t.p(location.shown()).p(": "@).p(lower.id.0@).p(" depended with wrong title. Expected "@).p(dbg_str(g_title(lower.title))).p(", actual "@).p(dbg_str(wrong_title@)).p(nl()).p(lower.location.shown()).p(": note: Defined here"@).p(nl()),
    Error::DependOnUnknownRequirement(req, id, location) => t.p(location.shown()).p(": "@).p(req.id.0@).p(" Depends on unknown requirement "@).p(id.0@).p(nl()),
    Error::CoversUnknownRequirement(req, id, location) => t.p(location.shown()).p(": "@).p(req.id.0@).p(" Covers unknown requirement "@).p(id.0@).p(nl()),
    Error::ReferencedWithoutTitle { referenced, location } => t.p(location.shown()).p(": should reference "@).p(referenced.id.0@).p(" with title "@).p(dbg_str(g_title(referenced.title))).p(nl()),
    Error::RequirementWithoutTitle(req) => t.p(req.location.shown()).p(": requirement "@).p(req.id.0@).p(" without title in artefact that requires referencing with title"@).p(nl()),
    Error::UnusedRelation(_) | Error::Config(_) | Error::DuplicateArtefact(_) | Error::UnknownArtefact(_) | Error::EmptyGraph => t.p("Error in config file: "@).p(dbg_error(e)).p(nl()),
} }
spec fn g_errs(t: Seq<char>, es: Seq<Error>, n: int) -> Seq<char> decreases n { if n <= 0 { t } else { g_err(g_errs(t, es, n - 1), es[n - 1]) } }
// all errors of the first n artefacts
spec fn art_errs(arts: Seq<Rc<Artefact>>, n: int) -> Seq<Error> decreases n { if n <= 0 { Seq::empty() } else { art_errs(arts, n - 1) + arts[n - 1].errors@ } }
spec fn g_unc(t: Seq<char>, arts: Arts, r: TracedRelation, n: int) -> Seq<char> decreases n {
    if n <= 0 { t } else { let q = arts[r.relation.upper].requirements@[r.uncovered@[n - 1]]; g_unc(t, arts, r, n - 1).p(q.location.shown()).p(": "@).p(q.id.0@).p(" Uncovered"@).p(nl()) }
}
spec fn g_rels(t: Seq<char>, arts: Arts, rs: Seq<TracedRelation>, n: int) -> Seq<char> decreases n {
    if n <= 0 { t } else { g_unc(g_rels(t, arts, rs, n - 1).p("## "@).p(rs[n - 1].shown()).p(nl()), arts, rs[n - 1], rs[n - 1].uncovered@.len() as int) }
}
spec fn gn_der(t: Seq<char>, a: Artefact, ids: Seq<RequirementId>, n: int) -> Seq<char> decreases n {
    if n <= 0 { t } else { let q = a.requirements@[ids[n - 1]]; gn_der(t, a, ids, n - 1).p(q.location.shown()).p(": "@).p(q.id.0@).p(" Derived"@).p(nl()) }
}
spec fn g_ders(t: Seq<char>, arts: Arts, d: BTreeMap<ArtefactId, Vec<RequirementId>>, n: int) -> Seq<char> decreases n {
    if n <= 0 { t } else { let a = d.keyseq()[n - 1]; gn_der(g_ders(t, arts, d, n - 1).p("## "@).p(a.0@).p(nl()), *arts[a], d@[a]@, d@[a]@.len() as int) }
}
spec fn g_t1(t: Seq<char>, g: TracedGraph) -> Seq<char> { let e = art_errs(g.artefacts.valseq(), g.artefacts.valseq().len() as int); g_errs(t.p("# Parsing Errors"@).p(nl()), e, e.len() as int) }
spec fn g_t2(t: Seq<char>, g: TracedGraph) -> Seq<char> { g_errs(g_t1(t, g).p("# Tracing Errors"@).p(nl()), g.errors@, g.errors@.len() as int) }
spec fn g_t3(t: Seq<char>, g: TracedGraph) -> Seq<char> { g_rels(g_t2(t, g).p("# Uncovered Requirement"@).p(nl()), g.artefacts@, g.traced_relations@, g.traced_relations@.len() as int) }
spec fn gnu_report(t: Seq<char>, g: TracedGraph) -> Seq<char> { g_ders(g_t3(t, g).p("Derived Requirement"@).p(nl()), g.artefacts@, g.derived, g.derived.keyseq().len() as int) }
@fn formatters/gnuerr.rs::errors
@requires
[*] errors.pos() == 0
@ensures
[*] ret is Ok ==> final(w).text() == g_errs(old(w).text(), unref(errors.seq()), errors.seq().len() as int) && final(w).broken() == old(w).broken()
[*] ret is Err ==> final(w).broken()
@loop 1
@inv
[*] $s1 == errors.seq()
[*] w.text() == g_errs(old(w).text(), unref(errors.seq()), $it1.pos()), w.broken() == old(w).broken()
@fn formatters/gnuerr.rs::tracing
@requires
[*] tg_ok(*traced_graph)
@ensures
[*] ret is Ok ==> final(w).text() == gnu_report(old(w).text(), *traced_graph) && final(w).broken() == old(w).broken()
[*] ret is Err ==> final(w).broken()
@begin
let ghost g = *traced_graph;
@acc 1 Vec<&Error>
@loop 1
@inv
[*] w.text() == old(w).text().p("# Parsing Errors"@).p(nl()), w.broken() == old(w).broken()
[*] unref($acc1@) == art_errs(g.artefacts.valseq(), $it1.pos())
@loop 2
@inv
[*] w.text() == old(w).text().p("# Parsing Errors"@).p(nl()), w.broken() == old(w).broken()
[*] unref($acc1@) == art_errs(g.artefacts.valseq(), $it1.pos() - 1) + $x1.errors@.take($it2.pos())
@tail
let ghost s = $x1.errors@; let ghost n = $it2.pos();
proof { take_step(s, n); assert(art_errs(g.artefacts.valseq(), $it1.pos() - 1) + s.take(n) =~= (art_errs(g.artefacts.valseq(), $it1.pos() - 1) + s.take(n - 1)).push(s[n - 1])); }
@post
assert($x1.errors@.take($x1.errors@.len() as int) =~= $x1.errors@);
@loop 3
@inv
[*] w.text() == g_rels(g_t2(old(w).text(), g).p("# Uncovered Requirement"@).p(nl()), g.artefacts@, g.traced_relations@, $it3.pos()), w.broken() == old(w).broken()
@loop 4
@inv
[*] w.text() == g_unc(g_rels(g_t2(old(w).text(), g).p("# Uncovered Requirement"@).p(nl()), g.artefacts@, g.traced_relations@, $it3.pos() - 1).p("## "@).p($x3.shown()).p(nl()), g.artefacts@, *$x3, $it4.pos()), w.broken() == old(w).broken()
@loop 5
@inv
[*] w.text() == g_ders(g_t3(old(w).text(), g).p("Derived Requirement"@).p(nl()), g.artefacts@, g.derived, $it5.pos()), w.broken() == old(w).broken()
@loop 6
@inv
[*] w.text() == gn_der(g_ders(g_t3(old(w).text(), g).p("Derived Requirement"@).p(nl()), g.artefacts@, g.derived, $it5.pos() - 1).p("## "@).p($x5.0.0@).p(nl()), *g.artefacts@[*$x5.0], $x5.1@, $it6.pos()), w.broken() == old(w).broken()
