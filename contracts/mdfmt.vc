@include mdspec
@fn formatters/markdown.rs::requirement_link
@ensures
[*] ret@ == req_link(*req)
@begin
broadcast use axiom_dash;
@fn formatters/markdown.rs::location_link
@ensures
[*] ret@ == loc_link(*loc)
@fn formatters/markdown.rs::err
@ensures
%WROTE md_err(old(w).text(), *error)
[*] old(w).valid() ==> final(w).valid()
@fn formatters/markdown.rs::requirement
@ensures
%WROTE md_req(old(w).text(), *req)
@loop 1
@inv
[*] w.text() == md_refs(md_r1(old(w).text(), *req).p(nl()).p("Covers:"@).p(nl()), req.covers@, $it1.pos()), w.broken() == old(w).broken()
@loop 2
@inv
[*] w.text() == md_refs(md_r2(old(w).text(), *req).p(nl()).p("Depends:"@).p(nl()), req.depends@, $it2.pos()), w.broken() == old(w).broken()
@loop 3
@inv
[*] w.text() == md_attrs(md_r3(old(w).text(), *req), req.attributes, $it3.pos()), w.broken() == old(w).broken()
@fn formatters/markdown.rs::requirements
@ensures
%WROTE md_export(old(w).text(), graph.artefacts.valseq())
@begin
let ghost arts = graph.artefacts.valseq();
@loop 1
@inv
[*] headline == any_errs(arts, $it1.pos()), w.broken() == old(w).broken()
[*] w.text() == md_in(old(w).text(), arts, $it1.pos())
@loop 2
@inv
[*] headline == any_errs(arts, $it1.pos()), w.broken() == old(w).broken()
[*] w.text() == md_errs(md_in_h(md_in(old(w).text(), arts, $it1.pos() - 1), arts, $it1.pos()), $x1.errors@, $it2.pos())
@loop 3
@inv
[*] rcs(unref($acc3@)) == art_reqs(arts, $it3.pos())
@loop 4
@inv
[*] rcs(unref($acc3@)) == art_reqs(arts, $it3.pos() - 1) + rcs($x3.requirements.valseq()).take($it4.pos())
@tail
proof { let b = art_reqs(arts, $it3.pos() - 1); let s = rcs($x3.requirements.valseq()); let n = $it4.pos(); take_step(s, n); assert(b + s.take(n) =~= (b + s.take(n - 1)).push(s[n - 1])); }
@post
assert(rcs($x3.requirements.valseq()).take($x3.requirements.valseq().len() as int) =~= rcs($x3.requirements.valseq()));
@loop 5
@inv
[*] w.text() == md_reqs(md_in(old(w).text(), arts, arts.len() as int), rcs(unref($s5)), $it5.pos()), w.broken() == old(w).broken()
@fn formatters/markdown.rs::traced_requirement
@ensures
%WROTE md_traced(old(w).text(), *req)
@loop 1
@inv
[*] w.text() == md_attrs(md_t1(old(w).text(), *req), req.requirement.attributes, $it1.pos()), w.broken() == old(w).broken()
@loop 2
@inv
[*] w.text() == md_up(md_t2(old(w).text(), *req), req.covers, $it2.pos()), w.broken() == old(w).broken()
[*] derived == no_cov(req.covers, $it2.pos())
@loop 3
@inv
[*] w.text() == md_cov(md_up(md_t2(old(w).text(), *req), req.covers, $it2.pos() - 1).p("*   "@).p($x2.0.shown()).p(nl()), $x2.1@, $it3.pos()), w.broken() == old(w).broken()
[*] derived == (no_cov(req.covers, $it2.pos() - 1) && $it3.pos() == 0) ||| derived == no_cov(req.covers, $it2.pos() - 1)
@loop 4
@inv
[*] w.text() == md_down(md_t3(old(w).text(), *req), req.depends, $it4.pos()), w.broken() == old(w).broken()
@loop 5
@inv
[*] w.text() == md_cov(md_down_h(md_down(md_t3(old(w).text(), *req), req.depends, $it4.pos() - 1), req.depends, $it4.pos()), $x4.1@, $it5.pos()), w.broken() == old(w).broken()
@fn formatters/markdown.rs::tracing
@requires
[*] ag_ok(*aggregated_graph)
@ensures
%WROTE md_report(old(w).text(), *aggregated_graph)
@begin
let ghost ag = *aggregated_graph;
let ghost tg = *ag.traced_graph;
let ghost arts = tg.artefacts.valseq();
let ghost t0 = old(w).text();
@loop 1
@inv
[*] headline == any_errs(arts, $it1.pos()), w.broken() == old(w).broken()
[*] w.text() == md_in(t0, arts, $it1.pos())
@loop 2
@inv
[*] headline == any_errs(arts, $it1.pos()), w.broken() == old(w).broken()
[*] w.text() == md_errs(md_in_h(md_in(t0, arts, $it1.pos() - 1), arts, $it1.pos()), $x1.errors@, $it2.pos())
@loop 3
@inv
[*] w.text() == md_uniq(md_h1(md_g1(t0, ag), "# Tracing Errors"@), tg.errors@, $it3.pos()), w.broken() == old(w).broken()
[*] forall|t: Seq<char>| #[trigger] set@.contains(utf8(t)) <==> md_seen(tg.errors@, $it3.pos()).contains(t)
@tail
proof { assert forall|t: Seq<char>| #[trigger] set@.contains(utf8(t)) <==> md_seen(tg.errors@, $it3.pos()).contains(t) by { if utf8(t) == utf8(md_err(Seq::empty(), *$x3)) { axiom_utf8_inj(t, md_err(Seq::empty(), *$x3)); } } }
@loop 4
@inv
[*] headline == any_unc(tg.traced_relations@, $it4.pos()), w.broken() == old(w).broken()
[*] w.text() == md_unc(md_g2(t0, ag), ag.requirements@, tg.traced_relations@, $it4.pos())
@loop 5
@inv
[*] headline, w.broken() == old(w).broken()
[*] w.text() == md_list(md_unc_h(md_unc(md_g2(t0, ag), ag.requirements@, tg.traced_relations@, $it4.pos() - 1), tg.traced_relations@, $it4.pos()), ag.requirements@, $x4.uncovered@, $it5.pos())
@head
proof { defs_has(tg, $x4.relation.upper, *$x5); }
@loop 6
@inv
[*] headline == any_der(tg.derived, $it6.pos()), w.broken() == old(w).broken()
[*] w.text() == md_der(md_g3(t0, ag), ag.requirements@, tg.derived, $it6.pos())
@loop 7
@inv
[*] headline, w.broken() == old(w).broken()
[*] w.text() == md_list(md_der_h(md_der(md_g3(t0, ag), ag.requirements@, tg.derived, $it6.pos() - 1), tg.derived, $it6.pos()), ag.requirements@, $x6.1@, $it7.pos())
@head
proof { defs_has(tg, *$x6.0, *$x7); }
@loop 8
@inv
[*] w.text() == md_all(md_g4(t0, ag), ag.requirements@, arts, $it8.pos()), w.broken() == old(w).broken()
@loop 9
@inv
[*] w.text() == md_all1(md_all(md_g4(t0, ag), ag.requirements@, arts, $it8.pos() - 1).p("## "@).p($x8.id.0@).p(nl()), ag.requirements@, $x8.requirements.keyseq(), $it9.pos()), w.broken() == old(w).broken()
@head
proof { defs_has(tg, tg.artefacts.keyseq()[$it8.pos() - 1], *$x9); }
