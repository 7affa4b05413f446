@import gnuerr mdfmt aggregator
@types Format Requirements Trace
@include serde
@serde Requirements
@serde Trace
@serde TracedGraph
@serde TracedRelation relation: serde(flatten)
@serde Coverage
@serde CoverageDirection
@serde Relation
@serde Artefact
@serde Requirement
@serde Reference
@serde Location
@serde LocationInFile
@serde Error
@serde ArtefactId
@serde RequirementId
@note serde and serde_json write the whole value (derived implementations, attributes checked)
@spec
// ===== JSON: what serde_json writes is a function of the value
pub uninterp spec fn json_reqs(version: int, reqs: Seq<Requirement>, errors: Seq<Error>) -> Seq<char>;
pub uninterp spec fn json_trace(version: int, g: TracedGraph) -> Seq<char>;
impl VJson for Requirements { open spec fn json(&self) -> Seq<char> { json_reqs(self.version as int, rcs(self.requirements@), self.errors@) } }
impl<'g> VJson for Trace<'g> { open spec fn json(&self) -> Seq<char> { json_trace(self.version as int, *self.trace) } }
impl VDebug for Format { uninterp spec fn dbg(&self) -> Seq<char>; uninterp spec fn dbg_alt(&self) -> Seq<char>; }
// ===== tags
spec fn tag_line(r: Requirement) -> Option<Seq<char>> { match r.location.location_in_file {
    Some(LocationInFile::Line(l)) => Some(r.id.0@.p("\t"@).p(path_text(r.location.file)).p("\t"@).p(l.shown()).p(";\"\tr"@).p(nl())),
    Some(LocationInFile::LineAndColumn(l, _)) => Some(r.id.0@.p("\t"@).p(path_text(r.location.file)).p("\t"@).p(l.shown()).p(";\"\tr"@).p(nl())),
    _ => None } }
spec fn tag_lines(rs: Seq<Requirement>, n: int) -> Seq<Seq<char>> decreases n {
    if n <= 0 { Seq::empty() } else { match tag_line(rs[n - 1]) { Some(l) => tag_lines(rs, n - 1).push(l), None => tag_lines(rs, n - 1) } }
}
spec fn all_lines(arts: Seq<Rc<Artefact>>, n: int) -> Seq<Seq<char>> decreases n {
    if n <= 0 { Seq::empty() } else { let rs = rcs(arts[n - 1].requirements.valseq()); all_lines(arts, n - 1) + tag_lines(rs, rs.len() as int) }
}
spec fn put_all(t: Seq<char>, ls: Seq<Seq<char>>, n: int) -> Seq<char> decreases n { if n <= 0 { t } else { put_all(t, ls, n - 1).p(ls[n - 1]) } }
spec fn tag_header() -> Seq<char> { "!_TAG_FILE_SORTED\t1\t/0=unsorted, 1=sorted, 2=foldcase/\n!_TAG_PROGRAM_NAME\treqtrace/\n!_TAG_PROGRAM_URL\thttps://github.com/wonkodv/reqtrace/\n!_TAG_PROGRAM_VERSION\t0\t//\n"@ }
spec fn tags(t: Seq<char>, arts: Seq<Rc<Artefact>>) -> Seq<char> { let ls = sorted_texts(all_lines(arts, arts.len() as int)); put_all(t.p(tag_header()), ls, ls.len() as int) }
// C19: the lines are in order and are those of the requirements, each as often as there is one
proof fn tags_in_order(arts: Seq<Rc<Artefact>>) ensures ({ let all = all_lines(arts, arts.len() as int); let ls = sorted_texts(all); in_order(ls, text_above()) && ls.to_multiset() == all.to_multiset() && ls.len() == all.len() }) { sorted_texts_ok(all_lines(arts, arts.len() as int)); }
// C19: the exported requirements are in the order of their ids, and requirements and errors come as often as they are in the graph
proof fn export_in_order(arts: Seq<Rc<Artefact>>) ensures ({ let all = art_reqs(arts, arts.len() as int); let rs = sorted_by_id(all); in_order(rs, id_above()) && rs.to_multiset() == all.to_multiset() && rs.len() == all.len() }),
    sorted_by_text(art_errs(arts, arts.len() as int)).to_multiset() == art_errs(arts, arts.len() as int).to_multiset()
{ sorted_by_id_ok(art_reqs(arts, arts.len() as int)); axiom_sorted_by_text(art_errs(arts, arts.len() as int)); }
// ===== queries
spec fn reqs_json(arts: Seq<Rc<Artefact>>) -> Seq<char> { json_reqs(0, sorted_by_id(art_reqs(arts, arts.len() as int)), sorted_by_text(art_errs(arts, arts.len() as int))) }
spec fn report_reqs(t: Seq<char>, f: Format, arts: Seq<Rc<Artefact>>) -> Option<Seq<char>> { match f {
    Format::Tags => Some(tags(t, arts)), Format::Markdown => Some(md_export(t, arts)), Format::Json => Some(t.p(reqs_json(arts))), _ => None } }
spec fn ag_of<'g>(ag: AggregatedGraph<'g>, g: TracedGraph) -> bool { *ag.traced_graph == g && ag_ok(ag) }
@fn formatters/tags.rs::requirements
@ensures
%WROTE tags(old(w).text(), graph.artefacts.valseq())
@begin
let ghost arts = graph.artefacts.valseq();
@loop 1
@inv
[*] stexts(lines@) == all_lines(arts, $it1.pos())
@loop 2
@inv
[*] stexts(lines@) == all_lines(arts, $it1.pos() - 1) + tag_lines(rcs($x1.requirements.valseq()), $it2.pos())
@loop 3
@inv
[*] w.broken() == old(w).broken()
[*] w.text() == put_all(old(w).text().p(tag_header()), sorted_texts(all_lines(arts, arts.len() as int)), $it3.pos())
@fn formatters/serialize.rs::Requirements::new
@requires
[*] requirements.pos() == 0, errors.pos() == 0
@ensures
[*] ret.version == 0, rcs(ret.requirements@) == sorted_by_id(rcs(unref(requirements.seq()))), ret.errors@ == sorted_by_text(unref(errors.seq()))
@loop 1
@inv
[*] rcs($acc1@) == rcs(unref(requirements.seq())).take($it1.pos())
@post
assert(rcs(unref(requirements.seq())).take(requirements.seq().len() as int) =~= rcs(unref(requirements.seq())));
@loop 2
@inv
[*] $acc2@ == unref(errors.seq()).take($it2.pos())
@post
assert(unref(errors.seq()).take(errors.seq().len() as int) =~= unref(errors.seq()));
@fn formatters/serialize.rs::Trace::new
@ensures
[*] ret.version == 0, *ret.trace == *trace
@fn formatters/mod.rs::unsupported
@fn formatters/mod.rs::requirements
@ensures
[*] ret is Ok ==> report_reqs(old(writer).text(), *format, graph.artefacts.valseq()) == Some(final(writer).text()) && final(writer).broken() == old(writer).broken()
[*] ret is Err ==> final(writer).broken() || report_reqs(old(writer).text(), *format, graph.artefacts.valseq()) is None
@loop 1
@inv
[*] rcs(unref($acc1@)) == art_reqs(graph.artefacts.valseq(), $it1.pos())
@loop 2
@inv
[*] rcs(unref($acc1@)) == art_reqs(graph.artefacts.valseq(), $it1.pos() - 1) + rcs($x1.requirements.valseq()).take($it2.pos())
@loop 3
@inv
[*] unref($acc3@) == art_errs(graph.artefacts.valseq(), $it3.pos())
@loop 4
@inv
[*] unref($acc3@) == art_errs(graph.artefacts.valseq(), $it3.pos() - 1) + $x3.errors@.take($it4.pos())
@fn formatters/mod.rs::tracing
@requires
[*] tg_ok(*traced_graph)
@ensures
[*] ret is Ok ==> final(writer).broken() == old(writer).broken() && (match *format {
    Format::GnuError => final(writer).text() == gnu_report(old(writer).text(), *traced_graph),
    Format::Markdown => exists|ag: AggregatedGraph| #[trigger] md_report(old(writer).text(), ag) == final(writer).text() && ag_of(ag, *traced_graph),
    Format::Json => final(writer).text() == old(writer).text().p(json_trace(0, *traced_graph)),
    _ => false })
[*] ret is Err ==> final(writer).broken() || !(*format is GnuError || *format is Markdown || *format is Json)
[C18] ret is Ok && *format is Markdown ==> exists|ag: AggregatedGraph| #[trigger] md_report(old(writer).text(), ag) == final(writer).text() && ag_of(ag, *traced_graph) && view_of(ag, *traced_graph)
