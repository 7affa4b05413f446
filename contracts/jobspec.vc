@include ctltypes
@spec
// ===== what a job finds
spec fn any_art_errs(arts: Seq<Rc<Artefact>>, n: int) -> bool decreases n { n > 0 && (arts[n - 1].errors@.len() > 0 || any_art_errs(arts, n - 1)) }
spec fn jany_unc(trs: Seq<TracedRelation>, n: int) -> bool decreases n { n > 0 && (trs[n - 1].uncovered@.len() > 0 || jany_unc(trs, n - 1)) }
spec fn jany_der(ds: Seq<Vec<RequirementId>>, n: int) -> bool decreases n { n > 0 && (ds[n - 1]@.len() > 0 || jany_der(ds, n - 1)) }
proof fn any_art_at(s: Seq<Rc<Artefact>>, n: int, i: int) requires 0 <= i < n <= s.len(), s[i].errors@.len() > 0 ensures any_art_errs(s, n) decreases n { if i < n - 1 { any_art_at(s, n - 1, i); } }
proof fn jany_unc_at(s: Seq<TracedRelation>, n: int, i: int) requires 0 <= i < n <= s.len(), s[i].uncovered@.len() > 0 ensures jany_unc(s, n) decreases n { if i < n - 1 { jany_unc_at(s, n - 1, i); } }
proof fn jany_der_at(s: Seq<Vec<RequirementId>>, n: int, i: int) requires 0 <= i < n <= s.len(), s[i]@.len() > 0 ensures jany_der(s, n) decreases n { if i < n - 1 { jany_der_at(s, n - 1, i); } }
spec fn arts_bad(arts: BTreeMap<ArtefactId, Rc<Artefact>>) -> bool { any_art_errs(arts.valseq(), arts.valseq().len() as int) }
spec fn trace_bad(t: TracedGraph) -> bool {
    t.errors@.len() > 0 || arts_bad(t.artefacts) || jany_unc(t.traced_relations@, t.traced_relations@.len() as int) || jany_der(t.derived.valseq(), t.derived.valseq().len() as int) }
spec fn job_bad(c: Controller, j: Job) -> bool { match j.query { Query::Trace => trace_bad(c.traced_graph), Query::Parse => arts_bad(c.graph.artefacts) } }
// combinations of query and format there are reports for
spec fn supported(j: Job) -> bool { match j.query { Query::Trace => j.format is GnuError || j.format is Markdown || j.format is Json,
    Query::Parse => j.format is Json || j.format is Markdown || j.format is Tags } }
// ===== running jobs
// that run(job) has been called and has succeeded
pub uninterp spec fn ran_ok(c: Controller, j: Job) -> bool;
pub axiom fn note_run(c: Controller, j: Job) ensures ran_ok(c, j);
// the jobs named on the command line
pub uninterp spec fn asked() -> Seq<String>;
spec fn requested(c: Controller) -> Seq<String> { if asked().len() == 0 { c.default_jobs@ } else { asked() } }
spec fn all_named(c: Controller, names: Seq<String>) -> bool { forall|i: int| 0 <= i < names.len() ==> c.jobs@.contains_key(#[trigger] names[i]) }
spec fn jobs_of(c: Controller, names: Seq<String>) -> Seq<Job> { Seq::new(names.len(), |i: int| c.jobs@[names[i]]) }
// a job may be run if all requested names are known and the ones before it were run successfully
spec fn turn(c: Controller, i: int, j: Job) -> bool { 0 <= i < requested(c).len() && j == jobs_of(c, requested(c))[i] && forall|k: int| 0 <= k < i ==> ran_ok(c, #[trigger] jobs_of(c, requested(c))[k]) }
spec fn may_run(c: Controller, j: Job) -> bool { all_named(c, requested(c)) && exists|i: int| #[trigger] turn(c, i, j) }
spec fn counts(c: Controller, j: Job) -> bool { job_bad(c, j) && j.set_return_code != Some(false) }
spec fn any_counts(c: Controller, js: Seq<Job>, n: int) -> bool decreases n { n > 0 && (counts(c, js[n - 1]) || any_counts(c, js, n - 1)) }
spec fn any_unsupported(js: Seq<Job>, n: int) -> bool decreases n { n > 0 && (!supported(js[n - 1]) || any_unsupported(js, n - 1)) }
proof fn unsupported_at(s: Seq<Job>, n: int, i: int) requires 0 <= i < n <= s.len(), !supported(s[i]) ensures any_unsupported(s, n) decreases n { if i < n - 1 { unsupported_at(s, n - 1, i); } }
spec fn all_ran(c: Controller, js: Seq<Job>, n: int) -> bool { forall|i: int| 0 <= i < n ==> ran_ok(c, #[trigger] js[i]) }
// the result of running jobs: what was found, or that something could not be run
spec fn run_result(c: Controller, js: Seq<Job>, r: Result<JobSuccess, ControllerError>) -> bool {
    match r { Ok(s) => (s is ErrorsDetected <==> any_counts(c, js, js.len() as int)) && !any_unsupported(js, js.len() as int),
              Err(_) => io::io_trouble() || any_unsupported(js, js.len() as int) } }
spec fn names_result(c: Controller, names: Seq<String>, r: Result<JobSuccess, ControllerError>) -> bool {
    if all_named(c, names) { run_result(c, jobs_of(c, names), r) } else { r is Err } }
