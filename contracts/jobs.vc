@import exports
@include jobspec
@spec
#[verifier::external_body] pub struct Instant { x: u8 }
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } }
@fn controller.rs::Controller::find_job
@ensures
[*] match ret { Some(j) => self.jobs@.contains_key(string_of(job@)) && *j == self.jobs@[string_of(job@)], None => !self.jobs@.contains_key(string_of(job@)) }
@fn controller.rs::Controller::run
@requires
[*] ctl_ok(*self)
[C10] may_run(*self, *job)
@begin
broadcast use io::axiom_trouble;
@ensures
[*] ret is Ok ==> (ret->Ok_0 is ErrorsDetected <==> job_bad(*self, *job)) && supported(*job)
[*] ret is Err ==> io::io_trouble() || !supported(*job)
[C10] ret is Ok ==> ran_ok(*self, *job)
@loop 1
@inv
[*] !$acc1 && !any_art_errs(self.traced_graph.artefacts.valseq(), $it1.pos())
@post
proof { if $acc1 { any_art_at(self.traced_graph.artefacts.valseq(), self.traced_graph.artefacts.valseq().len() as int, $it1.pos() - 1); } }
@loop 2
@inv
[*] !$acc2 && !jany_unc(self.traced_graph.traced_relations@, $it2.pos())
@post
proof { if $acc2 { jany_unc_at(self.traced_graph.traced_relations@, self.traced_graph.traced_relations@.len() as int, $it2.pos() - 1); } }
@loop 3
@inv
[*] !$acc3 && !jany_der(self.traced_graph.derived.valseq(), $it3.pos())
@post
proof { if $acc3 { jany_der_at(self.traced_graph.derived.valseq(), self.traced_graph.derived.valseq().len() as int, $it3.pos() - 1); } }
@loop 4
@inv
[*] !$acc4 && !any_art_errs(self.graph.artefacts.valseq(), $it4.pos())
@post
proof { if $acc4 { any_art_at(self.graph.artefacts.valseq(), self.graph.artefacts.valseq().len() as int, $it4.pos() - 1); } }
@finish
[C10] proof { if !out.broken() { note_run(*self, *job); } }
@fn controller.rs::Controller::run_jobs
@requires
[*] ctl_ok(*self), jobs@.len() == job_names@.len()
[C10] requested(*self).len() == jobs@.len(), unref(jobs@) == jobs_of(*self, requested(*self)), all_named(*self, requested(*self))
@ensures
[*] run_result(*self, unref(jobs@), ret)
[C10] ret is Ok ==> all_ran(*self, unref(jobs@), jobs@.len() as int)
@begin
let ghost js = unref(jobs@);
@loop 1
@inv
[*] $s1.len() == js.len() && forall|i: int| 0 <= i < $s1.len() ==> **(#[trigger] $s1[i]).0 == js[i]
[C10] all_ran(*self, js, $it1.pos())
[*] success is ErrorsDetected <==> any_counts(*self, js, $it1.pos())
[*] !any_unsupported(js, $it1.pos())
@head
proof { if !supported(js[$it1.pos() - 1]) { unsupported_at(js, js.len() as int, $it1.pos() - 1); } }
[C10] assert(turn(*self, $it1.pos() - 1, **$x1.0));
@fn controller.rs::Controller::run_jobs_by_name
@requires
[*] ctl_ok(*self)
[C10] job_names@ == requested(*self)
@ensures
[*] names_result(*self, job_names@, ret)
[C10] ret is Ok ==> all_named(*self, job_names@) && all_ran(*self, jobs_of(*self, job_names@), job_names@.len() as int)
@type jobs Vec<&Job>
@acc 1 Vec<&Job>
@loop 1
@inv
[*] jobs@.len() == $it1.pos() && forall|i: int| 0 <= i < $it1.pos() ==> #[trigger] *jobs@[i] == self.jobs@[job_names@[i]] ||| $acc1@.len() == $it1.pos() && forall|i: int| 0 <= i < $it1.pos() ==> #[trigger] *$acc1@[i] == self.jobs@[job_names@[i]]
[*] forall|i: int| 0 <= i < $it1.pos() ==> self.jobs@.contains_key(#[trigger] job_names@[i])
@post
assert(unref(jobs@) =~= jobs_of(*self, job_names@)); ||| assert(unref($acc1@) =~= jobs_of(*self, job_names@));
@fn controller.rs::Controller::run_default_jobs
@requires
[*] ctl_ok(*self)
[C10] asked().len() == 0
@ensures
[*] self.default_jobs@.len() == 0 ==> ret is Err
[*] self.default_jobs@.len() > 0 ==> names_result(*self, self.default_jobs@, ret)
[C10] ret is Ok ==> all_named(*self, self.default_jobs@) && all_ran(*self, jobs_of(*self, self.default_jobs@), self.default_jobs@.len() as int)
