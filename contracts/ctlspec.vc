@include loadspec
@include ctltypes
@spec
// ===== configurations that can be loaded: different artefacts, relations between known ones
spec fn art_known(cas: Seq<ArtefactConfig>, n: int, a: ArtefactId) -> bool decreases n { n > 0 && (cas[n - 1].id == a || art_known(cas, n - 1, a)) }
proof fn known_at(cas: Seq<ArtefactConfig>, n: int, i: int) requires 0 <= i < n <= cas.len() ensures art_known(cas, n, cas[i].id) decreases n { if i < n - 1 { known_at(cas, n - 1, i); } }
proof fn known_all(cas: Seq<ArtefactConfig>, n: int) requires n <= cas.len() ensures forall|i: int| 0 <= i < n ==> art_known(cas, n, (#[trigger] cas[i]).id)
{ assert forall|i: int| 0 <= i < n implies art_known(cas, n, (#[trigger] cas[i]).id) by { known_at(cas, n, i); } }
spec fn distinct(cas: Seq<ArtefactConfig>, n: int) -> bool decreases n { n > 0 ==> !art_known(cas, n - 1, cas[n - 1].id) && distinct(cas, n - 1) }
proof fn distinct_part(cas: Seq<ArtefactConfig>, n: int, m: int) requires distinct(cas, n), 0 <= m <= n ensures distinct(cas, m) decreases n { if m < n { distinct_part(cas, n - 1, m); } }
spec fn rel_known(cas: Seq<ArtefactConfig>, r: Relation) -> bool { art_known(cas, cas.len() as int, r.upper) && forall|j: int| 0 <= j < r.lower@.len() ==> art_known(cas, cas.len() as int, #[trigger] r.lower@[j]) }
spec fn cfg_ok(c: Config) -> bool { distinct(c.artefacts@, c.artefacts@.len() as int) && forall|i: int| 0 <= i < c.relations@.len() ==> rel_known(c.artefacts@, #[trigger] c.relations@[i]) }
// ===== what is made of the artefacts of a configuration
spec fn has(s: Seq<ArtefactId>, n: int, a: ArtefactId) -> bool decreases n { n > 0 && (s[n - 1] == a || has(s, n - 1, a)) }
spec fn is_low(rels: Seq<Relation>, n: int, a: ArtefactId) -> bool decreases n { n > 0 && (has(rels[n - 1].lower@, rels[n - 1].lower@.len() as int, a) || is_low(rels, n - 1, a)) }
spec fn untitled(acc: Seq<Error>, rs: Seq<Rc<Requirement>>, n: int) -> Seq<Error> decreases n {
    if n <= 0 { acc } else { let s = untitled(acc, rs, n - 1); if rs[n - 1].title is None { s.push(Error::RequirementWithoutTitle(rs[n - 1])) } else { s } } }
spec fn art_options(c: ArtefactConfig, rels: Seq<Relation>, a: Artefact) -> bool {
    &&& a.ignore_derived_requirements == (match c.ignore_derived_requirements { Some(b) => b, None => !is_low(rels, rels.len() as int, c.id) })
    &&& a.reference_with_title == (match c.reference_with_title { Some(b) => b, None => false }) }
#[verifier::opaque]
spec fn content_ok(c: ArtefactConfig, base: PathBuf, reqs: BTreeMap<RequirementId, Rc<Requirement>>, errors: Seq<Error>, demanded: bool) -> bool {
    exists|errs: Seq<Error>| #[trigger] artefact_ok(c, base, reqs@, errs) && errors == (if demanded { untitled(errs, reqs.valseq(), reqs.valseq().len() as int) } else { errs }) }
spec fn art_content(c: ArtefactConfig, base: PathBuf, a: Artefact) -> bool { content_ok(c, base, a.requirements, a.errors@, a.reference_with_title) }
