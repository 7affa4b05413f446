@include fs
@include serde
@deserde Requirement
@deserde Reference
@deserde RequirementId
@deserde Location
@deserde LocationInFile
@note serde_json reads requirements as the derived Deserialize implementations say (attributes checked)
@spec
pub uninterp spec fn json_loaded(c: Content) -> core::result::Result<Seq<Rc<Requirement>>, serde_json::Error>;
impl serde_json::VDeserialize for Vec<Rc<Requirement>> {
    open spec fn parsed(self, c: Content) -> bool { json_loaded(c) == core::result::Result::<Seq<Rc<Requirement>>, serde_json::Error>::Ok(self@) }
    open spec fn refused(c: Content, e: serde_json::Error) -> bool { json_loaded(c) == core::result::Result::<Seq<Rc<Requirement>>, serde_json::Error>::Err(e) }
}
// ===== what the parsers make of a file
pub uninterp spec fn mdp_reqs(c: Content, p: PathBuf) -> Seq<Rc<Requirement>>;
pub uninterp spec fn mdp_errs(c: Content, p: PathBuf) -> Seq<Error>;
pub uninterp spec fn mono_reqs(c: Content, p: PathBuf) -> Seq<Rc<Requirement>>;
pub uninterp spec fn mono_errs(c: Content, p: PathBuf) -> Seq<Error>;
pub uninterp spec fn rust_reqs(c: Content, p: PathBuf) -> Seq<Rc<Requirement>>;
pub uninterp spec fn rust_errs(c: Content, p: PathBuf) -> Seq<Error>;
// ===== loading an artefact
struct Load { paths: Seq<PathBuf>, reqs: Seq<Rc<Requirement>>, errs: Seq<Error> }
spec fn io_err(p: PathBuf, t: Seq<char>) -> Error { Error::Io(p, string_of(t)) }
spec fn file_reqs(k: ArtefactParser, p: PathBuf) -> Seq<Rc<Requirement>> { match fs_open(p) { Err(_) => Seq::empty(), Ok(c) => match k {
    ArtefactParser::Markdown => mdp_reqs(c, p), ArtefactParser::Rust => rust_reqs(c, p), ArtefactParser::MonoRequirement => mono_reqs(c, p),
    ArtefactParser::Json => match json_loaded(c) { Ok(r) => r, Err(_) => Seq::empty() } } } }
spec fn file_errs(k: ArtefactParser, p: PathBuf) -> Seq<Error> { match fs_open(p) { Err(e) => seq![io_err(p, io::io_text(e))], Ok(c) => match k {
    ArtefactParser::Markdown => mdp_errs(c, p), ArtefactParser::Rust => rust_errs(c, p), ArtefactParser::MonoRequirement => mono_errs(c, p),
    ArtefactParser::Json => match json_loaded(c) { Ok(_) => Seq::empty(), Err(e) => seq![Error::Format(Location { file: p, location_in_file: None }, string_of(serde_json::json_text(e)))] } } } }
spec fn files_reqs(k: ArtefactParser, p: Seq<PathBuf>, n: int) -> Seq<Rc<Requirement>> decreases n { if n <= 0 { Seq::empty() } else { files_reqs(k, p, n - 1) + file_reqs(k, p[n - 1]) } }
spec fn files_errs(k: ArtefactParser, p: Seq<PathBuf>, n: int) -> Seq<Error> decreases n { if n <= 0 { Seq::empty() } else { files_errs(k, p, n - 1) + file_errs(k, p[n - 1]) } }
// the files the patterns of an artefact stand for, in the order of the patterns and their matches, or the first error
spec fn pattern(base: PathBuf, p: String) -> Seq<char> { if path_relative(path_of(p@)) { path_text(base).p("/"@).p(p@) } else { p@ } }
spec fn matches(acc: Seq<PathBuf>, found: Seq<glob::GlobResult>, n: int) -> Result<Seq<PathBuf>, Error> decreases n {
    if n <= 0 { Ok(acc) } else { match matches(acc, found, n - 1) { Err(e) => Err(e), Ok(s) => match found[n - 1] {
        Ok(p) => Ok(s.push(p)), Err(e) => Err(io_err(glob::glob_path(e), glob::glob_text(e))) } } }
}
spec fn globs(base: PathBuf, ps: Seq<String>, n: int) -> Result<Seq<PathBuf>, Error> decreases n {
    if n <= 0 { Ok(Seq::empty()) } else { match globs(base, ps, n - 1) { Err(e) => Err(e), Ok(s) => match glob::globbed(pattern(base, ps[n - 1])) {
        Err(e) => Err(io_err(path_of(ps[n - 1]@), glob::pattern_text(e))), Ok(found) => matches(s, found, found.len() as int) } } }
}
proof fn matches_stop(acc: Seq<PathBuf>, found: Seq<glob::GlobResult>, n: int, m: int) requires n <= m, matches(acc, found, n) is Err ensures matches(acc, found, m) == matches(acc, found, n) decreases m - n { if n < m { matches_stop(acc, found, n, m - 1); } }
proof fn globs_stop(base: PathBuf, ps: Seq<String>, n: int, m: int) requires n <= m, globs(base, ps, n) is Err ensures globs(base, ps, m) == globs(base, ps, n) decreases m - n { if n < m { globs_stop(base, ps, n, m - 1); } }
spec fn paths_of(ps: Seq<String>) -> Seq<PathBuf> { Seq::new(ps.len(), |i: int| path_of(ps[i]@)) }
spec fn config_errs(s: Seq<Error>) -> bool { s.len() == 1 && s[0] is Config }
spec fn single_ok(c: ArtefactConfig, base: PathBuf, l: Load) -> bool {
    if c.paths@.len() != 1 { l.reqs.len() == 0 && config_errs(l.errs) } else { let p = path_join(base, path_of(c.paths@[0]@));
        l == Load { paths: seq![p], reqs: file_reqs(c.parser, p), errs: file_errs(c.parser, p) } } }
spec fn multi_ok(c: ArtefactConfig, base: PathBuf, l: Load) -> bool {
    if c.paths@.len() == 0 { l.reqs.len() == 0 && config_errs(l.errs) } else { match globs(base, c.paths@, c.paths@.len() as int) {
        Err(e) => l.reqs.len() == 0 && l.errs == seq![e],
        Ok(ps) => l == Load { paths: ps, reqs: files_reqs(c.parser, ps, ps.len() as int), errs: files_errs(c.parser, ps, ps.len() as int) } } } }
// what is read for an artefact
spec fn load_ok(c: ArtefactConfig, base: PathBuf, l: Load) -> bool { if c.parser is Rust { multi_ok(c, base, l) } else { single_ok(c, base, l) } }
// the first definition of each id, and an error for every further one
spec fn kept(rs: Seq<Rc<Requirement>>, n: int) -> Map<RequirementId, Rc<Requirement>> decreases n {
    if n <= 0 { Map::empty() } else { let m = kept(rs, n - 1); if m.contains_key(rs[n - 1].id) { m } else { m.insert(rs[n - 1].id, rs[n - 1]) } } }
spec fn dups(acc: Seq<Error>, rs: Seq<Rc<Requirement>>, n: int) -> Seq<Error> decreases n {
    if n <= 0 { acc } else { let s = dups(acc, rs, n - 1); let m = kept(rs, n - 1);
        if m.contains_key(rs[n - 1].id) { s.push(Error::DuplicateRequirement(m[rs[n - 1].id], rs[n - 1])) } else { s } } }
proof fn kept_keyed(rs: Seq<Rc<Requirement>>, n: int) ensures forall|k: RequirementId| #[trigger] kept(rs, n).contains_key(k) ==> kept(rs, n)[k].id == k decreases n { if n > 0 { kept_keyed(rs, n - 1); } }
#[verifier::opaque]
spec fn artefact_ok(c: ArtefactConfig, base: PathBuf, reqs: Map<RequirementId, Rc<Requirement>>, errs: Seq<Error>) -> bool {
    exists|l: Load| #[trigger] load_ok(c, base, l) && reqs == kept(l.reqs, l.reqs.len() as int) && errs == dups(l.errs, l.reqs, l.reqs.len() as int) }
