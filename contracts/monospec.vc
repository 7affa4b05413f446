@include fs
@spec
impl VInto<RequirementId> for &str { open spec fn vinto_spec(self) -> RequirementId { RequirementId(string_of(self@)) } #[verifier::external_body] fn vinto(self) -> (r: RequirementId) { unimplemented!() } }
impl VInto<RequirementId> for String { open spec fn vinto_spec(self) -> RequirementId { RequirementId(self) } #[verifier::external_body] fn vinto(self) -> (r: RequirementId) { unimplemented!() } }
spec fn ref_of(g: Seq<Option<Seq<char>>>, i: int, at: Location) -> Reference {
    Reference { id: RequirementId(string_of(g[i]->Some_0)), title: match g[i + 1] { Some(t) => Some(string_of(t)), None => None }, location: at } }
spec fn line_at(p: PathBuf, n: int) -> Location { Location { file: p, location_in_file: Some(LocationInFile::Line(n as usize)) } }
// a requirement is determined by its parts
spec fn req_of(id: RequirementId, title: Option<String>, at: Location, covers: Seq<Reference>, depends: Seq<Reference>, attributes: Map<String, String>) -> Requirement {
    Requirement { id, title, location: at, covers: vec_of(covers), depends: vec_of(depends), tags: vec_of(Seq::empty()), attributes: map_of(attributes) } }
proof fn req_parts(q: &Requirement) requires q.tags@ == Seq::<String>::empty() ensures *q == req_of(q.id, q.title, q.location, q.covers@, q.depends@, q.attributes@)
{ axiom_vec_of::<Reference>(q.covers); axiom_vec_of::<Reference>(q.depends); axiom_vec_of::<String>(q.tags); axiom_map_of(q.attributes); }
// ===== mono requirements
spec fn fat_arrow(line: Seq<char>) -> Option<Seq<Option<Seq<char>>>> { re_groups("=>\\s*(\\p{XID_Start}\\p{XID_Continue}+)(?::\\s*(.+?))?\\s*$"@, line) }
spec fn text_line(c: Content, i: int) -> Seq<char> { stripped(chunks(c)[i]) }
// the references in the first n lines; the first line is the title
spec fn mono_refs(c: Content, p: PathBuf, n: int) -> Seq<Reference> decreases n {
    if n <= 1 { Seq::empty() } else { let s = mono_refs(c, p, n - 1); match fat_arrow(text_line(c, n - 1)) {
        Some(g) => s.push(ref_of(g, 1, line_at(p, n))), None => s } } }
spec fn mono_title(c: Content, n: int) -> Option<String> { if n <= 0 { None } else { Some(string_of(text_line(c, 0))) } }
spec fn mono_req(c: Content, p: PathBuf) -> Requirement { let n = chunks(c).len() as int; req_of(
    match stem(p) { Some(s) => RequirementId(string_of(s)), None => RequirementId(string_of("README"@)) }, mono_title(c, n),
    Location { file: p, location_in_file: None }, Seq::empty(), mono_refs(c, p, n), Map::empty()) }
spec fn mono_reqs(c: Content, p: PathBuf) -> Seq<Rc<Requirement>> { seq![Rc::new(mono_req(c, p))] }
spec fn stop_errs(c: Content, p: PathBuf) -> Seq<Error> { match stop(c) { Some(e) => seq![Error::Io(p, string_of(io::io_text(e)))], None => Seq::empty() } }
// the errors are the read error, if there is one, and an error about the file name, if it is of no use
spec fn mono_errs_ok(c: Content, p: PathBuf, errs: Seq<Error>) -> bool {
    if stem(p) is Some { errs == stop_errs(c, p) } else { errs.len() == stop_errs(c, p).len() + 1 && errs.drop_last() == stop_errs(c, p) && errs.last() is Config } }
// errors without their message
spec fn plain(e: Error) -> Error { match e { Error::Format(l, _) => Error::Format(l, string_of(Seq::empty())), _ => e } }
spec fn plains(s: Seq<Error>) -> Seq<Error> { Seq::new(s.len(), |i: int| plain(s[i])) }
broadcast proof fn plains_push(s: Seq<Error>, e: Error) ensures #[trigger] plains(s.push(e)) == plains(s).push(plain(e)) { assert(plains(s.push(e)) =~= plains(s).push(plain(e))); }
