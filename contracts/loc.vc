@include text
@derive Location PartialOrd PartialEq
@derive LocationInFile PartialEq
@only models.rs::LocationInFile::PartialOrd::
@order Location location_cmp
@note the derived order of a struct compares its fields in declared order up to the first that is not equal (its expansion is generated and verified against location_cmp); None sorts before Some (standard library)
@spec
pub trait VCmp: Sized {
    spec fn cmp_to(&self, o: &Self) -> Ordering;
    fn vcmp(&self, o: &Self) -> (r: Ordering) ensures r == self.cmp_to(o);
    fn vpartial_cmp(&self, o: &Self) -> (r: Option<Ordering>) ensures r == Some(self.cmp_to(o));
}
impl VCmp for usize { open spec fn cmp_to(&self, o: &usize) -> Ordering { num_cmp(*self as int, *o as int) }
    #[verifier::external_body] fn vcmp(&self, o: &usize) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body] fn vpartial_cmp(&self, o: &usize) -> (r: Option<Ordering>) { unimplemented!() } }
impl VCmp for String { open spec fn cmp_to(&self, o: &String) -> Ordering { text_cmp(self@, o@) }
    #[verifier::external_body] fn vcmp(&self, o: &String) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body] fn vpartial_cmp(&self, o: &String) -> (r: Option<Ordering>) { unimplemented!() } }
impl<'a, T: VCmp> VCmp for &'a T { open spec fn cmp_to(&self, o: &&'a T) -> Ordering { (**self).cmp_to(*o) }
    #[verifier::external_body] fn vcmp(&self, o: &&'a T) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body] fn vpartial_cmp(&self, o: &&'a T) -> (r: Option<Ordering>) { unimplemented!() } }
impl<A: VCmp, B: VCmp> VCmp for (A, B) { open spec fn cmp_to(&self, o: &(A, B)) -> Ordering { then_cmp(self.0.cmp_to(&o.0), self.1.cmp_to(&o.1)) }
    #[verifier::external_body] fn vcmp(&self, o: &(A, B)) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body] fn vpartial_cmp(&self, o: &(A, B)) -> (r: Option<Ordering>) { unimplemented!() } }
pub trait VThen { spec fn ord(self) -> Ordering; fn vthen(self, o: Ordering) -> (r: Ordering) ensures r == then_cmp(self.ord(), o); fn vreverse(self) -> (r: Ordering) ensures r == opposite(self.ord()); }
impl VThen for Ordering { open spec fn ord(self) -> Ordering { self }
    #[verifier::external_body] fn vthen(self, o: Ordering) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body] fn vreverse(self) -> (r: Ordering) { unimplemented!() } }
// by line, then column; a missing column counts as 0
pub open spec fn at(l: LocationInFile) -> Option<(int, int)> { match l { LocationInFile::Line(n) => Some((n as int, 0)), LocationInFile::LineAndColumn(n, c) => Some((n as int, c as int)), LocationInFile::String(_) => None } }
pub open spec fn loc_cmp(a: LocationInFile, b: LocationInFile) -> Option<Ordering> { match (at(a), at(b)) {
    (Some(p), Some(q)) => Some(then_cmp(num_cmp(p.0, q.0), num_cmp(p.1, q.1))),
    (None, None) => Some(text_cmp(a->String_0@, b->String_0@)),
    _ => None } }
proof fn loc_cmp_opposite(a: LocationInFile, b: LocationInFile) ensures loc_cmp(b, a) == (match loc_cmp(a, b) { Some(o) => Some(opposite(o)), None => None })
{ if a is String && b is String { axiom_text_cmp(a->String_0@, b->String_0@); } }
proof fn loc_cmp_transitive(a: LocationInFile, b: LocationInFile, c: LocationInFile)
    requires !(a is String), loc_cmp(a, b) == Some(Ordering::Less), loc_cmp(b, c) == Some(Ordering::Less)
    ensures loc_cmp(a, c) == Some(Ordering::Less) { }
// a location: by file, then by the place in it
pub uninterp spec fn path_cmp(a: PathBuf, b: PathBuf) -> Ordering;
pub axiom fn axiom_path_cmp(a: PathBuf, b: PathBuf) ensures path_cmp(b, a) == opposite(path_cmp(a, b)), a == b ==> path_cmp(a, b) == Ordering::Equal;
pub open spec fn opt_cmp(a: Option<LocationInFile>, b: Option<LocationInFile>) -> Option<Ordering> { match (a, b) {
    (None, None) => Some(Ordering::Equal), (None, Some(_)) => Some(Ordering::Less), (Some(_), None) => Some(Ordering::Greater), (Some(p), Some(q)) => loc_cmp(p, q) } }
pub trait VPCmp: Sized { spec fn pcmp_to(&self, o: &Self) -> Option<Ordering>; fn vpcmp(&self, o: &Self) -> (r: Option<Ordering>) ensures r == self.pcmp_to(o); }
impl VPCmp for PathBuf { open spec fn pcmp_to(&self, o: &PathBuf) -> Option<Ordering> { Some(path_cmp(*self, *o)) }
    #[verifier::external_body] fn vpcmp(&self, o: &PathBuf) -> (r: Option<Ordering>) { unimplemented!() } }
impl VPCmp for LocationInFile { open spec fn pcmp_to(&self, o: &LocationInFile) -> Option<Ordering> { loc_cmp(*self, *o) }
    fn vpcmp(&self, o: &LocationInFile) -> (r: Option<Ordering>) { self.partial_cmp(o) } }
impl VPCmp for Option<LocationInFile> { open spec fn pcmp_to(&self, o: &Option<LocationInFile>) -> Option<Ordering> { opt_cmp(*self, *o) }
    fn vpcmp(&self, o: &Option<LocationInFile>) -> (r: Option<Ordering>) { match (self, o) { (None, None) => Some(Ordering::Equal), (None, Some(_)) => Some(Ordering::Less), (Some(_), None) => Some(Ordering::Greater), (Some(p), Some(q)) => p.vpcmp(q) } } }
fn is_equal(o: &Option<Ordering>) -> (r: bool) ensures r == (*o == Some(Ordering::Equal)) { match o { Some(Ordering::Equal) => true, _ => false } }
pub open spec fn location_cmp(a: Location, b: Location) -> Option<Ordering> {
    if path_cmp(a.file, b.file) == Ordering::Equal { opt_cmp(a.location_in_file, b.location_in_file) } else { Some(path_cmp(a.file, b.file)) } }
proof fn location_cmp_opposite(a: Location, b: Location) ensures location_cmp(b, a) == (match location_cmp(a, b) { Some(o) => Some(opposite(o)), None => None })
{ axiom_path_cmp(a.file, b.file); if a.location_in_file is Some && b.location_in_file is Some { loc_cmp_opposite(a.location_in_file->Some_0, b.location_in_file->Some_0); } }
proof fn location_cmp_in_file(a: Location, b: Location)
    requires a.file == b.file, a.location_in_file is Some, b.location_in_file is Some
    ensures location_cmp(a, b) == loc_cmp(a.location_in_file->Some_0, b.location_in_file->Some_0)
{ axiom_path_cmp(a.file, b.file); }
@fn models.rs::LocationInFile::PartialOrd::partial_cmp
@ensures
[*] ret == loc_cmp(*self, *other)
