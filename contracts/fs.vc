@include text
@types ArtefactParser ArtefactConfig
@spec
// ===== paths, files and patterns (assumed contracts of std::path, std::fs, glob and serde_json)
// The file system is a function of the path that does not change while an artefact is loaded.
type Path = PathBuf;
pub uninterp spec fn path_of(s: Seq<char>) -> PathBuf;
pub uninterp spec fn path_join(a: PathBuf, b: PathBuf) -> PathBuf;
pub uninterp spec fn path_relative(a: PathBuf) -> bool;
pub trait VPath { spec fn pth(&self) -> PathBuf; }
impl VPath for String { open spec fn pth(&self) -> PathBuf { path_of(self@) } }
impl VPath for str { open spec fn pth(&self) -> PathBuf { path_of(self@) } }
impl VPath for PathBuf { open spec fn pth(&self) -> PathBuf { *self } }
impl<'a, T: VPath + ?Sized> VPath for &'a T { open spec fn pth(&self) -> PathBuf { (**self).pth() } }
impl PathBuf {
    #[verifier::external_body]
    pub fn new<P: VPath + ?Sized>(p: &P) -> (r: &PathBuf) ensures *r == p.pth() { unimplemented!() }
    #[verifier::external_body]
    pub fn from<P: VPath>(p: P) -> (r: PathBuf) ensures r == p.pth() { unimplemented!() }
    #[verifier::external_body]
    pub fn vjoin<P: VPath + ?Sized>(&self, p: &P) -> (r: PathBuf) ensures r == path_join(*self, p.pth()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_relative(&self) -> (r: bool) ensures r == path_relative(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_absolute(&self) -> (r: bool) ensures r == !path_relative(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vto_owned(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn vto_path_buf(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&PathBuf>) { unimplemented!() }
    #[verifier::external_body] pub fn as_os_str(&self) -> (r: &str) ensures r@ == os_text(*self) { unimplemented!() }
}
// what a file is called, without its extension
#[verifier::external_body] pub struct OsStr { x: u8 }
impl VShow for OsStr { uninterp spec fn shown(&self) -> Seq<char>; }
impl OsStr { #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: String) ensures r@ == self.shown() { unimplemented!() } }
pub uninterp spec fn stem(p: PathBuf) -> Option<Seq<char>>;
impl PathBuf { #[verifier::external_body] pub fn file_stem(&self) -> (r: Option<&OsStr>) ensures match r { Some(s) => stem(*self) == Some(s.shown()), None => stem(*self) is None } { unimplemented!() } }
pub uninterp spec fn os_text(p: PathBuf) -> Seq<char>;
impl VInto<PathBuf> for &PathBuf { open spec fn vinto_spec(self) -> PathBuf { *self } #[verifier::external_body] fn vinto(self) -> (r: PathBuf) { unimplemented!() } }
impl VDebug for Vec<String> { uninterp spec fn dbg(&self) -> Seq<char>; uninterp spec fn dbg_alt(&self) -> Seq<char>; }
impl VDebug for ArtefactParser { uninterp spec fn dbg(&self) -> Seq<char>; uninterp spec fn dbg_alt(&self) -> Seq<char>; }
pub uninterp spec fn fs_open(p: PathBuf) -> core::result::Result<Content, io::Error>;
pub mod fs { use super::*; use super::io::Read; use super::io::Write;
#[verifier::external_body] pub struct File { x: u8 }
impl io::Write for File {
    uninterp spec fn text(&self) -> Seq<char>;
    uninterp spec fn broken(&self) -> bool;
    uninterp spec fn valid(&self) -> bool;
    #[verifier::external_body] fn write_vbuf(&mut self, b: VBuf) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body] fn vwrite_all(&mut self, b: &[u8]) -> (r: io::Result<()>) { unimplemented!() }
}
#[verifier::external_body]
pub fn create_dir_all<P: VPath + ?Sized>(p: &P) -> (r: io::Result<()>) ensures r is Err ==> io::io_trouble() { unimplemented!() }
pub uninterp spec fn bytes_of(p: PathBuf) -> core::result::Result<Seq<u8>, io::Error>;
#[verifier::external_body]
pub fn read<P: VPath + ?Sized>(p: &P) -> (r: io::Result<Vec<u8>>) ensures match bytes_of(p.pth()) { Ok(b) => r is Ok && r->Ok_0@ == b, Err(e) => r == io::Result::<Vec<u8>>::Err(e) } { unimplemented!() }
impl io::Read for File { uninterp spec fn content(&self) -> Content; }
impl File {
    #[verifier::external_body]
    pub fn create<P: VPath + ?Sized>(p: &P) -> (r: io::Result<File>) ensures match r { Ok(f) => !f.broken() && f.text() == Seq::<char>::empty(), Err(_) => io::io_trouble() } { unimplemented!() }
    #[verifier::external_body]
    pub fn open<P: VPath + ?Sized>(p: &P) -> (r: io::Result<File>) ensures match fs_open(p.pth()) { Ok(c) => r is Ok && r->Ok_0.content() == c, Err(e) => r == io::Result::<File>::Err(e) } { unimplemented!() }
}
}
pub mod glob { use super::*;
#[verifier::external_body] pub struct PatternError { x: u8 }
#[verifier::external_body] pub struct GlobError { x: u8 }
#[verifier::external_body] pub struct Paths { x: u8 }
pub type GlobResult = core::result::Result<PathBuf, GlobError>;
pub uninterp spec fn pattern_text(e: PatternError) -> Seq<char>;
pub uninterp spec fn glob_text(e: GlobError) -> Seq<char>;
pub uninterp spec fn glob_path(e: GlobError) -> PathBuf;
impl VShow for PatternError { open spec fn shown(&self) -> Seq<char> { pattern_text(*self) } }
impl VShow for GlobError { open spec fn shown(&self) -> Seq<char> { glob_text(*self) } }
impl GlobError { #[verifier::external_body] pub fn path(&self) -> (r: &PathBuf) ensures *r == glob_path(*self) { unimplemented!() } }
pub uninterp spec fn globbed(pattern: Seq<char>) -> core::result::Result<Seq<GlobResult>, PatternError>;
impl Paths { pub uninterp spec fn found(&self) -> Seq<GlobResult>; }
impl IntoSnap for Paths { type Item = GlobResult;
    open spec fn snap_seq(self) -> Seq<GlobResult> { self.found() }
    #[verifier::external_body] fn into_snap(self) -> Snap<GlobResult> { unimplemented!() } }
#[verifier::external_body]
pub fn glob(p: &str) -> (r: core::result::Result<Paths, PatternError>) ensures match globbed(p@) { Ok(s) => r is Ok && r->Ok_0.found() == s, Err(e) => r == core::result::Result::<Paths, PatternError>::Err(e) } { unimplemented!() }
}
