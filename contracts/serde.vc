@include text
@spec
pub trait VJson { spec fn json(&self) -> Seq<char>; }
pub mod serde_json { use super::*;
#[verifier::external_body] pub struct Error { x: u8 }
pub uninterp spec fn json_text(e: Error) -> Seq<char>;
impl VShow for Error { open spec fn shown(&self) -> Seq<char> { json_text(*self) } }
#[verifier::external_body]
pub fn to_writer_pretty<W: io::Write, T: VJson>(w: &mut W, x: &T) -> (r: Result<(), Error>)
    ensures r is Ok ==> final(w).text() == old(w).text().p(x.json()) && final(w).broken() == old(w).broken(), r is Err ==> final(w).broken() { unimplemented!() }
pub trait VDeserialize: Sized { spec fn parsed(self, c: Content) -> bool; spec fn refused(c: Content, e: Error) -> bool; }
#[verifier::external_body]
pub fn from_reader<R: io::Read, T: VDeserialize>(r: R) -> (ret: core::result::Result<T, Error>) ensures match ret { Ok(t) => t.parsed(r.content()), Err(e) => T::refused(r.content(), e) } { unimplemented!() }
}
