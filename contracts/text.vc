@include models
@broadcast txt::group_text txt::group_refs
@macro WROTE
[*] ret is Ok ==> final(w).text() == $$ && final(w).broken() == old(w).broken()
[*] ret is Err ==> final(w).broken()
@spec
pub use core::cmp::Ordering;
// ===== text, formatting, writers (assumed contracts of std::fmt and std::io)
// Text is a sequence of characters.  A buffer (of write! or format!) collects literal pieces and displayed values.
pub mod txt { use super::*;
pub open spec fn nl() -> Seq<char> { seq!['\n'] }
// t followed by x; opaque, so that the solver compares the pieces of a text rather than its characters
#[verifier::opaque]
pub open spec fn app(t: Seq<char>, x: Seq<char>) -> Seq<char> { t + x }
pub trait PlusText { spec fn p(self, x: Seq<char>) -> Seq<char>; }
impl PlusText for Seq<char> { open spec fn p(self, x: Seq<char>) -> Seq<char> { app(self, x) } }
pub broadcast proof fn app_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] app(a, app(b, c)) == app(app(a, b), c) { reveal(app); assert(a + (b + c) =~= (a + b) + c); }
pub broadcast proof fn app_nil(a: Seq<char>, b: Seq<char>) requires b.len() == 0 ensures #[trigger] app(a, b) == a { reveal(app); assert(a + b =~= a); }
pub broadcast proof fn nil_app(a: Seq<char>, b: Seq<char>) requires a.len() == 0 ensures #[trigger] app(a, b) == b { reveal(app); assert(a + b =~= b); }
pub trait VShow { spec fn shown(&self) -> Seq<char>; }
pub trait VDebug { spec fn dbg(&self) -> Seq<char>; spec fn dbg_alt(&self) -> Seq<char>; }
impl<'a, T: VShow + ?Sized> VShow for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
impl<'a, T: VDebug + ?Sized> VDebug for &'a T { open spec fn dbg(&self) -> Seq<char> { (**self).dbg() } open spec fn dbg_alt(&self) -> Seq<char> { (**self).dbg_alt() } }
impl<T: VShow> VShow for Rc<T> { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
impl VShow for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VShow for str { open spec fn shown(&self) -> Seq<char> { self@ } }
pub open spec fn digit(n: nat) -> char { if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' } }
pub open spec fn decimal(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { decimal(n / 10).push(digit(n % 10)) } }
#[verifier::opaque]
pub open spec fn dec(n: nat) -> Seq<char> { decimal(n) }
impl VShow for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
pub uninterp spec fn dbg_str(s: Seq<char>) -> Seq<char>;
impl VDebug for String { open spec fn dbg(&self) -> Seq<char> { dbg_str(self@) } open spec fn dbg_alt(&self) -> Seq<char> { dbg_str(self@) } }
impl VDebug for [String] { uninterp spec fn dbg(&self) -> Seq<char>; uninterp spec fn dbg_alt(&self) -> Seq<char>; }
impl VDebug for str { open spec fn dbg(&self) -> Seq<char> { dbg_str(self@) } open spec fn dbg_alt(&self) -> Seq<char> { dbg_str(self@) } }
pub uninterp spec fn dbg_error(e: Error) -> Seq<char>;
impl VDebug for Error { open spec fn dbg(&self) -> Seq<char> { dbg_error(*self) } uninterp spec fn dbg_alt(&self) -> Seq<char>; }
pub uninterp spec fn error_text(e: Error) -> Seq<char>;
impl VShow for Error { open spec fn shown(&self) -> Seq<char> { error_text(*self) } }
// the pieces of a buffer, one after the other, behind the text t
#[verifier::opaque]
pub open spec fn cat(t: Seq<char>, p: Seq<Seq<char>>) -> Seq<char> decreases p.len() { if p.len() == 0 { t } else { cat(t, p.drop_last()).p(p.last()) } }
pub broadcast proof fn cat_push(t: Seq<char>, p: Seq<Seq<char>>, x: Seq<char>) ensures #[trigger] cat(t, p.push(x)) == cat(t, p).p(x) { reveal(cat); assert(p.push(x).drop_last() =~= p); }
pub broadcast proof fn cat_nil(t: Seq<char>) ensures #[trigger] cat(t, Seq::<Seq<char>>::empty()) == t { reveal(cat); }
// the text of a buffer alone
#[verifier::opaque]
pub open spec fn flat(p: Seq<Seq<char>>) -> Seq<char> decreases p.len() { if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { flat(p.drop_last()).p(p.last()) } }
pub broadcast proof fn flat_one(x: Seq<char>) ensures #[trigger] flat(Seq::<Seq<char>>::empty().push(x)) == x { reveal(flat); }
pub broadcast proof fn flat_push(p: Seq<Seq<char>>, y: Seq<char>, x: Seq<char>) ensures #[trigger] flat(p.push(y).push(x)) == flat(p.push(y)).p(x) { reveal(flat); assert(p.push(y).push(x).drop_last() =~= p.push(y)); }
#[verifier::external_body]
pub struct VBuf { s: String }
impl VBuf {
    pub uninterp spec fn pieces(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: VBuf) ensures r.pieces() == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(&mut self, s: &str) ensures final(self).pieces() == old(self).pieces().push(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn nl(&mut self) ensures final(self).pieces() == old(self).pieces().push(nl()) { unimplemented!() }
    #[verifier::external_body]
    pub fn disp<T: VShow + ?Sized>(&mut self, x: &T) ensures final(self).pieces() == old(self).pieces().push(x.shown()) { unimplemented!() }
    #[verifier::external_body]
    pub fn debug<T: VDebug + ?Sized>(&mut self, x: &T) ensures final(self).pieces() == old(self).pieces().push(x.dbg()) { unimplemented!() }
    #[verifier::external_body]
    pub fn debug_alt<T: VDebug + ?Sized>(&mut self, x: &T) ensures final(self).pieces() == old(self).pieces().push(x.dbg_alt()) { unimplemented!() }
    #[verifier::external_body]
    pub fn done(self) -> (r: String) ensures r@ == flat(self.pieces()) { unimplemented!() }
}
// bytes of a text
#[verifier::opaque]
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub proof fn axiom_utf8_inj(a: Seq<char>, b: Seq<char>) requires utf8(a) == utf8(b) ensures a == b { reveal(utf8); vstd::utf8::encode_utf8_decode_utf8(a); vstd::utf8::encode_utf8_decode_utf8(b); }
pub proof fn axiom_utf8_nil() ensures utf8(Seq::empty()) == Seq::<u8>::empty() { reveal(utf8); reveal_with_fuel(vstd::utf8::encode_utf8, 2); }
pub broadcast proof fn decoded_nil(b: Seq<u8>) requires b.len() == 0 ensures #[trigger] decoded(b) == Seq::<char>::empty(), utf8(decoded(b)) == b { axiom_utf8_nil(); decoded_utf8(Seq::empty()); assert(b =~= Seq::<u8>::empty()); }
pub open spec fn decoded(b: Seq<u8>) -> Seq<char> { choose|t: Seq<char>| utf8(t) == b }
pub broadcast proof fn decoded_utf8(t: Seq<char>) ensures #[trigger] decoded(utf8(t)) == t { axiom_utf8_inj(decoded(utf8(t)), t); }
#[verifier::external_body]
pub fn vbytes(s: &str) -> (r: &[u8]) ensures r@ == utf8(s@) { unimplemented!() }
// strings
pub trait VChars { spec fn chs(&self) -> Seq<char>; }
impl VChars for str { open spec fn chs(&self) -> Seq<char> { self@ } }
impl VChars for String { open spec fn chs(&self) -> Seq<char> { self@ } }
impl<'a, T: VChars + ?Sized> VChars for &'a T { open spec fn chs(&self) -> Seq<char> { (**self).chs() } }
#[verifier::external_body]
pub fn vstr_eq<A: VChars + ?Sized, B: VChars + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.chs() == b.chs()) { unimplemented!() }
pub uninterp spec fn blank(c: char) -> bool;
pub axiom fn axiom_blank() ensures !blank(',');
pub open spec fn ltrimmed(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && blank(s[0]) { ltrimmed(s.skip(1)) } else { s } }
pub open spec fn rtrimmed(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && blank(s.last()) { rtrimmed(s.drop_last()) } else { s } }
#[verifier::opaque]
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { rtrimmed(ltrimmed(s)) }
pub broadcast proof fn both_trimmed(s: Seq<char>) ensures #[trigger] rtrimmed(ltrimmed(s)) == trimmed(s) { reveal(trimmed); }
pub uninterp spec fn lowered(s: Seq<char>) -> Seq<char>;
pub trait VStr: VChars {
    fn vto_owned(&self) -> (r: String) ensures r@ == self.chs();
    fn vas_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self.chs());
    fn vtrim(&self) -> (r: &str) ensures r@ == trimmed(self.chs());
    fn vtrim_start(&self) -> (r: &str) ensures r@ == ltrimmed(self.chs());
    fn vtrim_end(&self) -> (r: &str) ensures r@ == rtrimmed(self.chs());
    fn vto_lowercase(&self) -> (r: String) ensures r@ == lowered(self.chs());
    fn vas_str(&self) -> (r: &str) ensures r@ == self.chs();
}
impl VStr for str {
    #[verifier::external_body] fn vto_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vas_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vtrim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vtrim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vtrim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vto_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vas_str(&self) -> (r: &str) { unimplemented!() }
}
impl VStr for String {
    #[verifier::external_body] fn vto_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vas_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vtrim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vtrim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vtrim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vto_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vas_str(&self) -> (r: &str) { unimplemented!() }
}
pub open spec fn split_rec(s: Seq<char>, at: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] } else { let p = split_rec(s.drop_last(), at);
        if s.last() == at { p.push(Seq::empty()) } else { p.update(p.len() - 1, p.last().push(s.last())) } } }
#[verifier::opaque]
pub open spec fn split_text(s: Seq<char>, at: char) -> Seq<Seq<char>> { split_rec(s, at) }
pub proof fn split_some(s: Seq<char>, at: char) ensures split_rec(s, at).len() > 0 decreases s.len() { if s.len() > 0 { split_some(s.drop_last(), at); } }
// white space before and behind the text is white space before and behind the first and the last piece
pub proof fn ltrim_blank(c: char, s: Seq<char>) requires blank(c) ensures ltrimmed(seq![c] + s) == ltrimmed(s) { assert((seq![c] + s).skip(1) =~= s); }
pub proof fn ltrim_push(s: Seq<char>, c: char) requires blank(c) ensures ltrimmed(s.push(c)) == (if ltrimmed(s).len() == 0 { Seq::empty() } else { ltrimmed(s).push(c) }) decreases s.len() {
    if s.len() == 0 { assert(s.push(c).skip(1) =~= Seq::<char>::empty()); assert(s =~= Seq::<char>::empty()); assert(ltrimmed(s.push(c)) == ltrimmed(s.push(c).skip(1))); assert(ltrimmed(Seq::<char>::empty()) =~= Seq::<char>::empty()); }
    else if blank(s[0]) { ltrim_push(s.skip(1), c); assert(s.push(c).skip(1) =~= s.skip(1).push(c)); assert(s.push(c)[0] == s[0]); }
    else { assert(s.push(c)[0] == s[0]); } }
pub proof fn trim_first(c: char, s: Seq<char>) requires blank(c) ensures trimmed(seq![c] + s) == trimmed(s) { reveal(trimmed); ltrim_blank(c, s); }
pub proof fn trim_last(s: Seq<char>, c: char) requires blank(c) ensures trimmed(s.push(c)) == trimmed(s) { reveal(trimmed); ltrim_push(s, c);
    if ltrimmed(s).len() > 0 { assert(ltrimmed(s).push(c).drop_last() =~= ltrimmed(s)); } else { assert(ltrimmed(s) =~= Seq::<char>::empty()); } }
// pieces that are the same but for white space around them
pub open spec fn alike(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] trimmed(a[i]) == trimmed(b[i]) }
pub proof fn split_first(c: char, s: Seq<char>, at: char) requires c != at ensures split_rec(seq![c] + s, at) == split_rec(s, at).update(0, seq![c] + split_rec(s, at)[0]) decreases s.len() {
    split_some(s, at);
    if s.len() == 0 {
        let t = seq![c] + s;
        assert(t.drop_last() =~= Seq::<char>::empty()); assert(t.last() == c);
        assert(split_rec(t.drop_last(), at) =~= seq![Seq::<char>::empty()]);
        assert(Seq::<char>::empty().push(c) =~= seq![c] + Seq::<char>::empty());
        assert(split_rec(t, at) =~= split_rec(s, at).update(0, seq![c] + split_rec(s, at)[0]));
    } else {
        let t = seq![c] + s; let l = s.last(); let u = s.drop_last();
        split_first(c, u, at); split_some(u, at);
        assert(t.drop_last() =~= seq![c] + u); assert(t.last() == l);
        let p = split_rec(u, at); let q = split_rec(seq![c] + u, at);
        assert(q == p.update(0, seq![c] + p[0]));
        if l == at { assert(q.push(Seq::empty()) =~= p.push(Seq::empty()).update(0, seq![c] + p.push(Seq::empty())[0])); }
        else if p.len() == 1 { assert((seq![c] + p[0]).push(l) =~= seq![c] + p[0].push(l)); assert(split_rec(t, at) =~= split_rec(s, at).update(0, seq![c] + split_rec(s, at)[0])); }
        else { assert(split_rec(t, at) =~= split_rec(s, at).update(0, seq![c] + split_rec(s, at)[0])); }
    } }
pub proof fn split_ltrim(s: Seq<char>, at: char) requires !blank(at) ensures alike(split_rec(s, at), split_rec(ltrimmed(s), at)) decreases s.len() {
    if s.len() > 0 && blank(s[0]) {
        let r = s.skip(1);
        split_ltrim(r, at); split_some(r, at); split_first(s[0], r, at); trim_first(s[0], split_rec(r, at)[0]);
        assert(seq![s[0]] + r =~= s);
    } }
pub proof fn split_rtrim(s: Seq<char>, at: char) requires !blank(at) ensures alike(split_rec(s, at), split_rec(rtrimmed(s), at)) decreases s.len() {
    if s.len() > 0 && blank(s.last()) { let r = s.drop_last(); split_rtrim(r, at); split_some(r, at); trim_last(split_rec(r, at).last(), s.last()); } }
pub proof fn split_trim(s: Seq<char>, at: char) requires !blank(at) ensures alike(split_text(s, at), split_text(trimmed(s), at)) {
    reveal(trimmed); reveal(split_text); split_ltrim(s, at); split_rtrim(ltrimmed(s), at); }
pub open spec fn strs(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub trait VSplit { fn vsplit(&self, at: char) -> (r: Snap<&str>) ensures r.pos() == 0, strs(r.seq()) == split_text(self.txt(), at); spec fn txt(&self) -> Seq<char>; }
impl VSplit for str { open spec fn txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vsplit(&self, at: char) -> Snap<&str> { unimplemented!() } }
impl VSplit for String { open spec fn txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vsplit(&self, at: char) -> Snap<&str> { unimplemented!() } }
pub open spec fn replaced_rec(s: Seq<char>, c: char, by: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else if s.last() == c { replaced_rec(s.drop_last(), c, by) + by } else { replaced_rec(s.drop_last(), c, by).push(s.last()) } }
#[verifier::opaque]
pub open spec fn replaced(s: Seq<char>, c: char, by: Seq<char>) -> Seq<char> { replaced_rec(s, c, by) }
#[verifier::external_body] pub fn vconcat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn vpushed(a: String, c: char) -> (r: String) ensures r@ == a@.push(c) { unimplemented!() }
pub trait VOwned { fn vinto_owned(self) -> (r: String); }
impl VOwned for String { #[verifier::external_body] fn vinto_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
pub trait VPat { spec fn begins(&self, s: Seq<char>) -> bool; spec fn ends(&self, s: Seq<char>) -> bool; spec fn occurs(&self, s: Seq<char>) -> bool; }
impl VPat for char {
    open spec fn begins(&self, s: Seq<char>) -> bool { s.len() > 0 && s[0] == *self }
    open spec fn ends(&self, s: Seq<char>) -> bool { s.len() > 0 && s.last() == *self }
    open spec fn occurs(&self, s: Seq<char>) -> bool { s.contains(*self) }
}
impl<'a, T: VChars + ?Sized> VPat for &'a T {
    open spec fn begins(&self, s: Seq<char>) -> bool { (**self).chs().len() <= s.len() && s.take((**self).chs().len() as int) == (**self).chs() }
    open spec fn ends(&self, s: Seq<char>) -> bool { (**self).chs().len() <= s.len() && s.skip(s.len() - (**self).chs().len()) == (**self).chs() }
    open spec fn occurs(&self, s: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - (**self).chs().len() && #[trigger] s.subrange(i, i + (**self).chs().len()) == (**self).chs() }
}
pub trait VAffix: VChars {
    fn vstarts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == p.begins(self.chs());
    fn vends_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == p.ends(self.chs());
    fn vhas<P: VPat>(&self, p: P) -> (r: bool) ensures r == p.occurs(self.chs());
}
impl<T: VChars + ?Sized> VAffix for T { #[verifier::external_body] fn vstarts_with<P: VPat>(&self, p: P) -> bool { unimplemented!() } #[verifier::external_body] fn vends_with<P: VPat>(&self, p: P) -> bool { unimplemented!() } #[verifier::external_body] fn vhas<P: VPat>(&self, p: P) -> bool { unimplemented!() } }
pub trait VPush { spec fn had(&self) -> Seq<char>; fn vreplace(&self, c: char, by: &str) -> (r: String) ensures r@ == replaced(self.had(), c, by@); fn vpush_char(&mut self, c: char) ensures final(self).had() == old(self).had().push(c); fn vpush_str(&mut self, t: &str) ensures final(self).had() == old(self).had() + t@; }
impl VPush for String { open spec fn had(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vpush_char(&mut self, c: char) { unimplemented!() } #[verifier::external_body] fn vpush_str(&mut self, t: &str) { unimplemented!() }
    #[verifier::external_body] fn vreplace(&self, c: char, by: &str) -> String { unimplemented!() } }
pub trait VToString: VShow { fn vto_string(&self) -> (r: String) ensures r@ == self.shown(); }
impl<T: VShow + ?Sized> VToString for T { #[verifier::external_body] fn vto_string(&self) -> (r: String) { unimplemented!() } }
pub trait VOrDefault { type T; fn vunwrap_or_default(self) -> (r: Self::T) ensures self.or_default(r); spec fn or_default(self, r: Self::T) -> bool; }
impl VOrDefault for Option<String> { type T = String;
    open spec fn or_default(self, r: String) -> bool { match self { Some(s) => r == s, None => r@ == Seq::<char>::empty() } }
    #[verifier::external_body] fn vunwrap_or_default(self) -> (r: String) { unimplemented!() } }
impl VOrDefault for Option<bool> { type T = bool;
    open spec fn or_default(self, r: bool) -> bool { match self { Some(b) => r == b, None => !r } }
    #[verifier::external_body] fn vunwrap_or_default(self) -> (r: bool) { unimplemented!() } }
pub trait VAsDeref { fn vas_deref(&self) -> (r: Option<&str>) ensures self.deref_of(r); spec fn deref_of(&self, r: Option<&str>) -> bool; }
impl VAsDeref for Option<String> {
    open spec fn deref_of(&self, r: Option<&str>) -> bool { match (*self, r) { (Some(s), Some(t)) => t@ == s@, (None, None) => true, _ => false } }
    #[verifier::external_body] fn vas_deref(&self) -> (r: Option<&str>) { unimplemented!() } }
impl PartialEq for BTreeMap<String, String> { #[verifier::external_body] fn eq(&self, other: &Self) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for BTreeMap<String, String> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { self@ == other@ } }
// regular expressions: the pattern is known, what it matches is not
#[verifier::external_body] pub struct Regex { x: u8 }
pub uninterp spec fn re_replace(pat: Seq<char>, s: Seq<char>, by: Seq<char>) -> Seq<char>;
pub uninterp spec fn re_match(pat: Seq<char>, s: Seq<char>) -> bool;
impl Regex {
    pub uninterp spec fn pat(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn replace_all(&self, s: &str, by: &str) -> (r: String) ensures r@ == re_replace(self.pat(), s@, by@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, s: &str) -> (r: bool) ensures r == re_match(self.pat(), s@) { unimplemented!() }
}
#[verifier::external_body]
pub fn vregex<const N: usize>(p: &str, always: [bool; N]) -> (r: Regex) ensures r.pat() == p@, r.always() == always@ { unimplemented!() }
// groups of a match: group i has matched some text, or has not taken part; the ones that always take part are known from the pattern
pub uninterp spec fn re_groups(pat: Seq<char>, s: Seq<char>) -> Option<Seq<Option<Seq<char>>>>;
#[verifier::external_body] pub struct Captures<'a> { x: &'a u8 }
#[verifier::external_body] pub struct Match<'a> { x: &'a u8 }
impl<'a> VChars for Match<'a> { uninterp spec fn chs(&self) -> Seq<char>; }
impl<'a> Match<'a> { #[verifier::external_body] pub fn vas_str(&self) -> (r: &'a str) ensures r@ == self.chs() { unimplemented!() } }
impl<'a> Captures<'a> {
    pub uninterp spec fn groups(&self) -> Seq<Option<Seq<char>>>;
    pub open spec fn grp(&self, i: int) -> Seq<char> { self.groups()[i]->Some_0 }
    #[verifier::external_body]
    pub fn vidx(&self, i: usize) -> (r: &str) requires i < self.groups().len(), self.groups()[i as int] is Some ensures r@ == self.grp(i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<Match<'a>>) ensures match r { Some(m) => i < self.groups().len() && self.groups()[i as int] == Some(m.chs()), None => i < self.groups().len() ==> self.groups()[i as int] is None } { unimplemented!() }
}
impl Regex {
    pub uninterp spec fn always(&self) -> Seq<bool>;
    #[verifier::external_body]
    pub fn captures<'a>(&self, s: &'a str) -> (r: Option<Captures<'a>>) ensures match r { None => re_groups(self.pat(), s@) is None, Some(c) => re_groups(self.pat(), s@) == Some(c.groups())
        && c.groups().len() == self.always().len() && forall|i: int| 0 <= i < self.always().len() && self.always()[i] ==> (#[trigger] c.groups()[i]) is Some } { unimplemented!() }
    #[verifier::external_body]
    pub fn vis_match(&self, s: &str) -> (r: bool) ensures r == re_match(self.pat(), s@) { unimplemented!() }
}
// sets with a hash: only membership is modelled
pub trait VHKey { type K; spec fn hk(&self) -> Self::K; }
impl VHKey for Vec<u8> { type K = Seq<u8>; open spec fn hk(&self) -> Seq<u8> { self@ } }
impl VHKey for String { type K = Seq<char>; open spec fn hk(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T: VHKey> { x: Vec<T> }
impl<T: VHKey> HashSet<T> {
    pub uninterp spec fn view(&self) -> Set<T::K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T::K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures r == !old(self)@.contains(x.hk()), final(self)@ == old(self)@.insert(x.hk()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(x.hk()) { unimplemented!() }
}
// ===== ordering
pub open spec fn opposite(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub open spec fn num_cmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub open spec fn then_cmp(a: Ordering, b: Ordering) -> Ordering { if a == Ordering::Equal { b } else { a } }
// texts compare by the bytes of their UTF-8 encoding, which is the order of the characters' numbers
pub open spec fn lex_cmp(a: Seq<char>, b: Seq<char>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } } else if b.len() == 0 { Ordering::Greater }
    else if a[0] != b[0] { num_cmp(a[0] as int, b[0] as int) } else { lex_cmp(a.skip(1), b.skip(1)) } }
#[verifier::opaque]
pub open spec fn text_cmp(a: Seq<char>, b: Seq<char>) -> Ordering { lex_cmp(a, b) }
pub proof fn lex_cmp_ok(a: Seq<char>, b: Seq<char>) ensures lex_cmp(b, a) == opposite(lex_cmp(a, b)), lex_cmp(a, b) == Ordering::Equal <==> a == b decreases a.len() {
    if a.len() > 0 && b.len() > 0 { if a[0] == b[0] { lex_cmp_ok(a.skip(1), b.skip(1)); assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); } else { assert(a[0] as int != b[0] as int); } } else { assert(a.len() == 0 && b.len() == 0 ==> a =~= b); } }
pub proof fn lex_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires lex_cmp(a, b) != Ordering::Greater, lex_cmp(b, c) != Ordering::Greater ensures lex_cmp(a, c) != Ordering::Greater decreases a.len() {
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lex_trans(a.skip(1), b.skip(1), c.skip(1)); } }
pub proof fn axiom_text_cmp(a: Seq<char>, b: Seq<char>) ensures text_cmp(b, a) == opposite(text_cmp(a, b)), text_cmp(a, b) == Ordering::Equal <==> a == b { reveal(text_cmp); lex_cmp_ok(a, b); }
pub proof fn text_cmp_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires text_cmp(a, b) != Ordering::Greater, text_cmp(b, c) != Ordering::Greater ensures text_cmp(a, c) != Ordering::Greater { reveal(text_cmp); lex_trans(a, b, c); }
// sorting: a rearrangement in ascending order, equal elements in the order they came
pub open spec fn inserted<T>(s: Seq<T>, x: T, above: spec_fn(T, T) -> bool) -> Seq<T> decreases s.len() {
    if s.len() > 0 && above(s.last(), x) { inserted(s.drop_last(), x, above).push(s.last()) } else { s.push(x) } }
pub open spec fn sorted_by<T>(s: Seq<T>, above: spec_fn(T, T) -> bool) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else { inserted(sorted_by(s.drop_last(), above), s.last(), above) } }
pub open spec fn text_above() -> spec_fn(Seq<char>, Seq<char>) -> bool { |a: Seq<char>, b: Seq<char>| text_cmp(a, b) == Ordering::Greater }
pub open spec fn id_above() -> spec_fn(Requirement, Requirement) -> bool { |a: Requirement, b: Requirement| text_cmp(a.id.0@, b.id.0@) == Ordering::Greater }
#[verifier::opaque]
pub open spec fn sorted_texts(s: Seq<Seq<char>>) -> Seq<Seq<char>> { sorted_by(s, text_above()) }
#[verifier::opaque]
pub open spec fn sorted_by_id(s: Seq<Requirement>) -> Seq<Requirement> { sorted_by(s, id_above()) }
// `sort_unstable_by_key`: which of the sorted rearrangements is not determined
pub uninterp spec fn sorted_by_text(s: Seq<Error>) -> Seq<Error>;
pub axiom fn axiom_sorted_by_text(s: Seq<Error>) ensures sorted_by_text(s).to_multiset() == s.to_multiset();
// what comes out is in order, and has each element as often as what went in
pub open spec fn in_order<T>(s: Seq<T>, above: spec_fn(T, T) -> bool) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> !above(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn order<T>(above: spec_fn(T, T) -> bool) -> bool { (forall|a: T, b: T| #[trigger] above(a, b) ==> !above(b, a)) && (forall|a: T, b: T, c: T| !#[trigger] above(a, b) && !#[trigger] above(b, c) ==> !above(a, c)) }
pub open spec fn under<T>(s: Seq<T>, y: T, above: spec_fn(T, T) -> bool) -> bool { forall|i: int| 0 <= i < s.len() ==> !above(#[trigger] s[i], y) }
pub proof fn inserted_ok<T>(s: Seq<T>, x: T, above: spec_fn(T, T) -> bool) requires order(above), in_order(s, above)
    ensures in_order(inserted(s, x, above), above), inserted(s, x, above).to_multiset() == s.to_multiset().insert(x), inserted(s, x, above).len() == s.len() + 1,
        forall|y: T| under(s, y, above) && !above(x, y) ==> #[trigger] under(inserted(s, x, above), y, above)
    decreases s.len() {
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 && above(s.last(), x) {
        let u = s.drop_last(); let r = inserted(u, x, above); let l = s.last();
        assert forall|i: int, j: int| 0 <= i <= j < u.len() implies !above(#[trigger] u[i], #[trigger] u[j]) by { assert(!above(s[i], s[j])); }
        inserted_ok(u, x, above);
        assert forall|i: int| 0 <= i < u.len() implies !above(#[trigger] u[i], l) by { assert(!above(s[i], s[s.len() - 1])); }
        assert(!above(x, l));
        assert(under(u, l, above)); assert(under(r, l, above));
        assert(!above(l, l)) by { assert(!above(s[s.len() - 1], s[s.len() - 1])); }
        let f = r.push(l);
        assert forall|i: int, j: int| 0 <= i <= j < f.len() implies !above(#[trigger] f[i], #[trigger] f[j]) by { if j == r.len() { if i < r.len() { assert(f[i] == r[i]); } } else { assert(f[i] == r[i] && f[j] == r[j]); } }
        assert(s =~= u.push(l));
        assert(u.push(l).to_multiset() =~= u.to_multiset().insert(l));
        assert(f.to_multiset() =~= s.to_multiset().insert(x));
        assert forall|y: T| under(s, y, above) && !above(x, y) implies #[trigger] under(f, y, above) by {
            assert forall|i: int| 0 <= i < u.len() implies !above(#[trigger] u[i], y) by { assert(!above(s[i], y)); }
            assert(under(u, y, above)); assert(under(r, y, above));
            assert(!above(s[s.len() - 1], y));
            assert forall|i: int| 0 <= i < f.len() implies !above(#[trigger] f[i], y) by { if i < r.len() { assert(f[i] == r[i]); } } }
    } else {
        let f = s.push(x);
        assert(!above(x, x)) by { if above(x, x) { assert(!above(x, x)); } }
        assert forall|i: int, j: int| 0 <= i <= j < f.len() implies !above(#[trigger] f[i], #[trigger] f[j]) by {
            if j == s.len() { if i < s.len() { assert(!above(s[i], s[s.len() - 1])); assert(!above(s.last(), x)); } } else { assert(f[i] == s[i] && f[j] == s[j]); } }
        assert forall|y: T| under(s, y, above) && !above(x, y) implies #[trigger] under(f, y, above) by {
            assert forall|i: int| 0 <= i < f.len() implies !above(#[trigger] f[i], y) by { if i < s.len() { assert(f[i] == s[i]); } } }
    } }
pub proof fn sorted_by_ok<T>(s: Seq<T>, above: spec_fn(T, T) -> bool) requires order(above) ensures in_order(sorted_by(s, above), above), sorted_by(s, above).to_multiset() == s.to_multiset(), sorted_by(s, above).len() == s.len() decreases s.len() {
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if s.len() > 0 { sorted_by_ok(s.drop_last(), above); inserted_ok(sorted_by(s.drop_last(), above), s.last(), above); assert(s =~= s.drop_last().push(s.last())); assert(sorted_by(s, above).to_multiset() =~= s.to_multiset()); } }
pub proof fn sorted_texts_ok(s: Seq<Seq<char>>) ensures in_order(sorted_texts(s), text_above()), sorted_texts(s).to_multiset() == s.to_multiset(), sorted_texts(s).len() == s.len() {
    reveal(sorted_texts);
    assert forall|a: Seq<char>, b: Seq<char>| #[trigger] text_above()(a, b) implies !text_above()(b, a) by { axiom_text_cmp(a, b); }
    assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| !#[trigger] text_above()(a, b) && !#[trigger] text_above()(b, c) implies !text_above()(a, c) by { text_cmp_trans(a, b, c); }
    sorted_by_ok(s, text_above()); }
pub proof fn sorted_by_id_ok(s: Seq<Requirement>) ensures in_order(sorted_by_id(s), id_above()), sorted_by_id(s).to_multiset() == s.to_multiset(), sorted_by_id(s).len() == s.len() {
    reveal(sorted_by_id);
    assert forall|a: Requirement, b: Requirement| #[trigger] id_above()(a, b) implies !id_above()(b, a) by { axiom_text_cmp(a.id.0@, b.id.0@); }
    assert forall|a: Requirement, b: Requirement, c: Requirement| !#[trigger] id_above()(a, b) && !#[trigger] id_above()(b, c) implies !id_above()(a, c) by { text_cmp_trans(a.id.0@, b.id.0@, c.id.0@); }
    sorted_by_ok(s, id_above()); }
pub trait VSort { spec fn items_sorted(self, old: Self) -> bool; fn vsort(&mut self) ensures final(self).items_sorted(*old(self)); }
impl VSort for Vec<String> {
    open spec fn items_sorted(self, old: Self) -> bool { stexts(self@) == sorted_texts(stexts(old@)) }
    #[verifier::external_body] fn vsort(&mut self) { unimplemented!() }
}
pub open spec fn deduped(s: Seq<Seq<char>>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() <= 1 { s } else if s[s.len() - 2] == s.last() { deduped(s.drop_last()) } else { deduped(s.drop_last()).push(s.last()) } }
pub trait VDedup { fn vdedup(&mut self); }
impl VDedup for Vec<String> { #[verifier::external_body] fn vdedup(&mut self) ensures stexts(final(self)@) == deduped(stexts(old(self)@)) { unimplemented!() } }
pub open spec fn stexts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub broadcast proof fn stexts_push(v: Seq<String>, x: String) ensures #[trigger] stexts(v.push(x)) == stexts(v).push(x@) { assert(stexts(v.push(x)) =~= stexts(v).push(x@)); }
pub broadcast proof fn stexts_nil(v: Seq<String>) requires v.len() == 0 ensures #[trigger] stexts(v) == Seq::<Seq<char>>::empty() { assert(stexts(v) =~= Seq::<Seq<char>>::empty()); }
pub open spec fn rcs(v: Seq<Rc<Requirement>>) -> Seq<Requirement> { Seq::new(v.len(), |i: int| *v[i]) }
pub broadcast proof fn rcs_push(v: Seq<Rc<Requirement>>, x: Rc<Requirement>) ensures #[trigger] rcs(v.push(x)) == rcs(v).push(*x) { assert(rcs(v.push(x)) =~= rcs(v).push(*x)); }
pub broadcast proof fn rcs_nil(v: Seq<Rc<Requirement>>) requires v.len() == 0 ensures #[trigger] rcs(v) == Seq::<Requirement>::empty() { assert(rcs(v) =~= Seq::<Requirement>::empty()); }
pub trait VSortById { spec fn reqs(self) -> Seq<Requirement>; fn vsort_by_id(&mut self) ensures final(self).reqs() == sorted_by_id(old(self).reqs()); }
impl VSortById for Vec<Rc<Requirement>> { open spec fn reqs(self) -> Seq<Requirement> { rcs(self@) } #[verifier::external_body] fn vsort_by_id(&mut self) { unimplemented!() } }
impl<'a> VSortById for Vec<&'a Rc<Requirement>> { open spec fn reqs(self) -> Seq<Requirement> { rcs(unref(self@)) } #[verifier::external_body] fn vsort_by_id(&mut self) { unimplemented!() } }
pub trait VSortByText { spec fn errs(self) -> Seq<Error>; fn vsort_by_text(&mut self) ensures final(self).errs() == sorted_by_text(old(self).errs()); }
impl VSortByText for Vec<Error> { open spec fn errs(self) -> Seq<Error> { self@ } #[verifier::external_body] fn vsort_by_text(&mut self) { unimplemented!() } }
impl VEmpty for str { open spec fn no_items(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vis_empty(&self) -> (r: bool) { unimplemented!() } }
impl VEmpty for String { open spec fn no_items(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vis_empty(&self) -> (r: bool) { unimplemented!() } }
// sequences of references
pub open spec fn unref<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub broadcast proof fn unref_refs<T>(s: Seq<T>) ensures #[trigger] unref(refs(s)) == s { assert(unref(refs(s)) =~= s); }
pub broadcast proof fn unref_push<T>(s: Seq<&T>, x: &T) ensures #[trigger] unref(s.push(x)) == unref(s).push(*x) { assert(unref(s.push(x)) =~= unref(s).push(*x)); }
pub broadcast proof fn unref_nil<T>(s: Seq<&T>) requires s.len() == 0 ensures #[trigger] unref(s) == Seq::<T>::empty() { assert(unref(s) =~= Seq::<T>::empty()); }
pub broadcast proof fn take_step<T>(s: Seq<T>, n: int) requires 0 < n <= s.len() ensures #[trigger] s.take(n) == s.take(n - 1).push(s[n - 1]) { assert(s.take(n) =~= s.take(n - 1).push(s[n - 1])); }
pub broadcast group group_refs { unref_refs, unref_push, unref_nil, stexts_push, stexts_nil, rcs_push, rcs_nil }
pub broadcast group group_text { decoded_nil, both_trimmed, decoded_utf8, cat_push, cat_nil, flat_one, flat_push, app_assoc, app_nil, nil_app }
}
use txt::*;
use io::VRead; use io::VBufRead;
// what a file contains
#[verifier::external_body] pub struct Content { x: u8 }
// its lines, each with its line break (up to the first one that cannot be read), and the error that keeps the rest from being read
pub uninterp spec fn chunks(c: Content) -> Seq<Seq<char>>;
pub uninterp spec fn stop(c: Content) -> Option<io::Error>;
pub uninterp spec fn whole(c: Content) -> core::result::Result<Seq<char>, io::Error>;
// a line without its line break
#[verifier::opaque]
pub open spec fn stripped(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\n' { let t = s.drop_last(); if t.len() > 0 && t.last() == '\r' { t.drop_last() } else { t } } else { s } }
// fewer lines than memory has addresses
pub axiom fn few_lines(c: Content) ensures chunks(c).len() < usize::MAX - 1;
pub mod io { use super::*;
#[verifier::external_body] pub struct Error { x: u8 }
pub type Result<T> = core::result::Result<T, Error>;
pub enum ErrorKind { NotFound, InvalidData, InvalidInput, Unsupported, Other }
pub uninterp spec fn io_text(e: Error) -> Seq<char>;
impl VShow for Error { open spec fn shown(&self) -> Seq<char> { io_text(*self) } }
impl Error {
    #[verifier::external_body]
    pub fn other<E>(e: E) -> (r: Error) { unimplemented!() }
    #[verifier::external_body]
    pub fn new<E>(k: ErrorKind, e: E) -> (r: Error) { unimplemented!() }
}
// a writer: the text written so far, and whether writing has failed
pub trait Write {
    spec fn text(&self) -> Seq<char>;
    spec fn broken(&self) -> bool;
    spec fn valid(&self) -> bool;
    fn write_vbuf(&mut self, b: VBuf) -> (r: Result<()>)
        ensures r is Ok ==> final(self).text() == cat(old(self).text(), b.pieces()) && final(self).broken() == old(self).broken(), r is Err ==> final(self).broken(), old(self).valid() ==> final(self).valid();
    fn vwrite_all(&mut self, b: &[u8]) -> (r: Result<()>)
        ensures r is Ok ==> final(self).text() == old(self).text().p(decoded(b@)) && final(self).broken() == old(self).broken(), r is Err ==> final(self).broken();
}
// a reader: what it will deliver
pub trait Read { spec fn content(&self) -> Content;
}
pub trait BufRead: Read { }
impl<'a, R: Read + ?Sized> Read for &'a mut R { open spec fn content(&self) -> Content { (**self).content() } }
impl<'a, R: BufRead + ?Sized> BufRead for &'a mut R { }
pub trait VRead: Read {
    fn read_to_string(&mut self, s: &mut String) -> (r: Result<usize>) ensures match whole(old(self).content()) { Ok(t) => r is Ok && final(s)@ == old(s)@ + t, Err(e) => r == Result::<usize>::Err(e) };
}
impl<R: Read + ?Sized> VRead for R { #[verifier::external_body] fn read_to_string(&mut self, s: &mut String) -> Result<usize> { unimplemented!() } }
pub trait VBufRead: BufRead {
    fn read_line(&mut self, s: &mut String) -> (r: Result<usize>)
        ensures if chunks(old(self).content()).len() > 0 { r is Ok && r->Ok_0 > 0 && final(s)@ == old(s)@ + chunks(old(self).content())[0]
                && chunks((*final(self)).content()) == chunks(old(self).content()).skip(1) && stop((*final(self)).content()) == stop(old(self).content()) }
            else { match stop(old(self).content()) { None => r is Ok && r->Ok_0 == 0 && final(s)@ == old(s)@ && (*final(self)).content() == old(self).content(), Some(e) => r == Result::<usize>::Err(e) } };
    fn lines(self) -> (r: Snap<Result<String>>) where Self: Sized
        ensures r.pos() == 0, r.seq().len() >= chunks(self.content()).len(), r.seq().len() < usize::MAX,
            forall|i: int| 0 <= i < chunks(self.content()).len() ==> #[trigger] r.seq()[i] == Result::<String>::Ok(string_of(stripped(chunks(self.content())[i]))),
            match stop(self.content()) { None => r.seq().len() == chunks(self.content()).len(), Some(e) => r.seq().len() > chunks(self.content()).len() && r.seq()[chunks(self.content()).len() as int] == Result::<String>::Err(e) };
}
impl<R: BufRead + ?Sized> VBufRead for R { #[verifier::external_body] fn read_line(&mut self, s: &mut String) -> Result<usize> { unimplemented!() } #[verifier::external_body] fn lines(self) -> Snap<Result<String>> where Self: Sized { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct BufReader<R: Read> { x: R }
impl<R: Read> Read for BufReader<R> { uninterp spec fn content(&self) -> Content; }
impl<R: Read> BufRead for BufReader<R> { }
impl<R: Read> BufReader<R> { #[verifier::external_body] pub fn new(x: R) -> (r: Self) ensures r.content() == x.content() { unimplemented!() } }
// trouble with files, directories or the output, which is only known when it occurs
pub uninterp spec fn io_trouble() -> bool;
pub broadcast axiom fn axiom_trouble<W: Write + ?Sized>(w: &W) requires #[trigger] w.broken() ensures io_trouble();
impl Write for Box<dyn Write> {
    open spec fn text(&self) -> Seq<char> { (**self).text() }
    open spec fn broken(&self) -> bool { (**self).broken() }
    open spec fn valid(&self) -> bool { (**self).valid() }
    #[verifier::external_body] fn write_vbuf(&mut self, b: VBuf) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn vwrite_all(&mut self, b: &[u8]) -> (r: Result<()>) { unimplemented!() }
}
#[verifier::external_body] pub struct Stdout { x: u8 }
#[verifier::external_body] pub struct StdoutLock { x: u8 }
#[verifier::external_body] pub fn stdout() -> (r: Stdout) { unimplemented!() }
impl Stdout { #[verifier::external_body] pub fn lock(&self) -> (r: StdoutLock) ensures !r.broken() { unimplemented!() } }
impl Write for StdoutLock {
    uninterp spec fn text(&self) -> Seq<char>;
    uninterp spec fn broken(&self) -> bool;
    uninterp spec fn valid(&self) -> bool;
    #[verifier::external_body] fn write_vbuf(&mut self, b: VBuf) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn vwrite_all(&mut self, b: &[u8]) -> (r: Result<()>) { unimplemented!() }
}
impl Write for Vec<u8> {
    open spec fn text(&self) -> Seq<char> { decoded(self@) }
    open spec fn broken(&self) -> bool { false }
    open spec fn valid(&self) -> bool { utf8(decoded(self@)) == self@ }
    #[verifier::external_body] fn write_vbuf(&mut self, b: VBuf) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn vwrite_all(&mut self, b: &[u8]) -> (r: Result<()>) { unimplemented!() }
}
}
pub mod fmt { use super::*;
pub struct Error { }
pub type Result = core::result::Result<(), Error>;
#[verifier::external_body] pub struct Formatter<'a> { x: &'a u8 }
impl<'a> Formatter<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn write_vbuf(&mut self, b: VBuf) -> (r: Result) ensures r is Ok ==> final(self).text() == cat(old(self).text(), b.pieces()) { unimplemented!() }
}
pub trait VFmt: VShow { fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) ensures r is Ok ==> final(f).text() == old(f).text().p(self.shown()); }
impl VFmt for String { #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: Result) { unimplemented!() } }
}
use fmt::VFmt;
// ===== what the Display implementations of /repo print (proved of them in component shows)
pub uninterp spec fn path_text(p: PathBuf) -> Seq<char>;
#[verifier::external_body] pub struct PathDisp { x: u8 }
pub uninterp spec fn path_disp(p: PathDisp) -> Seq<char>;
impl VShow for PathDisp { open spec fn shown(&self) -> Seq<char> { path_disp(*self) } }
impl PathBuf {
    #[verifier::external_body]
    pub fn vdisplay(&self) -> (r: PathDisp) ensures r.shown() == path_text(*self) { unimplemented!() }
}
impl VShow for ArtefactId { open spec fn shown(&self) -> Seq<char> { self.0@ } }
impl VShow for RequirementId { open spec fn shown(&self) -> Seq<char> { self.0@ } }
impl VShow for Requirement { open spec fn shown(&self) -> Seq<char> { self.id.shown() } }
impl VShow for LocationInFile { open spec fn shown(&self) -> Seq<char> { match *self {
    LocationInFile::Line(l) => l.shown(), LocationInFile::LineAndColumn(l, c) => l.shown().p(":"@).p(c.shown()), LocationInFile::String(s) => s@ } } }
impl VShow for Location { open spec fn shown(&self) -> Seq<char> { match self.location_in_file {
    Some(l) => path_text(self.file).p(":"@).p(l.shown()), None => path_text(self.file) } } }
pub open spec fn joined(s: Seq<Seq<char>>, sep: Seq<char>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else if n == 1 { s[0] } else { joined(s, sep, n - 1).p(sep).p(s[n - 1]) }
}
pub open spec fn lower_texts(r: Relation) -> Seq<Seq<char>> { Seq::new(r.lower@.len(), |i: int| r.lower@[i].0@) }
impl VShow for Relation { open spec fn shown(&self) -> Seq<char> {
    self.upper.shown().p(" => ["@).p(joined(lower_texts(*self), ", "@, self.lower@.len() as int)).p("]"@) } }
impl VShow for TracedRelation { open spec fn shown(&self) -> Seq<char> { self.relation.shown() } }
pub trait VJoin { spec fn items(&self) -> Seq<Seq<char>>; fn vjoin(&self, sep: &str) -> (r: String) ensures r@ == joined(self.items(), sep@, self.items().len() as int); }
impl VJoin for Vec<String> { open spec fn items(&self) -> Seq<Seq<char>> { stexts(self@) } #[verifier::external_body] fn vjoin(&self, sep: &str) -> (r: String) { unimplemented!() } }
