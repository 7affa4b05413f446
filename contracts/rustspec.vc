@include monospec
@spec
// ===== syn (assumed): syntax trees, of which only what the parser looks at has a content
pub mod proc_macro2 { use super::*;
pub struct LineColumn { pub line: usize, pub column: usize }
#[verifier::external_body] pub struct Span { x: u8 }
pub uninterp spec fn starts(s: Span) -> LineColumn;
impl Span { #[verifier::external_body] pub fn start(&self) -> (r: LineColumn) ensures r == starts(*self) { unimplemented!() } }
#[verifier::external_body] pub struct Ident { x: u8 }
pub uninterp spec fn ident_text(i: Ident) -> Seq<char>;
pub uninterp spec fn ident_span(i: Ident) -> Span;
impl VChars for Ident { open spec fn chs(&self) -> Seq<char> { ident_text(*self) } }
impl VShow for Ident { open spec fn shown(&self) -> Seq<char> { ident_text(*self) } }
impl Ident { #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == ident_span(*self) { unimplemented!() } }
#[verifier::external_body] pub struct Group { x: u8 }
#[verifier::external_body] pub struct Punct { x: u8 }
#[verifier::external_body] pub struct Literal { x: u8 }
pub enum TokenTree { Group(Group), Ident(Ident), Punct(Punct), Literal(Literal) }
pub uninterp spec fn token_text(t: TokenTree) -> Seq<char>;
pub uninterp spec fn token_span(t: TokenTree) -> Span;
impl VShow for TokenTree { open spec fn shown(&self) -> Seq<char> { token_text(*self) } }
impl TokenTree { #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == token_span(*self) { unimplemented!() } }
impl VDebug for Vec<TokenTree> { uninterp spec fn dbg(&self) -> Seq<char>; uninterp spec fn dbg_alt(&self) -> Seq<char>; }
#[verifier::external_body] pub struct TokenStream { x: u8 }
pub uninterp spec fn tokens_of(t: TokenStream) -> Seq<TokenTree>;
pub uninterp spec fn stream_text(t: TokenStream) -> Seq<char>;
impl VShow for TokenStream { open spec fn shown(&self) -> Seq<char> { stream_text(*self) } }
impl Clone for TokenStream { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl IntoSnap for TokenStream { type Item = TokenTree; open spec fn snap_seq(self) -> Seq<TokenTree> { tokens_of(self) } #[verifier::external_body] fn into_snap(self) -> Snap<TokenTree> { unimplemented!() } }
}
use proc_macro2::*;
pub mod syn { use super::*; use proc_macro2::*;
#[verifier::external_body] pub struct Rest { x: u8 }
pub struct PathSegment { pub ident: Ident, pub rest: Rest }
#[verifier::external_body] pub struct Segments { x: Vec<PathSegment> }
impl Segments { pub uninterp spec fn view(&self) -> Seq<PathSegment>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() } }
impl VIndex<PathSegment> for Segments { open spec fn vseq(&self) -> Seq<PathSegment> { self@ } #[verifier::external_body] fn vidx(&self, i: usize) -> (r: &PathSegment) { unimplemented!() } }
pub struct Path { pub segments: Segments, pub rest: Rest }
pub struct Macro { pub path: Path, pub tokens: TokenStream, pub rest: Rest }
pub struct ExprMacro { pub mac: Macro, pub rest: Rest }
pub struct Signature { pub ident: Ident, pub rest: Rest }
pub struct ItemFn { pub sig: Signature, pub rest: Rest }
pub struct ImplItemMethod { pub sig: Signature, pub rest: Rest }
pub struct TraitItemMethod { pub sig: Signature, pub rest: Rest }
pub struct ItemTrait { pub ident: Ident, pub rest: Rest }
pub struct ItemMod { pub ident: Ident, pub rest: Rest }
#[verifier::external_body] pub struct Type { x: u8 }
pub uninterp spec fn type_stream(t: Type) -> TokenStream;
pub uninterp spec fn type_span(t: Type) -> Span;
pub uninterp spec fn path_stream(t: Path) -> TokenStream;
impl Type { #[verifier::external_body] pub fn to_token_stream(&self) -> (r: TokenStream) ensures r == type_stream(*self) { unimplemented!() }
    #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == type_span(*self) { unimplemented!() } }
impl Path { #[verifier::external_body] pub fn to_token_stream(&self) -> (r: TokenStream) ensures r == path_stream(*self) { unimplemented!() } }
pub struct ItemImpl { pub trait_: Option<(Option<Rest>, Path, Rest)>, pub self_ty: Box<Type>, pub rest: Rest }
#[verifier::external_body] pub struct File { x: u8 }
#[verifier::external_body] pub struct Error { x: u8 }
pub uninterp spec fn error_text(e: Error) -> Seq<char>;
pub uninterp spec fn error_span(e: Error) -> Span;
impl VShow for Error { open spec fn shown(&self) -> Seq<char> { error_text(*self) } }
impl Error { #[verifier::external_body] pub fn span(&self) -> (r: Span) ensures r == error_span(*self) { unimplemented!() } }
pub uninterp spec fn parsed(t: Seq<char>) -> core::result::Result<File, Error>;
#[verifier::external_body] pub fn parse_file(t: &str) -> (r: core::result::Result<File, Error>) ensures r == parsed(t@) { unimplemented!() }
}
use syn::{parse_file, ItemFn};
// ===== what the parser sees of a syntax tree: macros in expression position and items with a name, with what is below them
pub enum Node { Mac(syn::ExprMacro, Seq<Node>), Item(Seq<char>, Span, Seq<Node>) }
// the nodes below a node of the syntax tree (and not below another of them), as they come in the source
pub uninterp spec fn below<N>(n: N) -> Seq<Node>;
spec fn place(p: PathBuf, s: Span) -> Location { Location { file: p, location_in_file: Some(LocationInFile::LineAndColumn(starts(s).line, starts(s).column)) } }
// ===== marks
struct Marked { path: RequirementId, at: Location, covers: Seq<Reference>, plain: bool }
struct Marks { reqs: Seq<Marked>, errs: Seq<Error> }
spec fn is_mark(x: syn::ExprMacro) -> bool { let s = x.mac.path.segments@; s.len() == 1 && ident_text(s[0].ident) == "requirement_covered"@ }
spec fn mark_span(x: syn::ExprMacro) -> Span { ident_span(x.mac.path.segments@[0].ident) }
spec fn quoted(t: Seq<char>) -> bool { t.len() > 0 && t[0] == '"' && t.last() == '"' }
spec fn unquoted(t: Seq<char>) -> Seq<char> { replaced(t, '"', ""@) }
// id and title of a well formed mark, or where it is malformed
spec fn read_mark(x: syn::ExprMacro) -> core::result::Result<(Seq<char>, Option<Seq<char>>), Span> { let t = tokens_of(x.mac.tokens);
    if t.len() == 1 { if t[0] is Ident { Ok((ident_text(t[0]->Ident_0), None)) } else if quoted(token_text(t[0])) { Ok((unquoted(token_text(t[0])), None)) } else { Err(token_span(t[0])) } }
    else if t.len() == 3 { if !(t[0] is Ident) { Err(token_span(t[0])) } else if quoted(token_text(t[2])) { Ok((ident_text(t[0]->Ident_0), Some(unquoted(token_text(t[2]))))) } else { Err(token_span(t[2])) } }
    else { Err(mark_span(x)) } }
spec fn item_path(scope: Seq<Seq<char>>) -> RequirementId { RequirementId(string_of(joined(scope, "::"@, scope.len() as int))) }
spec fn marked(x: syn::ExprMacro, scope: Seq<Seq<char>>, locs: Seq<Location>, p: PathBuf, m: Marks) -> Marks { match read_mark(x) {
    Err(s) => Marks { errs: m.errs.push(Error::Format(place(p, s), string_of(Seq::empty()))), ..m },
    Ok((id, title)) => { let at = place(p, mark_span(x));
        let r = Reference { id: RequirementId(string_of(id)), title: match title { Some(t) => Some(string_of(t)), None => None }, location: at };
        if m.reqs.len() > 0 && m.reqs.last().path == item_path(scope) { let l = m.reqs.last(); Marks { reqs: m.reqs.drop_last().push(Marked { covers: l.covers.push(r), ..l }), ..m } }
        else { Marks { reqs: m.reqs.push(Marked { path: item_path(scope), at: if locs.len() > 0 { locs.last() } else { at }, covers: seq![r], plain: true }), ..m } } } } }
spec fn run(n: Node, scope: Seq<Seq<char>>, locs: Seq<Location>, p: PathBuf, m: Marks) -> Marks decreases n, 0int { match n {
    Node::Item(name, at, kids) => run_all(kids, kids.len() as int, scope.push(name), locs.push(place(p, at)), p, m),
    Node::Mac(x, kids) => if is_mark(x) { marked(x, scope, locs, p, m) } else { run_all(kids, kids.len() as int, scope, locs, p, m) } } }
// the first k of them
spec fn run_all(kids: Seq<Node>, k: int, scope: Seq<Seq<char>>, locs: Seq<Location>, p: PathBuf, m: Marks) -> Marks decreases kids, k {
    if k <= 0 || k > kids.len() { m } else { run(kids[k - 1], scope, locs, p, run_all(kids, k - 1, scope, locs, p, m)) } }
// ===== the same as the parser has it
spec fn marked_of(q: Requirement) -> Marked { Marked { path: q.id, at: q.location, covers: q.covers@, plain: q.title is None && q.depends@.len() == 0 && q.tags@.len() == 0 && q.attributes@ == Map::<String, String>::empty() } }
spec fn markeds(s: Seq<Rc<Requirement>>) -> Seq<Marked> { Seq::new(s.len(), |i: int| marked_of(*s[i])) }
broadcast proof fn markeds_push(s: Seq<Rc<Requirement>>, q: Rc<Requirement>) ensures #[trigger] markeds(s.push(q)) == markeds(s).push(marked_of(*q)) { assert(markeds(s.push(q)) =~= markeds(s).push(marked_of(*q))); }
broadcast proof fn markeds_drop(s: Seq<Rc<Requirement>>) requires s.len() > 0 ensures #[trigger] markeds(s.drop_last()) == markeds(s).drop_last(), markeds(s).last() == marked_of(*s.last()) { assert(markeds(s.drop_last()) =~= markeds(s).drop_last()); }
broadcast proof fn push_drop<T>(s: Seq<T>, x: T) ensures #[trigger] s.push(x).drop_last() == s { assert(s.push(x).drop_last() =~= s); }
broadcast group group_marks { push_drop, plains_push, markeds_push, markeds_drop }
spec fn abs(x: Parser) -> Marks { Marks { reqs: markeds(x.requirements@), errs: plains(x.errors@) } }
// the visitor's state is where it was
spec fn back(a: Parser, b: Parser) -> bool { a.scope@ == b.scope@ && a.locations@ == b.locations@ && a.path == b.path }
spec fn after_all<N>(a: Parser, n: N, b: Parser) -> bool { let k = below(n); abs(b) == run_all(k, k.len() as int, stexts(a.scope@), a.locations@, *a.path, abs(a)) }
// syn's traversal: the visitor's method is called for each of the nodes below, in their order (the contracts of those are proved below)
pub mod visit { use super::*;
#[verifier::external_body] pub(super) fn visit_item_fn(v: &mut Parser, n: &syn::ItemFn) ensures back(*old(v), *final(v)), after_all(*old(v), *n, *final(v)) { unimplemented!() }
#[verifier::external_body] pub(super) fn visit_impl_item_method(v: &mut Parser, n: &syn::ImplItemMethod) ensures back(*old(v), *final(v)), after_all(*old(v), *n, *final(v)) { unimplemented!() }
#[verifier::external_body] pub(super) fn visit_trait_item_method(v: &mut Parser, n: &syn::TraitItemMethod) ensures back(*old(v), *final(v)), after_all(*old(v), *n, *final(v)) { unimplemented!() }
#[verifier::external_body] pub(super) fn visit_item_impl(v: &mut Parser, n: &syn::ItemImpl) ensures back(*old(v), *final(v)), after_all(*old(v), *n, *final(v)) { unimplemented!() }
#[verifier::external_body] pub(super) fn visit_item_trait(v: &mut Parser, n: &syn::ItemTrait) ensures back(*old(v), *final(v)), after_all(*old(v), *n, *final(v)) { unimplemented!() }
#[verifier::external_body] pub(super) fn visit_item_mod(v: &mut Parser, n: &syn::ItemMod) ensures back(*old(v), *final(v)), after_all(*old(v), *n, *final(v)) { unimplemented!() }
#[verifier::external_body] pub(super) fn visit_expr_macro(v: &mut Parser, n: &syn::ExprMacro) ensures back(*old(v), *final(v)), after_all(*old(v), *n, *final(v)) { unimplemented!() }
}
impl<'a> Parser<'a> { #[verifier::external_body] fn visit_file(&mut self, n: &syn::File) ensures back(*old(self), *final(self)), after_all(*old(self), *n, *final(self)) { unimplemented!() } }
spec fn done(a: Parser, n: Node, b: Parser) -> bool { abs(b) == run(n, stexts(a.scope@), a.locations@, *a.path, abs(a)) }
spec fn named<N>(i: Ident, n: N) -> Node { Node::Item(ident_text(i), ident_span(i), below(n)) }
proof fn bang_split() ensures forall|x: Seq<char>| #[trigger] x.p(" as "@).p("!"@) == x.p(" as !"@) { reveal_strlit(" as "); reveal_strlit("!"); reveal_strlit(" as !"); reveal(app);
    assert forall|x: Seq<char>| #[trigger] x.p(" as "@).p("!"@) == x.p(" as !"@) by { assert(x.p(" as "@).p("!"@) =~= x.p(" as !"@)); } }
spec fn impl_name(n: syn::ItemImpl) -> Seq<char> { let ty = stream_text(syn::type_stream(*n.self_ty)); match n.trait_ { None => ty,
    Some((bang, tr, _)) => "("@.p(ty).p(if bang is Some { " as !"@ } else { " as "@ }).p(stream_text(syn::path_stream(tr))).p(")"@) } }
// what a source file yields
spec fn rust_marks(c: Content, p: PathBuf) -> Marks { match whole(c) {
    Err(e) => Marks { reqs: Seq::empty(), errs: seq![Error::Io(p, string_of(io::io_text(e)))] },
    Ok(t) => match syn::parsed(t) { Err(e) => Marks { reqs: Seq::empty(), errs: seq![Error::Format(place(p, syn::error_span(e)), string_of(Seq::empty()))] },
        Ok(f) => run_all(below(f), below(f).len() as int, Seq::empty(), Seq::empty(), p, Marks { reqs: Seq::empty(), errs: Seq::empty() }) } } }
// ===== without the state: the well formed marks of a tree, each with the path of the items around it, and the malformed ones, as they come
spec fn ref_at(x: syn::ExprMacro, p: PathBuf) -> Reference { let (id, title) = read_mark(x)->Ok_0;
    Reference { id: RequirementId(string_of(id)), title: match title { Some(t) => Some(string_of(t)), None => None }, location: place(p, mark_span(x)) } }
spec fn marks_in(n: Node, scope: Seq<Seq<char>>, p: PathBuf) -> Seq<(RequirementId, Reference)> decreases n, 0int { match n {
    Node::Item(name, at, kids) => marks_in_all(kids, kids.len() as int, scope.push(name), p),
    Node::Mac(x, kids) => if is_mark(x) { if read_mark(x) is Ok { seq![(item_path(scope), ref_at(x, p))] } else { Seq::empty() } } else { marks_in_all(kids, kids.len() as int, scope, p) } } }
spec fn marks_in_all(kids: Seq<Node>, k: int, scope: Seq<Seq<char>>, p: PathBuf) -> Seq<(RequirementId, Reference)> decreases kids, k {
    if k <= 0 || k > kids.len() { Seq::empty() } else { marks_in_all(kids, k - 1, scope, p) + marks_in(kids[k - 1], scope, p) } }
spec fn bad_in(n: Node) -> Seq<Span> decreases n, 0int { match n { Node::Item(name, at, kids) => bad_in_all(kids, kids.len() as int),
    Node::Mac(x, kids) => if is_mark(x) { if read_mark(x) is Ok { Seq::empty() } else { seq![read_mark(x)->Err_0] } } else { bad_in_all(kids, kids.len() as int) } } }
spec fn bad_in_all(kids: Seq<Node>, k: int) -> Seq<Span> decreases kids, k { if k <= 0 || k > kids.len() { Seq::empty() } else { bad_in_all(kids, k - 1) + bad_in(kids[k - 1]) } }
spec fn bad_errs(s: Seq<Span>, p: PathBuf) -> Seq<Error> { Seq::new(s.len(), |i: int| Error::Format(place(p, s[i]), string_of(Seq::empty()))) }
spec fn of_req(m: Marked) -> Seq<(RequirementId, Reference)> { Seq::new(m.covers.len(), |i: int| (m.path, m.covers[i])) }
spec fn all_refs(s: Seq<Marked>) -> Seq<(RequirementId, Reference)> decreases s.len() { if s.len() == 0 { Seq::empty() } else { all_refs(s.drop_last()) + of_req(s.last()) } }
// neighbours differ: marks that follow one another in the same item share a requirement
spec fn merged(s: Seq<Marked>) -> bool { forall|i: int| 0 < i < s.len() ==> (#[trigger] s[i]).path != s[i - 1].path }
spec fn full(s: Seq<Marked>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).plain && s[i].covers.len() > 0 }
proof fn marked_once(x: syn::ExprMacro, scope: Seq<Seq<char>>, locs: Seq<Location>, p: PathBuf, m: Marks)
    requires merged(m.reqs), full(m.reqs)
    ensures merged(marked(x, scope, locs, p, m).reqs), full(marked(x, scope, locs, p, m).reqs),
        all_refs(marked(x, scope, locs, p, m).reqs) == all_refs(m.reqs) + (if read_mark(x) is Ok { seq![(item_path(scope), ref_at(x, p))] } else { Seq::empty() })
{ let m1 = marked(x, scope, locs, p, m); let r = ref_at(x, p);
    if read_mark(x) is Ok {
        if m.reqs.len() > 0 && m.reqs.last().path == item_path(scope) {
            assert(m1.reqs.drop_last() =~= m.reqs.drop_last()); assert(of_req(m1.reqs.last()) =~= of_req(m.reqs.last()).push((item_path(scope), r)));
            assert(all_refs(m1.reqs) =~= all_refs(m.reqs) + seq![(item_path(scope), r)]);
            assert forall|i: int| 0 < i < m1.reqs.len() implies (#[trigger] m1.reqs[i]).path != m1.reqs[i - 1].path by { assert(m.reqs[i].path != m.reqs[i - 1].path); }
            assert forall|i: int| 0 <= i < m1.reqs.len() implies (#[trigger] m1.reqs[i]).plain && m1.reqs[i].covers.len() > 0 by { assert(m.reqs[i].plain); }
        } else {
            assert(m1.reqs.drop_last() =~= m.reqs); assert(of_req(m1.reqs.last()) =~= seq![(item_path(scope), r)]);
            assert forall|i: int| 0 < i < m1.reqs.len() implies (#[trigger] m1.reqs[i]).path != m1.reqs[i - 1].path by { if i < m.reqs.len() { assert(m.reqs[i].path != m.reqs[i - 1].path); } }
        }
    } else { assert(all_refs(m.reqs) + Seq::empty() =~= all_refs(m.reqs)); } }
proof fn run_once(n: Node, scope: Seq<Seq<char>>, locs: Seq<Location>, p: PathBuf, m: Marks)
    requires merged(m.reqs), full(m.reqs)
    ensures merged(run(n, scope, locs, p, m).reqs), full(run(n, scope, locs, p, m).reqs), all_refs(run(n, scope, locs, p, m).reqs) == all_refs(m.reqs) + marks_in(n, scope, p),
        run(n, scope, locs, p, m).errs == m.errs + bad_errs(bad_in(n), p)
    decreases n, 0int
{ match n {
    Node::Item(name, at, kids) => { run_all_once(kids, kids.len() as int, scope.push(name), locs.push(place(p, at)), p, m); }
    Node::Mac(x, kids) => { if is_mark(x) { marked_once(x, scope, locs, p, m); assert(run(n, scope, locs, p, m).errs =~= m.errs + bad_errs(bad_in(n), p)); } else { run_all_once(kids, kids.len() as int, scope, locs, p, m); } } } }
proof fn run_all_once(kids: Seq<Node>, k: int, scope: Seq<Seq<char>>, locs: Seq<Location>, p: PathBuf, m: Marks)
    requires merged(m.reqs), full(m.reqs)
    ensures merged(run_all(kids, k, scope, locs, p, m).reqs), full(run_all(kids, k, scope, locs, p, m).reqs), all_refs(run_all(kids, k, scope, locs, p, m).reqs) == all_refs(m.reqs) + marks_in_all(kids, k, scope, p),
        run_all(kids, k, scope, locs, p, m).errs == m.errs + bad_errs(bad_in_all(kids, k), p)
    decreases kids, k
{ if k <= 0 || k > kids.len() { assert(all_refs(m.reqs) + Seq::empty() =~= all_refs(m.reqs)); assert(m.errs + bad_errs(bad_in_all(kids, k), p) =~= m.errs); }
    else { let m1 = run_all(kids, k - 1, scope, locs, p, m); run_all_once(kids, k - 1, scope, locs, p, m); run_once(kids[k - 1], scope, locs, p, m1);
        assert(all_refs(run_all(kids, k, scope, locs, p, m).reqs) =~= all_refs(m.reqs) + marks_in_all(kids, k, scope, p));
        assert(m1.errs + bad_errs(bad_in(kids[k - 1]), p) =~= m.errs + bad_errs(bad_in_all(kids, k), p)); } }
// what C16 says of the marks of a file that can be read and parsed
spec fn each_once(reqs: Seq<Marked>, errs: Seq<Error>, f: syn::File, p: PathBuf) -> bool { let k = below(f);
    all_refs(reqs) == marks_in_all(k, k.len() as int, Seq::empty(), p) && merged(reqs) && full(reqs) && errs == bad_errs(bad_in_all(k, k.len() as int), p) }
proof fn file_once(f: syn::File, p: PathBuf) ensures ({ let k = below(f); let m = run_all(k, k.len() as int, Seq::empty(), Seq::empty(), p, Marks { reqs: Seq::empty(), errs: Seq::empty() }); each_once(m.reqs, m.errs, f, p) })
{ let k = below(f); let m = Marks { reqs: Seq::empty(), errs: Seq::empty() }; run_all_once(k, k.len() as int, Seq::empty(), Seq::empty(), p, m);
    assert(all_refs(m.reqs) + marks_in_all(k, k.len() as int, Seq::empty(), p) =~= marks_in_all(k, k.len() as int, Seq::empty(), p));
    assert(m.errs + bad_errs(bad_in_all(k, k.len() as int), p) =~= bad_errs(bad_in_all(k, k.len() as int), p)); }
