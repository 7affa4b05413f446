@include monospec
@spec
// ===== Markdown documents: what each line is
spec fn req_heading(l: Seq<char>) -> Option<Seq<Option<Seq<char>>>> { re_groups("^(#+)\\s*(\\p{XID_Start}\\p{XID_Continue}+):\\s*(.+?)\\s*$"@, l) }
spec fn heading(l: Seq<char>) -> bool { l.len() > 0 && l[0] == '#' }
broadcast axiom fn axiom_heading(l: Seq<char>) ensures #[trigger] re_match("^#"@, l) == heading(l);
spec fn attr_line(l: Seq<char>) -> Option<Seq<Option<Seq<char>>>> { re_groups("^([A-Z][a-z]+):\\s*(.*)\\s*$"@, l) }
spec fn bullet(l: Seq<char>) -> Option<Seq<Option<Seq<char>>>> { re_groups("^\\s*[*+-]\\s+(\\p{XID_Start}\\p{XID_Continue}+)(?::\\s*(.+?))?\\s*$"@, l) }
spec fn blank(l: Seq<char>) -> bool { l == "\n"@ || l == "\r\n"@ }
enum Ev { Eof, Req(Seq<Option<Seq<char>>>), Heading, Line(Seq<char>), Empty }
spec fn classify(l: Seq<char>) -> Ev { if blank(l) { Ev::Empty } else if req_heading(l) is Some { Ev::Req(req_heading(l)->Some_0) } else if heading(l) { Ev::Heading } else { Ev::Line(l) } }
// ===== what has been read of a document
// Skip: not in a requirement, or behind a malformed line; Start: behind the heading; Desc: in a paragraph of the description;
// DescGap: behind a blank line of the description; Gap: behind a list of references; Text, Refs: in the attribute of that name
enum Mode { Skip, Start, Desc, DescGap, Gap, Text(String), Refs(String) }
struct Body { id: RequirementId, title: Option<String>, at: Location, covers: Seq<Reference>, depends: Seq<Reference>, attrs: Map<String, String>, plain: bool }
struct Doc { done: Seq<Body>, cur: Option<Body>, mode: Mode, text: Seq<char>, refs: Seq<Reference>, errs: Seq<Error> }
spec fn covers_name() -> String { string_of("Covers"@) }
spec fn depends_name() -> String { string_of("Depends"@) }
spec fn with_attr(b: Body, name: String, text: Seq<char>) -> Body { Body { attrs: b.attrs.insert(name, string_of(text)), ..b } }
// the requirement, with the attribute that has been read last
spec fn closed(d: Doc) -> Body { let b = d.cur->Some_0; match d.mode {
    Mode::Desc => with_attr(b, string_of("Description"@), d.text), Mode::DescGap => with_attr(b, string_of("Description"@), d.text), Mode::Text(a) => with_attr(b, a, d.text),
    Mode::Refs(a) => if a == covers_name() { Body { covers: d.refs, ..b } } else { Body { depends: d.refs, ..b } }, _ => b } }
spec fn finished(d: Doc) -> Seq<Body> { if d.cur is Some { d.done.push(closed(d)) } else { d.done } }
spec fn to(d: Doc, mode: Mode, text: Seq<char>, refs: Seq<Reference>) -> Doc { Doc { mode, text, refs, ..d } }
spec fn close(d: Doc, mode: Mode) -> Doc { Doc { cur: Some(closed(d)), mode, text: Seq::empty(), refs: Seq::empty(), ..d } }
spec fn malformed(d: Doc, at: Location) -> Doc { Doc { errs: d.errs.push(Error::Format(at, string_of(Seq::empty()))), ..close(d, Mode::Skip) } }
spec fn pieces_refs(ps: Seq<Seq<char>>, n: int, at: Location) -> Seq<Reference> decreases n {
    if n <= 0 { Seq::empty() } else { let s = pieces_refs(ps, n - 1, at); let t = trimmed(ps[n - 1]);
        if t.len() > 0 { s.push(Reference { id: RequirementId(string_of(t)), title: None, location: at }) } else { s } } }
spec fn listed(t: Seq<char>, at: Location) -> Seq<Reference> { let ps = split_text(trimmed(t), ','); pieces_refs(ps, ps.len() as int, at) }
proof fn pieces_alike(a: Seq<Seq<char>>, b: Seq<Seq<char>>, n: int, at: Location) requires alike(a, b), n <= a.len() ensures pieces_refs(a, n, at) == pieces_refs(b, n, at) decreases n { if n > 0 { pieces_alike(a, b, n - 1, at); assert(trimmed(a[n - 1]) == trimmed(b[n - 1])); } }
// it makes no difference whether the list is trimmed as a whole
proof fn listed_untrimmed(t: Seq<char>, at: Location) ensures listed(t, at) == pieces_refs(split_text(t, ','), split_text(t, ',').len() as int, at) { axiom_blank(); split_trim(t, ','); pieces_alike(split_text(t, ','), split_text(trimmed(t), ','), split_text(t, ',').len() as int, at); }
spec fn repeated(d: Doc, again: bool, name: String, at: Location) -> Doc { if again { Doc { errs: d.errs.push(Error::DuplicateAttribute(at, name, d.cur->Some_0.id)), ..d } } else { d } }
// an attribute of which the first line has been read
spec fn begun(d: Doc, g: Seq<Option<Seq<char>>>, at: Location) -> Doc { let b = d.cur->Some_0; let name = string_of(g[1]->Some_0); let first = g[2]->Some_0;
    if name == covers_name() { to(repeated(d, b.covers.len() > 0, name, at), Mode::Refs(name), Seq::empty(), listed(first, at)) }
    else if name == depends_name() { to(repeated(d, b.depends.len() > 0, name, at), Mode::Refs(name), Seq::empty(), listed(first, at)) }
    else { to(repeated(d, b.attrs.contains_key(name), name, at), Mode::Text(name), first, Seq::empty()) } }
spec fn broken(t: Seq<char>) -> Seq<char> { if t.len() > 0 && t.last() != '\n' { t.push('\n') } else { t } }
spec fn opened(g: Seq<Option<Seq<char>>>, at: Location) -> Body {
    Body { id: RequirementId(string_of(g[2]->Some_0)), title: Some(string_of(trimmed(g[3]->Some_0))), at, covers: Seq::empty(), depends: Seq::empty(), attrs: Map::empty(), plain: true } }
spec fn step(d: Doc, e: Ev, at: Location) -> Doc { match e {
    Ev::Req(g) => Doc { done: finished(d), cur: Some(opened(g, at)), mode: Mode::Start, text: Seq::empty(), refs: Seq::empty(), errs: d.errs },
    Ev::Heading => Doc { done: finished(d), cur: None, mode: Mode::Skip, text: Seq::empty(), refs: Seq::empty(), errs: d.errs },
    Ev::Eof => if d.mode is Skip { d } else { Doc { done: finished(d), cur: None, mode: Mode::Skip, text: Seq::empty(), refs: Seq::empty(), errs: d.errs } },
    Ev::Empty => match d.mode {
        Mode::Desc | Mode::DescGap => to(d, Mode::DescGap, d.text.push('\n'), d.refs),
        Mode::Text(a) => to(d, d.mode, d.text.push('\n'), d.refs),
        Mode::Refs(a) => close(d, Mode::Gap), _ => d },
    Ev::Line(l) => match d.mode {
        Mode::Skip => d,
        Mode::Start => if attr_line(l) is Some { begun(d, attr_line(l)->Some_0, at) } else { to(d, Mode::Desc, l, d.refs) },
        Mode::Desc => to(d, Mode::Desc, d.text + l, d.refs),
        Mode::DescGap => if attr_line(l) is Some { begun(close(d, Mode::Gap), attr_line(l)->Some_0, at) } else { to(d, Mode::Desc, d.text + l, d.refs) },
        Mode::Gap => if attr_line(l) is Some { begun(d, attr_line(l)->Some_0, at) } else { malformed(d, at) },
        Mode::Text(a) => if attr_line(l) is Some { begun(close(d, Mode::Gap), attr_line(l)->Some_0, at) } else { to(d, d.mode, broken(d.text) + l, d.refs) },
        Mode::Refs(a) => if bullet(l) is Some { to(d, d.mode, d.text, d.refs.push(ref_of(bullet(l)->Some_0, 1, at))) }
            else if trimmed(l).len() == 0 { close(d, Mode::Gap) } else { malformed(d, at) } } } }
spec fn doc0() -> Doc { Doc { done: Seq::empty(), cur: None, mode: Mode::Skip, text: Seq::empty(), refs: Seq::empty(), errs: Seq::empty() } }
// the first n lines have been read
spec fn doc(c: Content, p: PathBuf, n: int) -> Doc decreases n { if n <= 0 { doc0() } else { step(doc(c, p, n - 1), classify(chunks(c)[n - 1]), line_at(p, n)) } }
spec fn document(c: Content, p: PathBuf) -> Doc { let n = chunks(c).len() as int; step(doc(c, p, n), Ev::Eof, line_at(p, n + 1)) }
// ===== the same as the parser has it
spec fn body_of(q: Requirement) -> Body { Body { id: q.id, title: q.title, at: q.location, covers: q.covers@, depends: q.depends@, attrs: q.attributes@, plain: q.tags@.len() == 0 } }
spec fn bodies(s: Seq<Rc<Requirement>>) -> Seq<Body> { Seq::new(s.len(), |i: int| body_of(*s[i])) }
broadcast proof fn bodies_push(s: Seq<Rc<Requirement>>, q: Rc<Requirement>) ensures #[trigger] bodies(s.push(q)) == bodies(s).push(body_of(*q)) { assert(bodies(s.push(q)) =~= bodies(s).push(body_of(*q))); }
spec fn state_mode(s: State) -> Mode { match s { State::LookForReq => Mode::Skip, State::LookForDesc => Mode::Start, State::CollectDesc(_) => Mode::Desc, State::CollectDescNl(_) => Mode::DescGap,
    State::LookForAttr => Mode::Gap, State::CollectTextAttr(a, _) => Mode::Text(a), State::CollectRefLink(a, _) => Mode::Refs(a) } }
spec fn state_text(s: State) -> Seq<char> { match s { State::CollectDesc(t) => t@, State::CollectDescNl(t) => t@, State::CollectTextAttr(_, t) => t@, _ => Seq::empty() } }
spec fn state_refs(s: State) -> Seq<Reference> { match s { State::CollectRefLink(_, r) => r@, _ => Seq::empty() } }
spec fn abs(x: Context, s: State) -> Doc { Doc { done: bodies(x.requirements@), cur: match x.req_under_construction { Some(q) => Some(body_of(*q)), None => None },
    mode: state_mode(s), text: state_text(s), refs: state_refs(s), errs: plains(x.errors@) } }
spec fn ev_of(e: Event) -> Ev { match e { Event::Eof => Ev::Eof, Event::Req(c) => Ev::Req(c.groups()), Event::Heading => Ev::Heading, Event::Line(l) => Ev::Line(l@), Event::Empty => Ev::Empty } }
spec fn doc_ok(d: Doc) -> bool { (!(d.mode is Skip) ==> d.cur is Some) && (d.mode matches Mode::Refs(a) ==> a == covers_name() || a == depends_name()) }
// the parts of a document: the headings, the contents, the problems
spec fn head(b: Body) -> (RequirementId, Option<String>, Location) { (b.id, b.title, b.at) }
spec fn heads(s: Seq<Body>) -> Seq<(RequirementId, Option<String>, Location)> { Seq::new(s.len(), |i: int| head(s[i])) }
spec fn inside(b: Body) -> (Seq<Reference>, Seq<Reference>, Map<String, String>, bool) { (b.covers, b.depends, b.attrs, b.plain) }
spec fn insides(s: Seq<Body>) -> Seq<(Seq<Reference>, Seq<Reference>, Map<String, String>, bool)> { Seq::new(s.len(), |i: int| inside(s[i])) }
broadcast proof fn heads_push(s: Seq<Body>, b: Body) ensures #[trigger] heads(s.push(b)) == heads(s).push(head(b)) { assert(heads(s.push(b)) =~= heads(s).push(head(b))); }
broadcast proof fn insides_push(s: Seq<Body>, b: Body) ensures #[trigger] insides(s.push(b)) == insides(s).push(inside(b)) { assert(insides(s.push(b)) =~= insides(s).push(inside(b))); }
spec fn same_mode(a: Doc, b: Doc) -> bool { a.mode == b.mode && (a.cur is Some <==> b.cur is Some) }
spec fn same_heads(a: Doc, b: Doc) -> bool { same_mode(a, b) && heads(a.done) == heads(b.done) && (a.cur is Some ==> head(a.cur->Some_0) == head(b.cur->Some_0)) }
spec fn same_insides(a: Doc, b: Doc) -> bool { same_mode(a, b) && insides(a.done) == insides(b.done) && (a.cur is Some ==> inside(a.cur->Some_0) == inside(b.cur->Some_0)) && a.text == b.text && a.refs == b.refs }
spec fn same_errs(a: Doc, b: Doc) -> bool { same_mode(a, b) && a.errs == b.errs && (a.refs.len() == 0 <==> b.refs.len() == 0) && (a.cur is Some ==> {
    let x = a.cur->Some_0; let y = b.cur->Some_0; x.id == y.id && (x.covers.len() == 0 <==> y.covers.len() == 0) && (x.depends.len() == 0 <==> y.depends.len() == 0) && x.attrs.dom() == y.attrs.dom() }) }
broadcast group group_doc { axiom_heading, plains_push, bodies_push, heads_push, insides_push }
// ===== C12, without the state machine: the requirement headings among the first n lines
spec fn is_req(l: Seq<char>) -> bool { !blank(l) && req_heading(l) is Some }
spec fn head_of(l: Seq<char>, at: Location) -> (RequirementId, Option<String>, Location) { let g = req_heading(l)->Some_0; (RequirementId(string_of(g[2]->Some_0)), Some(string_of(trimmed(g[3]->Some_0))), at) }
spec fn req_heads(c: Content, p: PathBuf, n: int) -> Seq<(RequirementId, Option<String>, Location)> decreases n {
    if n <= 0 { Seq::empty() } else { let s = req_heads(c, p, n - 1); let l = chunks(c)[n - 1]; if is_req(l) { s.push(head_of(l, line_at(p, n))) } else { s } } }
// the finding F1: behind a malformed line, and no heading follows
spec fn lost(d: Doc) -> bool { d.mode is Skip && d.cur is Some }
spec fn seen(d: Doc) -> Seq<(RequirementId, Option<String>, Location)> { if d.cur is Some { heads(d.done).push(head(d.cur->Some_0)) } else { heads(d.done) } }
proof fn all_headings(c: Content, p: PathBuf, n: int) requires 0 <= n ensures seen(doc(c, p, n)) == req_heads(c, p, n), doc_ok(doc(c, p, n)) decreases n
{ broadcast use group_doc; if n > 0 { all_headings(c, p, n - 1); } else { assert(heads(doc0().done) =~= req_heads(c, p, 0)); } }
spec fn headings(c: Content, p: PathBuf) -> Seq<(RequirementId, Option<String>, Location)> { let n = chunks(c).len() as int;
    if lost(doc(c, p, n)) { req_heads(c, p, n).drop_last() } else { req_heads(c, p, n) } }
proof fn document_headings(c: Content, p: PathBuf) ensures heads(document(c, p).done) == headings(c, p)
{ broadcast use group_doc; let n = chunks(c).len() as int; all_headings(c, p, n); let d = doc(c, p, n); if lost(d) { assert(heads(d.done).push(head(d.cur->Some_0)).drop_last() =~= heads(d.done)); } }
// a step keeps what is the same the same
proof fn step_heads(a: Doc, b: Doc, e: Ev, at: Location) requires same_heads(a, b), doc_ok(a) ensures same_heads(step(a, e, at), step(b, e, at)) { broadcast use group_doc; }
proof fn step_insides(a: Doc, b: Doc, e: Ev, at: Location) requires same_insides(a, b), doc_ok(a) ensures same_insides(step(a, e, at), step(b, e, at)) { broadcast use group_doc; }
proof fn step_errs(a: Doc, b: Doc, e: Ev, at: Location) requires same_errs(a, b), doc_ok(a) ensures same_errs(step(a, e, at), step(b, e, at)) { broadcast use group_doc; }
proof fn step_eof(d: Doc, at0: Location) ensures step(d, Ev::Eof, at0).errs == d.errs,
    forall|x: Doc, at: Location| x.done == d.done && x.cur == d.cur && x.mode == d.mode && x.text == d.text && x.refs == d.refs ==> (#[trigger] step(x, Ev::Eof, at)) == (Doc { errs: x.errs, ..step(d, Ev::Eof, at0) }) { }
