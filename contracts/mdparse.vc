@include mdpspec
@types Context Event State
@fn parsers/markdown.rs::start_attribute
@requires
[*] old(context).req_under_construction is Some, attr_line.groups().len() == 3, attr_line.groups()[1] is Some, attr_line.groups()[2] is Some
@ensures
[*] final(context).path == old(context).path, final(context).line_number == old(context).line_number
[*] doc_ok(abs(*final(context), ret))
[C12] same_heads(abs(*final(context), ret), begun(abs(*old(context), State::LookForAttr), attr_line.groups(), line_at(*old(context).path, old(context).line_number as int)))
[C13] same_insides(abs(*final(context), ret), begun(abs(*old(context), State::LookForAttr), attr_line.groups(), line_at(*old(context).path, old(context).line_number as int)))
[C14] same_errs(abs(*final(context), ret), begun(abs(*old(context), State::LookForAttr), attr_line.groups(), line_at(*old(context).path, old(context).line_number as int)))
@begin
broadcast use group_doc;
let ghost at = line_at(*context.path, context.line_number as int);
proof { listed_untrimmed(attr_line.groups()[2]->Some_0, at); }
@loop 1
@inv
[*] vec@ == pieces_refs(strs($s1), $it1.pos(), at)
@loop 2
@inv
[*] vec@ == pieces_refs(strs($s2), $it2.pos(), at)
@fn parsers/markdown.rs::parse_states
@requires
[*] doc_ok(abs(*old(context), state))
[*] evt matches Event::Req(c) ==> c.groups().len() == 4 && c.groups()[1] is Some && c.groups()[2] is Some && c.groups()[3] is Some
@ensures
[*] final(context).path == old(context).path, final(context).line_number == old(context).line_number
[*] doc_ok(abs(*final(context), ret))
[C12] same_heads(abs(*final(context), ret), step(abs(*old(context), state), ev_of(*evt), line_at(*old(context).path, old(context).line_number as int)))
[C13] same_insides(abs(*final(context), ret), step(abs(*old(context), state), ev_of(*evt), line_at(*old(context).path, old(context).line_number as int)))
[C14] same_errs(abs(*final(context), ret), step(abs(*old(context), state), ev_of(*evt), line_at(*old(context).path, old(context).line_number as int)))
@begin
broadcast use group_doc;
@fn parsers/markdown.rs::parse
@ensures
[C12] heads(bodies(ret.0@)) == headings(old(reader).content(), *path)
[C13] insides(bodies(ret.0@)) == insides(document(old(reader).content(), *path).done)
[C14] plains(ret.1@) == document(old(reader).content(), *path).errs + stop_errs(old(reader).content(), *path)
@begin
hide(step);
broadcast use group_doc;
let ghost c = reader.content();
proof { few_lines(c); }
@loop 1
@inv
[*] context.line_number <= chunks(c).len(), line@.len() >= 0, chunks(reader.content()) == chunks(c).skip(context.line_number as int), stop(reader.content()) == stop(c), context.path == path
[*] doc_ok(abs(context, state))
[C12] same_heads(abs(context, state), doc(c, *path, context.line_number as int))
[C13] same_insides(abs(context, state), doc(c, *path, context.line_number as int))
[C14] same_errs(abs(context, state), doc(c, *path, context.line_number as int))
@pre
assert(abs(context, state).done =~= doc0().done && abs(context, state).errs =~= doc0().errs);
@head
let ghost n = context.line_number as int; let ghost at = line_at(*path, n + 1); let ghost d0 = abs(context, state);
let ghost e = if n < chunks(c).len() { classify(chunks(c)[n]) } else { Ev::Eof };
[C12] proof { step_heads(d0, doc(c, *path, n), e, at); }
[C13] proof { step_insides(d0, doc(c, *path, n), e, at); }
[C14] proof { step_errs(d0, doc(c, *path, n), e, at); }
[*] proof { if e is Eof && stop(c) is Some { step_eof(d0, at); step_eof(doc(c, *path, n), at); } }
@decreases chunks(reader.content()).len()
@finish
proof { document_headings(c, *path); }
