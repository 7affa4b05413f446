@include monospec
@fn parsers/monoreq.rs::parse
@ensures
[C15] ret.0@ == mono_reqs(reader.content(), *path)
[C15] mono_errs_ok(reader.content(), *path, ret.1@)
@type title Option<String>
@begin
let ghost c = reader.content();
proof { few_lines(c); }
@loop 1
@inv
[*] $it1.pos() <= chunks(c).len()
[C15] title == mono_title(c, $it1.pos())
[C15] depends@ == mono_refs(c, *path, $it1.pos())
[C15] errors@ == Seq::<Error>::empty()
@post
[C15] assert(errors@ =~= stop_errs(c, *path));
@finish
[C15] assert(errors@.len() > stop_errs(c, *path).len() ==> errors@.drop_last() =~= stop_errs(c, *path));
[C15] proof { req_parts(&*requirements@[0]); assert(requirements@ =~= mono_reqs(c, *path)); }
