@include loadspec
@extern parsers/markdown.rs::parse
@ensures
[*] ret.0@ == mdp_reqs(old(reader).content(), *path), ret.1@ == mdp_errs(old(reader).content(), *path)
@extern parsers/monoreq.rs::parse
@ensures
[*] ret.0@ == mono_reqs(reader.content(), *path), ret.1@ == mono_errs(reader.content(), *path)
@extern parsers/rust.rs::parse
@ensures
[*] ret.0@ == rust_reqs(old(reader).content(), *path), ret.1@ == rust_errs(old(reader).content(), *path)
@fn controller.rs::glob_paths
@ensures
[C06 C11 C21] match globs(*base_dir, paths@, paths@.len() as int) { Ok(s) => ret is Ok && ret->Ok_0@ == s, Err(e) => ret is Err && ret->Err_0 == e }
@loop 1
@inv
[C06 C11 C21] globs(*base_dir, paths@, $it1.pos()) == Result::<Seq<PathBuf>, Error>::Ok(result@)
@head
let ghost r0 = result@;
let ghost n1 = $it1.pos();
proof { if globs(*base_dir, paths@, n1) is Err { globs_stop(*base_dir, paths@, n1, paths@.len() as int); } }
@loop 2
@inv
[C06 C11 C21] matches(r0, $s2, $it2.pos()) == Result::<Seq<PathBuf>, Error>::Ok(result@)
[C06 C11 C21] glob::globbed(pattern(*base_dir, paths@[n1 - 1])) == Result::<Seq<glob::GlobResult>, glob::PatternError>::Ok($s2)
@head
proof { if matches(r0, $s2, $it2.pos()) is Err { matches_stop(r0, $s2, $it2.pos(), $s2.len() as int); } }
@fn controller.rs::parse_single_file
@requires
[*] !(config.parser is Rust)
@ensures
[C06 C11 C21] single_ok(*config, *base_dir, Load { paths: ret.0@, reqs: ret.1@, errs: ret.2@ })
@fn controller.rs::parse_multiple_files
@acc 1 Vec<PathBuf>
@requires
[*] config.parser is Rust
@ensures
[C06 C11 C21] multi_ok(*config, *base_dir, Load { paths: ret.0@, reqs: ret.1@, errs: ret.2@ })
@loop 2
@inv
[C06 C11 C21] requirements@ == files_reqs(config.parser, paths@, $it2.pos())
[C06 C11 C21] errors@ == files_errs(config.parser, paths@, $it2.pos())
@fn controller.rs::parse_from_config
@ensures
[C06 C11 C21] artefact_ok(*config, *base_dir, ret.1@, ret.2@)
[*] forall|k: RequirementId| #[trigger] ret.1@.contains_key(k) ==> ret.1@[k].id == k
@finish
@loop 1
@inv
[*] requirements@ == kept($s1, $it1.pos())
[*] errors@ == dups(errs0, $s1, $it1.pos())
@pre
let ghost errs0 = errors@;
let ghost l0 = Load { paths: paths@, reqs: requirement_vec@, errs: errors@ };
@post
proof { kept_keyed($s1, $s1.len() as int); }
[C06 C11 C21] assert(artefact_ok(*config, *base_dir, requirements@, errors@)) by { reveal(artefact_ok); assert(load_ok(*config, *base_dir, l0)); }
