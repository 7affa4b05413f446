@import load trace
@include ctlspec
@fn controller.rs::validate_config
@ensures
[*] ret is Ok <==> cfg_ok(*config)
@loop 1
@inv
[*] distinct(config.artefacts@, $it1.pos())
[*] forall|a: ArtefactId| #[trigger] ids@.contains(&a) <==> art_known(config.artefacts@, $it1.pos(), a)
@head
proof { if !distinct(config.artefacts@, $it1.pos()) && distinct(config.artefacts@, config.artefacts@.len() as int) { distinct_part(config.artefacts@, config.artefacts@.len() as int, $it1.pos()); } }
@loop 2
@inv
[*] forall|a: ArtefactId| #[trigger] ids@.contains(&a) <==> art_known(config.artefacts@, config.artefacts@.len() as int, a)
[*] distinct(config.artefacts@, config.artefacts@.len() as int)
[*] forall|i: int| 0 <= i < $it2.pos() ==> rel_known(config.artefacts@, #[trigger] config.relations@[i])
@loop 3
@inv
[*] forall|j: int| 0 <= j < $it3.pos() ==> art_known(config.artefacts@, config.artefacts@.len() as int, *#[trigger] $s3[j])
@post
assert forall|j: int| 0 <= j < $x2.lower@.len() implies art_known(config.artefacts@, config.artefacts@.len() as int, #[trigger] $x2.lower@[j]) by { let a = ($s3[0], $s3[j], $s3[j + 1]); }
assert(art_known(config.artefacts@, config.artefacts@.len() as int, $x2.upper)) by { let a = $s3[0]; }
@fn controller.rs::Controller::new
@requires
[*] cfg_ok(config)
@ensures
[C08 C09 C10 C17 C18 C20] ctl_ok(ret)
[C01 C02 C07] rels_rel(ret.traced_graph.traced_relations@, ret.graph.relations@, ret.graph.relations@.len() as int)
[C01] rels_cov(ret.traced_graph.traced_relations@, gix(ret.graph), ret.graph.relations@, ret.graph.relations@.len() as int)
[C02] rels_unc(ret.traced_graph.traced_relations@, gix(ret.graph), ret.graph.relations@, ret.graph.relations@.len() as int)
[C05] sel(ret.traced_graph.errors@, 2) == all_terrs(gix(ret.graph), ret.graph.relations@, ret.graph.relations@.len() as int)
[C06] sel(ret.traced_graph.errors@, 1) == g_dup(ret.graph.artefacts.valseq(), ret.graph.artefacts.valseq().len() as int)
[C07] sel(ret.traced_graph.errors@, 3) == all_unused(gix(ret.graph), ret.graph.relations@, ret.graph.relations@.len() as int)
[C03] derived_ok(ret.graph, ret.traced_graph)
[C04] unknown_ok(ret.graph, ret.traced_graph.errors@)
[*] forall|a: ArtefactId| #[trigger] ret.graph.artefacts@.contains_key(a) <==> art_known(config.artefacts@, config.artefacts@.len() as int, a)
[C11] forall|i: int| 0 <= i < config.artefacts@.len() ==> art_options(#[trigger] config.artefacts@[i], config.relations@, *ret.graph.artefacts@[config.artefacts@[i].id])
[C06 C11 C21] forall|i: int| 0 <= i < config.artefacts@.len() ==> art_content(#[trigger] config.artefacts@[i], *base_dir, *ret.graph.artefacts@[config.artefacts@[i].id])
[*] ret.graph.relations == config.relations
[C10] (match config.jobs { Some(j) => ret.jobs == j, None => ret.jobs@ == Map::<String, Job>::empty() }), (match config.default_jobs { Some(j) => ret.default_jobs == j, None => ret.default_jobs@ == Seq::<String>::empty() }), ret.base_dir == *base_dir
@begin
let ghost cas = config.artefacts@;
let ghost rels = config.relations@;
@loop 1
@inv
[*] forall|a: ArtefactId| #[trigger] $acc1@.contains_key(&a) <==> art_known(cas, $it1.pos(), a)
[*] forall|a: ArtefactId| #[trigger] $acc1@.contains_key(&a) ==> $acc1@[&a]
@loop 2
@inv
[*] forall|a: ArtefactId| #[trigger] is_root@.contains_key(&a) <==> art_known(cas, cas.len() as int, a)
[C11] forall|a: ArtefactId| #[trigger] is_root@.contains_key(&a) ==> is_root@[&a] == !is_low(rels, $it2.pos(), a)
@loop 3
@inv
[*] forall|a: ArtefactId| #[trigger] is_root@.contains_key(&a) <==> art_known(cas, cas.len() as int, a)
[C11] forall|a: ArtefactId| #[trigger] is_root@.contains_key(&a) ==> is_root@[&a] == !(has($x2.lower@, $it3.pos(), a) || is_low(rels, $it2.pos() - 1, a))
@loop 4
@inv
[*] forall|a: ArtefactId| #[trigger] artefacts@.contains_key(a) <==> art_known(cas, $it4.pos(), a)
[C11] forall|i: int| 0 <= i < $it4.pos() ==> art_options(#[trigger] cas[i], rels, *artefacts@[cas[i].id])
[C06 C11 C21] forall|i: int| 0 <= i < $it4.pos() ==> art_content(#[trigger] cas[i], *base_dir, *artefacts@[cas[i].id])
[*] forall|a: ArtefactId| #[trigger] artefacts@.contains_key(a) ==> artefacts@[a].id == a && art_keyed(*artefacts@[a])
@head
proof { known_all(cas, $it4.pos() - 1); distinct_part(cas, cas.len() as int, $it4.pos()); known_all(cas, cas.len() as int); }
@tail
[C11] assert(is_root@.contains_key(&$x4.id));
[C11] assert(is_root@[&$x4.id] == !is_low(rels, rels.len() as int, $x4.id));
[C11] assert(art_options(*$x4, rels, *artefacts@[$x4.id]));
[C11] assert(art_options(cas[$it4.pos() - 1], rels, *artefacts@[cas[$it4.pos() - 1].id]));
[C06 C11 C21] assert(content_ok(*$x4, *base_dir, requirements, errors@, reference_with_title)) by { reveal(content_ok); }
@loop 5
@pre
let ghost errs0 = errors@;
@inv
[C06 C11 C21] errors@ == untitled(errs0, requirements.valseq(), $it5.pos())
@post
[C06 C11 C21] assert(content_ok(*$x4, *base_dir, requirements, errors@, true)) by { reveal(content_ok); assert(artefact_ok(*$x4, *base_dir, requirements@, errs0)); }
