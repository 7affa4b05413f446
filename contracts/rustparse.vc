@include rustspec
@types Parser
@only parsers/rust.rs::Parser::Visit::
@fn parsers/rust.rs::Parser::parse_macro
@ensures
[*] back(*old(self), *final(self))
[C16] ret == is_mark(*node)
[C16] abs(*final(self)) == (if is_mark(*node) { marked(*node, stexts(old(self).scope@), old(self).locations@, *old(self).path, abs(*old(self))) } else { abs(*old(self)) })
@begin
broadcast use group_marks;
@finish
[C16] assert(abs(*self).reqs =~= marked(*node, stexts(old(self).scope@), old(self).locations@, *old(self).path, abs(*old(self))).reqs);
@acc 1 Vec<TokenTree>
@loop 1
@inv
[C16] $acc1@ == $s1.take($it1.pos())
@tail
[C16] assert($acc1@ =~= $s1.take($it1.pos()));
@post
[C16] assert($s1.take($s1.len() as int) =~= $s1);
@fn parsers/rust.rs::Parser::Visit::visit_expr_macro
@ensures
[*] back(*old(self), *final(self))
[C16] done(*old(self), Node::Mac(*node, below(*node)), *final(self))
@begin
broadcast use group_marks;
@fn parsers/rust.rs::Parser::Visit::visit_item_fn
@ensures
[*] back(*old(self), *final(self))
[C16] done(*old(self), named(node.sig.ident, *node), *final(self))
@begin
broadcast use group_marks;
@fn parsers/rust.rs::Parser::Visit::visit_impl_item_method
@ensures
[*] back(*old(self), *final(self))
[C16] done(*old(self), named(node.sig.ident, *node), *final(self))
@begin
broadcast use group_marks;
@fn parsers/rust.rs::Parser::Visit::visit_trait_item_method
@ensures
[*] back(*old(self), *final(self))
[C16] done(*old(self), named(node.sig.ident, *node), *final(self))
@begin
broadcast use group_marks;
@fn parsers/rust.rs::Parser::Visit::visit_item_trait
@ensures
[*] back(*old(self), *final(self))
[C16] done(*old(self), named(node.ident, *node), *final(self))
@begin
broadcast use group_marks;
@fn parsers/rust.rs::Parser::Visit::visit_item_mod
@ensures
[*] back(*old(self), *final(self))
[C16] done(*old(self), named(node.ident, *node), *final(self))
@begin
broadcast use group_marks;
@fn parsers/rust.rs::Parser::Visit::visit_item_impl
@ensures
[*] back(*old(self), *final(self))
[C16] done(*old(self), Node::Item(impl_name(*node), syn::type_span(*node.self_ty), below(*node)), *final(self))
@begin
broadcast use group_marks;
[C16] proof { bang_split(); }
@fn parsers/rust.rs::parse
@ensures
[C16] markeds(ret.0@) == rust_marks(old(reader).content(), *path).reqs
[C16] whole(old(reader).content()) matches Ok(t) ==> (syn::parsed(t) matches Ok(f) ==> each_once(markeds(ret.0@), plains(ret.1@), f, *path))
[C16] plains(ret.1@) == rust_marks(old(reader).content(), *path).errs
@begin
broadcast use group_marks;
assert(markeds(Seq::empty()) =~= Seq::empty()); assert(plains(Seq::empty()) =~= Seq::empty());
[C16] proof { if whole(reader.content()) is Ok && syn::parsed(whole(reader.content())->Ok_0) is Ok { file_once(syn::parsed(whole(reader.content())->Ok_0)->Ok_0, *path); } }
