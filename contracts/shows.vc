@include text
@fn models.rs::ArtefactId::Display::fmt
@ensures
[*] ret is Ok ==> final(f).text() == old(f).text().p(self.shown())
@fn models.rs::RequirementId::Display::fmt
@ensures
[*] ret is Ok ==> final(f).text() == old(f).text().p(self.shown())
@fn models.rs::LocationInFile::Display::fmt
@ensures
[*] ret is Ok ==> final(f).text() == old(f).text().p(self.shown())
@fn models.rs::Location::Display::fmt
@ensures
[*] ret is Ok ==> final(f).text() == old(f).text().p(self.shown())
@fn models.rs::Requirement::Display::fmt
@ensures
[*] ret is Ok ==> final(f).text() == old(f).text().p(self.shown())
@fn models.rs::Relation::Display::fmt
@ensures
[*] ret is Ok ==> final(f).text() == old(f).text().p(self.shown())
@acc 1 Vec<String>
@loop 1
@inv
[*] stexts($acc1@) == lower_texts(*self).take($it1.pos())
@tail
assert(stexts($acc1@) =~= lower_texts(*self).take($it1.pos()));
@post
assert(lower_texts(*self).take(self.lower@.len() as int) =~= lower_texts(*self));
@fn models.rs::TracedRelation::Display::fmt
@ensures
[*] ret is Ok ==> final(f).text() == old(f).text().p(self.shown())
