@include monospec
@fn models.rs::RequirementId::From<str>::from
@ensures
[*] ret == VInto::<RequirementId>::vinto_spec(value)
@fn models.rs::RequirementId::From<String>::from
@ensures
[*] ret == VInto::<RequirementId>::vinto_spec(value)
@fn models.rs::ArtefactId::From<str>::from
@ensures
[*] ret.0@ == value@
@fn models.rs::ArtefactId::From<String>::from
@ensures
[*] ret.0 == value
