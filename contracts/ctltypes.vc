@include fs
@include tgok
@types Query Job Config Controller ControllerError JobSuccess Format
@derive ControllerError Clone
@deserde Config
@deserde ArtefactConfig
@deserde ArtefactParser
@deserde ArtefactId
@deserde Relation
@deserde Job
@deserde Query
@deserde Format
@note toml reads the configuration as the derived Deserialize implementations say (attributes checked)
@spec
impl VOrDefault for Option<Vec<String>> { type T = Vec<String>;
    open spec fn or_default(self, r: Vec<String>) -> bool { match self { Some(s) => r == s, None => r@ == Seq::<String>::empty() } }
    #[verifier::external_body] fn vunwrap_or_default(self) -> (r: Vec<String>) { unimplemented!() } }
impl VOrDefault for Option<BTreeMap<String, Job>> { type T = BTreeMap<String, Job>;
    open spec fn or_default(self, r: BTreeMap<String, Job>) -> bool { match self { Some(s) => r == s, None => r@ == Map::<String, Job>::empty() } }
    #[verifier::external_body] fn vunwrap_or_default(self) -> (r: BTreeMap<String, Job>) { unimplemented!() } }
spec fn ctl_ok(c: Controller) -> bool { tg_ok(c.traced_graph) }
