@import ctl jobs
@types Arguments
@spec
// ===== the program (assumed contracts of clap and toml)
pub mod error { pub trait Error { } }
impl error::Error for ControllerError { }
impl From<String> for Box<dyn error::Error> { #[verifier::external_body] fn from(s: String) -> Box<dyn error::Error> { unimplemented!() } }
impl VInto<Box<dyn error::Error>> for String { uninterp spec fn vinto_spec(self) -> Box<dyn error::Error>; #[verifier::external_body] fn vinto(self) -> (r: Box<dyn error::Error>) { unimplemented!() } }
impl VInto<Box<dyn error::Error>> for Box<ControllerError> { uninterp spec fn vinto_spec(self) -> Box<dyn error::Error>; #[verifier::external_body] fn vinto(self) -> (r: Box<dyn error::Error>) { unimplemented!() } }
impl VShow for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
pub uninterp spec fn command_line() -> Arguments;
pub axiom fn axiom_asked() ensures command_line().jobs@ == asked();
impl Arguments { #[verifier::external_body] fn parse() -> (r: Arguments) ensures r == command_line() { unimplemented!() } }
pub mod toml { use super::*;
#[verifier::external_body] pub struct Error { x: u8 }
impl VShow for Error { uninterp spec fn shown(&self) -> Seq<char>; }
impl Error { #[verifier::external_body] pub fn line_col(&self) -> (r: Option<(usize, usize)>) ensures r matches Some(p) ==> p.0 < usize::MAX { unimplemented!() } }
pub trait VToml: Sized { spec fn of_toml(b: Seq<u8>) -> core::result::Result<Self, Error>; }
impl VToml for Config { uninterp spec fn of_toml(b: Seq<u8>) -> core::result::Result<Config, Error>; }
#[verifier::external_body]
pub fn from_slice<T: VToml>(b: &[u8]) -> (r: core::result::Result<T, Error>) ensures r == T::of_toml(b@) { unimplemented!() }
}
// the configuration in a file, if there is a valid one
spec fn config_in(p: PathBuf) -> Option<Config> { match fs::bytes_of(p) { Err(_) => None, Ok(b) => match <Config as toml::VToml>::of_toml(b) { Err(_) => None,
    Ok(c) => if (c.version matches Some(v) ==> v == 0) && cfg_ok(c) { Some(c) } else { None } } } }
// the jobs that were asked for, run with this controller, have this result
spec fn cli_result(c: Controller, r: Option<JobSuccess>) -> bool {
    let names = requested(c);
    if names.len() > 0 && all_named(c, names) { match r {
        Some(s) => all_ran(c, jobs_of(c, names), names.len() as int) && !any_unsupported(jobs_of(c, names), names.len() as int) && (s is ErrorsDetected <==> any_counts(c, jobs_of(c, names), names.len() as int)),
        None => io::io_trouble() || any_unsupported(jobs_of(c, names), names.len() as int) } } else { r is None } }
spec fn ctl_for(c: Controller, cfg: Config) -> bool { c.graph.relations == cfg.relations && (match cfg.jobs { Some(j) => c.jobs == j, None => c.jobs@ == Map::<String, Job>::empty() }) && (match cfg.default_jobs { Some(j) => c.default_jobs == j, None => c.default_jobs@ == Seq::<String>::empty() }) }
spec fn main_result(r: Option<JobSuccess>) -> bool { match config_in(command_line().config_file) { None => r is None, Some(cfg) => exists|c: Controller| #[trigger] cli_result(c, r) && ctl_for(c, cfg) } }
spec fn ok_of<E>(r: Result<JobSuccess, E>) -> Option<JobSuccess> { match r { Ok(s) => Some(s), Err(_) => None } }
@trusted main.rs::logging_setup
@fn main.rs::get_config
@ensures
[*] match config_in(opt.config_file) { Some(c) => ret is Ok && ret->Ok_0 == c, None => ret is Err }
@fn main.rs::run_cli_jobs
@requires
[*] ctl_ok(*controller)
[*] opt.jobs@ == asked()
@ensures
[C10] cli_result(*controller, ok_of(ret))
@fn main.rs::try_main
@ensures
[C10] main_result(ok_of(ret))
@begin
proof { axiom_asked(); }
@fn main.rs::main_rc
@ensures
[C10] ret == 0 || ret == 1 || ret == 2
[C10] main_result(if ret == 0 { Some(JobSuccess::Success) } else if ret == 1 { Some(JobSuccess::ErrorsDetected) } else { None })
