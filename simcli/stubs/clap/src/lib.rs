//! Stand-in for `clap`: the real one, except that the command line comes from the simulation.
pub use real::*;
/// What the derive macro implements; the arguments are those of the simulated process.
pub trait Parser: FromArgMatches + CommandFactory + Sized {
    fn try_parse() -> Result<Self, Error> { let args = simterm::term(|t| t.args.clone()); let m = Self::command().try_get_matches_from(args)?; Self::from_arg_matches(&m) }
    fn parse() -> Self { Self::try_parse().unwrap_or_else(|e| { simterm::put_err(format_args!("{e}")); simterm::exit(e.exit_code()) }) }
    fn parse_from<I, T>(args: I) -> Self where I: IntoIterator<Item = T>, T: Into<std::ffi::OsString> + Clone { let m = Self::command().get_matches_from(args); Self::from_arg_matches(&m).unwrap() }
}
