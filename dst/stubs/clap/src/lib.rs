//! The real clap, reading the simulated process's command line.
pub use real_clap::*;

pub trait Parser: FromArgMatches + CommandFactory + Sized {
    fn parse() -> Self {
        match Self::try_parse_from(simrt::args()) {
            Ok(x) => x,
            Err(e) => {
                eprintln!("{e}");
                std::process::exit(2)
            }
        }
    }
    fn try_parse() -> Result<Self, Error> {
        Self::try_parse_from(simrt::args())
    }
    fn parse_from<I, T>(itr: I) -> Self
    where
        I: IntoIterator<Item = T>,
        T: Into<std::ffi::OsString> + Clone,
    {
        Self::try_parse_from(itr).unwrap()
    }
    fn try_parse_from<I, T>(itr: I) -> Result<Self, Error>
    where
        I: IntoIterator<Item = T>,
        T: Into<std::ffi::OsString> + Clone,
    {
        let mut m = <Self as CommandFactory>::command().try_get_matches_from(itr)?;
        <Self as FromArgMatches>::from_arg_matches_mut(&mut m)
    }
}
