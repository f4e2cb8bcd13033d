//! Offline stand-in for `argh`.
pub use argh_derive::FromArgs;

pub trait FromArgs: Sized {
    fn parse_args(args: &mut dyn Iterator<Item = String>) -> Result<Self, String>;
}

pub fn from_env<T: FromArgs>() -> T {
    match T::parse_args(&mut std::env::args().skip(1)) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(1)
        }
    }
}
