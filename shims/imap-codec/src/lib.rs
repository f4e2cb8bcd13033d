//! Stand-in for `imap-codec` 2.0.0-alpha (the real one is a git dependency that cannot be fetched
//! in this sandbox). Same traits, codecs, fragments and decode errors; the grammar covers the
//! commands and responses listed in `imap-types`' stand-in.
pub mod decode;
pub mod encode;
mod parse;

pub use imap_types;

macro_rules! codec {
    ($($n:ident),*) => { $(
        #[derive(Clone, Debug, Default, Eq, Hash, Ord, PartialEq, PartialOrd)]
        #[non_exhaustive]
        pub struct $n;
        impl $n { pub fn new() -> Self { Self } }
    )* };
}
codec!(GreetingCodec, CommandCodec, AuthenticateDataCodec, ResponseCodec, IdleDoneCodec);
