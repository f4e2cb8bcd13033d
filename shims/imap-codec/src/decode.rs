use bounded_static::{IntoBoundedStatic, ToStatic};
use imap_types::{
    auth::AuthenticateData,
    command::Command,
    core::{LiteralMode, Tag},
    extensions::idle::IdleDone,
    response::{Greeting, Response},
};

use crate::{
    parse::{self, Fail, P},
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
};

/// Decoder.
pub trait Decoder {
    type Message<'a>: Sized;
    type Error<'a>;

    /// Decode a message from the given input.
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Self::Message<'a>), Self::Error<'a>>;

    fn decode_static<'a>(
        &self,
        input: &'a [u8],
    ) -> Result<(&'a [u8], Self::Message<'static>), Self::Error<'static>>
    where
        Self::Message<'a>: IntoBoundedStatic<Static = Self::Message<'static>>,
        Self::Error<'a>: IntoBoundedStatic<Static = Self::Error<'static>>,
    {
        let (remaining, value) = self.decode(input).map_err(IntoBoundedStatic::into_static)?;
        Ok((remaining, value.into_static()))
    }
}

/// Error during greeting decoding.
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum GreetingDecodeError {
    Incomplete,
    Failed,
}
/// Error during command decoding.
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum CommandDecodeError<'a> {
    Incomplete,
    LiteralFound { tag: Tag<'a>, length: u32, mode: LiteralMode },
    Failed,
}
/// Error during authenticate data decoding.
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum AuthenticateDataDecodeError {
    Incomplete,
    Failed,
}
/// Error during response decoding.
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum ResponseDecodeError {
    Incomplete,
    LiteralFound { length: u32 },
    Failed,
}
/// Error during idle done decoding.
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum IdleDoneDecodeError {
    Incomplete,
    Failed,
}

impl Decoder for GreetingCodec {
    type Message<'a> = Greeting<'a>;
    type Error<'a> = GreetingDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Greeting<'a>), GreetingDecodeError> {
        let mut p = P::new(input);
        match parse::greeting(&mut p) {
            Ok(x) => Ok((p.rest(), x)),
            Err(Fail::Incomplete) => Err(GreetingDecodeError::Incomplete),
            Err(_) => Err(GreetingDecodeError::Failed),
        }
    }
}
impl Decoder for CommandCodec {
    type Message<'a> = Command<'a>;
    type Error<'a> = CommandDecodeError<'a>;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Command<'a>), CommandDecodeError<'a>> {
        let mut p = P::new(input);
        match parse::command(&mut p) {
            Ok(x) => Ok((p.rest(), x)),
            Err(Fail::Incomplete) => Err(CommandDecodeError::Incomplete),
            Err(Fail::Literal { length, mode }) => match parse::tag(&mut P::new(input)) {
                Ok(tag) => Err(CommandDecodeError::LiteralFound { tag, length, mode }),
                Err(_) => Err(CommandDecodeError::Failed),
            },
            Err(Fail::Failed) => Err(CommandDecodeError::Failed),
        }
    }
}
impl Decoder for AuthenticateDataCodec {
    type Message<'a> = AuthenticateData<'a>;
    type Error<'a> = AuthenticateDataDecodeError;
    fn decode<'a>(
        &self,
        input: &'a [u8],
    ) -> Result<(&'a [u8], AuthenticateData<'a>), AuthenticateDataDecodeError> {
        let mut p = P::new(input);
        match parse::authenticate_data(&mut p) {
            Ok(x) => Ok((p.rest(), x)),
            Err(Fail::Incomplete) => Err(AuthenticateDataDecodeError::Incomplete),
            Err(_) => Err(AuthenticateDataDecodeError::Failed),
        }
    }
}
impl Decoder for ResponseCodec {
    type Message<'a> = Response<'a>;
    type Error<'a> = ResponseDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], Response<'a>), ResponseDecodeError> {
        let mut p = P::new(input);
        match parse::response(&mut p) {
            Ok(x) => Ok((p.rest(), x)),
            Err(Fail::Incomplete) => Err(ResponseDecodeError::Incomplete),
            Err(Fail::Literal { length, .. }) => Err(ResponseDecodeError::LiteralFound { length }),
            Err(Fail::Failed) => Err(ResponseDecodeError::Failed),
        }
    }
}
impl Decoder for IdleDoneCodec {
    type Message<'a> = IdleDone;
    type Error<'a> = IdleDoneDecodeError;
    fn decode<'a>(&self, input: &'a [u8]) -> Result<(&'a [u8], IdleDone), IdleDoneDecodeError> {
        let mut p = P::new(input);
        match p.kw("DONE").and_then(|_| p.crlf()) {
            Ok(()) => Ok((p.rest(), IdleDone)),
            Err(Fail::Incomplete) => Err(IdleDoneDecodeError::Incomplete),
            Err(_) => Err(IdleDoneDecodeError::Failed),
        }
    }
}
