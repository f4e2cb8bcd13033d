//! Canonical names for protocol values (their encoding, fragment by fragment) and byte strings.
use imap_codec::{
    encode::{Encoded, Encoder, Fragment},
    AuthenticateDataCodec, CommandCodec, GreetingCodec, ResponseCodec,
};
use imap_next::types::CommandAuthenticate;
use imap_types::{
    auth::AuthenticateData,
    command::Command,
    core::LiteralMode,
    response::{CommandContinuationRequest, Data, Greeting, Response, Status},
};

/// One char per byte (Latin-1), so that string lengths and positions are byte lengths.
pub fn bs(b: &[u8]) -> String {
    b.iter().map(|b| *b as char).collect()
}
pub fn unbs(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

pub fn frags(enc: Encoded) -> Vec<(char, Vec<u8>)> {
    enc.map(|f| match f {
        Fragment::Line { data } => ('L', data),
        Fragment::Literal { data, mode: LiteralMode::Sync } => ('S', data),
        Fragment::Literal { data, mode: LiteralMode::NonSync } => ('N', data),
    })
    .collect()
}
fn join(enc: Encoded) -> String {
    let mut s = String::new();
    for (k, d) in frags(enc) {
        s.push(k);
        s.push_str(&bs(&d));
    }
    s
}
pub fn command(c: &Command) -> String {
    join(CommandCodec::default().encode(c))
}
pub fn command_auth(c: CommandAuthenticate) -> String {
    command(&Command::from(c))
}
pub fn auth_data(d: &AuthenticateData) -> String {
    join(AuthenticateDataCodec::default().encode(d))
}
pub fn greeting(g: &Greeting) -> String {
    join(GreetingCodec::default().encode(g))
}
pub fn response(r: &Response) -> String {
    join(ResponseCodec::default().encode(r))
}
pub fn data(d: &Data) -> String {
    use bounded_static::ToBoundedStatic;
    response(&Response::Data(d.to_static()))
}
pub fn status(d: &Status) -> String {
    use bounded_static::ToBoundedStatic;
    response(&Response::Status(d.to_static()))
}
pub fn cont(d: &CommandContinuationRequest) -> String {
    use bounded_static::ToBoundedStatic;
    response(&Response::CommandContinuationRequest(d.to_static()))
}
