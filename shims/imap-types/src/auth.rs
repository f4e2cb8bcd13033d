use std::{
    borrow::Cow,
    fmt::{Display, Formatter},
    str::FromStr,
};

use bounded_static::ToStatic;

use crate::{core::Atom, error::ValidationError, secret::Secret};

#[non_exhaustive]
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum AuthMechanism<'a> {
    Plain,
    Login,
    OAuthBearer,
    XOAuth2,
    ScramSha1,
    ScramSha1Plus,
    ScramSha256,
    ScramSha256Plus,
    ScramSha3_512,
    ScramSha3_512Plus,
    Other(AuthMechanismOther<'a>),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct AuthMechanismOther<'a>(pub(crate) Atom<'a>);

impl<'a> From<Atom<'a>> for AuthMechanism<'a> {
    fn from(atom: Atom<'a>) -> Self {
        match atom.as_ref() {
            s if str::eq_ignore_ascii_case(s, "plain") => Self::Plain,
            s if str::eq_ignore_ascii_case(s, "login") => Self::Login,
            s if str::eq_ignore_ascii_case(s, "oauthbearer") => Self::OAuthBearer,
            s if str::eq_ignore_ascii_case(s, "xoauth2") => Self::XOAuth2,
            s if str::eq_ignore_ascii_case(s, "scram-sha-1") => Self::ScramSha1,
            s if str::eq_ignore_ascii_case(s, "scram-sha-1-plus") => Self::ScramSha1Plus,
            s if str::eq_ignore_ascii_case(s, "scram-sha-256") => Self::ScramSha256,
            s if str::eq_ignore_ascii_case(s, "scram-sha-256-plus") => Self::ScramSha256Plus,
            s if str::eq_ignore_ascii_case(s, "scram-sha3-512") => Self::ScramSha3_512,
            s if str::eq_ignore_ascii_case(s, "scram-sha3-512-plus") => Self::ScramSha3_512Plus,
            _ => Self::Other(AuthMechanismOther(atom)),
        }
    }
}
impl<'a> TryFrom<&'a str> for AuthMechanism<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        Ok(Self::from(Atom::try_from(value)?))
    }
}
impl FromStr for AuthMechanism<'static> {
    type Err = ValidationError;
    fn from_str(value: &str) -> Result<Self, Self::Err> {
        Ok(Self::from(Atom::try_from(value.to_string())?))
    }
}
impl AsRef<str> for AuthMechanism<'_> {
    fn as_ref(&self) -> &str {
        match self {
            Self::Plain => "PLAIN",
            Self::Login => "LOGIN",
            Self::OAuthBearer => "OAUTHBEARER",
            Self::XOAuth2 => "XOAUTH2",
            Self::ScramSha1 => "SCRAM-SHA-1",
            Self::ScramSha1Plus => "SCRAM-SHA-1-PLUS",
            Self::ScramSha256 => "SCRAM-SHA-256",
            Self::ScramSha256Plus => "SCRAM-SHA-256-PLUS",
            Self::ScramSha3_512 => "SCRAM-SHA3-512",
            Self::ScramSha3_512Plus => "SCRAM-SHA3-512-PLUS",
            Self::Other(other) => other.0.as_ref(),
        }
    }
}
impl Display for AuthMechanism<'_> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        f.write_str(self.as_ref())
    }
}

/// Data line used, e.g., during AUTHENTICATE.
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum AuthenticateData<'a> {
    /// Continue SASL authentication.
    Continue(Secret<Cow<'a, [u8]>>),
    /// Cancel SASL authentication.
    Cancel,
}

impl<'a> AuthenticateData<'a> {
    pub fn r#continue<D>(data: D) -> Self
    where
        D: Into<Cow<'a, [u8]>>,
    {
        Self::Continue(Secret::new(data.into()))
    }
}
