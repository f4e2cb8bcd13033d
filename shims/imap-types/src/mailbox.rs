use std::borrow::Cow;

use bounded_static::ToStatic;

use crate::{
    core::{AString, IString},
    error::ValidationError,
};

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct ListCharString<'a>(pub Cow<'a, str>);

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum ListMailbox<'a> {
    Token(ListCharString<'a>),
    String(IString<'a>),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum Mailbox<'a> {
    Inbox,
    Other(MailboxOther<'a>),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct MailboxOther<'a>(pub(crate) AString<'a>);
impl<'a> MailboxOther<'a> {
    pub fn inner(&self) -> &AString<'a> {
        &self.0
    }
}
impl<'a> From<AString<'a>> for Mailbox<'a> {
    fn from(value: AString<'a>) -> Self {
        if value.as_ref().to_ascii_lowercase() == b"inbox" {
            Self::Inbox
        } else {
            Self::Other(MailboxOther(value))
        }
    }
}
impl<'a> TryFrom<&'a str> for Mailbox<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        Ok(AString::try_from(value)?.into())
    }
}
impl<'a> TryFrom<String> for Mailbox<'a> {
    type Error = ValidationError;
    fn try_from(value: String) -> Result<Self, Self::Error> {
        Ok(AString::try_from(value)?.into())
    }
}
impl<'a> TryFrom<&'a [u8]> for Mailbox<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a [u8]) -> Result<Self, Self::Error> {
        Ok(AString::try_from(value)?.into())
    }
}
