use std::num::NonZeroU32;

use bounded_static::ToStatic;

use crate::{core::NString, flag::FlagFetch};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub enum Macro {
    All,
    Fast,
    Full,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum MessageDataItemName {
    Flags,
    Uid,
    Rfc822,
    Rfc822Size,
    /// `BODY[]` / `BODY.PEEK[]`
    BodyExt { peek: bool },
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum MacroOrMessageDataItemNames {
    Macro(Macro),
    MessageDataItemNames(Vec<MessageDataItemName>),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum MessageDataItem<'a> {
    Flags(Vec<FlagFetch<'a>>),
    Uid(NonZeroU32),
    Rfc822(NString<'a>),
    Rfc822Size(u32),
    BodyExt { data: NString<'a> },
}
