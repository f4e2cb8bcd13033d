use std::fmt::{Display, Formatter};

use bounded_static::ToStatic;

use crate::{core::Atom, error::ValidationError};

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct FlagExtension<'a>(pub(crate) Atom<'a>);

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum Flag<'a> {
    Answered,
    Deleted,
    Draft,
    Flagged,
    Seen,
    Extension(FlagExtension<'a>),
    Keyword(Atom<'a>),
}
impl<'a> Flag<'a> {
    pub fn system(atom: Atom<'a>) -> Self {
        match atom.inner().to_ascii_lowercase().as_str() {
            "answered" => Self::Answered,
            "deleted" => Self::Deleted,
            "draft" => Self::Draft,
            "flagged" => Self::Flagged,
            "seen" => Self::Seen,
            _ => Self::Extension(FlagExtension(atom)),
        }
    }
}
impl<'a> TryFrom<&'a str> for Flag<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        Ok(match value.strip_prefix('\\') {
            Some(v) => Self::system(Atom::try_from(v)?),
            None => Self::Keyword(Atom::try_from(value)?),
        })
    }
}
impl Display for Flag<'_> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        match self {
            Flag::Answered => f.write_str("\\Answered"),
            Flag::Deleted => f.write_str("\\Deleted"),
            Flag::Draft => f.write_str("\\Draft"),
            Flag::Flagged => f.write_str("\\Flagged"),
            Flag::Seen => f.write_str("\\Seen"),
            Flag::Extension(e) => write!(f, "\\{}", e.0.as_ref() as &str),
            Flag::Keyword(a) => f.write_str(a.as_ref()),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum FlagFetch<'a> {
    Flag(Flag<'a>),
    Recent,
}
impl Display for FlagFetch<'_> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        match self {
            Self::Flag(x) => write!(f, "{x}"),
            Self::Recent => f.write_str("\\Recent"),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum FlagPerm<'a> {
    Flag(Flag<'a>),
    Asterisk,
}
impl Display for FlagPerm<'_> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        match self {
            Self::Flag(x) => write!(f, "{x}"),
            Self::Asterisk => f.write_str("\\*"),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct FlagNameAttribute<'a>(pub Atom<'a>);
impl Display for FlagNameAttribute<'_> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        write!(f, "\\{}", self.0.as_ref() as &str)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub enum StoreType {
    Replace,
    Add,
    Remove,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub enum StoreResponse {
    Answer,
    Silent,
}
