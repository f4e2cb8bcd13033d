use std::{
    borrow::Cow,
    fmt::{Debug, Display, Formatter},
    vec::IntoIter,
};

use bounded_static::{IntoBoundedStatic, ToBoundedStatic, ToStatic};

use crate::error::{ValidationError, ValidationErrorKind};

pub(crate) fn is_char(b: u8) -> bool {
    (0x01..=0x7f).contains(&b)
}
pub(crate) fn is_ctl(b: u8) -> bool {
    b <= 0x1f || b == 0x7f
}
pub fn is_atom_char(b: u8) -> bool {
    is_char(b) && !is_ctl(b) && !matches!(b, b'(' | b')' | b'{' | b' ' | b'%' | b'*' | b'"' | b'\\' | b']')
}
pub fn is_astring_char(b: u8) -> bool {
    is_atom_char(b) || b == b']'
}
pub fn is_tag_char(b: u8) -> bool {
    is_astring_char(b) && b != b'+'
}
pub fn is_text_char(b: u8) -> bool {
    is_char(b) && b != b'\r' && b != b'\n'
}

macro_rules! impl_str_type {
    ($t:ident, $nonempty:expr, $pred:expr) => {
        #[derive(PartialEq, Eq, Hash, Clone, ToStatic)]
        pub struct $t<'a>(pub(crate) Cow<'a, str>);

        impl<'a> Debug for $t<'a> {
            fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
                write!(f, concat!(stringify!($t), "({:?})"), self.0)
            }
        }

        impl<'a> $t<'a> {
            pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
                let value = value.as_ref();
                if $nonempty && value.is_empty() {
                    return Err(ValidationError::new(ValidationErrorKind::Empty));
                }
                let pred: fn(u8) -> bool = $pred;
                if let Some(at) = value.iter().position(|b| !pred(*b)) {
                    return Err(ValidationError::new(ValidationErrorKind::InvalidByteAt {
                        byte: value[at],
                        at,
                    }));
                }
                Ok(())
            }
            pub fn inner(&self) -> &str {
                self.0.as_ref()
            }
            pub fn into_inner(self) -> Cow<'a, str> {
                self.0
            }
            /// Constructs without validation.
            pub fn unvalidated<C>(inner: C) -> Self
            where
                C: Into<Cow<'a, str>>,
            {
                let inner = inner.into();
                #[cfg(debug_assertions)]
                Self::validate(inner.as_bytes()).unwrap();
                Self(inner)
            }
        }

        impl<'a> TryFrom<&'a [u8]> for $t<'a> {
            type Error = ValidationError;
            fn try_from(value: &'a [u8]) -> Result<Self, Self::Error> {
                Self::validate(value)?;
                Ok(Self(Cow::Borrowed(std::str::from_utf8(value).map_err(|_| {
                    ValidationError::new(ValidationErrorKind::Invalid)
                })?)))
            }
        }
        impl<'a> TryFrom<Vec<u8>> for $t<'a> {
            type Error = ValidationError;
            fn try_from(value: Vec<u8>) -> Result<Self, Self::Error> {
                Self::validate(&value)?;
                Ok(Self(Cow::Owned(String::from_utf8(value).map_err(|_| {
                    ValidationError::new(ValidationErrorKind::Invalid)
                })?)))
            }
        }
        impl<'a> TryFrom<&'a str> for $t<'a> {
            type Error = ValidationError;
            fn try_from(value: &'a str) -> Result<Self, Self::Error> {
                Self::validate(value)?;
                Ok(Self(Cow::Borrowed(value)))
            }
        }
        impl<'a> TryFrom<String> for $t<'a> {
            type Error = ValidationError;
            fn try_from(value: String) -> Result<Self, Self::Error> {
                Self::validate(&value)?;
                Ok(Self(Cow::Owned(value)))
            }
        }
        impl<'a> TryFrom<Cow<'a, str>> for $t<'a> {
            type Error = ValidationError;
            fn try_from(value: Cow<'a, str>) -> Result<Self, Self::Error> {
                Self::validate(value.as_bytes())?;
                Ok(Self(value))
            }
        }
        impl AsRef<str> for $t<'_> {
            fn as_ref(&self) -> &str {
                self.0.as_ref()
            }
        }
        impl Display for $t<'_> {
            fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
                f.write_str(&self.0)
            }
        }
    };
}

impl_str_type!(Atom, true, is_atom_char);
impl_str_type!(AtomExt, true, is_astring_char);
impl_str_type!(Tag, true, is_tag_char);
impl_str_type!(Text, true, is_text_char);
impl_str_type!(Quoted, false, is_text_char);

impl<'a> From<Atom<'a>> for AtomExt<'a> {
    fn from(value: Atom<'a>) -> Self {
        Self(value.0)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub enum LiteralMode {
    Sync,
    NonSync,
}

#[derive(Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct Literal<'a> {
    pub(crate) data: Cow<'a, [u8]>,
    pub(crate) mode: LiteralMode,
}

impl Debug for Literal<'_> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        f.debug_struct("Literal")
            .field("data", &crate::utils::escape_byte_string(&self.data))
            .field("mode", &self.mode)
            .finish()
    }
}

impl<'a> Literal<'a> {
    pub fn validate(value: impl AsRef<[u8]>) -> Result<(), ValidationError> {
        let value = value.as_ref();
        if let Some(at) = value.iter().position(|b| *b == 0) {
            return Err(ValidationError::new(ValidationErrorKind::InvalidByteAt { byte: 0, at }));
        }
        Ok(())
    }
    pub fn data(&self) -> &[u8] {
        &self.data
    }
    pub fn mode(&self) -> LiteralMode {
        self.mode
    }
    pub fn into_non_sync(mut self) -> Self {
        self.mode = LiteralMode::NonSync;
        self
    }
    pub fn into_inner(self) -> (Cow<'a, [u8]>, LiteralMode) {
        (self.data, self.mode)
    }
    pub fn unvalidated<D: Into<Cow<'a, [u8]>>>(data: D) -> Self {
        Self { data: data.into(), mode: LiteralMode::Sync }
    }
    pub fn unvalidated_non_sync<D: Into<Cow<'a, [u8]>>>(data: D) -> Self {
        Self { data: data.into(), mode: LiteralMode::NonSync }
    }
}
impl<'a> TryFrom<&'a [u8]> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a [u8]) -> Result<Self, Self::Error> {
        Self::validate(value)?;
        Ok(Self::unvalidated(value))
    }
}
impl<'a> TryFrom<Vec<u8>> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(value: Vec<u8>) -> Result<Self, Self::Error> {
        Self::validate(&value)?;
        Ok(Self::unvalidated(value))
    }
}
impl<'a> TryFrom<&'a str> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        Self::try_from(value.as_bytes())
    }
}
impl<'a> TryFrom<String> for Literal<'a> {
    type Error = ValidationError;
    fn try_from(value: String) -> Result<Self, Self::Error> {
        Self::try_from(value.into_bytes())
    }
}
impl AsRef<[u8]> for Literal<'_> {
    fn as_ref(&self) -> &[u8] {
        &self.data
    }
}

#[derive(Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum IString<'a> {
    Literal(Literal<'a>),
    Quoted(Quoted<'a>),
}
impl Debug for IString<'_> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        match self {
            IString::Literal(x) => Debug::fmt(x, f),
            IString::Quoted(x) => Debug::fmt(x, f),
        }
    }
}
impl<'a> TryFrom<&'a [u8]> for IString<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a [u8]) -> Result<Self, Self::Error> {
        if let Ok(q) = Quoted::try_from(value) {
            return Ok(Self::Quoted(q));
        }
        Literal::try_from(value).map(Self::Literal)
    }
}
impl<'a> TryFrom<&'a str> for IString<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        Self::try_from(value.as_bytes())
    }
}
impl<'a> TryFrom<Vec<u8>> for IString<'a> {
    type Error = ValidationError;
    fn try_from(value: Vec<u8>) -> Result<Self, Self::Error> {
        if let Ok(q) = Quoted::try_from(value.clone()) {
            return Ok(Self::Quoted(q));
        }
        Literal::try_from(value).map(Self::Literal)
    }
}
impl<'a> TryFrom<String> for IString<'a> {
    type Error = ValidationError;
    fn try_from(value: String) -> Result<Self, Self::Error> {
        Self::try_from(value.into_bytes())
    }
}
impl<'a> From<Literal<'a>> for IString<'a> {
    fn from(value: Literal<'a>) -> Self {
        Self::Literal(value)
    }
}
impl<'a> From<Quoted<'a>> for IString<'a> {
    fn from(value: Quoted<'a>) -> Self {
        Self::Quoted(value)
    }
}
impl AsRef<[u8]> for IString<'_> {
    fn as_ref(&self) -> &[u8] {
        match self {
            Self::Literal(l) => l.as_ref(),
            Self::Quoted(q) => q.inner().as_bytes(),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct NString<'a>(pub Option<IString<'a>>);
impl<'a> NString<'a> {
    pub const NIL: Self = Self(None);
    pub fn into_option(self) -> Option<Cow<'a, [u8]>> {
        self.0.map(|s| match s {
            IString::Literal(l) => l.data,
            IString::Quoted(q) => match q.0 {
                Cow::Borrowed(s) => Cow::Borrowed(s.as_bytes()),
                Cow::Owned(s) => Cow::Owned(s.into_bytes()),
            },
        })
    }
}
impl<'a> From<Literal<'a>> for NString<'a> {
    fn from(value: Literal<'a>) -> Self {
        Self(Some(IString::from(value)))
    }
}
impl<'a> From<Quoted<'a>> for NString<'a> {
    fn from(value: Quoted<'a>) -> Self {
        Self(Some(IString::from(value)))
    }
}
impl<'a> From<IString<'a>> for NString<'a> {
    fn from(value: IString<'a>) -> Self {
        Self(Some(value))
    }
}
impl<'a> TryFrom<&'a str> for NString<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        Ok(Self(Some(IString::try_from(value)?)))
    }
}
impl<'a> TryFrom<&'a [u8]> for NString<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a [u8]) -> Result<Self, Self::Error> {
        Ok(Self(Some(IString::try_from(value)?)))
    }
}

#[derive(Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum AString<'a> {
    Atom(AtomExt<'a>),
    String(IString<'a>),
}
impl Debug for AString<'_> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        match self {
            AString::Atom(x) => Debug::fmt(x, f),
            AString::String(x) => Debug::fmt(x, f),
        }
    }
}
impl<'a> TryFrom<&'a [u8]> for AString<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a [u8]) -> Result<Self, Self::Error> {
        if let Ok(a) = AtomExt::try_from(value) {
            return Ok(Self::Atom(a));
        }
        IString::try_from(value).map(Self::String)
    }
}
impl<'a> TryFrom<&'a str> for AString<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        Self::try_from(value.as_bytes())
    }
}
impl<'a> TryFrom<Vec<u8>> for AString<'a> {
    type Error = ValidationError;
    fn try_from(value: Vec<u8>) -> Result<Self, Self::Error> {
        if let Ok(a) = AtomExt::try_from(value.clone()) {
            return Ok(Self::Atom(a));
        }
        IString::try_from(value).map(Self::String)
    }
}
impl<'a> TryFrom<String> for AString<'a> {
    type Error = ValidationError;
    fn try_from(value: String) -> Result<Self, Self::Error> {
        Self::try_from(value.into_bytes())
    }
}
impl<'a> From<AtomExt<'a>> for AString<'a> {
    fn from(value: AtomExt<'a>) -> Self {
        Self::Atom(value)
    }
}
impl<'a> From<Atom<'a>> for AString<'a> {
    fn from(value: Atom<'a>) -> Self {
        Self::Atom(value.into())
    }
}
impl<'a> From<IString<'a>> for AString<'a> {
    fn from(value: IString<'a>) -> Self {
        Self::String(value)
    }
}
impl<'a> From<Literal<'a>> for AString<'a> {
    fn from(value: Literal<'a>) -> Self {
        Self::String(IString::Literal(value))
    }
}
impl<'a> From<Quoted<'a>> for AString<'a> {
    fn from(value: Quoted<'a>) -> Self {
        Self::String(IString::Quoted(value))
    }
}
impl AsRef<[u8]> for AString<'_> {
    fn as_ref(&self) -> &[u8] {
        match self {
            AString::Atom(a) => a.inner().as_bytes(),
            AString::String(s) => s.as_ref(),
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum Charset<'a> {
    Atom(Atom<'a>),
    Quoted(Quoted<'a>),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub struct QuotedChar(char);
impl QuotedChar {
    pub fn inner(&self) -> char {
        self.0
    }
    pub fn unvalidated(inner: char) -> Self {
        Self(inner)
    }
}
impl TryFrom<char> for QuotedChar {
    type Error = ValidationError;
    fn try_from(value: char) -> Result<Self, Self::Error> {
        if value.is_ascii() && is_text_char(value as u8) {
            Ok(Self(value))
        } else {
            Err(ValidationError::new(ValidationErrorKind::Invalid))
        }
    }
}

/// A `Vec` containing at least one element.
#[derive(PartialEq, Eq, Hash, Clone, ToStatic)]
pub struct Vec1<T>(pub(crate) Vec<T>);
impl<T: Debug> Debug for Vec1<T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)?;
        write!(f, "+")
    }
}
impl<T> Vec1<T> {
    pub fn validate(value: &[T]) -> Result<(), ValidationError> {
        if value.is_empty() {
            return Err(ValidationError::new(ValidationErrorKind::NotEnough { min: 1 }));
        }
        Ok(())
    }
    pub fn into_inner(self) -> Vec<T> {
        self.0
    }
    pub fn unvalidated(inner: Vec<T>) -> Self {
        Self(inner)
    }
    pub fn as_slice(&self) -> &[T] {
        &self.0
    }
}
impl<T> From<T> for Vec1<T> {
    fn from(value: T) -> Self {
        Vec1(vec![value])
    }
}
impl<T> TryFrom<Vec<T>> for Vec1<T> {
    type Error = ValidationError;
    fn try_from(inner: Vec<T>) -> Result<Self, Self::Error> {
        Self::validate(&inner)?;
        Ok(Self(inner))
    }
}
impl<T> IntoIterator for Vec1<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<T> AsRef<[T]> for Vec1<T> {
    fn as_ref(&self) -> &[T] {
        &self.0
    }
}
pub type NonEmptyVec<T> = Vec1<T>;

#[allow(unused)]
fn _assert<T: ToBoundedStatic + IntoBoundedStatic>() {}
