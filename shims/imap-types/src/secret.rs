use std::fmt::{Debug, Formatter};

use bounded_static::ToStatic;

/// A wrapper to ensure that secrets are redacted during `Debug`-printing.
#[derive(Clone, Eq, Hash, PartialEq, ToStatic)]
pub struct Secret<T>(T);

impl<T> Secret<T> {
    pub fn new(inner: T) -> Self {
        Self(inner)
    }
    pub fn declassify(&self) -> &T {
        &self.0
    }
}

impl<T> From<T> for Secret<T> {
    fn from(value: T) -> Self {
        Self::new(value)
    }
}

impl<T: Debug> Debug for Secret<T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "/* REDACTED */")
    }
}
