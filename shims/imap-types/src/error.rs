use thiserror::Error;

#[derive(Clone, Debug, Eq, Error, Hash, Ord, PartialEq, PartialOrd)]
#[error("Validation failed: {kind}")]
pub struct ValidationError {
    kind: ValidationErrorKind,
}

impl ValidationError {
    pub fn new(kind: ValidationErrorKind) -> Self {
        Self { kind }
    }
    pub fn kind(&self) -> &ValidationErrorKind {
        &self.kind
    }
}

#[derive(Clone, Debug, Eq, Error, Hash, Ord, PartialEq, PartialOrd)]
pub enum ValidationErrorKind {
    #[error("Must not be empty")]
    Empty,
    #[error("Must have at least {min} elements")]
    NotEnough { min: usize },
    #[error("Invalid value")]
    Invalid,
    #[error("Invalid byte b'\\x{byte:02x}' at index {at}")]
    InvalidByteAt { byte: u8, at: usize },
}
