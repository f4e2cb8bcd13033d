use bounded_static::ToStatic;

use crate::error::{ValidationError, ValidationErrorKind};

/// Simplified: the validated textual form.
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct SequenceSet(pub(crate) String);
impl SequenceSet {
    pub fn as_str(&self) -> &str {
        &self.0
    }
}
impl TryFrom<&str> for SequenceSet {
    type Error = ValidationError;
    fn try_from(value: &str) -> Result<Self, Self::Error> {
        let num = |s: &str| s == "*" || s.parse::<u32>().map_or(false, |n| n > 0);
        if !value.is_empty()
            && value.split(',').all(|p| match p.split_once(':') {
                Some((a, b)) => num(a) && num(b),
                None => num(p),
            })
        {
            Ok(Self(value.to_string()))
        } else {
            Err(ValidationError::new(ValidationErrorKind::Invalid))
        }
    }
}
