use bounded_static::ToStatic;

/// Denotes the continuation data message "DONE\r\n" to end the IDLE command.
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct IdleDone;
