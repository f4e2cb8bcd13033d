use std::borrow::Cow;

use bounded_static::ToStatic;

use crate::{
    auth::AuthMechanism,
    core::{AString, IString, Literal, NString, Tag, Vec1},
    error::ValidationError,
    fetch::MacroOrMessageDataItemNames,
    flag::{Flag, StoreResponse, StoreType},
    mailbox::{ListMailbox, Mailbox},
    response::Capability,
    secret::Secret,
    sequence::SequenceSet,
    status::StatusDataItemName,
};

#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub struct Command<'a> {
    pub tag: Tag<'a>,
    pub body: CommandBody<'a>,
}

impl<'a> Command<'a> {
    pub fn new<T>(tag: T, body: CommandBody<'a>) -> Result<Self, T::Error>
    where
        T: TryInto<Tag<'a>>,
    {
        Ok(Self { tag: tag.try_into()?, body })
    }
    pub fn name(&self) -> &'static str {
        self.body.name()
    }
}

#[non_exhaustive]
#[derive(Clone, Debug, Eq, Hash, PartialEq, ToStatic)]
pub enum CommandBody<'a> {
    Capability,
    Noop,
    Logout,
    StartTLS,
    Authenticate {
        mechanism: AuthMechanism<'a>,
        initial_response: Option<Secret<Cow<'a, [u8]>>>,
    },
    Login {
        username: AString<'a>,
        password: Secret<AString<'a>>,
    },
    Select { mailbox: Mailbox<'a> },
    Unselect,
    Examine { mailbox: Mailbox<'a> },
    Create { mailbox: Mailbox<'a> },
    Delete { mailbox: Mailbox<'a> },
    Rename { from: Mailbox<'a>, to: Mailbox<'a> },
    Subscribe { mailbox: Mailbox<'a> },
    Unsubscribe { mailbox: Mailbox<'a> },
    List { reference: Mailbox<'a>, mailbox_wildcard: ListMailbox<'a> },
    Lsub { reference: Mailbox<'a>, mailbox_wildcard: ListMailbox<'a> },
    Status { mailbox: Mailbox<'a>, item_names: Cow<'a, [StatusDataItemName]> },
    Append { mailbox: Mailbox<'a>, flags: Vec<Flag<'a>>, message: Literal<'a> },
    Check,
    Close,
    Expunge,
    Fetch { sequence_set: SequenceSet, macro_or_item_names: MacroOrMessageDataItemNames, uid: bool },
    Store {
        sequence_set: SequenceSet,
        kind: StoreType,
        response: StoreResponse,
        flags: Vec<Flag<'a>>,
        uid: bool,
    },
    Copy { sequence_set: SequenceSet, mailbox: Mailbox<'a>, uid: bool },
    Move { sequence_set: SequenceSet, mailbox: Mailbox<'a>, uid: bool },
    Idle,
    Enable { capabilities: Vec1<Capability<'a>> },
    GetQuota { root: AString<'a> },
    GetQuotaRoot { mailbox: Mailbox<'a> },
    Id { parameters: Option<Vec<(IString<'a>, NString<'a>)>> },
}

impl<'a> CommandBody<'a> {
    pub fn tag<T>(self, tag: T) -> Result<Command<'a>, T::Error>
    where
        T: TryInto<Tag<'a>>,
    {
        Command::new(tag, self)
    }
    pub fn authenticate(mechanism: AuthMechanism<'a>) -> Self {
        Self::Authenticate { mechanism, initial_response: None }
    }
    pub fn authenticate_with_ir<I>(mechanism: AuthMechanism<'a>, initial_response: I) -> Self
    where
        I: Into<Cow<'a, [u8]>>,
    {
        Self::Authenticate { mechanism, initial_response: Some(Secret::new(initial_response.into())) }
    }
    pub fn login<U, P>(username: U, password: P) -> Result<Self, ValidationError>
    where
        U: TryInto<AString<'a>, Error = ValidationError>,
        P: TryInto<AString<'a>, Error = ValidationError>,
    {
        Ok(Self::Login { username: username.try_into()?, password: Secret::new(password.try_into()?) })
    }
    pub fn select<M>(mailbox: M) -> Result<Self, M::Error>
    where
        M: TryInto<Mailbox<'a>>,
    {
        Ok(Self::Select { mailbox: mailbox.try_into()? })
    }
    pub fn examine<M>(mailbox: M) -> Result<Self, M::Error>
    where
        M: TryInto<Mailbox<'a>>,
    {
        Ok(Self::Examine { mailbox: mailbox.try_into()? })
    }
    pub fn create<M>(mailbox: M) -> Result<Self, M::Error>
    where
        M: TryInto<Mailbox<'a>>,
    {
        Ok(Self::Create { mailbox: mailbox.try_into()? })
    }
    pub fn append<M>(mailbox: M, flags: Vec<Flag<'a>>, message: Literal<'a>) -> Result<Self, M::Error>
    where
        M: TryInto<Mailbox<'a>>,
    {
        Ok(Self::Append { mailbox: mailbox.try_into()?, flags, message })
    }
    pub fn name(&self) -> &'static str {
        match self {
            Self::Capability => "CAPABILITY",
            Self::Noop => "NOOP",
            Self::Logout => "LOGOUT",
            Self::StartTLS => "STARTTLS",
            Self::Authenticate { .. } => "AUTHENTICATE",
            Self::Login { .. } => "LOGIN",
            Self::Select { .. } => "SELECT",
            Self::Unselect => "UNSELECT",
            Self::Examine { .. } => "EXAMINE",
            Self::Create { .. } => "CREATE",
            Self::Delete { .. } => "DELETE",
            Self::Rename { .. } => "RENAME",
            Self::Subscribe { .. } => "SUBSCRIBE",
            Self::Unsubscribe { .. } => "UNSUBSCRIBE",
            Self::List { .. } => "LIST",
            Self::Lsub { .. } => "LSUB",
            Self::Status { .. } => "STATUS",
            Self::Append { .. } => "APPEND",
            Self::Check => "CHECK",
            Self::Close => "CLOSE",
            Self::Expunge => "EXPUNGE",
            Self::Fetch { .. } => "FETCH",
            Self::Store { .. } => "STORE",
            Self::Copy { .. } => "COPY",
            Self::Move { .. } => "MOVE",
            Self::Idle => "IDLE",
            Self::Enable { .. } => "ENABLE",
            Self::GetQuota { .. } => "GETQUOTA",
            Self::GetQuotaRoot { .. } => "GETQUOTAROOT",
            Self::Id { .. } => "ID",
        }
    }
}
