use std::{
    borrow::Cow,
    fmt::{Debug, Display, Formatter},
    num::NonZeroU32,
};

use base64::{engine::general_purpose::STANDARD as BASE64, Engine};
use bounded_static::ToStatic;
use thiserror::Error;

use crate::{
    auth::AuthMechanism,
    core::{AString, Atom, Charset, IString, NString, QuotedChar, Tag, Text, Vec1},
    error::ValidationError,
    fetch::MessageDataItem,
    flag::{Flag, FlagNameAttribute, FlagPerm},
    mailbox::Mailbox,
    status::StatusDataItem,
};

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct Greeting<'a> {
    pub kind: GreetingKind,
    pub code: Option<Code<'a>>,
    pub text: Text<'a>,
}
impl<'a> Greeting<'a> {
    pub fn new(kind: GreetingKind, code: Option<Code<'a>>, text: &'a str) -> Result<Self, ValidationError> {
        Ok(Greeting { kind, code, text: text.try_into()? })
    }
    pub fn ok(code: Option<Code<'a>>, text: &'a str) -> Result<Self, ValidationError> {
        Self::new(GreetingKind::Ok, code, text)
    }
    pub fn preauth(code: Option<Code<'a>>, text: &'a str) -> Result<Self, ValidationError> {
        Self::new(GreetingKind::PreAuth, code, text)
    }
    pub fn bye(code: Option<Code<'a>>, text: &'a str) -> Result<Self, ValidationError> {
        Self::new(GreetingKind::Bye, code, text)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub enum GreetingKind {
    Ok,
    PreAuth,
    Bye,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum Response<'a> {
    CommandContinuationRequest(CommandContinuationRequest<'a>),
    Data(Data<'a>),
    Status(Status<'a>),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum Status<'a> {
    Untagged(StatusBody<'a>),
    Tagged(Tagged<'a>),
    Bye(Bye<'a>),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct StatusBody<'a> {
    pub kind: StatusKind,
    pub code: Option<Code<'a>>,
    pub text: Text<'a>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct Tagged<'a> {
    pub tag: Tag<'a>,
    pub body: StatusBody<'a>,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct Bye<'a> {
    pub code: Option<Code<'a>>,
    pub text: Text<'a>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub enum StatusKind {
    Ok,
    No,
    Bad,
}

impl<'a> Status<'a> {
    fn new<T>(tag: Option<Tag<'a>>, kind: StatusKind, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        let body = StatusBody { kind, code, text: text.try_into()? };
        Ok(match tag {
            Some(tag) => Self::Tagged(Tagged { tag, body }),
            None => Self::Untagged(body),
        })
    }
    pub fn ok<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Self::new(tag, StatusKind::Ok, code, text)
    }
    pub fn no<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Self::new(tag, StatusKind::No, code, text)
    }
    pub fn bad<T>(tag: Option<Tag<'a>>, code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Self::new(tag, StatusKind::Bad, code, text)
    }
    pub fn bye<T>(code: Option<Code<'a>>, text: T) -> Result<Self, T::Error>
    where
        T: TryInto<Text<'a>>,
    {
        Ok(Self::Bye(Bye { code, text: text.try_into()? }))
    }
    pub fn code(&self) -> Option<&Code<'a>> {
        match self {
            Self::Untagged(StatusBody { code, .. })
            | Self::Tagged(Tagged { body: StatusBody { code, .. }, .. })
            | Self::Bye(Bye { code, .. }) => code.as_ref(),
        }
    }
    pub fn text(&self) -> &Text<'a> {
        match self {
            Self::Untagged(StatusBody { text, .. })
            | Self::Tagged(Tagged { body: StatusBody { text, .. }, .. })
            | Self::Bye(Bye { text, .. }) => text,
        }
    }
    pub fn tag(&self) -> Option<&Tag<'a>> {
        match self {
            Self::Tagged(Tagged { tag, .. }) => Some(tag),
            _ => None,
        }
    }
}

#[non_exhaustive]
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum Data<'a> {
    Capability(Vec1<Capability<'a>>),
    List {
        items: Vec<FlagNameAttribute<'a>>,
        delimiter: Option<QuotedChar>,
        mailbox: Mailbox<'a>,
    },
    Lsub {
        items: Vec<FlagNameAttribute<'a>>,
        delimiter: Option<QuotedChar>,
        mailbox: Mailbox<'a>,
    },
    Status {
        mailbox: Mailbox<'a>,
        items: Vec<StatusDataItem>,
    },
    Search(Vec<NonZeroU32>),
    Flags(Vec<Flag<'a>>),
    Exists(u32),
    Recent(u32),
    Expunge(NonZeroU32),
    Fetch { seq: NonZeroU32, items: Vec1<MessageDataItem<'a>> },
    Enabled { capabilities: Vec<Capability<'a>> },
    QuotaRoot { mailbox: Mailbox<'a>, roots: Vec<AString<'a>> },
    Id { parameters: Option<Vec<(IString<'a>, NString<'a>)>> },
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum CommandContinuationRequest<'a> {
    Basic(CommandContinuationRequestBasic<'a>),
    Base64(Cow<'a, [u8]>),
}
impl<'a> CommandContinuationRequest<'a> {
    pub fn basic<T>(code: Option<Code<'a>>, text: T) -> Result<Self, ContinueError<T::Error>>
    where
        T: TryInto<Text<'a>>,
    {
        Ok(Self::Basic(CommandContinuationRequestBasic::new(code, text)?))
    }
    pub fn base64<D>(data: D) -> Self
    where
        D: Into<Cow<'a, [u8]>>,
    {
        Self::Base64(data.into())
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct CommandContinuationRequestBasic<'a> {
    code: Option<Code<'a>>,
    text: Text<'a>,
}
impl<'a> CommandContinuationRequestBasic<'a> {
    /// Only texts that cannot be confused with Base64 data or a code are allowed without a code.
    pub fn new<T>(code: Option<Code<'a>>, text: T) -> Result<Self, ContinueError<T::Error>>
    where
        T: TryInto<Text<'a>>,
    {
        let text = text.try_into().map_err(ContinueError::Text)?;
        if code.is_none() {
            let t: &str = text.as_ref();
            if t.starts_with('[') || BASE64.decode(t).is_ok() {
                return Err(ContinueError::Ambiguity);
            }
        }
        Ok(Self { code, text })
    }
    pub fn code(&self) -> Option<&Code<'a>> {
        self.code.as_ref()
    }
    pub fn text(&self) -> &Text<'a> {
        &self.text
    }
}

#[derive(Clone, Debug, Eq, Error, Hash, Ord, PartialEq, PartialOrd)]
pub enum ContinueError<T> {
    #[error("Text was ambiguous")]
    Ambiguity,
    #[error("Invalid text")]
    Text(T),
}

#[non_exhaustive]
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum Code<'a> {
    Alert,
    BadCharset { allowed: Vec<Charset<'a>> },
    Capability(Vec1<Capability<'a>>),
    Parse,
    PermanentFlags(Vec<FlagPerm<'a>>),
    ReadOnly,
    ReadWrite,
    TryCreate,
    UidNext(NonZeroU32),
    UidValidity(NonZeroU32),
    Unseen(NonZeroU32),
    Referral(Cow<'a, str>),
    CompressionActive,
    OverQuota,
    TooBig,
    UidNotSticky,
    Other(CodeOther<'a>),
}
impl<'a> Code<'a> {
    pub fn capability<C>(caps: C) -> Result<Self, C::Error>
    where
        C: TryInto<Vec1<Capability<'a>>>,
    {
        Ok(Self::Capability(caps.try_into()?))
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct CodeOther<'a>(pub(crate) Cow<'a, [u8]>);
impl<'a> CodeOther<'a> {
    pub fn inner(&self) -> &[u8] {
        &self.0
    }
    pub fn unvalidated<D: Into<Cow<'a, [u8]>>>(data: D) -> Self {
        Self(data.into())
    }
}

#[non_exhaustive]
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum Capability<'a> {
    Imap4Rev1,
    Auth(AuthMechanism<'a>),
    LoginDisabled,
    StartTls,
    Idle,
    MailboxReferrals,
    LoginReferrals,
    SaslIr,
    Enable,
    Compress { algorithm: CompressionAlgorithm },
    Quota,
    QuotaRes(Resource<'a>),
    QuotaSet,
    LiteralPlus,
    LiteralMinus,
    Move,
    Id,
    Unselect,
    Sort(Option<Atom<'a>>),
    Thread(Atom<'a>),
    Metadata,
    MetadataServer,
    Binary,
    UidPlus,
    CondStore,
    QResync,
    Namespace,
    Other(CapabilityOther<'a>),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub enum CompressionAlgorithm {
    Deflate,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub enum Resource<'a> {
    Storage,
    Message,
    Mailbox,
    AnnotationStorage,
    Other(Atom<'a>),
}
impl<'a> From<Atom<'a>> for Resource<'a> {
    fn from(a: Atom<'a>) -> Self {
        match a.inner().to_ascii_uppercase().as_str() {
            "STORAGE" => Self::Storage,
            "MESSAGE" => Self::Message,
            "MAILBOX" => Self::Mailbox,
            "ANNOTATION-STORAGE" => Self::AnnotationStorage,
            _ => Self::Other(a),
        }
    }
}
impl Display for Resource<'_> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        f.write_str(match self {
            Self::Storage => "STORAGE",
            Self::Message => "MESSAGE",
            Self::Mailbox => "MAILBOX",
            Self::AnnotationStorage => "ANNOTATION-STORAGE",
            Self::Other(a) => a.as_ref(),
        })
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, ToStatic)]
pub struct CapabilityOther<'a>(pub(crate) Atom<'a>);
impl<'a> CapabilityOther<'a> {
    pub fn inner(&self) -> &Atom<'a> {
        &self.0
    }
}

impl Display for Capability<'_> {
    fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
        match self {
            Self::Imap4Rev1 => f.write_str("IMAP4REV1"),
            Self::Auth(m) => write!(f, "AUTH={m}"),
            Self::LoginDisabled => f.write_str("LOGINDISABLED"),
            Self::StartTls => f.write_str("STARTTLS"),
            Self::Idle => f.write_str("IDLE"),
            Self::MailboxReferrals => f.write_str("MAILBOX-REFERRALS"),
            Self::LoginReferrals => f.write_str("LOGIN-REFERRALS"),
            Self::SaslIr => f.write_str("SASL-IR"),
            Self::Enable => f.write_str("ENABLE"),
            Self::Compress { .. } => f.write_str("COMPRESS=DEFLATE"),
            Self::Quota => f.write_str("QUOTA"),
            Self::QuotaRes(r) => write!(f, "QUOTA=RES-{r}"),
            Self::QuotaSet => f.write_str("QUOTASET"),
            Self::LiteralPlus => f.write_str("LITERAL+"),
            Self::LiteralMinus => f.write_str("LITERAL-"),
            Self::Move => f.write_str("MOVE"),
            Self::Id => f.write_str("ID"),
            Self::Unselect => f.write_str("UNSELECT"),
            Self::Sort(None) => f.write_str("SORT"),
            Self::Sort(Some(a)) => write!(f, "SORT={a}"),
            Self::Thread(a) => write!(f, "THREAD={a}"),
            Self::Metadata => f.write_str("METADATA"),
            Self::MetadataServer => f.write_str("METADATA-SERVER"),
            Self::Binary => f.write_str("BINARY"),
            Self::UidPlus => f.write_str("UIDPLUS"),
            Self::CondStore => f.write_str("CONDSTORE"),
            Self::QResync => f.write_str("QRESYNC"),
            Self::Namespace => f.write_str("NAMESPACE"),
            Self::Other(o) => f.write_str(o.0.as_ref()),
        }
    }
}

impl<'a> From<Atom<'a>> for Capability<'a> {
    fn from(atom: Atom<'a>) -> Self {
        let up = atom.inner().to_ascii_uppercase();
        let rest = |n: usize| -> Option<Atom<'static>> { Atom::try_from(atom.inner()[n..].to_string()).ok() };
        match up.as_str() {
            "IMAP4REV1" => return Self::Imap4Rev1,
            "LOGINDISABLED" => return Self::LoginDisabled,
            "STARTTLS" => return Self::StartTls,
            "IDLE" => return Self::Idle,
            "MAILBOX-REFERRALS" => return Self::MailboxReferrals,
            "LOGIN-REFERRALS" => return Self::LoginReferrals,
            "SASL-IR" => return Self::SaslIr,
            "ENABLE" => return Self::Enable,
            "COMPRESS=DEFLATE" => return Self::Compress { algorithm: CompressionAlgorithm::Deflate },
            "QUOTA" => return Self::Quota,
            "QUOTASET" => return Self::QuotaSet,
            "LITERAL+" => return Self::LiteralPlus,
            "LITERAL-" => return Self::LiteralMinus,
            "MOVE" => return Self::Move,
            "ID" => return Self::Id,
            "UNSELECT" => return Self::Unselect,
            "SORT" => return Self::Sort(None),
            "METADATA" => return Self::Metadata,
            "METADATA-SERVER" => return Self::MetadataServer,
            "BINARY" => return Self::Binary,
            "UIDPLUS" => return Self::UidPlus,
            "CONDSTORE" => return Self::CondStore,
            "QRESYNC" => return Self::QResync,
            "NAMESPACE" => return Self::Namespace,
            _ => {}
        }
        if up.starts_with("AUTH=") {
            if let Some(a) = rest(5) {
                return Self::Auth(AuthMechanism::from(a));
            }
        }
        if up.starts_with("QUOTA=RES-") {
            if let Some(a) = rest(10) {
                return Self::QuotaRes(Resource::from(a));
            }
        }
        if up.starts_with("SORT=") {
            if let Some(a) = rest(5) {
                return Self::Sort(Some(a));
            }
        }
        if up.starts_with("THREAD=") {
            if let Some(a) = rest(7) {
                return Self::Thread(a);
            }
        }
        Self::Other(CapabilityOther(atom))
    }
}
impl<'a> TryFrom<&'a str> for Capability<'a> {
    type Error = ValidationError;
    fn try_from(value: &'a str) -> Result<Self, Self::Error> {
        Ok(Self::from(Atom::try_from(value)?))
    }
}
