use std::{borrow::Cow, num::NonZeroU32};

use base64::{engine::general_purpose::STANDARD as BASE64, Engine};
use imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    command::{Command, CommandBody},
    core::{
        is_astring_char, is_atom_char, is_tag_char, is_text_char, AString, Atom, AtomExt, Charset, IString,
        Literal, LiteralMode, NString, Quoted, QuotedChar, Tag, Text, Vec1,
    },
    fetch::{Macro, MacroOrMessageDataItemNames, MessageDataItem, MessageDataItemName},
    flag::{Flag, FlagFetch, FlagNameAttribute, FlagPerm, StoreResponse, StoreType},
    mailbox::{ListCharString, ListMailbox, Mailbox},
    response::{
        Bye, Capability, Code, CodeOther, CommandContinuationRequest, CommandContinuationRequestBasic, Data,
        Greeting, GreetingKind, Response, Status, StatusBody, StatusKind, Tagged,
    },
    secret::Secret,
    sequence::SequenceSet,
    status::{StatusDataItem, StatusDataItemName},
};

#[derive(Debug)]
pub enum Fail {
    Incomplete,
    Literal { length: u32, mode: LiteralMode },
    Failed,
}
pub type R<T> = Result<T, Fail>;

pub struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Self { b, i: 0 }
    }
    pub fn rest(&self) -> &'a [u8] {
        &self.b[self.i..]
    }
    fn peek(&self) -> R<u8> {
        self.b.get(self.i).copied().ok_or(Fail::Incomplete)
    }
    fn byte(&mut self, x: u8) -> R<()> {
        if self.peek()? == x {
            self.i += 1;
            Ok(())
        } else {
            Err(Fail::Failed)
        }
    }
    fn sp(&mut self) -> R<()> {
        self.byte(b' ')
    }
    pub fn crlf(&mut self) -> R<()> {
        if self.peek()? == b'\r' {
            self.i += 1;
        }
        self.byte(b'\n')
    }
    pub fn kw(&mut self, s: &str) -> R<()> {
        for c in s.bytes() {
            if !self.peek()?.eq_ignore_ascii_case(&c) {
                return Err(Fail::Failed);
            }
            self.i += 1;
        }
        Ok(())
    }
    fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<Option<T>> {
        let save = self.i;
        match f(self) {
            Ok(x) => Ok(Some(x)),
            Err(Fail::Failed) => {
                self.i = save;
                Ok(None)
            }
            Err(e) => Err(e),
        }
    }
    fn is(&mut self, s: &str) -> R<bool> {
        Ok(self.opt(|p| p.kw(s))?.is_some())
    }
    fn while1(&mut self, pred: impl Fn(u8) -> bool) -> R<&'a str> {
        let s = self.while0(pred)?;
        if s.is_empty() {
            Err(Fail::Failed)
        } else {
            Ok(s)
        }
    }
    fn while0(&mut self, pred: impl Fn(u8) -> bool) -> R<&'a str> {
        let start = self.i;
        while pred(self.peek()?) {
            self.i += 1;
        }
        std::str::from_utf8(&self.b[start..self.i]).map_err(|_| Fail::Failed)
    }
    fn number(&mut self) -> R<u32> {
        self.while1(|b| b.is_ascii_digit())?.parse().map_err(|_| Fail::Failed)
    }
    fn nz(&mut self) -> R<NonZeroU32> {
        NonZeroU32::new(self.number()?).ok_or(Fail::Failed)
    }
    fn atom(&mut self) -> R<Atom<'a>> {
        Atom::try_from(self.while1(is_atom_char)?).map_err(|_| Fail::Failed)
    }
    fn text(&mut self) -> R<Text<'a>> {
        Text::try_from(self.while1(is_text_char)?).map_err(|_| Fail::Failed)
    }
    fn quoted(&mut self) -> R<Quoted<'a>> {
        self.byte(b'"')?;
        let start = self.i;
        let mut out: Option<String> = None;
        loop {
            let c = self.peek()?;
            match c {
                b'"' => {
                    let raw = std::str::from_utf8(&self.b[start..self.i]).map_err(|_| Fail::Failed)?;
                    self.i += 1;
                    return match out {
                        None => Quoted::try_from(raw).map_err(|_| Fail::Failed),
                        Some(s) => Quoted::try_from(s).map_err(|_| Fail::Failed),
                    };
                }
                b'\\' => {
                    let raw = std::str::from_utf8(&self.b[start..self.i]).map_err(|_| Fail::Failed)?;
                    let s = out.get_or_insert_with(|| raw.to_string());
                    self.i += 1;
                    let e = self.peek()?;
                    if e != b'"' && e != b'\\' {
                        return Err(Fail::Failed);
                    }
                    s.push(e as char);
                    self.i += 1;
                }
                c if is_text_char(c) => {
                    if let Some(s) = &mut out {
                        s.push(c as char);
                    }
                    self.i += 1;
                }
                _ => return Err(Fail::Failed),
            }
        }
    }
    fn literal(&mut self) -> R<Literal<'a>> {
        self.byte(b'{')?;
        let length = self.number()?;
        let mode = if self.peek()? == b'+' {
            self.i += 1;
            LiteralMode::NonSync
        } else {
            LiteralMode::Sync
        };
        self.byte(b'}')?;
        self.crlf()?;
        let rest = self.rest();
        if rest.is_empty() {
            return Err(Fail::Literal { length, mode });
        }
        if rest.len() < length as usize {
            return Err(Fail::Incomplete);
        }
        let data = &rest[..length as usize];
        if data.contains(&0) {
            return Err(Fail::Failed);
        }
        self.i += length as usize;
        Ok(match mode {
            LiteralMode::Sync => Literal::unvalidated(data),
            LiteralMode::NonSync => Literal::unvalidated_non_sync(data),
        })
    }
    fn istring(&mut self) -> R<IString<'a>> {
        match self.peek()? {
            b'"' => Ok(IString::Quoted(self.quoted()?)),
            b'{' => Ok(IString::Literal(self.literal()?)),
            _ => Err(Fail::Failed),
        }
    }
    fn nstring(&mut self) -> R<NString<'a>> {
        if self.is("NIL")? {
            Ok(NString(None))
        } else {
            Ok(NString(Some(self.istring()?)))
        }
    }
    fn astring(&mut self) -> R<AString<'a>> {
        match self.peek()? {
            b'"' | b'{' => Ok(AString::String(self.istring()?)),
            _ => Ok(AString::Atom(AtomExt::try_from(self.while1(is_astring_char)?).map_err(|_| Fail::Failed)?)),
        }
    }
    fn mailbox(&mut self) -> R<Mailbox<'a>> {
        Ok(self.astring()?.into())
    }
    fn list_mailbox(&mut self) -> R<ListMailbox<'a>> {
        match self.peek()? {
            b'"' | b'{' => Ok(ListMailbox::String(self.istring()?)),
            _ => Ok(ListMailbox::Token(ListCharString(Cow::Borrowed(
                self.while1(|b| is_atom_char(b) || matches!(b, b'%' | b'*' | b']'))?,
            )))),
        }
    }
    fn sep<T>(&mut self, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let mut v = vec![f(self)?];
        while self.peek()? == b' ' {
            self.i += 1;
            v.push(f(self)?);
        }
        Ok(v)
    }
    fn paren<T>(&mut self, f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        self.byte(b'(')?;
        if self.peek()? == b')' {
            self.i += 1;
            return Ok(vec![]);
        }
        let v = self.sep(f)?;
        self.byte(b')')?;
        Ok(v)
    }
    fn flag(&mut self) -> R<Flag<'a>> {
        if self.peek()? == b'\\' {
            self.i += 1;
            Ok(Flag::system(self.atom()?))
        } else {
            Ok(Flag::Keyword(self.atom()?))
        }
    }
    fn seq(&mut self) -> R<SequenceSet> {
        SequenceSet::try_from(self.while1(|b| b.is_ascii_digit() || matches!(b, b'*' | b':' | b','))?)
            .map_err(|_| Fail::Failed)
    }
    fn capability(&mut self) -> R<Capability<'a>> {
        Ok(Capability::from(self.atom()?))
    }
    fn base64(&mut self) -> R<Vec<u8>> {
        let s = self.while0(|b| b.is_ascii_alphanumeric() || matches!(b, b'+' | b'/' | b'='))?;
        BASE64.decode(s).map_err(|_| Fail::Failed)
    }
    fn id(&mut self) -> R<Option<Vec<(IString<'a>, NString<'a>)>>> {
        if self.is("NIL")? {
            return Ok(None);
        }
        Ok(Some(self.paren(|p| {
            let k = p.istring()?;
            p.sp()?;
            Ok((k, p.nstring()?))
        })?))
    }
    fn code(&mut self) -> R<Code<'a>> {
        self.byte(b'[')?;
        let start = self.i;
        let known = self.opt(|p| {
            let name = p.while1(|b| is_atom_char(b) && b != b'[')?.to_ascii_uppercase();
            let c = match name.as_str() {
                "ALERT" => Code::Alert,
                "BADCHARSET" => {
                    if p.peek()? == b' ' {
                        p.i += 1;
                        Code::BadCharset {
                            allowed: p.paren(|p| {
                                if p.peek()? == b'"' {
                                    Ok(Charset::Quoted(p.quoted()?))
                                } else {
                                    Ok(Charset::Atom(p.atom()?))
                                }
                            })?,
                        }
                    } else {
                        Code::BadCharset { allowed: vec![] }
                    }
                }
                "CAPABILITY" => {
                    p.sp()?;
                    Code::Capability(Vec1::unvalidated(p.sep(|p| p.capability())?))
                }
                "PARSE" => Code::Parse,
                "PERMANENTFLAGS" => {
                    p.sp()?;
                    Code::PermanentFlags(p.paren(|p| {
                        if p.is("\\*")? {
                            Ok(FlagPerm::Asterisk)
                        } else {
                            Ok(FlagPerm::Flag(p.flag()?))
                        }
                    })?)
                }
                "READ-ONLY" => Code::ReadOnly,
                "READ-WRITE" => Code::ReadWrite,
                "TRYCREATE" => Code::TryCreate,
                "UIDNEXT" => {
                    p.sp()?;
                    Code::UidNext(p.nz()?)
                }
                "UIDVALIDITY" => {
                    p.sp()?;
                    Code::UidValidity(p.nz()?)
                }
                "UNSEEN" => {
                    p.sp()?;
                    Code::Unseen(p.nz()?)
                }
                "REFERRAL" => {
                    p.sp()?;
                    Code::Referral(Cow::Borrowed(p.while1(|b| is_text_char(b) && b != b']')?))
                }
                "COMPRESSIONACTIVE" => Code::CompressionActive,
                "OVERQUOTA" => Code::OverQuota,
                "TOOBIG" => Code::TooBig,
                "UIDNOTSTICKY" => Code::UidNotSticky,
                _ => return Err(Fail::Failed),
            };
            if p.peek()? != b']' {
                return Err(Fail::Failed);
            }
            Ok(c)
        })?;
        let c = match known {
            Some(c) => c,
            None => {
                self.i = start;
                let s = self.while1(|b| is_text_char(b) && b != b']')?;
                Code::Other(CodeOther::unvalidated(s.as_bytes()))
            }
        };
        self.byte(b']')?;
        self.sp()?;
        Ok(c)
    }
    fn resp_text(&mut self) -> R<(Option<Code<'a>>, Text<'a>)> {
        let code = self.opt(|p| p.code())?;
        Ok((code, self.text()?))
    }
    fn kind(&mut self) -> R<Option<StatusKind>> {
        for (s, k) in [("OK ", StatusKind::Ok), ("NO ", StatusKind::No), ("BAD ", StatusKind::Bad)] {
            if self.is(s)? {
                return Ok(Some(k));
            }
        }
        Ok(None)
    }
}

pub fn tag<'a>(p: &mut P<'a>) -> R<Tag<'a>> {
    Tag::try_from(p.while1(is_tag_char)?).map_err(|_| Fail::Failed)
}

pub fn greeting<'a>(p: &mut P<'a>) -> R<Greeting<'a>> {
    p.kw("* ")?;
    let kind = if p.is("OK ")? {
        GreetingKind::Ok
    } else if p.is("PREAUTH ")? {
        GreetingKind::PreAuth
    } else if p.is("BYE ")? {
        GreetingKind::Bye
    } else {
        return Err(Fail::Failed);
    };
    let (code, text) = p.resp_text()?;
    p.crlf()?;
    Ok(Greeting { kind, code, text })
}

pub fn authenticate_data<'a>(p: &mut P<'a>) -> R<AuthenticateData<'a>> {
    if p.peek()? == b'*' {
        p.i += 1;
        p.crlf()?;
        return Ok(AuthenticateData::Cancel);
    }
    let d = p.base64()?;
    p.crlf()?;
    Ok(AuthenticateData::Continue(Secret::new(Cow::Owned(d))))
}

pub fn command<'a>(p: &mut P<'a>) -> R<Command<'a>> {
    let tag = tag(p)?;
    p.sp()?;
    let mut name = p.while1(|b| is_atom_char(b))?.to_ascii_uppercase();
    let mut uid = false;
    if name == "UID" {
        p.sp()?;
        uid = true;
        name = p.while1(|b| is_atom_char(b))?.to_ascii_uppercase();
        if !matches!(name.as_str(), "FETCH" | "STORE" | "COPY" | "MOVE") {
            return Err(Fail::Failed);
        }
    }
    let plain = match name.as_str() {
        "CAPABILITY" => Some(CommandBody::Capability),
        "NOOP" => Some(CommandBody::Noop),
        "LOGOUT" => Some(CommandBody::Logout),
        "STARTTLS" => Some(CommandBody::StartTLS),
        "UNSELECT" => Some(CommandBody::Unselect),
        "CHECK" => Some(CommandBody::Check),
        "CLOSE" => Some(CommandBody::Close),
        "EXPUNGE" => Some(CommandBody::Expunge),
        "IDLE" => Some(CommandBody::Idle),
        _ => None,
    };
    let body = match plain {
        Some(b) => b,
        None => {
            p.sp()?;
            match name.as_str() {
                "AUTHENTICATE" => {
                    let mechanism = AuthMechanism::from(p.atom()?);
                    let initial_response = if p.peek()? == b' ' {
                        p.i += 1;
                        if p.peek()? == b'=' {
                            p.i += 1;
                            Some(Secret::new(Cow::Owned(vec![])))
                        } else {
                            Some(Secret::new(Cow::Owned(p.base64()?)))
                        }
                    } else {
                        None
                    };
                    CommandBody::Authenticate { mechanism, initial_response }
                }
                "LOGIN" => {
                    let username = p.astring()?;
                    p.sp()?;
                    CommandBody::Login { username, password: Secret::new(p.astring()?) }
                }
                "SELECT" => CommandBody::Select { mailbox: p.mailbox()? },
                "EXAMINE" => CommandBody::Examine { mailbox: p.mailbox()? },
                "CREATE" => CommandBody::Create { mailbox: p.mailbox()? },
                "DELETE" => CommandBody::Delete { mailbox: p.mailbox()? },
                "SUBSCRIBE" => CommandBody::Subscribe { mailbox: p.mailbox()? },
                "UNSUBSCRIBE" => CommandBody::Unsubscribe { mailbox: p.mailbox()? },
                "GETQUOTAROOT" => CommandBody::GetQuotaRoot { mailbox: p.mailbox()? },
                "GETQUOTA" => CommandBody::GetQuota { root: p.astring()? },
                "RENAME" => {
                    let from = p.mailbox()?;
                    p.sp()?;
                    CommandBody::Rename { from, to: p.mailbox()? }
                }
                "LIST" | "LSUB" => {
                    let reference = p.mailbox()?;
                    p.sp()?;
                    let mailbox_wildcard = p.list_mailbox()?;
                    if name == "LIST" {
                        CommandBody::List { reference, mailbox_wildcard }
                    } else {
                        CommandBody::Lsub { reference, mailbox_wildcard }
                    }
                }
                "STATUS" => {
                    let mailbox = p.mailbox()?;
                    p.sp()?;
                    let items = p.paren(status_name)?;
                    CommandBody::Status { mailbox, item_names: items.into() }
                }
                "APPEND" => {
                    let mailbox = p.mailbox()?;
                    p.sp()?;
                    let flags = if p.peek()? == b'(' {
                        let f = p.paren(|p| p.flag())?;
                        p.sp()?;
                        f
                    } else {
                        vec![]
                    };
                    CommandBody::Append { mailbox, flags, message: p.literal()? }
                }
                "FETCH" => {
                    let sequence_set = p.seq()?;
                    p.sp()?;
                    let macro_or_item_names = if p.is("ALL")? {
                        MacroOrMessageDataItemNames::Macro(Macro::All)
                    } else if p.is("FAST")? {
                        MacroOrMessageDataItemNames::Macro(Macro::Fast)
                    } else if p.is("FULL")? {
                        MacroOrMessageDataItemNames::Macro(Macro::Full)
                    } else {
                        let item = |p: &mut P<'a>| -> R<MessageDataItemName> {
                            for (s, n) in [
                                ("FLAGS", MessageDataItemName::Flags),
                                ("UID", MessageDataItemName::Uid),
                                ("RFC822.SIZE", MessageDataItemName::Rfc822Size),
                                ("RFC822", MessageDataItemName::Rfc822),
                                ("BODY[]", MessageDataItemName::BodyExt { peek: false }),
                                ("BODY.PEEK[]", MessageDataItemName::BodyExt { peek: true }),
                            ] {
                                if p.is(s)? {
                                    return Ok(n);
                                }
                            }
                            Err(Fail::Failed)
                        };
                        MacroOrMessageDataItemNames::MessageDataItemNames(if p.peek()? == b'(' {
                            p.paren(item)?
                        } else {
                            
                            vec![item(p)?]
                        })
                    };
                    CommandBody::Fetch { sequence_set, macro_or_item_names, uid }
                }
                "STORE" => {
                    let sequence_set = p.seq()?;
                    p.sp()?;
                    let kind = match p.peek()? {
                        b'+' => StoreType::Add,
                        b'-' => StoreType::Remove,
                        _ => StoreType::Replace,
                    };
                    if kind != StoreType::Replace {
                        p.i += 1;
                    }
                    p.kw("FLAGS")?;
                    let response =
                        if p.is(".SILENT")? { StoreResponse::Silent } else { StoreResponse::Answer };
                    p.sp()?;
                    CommandBody::Store { sequence_set, kind, response, flags: p.paren(|p| p.flag())?, uid }
                }
                "COPY" | "MOVE" => {
                    let sequence_set = p.seq()?;
                    p.sp()?;
                    let mailbox = p.mailbox()?;
                    if name == "COPY" {
                        CommandBody::Copy { sequence_set, mailbox, uid }
                    } else {
                        CommandBody::Move { sequence_set, mailbox, uid }
                    }
                }
                "ENABLE" => CommandBody::Enable { capabilities: Vec1::unvalidated(p.sep(|p| p.capability())?) },
                "ID" => CommandBody::Id { parameters: p.id()? },
                _ => return Err(Fail::Failed),
            }
        }
    };
    p.crlf()?;
    Ok(Command { tag, body })
}

fn status_name(p: &mut P) -> R<StatusDataItemName> {
    let s = p.while1(|b| is_atom_char(b))?.to_ascii_uppercase();
    StatusDataItemName::ALL.iter().find(|x| x.0 == s).map(|x| x.1).ok_or(Fail::Failed)
}

pub fn response<'a>(p: &mut P<'a>) -> R<Response<'a>> {
    match p.peek()? {
        b'+' => {
            p.i += 1;
            p.sp()?;
            let b64 = p.opt(|p| {
                let d = p.base64()?;
                p.crlf()?;
                Ok(d)
            })?;
            if let Some(d) = b64 {
                return Ok(Response::CommandContinuationRequest(CommandContinuationRequest::Base64(Cow::Owned(d))));
            }
            let (code, text) = p.resp_text()?;
            p.crlf()?;
            Ok(Response::CommandContinuationRequest(CommandContinuationRequest::Basic(
                CommandContinuationRequestBasic::new(code, text).map_err(|_| Fail::Failed)?,
            )))
        }
        b'*' => {
            p.i += 1;
            p.sp()?;
            if let Some(kind) = p.kind()? {
                let (code, text) = p.resp_text()?;
                p.crlf()?;
                return Ok(Response::Status(Status::Untagged(StatusBody { kind, code, text })));
            }
            if p.is("BYE ")? {
                let (code, text) = p.resp_text()?;
                p.crlf()?;
                return Ok(Response::Status(Status::Bye(Bye { code, text })));
            }
            let d = data(p)?;
            p.crlf()?;
            Ok(Response::Data(d))
        }
        _ => {
            let tag = tag(p)?;
            p.sp()?;
            let kind = p.kind()?.ok_or(Fail::Failed)?;
            let (code, text) = p.resp_text()?;
            p.crlf()?;
            Ok(Response::Status(Status::Tagged(Tagged { tag, body: StatusBody { kind, code, text } })))
        }
    }
}

fn data<'a>(p: &mut P<'a>) -> R<Data<'a>> {
    if p.peek()?.is_ascii_digit() {
        let n = p.number()?;
        p.sp()?;
        if p.is("EXISTS")? {
            return Ok(Data::Exists(n));
        }
        if p.is("RECENT")? {
            return Ok(Data::Recent(n));
        }
        let n = NonZeroU32::new(n).ok_or(Fail::Failed)?;
        if p.is("EXPUNGE")? {
            return Ok(Data::Expunge(n));
        }
        p.kw("FETCH ")?;
        let items = p.paren(|p| {
            if p.is("FLAGS ")? {
                Ok(MessageDataItem::Flags(p.paren(|p| {
                    if p.is("\\Recent")? {
                        Ok(FlagFetch::Recent)
                    } else {
                        Ok(FlagFetch::Flag(p.flag()?))
                    }
                })?))
            } else if p.is("UID ")? {
                Ok(MessageDataItem::Uid(p.nz()?))
            } else if p.is("RFC822.SIZE ")? {
                Ok(MessageDataItem::Rfc822Size(p.number()?))
            } else if p.is("RFC822 ")? {
                Ok(MessageDataItem::Rfc822(p.nstring()?))
            } else {
                p.kw("BODY[] ")?;
                Ok(MessageDataItem::BodyExt { data: p.nstring()? })
            }
        })?;
        return Ok(Data::Fetch { seq: n, items: Vec1::try_from(items).map_err(|_| Fail::Failed)? });
    }
    let name = p.while1(|b| b.is_ascii_alphabetic())?.to_ascii_uppercase();
    Ok(match name.as_str() {
        "CAPABILITY" => {
            p.sp()?;
            Data::Capability(Vec1::unvalidated(p.sep(|p| p.capability())?))
        }
        "LIST" | "LSUB" => {
            p.sp()?;
            let items = p.paren(|p| {
                p.byte(b'\\')?;
                Ok(FlagNameAttribute(p.atom()?))
            })?;
            p.sp()?;
            let delimiter = if p.is("NIL")? {
                None
            } else {
                let q = p.quoted()?;
                let mut it = q.inner().chars();
                let c = it.next().ok_or(Fail::Failed)?;
                if it.next().is_some() {
                    return Err(Fail::Failed);
                }
                Some(QuotedChar::unvalidated(c))
            };
            p.sp()?;
            let mailbox = p.mailbox()?;
            if name == "LIST" {
                Data::List { items, delimiter, mailbox }
            } else {
                Data::Lsub { items, delimiter, mailbox }
            }
        }
        "STATUS" => {
            p.sp()?;
            let mailbox = p.mailbox()?;
            p.sp()?;
            let items = p.paren(|p| {
                let name = status_name(p)?;
                p.sp()?;
                Ok(StatusDataItem { name, value: p.number()? })
            })?;
            Data::Status { mailbox, items }
        }
        "SEARCH" => {
            let mut v = vec![];
            while p.peek()? == b' ' {
                p.i += 1;
                v.push(p.nz()?);
            }
            Data::Search(v)
        }
        "FLAGS" => {
            p.sp()?;
            Data::Flags(p.paren(|p| p.flag())?)
        }
        "ENABLED" => {
            let mut capabilities = vec![];
            while p.peek()? == b' ' {
                p.i += 1;
                capabilities.push(p.capability()?);
            }
            Data::Enabled { capabilities }
        }
        "QUOTAROOT" => {
            p.sp()?;
            let mailbox = p.mailbox()?;
            let mut roots = vec![];
            while p.peek()? == b' ' {
                p.i += 1;
                roots.push(p.astring()?);
            }
            Data::QuotaRoot { mailbox, roots }
        }
        "ID" => {
            p.sp()?;
            Data::Id { parameters: p.id()? }
        }
        _ => return Err(Fail::Failed),
    })
}
