use std::collections::VecDeque;

use base64::{engine::general_purpose::STANDARD as BASE64, Engine};
use imap_types::{
    auth::AuthenticateData,
    command::{Command, CommandBody},
    core::{AString, IString, Literal, LiteralMode, NString},
    extensions::idle::IdleDone,
    fetch::{Macro, MacroOrMessageDataItemNames, MessageDataItem, MessageDataItemName},
    flag::{StoreResponse, StoreType},
    mailbox::{ListMailbox, Mailbox},
    response::{
        Code, CommandContinuationRequest, Data, Greeting, GreetingKind, Response, Status, StatusKind,
    },
    utils::escape_quoted,
};

use crate::{AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec};

/// Encoder.
pub trait Encoder {
    type Message<'a>;
    /// Encode this message.
    fn encode(&self, message: &Self::Message<'_>) -> Encoded;
}

/// An encoded message: an iterator over its fragments.
#[derive(Clone, Debug)]
pub struct Encoded {
    items: VecDeque<Fragment>,
}
impl Encoded {
    /// Dump the (remaining) encoded data without being guided by literals.
    pub fn dump(self) -> Vec<u8> {
        let mut out = Vec::new();
        for fragment in self.items {
            match fragment {
                Fragment::Line { mut data } => out.append(&mut data),
                Fragment::Literal { mut data, .. } => out.append(&mut data),
            }
        }
        out
    }
}
impl Iterator for Encoded {
    type Item = Fragment;
    fn next(&mut self) -> Option<Self::Item> {
        self.items.pop_front()
    }
}

/// The intended action of a client or server.
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Fragment {
    /// A line that is ready to be send.
    Line { data: Vec<u8> },
    /// A literal that may require an action before it should be send.
    Literal { data: Vec<u8>, mode: LiteralMode },
}

#[derive(Default)]
struct Ctx {
    acc: Vec<u8>,
    items: VecDeque<Fragment>,
}
impl Ctx {
    fn s(&mut self, s: impl AsRef<[u8]>) -> &mut Self {
        self.acc.extend_from_slice(s.as_ref());
        self
    }
    fn literal(&mut self, l: &Literal) -> &mut Self {
        let plus = if l.mode() == LiteralMode::NonSync { "+" } else { "" };
        self.s(format!("{{{}{plus}}}\r\n", l.data().len()));
        self.items.push_back(Fragment::Line { data: std::mem::take(&mut self.acc) });
        self.items.push_back(Fragment::Literal { data: l.data().to_vec(), mode: l.mode() });
        self
    }
    fn istring(&mut self, s: &IString) -> &mut Self {
        match s {
            IString::Literal(l) => self.literal(l),
            IString::Quoted(q) => {
                let e = escape_quoted(q.inner());
                self.s("\"").s(e).s("\"")
            }
        }
    }
    fn nstring(&mut self, s: &NString) -> &mut Self {
        match &s.0 {
            None => self.s("NIL"),
            Some(s) => self.istring(s),
        }
    }
    fn astring(&mut self, s: &AString) -> &mut Self {
        match s {
            AString::Atom(a) => self.s(a.inner()),
            AString::String(s) => self.istring(s),
        }
    }
    fn mailbox(&mut self, m: &Mailbox) -> &mut Self {
        match m {
            Mailbox::Inbox => self.s("INBOX"),
            Mailbox::Other(o) => self.astring(o.inner()),
        }
    }
    fn list_mailbox(&mut self, m: &ListMailbox) -> &mut Self {
        match m {
            ListMailbox::Token(t) => self.s(t.0.as_bytes()),
            ListMailbox::String(s) => self.istring(s),
        }
    }
    fn list<T>(&mut self, items: &[T], mut f: impl FnMut(&mut Self, &T)) -> &mut Self {
        for (i, x) in items.iter().enumerate() {
            if i > 0 {
                self.s(" ");
            }
            f(self, x);
        }
        self
    }
    fn disp<T: std::fmt::Display>(&mut self, items: &[T]) -> &mut Self {
        self.list(items, |c, x| {
            c.s(x.to_string());
        })
    }
    fn id(&mut self, parameters: &Option<Vec<(IString, NString)>>) -> &mut Self {
        match parameters {
            None => self.s("NIL"),
            Some(ps) => {
                self.s("(");
                self.list(ps, |c, (k, v)| {
                    c.istring(k).s(" ").nstring(v);
                });
                self.s(")")
            }
        }
    }
    fn code(&mut self, code: &Option<Code>) -> &mut Self {
        let Some(code) = code else { return self };
        self.s("[");
        match code {
            Code::Alert => self.s("ALERT"),
            Code::BadCharset { allowed } if allowed.is_empty() => self.s("BADCHARSET"),
            Code::BadCharset { allowed } => {
                self.s("BADCHARSET (");
                self.list(allowed, |c, x| {
                    match x {
                        imap_types::core::Charset::Atom(a) => c.s(a.inner()),
                        imap_types::core::Charset::Quoted(q) => {
                            let e = escape_quoted(q.inner());
                            c.s("\"").s(e).s("\"")
                        }
                    };
                });
                self.s(")")
            }
            Code::Capability(caps) => self.s("CAPABILITY ").disp(caps.as_ref()),
            Code::Parse => self.s("PARSE"),
            Code::PermanentFlags(fs) => self.s("PERMANENTFLAGS (").disp(fs).s(")"),
            Code::ReadOnly => self.s("READ-ONLY"),
            Code::ReadWrite => self.s("READ-WRITE"),
            Code::TryCreate => self.s("TRYCREATE"),
            Code::UidNext(n) => self.s(format!("UIDNEXT {n}")),
            Code::UidValidity(n) => self.s(format!("UIDVALIDITY {n}")),
            Code::Unseen(n) => self.s(format!("UNSEEN {n}")),
            Code::Referral(r) => self.s("REFERRAL ").s(r.as_bytes()),
            Code::CompressionActive => self.s("COMPRESSIONACTIVE"),
            Code::OverQuota => self.s("OVERQUOTA"),
            Code::TooBig => self.s("TOOBIG"),
            Code::UidNotSticky => self.s("UIDNOTSTICKY"),
            Code::Other(o) => self.s(o.inner()),
            _ => unreachable!(),
        };
        self.s("] ")
    }
    fn finish(mut self) -> Encoded {
        if !self.acc.is_empty() {
            let data = std::mem::take(&mut self.acc);
            self.items.push_back(Fragment::Line { data });
        }
        Encoded { items: self.items }
    }
    fn kind(&mut self, k: StatusKind) -> &mut Self {
        self.s(match k {
            StatusKind::Ok => "OK",
            StatusKind::No => "NO",
            StatusKind::Bad => "BAD",
        })
    }
}

impl Encoder for GreetingCodec {
    type Message<'a> = Greeting<'a>;
    fn encode(&self, g: &Greeting<'_>) -> Encoded {
        let mut c = Ctx::default();
        c.s("* ");
        c.s(match g.kind {
            GreetingKind::Ok => "OK",
            GreetingKind::PreAuth => "PREAUTH",
            GreetingKind::Bye => "BYE",
        });
        c.s(" ").code(&g.code).s(g.text.inner()).s("\r\n");
        c.finish()
    }
}

impl Encoder for AuthenticateDataCodec {
    type Message<'a> = AuthenticateData<'a>;
    fn encode(&self, d: &AuthenticateData<'_>) -> Encoded {
        let mut c = Ctx::default();
        match d {
            AuthenticateData::Continue(d) => c.s(BASE64.encode(d.declassify())).s("\r\n"),
            AuthenticateData::Cancel => c.s("*\r\n"),
        };
        c.finish()
    }
}

impl Encoder for IdleDoneCodec {
    type Message<'a> = IdleDone;
    fn encode(&self, _: &IdleDone) -> Encoded {
        let mut c = Ctx::default();
        c.s("DONE\r\n");
        c.finish()
    }
}

impl Encoder for CommandCodec {
    type Message<'a> = Command<'a>;
    fn encode(&self, cmd: &Command<'_>) -> Encoded {
        let mut c = Ctx::default();
        c.s(cmd.tag.inner()).s(" ");
        let uid = matches!(
            &cmd.body,
            CommandBody::Fetch { uid: true, .. }
                | CommandBody::Store { uid: true, .. }
                | CommandBody::Copy { uid: true, .. }
                | CommandBody::Move { uid: true, .. }
        );
        if uid {
            c.s("UID ");
        }
        c.s(cmd.body.name());
        match &cmd.body {
            CommandBody::Authenticate { mechanism, initial_response } => {
                c.s(" ").s(mechanism.as_ref());
                if let Some(ir) = initial_response {
                    if ir.declassify().is_empty() {
                        c.s(" =");
                    } else {
                        c.s(" ").s(BASE64.encode(ir.declassify()));
                    }
                }
            }
            CommandBody::Login { username, password } => {
                c.s(" ").astring(username).s(" ").astring(password.declassify());
            }
            CommandBody::Select { mailbox }
            | CommandBody::Examine { mailbox }
            | CommandBody::Create { mailbox }
            | CommandBody::Delete { mailbox }
            | CommandBody::Subscribe { mailbox }
            | CommandBody::Unsubscribe { mailbox }
            | CommandBody::GetQuotaRoot { mailbox } => {
                c.s(" ").mailbox(mailbox);
            }
            CommandBody::Rename { from, to } => {
                c.s(" ").mailbox(from).s(" ").mailbox(to);
            }
            CommandBody::List { reference, mailbox_wildcard } | CommandBody::Lsub { reference, mailbox_wildcard } => {
                c.s(" ").mailbox(reference).s(" ").list_mailbox(mailbox_wildcard);
            }
            CommandBody::Status { mailbox, item_names } => {
                c.s(" ").mailbox(mailbox).s(" (");
                c.list(item_names, |c, x| {
                    c.s(x.name());
                });
                c.s(")");
            }
            CommandBody::Append { mailbox, flags, message } => {
                c.s(" ").mailbox(mailbox);
                if !flags.is_empty() {
                    c.s(" (").disp(flags).s(")");
                }
                c.s(" ").literal(message);
            }
            CommandBody::Fetch { sequence_set, macro_or_item_names, .. } => {
                c.s(" ").s(sequence_set.as_str()).s(" ");
                match macro_or_item_names {
                    MacroOrMessageDataItemNames::Macro(m) => {
                        c.s(match m {
                            Macro::All => "ALL",
                            Macro::Fast => "FAST",
                            Macro::Full => "FULL",
                        });
                    }
                    MacroOrMessageDataItemNames::MessageDataItemNames(names) => {
                        c.s("(");
                        c.list(names, |c, x| {
                            c.s(match x {
                                MessageDataItemName::Flags => "FLAGS",
                                MessageDataItemName::Uid => "UID",
                                MessageDataItemName::Rfc822 => "RFC822",
                                MessageDataItemName::Rfc822Size => "RFC822.SIZE",
                                MessageDataItemName::BodyExt { peek: false } => "BODY[]",
                                MessageDataItemName::BodyExt { peek: true } => "BODY.PEEK[]",
                            });
                        });
                        c.s(")");
                    }
                }
            }
            CommandBody::Store { sequence_set, kind, response, flags, .. } => {
                c.s(" ").s(sequence_set.as_str()).s(" ");
                c.s(match kind {
                    StoreType::Replace => "",
                    StoreType::Add => "+",
                    StoreType::Remove => "-",
                });
                c.s("FLAGS");
                if *response == StoreResponse::Silent {
                    c.s(".SILENT");
                }
                c.s(" (").disp(flags).s(")");
            }
            CommandBody::Copy { sequence_set, mailbox, .. } | CommandBody::Move { sequence_set, mailbox, .. } => {
                c.s(" ").s(sequence_set.as_str()).s(" ").mailbox(mailbox);
            }
            CommandBody::Enable { capabilities } => {
                c.s(" ").disp(capabilities.as_ref());
            }
            CommandBody::GetQuota { root } => {
                c.s(" ").astring(root);
            }
            CommandBody::Id { parameters } => {
                c.s(" ").id(parameters);
            }
            _ => {}
        }
        c.s("\r\n");
        c.finish()
    }
}

impl Encoder for ResponseCodec {
    type Message<'a> = Response<'a>;
    fn encode(&self, r: &Response<'_>) -> Encoded {
        let mut c = Ctx::default();
        match r {
            Response::Status(Status::Tagged(t)) => {
                c.s(t.tag.inner()).s(" ").kind(t.body.kind).s(" ").code(&t.body.code).s(t.body.text.inner());
            }
            Response::Status(Status::Untagged(b)) => {
                c.s("* ").kind(b.kind).s(" ").code(&b.code).s(b.text.inner());
            }
            Response::Status(Status::Bye(b)) => {
                c.s("* BYE ").code(&b.code).s(b.text.inner());
            }
            Response::CommandContinuationRequest(CommandContinuationRequest::Basic(b)) => {
                c.s("+ ").code(&b.code().cloned()).s(b.text().inner());
            }
            Response::CommandContinuationRequest(CommandContinuationRequest::Base64(d)) => {
                c.s("+ ").s(BASE64.encode(d));
            }
            Response::Data(d) => {
                c.s("* ");
                match d {
                    Data::Capability(caps) => {
                        c.s("CAPABILITY ").disp(caps.as_ref());
                    }
                    Data::List { items, delimiter, mailbox } | Data::Lsub { items, delimiter, mailbox } => {
                        c.s(if matches!(d, Data::List { .. }) { "LIST" } else { "LSUB" });
                        c.s(" (").disp(items).s(") ");
                        match delimiter {
                            None => c.s("NIL"),
                            Some(q) => {
                                let e = escape_quoted(&q.inner().to_string());
                                c.s("\"").s(e).s("\"")
                            }
                        };
                        c.s(" ").mailbox(mailbox);
                    }
                    Data::Status { mailbox, items } => {
                        c.s("STATUS ").mailbox(mailbox).s(" (");
                        c.list(items, |c, x| {
                            c.s(format!("{} {}", x.name.name(), x.value));
                        });
                        c.s(")");
                    }
                    Data::Search(ns) => {
                        c.s("SEARCH");
                        for n in ns {
                            c.s(format!(" {n}"));
                        }
                    }
                    Data::Flags(fs) => {
                        c.s("FLAGS (").disp(fs).s(")");
                    }
                    Data::Exists(n) => {
                        c.s(format!("{n} EXISTS"));
                    }
                    Data::Recent(n) => {
                        c.s(format!("{n} RECENT"));
                    }
                    Data::Expunge(n) => {
                        c.s(format!("{n} EXPUNGE"));
                    }
                    Data::Fetch { seq, items } => {
                        c.s(format!("{seq} FETCH ("));
                        c.list(items.as_ref(), |c, x| match x {
                            MessageDataItem::Flags(fs) => {
                                c.s("FLAGS (").disp(fs).s(")");
                            }
                            MessageDataItem::Uid(n) => {
                                c.s(format!("UID {n}"));
                            }
                            MessageDataItem::Rfc822(n) => {
                                c.s("RFC822 ").nstring(n);
                            }
                            MessageDataItem::Rfc822Size(n) => {
                                c.s(format!("RFC822.SIZE {n}"));
                            }
                            MessageDataItem::BodyExt { data } => {
                                c.s("BODY[] ").nstring(data);
                            }
                        });
                        c.s(")");
                    }
                    Data::Enabled { capabilities } => {
                        c.s("ENABLED");
                        for x in capabilities {
                            c.s(format!(" {x}"));
                        }
                    }
                    Data::QuotaRoot { mailbox, roots } => {
                        c.s("QUOTAROOT ").mailbox(mailbox);
                        for r in roots {
                            c.s(" ").astring(r);
                        }
                    }
                    Data::Id { parameters } => {
                        c.s("ID ").id(parameters);
                    }
                    _ => unreachable!(),
                }
            }
        }
        c.s("\r\n");
        c.finish()
    }
}
