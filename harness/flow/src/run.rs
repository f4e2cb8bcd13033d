//! Runs the real `Client` and `Server` under a schedule and records what they were told and what
//! they answered. No judgement here: the recorded traces are validated against the TLA+ spec.
use std::{
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Arc, Mutex},
    time::Instant,
};

use bounded_static::IntoBoundedStatic;
use imap_codec::{
    decode::Decoder,
    encode::Encoder,
    AuthenticateDataCodec, CommandCodec, GreetingCodec, ResponseCodec,
};
use imap_next::{
    client::{self, Client, CommandHandle},
    server::{self, ResponseHandle, Server},
    types::CommandAuthenticate,
    Interrupt, Io, State,
};
use imap_types::{
    auth::AuthenticateData,
    command::{Command, CommandBody},
    response::{CommandContinuationRequestBasic, Greeting, Response},
    secret::Secret,
};
use serde_json::{json, Map, Value};

use crate::{
    canon::{self, bs},
    mem, oracle, reveal,
};

/// A call of the code under test.
fn guarded<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    mem::inside(|| catch_unwind(AssertUnwindSafe(f)))
}

pub fn parse_cmd(b: &[u8]) -> Command<'static> {
    match CommandCodec::default().decode(b) {
        Ok((rest, c)) if rest.is_empty() => c.into_static(),
        other => panic!("bad command in script: {:?} {:?}", bs(b), other),
    }
}
pub fn parse_resp(b: &[u8]) -> Response<'static> {
    match ResponseCodec::default().decode(b) {
        Ok((rest, c)) if rest.is_empty() => c.into_static(),
        other => panic!("bad response in script: {:?} {:?}", bs(b), other),
    }
}
pub fn parse_greet(b: &[u8]) -> Greeting<'static> {
    match GreetingCodec::default().decode(b) {
        Ok((_, c)) => c.into_static(),
        other => panic!("bad greeting in script: {:?} {:?}", bs(b), other),
    }
}
pub fn parse_auth(b: &[u8]) -> AuthenticateData<'static> {
    match AuthenticateDataCodec::default().decode(b) {
        Ok((_, c)) => c.into_static(),
        other => panic!("bad auth data in script: {:?} {:?}", bs(b), other),
    }
}

/// The trace being recorded; shared with the watchdog.
#[derive(Clone)]
pub struct Log(pub Arc<Mutex<(Vec<Value>, Instant)>>);
impl Log {
    pub fn new() -> Self {
        Log(Arc::new(Mutex::new((Vec::new(), Instant::now()))))
    }
    fn push(&self, v: Value) {
        let mut l = self.0.lock().unwrap();
        l.0.push(v);
        l.1 = Instant::now();
    }
    fn touch(&self) {
        self.0.lock().unwrap().1 = Instant::now();
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().0.len()
    }
    pub fn last(&self) -> Option<Value> {
        self.0.lock().unwrap().0.last().cloned()
    }
    pub fn take(&self) -> Vec<Value> {
        std::mem::take(&mut self.0.lock().unwrap().0)
    }
}

/// Result of one `next` call as the trace shows it.
#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub o: &'static str,
    pub e: &'static str,
    pub h: i64,
    pub p: String,
    pub q: String,
    pub b: String,
    pub bytes: Vec<u8>,
    /// Does it show, when formatted, what it must not?
    pub leak: bool,
}
impl Obs {
    fn new(o: &'static str) -> Self {
        Obs { o, e: "", h: 0, p: String::new(), q: String::new(), b: String::new(), bytes: Vec::new(), leak: false }
    }
    fn ev(e: &'static str) -> Self {
        Obs { e, ..Self::new("ev") }
    }
    /// `x`: the error; `plain`: the same one without the bytes.
    fn err<E: std::fmt::Debug + std::fmt::Display>(e: &'static str, x: &E, plain: E, b: &[u8]) -> Self {
        let leak = reveal::shows(&format!("{x} {x:?} {x:#?}"), &format!("{plain} {plain:?} {plain:#?}"), b);
        Obs { e, b: bs(b), leak, ..Self::new("err") }
    }
    fn out(b: Vec<u8>) -> Self {
        Obs { b: bs(&b), bytes: b, ..Self::new("out") }
    }
    fn json(&self) -> Value {
        json!({"o":self.o,"e":self.e,"h":self.h,"p":self.p,"q":self.q,"b":self.b})
    }
}

fn index<H: Copy + PartialEq>(hs: &mut Vec<H>, h: H, add: bool) -> i64 {
    match hs.iter().position(|x| *x == h) {
        Some(i) => i as i64 + 1,
        None if add => {
            hs.push(h);
            hs.len() as i64
        }
        None => -1,
    }
}

/// Everything both roles share.
pub struct Common {
    pub log: Log,
    pub who: &'static str,
    pub inp: Vec<u8>,
    pub dead: bool,
    pub outbytes: Vec<u8>,
    /// How the machine looked at first when printed.
    pub looks: String,
    /// Memory of this thread before there was one.
    pub base: i64,
}
impl Common {
    fn new(log: Log, who: &'static str) -> Self {
        Common { log, who, inp: vec![], dead: false, outbytes: vec![], looks: String::new(), base: mem::live() }
    }
    fn forget(&mut self) {
        self.inp.clear();
        self.outbytes.clear();
    }
    /// Does the machine, when printed, show what it has received?
    fn shows(&self, look: &str, more: &[&[u8]]) -> bool {
        !reveal::alike(look, &self.looks)
            && (reveal::shows(look, &self.looks, &self.inp) || more.iter().any(|m| reveal::shows(look, &self.looks, m)))
    }
    fn act(&self, a: &str, extra: Value, o: Value) {
        let mut m = Map::new();
        m.insert("w".into(), json!(self.who));
        m.insert("a".into(), json!(a));
        m.insert("n".into(), json!(0));
        m.insert("ok".into(), json!(true));
        m.insert("h".into(), json!(0));
        m.insert("ret".into(), json!(""));
        m.insert("leak".into(), json!(false));
        m.insert("kib".into(), json!(((mem::live() - self.base) >> 10).clamp(0, 1 << 30)));
        m.insert("peak".into(), json!(((mem::peak() - self.base) >> 10).clamp(0, 1 << 30)));
        if let Value::Object(x) = extra {
            m.extend(x);
        }
        m.insert("obs".into(), o);
        self.log.push(Value::Object(m));
    }
}
fn auth_shown(c: &CommandAuthenticate) -> bool {
    let plain = CommandAuthenticate { tag: c.tag.clone(), mechanism: c.mechanism.clone(), initial_response: None };
    match &c.initial_response {
        Some(i) => reveal::shows(&format!("{c:?}"), &format!("{plain:?}"), i.declassify()),
        None => false,
    }
}
fn no_obs() -> Value {
    Obs::new("none").json()
}

pub struct ClientRun {
    pub c: Common,
    client: Client,
    pub relaxed: bool,
    handles: Vec<CommandHandle>,
    pub cmds: Vec<Command<'static>>,
    pub auths: Vec<AuthenticateData<'static>>,
    pub enqueued: usize,
}

impl ClientRun {
    pub fn new(relaxed: bool, log: Log) -> Self {
        let mut o = client::Options::default();
        o.crlf_relaxed = relaxed;
        let mut c = Common::new(log, "c");
        let client = mem::inside(|| Client::new(o));
        c.looks = format!("{client:?}");
        ClientRun {
            c,
            client,
            relaxed,
            handles: vec![],
            cmds: vec![],
            auths: vec![],
            enqueued: 0,
        }
    }
    /// Starts counting anew.
    pub fn forget(&mut self) {
        self.handles.clear();
        self.cmds.clear();
        self.auths.clear();
        self.enqueued = 0;
        self.c.forget();
    }
    pub fn feed(&mut self, b: &[u8]) {
        if self.c.dead {
            return;
        }
        self.c.log.touch();
        self.c.inp.extend_from_slice(b);
        let r = guarded(|| self.client.enqueue_input(b));
        let o = if r.is_err() { self.c.dead = true; Obs::new("panic").json() } else { no_obs() };
        self.c.act("feed", json!({"n": b.len()}), o);
    }
    /// Enqueues the next command of the script.
    pub fn enqueue(&mut self) {
        if self.c.dead || self.enqueued >= self.cmds.len() {
            return;
        }
        self.c.log.touch();
        let cmd = self.cmds[self.enqueued].clone();
        self.enqueued += 1;
        match guarded(|| self.client.enqueue_command(cmd)) {
            Ok(h) => {
                let h = index(&mut self.handles, h, true);
                self.c.act("enq", json!({"n": self.enqueued, "h": h}), no_obs());
            }
            Err(_) => {
                self.c.dead = true;
                self.c.act("enq", json!({"n": self.enqueued}), Obs::new("panic").json());
            }
        }
    }
    /// `set_authenticate_data` with the `i`-th (1-based) data of the script.
    pub fn set_auth(&mut self, i: usize) -> bool {
        if self.c.dead || i == 0 || i > self.auths.len() {
            return false;
        }
        self.c.log.touch();
        let d = self.auths[i - 1].clone();
        match guarded(|| self.client.set_authenticate_data(d)) {
            Ok(Ok(h)) => {
                let h = index(&mut self.handles, h, false);
                self.c.act("sauth", json!({"n": i, "ok": true, "h": h}), no_obs());
                true
            }
            Ok(Err(d)) => {
                self.c.act("sauth", json!({"n": i, "ok": false, "ret": canon::auth_data(&d)}), no_obs());
                false
            }
            Err(_) => {
                self.c.dead = true;
                self.c.act("sauth", json!({"n": i}), Obs::new("panic").json());
                false
            }
        }
    }
    pub fn set_done(&mut self) -> bool {
        if self.c.dead {
            return false;
        }
        self.c.log.touch();
        match guarded(|| self.client.set_idle_done()) {
            Ok(Some(h)) => {
                let h = index(&mut self.handles, h, false);
                self.c.act("sdone", json!({"ok": true, "h": h}), no_obs());
                true
            }
            Ok(None) => {
                self.c.act("sdone", json!({"ok": false}), no_obs());
                false
            }
            Err(_) => {
                self.c.dead = true;
                self.c.act("sdone", json!({}), Obs::new("panic").json());
                false
            }
        }
    }
    pub fn next(&mut self) -> Obs {
        if self.c.dead {
            return Obs::new("panic");
        }
        self.c.log.touch();
        let hs = &mut self.handles;
        let r = guarded(|| self.client.next());
        let o = match r {
            Err(_) => {
                self.c.dead = true;
                Obs::new("panic")
            }
            Ok(Err(Interrupt::Io(Io::NeedMoreInput))) => Obs::new("more"),
            Ok(Err(Interrupt::Io(Io::Output(b)))) => {
                self.c.outbytes.extend_from_slice(&b);
                Obs::out(b)
            }
            Ok(Err(Interrupt::Error(e))) => match e {
                ref x @ client::Error::ExpectedCrlfGotLf { ref discarded_bytes } => {
                    let plain = client::Error::ExpectedCrlfGotLf { discarded_bytes: Secret::new(Box::default()) };
                    Obs::err("lf", x, plain, discarded_bytes.declassify())
                }
                ref x @ client::Error::MalformedMessage { ref discarded_bytes } => {
                    let plain = client::Error::MalformedMessage { discarded_bytes: Secret::new(Box::default()) };
                    Obs::err("malformed", x, plain, discarded_bytes.declassify())
                }
            },
            Ok(Ok(ev)) => match ev {
                client::Event::GreetingReceived { greeting } => Obs { q: canon::greeting(&greeting), ..Obs::ev("Greeting") },
                client::Event::CommandSent { handle, command } => Obs {
                    h: index(hs, handle, false),
                    p: canon::command(&command),
                    ..Obs::ev("CommandSent")
                },
                client::Event::CommandRejected { handle, command, status } => Obs {
                    h: index(hs, handle, false),
                    p: canon::command(&command),
                    q: canon::status(&status),
                    ..Obs::ev("CommandRejected")
                },
                client::Event::AuthenticateStarted { handle } => Obs { h: index(hs, handle, false), ..Obs::ev("AuthStarted") },
                client::Event::AuthenticateContinuationRequestReceived { handle, continuation_request } => Obs {
                    h: index(hs, handle, false),
                    q: canon::cont(&continuation_request),
                    ..Obs::ev("AuthCont")
                },
                client::Event::AuthenticateStatusReceived { handle, command_authenticate, status } => Obs {
                    h: index(hs, handle, false),
                    leak: auth_shown(&command_authenticate),
                    p: canon::command_auth(command_authenticate),
                    q: canon::status(&status),
                    ..Obs::ev("AuthStatus")
                },
                client::Event::IdleCommandSent { handle } => Obs { h: index(hs, handle, false), ..Obs::ev("IdleSent") },
                client::Event::IdleAccepted { handle, continuation_request } => Obs {
                    h: index(hs, handle, false),
                    q: canon::cont(&continuation_request),
                    ..Obs::ev("IdleAccepted")
                },
                client::Event::IdleRejected { handle, status } => Obs {
                    h: index(hs, handle, false),
                    q: canon::status(&status),
                    ..Obs::ev("IdleRejected")
                },
                client::Event::IdleDoneSent { handle } => Obs { h: index(hs, handle, false), ..Obs::ev("IdleDoneSent") },
                client::Event::DataReceived { data } => Obs { q: canon::data(&data), ..Obs::ev("Data") },
                client::Event::StatusReceived { status } => Obs { q: canon::status(&status), ..Obs::ev("Status") },
                client::Event::ContinuationRequestReceived { continuation_request } => Obs {
                    q: canon::cont(&continuation_request),
                    ..Obs::ev("Cont")
                },
            },
        };
        let auths: Vec<Vec<u8>> = self.auths.iter().map(|d| canon::auth_data(d).into_bytes()).collect();
        let leak = o.leak || self.c.shows(&format!("{:?}", self.client), &auths.iter().map(|x| &x[..]).collect::<Vec<_>>());
        self.c.act("next", json!({"leak": leak}), o.json());
        o
    }
    /// The script part of the trace.
    pub fn script(&self, inp: &[u8]) -> Map<String, Value> {
        let mut o = Map::new();
        o.insert("role".into(), json!("c"));
        o.insert("relaxed".into(), json!(self.relaxed));
        o.insert("max".into(), json!(0));
        o.insert(
            "cmds".into(),
            Value::Array(
                self.cmds
                    .iter()
                    .map(|c| {
                        let fr: Vec<Value> = canon::frags(CommandCodec::default().encode(c))
                            .into_iter()
                            .map(|(k, d)| json!({"d": bs(&d), "m": k.to_string()}))
                            .collect();
                        let kind = match c.body {
                            CommandBody::Authenticate { .. } => "auth",
                            CommandBody::Idle => "idle",
                            _ => "cmd",
                        };
                        json!({"tag": c.tag.as_ref(), "kind": kind, "p": canon::command(c), "frags": fr})
                    })
                    .collect(),
            ),
        );
        o.insert(
            "auths".into(),
            Value::Array(
                self.auths
                    .iter()
                    .map(|d| json!({"p": canon::auth_data(d), "d": bs(&AuthenticateDataCodec::default().encode(d).dump())}))
                    .collect(),
            ),
        );
        let given: usize = self.cmds.iter().map(|c| CommandCodec::default().encode(c).dump().len()).sum::<usize>()
            + self.auths.iter().map(|d| AuthenticateDataCodec::default().encode(d).dump().len()).sum::<usize>();
        o.insert("given".into(), json!(given));
        oracle::attach(&mut o, inp, self.relaxed, 0, None, &["greeting", "response"]);
        o
    }
}

#[derive(Clone, Debug)]
pub struct ServerOpts {
    pub relaxed: bool,
    pub max_literal: u32,
    pub max_command: u32,
    /// `set_literal_accept_text` / `set_literal_reject_text` calls before construction.
    pub texts: Vec<(bool, String)>,
}

pub struct ServerRun {
    pub c: Common,
    server: Option<Server>,
    pub opts: ServerOpts,
    greeting: Greeting<'static>,
    handles: Vec<ResponseHandle>,
    pub resps: Vec<Response<'static>>,
}

impl ServerRun {
    pub fn new(opts: ServerOpts, greeting: Greeting<'static>, log: Log) -> Self {
        let mut o = server::Options::default();
        o.crlf_relaxed = opts.relaxed;
        o.max_literal_size = opts.max_literal;
        o.max_command_size = opts.max_command;
        let mut c = Common::new(log, "s");
        for (accept, text) in &opts.texts {
            let valid = CommandContinuationRequestBasic::new(None, text.as_str()).is_ok();
            let r = guarded(|| {
                if *accept {
                    o.set_literal_accept_text(text.clone())
                } else {
                    o.set_literal_reject_text(text.clone())
                }
            });
            match r {
                Err(_) => {
                    c.dead = true;
                    c.act("opt", json!({}), Obs::new("panic").json());
                    break;
                }
                Ok(r) => {
                    let (ok, ret) = match r {
                        Ok(()) => (true, String::new()),
                        Err(t) => (false, t),
                    };
                    let mut ob = Obs::new("none");
                    ob.p = o.literal_accept_text().to_string();
                    ob.q = o.literal_reject_text().to_string();
                    c.act(
                        "opt",
                        json!({"ok": ok, "ret": ret, "which": if *accept {"acc"} else {"rej"}, "text": text, "valid": valid}),
                        ob.json(),
                    );
                }
            }
        }
        let server = guarded(|| Server::new(o, greeting.clone())).ok();
        if let Some(s) = &server {
            c.looks = format!("{s:?}");
        }
        if server.is_none() {
            c.dead = true;
            c.act("next", json!({}), Obs::new("panic").json());
        }
        ServerRun { c, server, opts, greeting, handles: vec![], resps: vec![] }
    }
    /// Starts counting anew.
    pub fn forget(&mut self) {
        self.handles.clear();
        self.resps.clear();
        self.c.forget();
    }
    pub fn feed(&mut self, b: &[u8]) {
        if self.c.dead {
            return;
        }
        self.c.log.touch();
        self.c.inp.extend_from_slice(b);
        let s = self.server.as_mut().unwrap();
        let r = guarded(|| s.enqueue_input(b));
        let o = if r.is_err() { self.c.dead = true; Obs::new("panic").json() } else { no_obs() };
        self.c.act("feed", json!({"n": b.len()}), o);
    }
    pub fn add(&mut self, r: Response<'static>) -> usize {
        self.resps.push(r);
        self.resps.len()
    }
    fn called(&mut self, a: &'static str, i: usize, r: std::thread::Result<Result<ResponseHandle, Response<'static>>>) -> bool {
        match r {
            Ok(Ok(h)) => {
                let h = index(&mut self.handles, h, true);
                self.c.act(a, json!({"n": i, "ok": true, "h": h}), no_obs());
                true
            }
            Ok(Err(x)) => {
                self.c.act(a, json!({"n": i, "ok": false, "ret": canon::response(&x)}), no_obs());
                false
            }
            Err(_) => {
                self.c.dead = true;
                self.c.act(a, json!({"n": i}), Obs::new("panic").json());
                false
            }
        }
    }
    /// Enqueues the `i`-th (1-based) response of the script.
    pub fn enqueue(&mut self, i: usize) {
        if self.c.dead || i == 0 || i > self.resps.len() {
            return;
        }
        self.c.log.touch();
        let s = self.server.as_mut().unwrap();
        let resp = self.resps[i - 1].clone();
        let r = guarded(|| {
            Ok(match resp {
                Response::Data(d) => s.enqueue_data(d),
                Response::Status(d) => s.enqueue_status(d),
                Response::CommandContinuationRequest(d) => s.enqueue_continuation_request(d),
            })
        });
        self.called("enq", i, r);
    }
    /// One of the dialogue calls ("acont", "afin", "iacc", "irej") with the `i`-th response.
    pub fn call(&mut self, a: &'static str, i: usize) -> bool {
        if self.c.dead || i == 0 || i > self.resps.len() {
            return false;
        }
        self.c.log.touch();
        let s = self.server.as_mut().unwrap();
        let r = match (a, self.resps[i - 1].clone()) {
            ("acont", Response::CommandContinuationRequest(c)) => {
                guarded(|| s.authenticate_continue(c).map_err(Response::CommandContinuationRequest))
            }
            ("afin", Response::Status(c)) => guarded(|| s.authenticate_finish(c).map_err(Response::Status)),
            ("iacc", Response::CommandContinuationRequest(c)) => {
                guarded(|| s.idle_accept(c).map_err(Response::CommandContinuationRequest))
            }
            ("irej", Response::Status(c)) => guarded(|| s.idle_reject(c).map_err(Response::Status)),
            _ => return false,
        };
        self.called(a, i, r)
    }
    pub fn next(&mut self) -> Obs {
        if self.c.dead {
            return Obs::new("panic");
        }
        self.c.log.touch();
        let s = self.server.as_mut().unwrap();
        let hs = &mut self.handles;
        let r = guarded(|| s.next());
        let o = match r {
            Err(_) => {
                self.c.dead = true;
                Obs::new("panic")
            }
            Ok(Err(Interrupt::Io(Io::NeedMoreInput))) => Obs::new("more"),
            Ok(Err(Interrupt::Io(Io::Output(b)))) => {
                self.c.outbytes.extend_from_slice(&b);
                Obs::out(b)
            }
            Ok(Err(Interrupt::Error(e))) => match e {
                ref x @ server::Error::ExpectedCrlfGotLf { ref discarded_bytes } => {
                    let plain = server::Error::ExpectedCrlfGotLf { discarded_bytes: Secret::new(Box::default()) };
                    Obs::err("lf", x, plain, discarded_bytes.declassify())
                }
                ref x @ server::Error::MalformedMessage { ref discarded_bytes } => {
                    let plain = server::Error::MalformedMessage { discarded_bytes: Secret::new(Box::default()) };
                    Obs::err("malformed", x, plain, discarded_bytes.declassify())
                }
                ref x @ server::Error::LiteralTooLong { ref discarded_bytes } => {
                    let plain = server::Error::LiteralTooLong { discarded_bytes: Secret::new(Box::default()) };
                    Obs::err("littoolong", x, plain, discarded_bytes.declassify())
                }
                ref x @ server::Error::CommandTooLong { ref discarded_bytes } => {
                    let plain = server::Error::CommandTooLong { discarded_bytes: Secret::new(Box::default()) };
                    Obs::err("toolong", x, plain, discarded_bytes.declassify())
                }
            },
            Ok(Ok(ev)) => match ev {
                server::Event::GreetingSent { greeting } => Obs { p: canon::greeting(&greeting), ..Obs::ev("GreetingSent") },
                server::Event::ResponseSent { handle, response } => Obs {
                    h: index(hs, handle, false),
                    p: canon::response(&response),
                    ..Obs::ev("ResponseSent")
                },
                server::Event::CommandReceived { command } => Obs { q: canon::command(&command), ..Obs::ev("Command") },
                server::Event::CommandAuthenticateReceived { command_authenticate } => Obs {
                    leak: auth_shown(&command_authenticate),
                    q: canon::command_auth(command_authenticate),
                    ..Obs::ev("AuthCommand")
                },
                server::Event::AuthenticateDataReceived { authenticate_data } => Obs {
                    leak: match &authenticate_data {
                        AuthenticateData::Continue(d) => reveal::shows(&format!("{authenticate_data:?}"), "", d.declassify()),
                        _ => false,
                    },
                    q: canon::auth_data(&authenticate_data),
                    ..Obs::ev("AuthData")
                },
                server::Event::IdleCommandReceived { tag } => Obs { q: tag.as_ref().to_string(), ..Obs::ev("IdleCommand") },
                server::Event::IdleDoneReceived => Obs::ev("IdleDone"),
            },
        };
        let leak = o.leak || self.c.shows(&format!("{:?}", self.server.as_ref().unwrap()), &[]);
        self.c.act("next", json!({"leak": leak}), o.json());
        o
    }
    pub fn script(&self, inp: &[u8]) -> Map<String, Value> {
        let mut o = Map::new();
        o.insert("role".into(), json!("s"));
        o.insert("relaxed".into(), json!(self.opts.relaxed));
        o.insert("max".into(), json!(self.opts.max_command.min(1 << 30)));
        o.insert("maxlit".into(), json!(self.opts.max_literal.min(1 << 30)));
        let enc = GreetingCodec::default().encode(&self.greeting).dump();
        o.insert("greeting".into(), json!({"b": bs(&enc), "p": canon::greeting(&self.greeting)}));
        o.insert(
            "resps".into(),
            Value::Array(
                self.resps
                    .iter()
                    .map(|r| {
                        let k = match r {
                            Response::Data(_) => "data",
                            Response::Status(_) => "status",
                            Response::CommandContinuationRequest(_) => "cont",
                        };
                        json!({"k": k, "p": canon::response(r), "b": bs(&ResponseCodec::default().encode(r).dump())})
                    })
                    .collect(),
            ),
        );
        let given: usize = enc.len() + self.resps.iter().map(|r| ResponseCodec::default().encode(r).dump().len()).sum::<usize>();
        o.insert("given".into(), json!(given));
        oracle::attach(
            &mut o,
            inp,
            self.opts.relaxed,
            self.opts.max_command as usize,
            Some(self.opts.max_literal),
            &["command", "authdata", "idledone"],
        );
        o
    }
}
