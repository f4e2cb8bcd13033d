//! Adds to conversations (`[{name, c, u, ...}]`: the bytes a client and an upstream server send)
//! what the codecs make of every candidate message and how the messages are written.
#[path = "../../flow/src/canon.rs"]
#[allow(dead_code)]
mod canon;
#[path = "../../flow/src/oracle.rs"]
mod oracle;

use canon::{bs, unbs};
use imap_codec::{
    decode::Decoder, encode::Encoder, AuthenticateDataCodec, CommandCodec, GreetingCodec, ResponseCodec,
};
use imap_types::{
    command::CommandBody,
    core::Vec1,
    response::{Bye, Capability, Code, CommandContinuationRequest, CommandContinuationRequestBasic, Data, Response, Status, StatusBody, Tagged},
};
use serde_json::{json, Map, Value};

const MAXLIT: u32 = 25 * 1024 * 1024;
const MAX: usize = MAXLIT as usize + 64 * 1024;

/// The list in `b` and what stands around it, if the message was written with the list `IMAP4REV1`.
fn around(caps: Option<Vec<String>>, plain: Vec<u8>) -> (Vec<String>, String, String) {
    let Some(caps) = caps else { return (vec![], String::new(), String::new()) };
    let s = bs(&plain);
    let k = s.find("CAPABILITY IMAP4REV1").unwrap() + "CAPABILITY ".len();
    (caps, s[..k].to_string(), s[k + "IMAP4REV1".len()..].to_string())
}
fn names(l: &Vec1<Capability>) -> Vec<String> {
    l.as_ref().iter().map(|c| c.to_string()).collect()
}
fn one() -> Vec1<Capability<'static>> {
    Vec1::from(Capability::Imap4Rev1)
}
fn entry(wire: String, a: (Vec<String>, String, String), alert: bool, text: String) -> Value {
    json!({"wire": wire, "caps": a.0, "pre": a.1, "post": a.2, "alert": alert, "text": text})
}
fn replace(code: &mut Option<Code>) -> Option<Vec<String>> {
    if let Some(Code::Capability(l)) = code {
        let n = names(l);
        *l = one();
        return Some(n);
    }
    None
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let all: Vec<Value> = serde_json::from_slice(&std::fs::read(&a[1]).unwrap()).unwrap();
    let mut out = vec![];
    for mut v in all {
        let (c, u) = (unbs(v["c"].as_str().unwrap()), unbs(v["u"].as_str().unwrap()));
        let mut cm = Map::new();
        cm.insert("relaxed".into(), json!(false));
        cm.insert("max".into(), json!(MAX));
        cm.insert("maxlit".into(), json!(MAXLIT));
        oracle::attach(&mut cm, &c, false, MAX, Some(MAXLIT), &["command", "authdata", "idledone"]);
        let mut um = Map::new();
        um.insert("relaxed".into(), json!(false));
        um.insert("max".into(), json!(0));
        um.insert("cmds".into(), json!([]));
        um.insert("auths".into(), json!([]));
        oracle::attach(&mut um, &u, false, 0, None, &["greeting", "response"]);
        let none = || Map::from_iter([("_".to_string(), json!(0))]);
        let (mut cmds, mut auths, mut resps) = (none(), none(), none());
        let ranges = |o: &Map<String, Value>, codec: &str| -> Vec<(usize, usize)> {
            o["dec"][codec]
                .as_object()
                .unwrap()
                .iter()
                .filter(|x| x.1["r"] == "ok")
                .map(|x| {
                    let (a, b) = x.0.split_once('_').unwrap();
                    (a.parse().unwrap(), b.parse().unwrap())
                })
                .collect()
        };
        for (s, e) in ranges(&cm, "command") {
            let (_, x) = CommandCodec::default().decode(&c[s..e]).unwrap();
            let kind = match x.body {
                CommandBody::Authenticate { .. } => "auth",
                CommandBody::Idle => "idle",
                _ => "cmd",
            };
            let fr: Vec<Value> = canon::frags(CommandCodec::default().encode(&x))
                .into_iter()
                .map(|(k, d)| json!({"d": bs(&d), "m": k.to_string()}))
                .collect();
            let p = canon::command(&x);
            cmds.insert(p.clone(), json!({"tag": x.tag.as_ref(), "kind": kind, "p": p, "frags": fr}));
        }
        for (s, e) in ranges(&cm, "authdata") {
            let (_, x) = AuthenticateDataCodec::default().decode(&c[s..e]).unwrap();
            auths.insert(canon::auth_data(&x), json!(bs(&AuthenticateDataCodec::default().encode(&x).dump())));
        }
        for (s, e) in ranges(&um, "greeting") {
            let (_, mut x) = GreetingCodec::default().decode(&u[s..e]).unwrap();
            let (p, w) = (canon::greeting(&x), bs(&GreetingCodec::default().encode(&x).dump()));
            let l = replace(&mut x.code);
            resps.insert(p, entry(w, around(l, GreetingCodec::default().encode(&x).dump()), false, String::new()));
        }
        for (s, e) in ranges(&um, "response") {
            let (_, mut x) = ResponseCodec::default().decode(&u[s..e]).unwrap();
            let (p, w) = (canon::response(&x), bs(&ResponseCodec::default().encode(&x).dump()));
            let (mut alert, mut text) = (false, String::new());
            let l = match &mut x {
                Response::Data(Data::Capability(l)) => {
                    let n = names(l);
                    *l = one();
                    Some(n)
                }
                Response::Data(_) => None,
                Response::Status(s) => {
                    alert = matches!(s.code(), Some(Code::Alert));
                    text = s.text().as_ref().to_string();
                    match s {
                        Status::Untagged(StatusBody { code, .. })
                        | Status::Tagged(Tagged { body: StatusBody { code, .. }, .. })
                        | Status::Bye(Bye { code, .. }) => replace(code),
                    }
                }
                Response::CommandContinuationRequest(r) => match r {
                    CommandContinuationRequest::Basic(b) => match b.code() {
                        Some(Code::Capability(l)) => {
                            let n = names(l);
                            *r = CommandContinuationRequest::Basic(
                                CommandContinuationRequestBasic::new(Some(Code::Capability(one())), b.text().clone()).unwrap(),
                            );
                            Some(n)
                        }
                        _ => None,
                    },
                    _ => None,
                },
            };
            resps.insert(p, entry(w, around(l, ResponseCodec::default().encode(&x).dump()), alert, text));
        }
        let o = v.as_object_mut().unwrap();
        o.insert("c".into(), Value::Object(cm));
        o.insert("u".into(), Value::Object(um));
        o.insert("cmds".into(), Value::Object(cmds));
        o.insert("auths".into(), Value::Object(auths));
        o.insert("resps".into(), Value::Object(resps));
        out.push(v);
    }
    std::fs::write(&a[2], serde_json::to_vec(&out).unwrap()).unwrap();
}
