//! What the codecs (a dependency of the code under test) say about every candidate message of a
//! byte stream. The specification decides which candidates there are and what follows from them;
//! this only answers "what does the codec make of bytes [start, end)".
use imap_codec::{
    decode::{
        AuthenticateDataDecodeError, CommandDecodeError, Decoder, GreetingDecodeError,
        IdleDoneDecodeError, ResponseDecodeError,
    },
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
};
use imap_types::{
    command::CommandBody,
    core::LiteralMode,
    response::{Response, Status, StatusKind, Tagged},
};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

use crate::canon::{self, bs};

const CLAMP: u32 = 1 << 30;

fn ok(k: &str, tag: &str, st: &str, p: String) -> Value {
    json!({"r":"ok","k":k,"tag":tag,"st":st,"p":p,"len":0,"mode":""})
}
fn lit(len: u32, tag: &str, mode: &str) -> Value {
    json!({"r":"lit","k":"","tag":tag,"st":"","p":"","len":len.min(CLAMP),"mode":mode})
}
fn fail() -> Value {
    json!({"r":"fail","k":"","tag":"","st":"","p":"","len":0,"mode":""})
}

pub fn decode(codec: &str, b: &[u8]) -> (Value, Option<u32>) {
    match codec {
        "greeting" => match GreetingCodec::default().decode(b) {
            Ok((_, g)) => (ok("greeting", "", "", canon::greeting(&g)), None),
            Err(GreetingDecodeError::Failed | GreetingDecodeError::Incomplete) => (fail(), None),
        },
        "response" => match ResponseCodec::default().decode(b) {
            Ok((_, r)) => {
                let p = canon::response(&r);
                let v = match &r {
                    Response::Data(_) => ok("data", "", "", p),
                    Response::CommandContinuationRequest(_) => ok("cont", "", "", p),
                    Response::Status(Status::Tagged(Tagged { tag, body })) => ok(
                        "status",
                        tag.as_ref(),
                        match body.kind {
                            StatusKind::Ok => "OK",
                            StatusKind::No => "NO",
                            StatusKind::Bad => "BAD",
                        },
                        p,
                    ),
                    Response::Status(_) => ok("status", "", "", p),
                };
                (v, None)
            }
            Err(ResponseDecodeError::LiteralFound { length }) => (lit(length, "", ""), Some(length)),
            Err(ResponseDecodeError::Failed | ResponseDecodeError::Incomplete) => (fail(), None),
        },
        "command" => match CommandCodec::default().decode(b) {
            Ok((_, c)) => {
                let k = match c.body {
                    CommandBody::Authenticate { .. } => "auth",
                    CommandBody::Idle => "idle",
                    _ => "cmd",
                };
                (ok(k, c.tag.as_ref(), "", canon::command(&c)), None)
            }
            Err(CommandDecodeError::LiteralFound { tag, length, mode }) => (
                lit(
                    length,
                    tag.as_ref(),
                    match mode {
                        LiteralMode::Sync => "S",
                        LiteralMode::NonSync => "N",
                    },
                ),
                Some(length),
            ),
            Err(CommandDecodeError::Failed | CommandDecodeError::Incomplete) => (fail(), None),
        },
        "authdata" => match AuthenticateDataCodec::default().decode(b) {
            Ok((_, d)) => (ok("authdata", "", "", canon::auth_data(&d)), None),
            Err(AuthenticateDataDecodeError::Failed | AuthenticateDataDecodeError::Incomplete) => (fail(), None),
        },
        "idledone" => match IdleDoneCodec::default().decode(b) {
            Ok(_) => (ok("idledone", "", "", String::new()), None),
            Err(IdleDoneDecodeError::Failed | IdleDoneDecodeError::Incomplete) => (fail(), None),
        },
        _ => unreachable!(),
    }
}

/// Adds `inp`, `lf`, `cr`, `dec` to a script object.
///
/// `maxlit`: literals above it end the candidate (server), `None`: no limit.
pub fn attach(o: &mut Map<String, Value>, inp: &[u8], relaxed: bool, max: usize, maxlit: Option<u32>, codecs: &[&str]) {
    let n = inp.len();
    let lfs: Vec<usize> = (0..n).filter(|i| inp[*i] == b'\n').map(|i| i + 1).collect();
    let crs: Vec<bool> = lfs.iter().map(|p| *p >= 2 && inp[*p - 2] == b'\r').collect();
    let mut dec: BTreeMap<&str, Map<String, Value>> = codecs.iter().map(|c| (*c, Map::new())).collect();
    let mut todo: BTreeSet<usize> = BTreeSet::from([0]);
    let mut done: BTreeSet<usize> = BTreeSet::new();
    while let Some(s) = todo.pop_first() {
        if !done.insert(s) {
            continue;
        }
        let limit = if max == 0 { n } else { n.min(s + max) };
        if max != 0 && s + max <= n {
            todo.insert(s + max);
        }
        for c in codecs {
            let mut seen = s;
            // One candidate per announced literal.
            loop {
                let at = lfs.partition_point(|p| *p <= seen);
                let Some(q) = lfs.get(at).copied().filter(|q| *q <= limit) else { break };
                todo.insert(q);
                let bare = !relaxed && (q == seen + 1 || !crs[at]);
                if bare {
                    break;
                }
                let (mut v, l) = decode(c, &inp[s..q]);
                if let (Some(l), Some(m)) = (l, maxlit) {
                    if l > m {
                        v["len"] = json!(m.min(CLAMP) + 1);
                    }
                }
                dec.get_mut(c).unwrap().insert(format!("{s}_{q}"), v);
                match l {
                    Some(l) if maxlit.map_or(true, |m| l <= m) => {
                        seen = match (q as u64 + l as u64).try_into() {
                            Ok(x) if x <= limit => x,
                            _ => break,
                        }
                    }
                    _ => break,
                }
            }
        }
    }
    o.insert("bycontent".into(), json!(false));
    o.insert("inp".into(), json!(bs(inp)));
    o.insert("n".into(), json!(n));
    o.insert("lf".into(), json!(lfs));
    o.insert("cr".into(), json!(crs));
    let mut d = Map::new();
    for (c, m) in dec {
        let mut m = m;
        m.insert("_".into(), json!(0)); // never an empty record
        d.insert(c.into(), Value::Object(m));
    }
    o.insert("dec".into(), Value::Object(d));
}
