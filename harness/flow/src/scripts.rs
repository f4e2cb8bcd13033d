//! Scripts for the model checker: what the peer sends, what the user has to offer and where the
//! input may be cut. The model explores every order of events these allow.
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Map, Value};

use crate::{canon, pool, run::*};

/// Cut points: around line ends, inside lines and literals, at most `max` besides the end.
fn cuts(inp: &[u8], ends: &[usize], max: usize, r: &mut StdRng) -> Vec<usize> {
    let n = inp.len();
    let mut must: Vec<usize> = ends.to_vec();
    let mut cand: Vec<usize> = Vec::new();
    for i in 0..n {
        if inp[i] == b'\n' {
            cand.push(i + 1);
            if i > 0 {
                cand.push(i); // between CR and LF
            }
            if i > 1 {
                cand.push(i - 1);
            }
            if i + 2 < n {
                cand.push(i + 2);
            }
        }
    }
    cand.push(n);
    must.push(n);
    cand.retain(|c| *c > 0 && !must.contains(c));
    cand.sort();
    cand.dedup();
    while cand.len() + must.len() > max && !cand.is_empty() {
        let k = r.gen_range(0..cand.len());
        cand.remove(k);
    }
    must.extend(cand);
    must.sort();
    must.dedup();
    must.retain(|c| *c > 0);
    must
}

pub struct ClientScript {
    pub relaxed: bool,
    pub cmds: Vec<Vec<u8>>,
    pub auths: Vec<Vec<u8>>,
    pub inp: Vec<Vec<u8>>,
}
fn b(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}
fn cs(relaxed: bool, cmds: &[&str], auths: &[&str], inp: &[&str]) -> ClientScript {
    ClientScript {
        relaxed,
        cmds: cmds.iter().map(|s| b(s)).collect(),
        auths: auths.iter().map(|s| b(s)).collect(),
        inp: inp.iter().map(|s| b(s)).collect(),
    }
}
const HI: &str = "* OK hello\r\n";

fn client_fixed() -> Vec<ClientScript> {
    vec![
        // literals: accepted, interleaved with data and other continuation requests
        cs(false, &["A1 LOGIN {3}\r\nabc {2}\r\n\r\n\r\n", "A2 NOOP\r\n"], &[], &[HI, "+ go\r\n", "* 2 EXISTS\r\n", "+ go\r\n", "+ extra\r\n", "A1 OK x\r\n"]),
        // refused by BAD only; OK, NO, foreign and near-identical tags do not count
        cs(false, &["A1 LOGIN {1}\r\na {1+}\r\nb\r\n", "A2 SELECT {1}\r\nc\r\n"], &[], &[HI, "A1 NO n\r\n", "A2 BAD n\r\n", "a1 BAD n\r\n", "A1 BAD x\r\n", "+ go\r\n", "A2 OK d\r\n"]),
        cs(false, &["A1 LOGIN {4+}\r\nab\r\n {0}\r\n\r\n", "A2 LOGIN {1}\r\nx {1}\r\ny\r\n"], &[], &[HI, "* BAD x\r\n", "A1 OK x\r\n", "+ a\r\n", "A2 BAD [ALERT] y\r\n", "+ b\r\n"]),
        // refused at the second literal
        cs(true, &["A1 LOGIN {2}\r\nab {2}\r\ncd\r\n", "A2 NOOP\r\n"], &[], &["* PREAUTH hi\n", "+ \r\n", "A1 BAD no\n", "+ late\r\n", "A2 OK\r\n"]),
        cs(false, &["A1 NOOP\r\n", "A2 LOGIN {0}\r\n {0}\r\n\r\n", "A3 IDLE\r\n"], &[], &[HI, "A1 OK n\r\n", "+ 1\r\n", "+ 2\r\n", "A2 BAD l\r\n", "+ 3\r\n"]),
        // AUTHENTICATE
        cs(false, &["A1 AUTHENTICATE PLAIN\r\n", "A2 NOOP\r\n"], &["YQ==\r\n", "*\r\n"], &[HI, "+ YWI=\r\n", "* 1 EXISTS\r\n", "+ \r\n", "A2 OK early\r\n", "A1 OK in\r\n"]),
        cs(false, &["A1 AUTHENTICATE PLAIN =\r\n", "A2 AUTHENTICATE LOGIN\r\n"], &["\r\n"], &[HI, "+ 1\r\n", "+ 2\r\n", "A1 NO x\r\n", "+ 3\r\n", "A2 BAD y\r\n"]),
        cs(false, &["A1 AUTHENTICATE LOGIN\r\n", "A2 LOGIN {1}\r\na b\r\n"], &["QQ==\r\n", "Qg==\r\n"], &[HI, "A1 BAD z\r\n", "+ 1\r\n", "A1 NO again\r\n", "+ 2\r\n"]),
        // IDLE
        cs(false, &["A1 IDLE\r\n", "A2 NOOP\r\n"], &["YQ==\r\n"], &[HI, "+ idling\r\n", "* 3 EXISTS\r\n", "+ more\r\n", "A1 OK done\r\n", "A2 OK x\r\n"]),
        cs(false, &["A1 IDLE\r\n", "A2 IDLE\r\n", "A3 LOGIN {1}\r\na b\r\n"], &[], &[HI, "A1 NO no\r\n", "+ 2\r\n", "A2 BAD x\r\n", "+ 3\r\n"]),
        cs(false, &["A1 IDLE\r\n", "A2 AUTHENTICATE PLAIN\r\n"], &["YQ==\r\n"], &[HI, "+ 1\r\n", "+ 2\r\n", "+ 3\r\n"]),
        // greeting, garbage, line ends, literals in responses
        cs(false, &["A1 NOOP\r\n"], &[], &["hello\r\n", "* OK hi\n", "* 1 EXISTS\r\n", HI, "* OK again\r\n"]),
        cs(false, &["A1 NOOP\r\n"], &[], &[HI, "* 1 FETCH (BODY[] {5}\r\n\na\r\n\n RFC822 {0}\r\n)\r\n", "junk\r\n", "* 2 EXISTS\n", "* 3 EXISTS\r\n"]),
        cs(true, &["A1 LOGIN {1}\r\na b\r\n"], &[], &["* OK hi\n", "* 1 FETCH (BODY[] {3}\n\r\n\n)\n", "\n", "+ x\n", "A1 BAD\n"]),
        cs(false, &["A1 NOOP\r\n"], &[], &[HI, "\n", "\r\n", "a\rb\n", "* 1 FETCH (BODY[] {2}\n", "A1 OK x\r\n"]),
        cs(false, &["A1 ID (\"name\" {2}\r\n\r\n)\r\n"], &[], &[HI, "+ \r", "\n", "* 1 FETCH (BODY[] {2}\r\nab)\n", "A1 OK x\r\n"]),
    ]
}

fn client_random(r: &mut StdRng) -> ClientScript {
    let n = r.gen_range(1..=3);
    let tags: Vec<String> = (0..n).map(|i| pool::tag(r, i + 1)).collect();
    let cmds: Vec<Vec<u8>> = tags.iter().map(|t| pool::command(r, t, 4)).collect();
    let auths = (0..2).map(|_| pool::auth_line(r)).collect();
    let mut inp = vec![pool::greeting(r)];
    for i in 0..r.gen_range(2..=5) {
        let mut v = match r.gen_range(0..10) {
            0 => pool::garbage(r),
            1..=4 => pool::cont(r),
            5..=7 => {
                let t = tags[(i / 2) % n].clone();
                pool::status(r, Some(&t))
            }
            _ => pool::response(r, &tags, 3),
        };
        if r.gen_bool(0.08) {
            pool::bare_lf(r, &mut v);
        }
        inp.push(v);
    }
    ClientScript { relaxed: r.gen_bool(0.3), cmds, auths, inp }
}

pub fn build_client(s: &ClientScript) -> ClientRun {
    let mut run = ClientRun::new(s.relaxed, Log::new());
    run.cmds = s.cmds.iter().map(|c| parse_cmd(c)).collect();
    run.auths = s.auths.iter().map(|c| parse_auth(c)).collect();
    run
}

pub fn clients(seed: u64, fixed: bool, random: usize, ncuts: usize) -> Vec<(ClientScript, Value)> {
    let mut r = StdRng::seed_from_u64(seed ^ 0xc11e);
    let mut list = if fixed { client_fixed() } else { vec![] };
    for _ in 0..random {
        list.push(client_random(&mut r));
    }
    list.into_iter()
        .enumerate()
        .map(|(i, s)| {
            let inp = s.inp.concat();
            let mut m = build_client(&s).script(&inp);
            let ends = ends(&s.inp);
            m.insert("cuts".into(), json!(cuts(&inp, &ends, ncuts.max(ends.len()), &mut r)));
            m.insert("name".into(), json!(format!("client/{seed}/{i}")));
            (s, Value::Object(m))
        })
        .collect()
}
fn ends(v: &[Vec<u8>]) -> Vec<usize> {
    let mut n = 0;
    v.iter()
        .map(|x| {
            n += x.len();
            n
        })
        .collect()
}

pub struct ServerScript {
    pub relaxed: bool,
    pub maxlit: u32,
    pub max: u32,
    pub texts: Vec<(bool, String)>,
    pub greeting: Vec<u8>,
    pub resps: Vec<Vec<u8>>,
    pub inp: Vec<Vec<u8>>,
}
fn ss(relaxed: bool, maxlit: u32, max: u32, resps: &[&str], inp: &[&str]) -> ServerScript {
    ServerScript {
        relaxed,
        maxlit,
        max,
        texts: vec![],
        greeting: b(HI),
        resps: resps.iter().map(|s| b(s)).collect(),
        inp: inp.iter().map(|s| b(s)).collect(),
    }
}
fn server_fixed() -> Vec<ServerScript> {
    let mut v = vec![
        // literals of both kinds with responses queued meanwhile
        ss(false, 3, 200, &["* 1 EXISTS\r\n", "A1 OK x\r\n"], &["A1 LOGIN {3}\r\na\r\n {2+}\r\nb\n\r\n", "A2 NOOP\r\n"]),
        ss(false, 2, 200, &["* 1 FETCH (BODY[] {2}\r\nab)\r\n"], &["A1 LOGIN {3}\r\n", "A2 SELECT {2}\r\nab\r\n", "A3 APPEND INBOX {3+}\r\nabc\r\n", "A4 NOOP\r\n"]),
        ss(false, 2, 200, &["A1 OK x\r\n"], &["A1 LOGIN {2}\r\nab {3}\r\n", "A2 LOGIN {0}\r\n {0+}\r\n\r\n"]),
        // AUTHENTICATE
        ss(false, 5, 200, &["+ YQ==\r\n", "* 1 EXISTS\r\n", "A1 OK in\r\n"], &["A1 AUTHENTICATE PLAIN\r\n", "YWI=\r\n", "*\r\n", "A2 NOOP\r\n"]),
        ss(false, 5, 200, &["A1 NO x\r\n", "+ 1\r\n", "A2 BAD x\r\n"], &["A1 AUTHENTICATE PLAIN =\r\n", "A2 IDLE\r\n", "QQ=\r\n", "A3 AUTHENTICATE LOGIN\r\n"]),
        // IDLE
        ss(false, 5, 200, &["+ idle\r\n", "* 1 EXISTS\r\n", "A1 OK done\r\n"], &["A1 IDLE\r\n", "DONE\r\n", "A2 NOOP\r\n"]),
        ss(false, 5, 200, &["A1 NO never\r\n", "+ ok\r\n"], &["A1 IDLE\r\n", "A2 IDLE\r\n", "DONE\n", "done\r\n", "A3 NOOP\r\n"]),
        ss(false, 5, 200, &["+ ok\r\n", "A1 BAD b\r\n", "+ x\r\n"], &["A1 IDLE\r\n", "A2 NOOP\r\n", "DONE \r\n", "DONE\r\n"]),
        // line ends and garbage
        ss(false, 9, 200, &["* BYE x\r\n"], &["A1 NOOP\n", "\n", "\r\n", "A2 LOGIN {4}\r\n\na\r\n b\n", "A3 NOOP\r\n"]),
        ss(true, 9, 200, &["* OK x\r\n"], &["A1 NOOP\n", "A2 LOGIN {3}\n\n\r\n b\n", "\n", "A3 IDLE\n"]),
        // sizes
        ss(false, 4, 10, &["A1 OK x\r\n"], &["A1 NOOP\r\n", "AB1 NOOP\r\n", "A2 NOOP\r\n"]),
        ss(false, 4, 14, &["* 1 EXISTS\r\n"], &["A SELECT {1}\r\nx\r\n", "A2 NOOP\r\n"]),
        ss(false, 4, 18, &[], &["A SELECT {2}\r\nxy\r\n", "A SELECT {3+}\r\nxyz\r\n", "A2 NOOP\r\n"]),
        ss(false, 2, 24, &["+ \r\n", "A1 OK x\r\n"], &["A1 AUTHENTICATE PLAIN\r\n", "QUJDREVGR0hJSktMTU5PUA==\r\n", "YWI=\r\n"]),
        ss(false, 2, 9, &["+ \r\n", "A1 OK x\r\n"], &["A1 IDLE\r\n", "DONEDONEDONE\r\n", "DONE\r\n"]),
    ];
    v[1].texts = vec![(true, "ok then".into()), (false, "too big".into()), (true, "".into()), (false, "a\r\nb".into()), (true, "QUJD".into())];
    v[2].texts = vec![(false, "nope".into()), (false, "[ALERT] nope".into()), (true, "caf\u{e9}".into())];
    v
}
fn server_random(r: &mut StdRng) -> ServerScript {
    let maxlit = r.gen_range(0..6);
    let max = maxlit + [8, 14, 30, 500][r.gen_range(0..4)];
    let mut inp = Vec::new();
    let n = r.gen_range(1..=3);
    let mut resps = Vec::new();
    let mut tags = vec![];
    for i in 0..n {
        let t = pool::tag(r, i + 1);
        let c = pool::command(r, &t, 5);
        let d = String::from_utf8_lossy(&c).to_string();
        inp.push(c);
        if d.contains("AUTH") {
            for _ in 0..r.gen_range(0..2) {
                inp.push(pool::auth_line(r));
                resps.push(pool::cont(r));
            }
        }
        if d.contains("IDLE") && r.gen_bool(0.8) {
            inp.push(b("DONE\r\n"));
            resps.push(pool::cont(r));
        }
        if r.gen_bool(0.2) {
            inp.push(pool::garbage(r));
        }
        if resps.len() < 3 {
            resps.push(pool::status(r, Some(&t)));
        }
        tags.push(t);
    }
    for m in inp.iter_mut() {
        if r.gen_bool(0.05) {
            pool::bare_lf(r, m);
        }
    }
    resps.truncate(3);
    ServerScript { relaxed: r.gen_bool(0.3), maxlit, max, texts: vec![], greeting: pool::greeting(r), resps, inp }
}
pub fn build_server(s: &ServerScript, log: Log) -> ServerRun {
    let mut run = ServerRun::new(
        ServerOpts { relaxed: s.relaxed, max_literal: s.maxlit, max_command: s.max, texts: s.texts.clone() },
        parse_greet(&s.greeting),
        log,
    );
    for r in &s.resps {
        run.add(parse_resp(r));
    }
    run
}
pub fn servers(seed: u64, fixed: bool, random: usize, ncuts: usize) -> Vec<(ServerScript, Value)> {
    let mut r = StdRng::seed_from_u64(seed ^ 0x5e12);
    let mut list = if fixed { server_fixed() } else { vec![] };
    for _ in 0..random {
        list.push(server_random(&mut r));
    }
    list.into_iter()
        .enumerate()
        .map(|(i, s)| {
            let inp = s.inp.concat();
            let log = Log::new();
            let run = build_server(&s, log.clone());
            let mut m = run.script(&inp);
            // The configured texts, as in the trace of their calls.
            m.insert("opts".into(), Value::Array(log.take()));
            let ends = ends(&s.inp);
            m.insert("cuts".into(), json!(cuts(&inp, &ends, ncuts.max(ends.len()), &mut r)));
            m.insert("name".into(), json!(format!("server/{seed}/{i}")));
            (s, Value::Object(m))
        })
        .collect()
}


pub struct SessionScript {
    pub relaxed: bool,
    pub maxlit: u32,
    pub cmds: Vec<Vec<u8>>,
    pub auths: Vec<Vec<u8>>,
    pub resps: Vec<Vec<u8>>,
    /// key -> alternatives of calls
    pub replies: Vec<(&'static str, Vec<Vec<(&'static str, usize)>>)>,
    pub grain: usize,
}
fn session_fixed() -> Vec<SessionScript> {
    let v = |l: &[&str]| l.iter().map(|s| b(s)).collect::<Vec<_>>();
    vec![
        SessionScript {
            relaxed: false,
            maxlit: 3,
            cmds: v(&["A1 LOGIN {3}\r\nab\n {2}\r\nde\r\n", "A2 NOOP\r\n"]),
            auths: v(&["\r\n"]),
            resps: v(&["A1 OK x\r\n", "* 1 EXISTS\r\n", "A2 BAD n\r\n"]),
            replies: vec![("A1", vec![vec![("enq", 1)], vec![("enq", 2), ("enq", 1)]]), ("A2", vec![vec![("enq", 3)], vec![]])],
            grain: 3,
        },
        // refused literals, first and second one
        SessionScript {
            relaxed: false,
            maxlit: 2,
            cmds: v(&["A1 LOGIN {3}\r\nabc {1}\r\nx\r\n", "A2 LOGIN {1}\r\na {3}\r\nxyz\r\n", "A3 SELECT {2+}\r\n\r\n\r\n"]),
            auths: v(&["\r\n"]),
            resps: v(&["* 2 EXISTS\r\n", "A3 OK x\r\n"]),
            replies: vec![("A3", vec![vec![("enq", 1), ("enq", 2)]])],
            grain: 3,
        },
        SessionScript {
            relaxed: true,
            maxlit: 2,
            cmds: v(&["A1 NOOP\r\n", "A2 LOGIN {1}\r\na {3}\r\nxyz\r\n", "A3 IDLE\r\n"]),
            auths: v(&["\r\n"]),
            resps: v(&["* 1 FETCH (BODY[] {3}\r\n\r\n))\r\n", "A1 OK x\r\n", "+ idling\r\n", "A3 OK y\r\n", "A3 NO z\r\n"]),
            replies: vec![("A1", vec![vec![("enq", 1), ("enq", 2)]]), ("A3", vec![vec![("iacc", 3)], vec![("irej", 5)]]), ("A3.", vec![vec![("enq", 4)]])],
            grain: 3,
        },
        // AUTHENTICATE
        SessionScript {
            relaxed: false,
            maxlit: 2,
            cmds: v(&["A1 AUTHENTICATE PLAIN\r\n", "A2 NOOP\r\n"]),
            auths: v(&["YWI=\r\n", "*\r\n"]),
            resps: v(&["+ QQ==\r\n", "A1 OK in\r\n", "A1 NO out\r\n", "A2 OK z\r\n"]),
            replies: vec![
                ("A1", vec![vec![("acont", 1)], vec![("afin", 2)], vec![("afin", 3)]]),
                ("A1+", vec![vec![("acont", 1)], vec![("afin", 2)], vec![("afin", 3)]]),
                ("A2", vec![vec![("enq", 4)]]),
            ],
            grain: 3,
        },
        // IDLE with data while idling
        SessionScript {
            relaxed: false,
            maxlit: 2,
            cmds: v(&["A1 IDLE\r\n", "A2 LOGIN {1}\r\na {0}\r\n\r\n"]),
            auths: v(&["\r\n"]),
            resps: v(&["+ ok\r\n", "* 1 EXISTS\r\n", "A1 BAD b\r\n", "A1 OK d\r\n", "A2 OK z\r\n"]),
            replies: vec![
                ("A1", vec![vec![("iacc", 1), ("enq", 2)], vec![("enq", 2), ("iacc", 1)], vec![("irej", 3)]]),
                ("A1.", vec![vec![("enq", 4)]]),
                ("A2", vec![vec![("enq", 5)]]),
            ],
            grain: 3,
        },
        SessionScript {
            relaxed: false,
            maxlit: 9,
            cmds: v(&["A1 IDLE\r\n", "A2 AUTHENTICATE PLAIN =\r\n", "A3 IDLE\r\n"]),
            auths: v(&["\r\n"]),
            resps: v(&["+ ok\r\n", "A1 OK d\r\n", "+ \r\n", "A2 OK z\r\n", "A3 OK e\r\n", "* 7 EXISTS\r\n"]),
            replies: vec![
                ("A1", vec![vec![("iacc", 1)]]),
                ("A1.", vec![vec![("enq", 2)], vec![("enq", 6), ("enq", 2)]]),
                ("A2", vec![vec![("acont", 3)]]),
                ("A2+", vec![vec![("afin", 4)], vec![("acont", 3)]]),
                ("A3", vec![vec![("iacc", 1)]]),
                ("A3.", vec![vec![("enq", 5)]]),
            ],
            grain: 3,
        },
    ]
}
/// Decoder answers by content for the candidates of the given messages.
fn by_content(codec: &str, msgs: &[Vec<u8>], maxlit: Option<u32>) -> Map<String, Value> {
    let mut out = Map::new();
    out.insert("_".into(), json!(0));
    for m in msgs {
        let mut o = Map::new();
        crate::oracle::attach(&mut o, m, true, 0, maxlit, &[codec]);
        for (k, v) in o["dec"][codec].as_object().unwrap() {
            if let Some(q) = k.strip_prefix("0_") {
                out.insert(canon::bs(&m[..q.parse::<usize>().unwrap()]), v.clone());
            }
        }
    }
    out
}
pub fn build_session(s: &SessionScript, log: Log) -> (ClientRun, ServerRun) {
    let srv = ServerScript {
        relaxed: s.relaxed,
        maxlit: s.maxlit,
        max: 5000,
        texts: vec![],
        greeting: b(HI),
        resps: s.resps.clone(),
        inp: vec![],
    };
    let mut c = ClientRun::new(s.relaxed, log.clone());
    c.cmds = s.cmds.iter().map(|c| parse_cmd(c)).collect();
    c.auths = s.auths.iter().map(|c| parse_auth(c)).collect();
    (c, build_server(&srv, log))
}
pub fn sessions(fixed: bool, grain: usize) -> Vec<(SessionScript, Value)> {
    let list = if fixed { session_fixed() } else { vec![] };
    list.into_iter()
        .enumerate()
        .map(|(i, mut s)| {
            s.grain = s.grain.min(grain);
            let (c, sv) = build_session(&s, Log::new());
            let (mut cj, mut sj) = (c.script(b""), sv.script(b""));
            let mut resp = s.resps.clone();
            resp.push(b("+ ...\r\n"));
            let mut tagof = Map::new();
            for (k, cmd) in c.cmds.iter().enumerate() {
                let t = cmd.tag.as_ref().to_string();
                resp.push(b(&format!("{t} BAD ...\r\n")));
                tagof.insert(cj["cmds"][k]["p"].as_str().unwrap().into(), json!(t));
            }
            cj.insert("bycontent".into(), json!(true));
            cj.insert("dec".into(), json!({"greeting": by_content("greeting", &[b(HI)], None), "response": by_content("response", &resp, None)}));
            sj.insert("bycontent".into(), json!(true));
            sj.insert("dec".into(), json!({
                "command": by_content("command", &s.cmds, Some(s.maxlit)),
                "authdata": by_content("authdata", &s.auths, None),
                "idledone": by_content("idledone", &[b("DONE\r\n")], None)}));
            let mut rep = Map::new();
            rep.insert("_".into(), json!(0));
            for (k, alts) in &s.replies {
                rep.insert(k.to_string(), Value::Array(alts.iter().map(|a| Value::Array(a.iter().map(|(a, n)| json!({"a": a, "n": n})).collect())).collect()));
            }
            let v = json!({"name": format!("session/{i}"), "c": cj, "s": sj, "tagof": tagof, "replies": rep, "grain": s.grain});
            (s, v)
        })
        .collect()
}
