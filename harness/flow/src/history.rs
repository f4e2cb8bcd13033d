//! Long histories: the same rounds over and over. Is every lap like the first, and does the machine hold no more
//! memory than before?
use serde_json::{json, Map, Value};

use crate::{mem, run::*};

const LOGIN: &str = "A1 LOGIN {5}\r\nalice {6}\r\nsecret\r\n";
const LOGIN_PLUS: &str = "A1 LOGIN {5+}\r\nalice {6+}\r\nsecret\r\n";
const LINE: &str = "AGFsaWNlAHNlY3JldA==\r\n";

fn drain_c(r: &mut ClientRun) {
    for _ in 0..100 {
        if r.next().o == "more" || r.c.dead {
            return;
        }
    }
}
fn feed_c(r: &mut ClientRun, s: &str) -> usize {
    r.feed(s.as_bytes());
    drain_c(r);
    s.len()
}
/// Bytes that were outstanding at most.
fn client(r: &mut ClientRun, k: &str) -> usize {
    let give = |r: &mut ClientRun, l: &[&str]| {
        r.cmds = l.iter().map(|c| parse_cmd(c.as_bytes())).collect();
        r.enqueued = 0;
        for _ in l {
            r.enqueue();
        }
        drain_c(r);
        l.iter().map(|c| c.len()).sum::<usize>()
    };
    match k {
        "cmd" => give(r, &["A1 NOOP\r\n"]) + feed_c(r, "A1 OK done\r\n"),
        "lit" => give(r, &[LOGIN]) + feed_c(r, "+ go\r\n") + feed_c(r, "+ \r\n") + feed_c(r, "A1 OK done\r\n"),
        "rej" => give(r, &[LOGIN, "A2 NOOP\r\n"]) + feed_c(r, "* 1 EXISTS\r\nA1 BAD no\r\n"),
        "non" => give(r, &[LOGIN_PLUS]) + feed_c(r, "A1 NO done\r\n"),
        "auth" => {
            let mut n = give(r, &["A1 AUTHENTICATE PLAIN\r\n"]);
            r.auths = vec![parse_auth(LINE.as_bytes()), parse_auth(b"*\r\n")];
            for i in 1..=2 {
                n += feed_c(r, "+ \r\n");
                r.set_auth(i);
                r.set_auth(i);
                drain_c(r);
            }
            n + feed_c(r, "A1 OK done\r\n") + LINE.len()
        }
        "authno" => give(r, &["A1 AUTHENTICATE PLAIN\r\n", "A2 NOOP\r\n"]) + feed_c(r, "+ \r\nA1 NO done\r\n"),
        "idle" => {
            let n = give(r, &["A1 IDLE\r\n", "A2 NOOP\r\n"]) + feed_c(r, "+ idling\r\n* 1 EXISTS\r\n");
            r.set_done();
            r.set_done();
            drain_c(r);
            n + feed_c(r, "A1 OK done\r\n")
        }
        "idleno" => give(r, &["A1 IDLE\r\n"]) + feed_c(r, "A1 NO not now\r\n"),
        "data" => {
            let text = "0123456789 abcdefghij \r\n".repeat(20);
            let s = format!("* 1 FETCH (BODY[] {{{}}}\r\n{text})\r\n", text.len());
            feed_c(r, &s[..100]) + feed_c(r, &s[100..300]) + feed_c(r, &s[300..])
        }
        "many" => {
            give(r, &["A1 NOOP\r\n", "A2 CHECK\r\n", LOGIN_PLUS, "A4 NOOP\r\n", "A5 CLOSE\r\n"])
                + feed_c(r, "A1 OK a\r\nA2 OK b\r\nA1 OK c\r\nA4 OK d\r\nA5 OK e\r\n")
        }
        "bad" => feed_c(r, "this is no response\r\n"),
        "lf" => feed_c(r, "* 1 EXISTS\n"),
        "cut" => feed_c(r, "STS\r\n* 172 EXI"),
        "cutlit" => feed_c(r, "cde)\r\n* 1 FETCH (BODY[] {5}\r\nab"),
        "badlit" => feed_c(r, "* 1 FETCH (BODY[] {3}\r\nabc nothing)\r\n"),
        "refuse" => {
            r.auths = vec![parse_auth(LINE.as_bytes())];
            r.set_auth(1);
            r.set_done();
            drain_c(r);
            LINE.len()
        }
        _ => panic!("round {k}"),
    }
}

fn drain_s(r: &mut ServerRun) {
    for _ in 0..100 {
        if r.next().o == "more" || r.c.dead {
            return;
        }
    }
}
fn feed_s(r: &mut ServerRun, s: &str) -> usize {
    r.feed(s.as_bytes());
    drain_s(r);
    s.len()
}
fn server(r: &mut ServerRun, k: &str) -> usize {
    let give = |r: &mut ServerRun, a: &'static str, l: &[&str]| {
        for s in l {
            let i = r.add(parse_resp(s.as_bytes()));
            if a == "enq" {
                r.enqueue(i);
            } else {
                r.call(a, i);
            }
        }
        drain_s(r);
        l.iter().map(|c| c.len()).sum::<usize>()
    };
    let ok: &[&str] = &["A1 OK done\r\n"];
    match k {
        "cmd" => feed_s(r, "A1 NOOP\r\n") + give(r, "enq", &["* 1 EXISTS\r\n", "A1 OK done\r\n"]),
        "lit" => feed_s(r, "A1 LOGIN {5}\r\n") + feed_s(r, "alice {6}\r\n") + feed_s(r, "secret\r\n") + give(r, "enq", ok),
        "non" => feed_s(r, LOGIN_PLUS) + give(r, "enq", ok),
        "toolit" => feed_s(r, "A1 LOGIN {500}\r\n") + feed_s(r, "A2 NOOP\r\n"),
        "toolitn" => feed_s(r, "A1 LOGIN {500+}\r\n") + feed_s(r, "A2 NOOP\r\n"),
        "long" => feed_s(r, &format!("A1 {}\r\n", "x".repeat(700))),
        "auth" => {
            let n = feed_s(r, "A1 AUTHENTICATE PLAIN\r\n") + give(r, "acont", &["+ \r\n"]);
            n + feed_s(r, LINE) + feed_s(r, "no data!\r\n") + feed_s(r, "*\r\n") + give(r, "afin", ok) + give(r, "afin", ok)
        }
        "authir" => feed_s(r, &format!("A1 AUTHENTICATE PLAIN {LINE}")) + give(r, "afin", ok) + feed_s(r, "A2 NOOP\r\n"),
        "idle" => {
            feed_s(r, "A1 IDLE\r\n") + give(r, "iacc", &["+ idling\r\n"]) + give(r, "enq", &["* 1 EXISTS\r\n"]) + feed_s(r, "DONE\r\n") + give(r, "enq", ok)
        }
        "idleno" => feed_s(r, "A1 IDLE\r\n") + give(r, "irej", &["A1 NO not now\r\n"]) + feed_s(r, "A2 NOOP\r\n"),
        "data" => {
            let text = "0123456789 abcdefghij \r\n".repeat(20);
            give(r, "enq", &[&format!("* 1 FETCH (BODY[] {{{}}}\r\n{text})\r\n", text.len())])
        }
        "many" => {
            give(r, "enq", &["* 1 EXISTS\r\n", "* 2 RECENT\r\n", "+ x\r\n", "* OK y\r\n", "A1 OK z\r\n"])
                + feed_s(r, "A1 NOOP\r\nA2 CHECK\r\nA3 LOGIN a b\r\nA4 NOOP\r\n")
        }
        "bad" => feed_s(r, "nonsense\r\n"),
        "lf" => feed_s(r, "A1 NOOP\n"),
        "cut" => feed_s(r, "OP\r\nA1 NO"),
        "cutlit" => feed_s(r, "ice b\r\nA1 LOGIN {5}\r\nal"),
        "refuse" => give(r, "acont", &["+ x\r\n"]) + give(r, "afin", ok) + give(r, "iacc", &["+ x\r\n"]) + give(r, "irej", ok),
        _ => panic!("round {k}"),
    }
}

enum Machine {
    C(ClientRun),
    S(ServerRun),
}
impl Machine {
    fn new(role: &str, log: Log) -> Self {
        let mut m = if role == "c" {
            Machine::C(ClientRun::new(false, log))
        } else {
            let o = ServerOpts { relaxed: false, max_literal: 400, max_command: 600, texts: vec![(true, "go on".into()), (false, "too much".into())] };
            Machine::S(ServerRun::new(o, parse_greet(b"* OK hello\r\n"), log))
        };
        match &mut m {
            Machine::C(r) => drop(feed_c(r, "* OK hello\r\n")),
            Machine::S(r) => drain_s(r),
        }
        m
    }
    fn round(&mut self, k: &str) -> usize {
        match self {
            Machine::C(r) => {
                r.forget();
                client(r, k)
            }
            Machine::S(r) => {
                r.forget();
                server(r, k)
            }
        }
    }
    /// What must precede the first lap.
    fn prime(&mut self, word: &[String]) {
        let half = match (&*self, word[0].as_str()) {
            (Machine::C(_), "cut") => "* 172 EXI",
            (Machine::C(_), "cutlit") => "* 1 FETCH (BODY[] {5}\r\nab",
            (Machine::S(_), "cut") => "A1 NO",
            (Machine::S(_), "cutlit") => "A1 LOGIN {5}\r\nal",
            _ => return,
        };
        self.feed(half.as_bytes());
    }
    fn feed(&mut self, b: &[u8]) {
        match self {
            Machine::C(r) => {
                r.feed(b);
                drain_c(r);
            }
            Machine::S(r) => {
                r.feed(b);
                drain_s(r);
            }
        }
    }
}
/// One lap's answers, without what memory they took.
fn lap(m: &mut Machine, word: &[String], log: &Log) -> (Vec<Value>, usize, i64) {
    let mut n = 0;
    for k in word {
        n += m.round(k);
    }
    let mut peak = 0;
    let mut l = log.take();
    for e in &mut l {
        let e = e.as_object_mut().unwrap();
        e.remove("kib");
        peak = peak.max(e.remove("peak").and_then(|x| x.as_i64()).unwrap_or(0));
    }
    (l, n, peak)
}
fn kib(base: i64) -> i64 {
    ((mem::live() - base).max(0) + 1023) >> 10
}

/// `word` over and over, on one machine or (`anew`) on a new one each time.
pub fn run(role: &str, word: &[String], laps: usize, anew: bool, log: Log) -> Map<String, Value> {
    let base = mem::live();
    let mut m = Machine::new(role, log.clone());
    m.prime(word);
    log.take();
    let (first, n, _) = lap(&mut m, word, &log);
    let mut seen: Vec<Value> = Vec::new();
    let mut other = (0, Vec::new());
    for i in 2..=laps {
        if anew {
            drop(m);
            m = Machine::new(role, log.clone());
            m.prime(word);
            log.take();
        }
        let (l, _, peak) = lap(&mut m, word, &log);
        // What is kept of the first lap counts as the harness's; the laps since must not add up.
        if i == laps || (i % (laps / 5 + 1)) == 0 {
            seen.push(json!({"lap": i, "kib": kib(base), "peak": peak, "out": n}));
        }
        if l != first {
            other = (i, l);
            break;
        }
    }
    let at = first.iter().zip(&other.1).position(|(a, b)| a != b).unwrap_or(first.len().min(other.1.len()));
    let none = json!({"a": "none", "h": 0, "obs": {"o": "none", "e": "", "h": 0}});
    let (exp, got) = if other.0 == 0 {
        (none.clone(), none)
    } else {
        (first.get(at).unwrap_or(&none).clone(), other.1.get(at).unwrap_or(&none).clone())
    };
    // Beginnings of something big, and big things.
    let mut tails = Vec::new();
    if word.len() == 1 && !word[0].starts_with("cut") && !anew && other.0 == 0 {
        let open = if role == "c" { "* 1 FETCH (BODY[] {N}\r\n" } else { "A1 LOGIN {N}\r\n" };
        for size in ["300", "100000", "20000000", "2147483648", "4294967295"] {
            for part in [0, 10] {
                let mut m = Machine::new(role, log.clone());
                m.round(&word[0]);
                m.feed(open.replace('N', size).as_bytes());
                m.feed(&vec![b'x'; part]);
                let peak = log.take().iter().map(|e| e["peak"].as_i64().unwrap()).max().unwrap();
                tails.push(json!({"lap": 1, "kib": kib(base), "peak": peak, "out": n + 40 + part}));
            }
        }
        for size in [1000, 300_000, 2_000_000] {
            for end in ["", "\r\n"] {
                for head in ["", &open.replace('N', &size.to_string())] {
                    let mut m = Machine::new(role, log.clone());
                    m.round(&word[0]);
                    m.feed(head.as_bytes());
                    let block = vec![b'x'; 1000];
                    for _ in 0..size / 1000 {
                        match &mut m {
                            Machine::C(r) => r.feed(&block),
                            Machine::S(r) => r.feed(&block),
                        }
                    }
                    m.feed(end.as_bytes());
                    let l = log.take();
                    let peak = l.iter().map(|e| e["peak"].as_i64().unwrap()).max().unwrap();
                    tails.push(json!({"lap": 1, "kib": kib(base), "peak": peak, "out": n + 40 + size}));
                }
            }
        }
    }
    drop(m);
    let mut o = Map::new();
    o.insert("role".into(), json!(role));
    o.insert("word".into(), json!(word));
    o.insert("laps".into(), json!(laps));
    o.insert("rest".into(), json!(kib(base)));
    o.insert("seen".into(), json!(seen));
    o.insert("tails".into(), json!(tails));
    o.insert("other".into(), json!(other.0));
    o.insert("exp".into(), exp);
    o.insert("got".into(), got);
    o
}
