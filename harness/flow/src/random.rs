//! Random conversations: everything here only chooses what to do next.
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Map, Value};

use crate::{pool, run::*};

#[derive(Clone, Copy)]
enum Cut {
    Whole,
    Bytes,
    Small,
    Mixed,
    Large,
}
fn cut_style(r: &mut StdRng) -> Cut {
    [Cut::Whole, Cut::Whole, Cut::Bytes, Cut::Small, Cut::Mixed, Cut::Mixed][r.gen_range(0..6)]
}
fn cut(r: &mut StdRng, style: Cut, pend: &[u8]) -> usize {
    let n = pend.len();
    match style {
        Cut::Whole => n,
        Cut::Bytes => 1,
        Cut::Large => match r.gen_range(0..6) {
            0 => r.gen_range(1..=n),
            1 => n.min(*[1, 4095, 4096, 8192, 16_384, 65_535, 65_536, 65_537].choose(r).unwrap()),
            2 => pend.iter().position(|b| *b == b'\n').map_or(n, |p| p + 1),
            3 => n - 1 + usize::from(n == 1),
            _ => n,
        },
        Cut::Small => r.gen_range(1..=n.min(6)),
        Cut::Mixed => match r.gen_range(0..5) {
            0 => 1,
            1 => n,
            2 => pend.iter().position(|b| *b == b'\r').map_or(n, |p| p + 1),
            3 => pend.iter().position(|b| *b == b'\n').map_or(n, |p| p + 1),
            _ => r.gen_range(1..=n),
        },
    }
}

pub fn client(seed: u64, log: Log) -> Map<String, Value> {
    let mut r = StdRng::seed_from_u64(seed);
    let mut run = ClientRun::new(r.gen_bool(0.4), log);
    let big = r.gen_bool(0.02);
    let max = if big { 140_000 } else { [8, 8, 20, 60][r.gen_range(0..4)] };
    let ncmd = r.gen_range(0..=4);
    let mut tags = Vec::new();
    for i in 0..ncmd {
        let t = pool::tag(&mut r, i + 1);
        let b = pool::command(&mut r, &t, max);
        run.cmds.push(parse_cmd(&b));
        tags.push(t);
    }
    for _ in 0..3 {
        run.auths.push(parse_auth(&pool::auth_line(&mut r)));
    }
    let style = if big { Cut::Large } else { cut_style(&mut r) };
    let weird = [0.02, 0.1, 0.3][r.gen_range(0..3)];
    let eager = r.gen_bool(0.5);
    let mut pend: Vec<u8> = Vec::new();
    let mut greeted = false;
    let mut fin = 0usize; // commands with a final outcome
    let mut cont_due = false;
    let mut done_due = false;
    let mut last_more = false;
    let mut idle_calls = 0;
    let steps = r.gen_range(15..70);
    let mut i = 0;
    while i < steps && !run.c.dead {
        i += 1;
        let x: f64 = r.gen();
        if x < 0.5 && !(last_more && idle_calls > 1) {
            let o = run.next();
            last_more = o.o == "more";
            idle_calls = if last_more { idle_calls + 1 } else { 0 };
            match o.e {
                "Greeting" => greeted = true,
                "CommandSent" | "CommandRejected" | "AuthStatus" | "IdleRejected" | "IdleDoneSent" => fin += 1,
                "AuthCont" => cont_due = true,
                "IdleAccepted" => done_due = true,
                _ => {}
            }
        } else if x < 0.8 || (last_more && idle_calls > 1 && x < 0.7) {
            idle_calls = 0;
            if pend.is_empty() {
                let mut v = if !greeted && r.gen_bool(0.9) {
                    pool::greeting(&mut r)
                } else if big && r.gen_bool(0.05) {
                    format!("* 1 FETCH (BODY[] {{{}}}\r\nthe beginning", pool::huge(&mut r)).into_bytes()
                } else if r.gen_bool(weird) {
                    pool::garbage(&mut r)
                } else if fin < tags.len() && run.enqueued > fin && r.gen_bool(0.6) {
                    // something about the command in progress
                    let t = tags[fin].clone();
                    if r.gen_bool(0.65) {
                        pool::cont(&mut r)
                    } else {
                        pool::status(&mut r, Some(&t))
                    }
                } else {
                    pool::response(&mut r, &tags, max)
                };
                if r.gen_bool(weird) {
                    pool::bare_lf(&mut r, &mut v);
                }
                pend = v;
                if r.gen_bool(0.15) {
                    let more = pool::response(&mut r, &tags, max);
                    pend.extend(more);
                }
            }
            let k = cut(&mut r, style, &pend);
            let piece: Vec<u8> = pend.drain(..k).collect();
            run.feed(&piece);
        } else if x < 0.9 {
            idle_calls = 0;
            run.enqueue();
            if eager {
                run.enqueue();
            }
        } else if x < 0.95 || cont_due && r.gen_bool(0.7) {
            if cont_due || r.gen_bool(0.3) {
                idle_calls = 0;
                let k = r.gen_range(1..=run.auths.len());
                if run.set_auth(k) {
                    cont_due = r.gen_bool(0.1);
                }
            }
        } else if done_due || r.gen_bool(0.3) {
            idle_calls = 0;
            if run.set_done() {
                done_due = r.gen_bool(0.1);
            }
        }
    }
    // Everything still possible without further input.
    for round in 0..2 {
        for _ in 0..60 {
            if run.c.dead || run.next().o == "more" {
                break;
            }
        }
        if round == 0 && !pend.is_empty() {
            let p = std::mem::take(&mut pend);
            run.feed(&p);
        }
    }
    let inp = run.c.inp.clone();
    run.script(&inp)
}

pub fn server(seed: u64, log: Log) -> Map<String, Value> {
    let mut r = StdRng::seed_from_u64(seed);
    let big = r.gen_bool(0.02);
    let default = r.gen_bool(0.03);
    let max_literal = if big { *pool::BIG.choose(&mut r).unwrap() as u32 } else { [0, 3, 6, 10, 40, 200][r.gen_range(0..6)] };
    let max_literal = if default { [25 * 1024 * 1024, u32::MAX - 1][r.gen_range(0..2)] } else { max_literal };
    let max_command = match r.gen_range(0..6) {
        0 => max_literal.saturating_add(r.gen_range(1..12)),
        1 => max_literal.saturating_add(r.gen_range(1..40)),
        2 => max_literal.saturating_add(30),
        3 => max_literal.saturating_add(80),
        _ => max_literal.saturating_add(1000),
    };
    let max_command = if default { max_literal.saturating_add(64 * 1024) } else { max_command };
    let mut texts = Vec::new();
    for _ in 0..r.gen_range(0..3) {
        let t = ["ok then", "QUJD", "", "[ALERT] x", "a\r\nb", "...", "proxy: fine", "ABCD", "nul\0", "caf\u{e9}"];
        texts.push((r.gen_bool(0.5), t[r.gen_range(0..t.len())].to_string()));
    }
    let opts = ServerOpts { relaxed: r.gen_bool(0.4), max_literal, max_command, texts };
    let g = parse_greet(&pool::greeting(&mut r));
    let mut run = ServerRun::new(opts, g, log);
    let style = if big { Cut::Large } else { cut_style(&mut r) };
    let weird = [0.02, 0.1, 0.3][r.gen_range(0..3)];
    let misuse = [0.0, 0.1, 0.4][r.gen_range(0..3)];
    let mut mode = "cmd";
    let mut pend: Vec<u8> = Vec::new();
    let mut tags: Vec<String> = vec!["A1".into()];
    let mut ncmd = 0;
    let mut idle_calls = 0;
    let mut last_more = false;
    let lmax = match r.gen_range(0..4) {
        _ if default => [10, 10, 140_000][r.gen_range(0..3)],
        0 => max_literal as usize + 3,
        1 => max_literal as usize + 1,
        _ => (max_literal as usize).max(1),
    };
    let steps = r.gen_range(15..80);
    let mut i = 0;
    while i < steps && !run.c.dead {
        i += 1;
        let x: f64 = r.gen();
        if x < 0.5 && !(last_more && idle_calls > 1) {
            let o = run.next();
            last_more = o.o == "more";
            idle_calls = if last_more { idle_calls + 1 } else { 0 };
            match o.e {
                "AuthCommand" => mode = "auth",
                "IdleCommand" => mode = "idleacc",
                "IdleDone" => mode = "cmd",
                "Command" => {
                    if let Some(t) = o.q.get(1..).and_then(|s| s.split(' ').next()) {
                        if t.chars().all(|c| c.is_ascii_alphanumeric()) && !t.is_empty() {
                            tags.push(t.to_string());
                        }
                    }
                }
                _ => {}
            }
        } else if x < 0.78 {
            idle_calls = 0;
            if pend.is_empty() {
                let mut v = if (big || default) && r.gen_bool(0.1) {
                    let plus = if r.gen_bool(0.4) { "+" } else { "" };
                    format!("A9 {} {{{}{plus}}}\r\nthe beginning", ["SELECT", "LOGIN a"][r.gen_range(0..2)], pool::huge(&mut r)).into_bytes()
                } else if r.gen_bool(weird) {
                    pool::garbage(&mut r)
                } else {
                    match mode {
                        "auth" if r.gen_bool(0.85) => pool::auth_line(&mut r),
                        "idledone" | "idleacc" if r.gen_bool(0.85) => b"DONE\r\n".to_vec(),
                        _ => {
                            ncmd += 1;
                            let t = pool::tag(&mut r, ncmd);
                            pool::command(&mut r, &t, lmax)
                        }
                    }
                };
                if r.gen_bool(weird) {
                    pool::bare_lf(&mut r, &mut v);
                }
                if r.gen_bool(weird * 0.5) {
                    // a very long line
                    let n = r.gen_range(1..max_command.min(if big { 140_000 } else { 200 }) as usize + 20);
                    let mut w = vec![b'x'; n];
                    w.extend(v);
                    v = w;
                }
                if r.gen_bool(0.2) {
                    let t = pool::tag(&mut r, ncmd + 1);
                    v.extend(pool::command(&mut r, &t, lmax));
                }
                pend = v;
            }
            let k = cut(&mut r, style, &pend);
            let piece: Vec<u8> = pend.drain(..k).collect();
            run.feed(&piece);
        } else if x < 0.88 {
            idle_calls = 0;
            let b = pool::response(&mut r, &tags, 10);
            let k = run.add(parse_resp(&b));
            run.enqueue(k);
        } else {
            let a = if r.gen_bool(misuse) {
                ["acont", "afin", "iacc", "irej"][r.gen_range(0..4)]
            } else {
                match mode {
                    "auth" => ["acont", "acont", "afin"][r.gen_range(0..3)],
                    "idleacc" => ["iacc", "iacc", "irej"][r.gen_range(0..3)],
                    _ => continue,
                }
            };
            idle_calls = 0;
            let b = match a {
                "acont" | "iacc" => pool::cont(&mut r),
                _ => {
                    let t = tags.choose(&mut r).cloned();
                    pool::status(&mut r, t.as_deref())
                }
            };
            let k = run.add(parse_resp(&b));
            if run.call(a, k) {
                match a {
                    "afin" | "irej" => mode = "cmd",
                    "iacc" => mode = "idledone",
                    _ => {}
                }
            }
        }
    }
    for round in 0..2 {
        for _ in 0..120 {
            if run.c.dead || run.next().o == "more" {
                break;
            }
        }
        if round == 0 && !pend.is_empty() {
            let p = std::mem::take(&mut pend);
            run.feed(&p);
        }
    }
    let inp = run.c.inp.clone();
    run.script(&inp)
}

/// The real client against the real server.
pub fn session(seed: u64, log: Log) -> Map<String, Value> {
    let mut r = StdRng::seed_from_u64(seed);
    let big = r.gen_bool(0.02);
    let max_literal = if big { *pool::BIG.choose(&mut r).unwrap() as u32 } else { [5, 10, 40, 1000][r.gen_range(0..4)] };
    let relaxed = r.gen_bool(0.3);
    let opts = ServerOpts { relaxed, max_literal, max_command: max_literal + 5000, texts: vec![] };
    let g = parse_greet(&pool::greeting(&mut r));
    let mut s = ServerRun::new(opts, g, log.clone());
    let mut c = ClientRun::new(relaxed, log);
    let ncmd = r.gen_range(1..=6);
    for i in 0..ncmd {
        let t = format!("A{}", i + 1);
        loop {
            let lmax = if r.gen_bool(0.3) { max_literal as usize + 4 } else { max_literal as usize };
            let b = pool::command(&mut r, &t, lmax);
            let cmd = parse_cmd(&b);
            // The server cannot refuse a non-synchronising literal before it has been sent.
            let too_big = crate::canon::frags(imap_codec::encode::Encoder::encode(&imap_codec::CommandCodec::default(), &cmd))
                .iter()
                .any(|(k, d)| *k == 'N' && d.len() > max_literal as usize);
            if !too_big {
                c.cmds.push(cmd);
                break;
            }
        }
    }
    for _ in 0..4 {
        let l = pool::auth_line(&mut r);
        c.auths.push(parse_auth(&l));
    }
    let mut style = if big { Cut::Large } else { cut_style(&mut r) };
    let (mut c2s, mut s2c): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
    let mut todo: Vec<(&'static str, Vec<u8>)> = vec![]; // what the server's user will do
    let mut auth_due = 0;
    let mut done_due = 0;
    let mut cmds_due = ncmd;
    let mut auth_tag = String::new();
    let mut idle_tag = String::new();
    let (mut c_more, mut s_more) = (false, false);
    let mut steps = 0;
    let fair = r.gen_range(20..200);
    let one = r.gen_range(0..4); // bias
    while !c.c.dead && !s.c.dead && steps < 4000 {
        steps += 1;
        if steps == 3000 {
            // Byte by byte takes long; from here on everything there is gets passed on at once.
            style = Cut::Whole;
        }
        let mut acts: Vec<u8> = vec![];
        if !c_more { acts.push(0) }
        if !s_more { acts.push(1) }
        if !c2s.is_empty() { acts.push(2) }
        if !s2c.is_empty() { acts.push(3) }
        if cmds_due > 0 { acts.push(4) }
        if !todo.is_empty() { acts.push(5) }
        if auth_due > 0 { acts.push(6) }
        if done_due > 0 { acts.push(7) }
        if acts.is_empty() {
            break;
        }
        if steps < fair {
            // now and then something that has no effect
            acts.extend([0, 1]);
            if one == 0 { acts.extend([2, 3].iter().filter(|a| acts.contains(a)).copied().collect::<Vec<_>>()) }
            if one == 1 { acts.extend([0, 0, 0]) }
            if one == 2 { acts.extend([1, 1, 1]) }
        }
        match *acts.choose(&mut r).unwrap() {
            0 => {
                let o = c.next();
                c_more = o.o == "more";
                if o.o == "out" {
                    c2s.extend(&o.bytes);
                }
                match o.e {
                    "AuthCont" => auth_due += 1,
                    "AuthStatus" => auth_due = 0,
                    "IdleAccepted" => done_due += 1,
                    "IdleRejected" => done_due = 0,
                    _ => {}
                }
            }
            1 => {
                let o = s.next();
                s_more = o.o == "more";
                if o.o == "out" {
                    s2c.extend(&o.bytes);
                }
                match o.e {
                    "Command" => {
                        let t = o.q[1..].split(' ').next().unwrap().to_string();
                        for _ in 0..r.gen_range(0..2) {
                            let d = [&b"* 3 EXISTS\r\n"[..], b"* 1 FETCH (BODY[] {5}\r\na\r\nb\n)\r\n", b"* OK still here\r\n"];
                            let mut d = d.choose(&mut r).unwrap().to_vec();
                            if big && r.gen_bool(0.5) {
                                let l = pool::lit_data(&mut r, 140_000);
                                d = format!("* 1 FETCH (BODY[] {{{}}}\r\n", l.len()).into_bytes();
                                d.extend(l);
                                d.extend(b")\r\n");
                            }
                            todo.push(("enq", d));
                        }
                        todo.push(("enq", pool::status(&mut r, Some(&t))));
                    }
                    "AuthCommand" | "AuthData" => {
                        if o.e == "AuthCommand" {
                            auth_tag = o.q[1..].split(' ').next().unwrap().to_string();
                        }
                        if r.gen_bool(0.6) {
                            todo.push(("acont", pool::cont(&mut r)));
                        } else {
                            todo.push(("afin", pool::status(&mut r, Some(&auth_tag))));
                        }
                    }
                    "IdleCommand" => {
                        idle_tag = o.q.clone();
                        if r.gen_bool(0.7) {
                            todo.push(("iacc", pool::cont(&mut r)));
                        } else {
                            todo.push(("irej", pool::status(&mut r, Some(&idle_tag))));
                        }
                    }
                    "IdleDone" => todo.push(("enq", pool::status(&mut r, Some(&idle_tag)))),
                    _ => {}
                }
            }
            2 => {
                let k = cut(&mut r, style, &c2s);
                let p: Vec<u8> = c2s.drain(..k).collect();
                s.feed(&p);
                s_more = false;
            }
            3 => {
                let k = cut(&mut r, style, &s2c);
                let p: Vec<u8> = s2c.drain(..k).collect();
                c.feed(&p);
                c_more = false;
            }
            4 => {
                c.enqueue();
                cmds_due -= 1;
                c_more = false;
            }
            5 => {
                let (a, b) = todo.remove(0);
                let k = s.add(parse_resp(&b));
                if a == "enq" {
                    s.enqueue(k);
                } else {
                    s.call(a, k);
                }
                s_more = false;
            }
            6 => {
                let k = r.gen_range(1..=c.auths.len());
                c.set_auth(k);
                auth_due -= 1;
                c_more = false;
            }
            _ => {
                c.set_done();
                done_due -= 1;
                c_more = false;
            }
        }
    }
    let mut m = Map::new();
    m.insert("role".into(), json!("x"));
    m.insert("whole".into(), json!(true));
    m.insert("quiet".into(), json!(steps < 4000));
    let (ci, si) = (c.c.inp.clone(), s.c.inp.clone());
    m.insert("c".into(), Value::Object(c.script(&ci)));
    m.insert("s".into(), Value::Object(s.script(&si)));
    m
}
