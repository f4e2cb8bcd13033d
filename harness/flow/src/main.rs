mod canon;
mod history;
mod mem;
mod oracle;
mod pool;
mod random;
mod replay;
mod reveal;
mod scripts;
mod run;

use run::Log;
use serde_json::{json, Map, Value};
use std::{
    collections::HashMap,
    io::Write,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

fn arg(name: &str) -> Option<String> {
    let mut a = std::env::args();
    while let Some(x) = a.next() {
        if x == name {
            return a.next();
        }
    }
    None
}

type Job = Box<dyn Fn(Log) -> Map<String, Value> + Send + Sync>;

/// Runs the jobs on all cores. A call that does not return within 20 s is recorded as a hang.
fn execute(jobs: Vec<(String, Job)>) -> Vec<Value> {
    let n = jobs.len();
    let jobs = Arc::new(jobs);
    let next = Arc::new(AtomicUsize::new(0));
    let out: Arc<Mutex<HashMap<usize, Value>>> = Default::default();
    let live: Arc<Mutex<HashMap<usize, Log>>> = Default::default();
    let threads = std::thread::available_parallelism().map_or(4, |x| x.get()).min(8);
    let done = Arc::new(AtomicUsize::new(0));
    for _ in 0..threads {
        let (jobs, next, out, live, done) = (jobs.clone(), next.clone(), out.clone(), live.clone(), done.clone());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let log = Log::new();
                    live.lock().unwrap().insert(i, log.clone());
                    // Panics of the code under test are caught at each call; anything else is the recorder's own.
                    let Ok(mut m) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (jobs[i].1)(log.clone()))) else {
                        eprintln!("recorder: {} panicked", jobs[i].0);
                        std::process::exit(3);
                    };
                    live.lock().unwrap().remove(&i);
                    m.insert("name".into(), json!(jobs[i].0));
                    m.insert("log".into(), Value::Array(log.take()));
                    out.lock().unwrap().insert(i, Value::Object(m));
                }
                done.fetch_add(1, Ordering::SeqCst);
            })
            .unwrap();
    }
    let mut hung = Vec::new();
    while done.load(Ordering::SeqCst) < threads {
        std::thread::sleep(Duration::from_millis(5));
        let l = live.lock().unwrap();
        let stuck: Vec<usize> = l
            .iter()
            .filter(|(_, l)| l.0.lock().unwrap().1.elapsed() > Duration::from_secs(20))
            .map(|x| *x.0)
            .collect();
        if !stuck.is_empty() {
            for i in stuck {
                hung.push((jobs[i].0.clone(), l[&i].take()));
            }
            break;
        }
    }
    let mut m = out.lock().unwrap();
    let mut v: Vec<(usize, Value)> = m.drain().collect();
    v.sort_by_key(|x| x.0);
    let mut v: Vec<Value> = v.into_iter().map(|x| x.1).collect();
    for (name, log) in hung {
        v.push(json!({"name": name, "role": "hang", "log": log}));
    }
    v
}

type Schedule = [(String, Option<Value>)];
/// Runs a schedule of a script; gives the script's trace (a sample only, unless answers differ) and
/// the first step that differs.
type Make = Arc<dyn Fn(usize, &Schedule, Log) -> (Option<Map<String, Value>>, Option<usize>) + Send + Sync>;

/// The scripts of a role and how to run a schedule of one.
fn scripts_of(role: &str) -> (Vec<Value>, Make) {
    let seed: u64 = arg("--seed").map_or(1, |s| s.parse().unwrap());
    let random: usize = arg("--random").map_or(0, |s| s.parse().unwrap());
    let ncuts: usize = arg("--cuts").map_or(10, |s| s.parse().unwrap());
    let fixed = arg("--fixed").map_or(true, |s| s != "no");
    let every: usize = arg("--every").map_or(1, |s| s.parse().unwrap());
    match role {
        "client" => {
            let l = scripts::clients(seed, fixed, random, ncuts);
            let v: Vec<Value> = l.iter().map(|x| x.1.clone()).collect();
            (v, Arc::new(move |i, path, log| {
                let mut run = scripts::build_client(&l[i].0);
                run.c.log = log.clone();
                let inp: Vec<u8> = l[i].0.inp.concat();
                let (mut fed, mut bad) = (0, None);
                for (j, (a, exp)) in path.iter().enumerate() {
                    let (k, n) = (&a[..1], a[1..].parse::<usize>().unwrap_or(0));
                    match k {
                        "f" if fed + n > inp.len() => break,
                        "f" => {
                            run.feed(&inp[fed..fed + n]);
                            fed += n;
                        }
                        "e" => run.enqueue(),
                        "a" => {
                            run.set_auth(n);
                        }
                        "d" => {
                            run.set_done();
                        }
                        _ => {
                            run.next();
                        }
                    }
                    if bad.is_none() && !as_predicted(&log, exp) {
                        bad = Some(j);
                    }
                    if run.c.dead {
                        break;
                    }
                }
                finish(bad, every, path, || run.script(&inp))
            }))
        }
        "server" => {
            let l = scripts::servers(seed, fixed, random, ncuts);
            let v: Vec<Value> = l.iter().map(|x| x.1.clone()).collect();
            (v, Arc::new(move |i, path, log| {
                let mut run = scripts::build_server(&l[i].0, log.clone());
                let inp: Vec<u8> = l[i].0.inp.concat();
                let (mut fed, mut bad) = (0, if run.c.dead { Some(0) } else { None });
                for (j, (a, exp)) in path.iter().enumerate() {
                    let (k, n) = (&a[..1], a[1..].parse::<usize>().unwrap_or(0));
                    match k {
                        "f" if fed + n > inp.len() => break,
                        "f" => {
                            run.feed(&inp[fed..fed + n]);
                            fed += n;
                        }
                        "e" => run.enqueue(n),
                        "C" => {
                            run.call("acont", n);
                        }
                        "F" => {
                            run.call("afin", n);
                        }
                        "A" => {
                            run.call("iacc", n);
                        }
                        "R" => {
                            run.call("irej", n);
                        }
                        _ => {
                            run.next();
                        }
                    }
                    if bad.is_none() && !as_predicted(&log, exp) {
                        bad = Some(j);
                    }
                    if run.c.dead {
                        break;
                    }
                }
                finish(bad, every, path, || run.script(&inp))
            }))
        }
        "session" => {
            let grain: usize = arg("--grain").map_or(1, |s| s.parse().unwrap());
            let l = scripts::sessions(fixed, grain);
            let v: Vec<Value> = l.iter().map(|x| x.1.clone()).collect();
            (v, Arc::new(move |i, path, log| {
                let (mut c, mut s) = scripts::build_session(&l[i].0, log.clone());
                let (mut c2s, mut s2c) = (Vec::<u8>::new(), Vec::<u8>::new());
                let mut bad = None;
                for (j, (a, exp)) in path.iter().enumerate() {
                    let before = log.len();
                    let n = a[2..].parse::<usize>().unwrap_or(0);
                    match &a[..2] {
                        "ce" => c.enqueue(),
                        "cn" => {
                            let o = c.next();
                            c2s.extend(&o.bytes);
                        }
                        "sn" => {
                            let o = s.next();
                            s2c.extend(&o.bytes);
                        }
                        "ca" => {
                            c.set_auth(n);
                        }
                        "cd" => {
                            c.set_done();
                        }
                        "cf" if !s2c.is_empty() => {
                            let n = n.min(s2c.len());
                            c.feed(&s2c.drain(..n).collect::<Vec<u8>>());
                        }
                        "sf" if !c2s.is_empty() => {
                            let n = n.min(c2s.len());
                            s.feed(&c2s.drain(..n).collect::<Vec<u8>>());
                        }
                        "se" => s.enqueue(n),
                        "sC" => {
                            s.call("acont", n);
                        }
                        "sF" => {
                            s.call("afin", n);
                        }
                        "sA" => {
                            s.call("iacc", n);
                        }
                        "sR" => {
                            s.call("irej", n);
                        }
                        _ => {}
                    }
                    if bad.is_none() && (log.len() == before || !as_predicted(&log, exp)) {
                        bad = Some(j);
                    }
                    if c.c.dead || s.c.dead {
                        break;
                    }
                }
                finish(bad, every, path, || {
                    let mut m = Map::new();
                    m.insert("role".into(), json!("x"));
                    m.insert("whole".into(), json!(false));
                    m.insert("quiet".into(), json!(false));
                    m.insert("c".into(), Value::Object(c.script(&c.c.inp)));
                    m.insert("s".into(), Value::Object(s.script(&s.c.inp)));
                    m
                })
            }))
        }
        _ => panic!("role"),
    }
}
/// Only runs that differ, and a sample of the others, need their script.
fn finish(bad: Option<usize>, every: usize, path: &Schedule, script: impl FnOnce() -> Map<String, Value>) -> (Option<Map<String, Value>>, Option<usize>) {
    let h = path.iter().flat_map(|a| a.0.bytes()).fold(7usize, |a, b| a.wrapping_mul(31).wrapping_add(b as usize));
    (if bad.is_some() || h % every == 0 { Some(script()) } else { None }, bad)
}
fn as_predicted(log: &Log, exp: &Option<Value>) -> bool {
    match (log.last(), exp) {
        (Some(e), Some(x)) => replay::agrees(&e, x),
        (Some(_), None) => true,
        (None, _) => false,
    }
}

fn main() {
    // Panics of the code under test are observations; those of the harness itself show up here.
    std::panic::set_hook(Box::new(|i| {
        if std::thread::current().name() == Some("main") || std::env::var_os("LOUD").is_some() {
            eprintln!("{i}");
        }
    }));
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let t0 = Instant::now();
    match cmd.as_str() {
        "random" => {
            let role = arg("--role").unwrap();
            let seed: u64 = arg("--seed").map_or(1, |s| s.parse().unwrap());
            let count: u64 = arg("--count").map_or(100, |s| s.parse().unwrap());
            let only: Option<u64> = arg("--only").map(|s| s.parse().unwrap());
            let jobs = (0..count)
                .filter(|i| only.map_or(true, |o| o == *i))
                .map(|i| {
                    let s = seed.wrapping_mul(1_000_003).wrapping_add(i);
                    let role2 = role.clone();
                    let job: Job = Box::new(move |log| match role2.as_str() {
                        "client" => random::client(s, log),
                        "server" => random::server(s, log),
                        "session" => random::session(s, log),
                        _ => panic!("role"),
                    });
                    (format!("random/{role}/{seed}/{i}"), job)
                })
                .collect();
            write(execute(jobs), &arg("--out").unwrap());
        }
        // The same rounds over and over: `@@{"role","word","laps","anew"}` lines of the model checker.
        "history" => {
            let text = std::fs::read_to_string(arg("--tlc").unwrap()).unwrap();
            let mut jobs: Vec<(String, Job)> = Vec::new();
            for l in text.lines().filter(|l| l.starts_with("\"@@")) {
                let v: Value = serde_json::from_str(&serde_json::from_str::<String>(l).unwrap()[2..]).unwrap();
                let role = v["role"].as_str().unwrap().to_string();
                let word: Vec<String> = v["word"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                let (laps, anew) = (v["laps"].as_u64().unwrap() as usize, v["anew"].as_bool().unwrap());
                let name = format!("history/{role}/{}{}", word.join("."), if anew { "/anew" } else { "" });
                jobs.push((name, Box::new(move |log| history::run(&role, &word, laps, anew, log))));
            }
            jobs.sort_by(|a, b| a.0.cmp(&b.0));
            write(execute(jobs), &arg("--out").unwrap());
        }
        // Scripts for the model checker.
        "scripts" => {
            let (v, _) = scripts_of(&arg("--role").unwrap());
            std::fs::write(arg("--out").unwrap(), serde_json::to_vec(&v).unwrap()).unwrap();
        }
        // Schedules of the model checker, run against the real code.
        "replay" => {
            let (v, make) = scripts_of(&arg("--role").unwrap());
            let t = replay::load(&arg("--tlc").unwrap());
            let keep: usize = arg("--keep").map_or(0, |s| s.parse().unwrap());
            let more: usize = arg("--more").map_or(10, |s| s.parse().unwrap());
            let cap: usize = arg("--cap").map_or(usize::MAX, |s| s.parse().unwrap());
            let mut jobs: Vec<(String, Job)> = Vec::new();
            let count = t.count;
            let mut by: Vec<_> = t.by.into_iter().collect();
            by.sort_by_key(|x| x.0);
            let mut list: Vec<(usize, Arc<replay::Graph>, String)> = Vec::new();
            for (s, g) in by {
                let g = Arc::new(g);
                for path in g.leaves() {
                    list.push((s, g.clone(), path));
                }
            }
            let total = list.len();
            let skip = total.div_ceil(cap).max(1);
            for (s, g, path) in list.into_iter().step_by(skip) {
                let make = make.clone();
                let name = format!("{}:{path}", v[s - 1]["name"].as_str().unwrap());
                jobs.push((name, Box::new(move |log| {
                    let (m, bad) = make(s - 1, &g.schedule(&path, more), log);
                    let mut m = m.unwrap_or_default();
                    m.insert("differs".into(), json!(bad.map_or(-1, |b| b as i64)));
                    m
                })));
            }
            let n = jobs.len();
            let runs = execute(jobs);
            let mut groups: HashMap<String, usize> = HashMap::new();
            let (mut bad, mut good) = (Vec::new(), Vec::new());
            let mut steps = 0;
            let mut nbad = 0;
            for r in runs {
                steps += r["log"].as_array().map_or(0, |l| l.len());
                if r["role"] != "hang" && r["differs"] == -1 {
                    if good.len() < keep && r.get("role").is_some() {
                        good.push(r);
                    }
                } else {
                    nbad += 1;
                    let at = r["differs"].as_u64().unwrap_or(0) as usize;
                    let l = r["log"].as_array().and_then(|l| l.get(at).or(l.last())).cloned().unwrap_or_default();
                    let g = format!("{} {} {} {}", r["name"].as_str().unwrap().split(':').next().unwrap(), l["a"], l["obs"]["o"], l["obs"]["e"]);
                    let c = groups.entry(g).or_default();
                    *c += 1;
                    if *c <= 2 && bad.len() < 300 {
                        bad.push(r);
                    }
                }
            }
            println!("{}", json!({"transitions": count, "all": total, "schedules": n, "steps": steps, "differ": nbad}));
            bad.extend(good);
            write(bad, &arg("--out").unwrap());
        }
        _ => {
            eprintln!("usage");
            std::process::exit(2);
        }
    }
    eprintln!("{cmd}: {:?}", t0.elapsed());
}

fn write(traces: Vec<Value>, out: &str) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    serde_json::to_writer(&mut f, &traces).unwrap();
    f.flush().unwrap();
    // Threads that hang must not keep the process.
    eprintln!("{} traces", traces.len());
    std::mem::forget(f);
}
