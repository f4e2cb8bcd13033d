mod run;
mod tls;
#[path = "../../flow/src/replay.rs"]
#[allow(dead_code)]
mod replay;

use rand::{rngs::StdRng, Rng, SeedableRng};
use run::{items, run, Item, Log, Outcome, Script, Step};
use serde_json::{json, Map, Value};
use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

fn arg(name: &str) -> Option<String> {
    let mut a = std::env::args();
    while let Some(x) = a.next() {
        if x == name {
            return a.next();
        }
    }
    None
}
fn num(name: &str, d: usize) -> usize {
    arg(name).map_or(d, |s| s.parse().unwrap())
}

type Job = Box<dyn Fn(Log) -> Outcome + Send + Sync>;

/// Runs all jobs. A job without progress for 10 s hangs: its log ends with that.
fn execute(jobs: Vec<(String, Job)>, keep: impl Fn(usize, &Outcome) -> bool + Send + Sync + 'static) -> (Vec<Value>, usize, usize) {
    let n = jobs.len();
    let jobs = Arc::new(jobs);
    let keep = Arc::new(keep);
    let next = Arc::new(AtomicUsize::new(0));
    let steps = Arc::new(AtomicUsize::new(0));
    let bad = Arc::new(AtomicUsize::new(0));
    let out: Arc<Mutex<Vec<(usize, Value)>>> = Default::default();
    let live: Arc<Mutex<HashMap<usize, Log>>> = Default::default();
    let threads = std::thread::available_parallelism().map_or(4, |x| x.get()).min(8);
    let done = Arc::new(AtomicUsize::new(0));
    std::panic::set_hook(Box::new(|_| {}));
    for _ in 0..threads {
        let (jobs, next, out, live, done, keep, steps, bad) =
            (jobs.clone(), next.clone(), out.clone(), live.clone(), done.clone(), keep.clone(), steps.clone(), bad.clone());
        std::thread::spawn(move || {
            loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    break;
                }
                let log = Log::new();
                live.lock().unwrap().insert(i, log.clone());
                let l = log.clone();
                let j = jobs.clone();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || (j[i].1)(l)));
                live.lock().unwrap().remove(&i);
                let mut o = match r {
                    Ok(o) => o,
                    Err(_) => {
                        log.push(json!({"a": "ret", "o": "panic", "n": 0, "early": false, "spin": false, "unread": 0, "room": 0}));
                        Outcome { map: dead(), bad: Some(0) }
                    }
                };
                let l = log.take();
                steps.fetch_add(l.len(), Ordering::SeqCst);
                if o.bad.is_some() {
                    bad.fetch_add(1, Ordering::SeqCst);
                }
                if keep(i, &o) {
                    o.map.insert("name".into(), json!(jobs[i].0));
                    o.map.insert("log".into(), Value::Array(l));
                    out.lock().unwrap().push((i, Value::Object(o.map)));
                }
            }
            done.fetch_add(1, Ordering::SeqCst);
        });
    }
    let mut hung = Vec::new();
    while done.load(Ordering::SeqCst) < threads {
        std::thread::sleep(Duration::from_millis(5));
        let l = live.lock().unwrap();
        for (i, log) in l.iter() {
            if log.0.lock().unwrap().1.elapsed() > Duration::from_secs(10) {
                let mut v = log.take();
                v.push(json!({"a": "ret", "o": "hang", "n": 0, "early": false, "spin": true, "unread": 0, "room": 0}));
                let mut m = dead();
                m.insert("name".into(), json!(jobs[*i].0));
                m.insert("log".into(), Value::Array(v));
                hung.push((*i, Value::Object(m)));
            }
        }
        if !hung.is_empty() {
            bad.fetch_add(hung.len(), Ordering::SeqCst);
            break;
        }
    }
    let mut v = std::mem::take(&mut *out.lock().unwrap());
    v.extend(hung);
    v.sort_by_key(|x| x.0);
    (v.into_iter().map(|x| x.1).collect(), steps.load(Ordering::SeqCst), bad.load(Ordering::SeqCst))
}
fn dead() -> Map<String, Value> {
    let mut m = Map::new();
    m.insert("hand".into(), json!(0));
    m.insert("placed".into(), json!(0));
    m.insert("exact".into(), json!(true));
    m.insert("whole".into(), json!(false));
    m
}

fn random_job(seed: u64) -> (Script, Vec<Step>) {
    let mut r = StdRng::seed_from_u64(seed);
    let mode = ["plain", "plain", "c13", "s13", "c12", "s12"][r.gen_range(0..6)].to_string();
    let tls = mode != "plain";
    let big = r.gen_bool(0.25);
    let huge = r.gen_bool(0.015);
    let size = |r: &mut StdRng| match r.gen_range(0..if huge { 14 } else if big { 10 } else { 6 }) {
        10..=13 => [1 << 20, (1 << 20) + 1, 1_500_000, 1 << 22, 9_000_000][r.gen_range(0..5)],
        0..=2 => r.gen_range(1..40),
        3..=4 => r.gen_range(1..2000),
        5 => r.gen_range(1..20_000),
        6..=7 => [16_384, 16_383, 16_385, 65_535, 65_536, 65_537, 131_072][r.gen_range(0..7)],
        _ => r.gen_range(1..300_000),
    };
    let hand = if tls && r.gen_bool(0.3) { [1, 20, 127, 128, 129, 1000, 5000, 12_000][r.gen_range(0..8)] } else { 0 };
    let placed = if tls && r.gen_bool(0.2) { r.gen_range(1..3000) } else { 0 };
    let nchunks = r.gen_range(0..6);
    let mut chunks: Vec<usize> = (0..nchunks).map(|_| size(&mut r)).collect();
    let total: usize = hand + chunks.iter().sum::<usize>();
    let mut script = Vec::new();
    let mut need = 0;
    for _ in 0..r.gen_range(1..9) {
        match r.gen_range(0..7) {
            0..=2 => script.push(Item::Out(size(&mut r))),
            3..=4 if need < total => {
                need = if r.gen_bool(0.3) { total } else { r.gen_range(need + 1..=total) };
                script.push(Item::Need(need));
            }
            5 => script.push(Item::Err),
            _ => script.push(Item::Ev),
        }
    }
    let mut steps: Vec<String> = Vec::new();
    let mut part = false;
    let mut stopped = false;
    let stops = r.gen_bool(0.3);
    let grants = r.gen_range(0..4);
    for _ in 0..r.gen_range(5..60) {
        match r.gen_range(0..16) {
            0..=2 => {
                if part {
                    steps.push("b".into());
                    part = false;
                } else if !chunks.is_empty() && !stopped {
                    let n = chunks.remove(0);
                    // (one record only: it counts when it is complete)
                    part = tls && n <= 16_384 && r.gen_bool(0.4);
                    steps.push(format!("{}{n}", if part { "a" } else { "w" }));
                }
            }
            3..=5 => steps.push(match grants {
                0 => format!("o{}", r.gen_range(1..10)),
                1 => format!("o{}", r.gen_range(1..1000)),
                2 => format!("o{}", r.gen_range(1..100_000)),
                _ => "O".into(),
            }),
            6..=8 => steps.push("n".into()),
            9 => steps.push("f".into()),
            10..=12 => steps.push("p".into()),
            13..=14 => steps.push("d".into()),
            _ if stops && !part && r.gen_bool(0.3) => {
                let how = ["notify", "half", "gone", "reset"][r.gen_range(0..4)];
                if how == "notify" && (!tls || stopped) {
                    continue;
                }
                stopped = true;
                steps.push(format!("s{how}"));
            }
            _ => {}
        }
    }
    if part {
        steps.push("b".into());
    }
    if !stopped {
        for n in chunks {
            steps.push(format!("w{n}"));
        }
    }
    let step = |r: &mut StdRng| [0, 0, 0, 1, 7, 100, 4096, 5000][r.gen_range(0..8)];
    // not too many small pieces of much data
    let few = |n: usize, total: usize| if n == 0 { 0 } else { n.max(total / 100) };
    let s = Script {
        mode,
        hand,
        placed,
        read_step: few(step(&mut r), total),
        write_step: few(step(&mut r), script.iter().map(|i| if let Item::Out(n) = i { *n } else { 0 }).sum()),
        items: script,
    };
    (s, steps.into_iter().map(|x| (x, None)).collect())
}

fn main() {
    let out = arg("--out").unwrap();
    let seed = num("--seed", 1) as u64;
    let mut jobs: Vec<(String, Job)> = Vec::new();
    let every = num("--every", 1);
    let mut total = 0;
    match std::env::args().nth(1).unwrap().as_str() {
        "random" => {
            for i in 0..num("--count", 100) {
                let s = seed.wrapping_mul(1_000_003).wrapping_add(i as u64);
                jobs.push((
                    format!("random {s}"),
                    Box::new(move |log| {
                        let (script, steps) = random_job(s);
                        let mut o = run(&script, &steps, true, log);
                        o.map.insert("steps".into(), json!([script.read_step, script.write_step]));
                        o
                    }),
                ));
            }
            total = jobs.len();
        }
        "replay" => {
            let scripts: Vec<Value> = serde_json::from_reader(std::fs::File::open(arg("--scripts").unwrap()).unwrap()).unwrap();
            let t = replay::load(&arg("--tlc").unwrap());
            let cap = num("--cap", usize::MAX);
            let mut l: Vec<(usize, String)> = Vec::new();
            let mut keys: Vec<_> = t.by.keys().copied().collect();
            keys.sort();
            for k in keys {
                for p in t.by[&k].leaves() {
                    l.push((k, p));
                }
            }
            total = l.len();
            let stride = l.len().div_ceil(cap.max(1)).max(1);
            let by = Arc::new(t.by);
            for (i, (k, p)) in l.into_iter().enumerate() {
                if i % stride != seed as usize % stride {
                    continue;
                }
                let v = &scripts[k - 1];
                let vary = (i / stride) % 4;
                let s = Script {
                    mode: v["mode"].as_str().unwrap().into(),
                    hand: v["hand"].as_u64().unwrap() as usize,
                    placed: v["placed"].as_u64().unwrap() as usize,
                    items: items(&v["script"]),
                    read_step: [0, 1, 0, 3][vary],
                    write_step: [0, 0, 1, 2][vary],
                };
                let by = by.clone();
                jobs.push((
                    format!("{}:{}", v["name"].as_str().unwrap(), p),
                    Box::new(move |log| {
                        let steps = by[&k].schedule(&p, 6);
                        run(&s, &steps, false, log)
                    }),
                ));
            }
        }
        x => panic!("{x}"),
    }
    let runs = jobs.len();
    let (v, steps, bad) = execute(jobs, move |i, o| o.bad.is_some() || i % every == 0);
    let v: Vec<Value> = if v.len() > 60_000 { v.into_iter().take(60_000).collect() } else { v };
    std::fs::write(&out, serde_json::to_vec(&v).unwrap()).unwrap();
    println!("{}", json!({"runs": runs, "of": total, "entries": steps, "differ": bad, "kept": v.len()}));
    std::process::exit(0);
}
