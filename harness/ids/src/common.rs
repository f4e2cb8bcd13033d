//! Histories of handed out identities on real code, whatever hands them out.
use serde_json::{json, Value};
use std::{
    collections::HashMap,
    hash::{BuildHasher, Hash, RandomState},
    io::BufRead,
    sync::{
        atomic::{AtomicBool, Ordering::Relaxed},
        Arc, Barrier, Mutex,
    },
    time::Instant,
};

pub trait Source: Sync {
    const KIND: &'static str;
    type Conn: Send;
    type Id: Eq + Hash + Clone + Send + Sync;
    fn conn(&self) -> Self::Conn;
    fn id(&self, c: &mut Self::Conn) -> Self::Id;
    fn text(_: &Self::Id) -> String {
        String::new()
    }
    /// Could the connection be made to have handed out `n` identities? (best effort)
    fn skip(&self, _: &mut Self::Conn, _n: u64) -> bool {
        false
    }
}

/// What has been handed out, with the connection and position it came from.
pub struct Book<S: Source> {
    set: HashMap<S::Id, (usize, u64)>,
    anchors: Vec<(S::Id, (usize, u64))>,
    counts: HashMap<usize, u64>,
    pub max_anchors: usize,
    pub bad: Vec<Value>,
    pub n: u64,
    start: Instant,
}
/// Hashing spreads so badly that the table is of no use.
static SLOW: AtomicBool = AtomicBool::new(false);
impl<S: Source> Book<S> {
    pub fn new() -> Self {
        Book { set: HashMap::new(), anchors: vec![], counts: HashMap::new(), max_anchors: 300, bad: vec![], n: 0, start: Instant::now() }
    }
    fn report(&mut self, how: &str, a: (usize, u64), b: (usize, u64)) {
        if self.bad.len() < 20 {
            let same = a.0 == b.0;
            let blame = if S::KIND == "tag" { "H03" } else if same { "H01" } else { "H02" };
            self.bad.push(json!({"blame": [blame], "kind": S::KIND, "how": how,
                "text": format!("{}: identity {} of connection {} equals identity {} of connection {} ({how})", S::KIND, a.1, a.0, b.1, b.0)}));
        }
    }
    fn anchor_at(k: u64) -> bool {
        k < 3 || (k & (k - 1)) == 0 || ((k + 1) & k) == 0 || (k % 100 == 0 && k <= 1000) || k == 10_000 || k == 100_000
    }
    pub fn add(&mut self, c: usize, id: S::Id) {
        let k = *self.counts.get(&c).unwrap_or(&0);
        self.add_at(c, k, id);
        self.counts.insert(c, k + 1);
    }
    pub fn add_at(&mut self, c: usize, k: u64, id: S::Id) {
        self.n += 1;
        let at = (c, k);
        if let Some(x) = self.anchors.iter().find(|x| x.0 == id || id == x.0).map(|x| x.1) {
            self.report("==", at, x);
        }
        if Self::anchor_at(k) || self.n < 200 || self.max_anchors >= 5000 {
            if self.anchors.len() < self.max_anchors {
                self.anchors.push((id.clone(), at));
            }
        }
        if !SLOW.load(Relaxed) {
            if let Some(x) = self.set.insert(id.clone(), at) {
                self.report("key of a hashed map", at, x);
            }
            let t = if self.n % 256 == 0 { self.start.elapsed().as_secs_f64() } else { 0.0 };
            if t > 2.0 && (self.n as f64) < t * 8000.0 {
                SLOW.store(true, Relaxed);
            }
        }
        if S::KIND == "tag" && k % 997 == 0 && !valid_tag(&S::text(&id)) {
            if self.bad.len() < 20 {
                self.bad.push(json!({"blame": ["H03"], "kind": "tag", "text": format!("{:?} is not a valid tag", S::text(&id))}));
            }
        }
    }
}
pub fn valid_tag(t: &str) -> bool {
    !t.is_empty() && t.bytes().all(|b| b.is_ascii_graphic() && !b"(){%*\"\\+".contains(&b) || b == b'}')
}

/// Histories of the model, with every step repeated.
pub fn paths(tlc: &str) -> Vec<Vec<(u8, usize, bool)>> {
    let f = std::io::BufReader::new(std::fs::File::open(tlc).unwrap());
    f.lines()
        .map_while(Result::ok)
        .filter(|l| l.starts_with("\"@@"))
        .map(|l| {
            let s: String = serde_json::from_str(&l).unwrap();
            let v: Value = serde_json::from_str(&s[2..]).unwrap();
            v["p"].as_str().unwrap().split_whitespace().map(|w| {
                (w.as_bytes()[0], w[1..].trim_end_matches('\'').parse().unwrap_or(0), w.ends_with('\''))
            }).collect()
        })
        .collect()
}

fn other_thread<T: Send>(yes: bool, f: impl FnOnce() -> T + Send) -> T {
    if yes { std::thread::scope(|s| s.spawn(f).join().unwrap()) } else { f() }
}

/// One history; with `traces`, recorded for TraceIds.
pub fn history<S: Source>(s: &S, path: &[(u8, usize, bool)], hands: usize, conns: usize, name: &str, traces: Option<&mut Vec<Value>>, bad: &mut Vec<Value>) -> u64 {
    let mut live: Vec<Vec<Option<S::Conn>>> = vec![];
    let mut no = 0; // connections in order of creation
    let mut first: Vec<usize> = vec![];
    let mut all: Vec<S::Id> = vec![];
    let mut log = vec![];
    let mut book = Book::<S>::new();
    let rec = traces.is_some();
    let hasher = RandomState::new();
    let mut keys: HashMap<S::Id, usize> = HashMap::new();
    for (a, c, t) in path {
        match a {
            b'n' => {
                let v = other_thread(*t, || (0..conns).map(|_| Some(s.conn())).collect::<Vec<_>>());
                for _ in 0..conns {
                    log.push(json!({"a": "new", "c": 0}));
                }
                first.push(no);
                no += conns;
                live.push(v);
            }
            b'h' => {
                for k in 0..conns {
                    for _ in 0..hands {
                        let id = s.id(live[c - 1][k].as_mut().unwrap());
                        let conn = first[c - 1] + k;
                        if rec {
                            let me = all.len() + 1;
                            let eq = all.iter().position(|x| *x == id || id == *x).map_or(me, |p| p + 1);
                            let key = keys.get(&id).copied().unwrap_or(me);
                            let copy = id.clone() == id && id == id.clone() && hasher.hash_one(&id) == hasher.hash_one(id.clone());
                            keys.insert(id.clone(), me);
                            all.push(id.clone());
                            let copy = copy && keys.get(&id.clone()) == Some(&me);
                            if !copy && bad.len() < 20 {
                                bad.push(json!({"blame": [if S::KIND == "tag" { "H03" } else { "H01" }], "kind": S::KIND, "history": name,
                                    "text": format!("{}: identity {} of connection {conn} isn't equal to its copy, or not the same key", S::KIND, log.len())}));
                            }
                            log.push(json!({"a": "hand", "c": conn + 1, "eq": eq, "key": key, "copy": copy,
                                "chars": S::text(&id).chars().map(|c| c.to_string()).collect::<Vec<_>>()}));
                        }
                        book.add(conn, id);
                    }
                }
            }
            _ => {
                for k in 0..conns {
                    live[c - 1][k] = None;
                    log.push(json!({"a": "drop", "c": first[c - 1] + k + 1}));
                }
            }
        }
    }
    if let Some(t) = traces {
        t.push(json!({"name": name, "kind": S::KIND, "log": log}));
    }
    for mut b in book.bad {
        b["history"] = json!(name);
        bad.push(b);
    }
    book.n
}

/// Many connections and many identities, in one thread.
pub fn bulk<S: Source>(s: &S, per: u64, conns: usize, bad: &mut Vec<Value>) -> u64 {
    let mut n = 0;
    // One connection, very many identities, with a second one beside it.
    let mut book = Book::<S>::new();
    let mut a = s.conn();
    let mut b = s.conn();
    for i in 0..per {
        book.add(0, s.id(&mut a));
        if i % 1024 == 0 || i < 300 {
            book.add(1, s.id(&mut b));
        }
    }
    for i in 2..600 {
        book.add(i, s.id(&mut s.conn()));
    }
    n += book.n;
    bad.extend(book.bad);
    // Many connections, few identities each; some stay, most go.
    let mut book = Book::<S>::new();
    book.max_anchors = 64;
    let mut keep = vec![];
    for i in 0..conns {
        let mut c = s.conn();
        for _ in 0..1 + i % 3 {
            book.add(i, s.id(&mut c));
        }
        if i % 1000 < 3 {
            keep.push((i, c));
        }
    }
    for (i, c) in &mut keep {
        book.add(*i, s.id(c));
    }
    n += book.n;
    bad.extend(book.bad);
    // A square of both: all pairs compared with ==.
    let g = 64;
    let mut cs: Vec<S::Conn> = (0..g).map(|_| s.conn()).collect();
    let mut ids: Vec<(usize, u64, S::Id)> = vec![];
    let marks: Vec<u64> = (0..40).chain([63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 254, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]).collect();
    for (i, c) in cs.iter_mut().enumerate() {
        for k in 0..=1025u64 {
            let id = s.id(c);
            if marks.contains(&k) {
                ids.push((i, k, id));
            }
        }
    }
    let mut book = Book::<S>::new();
    let nt = 8;
    let found: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for t in 0..nt {
            let (ids, found) = (&ids, &found);
            sc.spawn(move || {
                let mut i = t;
                while i < ids.len() {
                    for j in 0..i {
                        if ids[i].2 == ids[j].2 || ids[j].2 == ids[i].2 {
                            let mut f = found.lock().unwrap();
                            if f.len() < 5 {
                                f.push((i, j));
                            }
                        }
                    }
                    i += nt;
                }
            });
        }
    });
    for (i, j) in found.into_inner().unwrap() {
        book.report("==", (ids[i].0, ids[i].1), (ids[j].0, ids[j].1));
    }
    n += ids.len() as u64;
    bad.extend(book.bad);
    n
}

/// Places where a width or a format could come to its end.
pub fn marks() -> Vec<u64> {
    let mut v: Vec<u64> = (8..64).map(|e| (1u64 << e) - 2).chain((3..20).map(|e| 10u64.pow(e) - 2)).chain((9..60).step_by(3).map(|e| 3 * (1u64 << e) - 2)).collect();
    v.sort();
    v
}

/// Identities far out: connections advanced without handing everything out.
pub fn far<S: Source>(s: &S, bad: &mut Vec<Value>) -> u64 {
    let mut book = Book::<S>::new();
    book.max_anchors = 5000;
    let mut cs: Vec<S::Conn> = (0..6).map(|_| s.conn()).collect();
    for (i, c) in cs.iter_mut().enumerate() {
        for _ in 0..4 {
            book.add(i, s.id(c));
        }
        let mut at = 4;
        for to in marks() {
            if to <= at || !s.skip(c, to) {
                continue;
            }
            at = to;
            for k in 0..5 {
                book.add_at(i, at + k, s.id(c));
            }
            at += 5;
        }
    }
    bad.extend(book.bad);
    book.n
}

/// Connections created and used on many threads at once.
pub fn threads<S: Source>(s: &S, rounds: usize, per: usize, bad: &mut Vec<Value>) -> u64 {
    let mut n = 0;
    for round in 0..rounds {
        let t = [2, 3, 4, 8, 8, 16][round % 6];
        let barrier = Arc::new(Barrier::new(t));
        let all: Mutex<Vec<(usize, S::Id)>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for th in 0..t {
                let (barrier, all) = (barrier.clone(), &all);
                sc.spawn(move || {
                    let mut v = vec![];
                    barrier.wait();
                    for i in 0..per {
                        let mut c = s.conn();
                        for _ in 0..1 + i % 2 {
                            v.push((th * 1_000_000 + i, s.id(&mut c)));
                        }
                    }
                    all.lock().unwrap().extend(v);
                });
            }
        });
        let mut book = Book::<S>::new();
        book.max_anchors = 32;
        for (c, id) in all.into_inner().unwrap() {
            book.add(c, id);
        }
        n += book.n;
        bad.extend(book.bad);
        if !bad.is_empty() {
            break;
        }
    }
    n
}

/// Everything above.
pub fn all<S: Source>(s: &S, tlc: &str, scale: u64, seed: u64, traces: &mut Vec<Value>, bad: &mut Vec<Value>) -> Value {
    let list = paths(tlc);
    let mut n = 0;
    let mut runs = 0;
    let fit = |p: &Vec<(u8, usize, bool)>| p.iter().any(|x| x.0 == b'h');
    for (i, p) in list.iter().enumerate() {
        if !fit(p) {
            continue;
        }
        let h = (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(seed) >> 7;
        // plain, recorded for some
        let name = format!("{}/{i}", S::KIND);
        n += history(s, p, 1, 1, &name, if h % 40 == 0 { Some(traces) } else { None }, bad);
        runs += 1;
        if h % 40 == 1 {
            n += history(s, p, [2, 101, 128, 257][(h / 40 % 4) as usize], [1, 2, 101][(h / 160 % 3) as usize], &format!("{name}*"), None, bad);
            runs += 1;
        }
        if h % 400 == 2 {
            n += history(s, p, [1001, 4097, 32769][(h / 400 % 3) as usize], 1, &format!("{name}**"), None, bad);
            n += history(s, p, 1, [257, 1025, 4097][(h / 400 % 3) as usize], &format!("{name}***"), None, bad);
            runs += 2;
        }
        // a longer one, recorded
        if h % 2000 == 3 {
            n += history(s, p, 23, 3, &format!("{name}+"), Some(traces), bad);
            runs += 1;
        }
        if bad.len() > 10 {
            break;
        }
    }
    if bad.is_empty() {
        n += bulk(s, 70_000 * scale, (70_000 * scale) as usize, bad);
    }
    n += far(s, bad);
    if bad.is_empty() {
        n += threads(s, 24, 2000 * scale.min(10) as usize, bad);
    }
    json!({"kind": S::KIND, "histories": runs, "identities": n})
}
