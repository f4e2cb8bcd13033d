//! Runs a schedule on the real `Stream` and records what happens.
use crate::tls::{establish, Peer};
use faketokio::net::{Stop, Wire};
use imap_next::{
    stream::{Error, Stream},
    Interrupt, Io, State,
};
use serde_json::{json, Map, Value};
use std::{
    cell::{Cell, RefCell},
    future::Future,
    pin::Pin,
    rc::Rc,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll, Wake, Waker},
    time::Instant,
};

/// The byte at a position of one of the two directions.
pub fn content(dir: u64, i: usize) -> u8 {
    let x = (i as u64 ^ dir << 40).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    (x >> 32) as u8
}
pub fn bytes(dir: u64, from: usize, n: usize) -> Vec<u8> {
    (from..from + n).map(|i| content(dir, i)).collect()
}

#[derive(Clone)]
pub struct Log(pub Arc<Mutex<(Vec<Value>, Instant)>>);
impl Log {
    pub fn new() -> Self {
        Log(Arc::new(Mutex::new((Vec::new(), Instant::now()))))
    }
    pub fn push(&self, v: Value) {
        let mut l = self.0.lock().unwrap();
        // Asking again without new input: once is enough (no time passes: a hang is noticed).
        if v["o"] == "more" && l.0.last() == Some(&v) {
            return;
        }
        l.0.push(v);
        l.1 = Instant::now();
    }
    /// Input, joined with the one before if the state only asked for more in between.
    fn input(&self, n: usize, same: bool) {
        let mut l = self.0.lock().unwrap();
        let k = l.0.len();
        if same && k >= 2 && l.0[k - 1]["o"] == "more" && l.0[k - 1]["a"] == "st" && l.0[k - 2]["a"] == "in" && l.0[k - 2]["same"] == true {
            l.0.pop();
            let m = l.0[k - 2]["n"].as_u64().unwrap();
            l.0[k - 2]["n"] = json!(m + n as u64);
            l.1 = Instant::now();
            return;
        }
        drop(l);
        self.push(json!({"a": "in", "n": n, "same": same}));
    }
    pub fn take(&self) -> Vec<Value> {
        std::mem::take(&mut self.0.lock().unwrap().0)
    }
}

#[derive(Clone, Debug)]
pub enum Item {
    Out(usize),
    Ev,
    Err,
    Need(usize),
}
pub fn items(v: &Value) -> Vec<Item> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|i| match i["k"].as_str().unwrap() {
            "out" => Item::Out(i["n"].as_u64().unwrap() as usize),
            "need" => Item::Need(i["n"].as_u64().unwrap() as usize),
            "ev" => Item::Ev,
            _ => Item::Err,
        })
        .collect()
}
pub fn items_json(l: &[Item]) -> Value {
    Value::Array(
        l.iter()
            .map(|i| match i {
                Item::Out(n) => json!({"k": "out", "n": n}),
                Item::Need(n) => json!({"k": "need", "n": n}),
                Item::Ev => json!({"k": "ev", "n": 0}),
                Item::Err => json!({"k": "err", "n": 0}),
            })
            .collect(),
    )
}

/// A protocol state that follows a script.
struct Mock {
    script: Vec<Item>,
    pc: Rc<Cell<usize>>,
    given: usize,
    prod: usize,
    log: Log,
}
impl State for Mock {
    type Event = usize;
    type Error = usize;
    fn enqueue_input(&mut self, b: &[u8]) {
        let same = (0..b.len()).all(|i| b[i] == content(2, self.given + i));
        self.given += b.len();
        self.log.input(b.len(), same);
    }
    fn next(&mut self) -> Result<usize, Interrupt<usize>> {
        loop {
            let st = |o: &str, n: usize| self.log.push(json!({"a": "st", "o": o, "n": n}));
            match self.script.get(self.pc.get()) {
                Some(Item::Need(n)) if self.given >= *n => self.pc.set(self.pc.get() + 1),
                None | Some(Item::Need(_)) => {
                    st("more", 0);
                    return Err(Interrupt::Io(Io::NeedMoreInput));
                }
                Some(Item::Out(n)) => {
                    let b = bytes(1, self.prod, *n);
                    st("out", *n);
                    self.prod += n;
                    self.pc.set(self.pc.get() + 1);
                    return Err(Interrupt::Io(Io::Output(b)));
                }
                Some(Item::Ev) => {
                    self.pc.set(self.pc.get() + 1);
                    st("ev", self.pc.get());
                    return Ok(self.pc.get());
                }
                Some(Item::Err) => {
                    self.pc.set(self.pc.get() + 1);
                    st("err", self.pc.get());
                    return Err(Interrupt::Error(self.pc.get()));
                }
            }
        }
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

#[derive(Clone)]
pub struct Script {
    pub mode: String, // plain, c13, s13, c12, s12
    pub hand: usize,
    pub placed: usize,
    pub items: Vec<Item>,
    pub read_step: usize,
    pub write_step: usize,
}

/// One step of a schedule and what it may be answered with.
pub type Step = (String, Option<Value>);

pub struct Outcome {
    pub map: Map<String, Value>,
    /// Something the specification does not foresee at all.
    pub bad: Option<usize>,
}

struct Env {
    wire: Wire,
    peer: Rc<RefCell<Peer>>,
    sent: usize,
    got: usize,
    rest: Vec<u8>, // second part of a chunk
    partial: usize,
    log: Log,
    over: bool,
}
impl Env {
    fn observe(&mut self) {
        let raw = self.wire.take_output();
        if raw.is_empty() {
            return;
        }
        match self.peer.borrow_mut().unwrap(&raw) {
            Ok((data, back)) => {
                if !data.is_empty() {
                    let same = (0..data.len()).all(|i| data[i] == content(1, self.got + i));
                    self.got += data.len();
                    self.log.push(json!({"a": "got", "n": data.len(), "same": same}));
                }
                if !back.is_empty() && !self.over {
                    self.wire.arrive(&back);
                }
            }
            // Not a TLS stream any more
            Err(_) => self.log.push(json!({"a": "got", "n": 0, "same": false})),
        }
    }
    /// An action of the transport or the peer.
    fn act(&mut self, name: &str) {
        let k = &name[1..];
        match &name[..1] {
            "o" => self.wire.add_room(k.parse().unwrap()),
            "O" => self.wire.add_room(usize::MAX),
            "w" | "a" => {
                let n: usize = k.parse().unwrap();
                let mut raw = self.peer.borrow_mut().wrap(&bytes(2, self.sent, n));
                if &name[..1] == "a" {
                    self.rest = raw.split_off(raw.len() / 2);
                    self.partial = n;
                    self.log.push(json!({"a": "part", "n": n}));
                } else {
                    self.sent += n;
                    self.log.push(json!({"a": "send", "n": n}));
                }
                self.wire.arrive(&raw);
            }
            "b" => {
                let raw = std::mem::take(&mut self.rest);
                self.sent += self.partial;
                self.log.push(json!({"a": "send", "n": self.partial}));
                self.wire.arrive(&raw);
            }
            "s" => {
                self.over = true;
                self.log.push(json!({"a": "stop", "how": k}));
                match k {
                    "notify" => {
                        let raw = self.peer.borrow_mut().close_notify();
                        self.wire.arrive(&raw);
                    }
                    "half" => self.wire.stop(Stop::Half),
                    "gone" => self.wire.stop(Stop::Gone),
                    _ => self.wire.stop(Stop::Reset),
                }
            }
            x => panic!("{x}"),
        }
    }
    fn ret(&mut self, o: &str, n: usize, spin: bool) -> (String, usize) {
        self.observe();
        let p = self.wire.lock();
        let (unread, room) = (p.input.len(), p.room.min(1_000_000_000));
        drop(p);
        self.log.push(json!({"a": "ret", "o": o, "n": n, "early": false, "spin": spin, "unread": unread, "room": room}));
        (o.to_string(), n)
    }
}

pub fn run(s: &Script, steps: &[Step], close: bool, log: Log) -> Outcome {
    let mut map = Map::new();
    map.insert("mode".into(), json!(s.mode));
    map.insert("hand".into(), json!(s.hand));
    map.insert("placed".into(), json!(s.placed));
    map.insert("script".into(), items_json(&s.items));
    map.insert("exact".into(), json!(true));
    map.insert("schedule".into(), json!(steps.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(" ")));
    let wire = Wire::new();
    let (mut stream, peer) = if s.mode == "plain" {
        (Stream::insecure(wire.stream()), Peer::Plain)
    } else {
        let (t, p) = establish(&s.mode[..1], &s.mode[1..] == "12", &wire, &bytes(2, 0, s.hand), &bytes(1, 0, s.placed));
        (Stream::tls(t), p)
    };
    {
        let mut p = wire.lock();
        p.room = 0;
        p.read_step = s.read_step;
        p.write_step = s.write_step;
    }
    let mut env = Env {
        wire: wire.clone(),
        peer: Rc::new(RefCell::new(peer)),
        sent: s.hand,
        got: 0,
        rest: vec![],
        partial: 0,
        log: log.clone(),
        over: false,
    };
    let pc = Rc::new(Cell::new(0));
    let mut mock = Mock { script: s.items.clone(), pc: pc.clone(), given: 0, prod: s.placed, log: log.clone() };
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = Waker::from(flag.clone());
    let mut bad = None;
    let mut follows = true; // still on the predicted path?
    let mut whole = false;
    let mut all: Vec<Step> = steps.iter().map(|x| (x.0.split('~').next().unwrap().to_string(), x.1.clone())).collect();
    if close {
        // Let everything through and see that all of it arrives.
        all.extend([("O".to_string(), None), ("d".to_string(), None)]);
        for _ in 0..s.items.len() + 1 {
            all.push(("n".to_string(), None));
        }
        all.extend([("d".to_string(), None), ("f".to_string(), None)]);
        whole = !all.iter().any(|x| x.0.starts_with('s'));
    }
    let mut i = 0;
    while i < all.len() {
        let name = all[i].0.clone();
        let c = match &name[..1] {
            "n" => "next",
            "f" => "flush",
            "p" | "d" => {
                i += 1;
                continue;
            }
            _ => {
                env.act(&name);
                i += 1;
                continue;
            }
        };
        log.push(json!({"a": "call", "c": c}));
        let mut fut: Pin<Box<dyn Future<Output = (&'static str, usize)> + '_>> = if c == "next" {
            let (stream, mock) = (&mut stream, &mut mock);
            Box::pin(async move {
                match stream.next(mock).await {
                    Ok(n) => ("ev", n),
                    Err(Error::State(n)) => ("err", n),
                    Err(Error::Closed) => ("closed", 0),
                    Err(Error::Io(_)) => ("io", 0),
                    Err(Error::Tls(_)) => ("tls", 0),
                }
            })
        } else {
            let stream = &mut stream;
            Box::pin(async move {
                match stream.flush().await {
                    Ok(()) => ("ok", 0),
                    Err(Error::Closed) => ("closed", 0),
                    Err(Error::Io(_)) => ("io", 0),
                    Err(_) => ("tls", 0),
                }
            })
        };
        flag.0.store(true, Ordering::SeqCst);
        let mut at = i;
        loop {
            // Poll until nothing moves.
            let mut polls = 0;
            let mut res = None;
            let mut spin = false;
            while flag.0.swap(false, Ordering::SeqCst) {
                polls += 1;
                if polls > 20_000 {
                    spin = true;
                    break;
                }
                if let Poll::Ready(r) = fut.as_mut().poll(&mut Context::from_waker(&waker)) {
                    res = Some(r);
                    break;
                }
            }
            let obs = match res {
                Some((o, n)) => env.ret(o, n, false),
                None => env.ret("pending", 0, spin),
            };
            if follows {
                match &all[at].1 {
                    Some(exp) => {
                        let ok = exp["all"].as_array().is_some_and(|l| l.iter().any(|x| x["o"] == obs.0 && x["n"] == obs.1));
                        if !ok {
                            bad.get_or_insert(at);
                        }
                        // The same place in the script? (apart from demands already met)
                        let mut at = pc.get();
                        while matches!(s.items.get(at), Some(Item::Need(n)) if *n <= env.sent) {
                            at += 1;
                        }
                        if exp["o"] != obs.0 || exp["n"] != obs.1 || exp["pc"] != at + 1 {
                            follows = false;
                        }
                    }
                    None => follows = false,
                }
            }
            i += 1;
            if obs.0 != "pending" || spin {
                if spin {
                    i = all.len();
                }
                break;
            }
            // What happens while the call is pending.
            let mut end = true;
            while i < all.len() {
                let name = all[i].0.clone();
                match &name[..1] {
                    "d" => {
                        log.push(json!({"a": "drop"}));
                        i += 1;
                        break;
                    }
                    "p" | "n" | "f" => {
                        log.push(json!({"a": "poll"}));
                        at = i;
                        end = false;
                        break;
                    }
                    _ => {
                        env.act(&name);
                        i += 1;
                    }
                }
            }
            if end {
                break;
            }
        }
        drop(fut);
    }
    map.insert("whole".into(), json!(whole && pc.get() == s.items.len()));
    Outcome { map, bad }
}
