//! Runs schedules of MCIdsThreads on the real handle.rs: each atomic operation is a step.
#![allow(dead_code)]
use serde_json::{json, Value};
use std::{
    cell::Cell,
    io::BufRead,
    sync::{Arc, Condvar, Mutex},
    time::Duration,
};

pub mod shim_std {
    pub use ::std::*;
    pub mod sync {
        pub use ::std::sync::*;
        use ::std::sync as real;
        /// Taking a lock is a step; whoever finds it taken tries again at its next turn.
        #[derive(Debug, Default)]
        pub struct Mutex<T: ?Sized>(real::Mutex<T>);
        impl<T> Mutex<T> {
            pub const fn new(t: T) -> Self { Self(real::Mutex::new(t)) }
            pub fn into_inner(self) -> LockResult<T> { self.0.into_inner() }
        }
        impl<T: ?Sized> Mutex<T> {
            pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
                crate::step();
                while crate::scheduled() {
                    match self.0.try_lock() {
                        Err(TryLockError::WouldBlock) => crate::step(),
                        Err(TryLockError::Poisoned(e)) => return Err(e),
                        Ok(g) => return Ok(g),
                    }
                }
                self.0.lock()
            }
            pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> { crate::step(); self.0.try_lock() }
            pub fn get_mut(&mut self) -> LockResult<&mut T> { self.0.get_mut() }
        }
        #[derive(Debug, Default)]
        pub struct RwLock<T: ?Sized>(real::RwLock<T>);
        impl<T> RwLock<T> {
            pub const fn new(t: T) -> Self { Self(real::RwLock::new(t)) }
            pub fn into_inner(self) -> LockResult<T> { self.0.into_inner() }
        }
        impl<T: ?Sized> RwLock<T> {
            pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
                crate::step();
                while crate::scheduled() {
                    match self.0.try_read() {
                        Err(TryLockError::WouldBlock) => crate::step(),
                        Err(TryLockError::Poisoned(e)) => return Err(e),
                        Ok(g) => return Ok(g),
                    }
                }
                self.0.read()
            }
            pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
                crate::step();
                while crate::scheduled() {
                    match self.0.try_write() {
                        Err(TryLockError::WouldBlock) => crate::step(),
                        Err(TryLockError::Poisoned(e)) => return Err(e),
                        Ok(g) => return Ok(g),
                    }
                }
                self.0.write()
            }
            pub fn get_mut(&mut self) -> LockResult<&mut T> { self.0.get_mut() }
        }
        pub mod atomic {
            pub use ::std::sync::atomic::*;
            use ::std::sync::atomic as real;
            macro_rules! shim {
                ($name:ident, $t:ty, $($arith:tt)*) => {
                    #[derive(Debug, Default)]
                    pub struct $name(real::$name);
                    #[allow(dead_code)]
                    impl $name {
                        pub const fn new(v: $t) -> Self { Self(real::$name::new(v)) }
                        pub fn load(&self, o: Ordering) -> $t { crate::step(); self.0.load(o) }
                        pub fn store(&self, v: $t, o: Ordering) { crate::step(); self.0.store(v, o) }
                        pub fn swap(&self, v: $t, o: Ordering) -> $t { crate::step(); self.0.swap(v, o) }
                        pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { crate::step(); self.0.compare_exchange(a, b, o, p) }
                        pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { crate::step(); if crate::spurious() { return Err(self.0.load(p)); } self.0.compare_exchange(a, b, o, p) }
                        pub fn try_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> { crate::step(); self.0.try_update(o, p, f) }
                        pub fn update<F: FnMut($t) -> $t>(&self, o: Ordering, p: Ordering, f: F) -> $t { crate::step(); self.0.update(o, p, f) }
                        pub fn as_ptr(&self) -> *mut $t { self.0.as_ptr() }
                        pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> { crate::step(); self.0.fetch_update(o, p, f) }
                        pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                        pub fn into_inner(self) -> $t { self.0.into_inner() }
                        $($arith)*
                    }
                };
            }
            macro_rules! int {
                ($name:ident, $t:ty) => {
                    shim!($name, $t,
                        pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { crate::step(); self.0.fetch_add(v, o) }
                        pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { crate::step(); self.0.fetch_sub(v, o) }
                        pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { crate::step(); self.0.fetch_max(v, o) }
                        pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { crate::step(); self.0.fetch_min(v, o) }
                        pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { crate::step(); self.0.fetch_or(v, o) }
                        pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { crate::step(); self.0.fetch_and(v, o) }
                        pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { crate::step(); self.0.fetch_xor(v, o) }
                    );
                };
            }
            int!(AtomicU64, u64);
            int!(AtomicUsize, usize);
            int!(AtomicU32, u32);
            int!(AtomicU16, u16);
            int!(AtomicU8, u8);
            int!(AtomicI64, i64);
            int!(AtomicIsize, isize);
            int!(AtomicI32, i32);
            shim!(AtomicBool, bool,
                pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { crate::step(); self.0.fetch_or(v, o) }
                pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { crate::step(); self.0.fetch_and(v, o) }
                pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { crate::step(); self.0.fetch_xor(v, o) }
            );
        }
    }
}

mod handle {
    include!(concat!(env!("OUT_DIR"), "/handle.rs"));
}
use handle::{Handle, HandleGeneratorGenerator, RawHandle};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct H(RawHandle);
impl Handle for H {
    fn from_raw(r: RawHandle) -> Self {
        H(r)
    }
}

/// Whose turn it is: one thread runs at a time, up to its next atomic operation.
struct Turn {
    who: Mutex<(usize, Vec<bool>, u64)>, // running thread (0: the scheduler), finished, step count
    cv: Condvar,
}
thread_local! {
    static ME: Cell<Option<(&'static Turn, usize)>> = const { Cell::new(None) };
}
pub fn scheduled() -> bool {
    ME.get().is_some()
}
/// Every now and then a weak exchange fails for no reason.
fn spurious() -> bool {
    static N: ::std::sync::atomic::AtomicU64 = ::std::sync::atomic::AtomicU64::new(1);
    scheduled() && N.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst) % 5 == 0
}
/// How often a thread was blocked by something that isn't a step.
static STUCK: ::std::sync::atomic::AtomicU64 = ::std::sync::atomic::AtomicU64::new(0);
const PATIENCE: u64 = 300;
pub fn step() {
    let Some((t, me)) = ME.get() else { return };
    let mut g = t.who.lock().unwrap();
    if g.0 == me {
        g.0 = 0;
    }
    g.2 += 1;
    t.cv.notify_all();
    while g.0 != me {
        g = t.cv.wait(g).unwrap();
    }
}
impl Turn {
    /// Lets `t` run up to its next atomic operation.
    fn grant(&self, t: usize) {
        let mut g = self.who.lock().unwrap();
        if g.1[t] {
            return;
        }
        g.0 = t;
        self.cv.notify_all();
        // A thread that is blocked otherwise gives the turn back after a while.
        let (g2, to) = self.cv.wait_timeout_while(g, Duration::from_millis(200), |g| g.0 == t && !g.1[t]).unwrap();
        if to.timed_out() {
            STUCK.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst);
            let mut g2 = g2;
            g2.0 = 0;
        }
    }
}

type Work = (std::sync::mpsc::Sender<(usize, &'static Turn, Arc<HandleGeneratorGenerator<H>>)>, std::sync::mpsc::Receiver<Vec<H>>);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let every: usize = a[3].parse().unwrap();
    let gens: usize = a[4].parse().unwrap();
    let f = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let schedules: Vec<String> = f
        .lines()
        .map_while(Result::ok)
        .filter(|l| l.starts_with("\"@@"))
        .map(|l| {
            let s: String = serde_json::from_str(&l).unwrap();
            let v: Value = serde_json::from_str(&s[2..]).unwrap();
            v["p"].as_str().unwrap().to_string()
        })
        .step_by(every)
        .collect();
    let n = schedules.iter().map(|s| s.bytes().max().unwrap() - b'0').max().unwrap_or(0) as usize;
    let pools = 8;
    let bad: Mutex<Vec<Value>> = Mutex::new(vec![]);
    let steps: Mutex<u64> = Mutex::new(0);
    let run: Mutex<u64> = Mutex::new(0);
    std::thread::scope(|sc| {
        for p in 0..pools {
            let (schedules, bad, steps, run) = (&schedules, &bad, &steps, &run);
            sc.spawn(move || {
                let workers: Vec<Work> = (1..=n)
                    .map(|_| {
                        let (tx, rx) = std::sync::mpsc::channel::<(usize, &'static Turn, Arc<HandleGeneratorGenerator<H>>)>();
                        let (tx2, rx2) = std::sync::mpsc::channel();
                        std::thread::spawn(move || {
                            while let Ok((me, turn, g)) = rx.recv() {
                                ME.set(Some((turn, me)));
                                step();
                                let mut ids = vec![];
                                for k in 0..gens {
                                    let mut x = g.generate();
                                    for _ in 0..=k % 2 {
                                        ids.push(x.generate());
                                    }
                                    if k + 1 == gens {
                                        drop(x);
                                    }
                                }
                                ME.set(None);
                                let mut w = turn.who.lock().unwrap();
                                w.1[me] = true;
                                if w.0 == me {
                                    w.0 = 0;
                                }
                                turn.cv.notify_all();
                                drop(w);
                                let _ = tx2.send(ids);
                            }
                        });
                        (tx, rx2)
                    })
                    .collect();
                for (i, s) in schedules.iter().enumerate().filter(|x| x.0 % pools == p) {
                    if STUCK.load(::std::sync::atomic::Ordering::SeqCst) > PATIENCE {
                        return;
                    }
                    *run.lock().unwrap() += 1;
                    let turn: &'static Turn = Box::leak(Box::new(Turn { who: Mutex::new((0, vec![false; n + 1], 0)), cv: Condvar::new() }));
                    let g = Arc::new(HandleGeneratorGenerator::<H>::new());
                    let used: usize = s.bytes().map(|b| b - b'0').max().unwrap() as usize;
                    for t in 1..=used {
                        workers[t - 1].0.send((t, turn, g.clone())).unwrap();
                    }
                    // All have arrived at their first step.
                    let mut w = turn.who.lock().unwrap();
                    while w.2 < used as u64 {
                        w = turn.cv.wait(w).unwrap();
                    }
                    drop(w);
                    for b in s.bytes() {
                        turn.grant((b - b'0') as usize);
                    }
                    // Whoever is left finishes, one after the other.
                    for _ in 0..10_000 {
                        let left: Vec<usize> = (1..=used).filter(|t| !turn.who.lock().unwrap().1[*t]).collect();
                        if left.is_empty() {
                            break;
                        }
                        for t in left {
                            turn.grant(t);
                        }
                    }
                    let mut all = vec![];
                    for t in 1..=used {
                        match workers[t - 1].1.recv_timeout(Duration::from_secs(20)) {
                            Ok(v) => all.extend(v.into_iter().map(|x| (t, x))),
                            Err(_) => {
                                bad.lock().unwrap().push(json!({"blame": ["H01", "H02"], "kind": "handle", "text": format!("schedule {s}: thread {t} does not finish"), "schedule": s}));
                                return;
                            }
                        }
                    }
                    *steps.lock().unwrap() += turn.who.lock().unwrap().2;
                    for x in 0..all.len() {
                        for y in 0..x {
                            if all[x].1 == all[y].1 {
                                let mut b = bad.lock().unwrap();
                                if b.len() < 20 {
                                    b.push(json!({"blame": ["H02"], "kind": "handle", "schedule": s, "text": format!(
                                        "schedule {s} (#{i}): handle {x} (thread {}) equals handle {y} (thread {}) of another connection", all[x].0, all[y].0)}));
                                }
                            }
                        }
                    }
                }
            });
        }
    });
    let bad = bad.into_inner().unwrap();
    let st = json!({"schedules": *run.lock().unwrap(), "printed": schedules.len(), "stuck": STUCK.load(::std::sync::atomic::Ordering::SeqCst), "atomic_steps": *steps.lock().unwrap()});
    std::fs::write(&a[2], serde_json::to_vec(&json!({"traces": [], "bad": bad, "stats": [st]})).unwrap()).unwrap();
    std::process::exit(0);
}
