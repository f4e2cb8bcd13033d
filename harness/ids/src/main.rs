//! /repo/src/handle.rs itself, compiled in.
#![allow(dead_code)]
mod common;
#[path = "/repo/src/handle.rs"]
mod handle;

use common::Source;
use handle::{Handle, HandleGenerator, HandleGeneratorGenerator, RawHandle};
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct H(RawHandle);
impl Handle for H {
    fn from_raw(r: RawHandle) -> Self {
        H(r)
    }
}
static GENERATORS: HandleGeneratorGenerator<H> = HandleGeneratorGenerator::new();

thread_local!(static PUT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });

/// The word (offset, size in bytes) of `x` that goes up by one with each `f`, if there is exactly one.
/// Its value is small, or near the one put there last.
fn counter<T>(x: &mut T, mut f: impl FnMut(&mut T)) -> Option<(usize, usize)> {
    let size = std::mem::size_of::<T>();
    for w in [8usize, 4] {
        if size % w != 0 || std::mem::align_of::<T>() < w {
            continue;
        }
        // Volatile: the words may be anything.
        let read = |x: &T| -> Vec<u64> { (0..size / w).map(|i| get(x, (i * w, w))).collect() };
        let a = read(x);
        f(x);
        let b = read(x);
        f(x);
        f(x);
        let c = read(x);
        let ch: Vec<usize> = (0..size / w).filter(|i| a[*i] != b[*i] || b[*i] != c[*i]).collect();
        if let [i] = ch[..] {
            if b[i] == a[i].wrapping_add(1) && c[i] == b[i].wrapping_add(2) && (a[i] < 1 << 20 || a[i].wrapping_sub(PUT.get()) < 64 || w == 4 && (a[i] as u32).wrapping_sub(PUT.get() as u32) < 64) {
                return Some((i * w, w));
            }
        }
    }
    None
}
fn get<T>(x: &T, (at, w): (usize, usize)) -> u64 {
    unsafe {
        let p = (x as *const T as *const u8).add(at);
        if w == 8 { std::ptr::read_volatile(p as *const u64) } else { std::ptr::read_volatile(p as *const u32) as u64 }
    }
}
/// Puts as much of `v` as fits: a narrow counter is where it would have come to.
fn put<T>(x: &mut T, (at, w): (usize, usize), v: u64) {
    PUT.set(v);
    unsafe {
        let p = (x as *mut T as *mut u8).add(at);
        if w == 8 { std::ptr::write_volatile(p as *mut u64, v) } else { std::ptr::write_volatile(p as *mut u32, v as u32) }
    }
}

struct Handles;
impl Source for Handles {
    const KIND: &'static str = "handle";
    type Conn = HandleGenerator<H>;
    type Id = H;
    fn conn(&self) -> Self::Conn {
        GENERATORS.generate()
    }
    fn id(&self, c: &mut Self::Conn) -> H {
        c.generate()
    }
    fn skip(&self, c: &mut Self::Conn, n: u64) -> bool {
        let Some(i) = counter(c, |c| {
            c.generate();
        }) else {
            return false;
        };
        put(c, i, n);
        true
    }
}

/// Like Handles, but with many generators from one source advanced far.
fn far_generators(bad: &mut Vec<Value>) -> u64 {
    let mut g = HandleGeneratorGenerator::<H>::new();
    let mut ids: Vec<(u64, u64, H)> = vec![];
    let mut take = |g: &HandleGeneratorGenerator<H>, k: u64| {
        let mut x = g.generate();
        for j in 0..600 {
            let id = x.generate();
            if j < 4 || (254..259).contains(&j) {
                ids.push((k, j, id));
            }
        }
    };
    for k in 0..4 {
        take(&g, k);
    }
    let Some(i) = counter(&mut g, |g| drop(g.generate())) else { return 0 };
    for to in common::marks() {
        put(&mut g, i, to);
        for k in 0..5 {
            take(&g, to + k);
        }
    }
    for a in 0..ids.len() {
        for b in 0..a {
            if ids[a].2 == ids[b].2 && bad.len() < 20 {
                let bl = if ids[a].0 == ids[b].0 { "H01" } else { "H02" };
                bad.push(json!({"blame": [bl], "kind": "handle", "far": true, "text": format!(
                    "handle: identity {} of connection {} equals identity {} of connection {} (connections advanced)", ids[a].1, ids[a].0, ids[b].1, ids[b].0)}));
            }
        }
    }
    ids.len() as u64
}

/// Counts to `n`, comparing with the first handles of some connections.
fn count(n: u64, bad: &mut Vec<Value>) -> u64 {
    let g = HandleGeneratorGenerator::<H>::new();
    let mut c = g.generate();
    let first: Vec<H> = (0..6).map(|_| c.generate()).collect();
    let others: Vec<H> = (0..70_000).map(|_| g.generate().generate()).filter(|_| true).collect();
    let mut k = first.len() as u64;
    let mut next = 2u64;
    while k < n {
        let h = c.generate();
        let mut hit = None;
        if first.contains(&h) {
            hit = Some((0, "H01"));
        }
        // Around powers of two, with the other connections too.
        if k + 2 >= next {
            if let Some(i) = others.iter().position(|x| *x == h) {
                hit = Some((i + 1, "H02"));
            }
            if k > next + 2 {
                next *= 2;
            }
        }
        if let Some((i, b)) = hit {
            bad.push(json!({"blame": [b], "kind": "handle", "text": format!("handle: identity {k} of connection 0 equals an early identity of connection {i}")}));
            break;
        }
        k += 1;
    }
    k
}

/// A hasher that costs next to nothing.
struct Mix(u64);
impl std::hash::Hasher for Mix {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0; 8];
            w[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_ne_bytes(w));
        }
    }
    fn write_u64(&mut self, w: u64) {
        self.0 = (self.0 ^ w).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    }
}

/// Millions of connections on each of several threads, some of which start when others are over:
/// identities that look the same to a hasher are compared.
fn millions(per: usize, bad: &mut Vec<Value>) -> u64 {
    use std::hash::{Hash, Hasher};
    let g = HandleGeneratorGenerator::<H>::new();
    let all: std::sync::Mutex<Vec<(u64, usize, H)>> = Default::default();
    let now = std::time::Instant::now();
    for wave in 0..2 {
        std::thread::scope(|sc| {
            for t in 0..4 {
                let (g, all) = (&g, &all);
                sc.spawn(move || {
                    let mut v = Vec::with_capacity(per);
                    for i in 0..per {
                        let id = g.generate().generate();
                        let mut m = Mix(0);
                        id.hash(&mut m);
                        v.push((m.finish(), (wave * 4 + t) * per + i, id));
                        if i % 4096 == 0 && now.elapsed().as_secs() > 20 {
                            break;
                        }
                    }
                    all.lock().unwrap().extend(v);
                });
            }
        });
    }
    let mut l = all.into_inner().unwrap();
    l.sort_unstable_by_key(|x| (x.0, x.1));
    for i in 1..l.len() {
        for j in (0..i).rev().take(8) {
            if l[j].0 != l[i].0 {
                break;
            }
            if l[j].2 == l[i].2 && bad.len() < 20 {
                bad.push(json!({"blame": ["H02"], "kind": "handle", "text": format!("handle: identity 0 of connection {} equals identity 0 of connection {} (connections of thread {} and {})",
                    l[i].1 % per, l[j].1 % per, l[i].1 / per, l[j].1 / per)}));
            }
        }
    }
    l.len() as u64
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (tlc, out, scale, seed, far): (_, _, u64, u64, u64) = (&a[1], &a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    let (mut traces, mut bad) = (vec![], vec![]);
    let mut st = common::all(&Handles, tlc, scale, seed, &mut traces, &mut bad);
    let f = far_generators(&mut bad);
    let m = if bad.is_empty() { millions((1 << 20) + 5000, &mut bad) } else { 0 };
    st["connections"] = json!(m);
    let n = if bad.is_empty() { count(far, &mut bad) } else { 0 };
    st["counted"] = json!(n);
    st["far"] = json!(f);
    std::fs::write(out, serde_json::to_vec(&json!({"traces": traces, "bad": bad, "stats": [st]})).unwrap()).unwrap();
}
