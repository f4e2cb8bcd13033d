//! Schedules from the model checker, run against the real code.
//!
//! The model prints every transition: its path, the predicted answer and the fingerprints of the
//! state it leads to. A schedule is a path continued by a walk through the printed state graph,
//! so every transition is taken and what follows it is looked at too. Each answer is compared
//! with the predicted one; runs that differ are written as traces for TraceFlow to judge.
use rand::{rngs::StdRng, seq::SliceRandom, SeedableRng};
use serde_json::Value;
use std::{collections::HashMap, io::BufRead};

pub struct Graph {
    /// state -> its transitions (action, answer, next state)
    succ: Vec<Vec<(String, Value, usize)>>,
    /// path -> (answer, state)
    pub paths: HashMap<String, (Value, usize)>,
}
pub struct Transitions {
    pub by: HashMap<usize, Graph>,
    pub count: usize,
}
/// `@@{"s":script,"p":path,"o":answer,"f":state,"g":the same}` lines in TLC's output.
pub fn load(file: &str) -> Transitions {
    let f = std::io::BufReader::new(std::fs::File::open(file).unwrap());
    let mut raw: HashMap<usize, Vec<(String, Value, (i64, i64))>> = HashMap::new();
    let mut count = 0;
    for line in f.lines() {
        let Ok(line) = line else { continue };
        if !line.starts_with("\"@@") {
            continue;
        }
        let Ok(inner) = serde_json::from_str::<String>(&line) else { continue };
        let Ok(mut v) = serde_json::from_str::<Value>(&inner[2..]) else { continue };
        let s = v["s"].as_u64().unwrap() as usize;
        raw.entry(s).or_default().push((v["p"].as_str().unwrap().to_string(), v["o"].take(), (v["f"].as_i64().unwrap(), v["g"].as_i64().unwrap())));
        count += 1;
    }
    let mut by = HashMap::new();
    for (s, l) in raw {
        let mut ids: HashMap<(i64, i64), usize> = HashMap::new();
        let mut paths: HashMap<String, (Value, usize)> = HashMap::new();
        for (p, o, f) in &l {
            let n = ids.len();
            let id = *ids.entry(*f).or_insert(n);
            paths.insert(p.clone(), (o.clone(), id));
        }
        let mut succ = vec![vec![]; ids.len()];
        for (p, o, f) in l {
            let k = p.rfind(' ').unwrap();
            if let Some((_, from)) = paths.get(&p[..k]) {
                succ[*from].push((p[k + 1..].to_string(), o, ids[&f]));
            }
        }
        by.insert(s, Graph { succ, paths });
    }
    Transitions { by, count }
}
impl Graph {
    /// Paths that are not the beginning of another one.
    pub fn leaves(&self) -> Vec<String> {
        let mut inner: std::collections::HashSet<&str> = Default::default();
        for p in self.paths.keys() {
            inner.insert(&p[..p.rfind(' ').unwrap()]);
        }
        let mut l: Vec<String> = self.paths.keys().filter(|p| !inner.contains(p.as_str())).cloned().collect();
        l.sort();
        l
    }
    /// The path, followed by up to `more` further steps, with the predicted answers.
    pub fn schedule(&self, path: &str, more: usize) -> Vec<(String, Option<Value>)> {
        let mut out = Vec::new();
        let mut pre = String::new();
        let mut at = None;
        for a in path.split_whitespace() {
            pre.push(' ');
            pre.push_str(a);
            let x = self.paths.get(&pre);
            at = x.map(|x| x.1);
            out.push((a.to_string(), x.map(|x| x.0.clone())));
        }
        let h = path.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
        let mut r = StdRng::seed_from_u64(h);
        for _ in 0..more {
            let Some(s) = at else { break };
            // Prefer progress over further calls.
            let l = &self.succ[s];
            let Ok((a, o, t)) = l.choose_weighted(&mut r, |x| match x.0.as_bytes()[0] {
                b'n' => 8,
                b'f' => 2,
                _ => 3,
            }) else {
                break;
            };
            out.push((a.clone(), Some(o.clone())));
            at = Some(*t);
        }
        out
    }
}
/// Does the logged call agree with the prediction?
pub fn agrees(entry: &Value, exp: &Value) -> bool {
    let o = &entry["obs"];
    match entry["a"].as_str().unwrap() {
        "next" => o == exp,
        _ => {
            if o["o"] != "none" {
                return false;
            }
            match exp["e"].as_str().unwrap_or("") {
                "accepted" => entry["ok"] == true && (exp["h"] == entry["h"] || exp["h"] == 0),
                "refused" => entry["ok"] == false,
                _ => true,
            }
        }
    }
}
