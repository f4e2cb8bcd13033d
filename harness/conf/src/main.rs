//! Documents of the model written as files and loaded by /repo/proxy/src/config.rs itself.
#![allow(dead_code)]
#[path = "/repo/proxy/src/config.rs"]
mod config;

use config::{Bind, Config, Connect, Identity};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use std::{
    fmt::Write as _,
    io::BufRead,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Mutex,
    },
};

// ---------------------------------------------------------------------------------------------
// Writing documents

const STYLES: usize = 6;

fn string(s: &str, style: usize) -> String {
    let plain = s.chars().all(|c| !c.is_control() && c != '\'');
    match style {
        1 | 4 if plain => format!("'{s}'"),
        5 if plain && !s.contains('"') && !s.contains('\\') => format!("\"\"\"{s}\"\"\""),
        _ => {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    '\t' => o.push_str("\\t"),
                    c if c.is_control() || (style == 2 && !c.is_ascii()) => write!(o, "\\U{:08X}", c as u32).unwrap(),
                    c => o.push(c),
                }
            }
            o + "\""
        }
    }
}
fn port(p: u64, style: usize) -> String {
    match style {
        1 => format!("0x{p:X}"),
        2 if p >= 1000 => format!("{}_{:03}", p / 1000, p % 1000),
        3 => format!("0o{p:o}"),
        4 => format!("+{p}"),
        _ => p.to_string(),
    }
}
fn value(v: &Value, style: usize) -> Option<String> {
    match v["t"].as_str().unwrap() {
        "none" => None,
        "str" => Some(string(v["v"].as_str().unwrap(), style)),
        "port" => Some(port(v["n"].as_u64().unwrap(), style)),
        _ => Some(v["v"].as_str().unwrap().to_string()),
    }
}
type Pairs = Vec<(String, String)>;
fn identity(i: &Value, style: usize) -> Option<Result<Pairs, String>> {
    match i["t"].as_str().unwrap() {
        "none" => None,
        "other" => Some(Err(i["kind"]["v"].as_str().unwrap().to_string())),
        _ => {
            let mut v = vec![];
            for (k, f) in [("type", "kind"), ("certificate_chain_path", "cert"), ("leaf_key_path", "key")] {
                if let Some(x) = value(&i[f], style) {
                    v.push((k.to_string(), x));
                }
            }
            if style % 2 == 1 {
                v.reverse();
            }
            Some(Ok(v))
        }
    }
}
fn side(d: &Value, style: usize) -> Pairs {
    let mut v = vec![];
    for (k, f) in [("encryption", "enc"), ("host", "host"), ("port", "port")] {
        if let Some(x) = value(&d[f], style) {
            v.push((k.to_string(), x));
        }
    }
    if let (Some(k), Some(x)) = (d["extra"]["k"].as_str(), d["extra"]["v"].as_str()) {
        if !k.is_empty() {
            v.push((k.to_string(), x.to_string()));
        }
    }
    match style {
        1 => v.reverse(),
        2 if !v.is_empty() => v.rotate_left(1),
        _ => {}
    }
    v
}
fn inline(p: &Pairs) -> String {
    format!("{{ {} }}", p.iter().map(|(k, v)| format!("{k} = {v}")).collect::<Vec<_>>().join(", "))
}
fn side_inline(d: &Value, style: usize) -> String {
    let mut p = side(d, style);
    if let Some(i) = identity(&d["id"], style) {
        let x = ("identity".to_string(), match i {
            Ok(i) => inline(&i),
            Err(s) => s,
        });
        if style == 3 { p.insert(0, x) } else { p.push(x) }
    }
    inline(&p)
}
/// `how` replaces or leaves out a side: for documents that are broken as such.
fn service(s: &Value, style: usize, how: &str) -> String {
    let mut o = String::new();
    let name = value(&s["name"], style);
    let sides = if style == 4 { ["connect", "bind"] } else { ["bind", "connect"] };
    let skip = |n: &str| how == format!("no {n}");
    let junk = |n: &str| how == format!("{n} not a table");
    match style {
        // tables
        0 | 4 | 5 => {
            o.push_str(if style == 5 { "[[ services ]] # a comment\n" } else { "[[services]]\n" });
            if let Some(n) = &name {
                writeln!(o, "name = {n}").unwrap();
                if how == "duplicate key" {
                    writeln!(o, "name = {n}").unwrap();
                }
            }
            for n in sides {
                if junk(n) {
                    writeln!(o, "{n} = 'x'").unwrap();
                }
            }
            for n in sides {
                if skip(n) || junk(n) {
                    continue;
                }
                writeln!(o, "\n[services.{n}]").unwrap();
                for (k, v) in side(&s[n], style) {
                    writeln!(o, "{k} = {v}").unwrap();
                }
                match identity(&s[n]["id"], style) {
                    None => {}
                    Some(Err(x)) => writeln!(o, "identity = {x}").unwrap(),
                    Some(Ok(p)) if style == 4 => writeln!(o, "identity = {}", inline(&p)).unwrap(),
                    Some(Ok(p)) => {
                        writeln!(o, "\n  [services.{n}.identity]").unwrap();
                        for (k, v) in p {
                            writeln!(o, "  {k} = {v}").unwrap();
                        }
                    }
                }
            }
        }
        // dotted keys
        2 => {
            o.push_str("[[services]]\n");
            for n in sides {
                if skip(n) {
                    continue;
                }
                if junk(n) {
                    writeln!(o, "{n} = [1]").unwrap();
                    continue;
                }
                let p = side(&s[n], style);
                if p.is_empty() && s[n]["id"]["t"] == "none" {
                    writeln!(o, "{n} = {{}}").unwrap();
                }
                for (k, v) in p {
                    writeln!(o, "{n}.{k} = {v}").unwrap();
                }
                match identity(&s[n]["id"], style) {
                    None => {}
                    Some(Err(x)) => writeln!(o, "{n}.identity = {x}").unwrap(),
                    Some(Ok(p)) => {
                        if p.is_empty() {
                            writeln!(o, "{n}.identity = {{}}").unwrap();
                        }
                        for (k, v) in p {
                            writeln!(o, "{n}.identity.{k} = {v}").unwrap();
                        }
                    }
                }
            }
            if let Some(n) = &name {
                writeln!(o, "name = {n}").unwrap();
                if how == "duplicate key" {
                    writeln!(o, "'name' = {n}").unwrap();
                }
            }
        }
        // inline tables below [[services]] (1) or all inline (3)
        _ => {
            let mut p: Pairs = vec![];
            if let Some(n) = &name {
                p.push(("name".into(), n.clone()));
                if how == "duplicate key" {
                    p.push(("name".into(), n.clone()));
                }
            }
            for n in sides {
                if skip(n) {
                    continue;
                }
                p.push((n.into(), if junk(n) { "3".into() } else { side_inline(&s[n], style) }));
            }
            if style == 1 {
                p.reverse();
                o.push_str("[[services]]\n");
                for (k, v) in p {
                    writeln!(o, "{k}={v}").unwrap();
                }
            } else {
                o.push_str(&inline(&p));
            }
        }
    }
    o
}
fn document(doc: &Value, style: usize) -> Vec<u8> {
    let how = doc["syntax"].as_str().unwrap();
    let l = doc["services"].as_array().unwrap();
    let style = if l.is_empty() { 3 } else { style };
    let parts: Vec<String> = l.iter().enumerate().map(|(i, s)| service(s, style, if i + 1 == l.len() { how } else { "" })).collect();
    let mut t = if style == 3 { format!("services = [\n{}\n]\n", parts.join(",\n")) } else { parts.join("\n") };
    match how {
        "empty file" => return vec![],
        "no services" => t = "title = 'x'\n".into(),
        "services not a list" => t = "services = 3\n".into(),
        "services of strings" => t = "services = ['a', 'b']\n".into(),
        "truncated" => {
            t = format!("services = [\n{}\n]\n", l.iter().map(|s| service(s, 3, "")).collect::<Vec<_>>().join(",\n"));
            let n = t.trim_end().len() - 2;
            t.truncate(n);
        }
        "unclosed string" => t.push_str("\nx = \"abc\n"),
        "duplicate table" => t.push_str("\n[a]\n[a]\n"),
        "not utf-8" => {
            let mut b = b"# \xff\xfe\n".to_vec();
            b.extend(t.as_bytes());
            return b;
        }
        "no value" => t.push_str("\nx =\n"),
        "bare word" => t.push_str("\nhello\n"),
        "trailing garbage" => t.push_str("\n]]"),
        "nul byte" => t.push_str("\n\0\n"),
        "half a service" => {
            if style == 3 {
                t = t.trim_end().trim_end_matches(']').trim_end().to_string() + ", { name = 'x' } ]\n";
            } else {
                t.push_str("\n[[services]]\nname = 'x'\n");
            }
        }
        _ => {}
    }
    if style == 4 {
        t = t.replace('\n', "\r\n");
    }
    if style == 5 {
        t = format!("# Services\n\n{t}\n# end");
    }
    t.into_bytes()
}

// ---------------------------------------------------------------------------------------------
// Loading

fn shown(c: &Config) -> Vec<Value> {
    c.services
        .iter()
        .map(|s| {
            let (addr, url) = (s.bind.addr_port(), s.bind.to_string());
            let bind = match &s.bind {
                Bind::Insecure { host, port, .. } => json!({"enc": "Insecure", "host": host, "port": port, "cert": "", "key": "", "addr": addr, "url": url}),
                Bind::Tls { host, port, identity, .. } => {
                    let (cert, key) = match identity {
                        Identity::CertificateChainAndLeafKey { certificate_chain_path, leaf_key_path, .. } => (certificate_chain_path, leaf_key_path),
                    };
                    json!({"enc": "Tls", "host": host, "port": port, "cert": cert, "key": key, "addr": addr, "url": url})
                }
            };
            let (addr, url) = (s.connect.addr_port(), s.connect.to_string());
            let connect = match &s.connect {
                Connect::Insecure { host, port, .. } => json!({"enc": "Insecure", "host": host, "port": port, "cert": "", "key": "", "addr": addr, "url": url}),
                Connect::Tls { host, port, .. } => json!({"enc": "Tls", "host": host, "port": port, "cert": "", "key": "", "addr": addr, "url": url}),
            };
            json!({"name": s.name, "bind": bind, "connect": connect})
        })
        .collect()
}
fn load(dir: &Path, k: usize, how: &str, bytes: &[u8]) -> Value {
    let file = dir.join(["config.toml", "my config", "конфиг.toml", "c.conf"][k % 4]);
    let _ = std::fs::remove_file(&file);
    let path = match how {
        "missing file" => file.clone(),
        "directory" => dir.to_path_buf(),
        _ => {
            std::fs::write(&file, bytes).unwrap();
            file.clone()
        }
    };
    let r = catch_unwind(AssertUnwindSafe(|| match Config::load(&path) {
        Err(_) => json!({"ok": false, "panic": false, "services": [], "again": true}),
        Ok(c) => {
            let services = shown(&c);
            let mut again = true;
            for t in [toml::to_string(&c), toml::to_string_pretty(&c)] {
                match t {
                    Err(_) => again = false,
                    Ok(t) => {
                        std::fs::write(&file, t).unwrap();
                        match Config::load(&file) {
                            Ok(d) => again &= d == c && shown(&d) == services,
                            Err(_) => again = false,
                        }
                    }
                }
            }
            json!({"ok": true, "panic": false, "services": services, "again": again})
        }
    }));
    r.unwrap_or_else(|_| json!({"ok": false, "panic": true, "services": [], "again": true}))
}

// ---------------------------------------------------------------------------------------------

fn random(r: &mut StdRng, services: usize) -> Value {
    let word = |r: &mut StdRng| -> String {
        let n = if services < 10 && r.gen_ratio(1, 400) { 9000 } else { [0, 1, 5, 12, 40, 300][r.gen_range(0..if services < 10 { 6 } else { 4 })] };
        (0..n).map(|_| *['a', 'Z', '0', '.', '-', '_', ' ', '/', '"', '\'', '\\', '#', '=', '\n', '\t', 'é', '中', '[', ']', '{', '$', '%'].choose(r).unwrap()).collect()
    };
    let none = json!({"t": "none", "v": "", "n": 0});
    let s = |x: &str| json!({"t": "str", "v": x, "n": 0});
    let wild = if services < 10 { [0.0, 0.0, 0.05][r.gen_range(0..3)] } else { 0.0 };
    let l: Vec<Value> = (0..services)
        .map(|_| {
            let side = |r: &mut StdRng, listens: bool| {
                let enc = *["Tls", "Insecure"].choose(r).unwrap();
                let e = if r.gen_bool(wild) { s(*["tls", "", "Plain", "INSECURE"].choose(r).unwrap()) } else { s(enc) };
                let host = if r.gen_bool(wild) { none.clone() } else { s(&word(r)) };
                let port = if r.gen_bool(0.3) {
                    none.clone()
                } else if r.gen_bool(wild) {
                    json!({"t": "int", "v": r.gen_range(65536..10_000_000u64).to_string(), "n": 0})
                } else {
                    json!({"t": "port", "v": "", "n": if r.gen_bool(0.3) { [143, 993, 0, 65535, 1143, 2993][r.gen_range(0..6)] } else { r.gen_range(0..65536) }})
                };
                let id = if listens && enc == "Tls" && !r.gen_bool(wild) {
                    json!({"t": "table", "kind": s("CertificateChainAndLeafKey"), "cert": s(&word(r)), "key": s(&word(r))})
                } else {
                    json!({"t": "none", "kind": none, "cert": none, "key": none})
                };
                json!({"enc": e, "host": host, "port": port, "id": id})
            };
            let b = side(r, true);
            let c = side(r, false);
            json!({"name": s(&word(r)), "bind": b, "connect": c})
        })
        .collect();
    json!({"syntax": "", "services": l})
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (out, seed, every): (_, u64, usize) = (&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
    let scratch = PathBuf::from(&a[5]);
    std::panic::set_hook(Box::new(|_| {}));
    // (document, prediction if there is one, styles)
    let mut docs: Vec<(Value, Option<Value>)> = vec![];
    if let Some(n) = a[1].strip_prefix("random:") {
        let mut r = StdRng::seed_from_u64(seed);
        for _ in 0..n.parse().unwrap() {
            let n = match docs.len() {
                0 => 3000,
                1 => 1025,
                _ => r.gen_range(0..6),
            };
            docs.push((random(&mut r, n), None));
        }
    } else {
        for l in std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap()).lines() {
            let l = l.unwrap();
            if l.starts_with("\"@@") {
                let s: String = serde_json::from_str(&l).unwrap();
                let mut v: Value = serde_json::from_str(&s[2..]).unwrap();
                let mut out = v["out"].take();
                out["doubt"] = v["doubt"].take();
                docs.push((v["doc"].take(), Some(out)));
            }
        }
    }
    let next = AtomicUsize::new(0);
    let traces: Mutex<Vec<(usize, Value)>> = Mutex::new(vec![]);
    let count = AtomicUsize::new(0);
    let differ = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for t in 0..8 {
            let (docs, next, traces, scratch, count, differ) = (&docs, &next, &traces, &scratch, &count, &differ);
            sc.spawn(move || {
                let dir = scratch.join(format!("d{t}"));
                std::fs::create_dir_all(&dir).unwrap();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    let Some((doc, exp)) = docs.get(i) else { break };
                    let how = doc["syntax"].as_str().unwrap();
                    let styles: Vec<usize> = if every == 0 { vec![(i + seed as usize) % STYLES] } else { (0..STYLES).collect() };
                    for style in styles {
                        let bytes = document(doc, style);
                        let obs = load(&dir, i, how, &bytes);
                        count.fetch_add(1, Ordering::SeqCst);
                        let differs = exp.as_ref().map_or(true, |e| obs["panic"] == true || obs["again"] != true || !(e["doubt"] == true && obs["ok"] == false) && (obs["ok"] != e["ok"] || (obs["ok"] == true && obs["services"] != e["services"])));
                        if differs {
                            differ.fetch_add(1, Ordering::SeqCst);
                        }
                        let mut g = traces.lock().unwrap();
                        if differs && g.len() < 6000 || i % 331 == 17 && style == i % STYLES {
                            g.push((i, json!({"name": format!("document {i} style {style}: {}", String::from_utf8_lossy(&bytes[..bytes.len().min(600)])), "doc": doc, "obs": obs})));
                        }
                    }
                }
            });
        }
    });
    let mut t = traces.into_inner().unwrap();
    t.sort_by_key(|x| x.0);
    let t: Vec<Value> = t.into_iter().map(|x| x.1).collect();
    println!("{}", json!({"documents": docs.len(), "loads": count.load(Ordering::SeqCst), "differ": differ.load(Ordering::SeqCst), "recorded": t.len()}));
    std::fs::write(out, serde_json::to_vec(&t).unwrap()).unwrap();
}
