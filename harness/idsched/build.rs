//! /repo/src/handle.rs with its atomics replaced by ones that a schedule controls.
use std::{env, fs, path::Path};

fn main() {
    let f = "/repo/src/handle.rs";
    println!("cargo:rerun-if-changed={f}");
    println!("cargo:rerun-if-changed=build.rs");
    let src = fs::read_to_string(f).unwrap();
    let (mut head, mut body) = (String::new(), String::new());
    for l in src.lines() {
        let t = l.trim_start();
        if body.trim().is_empty() && (t.starts_with("//!") || t.starts_with("#![")) {
            head.push('\n');
        } else {
            body.push_str(l);
            body.push('\n');
        }
    }
    let out = format!("#[allow(unused_imports)] use crate::shim_std as std;\n#[allow(unused_imports)] use crate::shim_std as core;\n{head}{body}");
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("handle.rs"), out).unwrap();
}
