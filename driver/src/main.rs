//! Calls the ti_tools library as a program that embeds it does, and prints what it sees as JSON.
//!   driver tokens MODEL...      versions on stdin, one per line; one token list per model and version
//!   driver edit FILE            edits on stdin as a JSON list; the state before and after each

use serde_json::{json, Value};
use std::io::Read;
use std::path::PathBuf;
use ti_tools::calculator::models::Model;
use ti_tools::calculator::program::Program;
use ti_tools::calculator::tokens::{load_tokens, OsVersion};
use ti_tools::calculator::{DisplayMode, EncodeMode};

fn input() -> String {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).expect("stdin");
    s
}

fn tokens(models: &[String]) -> Value {
    let mut out = Vec::new();
    let versions = input();
    for m in models {
        for v in versions.lines() {
            let target = if m == "default" { OsVersion::latest() } else { OsVersion::new(Model::from_string(m), v.to_string()) };
            out.push(match load_tokens(&target) {
                Err(_) => json!({"model": m, "version": v, "error": true}),
                Ok(map) => {
                    let mut list: Vec<_> = map.map.iter().map(|(k, t)| json!([k, t.accessible, t.display, t.ti_ascii])).collect();
                    list.sort_by_key(|x| x[0].as_str().unwrap_or("").to_string());
                    json!({"model": m, "version": v, "tokens": list})
                }
            });
        }
    }
    Value::Array(out)
}

fn view(p: &Program) -> Value {
    json!({
        "header_bytes": p.header.bytes,
        "comment": p.header.comment,
        "metadata_bytes": p.metadata.bytes,
        "name": p.metadata.name,
        "file_type": [p.metadata.file_type.to_byte(), p.metadata.file_type.to_string()],
        "destination": [p.metadata.destination.to_byte(), p.metadata.destination.to_string()],
        "body_bytes": p.body.bytes,
        "translation": p.body.translation,
        "all": serde_json::to_value(p).expect("program as json"),
    })
}

fn edit(file: &str) -> Value {
    let path = PathBuf::from(file);
    let loaded = if file.ends_with(".txt") {
        Program::load_from_txt(path, &EncodeMode::Smart)
    } else if file.ends_with(".json") {
        Program::load_from_json(path)
    } else {
        Program::load_from_8xp(path, DisplayMode::Accessible)
    };
    let mut p = match loaded {
        Ok(p) => p,
        Err(_) => return json!({"refused": true}),
    };
    let mut out = vec![json!({"ok": true, "state": view(&p)})];
    let ops: Value = serde_json::from_str(&input()).expect("edits");
    for op in ops.as_array().expect("a list of edits") {
        let arg = op[1].as_str().unwrap_or("").to_string();
        let ok = match op[0].as_str() {
            Some("rename") => p.metadata.rename(arg).is_ok(),
            Some("comment") => p.header.comment(arg).is_ok(),
            Some("lock") => {
                p.metadata.lock();
                true
            }
            Some("unlock") => {
                p.metadata.unlock();
                true
            }
            Some("archive") => {
                p.metadata.archive();
                true
            }
            Some("unarchive") => {
                p.metadata.unarchive();
                true
            }
            _ => panic!("edit {op}"),
        };
        out.push(json!({"ok": ok, "state": view(&p)}));
    }
    Value::Array(out)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let v = match args.first().map(|s| s.as_str()) {
        Some("tokens") => tokens(&args[1..]),
        Some("edit") if args.len() == 2 => edit(&args[1]),
        _ => panic!("usage"),
    };
    println!("{v}");
}
