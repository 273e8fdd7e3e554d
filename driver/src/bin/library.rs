//! More of the ti_tools library, called as a program that embeds it does. A job in JSON on stdin.
//!   library order                OS versions; every pair of them compared
//!   library match                a token list and texts; the longest and shortest match of each
//!   library values               names; what each name and each byte stands for
//!   library files                files to load and save

use serde_json::{json, Value};
use std::path::PathBuf;
use ti_tools::calculator::models::{Model, ModelDetails};
use ti_tools::calculator::program::{get_file_type, Destination, FileType, Program};
use ti_tools::calculator::tokens::{Map, OsVersion, Translation};
use ti_tools::calculator::{DisplayMode, EncodeMode};

fn parsed() -> Value {
    serde_json::from_reader(std::io::stdin()).expect("JSON on stdin")
}

fn order() -> Value {
    let list = parsed();
    let make = |v: &Value| OsVersion::new(Model::from_string(v[0].as_str().unwrap()), v[1].as_str().unwrap().to_string());
    let versions: Vec<OsVersion> = list.as_array().unwrap().iter().map(make).collect();
    let rows: Vec<Value> = versions
        .iter()
        .map(|a| {
            versions
                .iter()
                .map(|b| {
                    let (c, p) = (a.cmp(b) as i8, a.partial_cmp(b).map(|o| o as i8));
                    json!([c, p, a < b, a <= b, a == b])
                })
                .collect()
        })
        .collect();
    let mut sorted: Vec<usize> = (0..versions.len()).collect();
    sorted.sort_by(|&i, &j| versions[i].cmp(&versions[j]));
    json!({"pairs": rows, "sorted": sorted})
}

fn matching() -> Value {
    let job = parsed();
    let mut map = Map::new();
    for t in job["tokens"].as_array().unwrap() {
        let s = |i: usize| t[i].as_str().unwrap().to_string();
        map.insert(s(0), Translation { accessible: s(1), display: s(2), ti_ascii: s(3) });
    }
    let mut out = Vec::new();
    for q in job["texts"].as_array().unwrap() {
        let q = q.as_str().unwrap();
        for m in [DisplayMode::Accessible, DisplayMode::Pretty, DisplayMode::TiAscii] {
            out.push(json!([map.get_longest_matching_token(q, &m), map.get_shortest_matching_token(q, &m)]));
        }
    }
    let keys: Vec<Value> = job["tokens"].as_array().unwrap().iter().map(|t| json!(map.get_value(t[0].as_str().unwrap()).map(|t| [&t.accessible, &t.display, &t.ti_ascii]))).collect();
    json!({"matches": out, "values": keys})
}

fn details(d: ModelDetails) -> Value {
    json!([d.model.to_string(), d.signature, d.product_id, d.language])
}

fn values() -> Value {
    let job = parsed();
    let bytes: Vec<Value> = (0..=255u8)
        .map(|b| {
            json!({
                "file_type": FileType::from_byte(b).ok().map(|t| json!([t.to_byte(), t.to_string()])),
                "destination": Destination::from_byte(b).ok().map(|t| json!([t.to_byte(), t.to_string()])),
                "models": job["signatures"].as_array().unwrap().iter().map(|s| json!(ModelDetails::from_byte(b, s.as_str().unwrap()).ok().map(details))).collect::<Vec<_>>(),
            })
        })
        .collect();
    let names: Vec<Value> = job["names"]
        .as_array()
        .unwrap()
        .iter()
        .map(|n| {
            let n = n.as_str().unwrap();
            json!({
                "file_type": FileType::from_string(n).ok().map(|t| json!([t.to_byte(), t.to_string()])),
                "destination": Destination::from_string(n).ok().map(|t| json!([t.to_byte(), t.to_string()])),
                "display": DisplayMode::from_string(n).ok().map(|t| t.to_string()),
                "encode": EncodeMode::from_string(n).is_ok(),
                "model": [json!(Model::from_string(n).to_string()), details(ModelDetails::from_model(&Model::from_string(n)))],
                "kind": get_file_type(&PathBuf::from(n)).ok().map(|t| json!([t.to_string(), t.is_8xp(), t.is_txt(), t.is_json()])),
            })
        })
        .collect();
    json!({"bytes": bytes, "names": names})
}

fn files() -> Value {
    let job = parsed();
    let mut out = Vec::new();
    for j in job.as_array().unwrap() {
        let path = PathBuf::from(j["path"].as_str().unwrap());
        let loaded = match j["loader"].as_str().unwrap() {
            "8xp" => Program::load_from_8xp(path, DisplayMode::from_string(j["mode"].as_str().unwrap()).ok().expect("mode")),
            "txt" => Program::load_from_txt(path, &EncodeMode::from_string(j["encode"].as_str().unwrap()).ok().expect("mode")),
            _ => Program::load_from_json(path),
        };
        out.push(match loaded {
            Err(_) => json!({"refused": true}),
            Ok(p) => {
                let saved: Vec<Value> = j["saves"].as_array().unwrap().iter().map(|s| json!(p.save_to(&PathBuf::from(s.as_str().unwrap())).is_ok())).collect();
                json!({"saved": saved, "text": p.to_string()})
            }
        });
    }
    Value::Array(out)
}

fn main() {
    let v = match std::env::args().nth(1).as_deref() {
        Some("order") => order(),
        Some("match") => matching(),
        Some("values") => values(),
        Some("files") => files(),
        _ => panic!("usage"),
    };
    println!("{v}");
}
