//! C18, C25: the token sets and the in-memory edits, through the library (see /verif/driver).

use crate::cli::*;
use crate::engine::*;
use crate::ensure;
use crate::oracle::*;
use crate::p1::*;
use crate::p2::*;
use crate::p3::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

pub fn drive(d: &Dir, args: &[&str], stdin: &str) -> Result<Value, String> {
    let bin = d.env.driver.clone().unwrap_or_else(|| panic!("HARNESS: TI_DRIVER is not set"));
    let env = Env { bin, ..d.env.clone() };
    let path = d.path.clone();
    let d2 = std::mem::ManuallyDrop::new(Dir { env: &env, path });
    let r = d2.run_opt(args, &Opt { stdin: stdin.as_bytes(), ..Opt::default() });
    ensure!(r.ok(), "the library call {args:?} crashed: {}", r.brief());
    serde_json::from_str(&r.out).map_err(|e| format!("driver output: {e}: {}", r.brief()))
}

// ------------------------------------------------------------------ C18

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Target {
    model: u8,
    versions: Vec<String>,
}

fn token_key(k: &[u8]) -> String {
    format!("{} en", k.iter().map(|b| format!("${b:02X}")).collect::<String>())
}
fn parse_version(v: &str) -> Option<Vec<u32>> {
    if v == "latest" {
        None
    } else {
        Some(v.split('.').map(|p| p.parse().unwrap()).collect())
    }
}

fn same_set(got: &Value, order: u32, version: &str) -> Result<usize, String> {
    let v = parse_version(version);
    let want = build_set(&world().sheet, order, v.as_deref());
    let list = got["tokens"].as_array().ok_or("loading the tokens failed")?;
    let mut expected: std::collections::BTreeMap<String, &Tok> = want.toks.iter().map(|t| (token_key(&t.key), t)).collect();
    for t in list {
        let k = t[0].as_str().unwrap_or("");
        let Some(tok) = expected.remove(k) else {
            return Err(format!("token {k} ({}) is available, it should not be", t[1]));
        };
        for (m, name) in MODES.iter().enumerate() {
            ensure!(t[m + 1] == tok.text[m].as_str(), "{name} rendition of {k} is {}, documented as {:?}", t[m + 1], tok.text[m]);
        }
    }
    if let Some((k, t)) = expected.into_iter().next() {
        return Err(format!("token {k} ({:?}) is missing", t.text[0]));
    }
    Ok(list.len())
}

fn c18_sets(env: &Env, c: &Target) -> Check {
    let d = env.dir();
    let row = &MODELS[c.model as usize % MODELS.len()];
    let got = drive(&d, &["tokens", row.name], &(c.versions.join("\n") + "\n"))?;
    let list = got.as_array().cloned().unwrap_or_default();
    ensure!(list.len() == c.versions.len(), "HARNESS: {} answers", list.len());
    let mut o = Obs::default();
    for (g, v) in list.iter().zip(&c.versions) {
        same_set(g, row.order, v).map_err(|e| format!("model {} OS {v}: {e}", row.name))?;
    }
    o.label(format!("model {}", row.name));
    Ok(o)
}

/// Versions in the sheet and their neighbours.
fn versions_near() -> Vec<String> {
    let mut out = std::collections::BTreeSet::new();
    let mut add = |v: &[u32]| {
        out.insert(v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("."));
    };
    for e in world().sheet.values().flatten() {
        for (_, v) in std::iter::once(&e.since).chain(e.until.as_ref()) {
            add(v);
            for i in 0..v.len() {
                let mut up = v.clone();
                up[i] += 1;
                add(&up);
                if v[i] > 0 {
                    let mut down = v.clone();
                    down[i] -= 1;
                    add(&down);
                }
                if i > 0 {
                    add(&v[..i]);
                }
                let mut tens = v.clone();
                tens[i] *= 10;
                add(&tens);
            }
            let mut more = v.clone();
            more.push(0);
            add(&more);
            more.push(1);
            add(&more);
        }
    }
    for v in [vec![0], vec![0, 0], vec![9], vec![10], vec![100, 0], vec![1, 9], vec![1, 10], vec![2, 9], vec![2, 10], vec![5, 10], vec![4294967295]] {
        add(&v);
    }
    out.insert("latest".into());
    out.into_iter().collect()
}

fn c18_default(env: &Env, _: &u8) -> Check {
    let d = env.dir();
    let got = drive(&d, &["tokens", "default"], "latest\n")?;
    let n = same_set(&got[0], u32::MAX, "latest").map_err(|e| format!("OsVersion::latest(): {e}"))?;
    let mut o = Obs::default();
    o.label(format!("{n} tokens"));
    Ok(o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lacking {
    /// index into MODELS
    model: u8,
    mode: Mode,
    key: Vec<u8>,
}

fn txt_of(row: &ModelRow, mode: Mode, text: &str) -> String {
    format!("PROG\ncomment\nProgram\nRAM\n{}\n{}\n{text}", mode.name(), row.name)
}

/// A text made of one rendition that the model may lack, for every model.
fn c18_text(env: &Env, c: &Lacking) -> Check {
    let row = &MODELS[c.model as usize];
    let set = Set::of_model(c.model as usize);
    let all = Set::of_order(u32::MAX);
    let mut o = Obs::default();
    let text = world().sheet[&c.key].last().unwrap().text[c.mode as usize].clone();
    o.trivial = text.contains('\n');
    if o.trivial {
        return Ok(o);
    }
    let d = env.dir();
    d.write("P.txt", txt_of(row, c.mode, &text));
    let r = d.run(&["convert", "P.txt", "-o", "P.8xp", "-e", "max"]);
    match encode(&text, set, c.mode, Rule::Max) {
        Ok(toks) => {
            must(&r, &format!("text {text:?} of {}", row.name))?;
            let x = parse(&read(&d, "P.8xp")?)?;
            same_renditions(&x.body, &toks, set, c.mode).map_err(|e| format!("text {text:?} of {}: {e}", row.name))?;
            o.label("accepted");
        }
        Err(_) => {
            must_refuse(&r, &format!("text {text:?}, which {} cannot show,", row.name))?;
            ensure!(!d.exists("P.8xp"), "P.8xp was written for the text {text:?}, which {} cannot show", row.name);
            o.label("refused");
            o.label_if(all.get(&c.key).is_none(), "retired everywhere");
        }
    }
    Ok(o)
}

/// A program made of one token that the model may lack, for every model a file can name.
fn c18_program(env: &Env, c: &Lacking) -> Check {
    let row = &MODELS[c.model as usize];
    let set = Set::of_model(c.model as usize);
    let d = env.dir();
    d.write("P.8xp", simple(row, &c.key).bytes());
    let r = d.run(&["convert", "P.8xp", "-o", "P.txt", "-d", c.mode.name()]);
    let mut o = Obs::default();
    match set.decode(&c.key, c.mode) {
        Some(w) => {
            must(&r, &format!("token {} of {}", hex(&c.key), row.name))?;
            let got = txt_body(&read_txt(&d, "P.txt")?);
            ensure!(got == w, "token {} of {}: {}", hex(&c.key), row.name, differ_text(&got, &w));
            o.label("accepted");
        }
        None => {
            must_refuse(&r, &format!("token {}, which {} lacks,", hex(&c.key), row.name))?;
            ensure!(!d.exists("P.txt"), "output written for token {}, which {} lacks", hex(&c.key), row.name);
            o.label("refused");
        }
    }
    Ok(o)
}

pub fn c18_property() -> Property {
    Property {
        id: "C18",
        level: "exploration",
        subs: vec![
            exhaustive("latest", "the default token set", |_| vec![0u8], c18_default),
            exhaustive(
                "sets",
                "all 25 models x every OS version in the token sheet, each component of it one up, one down, times ten or left out, extra components, and latest; keys and all three renditions of each set",
                |_| {
                    let v = versions_near();
                    (0..MODELS.len() as u8).flat_map(|m| v.chunks(20).map(move |c| Target { model: m, versions: c.to_vec() })).collect()
                },
                c18_sets,
            ),
            generated(
                "versions",
                "random OS versions of up to 4 components",
                80,
                4000,
                || {
                    let n = prop_oneof![6 => 0u32..12, 2 => 0u32..100, 1 => any::<u32>()];
                    let version = vec(n, 1..=4).prop_map(|v| v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join("."));
                    (0u8..25, vec(version, 1..=12)).prop_map(|(model, versions)| Target { model, versions }).boxed()
                },
                c18_sets,
            ),
            exhaustive(
                "programs",
                "one-token programs: every token of the sheet x the nine models a file can name, accepted or refused as the sheet says (accessible mode; all modes in the thorough tier)",
                |t| {
                    let modes: &[u8] = if t.thorough { &[0, 1, 2] } else { &[0] };
                    let mut v = Vec::new();
                    for &m in FILE_MODELS.iter() {
                        for key in world().sheet.keys() {
                            for &mode in modes {
                                v.push(Lacking { model: m as u8, mode: Mode::of(mode), key: key.clone() });
                            }
                        }
                    }
                    v
                },
                c18_program,
            ),
            exhaustive(
                "texts",
                "one-rendition texts: every rendition that some model lacks x one model per model order (each model in the thorough tier), accepted or refused as longest matching over the model's tokens says",
                |t| {
                    let oldest = Set::of_order(10);
                    let mut v = Vec::new();
                    let mut seen = Vec::new();
                    for (m, row) in MODELS.iter().enumerate() {
                        if !t.thorough && seen.contains(&row.order) {
                            continue;
                        }
                        seen.push(row.order);
                        for key in world().sheet.keys() {
                            if oldest.get(key).is_some() && Set::of_order(u32::MAX).get(key).is_some() && !t.thorough {
                                continue;
                            }
                            for mode in 0..3 {
                                v.push(Lacking { model: m as u8, mode: Mode::of(mode), key: key.clone() });
                            }
                        }
                    }
                    v
                },
                c18_text,
            ),
        ],
        assumptions: vec![
            "/verif/oracle/8X.json, a copy of the repository's token sheet, is the documentation of when each token exists",
            "a token exists from its since version to its until version, both included; OS versions compare number by number",
        ],
    }
}

// ------------------------------------------------------------------ C25

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Session {
    source: Source,
    edits: Vec<Edit>,
}

fn arr(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(999) as u8).collect()).unwrap_or_default()
}
fn put_bytes(v: &mut Value, at: usize, b: &[u8]) {
    if let Some(a) = v.as_array_mut() {
        for (i, x) in b.iter().enumerate() {
            if let Some(slot) = a.get_mut(at + i) {
                *slot = json!(x);
            }
        }
    }
}

/// The state after an accepted edit: the field and its bytes, nothing else.
fn edited(before: &Value, e: &Edit) -> Value {
    let mut s = before.clone();
    fn ty(s: &mut Value, i: usize) {
        s["file_type"] = json!([FTYPES[i].0, FTYPES[i].1]);
        s["all"]["metadata"]["file_type"] = json!(FTYPES[i].2);
        put_bytes(&mut s["metadata_bytes"], 4, &[FTYPES[i].0]);
        put_bytes(&mut s["all"]["metadata"]["bytes"], 4, &[FTYPES[i].0]);
    }
    fn dest(s: &mut Value, b: u8) {
        s["destination"] = json!([b, dest_name(b)]);
        s["all"]["metadata"]["destination"] = json!(dest_name(b));
        put_bytes(&mut s["metadata_bytes"], 14, &[b]);
        put_bytes(&mut s["all"]["metadata"]["bytes"], 14, &[b]);
    }
    match e {
        Edit::Rename(n) => {
            let n = n.to_ascii_uppercase();
            let b = pad(n.as_bytes(), 8);
            s["name"] = json!(n);
            s["all"]["metadata"]["name"] = json!(n);
            put_bytes(&mut s["metadata_bytes"], 5, &b);
            put_bytes(&mut s["all"]["metadata"]["bytes"], 5, &b);
        }
        Edit::Comment(t) => {
            let b = pad(t.as_bytes(), 42);
            s["comment"] = json!(t);
            s["all"]["header"]["comment"] = json!(t);
            put_bytes(&mut s["header_bytes"], 11, &b);
            put_bytes(&mut s["all"]["header"]["bytes"], 11, &b);
        }
        Edit::Lock => ty(&mut s, 1),
        Edit::Unlock => ty(&mut s, 0),
        Edit::Archive => dest(&mut s, 0x80),
        Edit::Unarchive => dest(&mut s, 0),
    }
    s
}

fn first_difference(path: &str, got: &Value, want: &Value) -> Option<String> {
    if got == want {
        return None;
    }
    match (got, want) {
        (Value::Object(a), Value::Object(b)) => {
            for k in a.keys().chain(b.keys()) {
                if let Some(d) = first_difference(&format!("{path}.{k}"), &got[k], &want[k]) {
                    return Some(d);
                }
            }
            None
        }
        _ => Some(format!("{path} is {got}, want {want}")),
    }
}

/// Decoded fields against the raw bytes of a program as it was loaded.
fn consistent(s: &Value) -> Result<(), String> {
    let (h, m) = (arr(&s["header_bytes"]), arr(&s["metadata_bytes"]));
    ensure!(h.len() == 55, "the header has {} bytes", h.len());
    ensure!(m.len() == 19, "the metadata has {} bytes", m.len());
    let latin = |b: &[u8]| b.iter().filter(|&&b| b != 0).map(|&b| b as char).collect::<String>();
    ensure!(s["name"] == latin(&m[5..13]).as_str(), "name {} but bytes {:02X?}", s["name"], &m[5..13]);
    ensure!(s["comment"].as_str().map(|c| c.replace('\0', "")) == Some(comment_text(&h[11..53])), "comment {} but bytes {:02X?}", s["comment"], &h[11..53]);
    ensure!(s["file_type"] == json!([m[4], ftype_name(m[4])]), "file type {} but byte {:02X}", s["file_type"], m[4]);
    ensure!(s["destination"] == json!([m[14], dest_name(m[14])]), "destination {} but byte {:02X}", s["destination"], m[14]);
    let n = arr(&s["body_bytes"]).len();
    for (what, b, want) in [("header length", &h[53..55], n + 19), ("body length + 2", &m[2..4], n + 2), ("copy of body length + 2", &m[15..17], n + 2), ("body length", &m[17..19], n)] {
        ensure!(b == le(want), "{what} bytes are {b:02X?}, want {want}");
    }
    let a = &s["all"];
    for (what, v, want) in [
        ("header.metadata_and_body_length", &a["header"]["metadata_and_body_length"], n + 19),
        ("metadata.body_and_checksum_length", &a["metadata"]["body_and_checksum_length"], n + 2),
        ("metadata.body_and_checksum_length_copy", &a["metadata"]["body_and_checksum_length_copy"], n + 2),
        ("metadata.body_length", &a["metadata"]["body_length"], n),
        ("header.product_id", &a["header"]["product_id"], h[10] as usize),
        ("metadata.flag", &a["metadata"]["flag"], m[0] as usize),
        ("metadata.version", &a["metadata"]["version"], m[13] as usize),
    ] {
        ensure!(*v == json!(want), "{what} is {v}, the bytes say {want}");
    }
    ensure!(a["header"]["signature"] == latin(&h[..8]).as_str(), "signature {} but bytes {:02X?}", a["header"]["signature"], &h[..8]);
    Ok(())
}

fn c25_session(env: &Env, c: &Session) -> Check {
    let d = env.dir();
    let mut o = Obs::default();
    let Some(file) = put(&d, "P", &c.source)? else {
        o.trivial = true;
        return Ok(o);
    };
    let ops: Vec<Value> = c
        .edits
        .iter()
        .map(|e| match e {
            Edit::Rename(s) | Edit::Comment(s) => json!([e.kind(), s]),
            _ => json!([e.kind()]),
        })
        .collect();
    let got = drive(&d, &["edit", &file], &Value::Array(ops).to_string())?;
    let list = got.as_array().ok_or_else(|| format!("the library refused the valid program {file}"))?;
    ensure!(list.len() == c.edits.len() + 1, "HARNESS: {} states", list.len());
    consistent(&list[0]["state"]).map_err(|e| format!("after loading {file}: {e}"))?;
    let mut changed = 0;
    for (i, e) in c.edits.iter().enumerate() {
        let (before, after) = (&list[i]["state"], &list[i + 1]["state"]);
        let accepted = list[i + 1]["ok"] == json!(true);
        let what = format!("call {} ({e:?})", i + 1);
        ensure!(accepted == e.valid(), "{what} was {}", if accepted { "accepted" } else { "refused" });
        let want = if accepted { edited(before, e) } else { before.clone() };
        if let Some(m) = first_difference("program", after, &want) {
            return Err(format!("after {what}, {}: {m}", if accepted { "accepted" } else { "refused" }));
        }
        consistent(after).map_err(|e| format!("after {what}: {e}"))?;
        changed += usize::from(accepted && after != before);
        o.label(if accepted { e.kind().to_string() } else { format!("refused {}", e.kind()) });
    }
    o.trivial = c.edits.is_empty();
    o.label_if(changed > 3, "more than 3 changes");
    o.label(format!("from {}", file.rsplit('.').next().unwrap_or("")));
    Ok(o)
}

/// Values that a command line cannot carry as well: leading dashes, NUL.
fn any_value() -> BoxedStrategy<String> {
    prop_oneof![
        2 => vec(0x20u8..0x7F, 0..=50).prop_map(|v| String::from_utf8(v).unwrap()),
        1 => vec(prop_oneof![Just('é'), Just('θ'), Just('→'), Just('A'), Just('z'), Just('\0'), Just('\n'), Just('-'), Just('\u{1F600}')], 0..=24).prop_map(|v| v.into_iter().collect::<String>()),
        1 => (38usize..48, 0usize..4).prop_map(|(n, k)| "é".repeat(k) + &"a".repeat(n - 2 * k)),
    ]
    .boxed()
}

pub fn c25_property() -> Property {
    let edit = || {
        prop_oneof![
            6 => valid_edit(),
            3 => invalid_edit(),
            1 => any_value().prop_map(Edit::Comment),
            1 => any_value().prop_map(Edit::Rename),
            1 => (1usize..=12, any::<bool>()).prop_map(|(n, u)| Edit::Rename(if u { "Z" } else { "a" }.repeat(n))),
        ]
    };
    Property {
        id: "C25",
        level: "exploration",
        subs: vec![
            generated(
                "sessions",
                "up to 20 library edit calls, a third of them invalid, on a program loaded from an 8xp, 82p, 83p, txt or json file; the whole program compared after each call; non-trivial: at least one call",
                2500,
                60000,
                move || (source(), vec(edit(), 0..=20)).prop_map(|(source, edits)| Session { source, edits }).boxed(),
                c25_session,
            ),
            exhaustive(
                "lengths",
                "each edit with values of length 0 to 60, ASCII and two-byte characters",
                |_| {
                    let mut v = Vec::new();
                    for n in 0..=60usize {
                        for c in ["a", "Z", "1", "é", "-", " ", "\0"] {
                            v.push(Session { source: Source::Xp(sample_prog()), edits: vec![Edit::Rename(c.repeat(n)), Edit::Comment(c.repeat(n)), Edit::Rename("X".into())] });
                        }
                    }
                    v
                },
                c25_session,
            ),
        ],
        assumptions: vec!["the checksum is not looked at in memory: the library leaves it to saving (C09 checks the saved file)"],
    }
}
