//! C34: the library by itself (see /verif/driver/src/bin/library.rs).

use crate::cli::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::p1::*;
use crate::p2::tree_diff;
use crate::p3::*;
use crate::p5::drive;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cmp::Ordering;

// ------------------------------------------------------------------ order of OS versions

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Versions {
    list: Vec<(u8, String)>,
}
/// What the order is by: the generation of the model, then latest last, none first, then the numbers.
fn rank(model: usize, v: &str) -> (u32, u8, Vec<u32>) {
    match v {
        "latest" => (MODELS[model].order, 2, vec![]),
        "" => (MODELS[model].order, 0, vec![]),
        v => (MODELS[model].order, 1, v.split('.').map(|p| p.parse().unwrap()).collect()),
    }
}
fn order(env: &Env, c: &Versions) -> Check {
    let d = env.dir();
    let list: Vec<(usize, &str)> = c.list.iter().map(|(m, v)| (*m as usize % 25, v.as_str())).collect();
    let job: Vec<Value> = list.iter().map(|(m, v)| json!([MODELS[*m].name, v])).collect();
    let got = drive(&d, &["order"], &Value::Array(job).to_string())?;
    let name = |i: usize| format!("{} {:?}", MODELS[list[i].0].name, list[i].1);
    let ranks: Vec<_> = list.iter().map(|(m, v)| rank(*m, v)).collect();
    let mut o = Obs::default();
    for i in 0..list.len() {
        for j in 0..list.len() {
            let want = ranks[i].cmp(&ranks[j]);
            let w = match want {
                Ordering::Less => -1,
                Ordering::Equal => 0,
                Ordering::Greater => 1,
            };
            let p = &got["pairs"][i][j];
            let what = format!("OS version {} against {}", name(i), name(j));
            ensure!(p[0] == json!(w), "{what}: cmp says {}, want {w}", p[0]);
            ensure!(p[1] == json!(w), "{what}: partial_cmp says {}, want {w}", p[1]);
            ensure!(p[2] == json!(w < 0) && p[3] == json!(w <= 0), "{what}: < says {} and <= {}, want {} and {}", p[2], p[3], w < 0, w <= 0);
            // other spellings of a version and models of a generation rank the same
            ensure!(p[4] == json!(list[i].0 == list[j].0 && list[i].1 == list[j].1), "{what}: == says {}", p[4]);
            o.label_if(i != j && w == 0, "two of the same rank");
        }
    }
    let mut want: Vec<usize> = (0..list.len()).collect();
    want.sort_by(|&i, &j| ranks[i].cmp(&ranks[j]));
    ensure!(got["sorted"] == json!(want), "sorted to {}, want {want:?}", got["sorted"]);
    o.trivial = list.len() < 2;
    Ok(o)
}
fn version() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just("latest".to_string()),
        1 => Just(String::new()),
        6 => vec(prop_oneof![3 => 0u32..4, 1 => 9u32..12, 1 => 99u32..102, 1 => Just(1013u32), 1 => Just(u32::MAX)], 1..=3)
            .prop_map(|v| v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(".")),
        1 => (0u32..3, 0u32..12).prop_map(|(a, b)| format!("{a}.0{b}")),
    ]
    .boxed()
}

// ------------------------------------------------------------------ matching

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Match {
    /// key and the three renditions
    tokens: Vec<(Vec<u8>, [String; 3])>,
    texts: Vec<String>,
}
fn matching(env: &Env, c: &Match) -> Check {
    let d = env.dir();
    let mut o = Obs::default();
    let key = |k: &[u8]| k.iter().map(|b| format!("${b:02X}")).collect::<String>() + " en";
    // a token that is filled in again replaces the earlier one
    let mut set = std::collections::BTreeMap::new();
    for (k, t) in &c.tokens {
        set.insert(key(k), t);
    }
    let list: Vec<Value> = c.tokens.iter().map(|(k, t)| json!([key(k), t[0], t[1], t[2]])).collect();
    let got = drive(&d, &["match"], &json!({"tokens": list, "texts": c.texts}).to_string())?;
    for (i, (k, _)) in c.tokens.iter().enumerate() {
        let want = json!(set[&key(k)]);
        ensure!(got["values"][i] == want, "the renditions of {} are {}, want {want}", key(k), got["values"][i]);
    }
    for (i, text) in c.texts.iter().enumerate() {
        for m in 0..3 {
            let fits: Vec<(&String, &str)> = set.iter().map(|(k, t)| (k, t[m].as_str())).filter(|(_, t)| text.starts_with(*t)).collect();
            // among equally long ones, the first key
            let longest = fits.iter().min_by_key(|(k, t)| (usize::MAX - t.len(), k.to_string()));
            let shortest = fits.iter().min_by_key(|(k, t)| (t.len(), k.to_string()));
            let g = &got["matches"][i * 3 + m];
            for (name, got, want) in [("longest", &g[0], longest), ("shortest", &g[1], shortest)] {
                let want = want.map_or(Value::Null, |(k, t)| json!([k, t]));
                ensure!(*got == want, "the {name} match of {text:?} in {} mode is {got}, want {want}", MODES[m]);
            }
            o.label_if(fits.is_empty(), "no match");
            o.label_if(fits.len() > 1, "several matches");
            let tie = |len: usize| fits.iter().filter(|(_, t)| t.len() == len).count() > 1;
            o.label_if(longest.is_some_and(|(_, t)| tie(t.len())), "equally long");
        }
    }
    o.labels.sort();
    o.labels.dedup();
    o.trivial = !o.labels.iter().any(|l| l == "several matches");
    Ok(o)
}
fn rendition() -> BoxedStrategy<String> {
    prop_oneof![
        6 => vec(prop_oneof![Just('A'), Just('B'), Just('θ'), Just('('), Just(' ')], 1..=4).prop_map(|v| v.into_iter().collect::<String>()),
        1 => vec(prop_oneof![Just('A'), Just('θ'), Just('𝑖')], 5..=40).prop_map(|v| v.into_iter().collect::<String>()),
        // long, and nothing else that short begins like it
        1 => (0usize..3, prop_oneof![8 => 5usize..60, 2 => 60usize..300, 1 => 300usize..9990]).prop_map(|(c, n)| "QRS"[c..=c].repeat(n)),
        2 => any::<u16>().prop_map(|i| { let s = Set::of_model(0); s.toks[i as usize % s.toks.len()].text[i as usize / 7 % 3].clone() }),
    ]
    .boxed()
}

// ------------------------------------------------------------------ names and bytes

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Names {
    names: Vec<String>,
    signatures: Vec<String>,
}
fn details(m: usize) -> Value {
    let r = &MODELS[m];
    json!([r.name, r.sig, r.product, r.lang])
}
const FILE_TYPES: [(u8, &str); 4] = [(5, "Program"), (6, "Locked Program"), (0x17, "Group"), (0x24, "Flash Application")];
const DESTINATIONS: [(u8, &str); 2] = [(0, "RAM"), (0x80, "Archive")];
fn values(env: &Env, c: &Names) -> Check {
    let d = env.dir();
    let mut o = Obs::default();
    let got = drive(&d, &["values"], &json!({"names": c.names, "signatures": c.signatures}).to_string())?;
    let find = |list: &[(u8, &str)], f: &dyn Fn(&(u8, &str)) -> bool| list.iter().find(|x| f(x)).map_or(Value::Null, |(b, n)| json!([b, n]));
    for b in 0..=255u8 {
        let g = &got["bytes"][b as usize];
        for (what, list) in [("file_type", &FILE_TYPES[..]), ("destination", &DESTINATIONS)] {
            let want = find(list, &|x| x.0 == b);
            ensure!(g[what] == want, "{what} of byte {b:02X} is {}, want {want}", g[what]);
        }
        for (i, s) in c.signatures.iter().enumerate() {
            let row = match b {
                0 => Some(FILE_MODELS.iter().copied().find(|&m| MODELS[m].product == 0 && MODELS[m].sig == s).unwrap_or(1)),
                b => FILE_MODELS.iter().copied().find(|&m| MODELS[m].product == b),
            };
            let want = row.map_or(Value::Null, details);
            ensure!(g["models"][i] == want, "the model of product byte {b:02X} and signature {s:?} is {}, want {want}", g["models"][i]);
        }
    }
    for (i, n) in c.names.iter().enumerate() {
        let g = &got["names"][i];
        for (what, list) in [("file_type", &FILE_TYPES[..]), ("destination", &DESTINATIONS)] {
            let want = find(list, &|x| x.1 == n);
            ensure!(g[what] == want, "{what} called {n:?} is {}, want {want}", g[what]);
        }
        let want = if MODES.contains(&n.as_str()) { json!(n) } else { Value::Null };
        ensure!(g["display"] == want, "display mode called {n:?} is {}, want {want}", g["display"]);
        let want = json!(["min", "max", "smart"].contains(&n.as_str()));
        ensure!(g["encode"] == want, "whether there is an encode mode called {n:?}: {}, want {want}", g["encode"]);
        let m = model_by_name(n).unwrap_or(0);
        let want = json!([MODELS[m].name, details(m)]);
        ensure!(g["model"] == want, "the model called {n:?} is {}, want {want}", g["model"]);
        let ext = std::path::Path::new(n).extension().and_then(|e| e.to_str()).filter(|e| EXT5.contains(e));
        let want = ext.map_or(Value::Null, |e| json!([e, !["txt", "json"].contains(&e), e == "txt", e == "json"]));
        ensure!(g["kind"] == want, "the kind of file called {n:?} is {}, want {want}", g["kind"]);
        o.label_if(ext.is_some(), "extension");
        o.label_if(find(&FILE_TYPES, &|x| x.1 == n) != Value::Null || find(&DESTINATIONS, &|x| x.1 == n) != Value::Null, "type or destination");
        o.label_if(model_by_name(n).is_some(), "model");
    }
    o.labels.sort();
    o.labels.dedup();
    o.trivial = o.labels.is_empty();
    Ok(o)
}
fn any_name() -> BoxedStrategy<String> {
    let known = || {
        let mut v: Vec<String> = MODELS.iter().map(|m| m.name.to_string()).collect();
        v.extend(FILE_TYPES.iter().chain(&DESTINATIONS).map(|x| x.1.to_string()));
        v.extend(MODES.iter().chain(&["min", "max", "smart"]).map(|x| x.to_string()));
        v.extend(EXT5.iter().flat_map(|e| [format!("a.{e}"), format!("dir.txt/x.{e}"), format!(".{e}"), format!("a.{e}.bak"), format!("é.b.{e}")]));
        proptest::sample::select(v)
    };
    prop_oneof![
        5 => known(),
        // one change to a known name
        3 => (known(), any::<u16>(), 0u8..6).prop_map(|(s, at, how)| {
            let mut v: Vec<char> = s.chars().collect();
            let i = at as usize % v.len();
            match how {
                0 => { v.remove(i); }
                1 => v.insert(i, ' '),
                2 => v[i] = if v[i].is_uppercase() { v[i].to_ascii_lowercase() } else { v[i].to_ascii_uppercase() },
                3 => v.push(if at % 2 == 0 { ' ' } else { 'e' }),
                4 => v.truncate(i),
                _ => v[i] = '+',
            }
            v.into_iter().collect()
        }),
        1 => "[ -~]{0,12}",
    ]
    .boxed()
}

// ------------------------------------------------------------------ files

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Files {
    source: Source,
    mode: Mode,
    enc: Enc,
    /// 0 to 5: as it is; 6: cut, 7: a byte changed, 8: another extension, 9: missing, 10: a directory
    how: u8,
    at: u16,
    loader: u8,
}
fn files(env: &Env, c: &Files) -> Check {
    let d = env.dir();
    let mut o = Obs::default();
    let Some(mut f) = put(&d, "P", &c.source)? else {
        o.trivial = true;
        return Ok(o);
    };
    let kind_of = |f: &str| match f.rsplit('.').next() {
        Some("txt") => 1,
        Some("json") => 2,
        Some("8xp" | "83p" | "82p") => 0,
        _ => 3,
    };
    let made = kind_of(&f);
    match c.how {
        6 | 7 => {
            let mut b = d.read(&f).unwrap();
            let at = if c.at % 3 == 0 { c.at as usize % 80 % b.len() } else { c.at as usize % b.len() };
            if c.how == 6 {
                b.truncate(at);
            } else {
                b[at] ^= 1 << (c.at % 8);
            }
            d.write(&f, b);
            o.label("damaged");
        }
        8 => {
            let to = format!("P.{}", ["8xp", "txt", "json", "83p", "82p", "bin", "8XP"][c.at as usize % 7]);
            let b = d.read(&f).unwrap();
            d.remove(&f);
            d.write(&to, b);
            f = to;
            o.label("another extension");
        }
        9 => {
            d.remove(&f);
            o.label("missing");
        }
        10 => {
            d.remove(&f);
            d.mkdir(&f);
            o.label("a directory");
        }
        _ => {}
    }
    let own = kind_of(&f);
    // mostly the one for the file, or for what is in it
    let loader = match c.loader {
        3..=7 if c.how == 8 => made,
        3.. if own < 3 => own,
        _ => c.loader as usize % 3,
    };
    let (mode, enc) = (c.mode.name(), c.enc.name());
    let saves: Vec<String> = EXT5.iter().map(|e| format!("L.{e}")).collect();
    let before = d.snapshot();
    let kind = ["8xp", "txt", "json"][loader];
    let job = json!([{"path": f, "loader": kind, "mode": mode, "encode": enc, "saves": saves}]);
    let got = drive(&d, &["files"], &job.to_string())?;
    let got = &got[0];
    if loader != own {
        ensure!(got["refused"] == json!(true), "{f} was loaded as {}", ["8xp", "txt", "json"][loader]);
        tree_diff(&d.snapshot(), &before).map_err(|e| format!("loading {f} was refused, but {e}"))?;
        o.label("the wrong loader");
        return Ok(o);
    }
    let args = |out: &str| vec!["convert".to_string(), f.clone(), "-o".into(), out.into(), "-d".into(), mode.into(), "-e".into(), enc.into()];
    let mut saved = 0;
    for (i, e) in EXT5.iter().enumerate() {
        let (lib, cmd) = (format!("L.{e}"), format!("C.{e}"));
        let a = args(&cmd);
        let r = d.run(&a.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        no_crash(&r, &format!("convert {f} to {e}"))?;
        let ok = got["saved"][i] == json!(true);
        ensure!(ok == r.ok(), "{f} as {e}: the library {} it, the command {}", if ok { "saves" } else { "refuses" }, if r.ok() { "does too, or declined" } else { "refuses" });
        let (l, c) = (d.read(&lib), d.read(&cmd));
        ensure!(l.is_some() == ok, "{lib} is {}, though saving it {}", if l.is_some() { "there" } else { "missing" }, if ok { "succeeded" } else { "failed" });
        if l != c {
            return Err(format!("{f} saved as {e} by the library and by the command: {}", differ(&l.unwrap_or_default(), &c.unwrap_or_default())));
        }
        saved += usize::from(ok);
        d.remove(&lib);
        d.remove(&cmd);
    }
    tree_diff(&d.snapshot(), &before).map_err(|e| format!("after loading and saving {f}: {e}"))?;
    o.label(if saved == 0 { "refused by both" } else { "saved by both" });
    o.label(format!("from {}", f.rsplit('.').next().unwrap_or("")));
    Ok(o)
}

pub fn c34_property() -> Property {
    Property {
        id: "C34",
        level: "exploration",
        subs: vec![
            generated(
                "order",
                "2 to 14 OS versions of any model, each compared with each and sorted, against their generations and numbers; non-trivial: at least two",
                500,
                20000,
                || vec((0u8..25, version()), 2..=14).prop_map(|list| Versions { list }).boxed(),
                order,
            ),
            generated(
                "matching",
                "token sets of up to 24 made-up or documented renditions, searched for the start of up to 12 texts; non-trivial: several renditions match",
                700,
                30000,
                || {
                    let key = prop_oneof![2 => any::<u8>().prop_map(|b| vec![b]), 1 => (0x5Cu8..0x64, 0u8..20).prop_map(|(a, b)| vec![a, b])];
                    (vec((key, (rendition(), rendition(), rendition()).prop_map(|(a, b, c)| [a, b, c])), 0..24), vec(rendition(), 0..6), vec((rendition(), rendition()), 0..6))
                        .prop_map(|(tokens, one, two)| Match { tokens, texts: one.into_iter().chain(two.into_iter().map(|(a, b)| a + &b)).chain([String::new()]).collect() })
                        .boxed()
                },
                matching,
            ),
            generated(
                "names-and-bytes",
                "all 256 bytes and up to 40 names, known ones and changed ones, taken for file types, destinations, modes, models and kinds of files; non-trivial: some is known",
                300,
                10000,
                || {
                    (vec(any_name(), 1..40), vec(prop_oneof![Just("**TI83F*".to_string()), Just("**TI82**".to_string()), Just("**TI83**".to_string()), "[ -~]{0,9}"], 1..6))
                        .prop_map(|(names, signatures)| Names { names, signatures })
                        .boxed()
                },
                values,
            ),
            generated(
                "files",
                "programs in all formats, a third of them damaged, renamed or missing, loaded and saved in each format by the library, against the convert command; non-trivial: the program can be encoded",
                450,
                15000,
                || {
                    (source(), all_modes(), enc(), 0u8..=10, any::<u16>(), 0u8..12)
                        .prop_map(|(source, mode, enc, how, at, loader)| Files { source, mode, enc, how, at, loader })
                        .boxed()
                },
                files,
            ),
        ],
        assumptions: vec!["renditions are not empty and shorter than 9999 bytes, as all documented ones are"],
    }
}
