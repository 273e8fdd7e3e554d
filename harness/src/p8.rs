//! C30, C31: the JSON export, and commands that run at the same time.

use crate::cli::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::p1::*;
use crate::p2::*;
use crate::p3::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ C30

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Exported {
    src: Source,
    mode: Mode,
    enc: Enc,
    edit: Option<Edit>,
}

/// The export of a program, from its file and what its text is known to be.
fn described(x: &Xp, model: &ModelRow, mode: Mode, text: &str, name: Option<&str>, comment: Option<&str>) -> Value {
    let b = x.bytes();
    let n = x.body.len();
    json!({
        "header": {
            "bytes": b[..55],
            "signature": x.sig.iter().map(|&b| b as char).collect::<String>(),
            "signature_extra": x.extra,
            "product_id": x.product,
            "comment": comment.map_or(x.comment_text(), String::from),
            "metadata_and_body_length": n + 19,
        },
        "metadata": {
            "bytes": b[55..74],
            "flag": x.flag,
            "unknown_byte": x.unknown,
            "body_and_checksum_length": n + 2,
            "file_type": match x.ftype { 5 => "Program", 6 => "LockedProgram", 0x17 => "Group", _ => "FlashApplication" },
            "name": name.map_or(x.name_text(), String::from),
            "version": x.version,
            "destination": if x.dest == 0x80 { "Archive" } else { "RAM" },
            "body_and_checksum_length_copy": n + 2,
            "body_length": n,
        },
        "body": { "bytes": x.body, "translation": text },
        "checksum": { "bytes": b[b.len() - 2..], "value": u16::from_le_bytes([b[b.len() - 2], b[b.len() - 1]]) },
        "display_mode": mode.json(),
        "model": { "model": model.name, "signature": model.sig, "product_id": model.product, "language": model.lang },
    })
}
/// First field that is missing or another one (fields beyond those wanted are allowed).
fn lacks(path: &str, got: &Value, want: &Value) -> Option<String> {
    match (got, want) {
        (Value::Object(a), Value::Object(b)) => b.iter().find_map(|(k, w)| match a.get(k) {
            Some(g) => lacks(&format!("{path}{}{k}", if path.is_empty() { "" } else { "." }), g, w),
            None => Some(format!("{path}.{k} is missing")),
        }),
        _ if got == want => None,
        _ => Some(format!("{path} is {}, want {}", cut(got), cut(want))),
    }
}
fn cut(v: &Value) -> String {
    v.to_string().chars().take(300).collect()
}

fn c30(env: &Env, c: &Exported) -> Check {
    let mut o = Obs::default();
    let d = env.dir();
    let src = match &c.src {
        Source::Json(p) => Source::Xp(p.clone()),
        s => s.clone(),
    };
    let Some(f) = put(&d, "IN", &src)? else {
        o.trivial = true;
        return Ok(o);
    };
    // the program: written by the harness, or encoded and parsed independently
    let (mut x, model, mut mode, set) = match &src {
        Source::Xp(p) => (p.xp(), p.model_row(), c.mode, p.set()),
        Source::Old(p, _) => (strip(p.xp()), p.model_row(), c.mode, p.set()),
        Source::Txt(t) => {
            must(&d.run(&["convert", &f, "-o", "T.8xp", "-e", "smart"]), "convert txt to 8xp")?;
            (parse(&read(&d, "T.8xp")?)?, t.row(), t.mode, t.set())
        }
        Source::Json(_) => unreachable!(),
    };
    let is_txt = matches!(src, Source::Txt(_));
    let m = c.mode.name();
    let (mut comment, mut name) = (None, None);
    let mut from_json = false;
    match (&c.edit, is_txt) {
        (Some(e), false) => {
            let mut a = e.args(&f);
            a.extend(["-f", "OUT.json"]);
            must(&d.run(&a), &format!("{a:?}"))?;
            e.apply(&mut x);
            match e {
                Edit::Comment(t) => comment = Some(t.clone()),
                Edit::Rename(t) => name = Some(t.to_ascii_uppercase()),
                _ => {}
            }
            mode = Mode::Acc;
            o.label(format!("edited: {}", e.kind()));
        }
        _ => {
            let mut a = vec!["convert", &f, "-o", "OUT.json", "-d", m];
            if is_txt {
                a.extend(["-e", "smart"]);
            }
            must(&d.run(&a), &format!("{a:?}"))?;
            if let Source::Json(_) = c.src {
                // once more, from json
                must(&d.run(&["convert", "OUT.json", "-o", "AGAIN.json"]), "convert json to json")?;
                ensure!(d.read("AGAIN.json") == d.read("OUT.json"), "the json made from a json differs");
                from_json = true;
            }
        }
    }
    let text = match &src {
        Source::Txt(t) => normalize(&t.program_text()),
        _ => set.decode(&x.body, mode).ok_or("HARNESS: no text")?,
    };
    let raw = read_txt(&d, "OUT.json")?;
    let j: Value = serde_json::from_str(&raw).map_err(|e| format!("OUT.json is no JSON: {e}"))?;
    let mut want = described(&x, model, mode, &text, name.as_deref(), comment.as_deref());
    if let (Source::Txt(t), Some(h)) = (&src, want.as_object_mut()) {
        // the text is kept as it was read
        h["metadata"]["name"] = json!(t.name);
        let got = j["body"]["translation"].as_str().unwrap_or("");
        let shown = set.decode(&x.body, mode).unwrap_or_default();
        ensure!(normalize(got) == text || got == shown || normalize(got).trim_end_matches('\n') == text.trim_end_matches('\n'), "body.translation is {got:?}, the text is {text:?}");
        h["body"]["translation"] = json!(got);
    }
    if let Some(m) = lacks("", &j, &want) {
        return Err(format!("the JSON export of {f}{}: {m}", if c.edit.is_some() && !is_txt { " edited" } else { "" }));
    }
    o.label(format!("from {}", if from_json { "json" } else { f.rsplit('.').next().unwrap() }));
    o.label(format!("model {}", model.name));
    o.label(format!("{} mode", mode.name()));
    Ok(o)
}

pub fn c30_property() -> Property {
    Property {
        id: "C30",
        level: "exploration",
        subs: vec![exhaustive(
            "large",
            "JSON exports of 8xp, 82p, 83p, JSON and text files with bodies around 32768 and the limit, where a length or size passes a power of two; all count",
            |t| {
                let mut v = Vec::new();
                for (i, n) in edge_sizes().into_iter().enumerate() {
                    for k in 0..5 {
                        let src = match k {
                            0 => Source::Xp(sized(n)),
                            1 | 2 => Source::Old(sized(n), k == 1),
                            3 => Source::Json(sized(n)),
                            _ => Source::Txt(Txt { name: "LARGE".into(), comment: String::new(), ftype: 0, archived: false, mode: Mode::Acc, model: 0, frags: vec![Frag::Tok(Pick::Upper((n % 26) as u8))], crlf: false, times: n }),
                        };
                        if k == 0 || t.thorough || i % 4 == k % 4 {
                            v.push(Exported { src, mode: Mode::Acc, enc: Enc::of(0), edit: if i % 2 == 0 { None } else { Some(Edit::Lock) } });
                        }
                    }
                }
                v
            },
            c30,
        ), generated(
            "export",
            "JSON exports of generated 8xp, 82p, 83p and text files, directly, edited on the way or made from JSON again: every field compared with an independent parse of the program's bytes, the reference decoder's text and the model table; non-trivial: the source exists",
            3000,
            80000,
            || {
                (source(), all_modes(), enc(), proptest::option::weighted(0.4, valid_edit()))
                    .prop_map(|(src, mode, enc, edit)| Exported { src, mode, enc, edit })
                    .boxed()
            },
            c30,
        )],
        assumptions: vec!["fields that are added to the export are not looked at"],
    }
}

// ------------------------------------------------------------------ C31

/// Commands on a directory that holds IN.8xp, IN.txt, TWO.8xp, in/ and (sometimes) the outputs.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Part {
    /// input (0 IN.8xp, 1 IN.txt, 2 TWO.8xp), output
    Convert(u8, u8),
    InPlace(bool, Edit),
    /// first input or second, new file, delete-old
    To(bool, Edit, u8, bool),
    Mass(bool),
    Details,
    /// reads what the other one may be writing
    Follow(u8),
}
const SHARED: [&str; 6] = ["OUT.8xp", "OUT.txt", "OUT.json", "OTHER.8xp", "OTHER.txt", "OTHER.json"];
impl Part {
    fn args(&self) -> Vec<String> {
        let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
        match self {
            Part::Convert(i, k) => own(&["convert", ["IN.8xp", "IN.txt", "TWO.8xp"][*i as usize % 3], "-o", SHARED[*k as usize % 6]]),
            Part::InPlace(two, e) => own(&e.args(if *two { "TWO.8xp" } else { "IN.8xp" })),
            Part::To(two, e, k, del) => {
                let mut a = own(&e.args(if *two { "TWO.8xp" } else { "IN.8xp" }));
                a.extend(own(&["-f", SHARED[*k as usize % 6]]));
                if *del {
                    a.push("-d".into());
                }
                a
            }
            Part::Mass(here) => own(&["convert", if *here { "." } else { "in" }, "-m", "-o", "out"]),
            Part::Details => own(&["details", "IN.8xp"]),
            Part::Follow(k) => own(&["convert", SHARED[*k as usize % 3], "-o", "COPY.8xp"]),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    one: Prog,
    two: Prog,
    txt: Txt,
    a: Part,
    b: Part,
    exists: bool,
    /// how many of the schedules with two switches are run
    picks: Vec<u16>,
}
const YES: &[u8] = b"y\ny\ny\ny\ny\ny\ny\ny\n";

fn stage(d: &Dir, c: &Pair) -> bool {
    if !encodable(&EncCase { txt: c.txt.clone(), enc: Enc::Smart, explicit: false }) {
        return false;
    }
    let one = Prog { name: b"ONE".to_vec(), ..c.one.clone() };
    let two = Prog { name: b"TWO".to_vec(), ..c.two.clone() };
    let txt = Txt { name: "TEXT".into(), ..c.txt.clone() };
    d.write("IN.8xp", one.bytes());
    d.write("TWO.8xp", two.bytes());
    d.write("IN.txt", txt.file());
    d.mkdir("in");
    d.write("in/a.8xp", one.bytes());
    d.write("in/b.txt", Txt { name: "TWO".into(), ..txt.clone() }.file());
    d.mkdir("out");
    if c.exists {
        // complete programs, so that they can be read
        d.write("OUT.8xp", Prog { name: b"OLD".to_vec(), ..c.two.clone() }.bytes());
        d.write("OUT.txt", Txt { name: "OLD".into(), ..txt }.file());
        d.write("out/ONE.txt", b"old");
    }
    true
}

/// What the two commands leave when they do not overlap: per path, every content it may have.
type Possible = BTreeMap<String, Vec<Option<Node>>>;

fn c31(env: &Env, c: &Pair) -> Check {
    let mut o = Obs::default();
    let Some(shim) = &env.shim else { panic!("HARNESS: no shim") };
    let d = env.dir();
    if !stage(&d, c) {
        o.trivial = true;
        return Ok(o);
    }
    let before = d.snapshot();
    let (a, b) = (c.a.args(), c.b.args());
    let plain_opt = Opt { stdin: YES, ..Opt::default() };
    let mut possible = Possible::new();
    let mut outcomes = Vec::new();
    let mut ends: BTreeMap<Vec<String>, BTreeSet<bool>> = BTreeMap::new();
    for order in [vec![&a], vec![&b], vec![&a, &b], vec![&b, &a]] {
        restore(&d, &before);
        for args in &order {
            let r = d.run_opt(args, &plain_opt);
            no_crash(&r, &format!("{args:?}"))?;
            ends.entry(args.to_vec()).or_default().insert(r.ok());
        }
        outcomes.push(d.snapshot());
    }
    for t in &outcomes {
        for k in outcomes.iter().flat_map(|t| t.keys()) {
            let v = possible.entry(k.clone()).or_default();
            let n = t.get(k).cloned();
            if !v.contains(&n) {
                v.push(n);
            }
        }
    }
    // the number of file operations of each
    let logs = env.dir();
    let log = logs.at("log").to_string_lossy().into_owned();
    let shimmed = |at: usize, log: Option<&str>| {
        let mut e = vec![("LD_PRELOAD".to_string(), shim.to_string_lossy().into_owned()), ("SHIM_LOOKS".to_string(), "1".to_string())];
        match log {
            Some(l) => e.push(("SHIM_LOG".into(), l.into())),
            None => e.extend([("SHIM_AT".to_string(), at.to_string()), ("SHIM_ACT".to_string(), "stop".to_string())]),
        }
        Opt { stdin: YES, env: e, ..Opt::default() }
    };
    let count = |args: &Vec<String>| {
        restore(&d, &before);
        logs.remove("log");
        d.run_opt(args, &shimmed(0, Some(&log)));
        logs.read_text("log").unwrap_or_default().lines().count()
    };
    let (na, nb) = (count(&a), count(&b));
    let judge = |what: &str| -> Result<(), String> {
        let got = d.snapshot();
        for (k, g) in &got {
            match possible.get(k) {
                None => return Err(format!("{what}: {k} was left behind")),
                Some(v) => {
                    if !v.iter().any(|p| p.as_ref() == Some(g)) {
                        let size = |n: &Node| if let Node::File(b) = n { format!("{} bytes {}", b.len(), hex(&b[..b.len().min(24)])) } else { "no file".into() };
                        let want: Vec<String> = v.iter().map(|n| n.as_ref().map_or("nothing".into(), size)).collect();
                        return Err(format!("{what}: {k} holds what neither order of the two gives: {}, want one of {want:?}", size(g)));
                    }
                }
            }
        }
        for (k, v) in &possible {
            ensure!(got.contains_key(k) || v.iter().any(|p| p.is_none()), "{what}: {k} is gone or was not written");
        }
        Ok(())
    };
    // schedules: (where the first stops, where the second stops, if it does)
    let mut schedules: Vec<(bool, usize, Option<usize>)> = Vec::new();
    for i in 1..=na {
        schedules.push((false, i, None));
    }
    for j in 1..=nb {
        schedules.push((true, j, None));
    }
    for p in &c.picks {
        if na > 0 && nb > 0 {
            let n = *p as usize % (2 * na * nb);
            schedules.push((n >= na * nb, 1 + n % na, Some(1 + n / na % nb)));
        }
    }
    for (swapped, i, j) in schedules {
        // `first` is stopped before its i-th operation
        let (first, second, i, j) = if swapped { (&b, &a, j.unwrap_or(i), j.map(|_| i)) } else { (&a, &b, i, j) };
        restore(&d, &before);
        let what = match j {
            None => format!("{first:?}, interrupted before its file operation {i} by {second:?}"),
            Some(j) => format!("{first:?} up to before its file operation {i}, {second:?} up to before its {j}th, then the rest of the first and of the second"),
        };
        let p = d.start(first, &shimmed(i, None));
        if !p.stopped() {
            no_crash(&p.finish(), &what)?;
            continue;
        }
        let (rp, rq);
        match j {
            None => {
                rq = d.run_opt(second, &plain_opt);
                p.go_on();
                rp = p.finish();
            }
            Some(j) => {
                let q = d.start(second, &shimmed(j, None));
                q.stopped();
                p.go_on();
                rp = p.finish();
                q.go_on();
                rq = q.finish();
                o.label("two switches");
            }
        }
        no_crash(&rp, &what)?;
        no_crash(&rq, &what)?;
        for (r, args) in [(&rp, first), (&rq, second)] {
            // a mass conversion ends when a file it has listed is moved away before its turn
            ensure!(args.iter().any(|a| a == "-m") || ends[args].contains(&r.ok()), "{what}: {args:?} ends with {:?}, as in neither order of the two: {}", r.code, r.brief());
        }
        judge(&what)?;
    }
    let kind = |p: &Part| match p {
        Part::Convert(..) => "convert",
        Part::InPlace(..) => "edit in place",
        Part::To(_, _, _, true) => "move",
        Part::To(..) => "edit to a file",
        Part::Mass(_) => "mass",
        Part::Details => "details",
        Part::Follow(_) => "reader",
    };
    let mut kinds = [kind(&c.a), kind(&c.b)];
    kinds.sort();
    o.label(format!("{} and {}", kinds[0], kinds[1]));
    o.label_if(c.exists, "outputs exist");
    o.trivial = na + nb == 0;
    Ok(o)
}

pub fn c31_property() -> Property {
    let part = || {
        prop_oneof![
            5 => (0u8..3, 0u8..6).prop_map(|(i, k)| Part::Convert(i, k)),
            2 => (any::<bool>(), valid_edit()).prop_map(|(t, e)| Part::InPlace(t, e)),
            4 => (any::<bool>(), valid_edit(), 0u8..6, any::<bool>()).prop_map(|(t, e, k, d)| Part::To(t, e, k, d)),
            2 => any::<bool>().prop_map(Part::Mass),
            1 => Just(Part::Details),
            2 => (0u8..3).prop_map(Part::Follow),
        ]
    };
    Property {
        id: "C31",
        level: "exploration",
        subs: vec![generated(
            "overlap",
            "two commands (conversions, edits in place, to new files and moves, mass conversions, readers) on the same directory, often on the same files: each interrupted by the whole of the other before every one of its file operations, looks at a path and messages, and sampled schedules in which both are interrupted; every file must hold what some order of the two, or one alone, gives; non-trivial: there is an operation to interrupt",
            240,
            8000,
            move || {
                let small_txt = txt_with(vec(pick().prop_map(Frag::Tok), 0..10).boxed(), all_modes());
                (small_prog(), small_prog(), small_txt, part(), part(), any::<bool>(), vec(any::<u16>(), 12))
                    .prop_map(|(one, two, txt, a, b, exists, picks)| Pair { one, two, txt, a, b, exists, picks })
                    .boxed()
            },
            c31,
        )],
        assumptions: vec![
            "processes are interrupted before calls that change the file system, print, or look at a path (stat, access, opening it), not between reads of an open file",
            "when one command reads a file before the other changes it, the later save wins",
        ],
    }
}
