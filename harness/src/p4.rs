//! C19 - C24, C26: search, determinism, listings, read-only inputs, command lines, size limit,
//! calculator models.

use crate::cli::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::p1::*;
use crate::p2::*;
use crate::p3::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ C19

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Query {
    text: String,
    /// accessible, pretty, byte, or something else; empty: not given
    kind: String,
}

fn def_key(k: &[u8]) -> String {
    format!("0x{}", k.iter().map(|b| format!("{b:02X}")).collect::<String>())
}
/// What is printed for a definition list, checked for every syntax and description in order.
fn shows(out: &str, defs: &[(String, String)]) -> Result<(), String> {
    let mut rest = out;
    for (s, t) in defs {
        let part = format!("syntax: {s}\n{t}\n");
        let Some(i) = rest.find(&part) else { return Err(format!("{s:?} / {t:?} is not shown in its place")) };
        rest = &rest[i + part.len()..];
    }
    let n = out.matches("syntax: ").count();
    let want: usize = defs.iter().map(|(s, t)| format!("syntax: {s}\n{t}").matches("syntax: ").count()).sum();
    ensure!(n == want, "{n} definitions are shown, want {want}");
    Ok(())
}

fn c19(env: &Env, q: &Query) -> Check {
    let d = env.dir();
    let w = world();
    let set = Set::of_model(0);
    let mut o = Obs::default();
    let mut args = vec!["search", &q.text];
    if !q.kind.is_empty() {
        args.extend(["-t", &q.kind]);
    }
    let r = d.run(&args);
    let what = format!("{args:?}");
    no_crash(&r, &what)?;
    let mode = match q.kind.as_str() {
        "" | "accessible" => Some(Mode::Acc),
        "pretty" => Some(Mode::Pretty),
        _ => None,
    };
    // the definitions that may be shown
    let mut answers: Vec<Option<&Vec<(String, String)>>> = Vec::new();
    if let Some(mode) = mode {
        let found = set.longest(&q.text, mode);
        match found {
            Some(i) => {
                let text = &set.toks[i].text[mode as usize];
                for t in set.toks.iter().filter(|t| &t.text[mode as usize] == text) {
                    answers.push(w.defs.get(&def_key(&t.key)));
                }
                o.label(if answers.len() > 1 { "rendition of several tokens" } else { "token found" });
                o.label_if(text.len() < q.text.len(), "text goes on after the token");
            }
            None => {
                answers.push(None);
                o.label("starts with no token");
            }
        }
    } else if q.kind == "byte" {
        answers.push(if q.text.starts_with("0x") { w.defs.get(&q.text) } else { None });
        o.label("byte value");
    } else {
        answers.push(None);
        o.label("unknown type");
    }
    let mut errors = Vec::new();
    let mut good = false;
    for a in &answers {
        let e = match a {
            Some(defs) => {
                if r.ok() {
                    shows(&plain(&r.out), defs).err()
                } else {
                    Some("refused".into())
                }
            }
            None => {
                if r.ok() {
                    Some("not refused".into())
                } else {
                    None
                }
            }
        };
        match e {
            None => good = true,
            Some(e) => errors.push(e),
        }
    }
    ensure!(good, "{what}: {}; {}", errors.join(" / "), r.brief());
    // the same as searching the byte value of what was found
    if let (Some(mode), true) = (mode, r.ok()) {
        let i = set.longest(&q.text, mode).unwrap();
        let text = &set.toks[i].text[mode as usize];
        let out = plain(&r.out);
        let defs_only = |s: &str| s.find("syntax: ").map(|i| s[i..].to_string()).unwrap_or_default();
        let mut same = false;
        for t in set.toks.iter().filter(|t| &t.text[mode as usize] == text) {
            let b = d.run(&["search", &def_key(&t.key), "-t", "byte"]);
            no_crash(&b, "search byte")?;
            same |= b.ok() && defs_only(&plain(&b.out)) == defs_only(&out);
        }
        ensure!(same, "{what} shows something else than the search of its byte value: {}", r.brief());
    }
    o.label(if r.ok() { "shown" } else { "refused" });
    ensure!(d.snapshot().is_empty(), "{what} created files");
    Ok(o)
}

pub fn c19_property() -> Property {
    let no_dash = |s: &str| !(s == "--" || s == "--help" || s == "-h" || s.contains('\0'));
    Property {
        id: "C19",
        level: "exploration",
        subs: vec![
            exhaustive(
                "every-token",
                "every accessible and pretty rendition of the newest model alone, every byte value of one byte and of a two-byte prefix, malformed byte values, texts that look like options; all count",
                move |t| {
                    let mut v = Vec::new();
                    let set = Set::of_model(0);
                    for (i, k) in set.toks.iter().enumerate() {
                        for (m, kind) in [(0, if i % 2 == 0 { "" } else { "accessible" }), (1, "pretty")] {
                            if no_dash(&k.text[m]) {
                                v.push(Query { text: k.text[m].clone(), kind: kind.into() });
                                if k.text[m].chars().count() > 1 {
                                    let mut s: Vec<char> = k.text[m].chars().collect();
                                    s.pop();
                                    let s: String = s.into_iter().collect();
                                    if no_dash(&s) && (t.thorough || i % 4 == 0) {
                                        v.push(Query { text: s, kind: kind.into() });
                                    }
                                }
                            }
                        }
                    }
                    let byte = |s: String| Query { text: s, kind: "byte".into() };
                    for b in 0..=255u32 {
                        v.push(byte(format!("0x{b:02X}")));
                    }
                    let mut leads: Vec<u8> = set.toks.iter().filter(|t| t.key.len() == 2).map(|t| t.key[0]).collect();
                    leads.dedup();
                    leads.push(0x41);
                    for l in leads {
                        for b in 0..=255u32 {
                            if t.thorough || set.get(&[l, b as u8]).is_some() || b % 8 == 0 {
                                v.push(byte(format!("0x{l:02X}{b:02X}")));
                            }
                        }
                    }
                    for s in ["", "0x", "0xG0", "BB00", "0xBB0", "0xBB000", "0xBB0000", " 0xBB00", "0X41", "$41", "41", "0x4", "0x041", "0x41 ", "x41", "0x-1", "Disp ", "0x0x41", "0xBB 00", "0x$BB$00", "A"] {
                        v.push(byte(s.into()));
                    }
                    for kind in ["ti", "Accessible", "bytes", "", " ", "accessible ", "PRETTY", "hex"] {
                        if !kind.is_empty() {
                            v.push(Query { text: "Disp ".into(), kind: kind.into() });
                            v.push(Query { text: "0x41".into(), kind: kind.into() });
                        }
                    }
                    // texts that look like options are texts
                    for text in ["-t", "--type", "-", "-tx", "--typo", "--foo", "-1", "-o", "--pretty", "- t"] {
                        for kind in ["", "accessible", "pretty", "byte", "-t", "--type"] {
                            v.push(Query { text: text.into(), kind: kind.into() });
                        }
                    }
                    v.push(Query { text: String::new(), kind: "".into() });
                    v.push(Query { text: String::new(), kind: "pretty".into() });
                    v
                },
                c19,
            ),
            generated(
                "texts",
                "texts that start with a token's rendition or with a part of it, and arbitrary texts, in accessible and pretty; all count",
                3500,
                60000,
                move || {
                    let text = prop_oneof![
                        4 => (vec(pick(), 1..4), any::<bool>(), 0usize..3).prop_map(|(p, m, cut)| {
                            let s: String = resolve(&p, Set::of_model(0)).iter().map(|t| t.text[m as usize].as_str()).collect();
                            let n = s.chars().count();
                            s.chars().take(n.saturating_sub(cut).max(1)).collect::<String>()
                        }),
                        1 => (pick(), "[ -~]{0,6}").prop_map(|(p, s)| format!("{}{s}", p.resolve(Set::of_model(0)).text[0])),
                        1 => vec(any::<char>(), 0..8).prop_map(|v| v.into_iter().collect::<String>()),
                        1 => "[ -~]{0,12}".prop_map(String::from),
                    ];
                    (text, prop_oneof![Just(""), Just("accessible"), Just("pretty")])
                        .prop_map(|(text, kind)| Query { text: normalize(&text), kind: kind.into() })
                        .prop_filter("reads as an option", move |q| no_dash(&q.text))
                        .boxed()
                },
                c19,
            ),
        ],
        assumptions: vec!["the definitions are those of the pinned copy of token_definitions.json", "where several tokens share the rendition, any of them may be shown", "lower-case hexadecimal byte values are left open"],
    }
}

// ------------------------------------------------------------------ C20

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cmd20 {
    Convert(Source, u8, Mode, Enc),
    /// text of a model with renditions that several tokens share
    Shared(u8, Mode, Enc, Vec<u16>),
    Search(String, bool),
    Mass(Vec<Source>, Mode, Enc),
    Edit(Prog, Edit),
    Details(Prog),
    Bad(Vec<u8>, u8),
    SharedAll(u8, Mode, Enc, u16),
    /// models, help and the like
    Say(Vec<String>),
}

fn shared_renditions(set: &'static Set, mode: Mode) -> Vec<&'static str> {
    let mut n = std::collections::BTreeMap::new();
    for t in &set.toks {
        *n.entry(t.text[mode as usize].as_str()).or_insert(0) += 1;
    }
    n.into_iter().filter(|x| x.1 > 1).map(|x| x.0).collect()
}

fn c20(env: &Env, c: &Cmd20) -> Check {
    let mut o = Obs::default();
    let d = env.dir();
    let own = |v: Vec<&str>| v.into_iter().map(String::from).collect::<Vec<_>>();
    let text = |model: u8, mode: Mode, body: String| format!("SHARED\nc\nProgram\nRAM\n{}\n{}\n{}", mode.name(), MODELS[model as usize % 25].name, body);
    let args = match c {
        Cmd20::Convert(s, e, m, enc) => {
            let Some(f) = put(&d, "IN", s)? else { return Ok(Obs { trivial: true, ..o }) };
            o.label("convert");
            own(vec!["convert", &f, "-o", &format!("OUT.{}", EXT5[*e as usize % 5]), "-d", m.name(), "-e", enc.name(), "-c", "-p"])
        }
        Cmd20::Shared(model, mode, enc, picks) => {
            let set = Set::of_model(*model as usize % 25);
            let l = shared_renditions(set, *mode);
            if l.is_empty() {
                return Ok(Obs { trivial: true, ..o });
            }
            let body: Vec<&str> = picks.iter().map(|i| l[*i as usize % l.len()]).collect();
            d.write("IN.txt", text(*model, *mode, body.concat()));
            o.label("text of shared renditions");
            own(vec!["convert", "IN.txt", "-o", "OUT.8xp", "-e", enc.name(), "-c", "-p"])
        }
        Cmd20::SharedAll(model, mode, enc, _) => {
            let l = shared_renditions(Set::of_model(*model as usize % 25), *mode);
            if l.is_empty() {
                return Ok(Obs { trivial: true, ..o });
            }
            d.write("IN.txt", text(*model, *mode, l.iter().filter(|s| !s.contains('\n')).cloned().collect::<Vec<_>>().join("\n")));
            o.label("all shared renditions of a model");
            own(vec!["convert", "IN.txt", "-o", "OUT.8xp", "-e", enc.name()])
        }
        Cmd20::Search(s, pretty) => {
            o.label("search");
            own(vec!["search", s, "-t", if *pretty { "pretty" } else { "accessible" }])
        }
        Cmd20::Mass(srcs, m, enc) => {
            d.mkdir("in");
            d.mkdir("out");
            for (i, s) in srcs.iter().enumerate() {
                let _ = put(&d, &format!("in/f{i}"), s)?;
            }
            o.label("mass");
            own(vec!["convert", "in", "-m", "-o", "out", "-d", m.name(), "-e", enc.name()])
        }
        Cmd20::Edit(p, e) => {
            d.write("IN.8xp", p.bytes());
            o.label("edit");
            let mut a = own(e.args("IN.8xp"));
            a.extend(own(vec!["-f", "OUT.8xp"]));
            a
        }
        Cmd20::Details(p) => {
            d.write("IN.8xp", p.bytes());
            o.label("details");
            own(vec!["details", "IN.8xp"])
        }
        Cmd20::Bad(b, e) => {
            let f = format!("IN.{}", EXT5[*e as usize % 5]);
            d.write(&f, b);
            o.label("unreadable input");
            own(vec!["convert", &f, "-o", "OUT.json", "-p"])
        }
        Cmd20::Say(v) => {
            o.label("help, models or version");
            v.clone()
        }
    };
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let before = d.snapshot();
    let mut first: Option<(Run, Tree)> = None;
    let runs = if matches!(c, Cmd20::SharedAll(..)) { 6 } else { 3 };
    for n in 0..runs {
        restore(&d, &before);
        // the second run is made on another day
        let env = if n == 1 { vec![("LD_PRELOAD".to_string(), env.shim.as_ref().expect("HARNESS: no shim").display().to_string()), ("SHIM_TIME".to_string(), "40000000".to_string())] } else { vec![] };
        let r = d.run_opt(&a, &Opt { stdin: b"n\nn\nn\n", env, ..Opt::default() });
        no_crash(&r, &format!("{a:?}"))?;
        let t = d.snapshot();
        match &first {
            None => first = Some((r, t)),
            Some((r0, t0)) => {
                tree_diff(&t, t0).map_err(|e| format!("run {} of {a:?} differs from the first: {e}", n + 1))?;
                ensure!(r.out == r0.out, "run {} of {a:?} prints something else: {}", n + 1, differ_text(&r.out, &r0.out));
                ensure!(r.err == r0.err && r.code == r0.code, "run {} of {a:?} ends differently: {} / {}", n + 1, r.brief(), r0.brief());
            }
        }
    }
    o.label(if first.unwrap().0.ok() { "succeeded" } else { "refused" });
    Ok(o)
}

pub fn c20_property() -> Property {
    Property {
        id: "C20",
        level: "exploration",
        subs: vec![
            exhaustive(
                "shared",
                "for every model, mode and encoding one text with every rendition that several tokens share, encoded six times; search of every such rendition three times; trivial where a model has none",
                |_| {
                    let mut v = Vec::new();
                    for model in 0..25u8 {
                        for m in 0..3u8 {
                            for e in 0..3u8 {
                                v.push(Cmd20::SharedAll(model, Mode::of(m), Enc::of(e), 0));
                            }
                        }
                    }
                    for (mode, pretty) in [(Mode::Acc, false), (Mode::Pretty, true)] {
                        for s in shared_renditions(Set::of_model(0), mode) {
                            if !s.starts_with("--") {
                                v.push(Cmd20::Search(s.into(), pretty));
                            }
                        }
                    }
                    v
                },
                c20,
            ),
            exhaustive(
                "messages",
                "help, version, models and the help of every command, each run three times; all count",
                |_| {
                    let own = |v: &[&str]| Cmd20::Say(v.iter().map(|s| s.to_string()).collect());
                    let mut v = vec![own(&[]), own(&["models"]), own(&["version"]), own(&["help"]), own(&["no-such"]), own(&["help", "no-such"])];
                    for c in ["help", "version", "models", "convert", "search", "rename", "comment", "lock", "unlock", "archive", "unarchive", "details"] {
                        v.push(own(&["help", c]));
                        v.push(own(&[c, "--help"]));
                        v.push(own(&[c]));
                    }
                    v
                },
                c20,
            ),
            generated(
                "commands",
                "random conversions, texts of shared renditions, searches, mass conversions, edits, details and unreadable inputs, each run three times, once on another day; non-trivial: the input exists",
                2200,
                50000,
                || {
                    let p = || prog_with(letters().prop_map(|s| s.into_bytes()).boxed(), any_comment(), vec(pick(), 0..60).boxed());
                    prop_oneof![
                        4 => (source(), 0u8..5, all_modes(), enc()).prop_map(|(s, e, m, n)| Cmd20::Convert(s, e, m, n)),
                        4 => (0u8..25, prop_oneof![Just(Mode::Pretty), Just(Mode::Ti), Just(Mode::Acc)], enc(), vec(any::<u16>(), 1..12)).prop_map(|(a, b, c, d)| Cmd20::Shared(a, b, c, d)),
                        1 => (pick(), any::<bool>()).prop_map(|(p, b)| { let t = p.resolve(Set::of_model(0)); Cmd20::Search(t.text[b as usize].clone(), b) }).prop_filter("option", |c| !matches!(c, Cmd20::Search(s, _) if s.starts_with("--"))),
                        1 => (vec(source(), 1..4), all_modes(), enc()).prop_map(|(a, b, c)| Cmd20::Mass(a, b, c)),
                        1 => (p(), valid_edit()).prop_map(|(a, b)| Cmd20::Edit(a, b)),
                        1 => p().prop_map(Cmd20::Details),
                        1 => (vec(any::<u8>(), 0..120), 0u8..5).prop_map(|(a, b)| Cmd20::Bad(a, b)),
                    ]
                    .boxed()
                },
                c20,
            ),
        ],
        assumptions: vec!["every process draws its own hash seed, as the standard library does", "mass conversion may meet the files of a directory in the order the file system gives, which stays the same here"],
    }
}

// ------------------------------------------------------------------ C21

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Listing {
    src: Source,
    mode: Mode,
    enc: Enc,
    content: bool,
    preview: bool,
    out: Option<u8>,
}
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace() && *c != ',').collect()
}
fn hexes(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect()
}
fn type_name(b: u8) -> &'static str {
    FTYPES.iter().find(|f| f.0 == b).map_or("?", |f| f.1)
}
/// The status block of details and previews, without the total size.
fn status(x: &Xp, row: &ModelRow) -> Vec<String> {
    vec![
        format!("Body Size: {} bytes", x.body.len()),
        "----- Status -----".into(),
        format!("model: {}", row.name),
        format!("language: {}", row.lang),
        format!("Destination: {}", dest_name(x.dest)),
        format!("File Type: {}", type_name(x.ftype)),
    ]
}

fn c21(env: &Env, c: &Listing) -> Check {
    let mut o = Obs::default();
    let d = env.dir();
    let Some(f) = put(&d, "IN", &c.src)? else { return Ok(Obs { trivial: true, ..o }) };
    let (m, e) = (c.mode.name(), c.enc.name());
    if let Source::Txt(t) = &c.src {
        if !encodable(&EncCase { txt: t.clone(), enc: c.enc, explicit: true }) {
            return Ok(Obs { trivial: true, ..o });
        }
    }
    // the 8xp that is read or would be written
    must(&d.run(&["convert", &f, "-o", "REF.8xp", "-d", m, "-e", e]), "convert to 8xp")?;
    let bytes = read(&d, "REF.8xp")?;
    d.remove("REF.8xp");
    let x = parse(&bytes)?;
    let (row, text, name, comment) = match &c.src {
        Source::Xp(p) | Source::Old(p, _) => (p.model_row(), p.text(c.mode), String::from_utf8_lossy(&p.name).into_owned(), comment_text(&p.comment)),
        Source::Json(p) => (p.model_row(), p.text(Mode::Acc), String::from_utf8_lossy(&p.name).into_owned(), comment_text(&p.comment)),
        Source::Txt(t) => (t.row(), t.program_text(), x.name_text(), x.comment_text()),
    };
    if let Source::Xp(p) = &c.src {
        ensure!(bytes == p.bytes(), "harness: not a copy");
    }
    let old = matches!(c.src, Source::Old(..));
    let mut block = vec![name.clone(), comment.clone(), format!("Total Size: {} bytes", bytes.len())];
    block.extend(status(&x, row));
    let before = d.snapshot();
    // details
    if matches!(c.src, Source::Xp(_) | Source::Old(..)) {
        let r = d.run(&["details", &f]);
        must(&r, "details")?;
        let lines: Vec<&str> = r.out.lines().collect();
        for (i, want) in block.iter().enumerate() {
            if old && i == 2 {
                continue;
            }
            ensure!(lines.get(i) == Some(&want.as_str()), "details of {f}: line {} is {:?}, want {want:?}", i + 1, lines.get(i));
        }
        ensure!(lines.len() == block.len(), "details of {f}: {} lines", lines.len());
        o.label("details");
    }
    // listings
    let mut args = vec!["convert", &f, "-d", m, "-e", e];
    if c.content {
        args.push("-c");
    }
    if c.preview {
        args.push("-p");
    }
    let out = c.out.map(|k| format!("OUT.{}", EXT5[k as usize % 5]));
    if let Some(x) = &out {
        args.extend(["-o", x]);
    }
    if !c.content && !c.preview {
        return Ok(o);
    }
    let r = d.run(&args);
    let what = format!("{args:?}");
    must(&r, &what)?;
    // without the report of the saved file
    let mut shown = r.out.clone();
    if out.is_some() {
        let keep: Vec<&str> = r.out.lines().collect();
        let n = keep.iter().rposition(|l| plain(l).contains("Successfully saved")).ok_or(format!("{what} does not report the saved file"))?;
        let n = if n > 0 && plain(keep[n - 1]).contains("Warning") { n - 1 } else { n };
        shown = keep[..n].join("\n") + "\n";
    }
    let full = format!("{}\n----- Program -----\n{}\n", block.join("\n"), text);
    let wants_bytes = match &c.src {
        Source::Xp(_) | Source::Old(..) => c.content,
        _ => c.preview,
    };
    let wants_text = match &c.src {
        Source::Xp(_) | Source::Old(..) | Source::Json(_) => c.preview,
        _ => c.content,
    };
    let wants_json = matches!(c.src, Source::Json(_)) && c.content;
    if wants_text {
        let text_ok = if old {
            shown.contains(&format!("\n----- Program -----\n{text}\n")) && block.iter().enumerate().all(|(i, b)| i == 2 || shown.contains(&format!("{b}\n")))
        } else {
            shown.contains(&full)
        };
        ensure!(text_ok, "{what} does not show {full:?} but {shown:?}");
        o.label("status and text shown");
    } else {
        ensure!(!shown.contains("\n----- Program -----\n"), "{what} shows the text without being asked to: {shown:?}");
    }
    if wants_text && !wants_bytes && !wants_json && !old {
        ensure!(shown.trim_end() == full.trim_end(), "{what} shows more than {full:?}: {shown:?}");
    }
    if wants_bytes {
        let h = hexes(&bytes);
        let s = squeeze(&shown);
        let good = match &c.src {
            Source::Xp(_) | Source::Old(..) => s.starts_with(&h) && (wants_text || s == h),
            Source::Txt(_) => s.ends_with(&h) && (wants_text || s == h),
            Source::Json(_) => s.contains(&h),
        };
        ensure!(good, "{what}: the bytes shown are not those of the 8xp: shown {} want {h}", s.chars().take(2000).collect::<String>());
        o.label("bytes shown");
    }
    if wants_json {
        let mut de = serde_json::Deserializer::from_str(&shown).into_iter::<serde_json::Value>();
        let shown_json = de.next().and_then(|v| v.ok()).ok_or(format!("{what} shows no JSON"))?;
        let file: serde_json::Value = serde_json::from_slice(&read(&d, &f)?).map_err(|e| e.to_string())?;
        ensure!(shown_json == file, "{what} shows another JSON than the file holds");
        if !wants_text && !wants_bytes {
            ensure!(shown[de.byte_offset()..].trim().is_empty(), "{what} shows more than the JSON: {:?}", &shown[de.byte_offset()..]);
        }
        o.label("json shown");
    }
    let after = d.snapshot();
    let mut want = before;
    if let Some(x) = &out {
        ensure!(after.contains_key(x), "{what} did not write {x}");
        want.insert(x.clone(), after[x].clone());
    }
    tree_diff(&after, &want).map_err(|e| format!("{what}: {e}"))?;
    o.label(match &c.src {
        Source::Xp(_) => "8xp",
        Source::Old(..) => "82p or 83p",
        Source::Txt(_) => "txt",
        Source::Json(_) => "json",
    });
    o.label_if(out.is_some(), "also saved");
    Ok(o)
}

pub fn c21_property() -> Property {
    let p = || prog_with(prop_oneof![letters().prop_map(|s| s.into_bytes()), calc_name()].boxed(), text_comment(), body());
    let t = || txt_with(plain_frags(), all_modes()).prop_map(|t| Txt { comment: t.comment.chars().take(42).collect(), ..t });
    let src = move || {
        prop_oneof![
            4 => p().prop_map(Source::Xp),
            2 => (p(), any::<bool>()).prop_map(|(p, t)| Source::Old(p, t)),
            3 => t().prop_map(Source::Txt),
            2 => p().prop_map(Source::Json),
        ]
    };
    Property {
        id: "C21",
        level: "exploration",
        subs: vec![exhaustive(
            "large",
            "8xp, 82p, 83p and JSON files with bodies around 32768 and the limit, where a size passes a power of two; all count",
            |t| {
                let mut v = Vec::new();
                for (i, n) in edge_sizes().into_iter().enumerate() {
                    for k in 0..4 {
                        let src = match k {
                            0 => Source::Xp(sized(n)),
                            1 | 2 => Source::Old(sized(n), k == 1),
                            _ => Source::Json(sized(n)),
                        };
                        if k == 0 || t.thorough || i % 3 == 0 {
                            v.push(Listing { src, mode: Mode::Acc, enc: Enc::of(0), content: k != 0 || i % 4 == 0, preview: k == 3 || i % 4 != 0, out: None });
                        }
                    }
                }
                v
            },
            c21,
        ), generated(
            "listings",
            "random 8xp, 82p, 83p, text and JSON programs, details and every combination of content, preview and output; non-trivial: the input can be converted",
            4000,
            80000,
            move || {
                (src(), all_modes(), enc(), any::<bool>(), any::<bool>(), prop_oneof![2 => Just(None), 1 => (0u8..5).prop_map(Some)])
                    .prop_map(|(src, mode, enc, content, preview, out)| Listing { src, mode, enc, content, preview, out })
                    .boxed()
            },
            c21,
        )],
        assumptions: vec!["names of ASCII characters, comments of printable UTF-8", "the total size of an 82p/83p file (as stored, or as an 8xp) is left open", "the layout of the byte listing is left open beyond two hexadecimal digits per byte"],
    }
}

// ------------------------------------------------------------------ C22

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ReadOnly {
    src: Source,
    muts: Vec<ByteMut>,
    mode: Mode,
    enc: Enc,
    /// 0..5 convert to a format, 5 preview, 6 content, 7 details, 8 search, 9 no output option,
    /// 10 mass preview, 11 unsupported output, 12 missing output directory, 13 unknown option values
    what: u8,
    content: bool,
    preview: bool,
    sub: bool,
    answer: u8,
    /// the output path already holds something
    exists: bool,
}

fn c22(env: &Env, c: &ReadOnly) -> Check {
    let mut o = Obs::default();
    let d = env.dir();
    d.mkdir("dir");
    d.mkdir("empty");
    let Some(f) = put(&d, "IN", &c.src)? else { return Ok(Obs { trivial: true, ..o }) };
    if !c.muts.is_empty() {
        let mut b = read(&d, &f)?;
        for m in &c.muts {
            mutate(&mut b, m);
        }
        d.write(&f, b);
        o.label("mutated input");
    }
    let input = if c.sub {
        let b = read(&d, &f)?;
        d.remove(&f);
        let g = format!("dir/{f}");
        d.write(&g, b);
        g
    } else {
        f.clone()
    };
    for n in ["IN.bak", "IN.tmp", "OUT", "OUT.bak", "OUT.8xp.tmp", "dir/keep.8xp", "NAME.8xp", ".hidden", "SAMPLE.txt"] {
        d.write(n, format!("bystander {n}"));
    }
    d.symlink("NAME.8xp", "link.8xp");
    d.symlink("/nowhere", "dangling");
    let (m, e) = (c.mode.name(), c.enc.name());
    let out = match c.what {
        0..=4 => format!("{}NEW.{}", if c.sub { "dir/" } else { "" }, EXT5[c.what as usize]),
        11 => "NEW.bin".into(),
        12 => "missing/NEW.8xp".into(),
        _ => String::new(),
    };
    let exists = c.exists && c.what < 5;
    if exists {
        d.write(&out, "what was there before");
    }
    let before = d.snapshot();
    let mut args: Vec<&str> = match c.what {
        7 => vec!["details", &input],
        8 => vec!["search", "Disp "],
        10 => vec!["convert", if c.sub { "dir" } else { "." }, "-m", "-d", m, "-e", e],
        13 => vec!["convert", &input, "-o", "NEW.8xp", "-d", "nonsense", "-e", "nonsense"],
        _ => vec!["convert", &input, "-d", m, "-e", e],
    };
    if !out.is_empty() {
        args.extend(["-o", &out]);
    }
    if c.what == 5 || c.what == 10 || (c.preview && c.what < 5) {
        args.push("-p");
    }
    if c.what == 6 || (c.content && c.what < 5) {
        args.push("-c");
    }
    let agreed = c.answer % 3 == 1;
    let (r, used) = d.run_traced(&args, &Opt { stdin: [&b""[..], b"y\n", b"n\n"][c.answer as usize % 3], ..Opt::default() });
    let what = format!("{args:?}");
    no_crash(&r, &what)?;
    if let Some(p) = d.strayed(&used) {
        return Err(format!("{what} made or changed {p:?}, which it was not told to"));
    }
    let after = d.snapshot();
    let mut want = before.clone();
    if exists && !agreed {
        o.label("output existed, replacing it declined");
    } else if c.what < 5 && r.ok() {
        if exists {
            o.label("output existed, replacing it agreed");
        }
        match after.get(&out) {
            Some(Node::File(b)) => {
                want.insert(out.clone(), Node::File(b.clone()));
            }
            _ => return Err(format!("{what} succeeded without writing {out}")),
        }
        o.label(format!("converted to {}", EXT5[c.what as usize]));
    } else if r.ok() {
        o.label(format!("succeeded, command {}", c.what));
    } else {
        o.label(format!("refused, command {}", c.what));
    }
    tree_diff(&after, &want).map_err(|e| format!("{what} ({}): {e}", if r.ok() { "succeeded" } else { "refused" }))?;
    if c.what >= 11 || c.what == 9 {
        ensure!(!r.ok() || c.what == 9, "{what} was not refused: {}", r.brief());
    }
    Ok(o)
}

pub fn c22_property() -> Property {
    Property {
        id: "C22",
        level: "exploration",
        subs: vec![generated(
            "bystanders",
            "random valid and mutated inputs through convert (each format, listings only, unsupported and impossible outputs, wrong option values, mass preview), details and search, with bystander files and sometimes an output path that is taken; the whole tree is compared; non-trivial: the input exists",
            4500,
            90000,
            || {
                (
                    source(),
                    prop_oneof![2 => Just(vec![]), 1 => vec(byte_mut(), 1..4)],
                    all_modes(),
                    enc(),
                    prop_oneof![3 => 0u8..5, 2 => 5u8..14],
                    any::<bool>(),
                    any::<bool>(),
                    any::<bool>(),
                    0u8..3,
                    prop_oneof![2 => Just(false), 1 => Just(true)],
                )
                    .prop_map(|(src, muts, mode, enc, what, content, preview, sub, answer, exists)| ReadOnly { src, muts, mode, enc, what, content, preview, sub, answer, exists })
                    .boxed()
            },
            c22,
        )],
        assumptions: vec!["an output path that is taken is answered with y, n or nothing; what counts as consent is C11's"],
    }
}

// ------------------------------------------------------------------ C23

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Line {
    /// 0 convert, 1 search, 2 mass convert, 3.. the edits, 9 details
    cmd: u8,
    src: Source,
    edit: Edit,
    /// which options are given
    given: u8,
    mode: Mode,
    enc: Enc,
    ext: u8,
    /// which are spelled long
    long: u16,
    order: Vec<u8>,
    /// give the default explicitly where it is left out
    explicit: bool,
    help: Option<(u8, bool)>,
}
/// One option: short, long, value.
type OptArg = (&'static str, &'static str, Option<String>);

fn parts(c: &Line, d: &Dir) -> Result<Option<(Vec<String>, Vec<OptArg>, Vec<OptArg>)>, String> {
    let bit = |i: u8| c.given >> i & 1 != 0;
    let mut opts: Vec<OptArg> = Vec::new();
    // options at their default that may be left out
    let mut defaults: Vec<OptArg> = Vec::new();
    let own = |s: &str| Some(s.to_string());
    let head: Vec<String>;
    match c.cmd {
        0 | 2 => {
            let input = if c.cmd == 2 {
                d.mkdir("in");
                d.mkdir("out");
                if put(d, "in/IN", &c.src)?.is_none() {
                    return Ok(None);
                }
                opts.push(("-m", "--mass", None));
                "in".to_string()
            } else {
                match put(d, "IN", &c.src)? {
                    Some(f) => f,
                    None => return Ok(None),
                }
            };
            head = vec!["convert".into(), input];
            if bit(0) {
                opts.push(("-o", "--output", Some(if c.cmd == 2 { "out".into() } else { format!("OUT.{}", EXT5[c.ext as usize % 5]) })));
            }
            let m = ("-d", "--display-mode", own(c.mode.name()));
            if c.mode == Mode::Acc {
                defaults.push(m)
            } else {
                opts.push(m)
            }
            let e = ("-e", "--encode-mode", own(c.enc.name()));
            if c.enc == Enc::Smart {
                defaults.push(e)
            } else {
                opts.push(e)
            }
            if bit(1) {
                opts.push(("-c", "--content", None));
            }
            if bit(2) {
                opts.push(("-p", "--preview", None));
            }
        }
        1 => {
            let set = Set::of_model(0);
            let t = Pick::Any(c.given as u16 * 3).resolve(set);
            let text = t.text[(c.mode == Mode::Pretty) as usize].clone();
            if asks_for_help(&text) {
                return Ok(None);
            }
            head = vec!["search".into(), text];
            let k = ("-t", "--type", own(if c.mode == Mode::Pretty { "pretty" } else { "accessible" }));
            if c.mode == Mode::Pretty {
                opts.push(k)
            } else {
                defaults.push(k)
            }
        }
        9 => {
            let Some(f) = put(d, "IN", &c.src)? else { return Ok(None) };
            head = vec!["details".into(), f];
        }
        _ => {
            let Some(f) = put(d, "IN", &c.src)? else { return Ok(None) };
            head = vec![c.edit.kind().to_string(), f];
            match &c.edit {
                Edit::Rename(n) => opts.push(("-n", "--name", own(n))),
                Edit::Comment(n) => opts.push(("-c", "--comment", own(n))),
                _ => {}
            }
            if bit(0) {
                opts.push(("-f", "--new-file", own("OUT.8xp")));
            }
            if bit(1) {
                opts.push(("-d", "--delete-old", None));
            }
        }
    }
    Ok(Some((head, opts, defaults)))
}
fn line_of(head: &[String], opts: &[(OptArg, bool)]) -> Vec<String> {
    let mut v = head.to_vec();
    for ((s, l, x), long) in opts {
        v.push(if *long { l.to_string() } else { s.to_string() });
        v.extend(x.clone());
    }
    v
}

fn c23(env: &Env, c: &Line) -> Check {
    let mut o = Obs::default();
    let d = env.dir();
    let Some((head, opts, defaults)) = parts(c, &d)? else { return Ok(Obs { trivial: true, ..o }) };
    if opts.iter().chain(&defaults).any(|o| o.2.as_deref().map_or(false, asks_for_help)) {
        return Ok(Obs { trivial: true, ..o });
    }
    d.write("other.8xp", b"bystander");
    let before = d.snapshot();
    let go = |args: &[String]| {
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        d.run_in(&a, "y\ny\n")
    };
    let plain_line = line_of(&head, &opts.iter().map(|o| (o.clone(), false)).collect::<Vec<_>>());
    let mut other: Vec<(OptArg, bool)> = opts.iter().cloned().map(|o| (o, false)).collect();
    if c.explicit {
        other.extend(defaults.iter().cloned().map(|o| (o, false)));
    }
    for (i, x) in other.iter_mut().enumerate() {
        x.1 = c.long >> i & 1 != 0;
    }
    // a permutation from the order bytes
    let mut shuffled = Vec::new();
    for k in &c.order {
        if other.is_empty() {
            break;
        }
        let i = *k as usize % other.len();
        shuffled.push(other.remove(i));
    }
    shuffled.extend(other);
    let mut line = line_of(&head, &shuffled);
    if let Some((at, long)) = c.help {
        // help wherever it stands after the command
        let at = 1 + at as usize % line.len();
        line.insert(at, if long { "--help" } else { "-h" }.into());
        let r = go(&line);
        must(&r, &format!("{line:?}"))?;
        tree_diff(&d.snapshot(), &before).map_err(|e| format!("{line:?} only asks for help, but {e}"))?;
        let h = go(&[head[0].clone(), "--help".into()]);
        let h2 = go(&["help".into(), head[0].clone()]);
        must(&h, "--help")?;
        must(&h2, "help")?;
        ensure!(r.out == h.out && r.err == h.err, "{line:?} prints something else than the help of {}: {}", head[0], r.brief());
        ensure!(h2.out == h.out, "help {} prints something else than {} --help", head[0], head[0]);
        let text = plain(&h.out);
        for (s, l, _) in opts.iter().chain(&defaults) {
            ensure!(text.contains(s) && text.contains(l), "the help of {} does not mention {l}", head[0]);
        }
        o.label(format!("help of {}", head[0]));
        return Ok(o);
    }
    let r1 = go(&plain_line);
    let t1 = d.snapshot();
    restore(&d, &before);
    let r2 = go(&line);
    let t2 = d.snapshot();
    no_crash(&r1, &format!("{plain_line:?}"))?;
    no_crash(&r2, &format!("{line:?}"))?;
    let what = format!("{line:?} and {plain_line:?}");
    ensure!(r1.code == r2.code, "{what} end differently: {} and {}", r2.brief(), r1.brief());
    tree_diff(&t2, &t1).map_err(|e| format!("{what} leave other files: {e}"))?;
    ensure!(r1.out == r2.out && r1.err == r2.err, "{what} print other things: {} and {}", r2.brief(), r1.brief());
    o.trivial = line == plain_line;
    o.label(head[0].clone());
    o.label_if(c.explicit && !defaults.is_empty(), "default given");
    o.label(if r1.ok() { "succeeded" } else { "refused" });
    Ok(o)
}

pub fn c23_property() -> Property {
    Property {
        id: "C23",
        level: "exploration",
        subs: vec![
            exhaustive(
                "convert-spellings",
                "convert of a text with every subset of its options x all short or long x 24 orders x defaults given or not; non-trivial: another line",
                |t| {
                    let mut v = Vec::new();
                    let txt = Txt { name: "SAMPLE".into(), comment: "c".into(), ftype: 0, archived: false, mode: Mode::Acc, model: 0, frags: vec![Frag::Raw("Disp \"sin(A\nB".into())], crlf: false, times: 1 };
                    for given in 0..8u8 {
                        for long in [0u16, 0xFFFF, 0b10101, 0b01010] {
                            for (i, order) in [[0u8, 0, 0, 0, 0], [4, 3, 2, 1, 0], [1, 0, 1, 0, 0], [2, 2, 0, 1, 0], [3, 0, 0, 1, 0], [1, 2, 1, 1, 0]].into_iter().enumerate() {
                                for explicit in [false, true] {
                                    for (mode, enc) in [(Mode::Acc, Enc::Smart), (Mode::Pretty, Enc::Min), (Mode::Ti, Enc::Smart), (Mode::Acc, Enc::Max)] {
                                        for src in [Source::Txt(txt.clone()), Source::Xp(sample_prog())] {
                                            if t.thorough || i % 2 == explicit as usize {
                                                v.push(Line { cmd: 0, src, edit: Edit::Lock, given, mode, enc, ext: given % 3, long, order: order.to_vec(), explicit, help: None });
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                    v
                },
                c23,
            ),
            generated(
                "lines",
                "random subsets, orders and spellings of the options of every command, with defaults given or left out, and help anywhere; non-trivial: another line than the plain one",
                2600,
                60000,
                || {
                    let src = prop_oneof![3 => small_prog().prop_map(Source::Xp), 1 => source()];
                    (
                        (prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 6 => Just(3u8), 1 => Just(9u8)], src, valid_edit(), any::<u8>()),
                        (all_modes(), enc(), 0u8..5, any::<u16>(), vec(any::<u8>(), 0..6), any::<bool>()),
                        prop_oneof![4 => Just(None), 1 => (any::<u8>(), any::<bool>()).prop_map(Some)],
                    )
                        .prop_map(|((cmd, src, edit, given), (mode, enc, ext, long, order, explicit), help)| Line { cmd, src, edit, given, mode, enc, ext, long, order, explicit, help })
                        .boxed()
                },
                c23,
            ),
        ],
        assumptions: vec!["no option is given twice"],
    }
}

// ------------------------------------------------------------------ C24

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Size {
    /// size of the body in bytes
    n: u32,
    enc: Enc,
    out: u8,
    /// bytes per line, 0: empty lines only
    line: u16,
    two: bool,
    /// which token fills a file, 0: a letter
    #[serde(default)]
    token: u16,
    archived: bool,
    model: u8,
    mode: Mode,
}
/// The largest body whose length fields all fit.
const LIMIT: u32 = 65535 - 19;

/// A text whose body has exactly n bytes.
fn sized_text(n: u32, line: u16, two: bool, mode: Mode, set: &Set) -> (String, Vec<u8>) {
    let (mut text, mut body) = (String::new(), Vec::new());
    if line == 0 && n > 0 {
        text = "\n".repeat(n as usize - 1);
        body = vec![0x3F; n as usize - 1];
    }
    let line = line.max(1) as usize;
    let a = &set.get(&[0x41]).unwrap().text[mode as usize];
    let low = set.get(&[0xBB, 0xB1]);
    let mut col = 0;
    while body.len() < n as usize {
        // a line break at the end would only end the last line
        if col >= line && body.len() + 1 < n as usize {
            text.push('\n');
            body.push(0x3F);
            col = 0;
        } else if let (true, Some(t), true) = (two, low, body.len() + 2 <= n as usize) {
            text.push_str(&t.text[mode as usize]);
            body.extend(&t.key);
            col += 2;
        } else {
            text.push_str(a);
            body.push(0x41);
            col += 1;
        }
    }
    (text, body)
}

fn c24_text(env: &Env, c: &Size) -> Check {
    let mut o = Obs::default();
    let row = &MODELS[c.model as usize % 25];
    let set = Set::of_model(c.model as usize % 25);
    // the two-byte token shares its pretty rendition with another one
    let c = &Size { mode: if c.two { Mode::Acc } else { c.mode }, ..c.clone() };
    let (text, body) = sized_text(c.n, c.line, c.two, c.mode, set);
    assert!(body.len() == c.n as usize);
    let d = env.dir();
    d.write(
        "IN.txt",
        format!("SIZE\nc\nProgram\n{}\n{}\n{}\n{}", if c.archived { "Archive" } else { "RAM" }, c.mode.name(), row.name, text),
    );
    let before = d.snapshot();
    let out = format!("OUT.{}", EXT5[c.out as usize % 5]);
    let r = d.run(&["convert", "IN.txt", "-o", &out, "-e", c.enc.name()]);
    let what = format!("convert of a text with a body of {} bytes to {out}", c.n);
    no_crash(&r, &what)?;
    if c.n > LIMIT {
        must_refuse(&r, &what)?;
        tree_diff(&d.snapshot(), &before).map_err(|e| format!("{what} was refused, but {e}"))?;
        o.label("too large");
        return Ok(o);
    }
    must(&r, &what)?;
    let x = match c.out % 5 {
        0 => parse(&read(&d, &out)?)?,
        3 | 4 => Xp::parse83(&read(&d, &out)?).map_err(|e| format!("{what}: {e}"))?,
        _ => {
            must(&d.run(&["convert", &out, "-o", "X.8xp", "-e", c.enc.name()]), &format!("convert {out} to 8xp"))?;
            parse(&read(&d, "X.8xp")?)?
        }
    };
    ensure!(x.body == body, "{what}: the body differs: {}", differ(&x.body, &body));
    // and back
    must(&d.run(&["convert", &out, "-o", "BACK.txt", "-d", c.mode.name()]), &format!("convert {out} to txt"))?;
    let got = txt_body(&read_txt(&d, "BACK.txt")?);
    let want = set.decode(&body, c.mode).unwrap();
    ensure!(got == want || c.out % 5 == 1 || c.out % 5 == 2, "{what}: the text read back differs: {}", differ_text(&got, &want));
    o.label(if c.n == LIMIT { "exactly the limit" } else if c.n > 65000 { "near the limit" } else if c.n > 4096 { "large" } else { "small" });
    o.label(format!("to {}", EXT5[c.out as usize % 5]));
    Ok(o)
}

/// A program file of the given size is converted and edited, or refused.
fn c24_file(env: &Env, c: &Size) -> Check {
    let mut o = Obs::default();
    let set = Set::of_model(0);
    let (mut text, mut body) = sized_text(c.n, c.line, c.two, Mode::Acc, set);
    if c.token > 0 {
        let t = &set.toks[c.token as usize % set.toks.len()];
        for i in 0..body.len().saturating_sub(t.key.len() + 1) / t.key.len() {
            if c.line == 0 || (i + 1) % (c.line as usize + 1) > 0 {
                let at = i * t.key.len();
                body[at..at + t.key.len()].copy_from_slice(&t.key);
            } else {
                body[i * t.key.len()..][..t.key.len()].fill(0x3F);
            }
        }
        let end = (body.len().saturating_sub(t.key.len() + 1) / t.key.len()) * t.key.len();
        body[end..].fill(0x41);
        text = set.decode(&body, Mode::Acc).unwrap();
        o.label(format!("token of {} bytes", t.key.len()));
    }
    let d = env.dir();
    let mut x = Xp { dest: if c.archived { 0x80 } else { 0 }, ..simple(&MODELS[0], &body) };
    let old = c.model % 2 == 1;
    if old {
        // up to 65518 bytes fit into the 83p layout itself, but nothing that it is converted to
        x = strip(x);
        d.write("IN.83p", x.bytes83());
    } else {
        d.write("IN.8xp", x.bytes());
    }
    let f = if old { "IN.83p" } else { "IN.8xp" };
    let r = d.run_in(&["comment", f, "-c", "edited"], "y\n");
    let what = format!("comment on {f} with a body of {} bytes", c.n);
    no_crash(&r, &what)?;
    if c.n > LIMIT {
        o.label("too large");
        let bytes = if old { x.bytes83() } else { x.bytes() };
        ensure!(d.read(f).as_deref() == Some(&bytes[..]) || r.ok(), "{what} was refused but the file changed");
        if old {
            // no 8xp can hold it
            d.write(f, &bytes);
            let before = d.snapshot();
            for args in [&["convert", f, "-o", "OUT.8xp"][..], &["rename", f, "-n", "A", "-f", "OUT.8xp"]] {
                let r = d.run(args);
                let what = format!("{} of {f} with a body of {} bytes to OUT.8xp", args[0], c.n);
                no_crash(&r, &what)?;
                must_refuse(&r, &what)?;
                tree_diff(&d.snapshot(), &before).map_err(|e| format!("{what} was refused, but {e}"))?;
            }
        }
        return Ok(o);
    }
    must(&r, &what)?;
    x.comment = pad(b"edited", 42);
    let got = read(&d, f)?;
    let want = if old { x.bytes83() } else { x.bytes() };
    ensure!(got == want, "{what}: {}", differ(&got, &want));
    for out in ["OUT.8xp", "OUT.83p", "OUT.txt"] {
        must(&d.run(&["convert", f, "-o", out]), &format!("convert {f} to {out}"))?;
    }
    let got = read(&d, "OUT.8xp")?;
    ensure!(got == x.bytes(), "the 8xp made from {f}: {}", differ(&got, &x.bytes()));
    let got = read(&d, "OUT.83p")?;
    ensure!(got == x.bytes83(), "the 83p made from {f}: {}", differ(&got, &x.bytes83()));
    let got = txt_body(&read_txt(&d, "OUT.txt")?);
    ensure!(got == text, "the text made from {f} differs: {}", differ_text(&got, &text));
    o.label(if old { "83p" } else { "8xp" });
    o.label(if c.n == LIMIT { "exactly the limit" } else { "below the limit" });
    Ok(o)
}

pub fn c24_property() -> Property {
    let base = |n: u32, i: u32| Size { n, enc: Enc::of(i as u8), out: [0, 3, 4, 1, 2][(i % 5) as usize], line: [60, 40, 0, 7, 65535, 100][(i % 6) as usize], two: i % 3 == 1, token: 0, archived: i % 2 == 1, model: (i % 25) as u8, mode: Mode::of((i / 2) as u8) };
    Property {
        id: "C24",
        level: "exploration",
        subs: vec![
            exhaustive(
                "around-the-limit",
                "texts with bodies of 65504 to 65560 bytes and around 128, 256, 4096, 32768, 131072, 196608 bytes, over formats, encodings, models and modes; all count",
                move |t| {
                    let mut v = Vec::new();
                    let mut i = 0;
                    let mut push = |n: u32, v: &mut Vec<Size>| {
                        v.push(base(n, i));
                        i += 1;
                    };
                    for n in 65504..65560 {
                        push(n, &mut v);
                    }
                    for around in [0u32, 128, 256, 512, 4096, 32768, 131072, 196608] {
                        for k in 0..6 {
                            push((around + k).saturating_sub(3), &mut v);
                        }
                        // sums that wrap around to something small
                        if around >= 65536 {
                            for k in [16, 17, 18, 19, 20, 21] {
                                push(around - k, &mut v);
                            }
                        }
                    }
                    for e in 0..3 {
                        for out in 0..5u8 {
                            for n in [LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 2, 65535, 65536, 65537] {
                                if t.thorough || e == 0 || out == 0 {
                                    v.push(Size { n, enc: Enc::of(e), out, line: [80, 0, 20000][(e + out) as usize % 3], two: out % 2 == 0, token: 0, archived: false, model: 0, mode: Mode::Acc });
                                }
                            }
                        }
                    }
                    v
                },
                c24_text,
            ),
            exhaustive(
                "large-files",
                "8xp and 83p files with bodies around 256, 4096, 32768 and the limit, edited and converted; all count",
                move |_| {
                    let mut v = Vec::new();
                    for (i, n) in (65505..=65516).chain([0, 1, 254, 255, 256, 257, 4095, 4096, 32767, 32768, 40000, 65279, 65280]).enumerate() {
                        v.push(Size { model: 0, ..base(n, i as u32) });
                        v.push(Size { model: 1, ..base(n, i as u32) });
                    }
                    // the lengths of the larger ones wrap around
                    for n in (65517..=65540).chain([65550, 65555, 65600, 66000, 70000, 131071, 131072, 131080]) {
                        v.push(Size { model: 1, ..base(n, n) });
                    }
                    v
                },
                c24_file,
            ),
            generated(
                "large-tokens",
                "8xp and 83p files up to the limit filled with any one token, in lines of any length or a single one, edited and converted; all count",
                40,
                2000,
                move || {
                    (any::<u16>(), prop_oneof![3 => Just(LIMIT), 1 => 2u32..LIMIT], prop_oneof![1 => Just(0u16), 1 => 1u16..200, 1 => 200u16..40000], any::<u8>())
                        .prop_map(move |(token, n, line, i)| Size { token: token.max(1), line, two: false, model: i % 2, ..base(n, i as u32) })
                        .boxed()
                },
                c24_file,
            ),
            generated(
                "sizes",
                "texts with random body sizes up to 140000 bytes, half of them within 2000 of the limit; all count",
                120,
                6000,
                || {
                    (
                        prop_oneof![2 => 63500u32..67500, 1 => 1u32..63500, 1 => 67500u32..140000],
                        enc(),
                        prop_oneof![4 => Just(0u8), 1 => 1u8..5],
                        prop_oneof![3 => 10u16..150, 1 => 1u16..10, 1 => Just(0), 1 => 150u16..65535],
                        any::<bool>(),
                        any::<bool>(),
                        0u8..25,
                        all_modes(),
                    )
                        .prop_map(|(n, enc, out, line, two, archived, model, mode)| Size { n, enc, out, line, two, token: 0, archived, model, mode })
                        .boxed()
                },
                c24_text,
            ),
        ],
        assumptions: vec!["the limit is a body of 65516 bytes, the largest whose header length (body + 19) fits 16 bits; files of 65517 and 65518 bytes that only the 83p layout can hold may be refused"],
    }
}

// ------------------------------------------------------------------ C26

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Model26 {
    model: u8,
    frags: Vec<Frag>,
    mode: Mode,
    chain: Vec<u8>,
}

/// A text of each model becomes an 8xp with its signature and product byte and stays that model.
fn c26_text(env: &Env, c: &Model26) -> Check {
    let mut o = Obs::default();
    let t = Txt { name: "MODEL".into(), comment: "c".into(), ftype: 0, archived: false, mode: c.mode, model: c.model, frags: c.frags.clone(), crlf: false, times: 1 };
    if !encodable(&EncCase { txt: t.clone(), enc: Enc::Smart, explicit: false }) {
        return Ok(Obs { trivial: true, ..o });
    }
    let row = t.row();
    let d = env.dir();
    d.write("IN.txt", t.file());
    must(&d.run(&["convert", "IN.txt", "-o", "M.8xp"]), &format!("convert a text of the model {}", row.name))?;
    let x = parse(&read(&d, "M.8xp")?)?;
    ensure!(x.sig == row.sig.as_bytes(), "the 8xp of {} has the signature {:?}", row.name, String::from_utf8_lossy(&x.sig));
    ensure!(x.product == row.product, "the 8xp of {} has the product byte {:02X}, want {:02X}", row.name, x.product, row.product);
    // the text and json exports of the text keep naming it
    must(&d.run(&["convert", "IN.txt", "-o", "M.json"]), "convert the text to json")?;
    let j: serde_json::Value = serde_json::from_slice(&read(&d, "M.json")?).map_err(|e| e.to_string())?;
    ensure!(j["model"]["model"] == row.name, "the json of {} names {}", row.name, j["model"]["model"]);
    ensure!(j["model"]["product_id"] == row.product && j["model"]["signature"] == row.sig, "the json of {} has other identification", row.name);
    for (from, to) in [("IN.txt", "A.txt"), ("M.json", "B.txt")] {
        must(&d.run(&["convert", from, "-o", to]), &format!("convert {from} to {to}"))?;
        let h = txt_header(&read_txt(&d, to)?);
        ensure!(h.get(5).map(|s| s.as_str()) == Some(row.name), "{to}, made from {from} of the model {}, names {:?}", row.name, h.get(5));
    }
    // the 8xp is recognised as a model with the same identification, and stays that along a chain
    let seen = MODELS[recognise(x.product, &x.sig).ok_or("harness: unknown")?].name;
    let mut cur = "M.8xp".to_string();
    for (i, k) in c.chain.iter().enumerate() {
        let next = format!("C{i}.{}", ["8xp", "json", "8xp"][*k as usize % 3]);
        must(&d.run(&["convert", &cur, "-o", &next, "-d", c.mode.name()]), &format!("convert {cur} to {next}"))?;
        if next.ends_with("json") {
            let j: serde_json::Value = serde_json::from_slice(&read(&d, &next)?).map_err(|e| e.to_string())?;
            let m = j["model"]["model"].as_str().unwrap_or("");
            let known = model_by_name(m).map(|i| &MODELS[i]);
            ensure!(known.map_or(false, |k| k.sig == row.sig && k.product == row.product), "an 8xp of {} is read as {m}", row.name);
            ensure!(m == seen, "an 8xp of {} is read as {m}, want {seen}", row.name);
        }
        cur = next;
    }
    must(&d.run(&["convert", &cur, "-o", "END.8xp"]), &format!("convert {cur} to 8xp"))?;
    let y = parse(&read(&d, "END.8xp")?)?;
    ensure!(y.sig == x.sig && y.product == x.product, "after the chain the 8xp of {} has another signature or product byte", row.name);
    must(&d.run(&["convert", &cur, "-o", "END.txt", "-d", c.mode.name()]), &format!("convert {cur} to txt"))?;
    let h = txt_header(&read_txt(&d, "END.txt")?);
    ensure!(h.get(5).map(|s| s.as_str()) == Some(seen), "the text made from an 8xp of {} names {:?}, want {seen}", row.name, h.get(5));
    // and that text gives the same identification again
    must(&d.run(&["convert", "END.txt", "-o", "AGAIN.8xp"]), "convert that text to 8xp")?;
    let z = parse(&read(&d, "AGAIN.8xp")?)?;
    ensure!(z.sig == x.sig && z.product == x.product, "the text made from an 8xp of {} gives another signature or product byte", row.name);
    if !c.chain.is_empty() || row.product != 0 || row.sig != "**TI83F*" {
        o.label(format!("model {}", row.name));
    }
    o.label(format!("chain of {}", c.chain.len()));
    Ok(o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Product {
    product: u8,
    sig: u8,
    old: bool,
}
const SIGS: [&str; 7] = ["**TI83F*", "**TI83**", "**TI82**", "**TI85**", "XXXXXXXX", "**ti83f*", "**TI83F "];

/// Every product byte with every signature.
fn c26_product(env: &Env, c: &Product) -> Check {
    let mut o = Obs::default();
    let sig = SIGS[c.sig as usize % SIGS.len()];
    let d = env.dir();
    let mut x = simple(&MODELS[0], &[0x41, 0x3F, 0x42]);
    x.product = c.product;
    x.sig = sig.as_bytes().to_vec();
    let f = if c.old { "IN.83p" } else { "IN.8xp" };
    d.write(f, if c.old { strip(x.clone()).bytes83() } else { x.bytes() });
    let before = d.snapshot();
    let known = FILE_MODELS.iter().any(|m| MODELS[*m].product == c.product);
    let r = d.run(&["convert", f, "-o", "O.txt"]);
    let what = format!("convert of an 8xp with product byte {:02X} and signature {sig:?}", c.product);
    no_crash(&r, &what)?;
    if !known {
        must_refuse(&r, &what)?;
        tree_diff(&d.snapshot(), &before).map_err(|e| format!("{what} was refused, but {e}"))?;
        must_refuse(&d.run(&["details", f]), &format!("details, {what}"))?;
        o.label("unknown product byte");
        return Ok(o);
    }
    let standard = FILE_MODELS.iter().find(|m| MODELS[**m].product == c.product && MODELS[**m].sig == sig);
    let Some(m) = standard else {
        // which model an unknown signature means is left open
        o.label("signature that does not belong to the product byte");
        if r.ok() {
            let h = txt_header(&read_txt(&d, "O.txt")?);
            let row = h.get(5).and_then(|s| model_by_name(s)).map(|i| &MODELS[i]);
            ensure!(row.map_or(false, |r| r.product == c.product), "{what}: read as {:?}", h.get(5));
        }
        return Ok(o);
    };
    let row = &MODELS[*m];
    must(&r, &what)?;
    let h = txt_header(&read_txt(&d, "O.txt")?);
    ensure!(h.get(5).map(|s| s.as_str()) == Some(row.name), "{what}: the text names {:?}, want {}", h.get(5), row.name);
    let r = d.run(&["details", f]);
    must(&r, "details")?;
    ensure!(r.out.lines().any(|l| l == format!("model: {}", row.name)), "{what}: details name another model: {}", r.brief());
    ensure!(r.out.lines().any(|l| l == format!("language: {}", row.lang)), "{what}: details name another language: {}", r.brief());
    must(&d.run(&["convert", f, "-o", "O.8xp"]), &what)?;
    let y = parse(&read(&d, "O.8xp")?)?;
    ensure!(y.product == c.product && y.sig == x.sig, "{what}: the copy has another identification");
    o.label(format!("recognised as {}", row.name));
    Ok(o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Name26(String);
/// The models command lists every model, nothing else, and a text may name each of them.
fn c26_name(env: &Env, c: &Name26) -> Check {
    let d = env.dir();
    let r = d.run(&["models"]);
    must(&r, "models")?;
    let out = plain(&r.out);
    let words: Vec<&str> = out.split(|c: char| c.is_whitespace() || c == ',').filter(|w| w.starts_with("TI-") || *w == "latest").collect();
    for w in &words {
        ensure!(model_by_name(w).is_some(), "the models command lists {w}, which is not a model: {}", r.brief());
    }
    ensure!(words.contains(&c.0.as_str()), "the models command does not list {}: {}", c.0, r.brief());
    ensure!(words.iter().filter(|w| **w == c.0).count() == 1, "the models command lists {} more than once", c.0);
    d.write("IN.txt", format!("MODEL\nc\nProgram\nRAM\naccessible\n{}\nAB", c.0));
    must(&d.run(&["convert", "IN.txt", "-o", "O.json"]), &format!("convert a text with the model {:?}", c.0))?;
    let j: serde_json::Value = serde_json::from_slice(&read(&d, "O.json")?).map_err(|e| e.to_string())?;
    let row = &MODELS[model_by_name(&c.0).unwrap()];
    ensure!(j["model"]["model"] == row.name && j["model"]["language"] == row.lang, "a text of {} is read as {}", row.name, j["model"]);
    Ok(Obs::default())
}

pub fn c26_property() -> Property {
    Property {
        id: "C26",
        level: "exploration",
        subs: vec![
            exhaustive(
                "product-bytes",
                "all 256 product bytes with the three signatures and four others, as 8xp and 83p; all count",
                |t| {
                    let mut v = Vec::new();
                    for product in 0..=255u8 {
                        for sig in 0..7u8 {
                            for old in [false, true] {
                                let known = FILE_MODELS.iter().any(|m| MODELS[*m].product == product);
                                if known || t.thorough || sig < 2 || product % 16 == 1 {
                                    v.push(Product { product, sig, old });
                                }
                            }
                        }
                    }
                    v
                },
                c26_product,
            ),
            exhaustive(
                "every-model",
                "texts of all 25 models in all modes through chains of 8xp and JSON; all count",
                |_| {
                    let mut v = Vec::new();
                    for model in 0..25u8 {
                        for m in 0..3u8 {
                            for chain in [vec![], vec![1], vec![0, 1], vec![1, 0, 1, 1]] {
                                v.push(Model26 { model, frags: vec![Frag::Tok(Pick::Upper(3)), Frag::Tok(Pick::Nl), Frag::Tok(Pick::Digit(1))], mode: Mode::of(m), chain });
                            }
                        }
                    }
                    v
                },
                c26_text,
            ),
            exhaustive(
                "names",
                "the models command against the table, and every listed name as a text file's model; all count",
                |_| MODELS.iter().map(|m| Name26(m.name.to_string())).collect(),
                c26_name,
            ),
            generated(
                "chains",
                "random texts of every model through random chains of up to 5 conversions; non-trivial: encodable",
                700,
                15000,
                || (0u8..25, plain_frags(), all_modes(), vec(0u8..3, 0..5)).prop_map(|(model, frags, mode, chain)| Model26 { model, frags, mode, chain }).boxed(),
                c26_text,
            ),
        ],
        assumptions: vec!["the 25 models, their signatures, product bytes and languages are those of the pinned table"],
    }
}
