//! C13, C14: faults while saving, and hostile input bytes.

use crate::cli::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::p1::*;
use crate::p2::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Source {
    Xp(Prog),
    Old(Prog, bool),
    Txt(Txt),
    Json(Prog),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Save {
    /// source, output extension, old content of the output path
    Convert(Source, u8, Option<Vec<u8>>),
    InPlace(Prog, Edit),
    /// program, edit, old content of the new path, delete-old
    To(Prog, Edit, Option<Vec<u8>>, bool),
    /// sources, which of the outputs exist
    Mass(Vec<Source>, bool),
}
pub const EXT5: [&str; 5] = ["8xp", "txt", "json", "83p", "82p"];

/// Writes a source under the given stem; its file name, or None if it cannot be encoded.
pub fn put(d: &Dir, stem: &str, s: &Source) -> Result<Option<String>, String> {
    Ok(match s {
        Source::Xp(p) => {
            let f = format!("{stem}.8xp");
            d.write(&f, p.bytes());
            Some(f)
        }
        Source::Old(p, two) => {
            let f = format!("{stem}.{}", if *two { "82p" } else { "83p" });
            d.write(&f, strip(p.xp()).bytes83());
            Some(f)
        }
        Source::Txt(t) => {
            if !encodable(&EncCase { txt: t.clone(), enc: Enc::Smart, explicit: false }) {
                return Ok(None);
            }
            let f = format!("{stem}.txt");
            d.write(&f, t.file());
            Some(f)
        }
        Source::Json(p) => {
            let f = format!("{stem}.json");
            d.write("tmp0.8xp", p.bytes());
            must(&d.run(&["convert", "tmp0.8xp", "-o", &f]), "convert 8xp to json")?;
            d.remove("tmp0.8xp");
            Some(f)
        }
    })
}

/// Prepares the directory; the command and what is answered.
pub fn setup(d: &Dir, s: &Save) -> Result<Option<(Vec<String>, String)>, String> {
    d.write("other.8xp", b"bystander");
    let own = |v: Vec<&str>| v.into_iter().map(String::from).collect::<Vec<_>>();
    Ok(match s {
        Save::Convert(src, ext, old) => {
            let Some(f) = put(d, "IN", src)? else { return Ok(None) };
            let out = format!("OUT.{}", EXT5[*ext as usize % 5]);
            if let Some(o) = old {
                d.write(&out, o);
            }
            Some((own(vec!["convert", &f, "-o", &out]), "y\n".into()))
        }
        Save::InPlace(p, e) => {
            d.write("IN.8xp", p.bytes());
            Some((own(e.args("IN.8xp")), "y\n".into()))
        }
        Save::To(p, e, old, del) => {
            d.write("IN.8xp", p.bytes());
            if let Some(o) = old {
                d.write("OUT.8xp", o);
            }
            let mut a = own(e.args("IN.8xp"));
            a.extend(own(vec!["-f", "OUT.8xp"]));
            if *del {
                a.push("-d".into());
            }
            Some((a, "y\n".into()))
        }
        Save::Mass(srcs, exists) => {
            d.mkdir("in");
            d.mkdir("out");
            for (i, s) in srcs.iter().enumerate() {
                let tag = ["ONE", "TWO", "THREE"][i];
                let s = match s {
                    Source::Xp(p) => Source::Xp(Prog { name: tag.into(), ..p.clone() }),
                    Source::Old(p, t) => Source::Old(Prog { name: tag.into(), ..p.clone() }, *t),
                    Source::Json(p) => Source::Json(Prog { name: tag.into(), ..p.clone() }),
                    Source::Txt(t) => Source::Txt(Txt { name: tag.into(), ..t.clone() }),
                };
                if put(d, &format!("in/{tag}"), &s)?.is_none() {
                    return Ok(None);
                }
                if *exists {
                    d.write(&format!("out/{tag}.txt"), b"precious text");
                    d.write(&format!("out/{tag}.8xp"), b"precious program");
                }
            }
            Some((own(vec!["convert", "in", "-m", "-o", "out"]), "y\n".repeat(12)))
        }
    })
}

pub fn restore(d: &Dir, t: &Tree) {
    let now = d.snapshot();
    for (k, _) in now.iter().rev() {
        if !t.contains_key(k) || t[k] != now[k] {
            if now[k] == Node::Dir {
                let p = d.at(k);
                let _ = std::fs::remove_dir(p);
            } else {
                d.remove(k);
            }
        }
    }
    for (k, v) in t {
        if now.get(k) != Some(v) {
            match v {
                Node::File(b) => d.write(k, b),
                Node::Dir => d.mkdir(k),
                _ => {}
            }
        }
    }
}

/// The tree after a fault: every file that the command does not write is as before; every file it
/// writes is the complete old or the complete new one; the old file of a move is gone only when
/// the new one is complete.
pub fn judge(got: &Tree, before: &Tree, after: &Tree, what: &str) -> Result<(), String> {
    for (k, b) in before {
        match after.get(k) {
            Some(a) if a == b => ensure!(got.get(k) == Some(b), "{what}: {k}, which is not written, {}", if got.contains_key(k) { "changed" } else { "is gone" }),
            Some(a) => match got.get(k) {
                None => return Err(format!("{what}: {k} is gone, neither its previous nor its new content is left")),
                Some(g) => ensure!(
                    g == a || g == b,
                    "{what}: {k} holds neither its complete previous nor its complete new content but {}",
                    match g { Node::File(x) => format!("{} bytes", x.len()), _ => "no file".into() }
                ),
            },
            None => {
                // deleted by the command, once everything new is complete
                let all_new = after.iter().all(|(k, a)| before.get(k) == Some(a) || got.get(k) == Some(a));
                ensure!(got.get(k) == Some(b) || (!got.contains_key(k) && all_new), "{what}: the input {k} is gone or changed although the new file is not complete");
            }
        }
    }
    for (k, a) in after {
        if !before.contains_key(k) {
            if let Some(g) = got.get(k) {
                ensure!(g == a, "{what}: {k} exists with incomplete content ({})", match g { Node::File(x) => format!("{} bytes", x.len()), _ => "no file".into() });
            }
        }
    }
    Ok(())
}
pub fn all_written(got: &Tree, before: &Tree, after: &Tree) -> bool {
    after.iter().all(|(k, a)| before.get(k) == Some(a) || got.get(k) == Some(a))
}

const FAIL: [(&str, i32); 4] = [("ENOSPC", libc::ENOSPC), ("EIO", libc::EIO), ("EACCES", libc::EACCES), ("EINTR", libc::EINTR)];

fn c13_faults(env: &Env, c: &Save) -> Check {
    let mut o = Obs::default();
    let Some(shim) = &env.shim else { panic!("HARNESS: no shim") };
    let d = env.dir();
    let Some((args, answers)) = setup(&d, c)? else { return Ok(Obs { trivial: true, ..o }) };
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let mass = matches!(c, Save::Mass(..));
    let before = d.snapshot();
    let logs = env.dir();
    let log = logs.at("log").to_string_lossy().into_owned();
    let e = |more: &[(&str, String)]| -> Vec<(String, String)> {
        let mut v = vec![("LD_PRELOAD".to_string(), shim.to_string_lossy().into_owned())];
        v.extend(more.iter().map(|(a, b)| (a.to_string(), b.clone())));
        v
    };
    let base = Opt { stdin: answers.as_bytes(), env: e(&[("SHIM_LOG", log.clone())]), ..Opt::default() };
    let r = d.run_opt(&args, &base);
    must(&r, &format!("{args:?}"))?;
    let after = d.snapshot();
    let points: Vec<String> = logs.read_text("log").unwrap_or_default().lines().map(String::from).collect();
    if points.is_empty() {
        panic!("HARNESS: the shim saw no operation of {args:?}");
    }
    ensure!(all_written(&after, &before, &after), "harness");
    for (i, kind) in points.iter().enumerate() {
        let can_fail = !kind.ends_with('!');
        let kind = kind.trim_end_matches('!');
        let mut acts: Vec<(String, &str)> = vec![("kill".into(), "killed before"), ("after".into(), "killed after")];
        if kind == "write" && can_fail {
            acts.push(("half".into(), "killed half-way through"));
            acts.push(("short".into(), "short result of"));
            acts.push((format!("part:{}", libc::ENOSPC), "half of it, then ENOSPC at"));
        }
        if can_fail {
            for (n, (name, e)) in FAIL.iter().enumerate() {
                if *e == libc::EINTR && kind != "write" {
                    continue;
                }
                acts.push((format!("fail:{e}"), name));
                if n < 2 {
                    acts.push((format!("failon:{e}"), name));
                }
            }
        }
        for (act, text) in acts {
            restore(&d, &before);
            let opt = Opt { stdin: answers.as_bytes(), env: e(&[("SHIM_AT", (i + 1).to_string()), ("SHIM_ACT", act.clone())]), ..Opt::default() };
            let r = d.run_opt(&args, &opt);
            let what = format!("{args:?} with a fault ({text} {kind}, operation {} of {}, {act})", i + 1, points.len());
            let got = d.snapshot();
            judge(&got, &before, &after, &what)?;
            let dies = matches!(act.as_str(), "kill" | "after" | "half");
            if dies {
                o.label(format!("killed at {kind}"));
                // what is left behind does not keep the command from being repeated
                let again = d.run_opt(&args, &Opt { stdin: "y\n".repeat(12).as_bytes(), ..Opt::default() });
                let mut end = d.snapshot();
                end.retain(|k, _| before.contains_key(k) || after.contains_key(k));
                if before.keys().all(|k| got.contains_key(k)) {
                    must(&again, &format!("{what}, then repeated"))?;
                    tree_diff(&end, &after).map_err(|e| format!("{what}, then repeated: {e}"))?;
                    o.label("repeated after a kill");
                }
                continue;
            }
            no_crash(&r, &what)?;
            if act == "short" {
                ensure!(r.ok() && all_written(&got, &before, &after), "{what}: a short write is not a failure, but {}", r.brief());
            }
            if !all_written(&got, &before, &after) {
                let told = format!("{}{}", r.out, r.err).to_lowercase();
                ensure!(!r.ok() || (mass && (told.contains("fail") || told.contains("error"))), "{what}: not everything was written but success was reported: {}", r.brief());
                o.label(format!("{kind} failed and was reported"));
            } else {
                o.label(format!("{kind} failed, saved anyway"));
            }
        }
    }
    o.label(format!("{} operations", points.len()));
    o.label(match c {
        Save::Convert(_, e, old) => format!("convert to {}{}", EXT5[*e as usize % 5], if old.is_some() { ", existing" } else { "" }),
        Save::InPlace(..) => "edit in place".into(),
        Save::To(_, _, old, del) => format!("edit to {}{}", if old.is_some() { "an existing file" } else { "a new file" }, if *del { ", delete old" } else { "" }),
        Save::Mass(..) => "mass".into(),
    });
    Ok(o)
}

/// What it says cannot be printed, or only in part, from some message on.
fn c13_mute(env: &Env, c: &Save) -> Check {
    let mut o = Obs::default();
    let Some(shim) = &env.shim else { panic!("HARNESS: no shim") };
    let d = env.dir();
    let Some((args, answers)) = setup(&d, c)? else { return Ok(Obs { trivial: true, ..o }) };
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let before = d.snapshot();
    let logs = env.dir();
    let e = |more: &[(&str, String)]| -> Vec<(String, String)> {
        let mut v = vec![("LD_PRELOAD".to_string(), shim.to_string_lossy().into_owned()), ("SHIM_MUTE".to_string(), "1".to_string())];
        v.extend(more.iter().map(|(a, b)| (a.to_string(), b.clone())));
        v
    };
    let log = logs.at("log").to_string_lossy().into_owned();
    must(&d.run_opt(&args, &Opt { stdin: answers.as_bytes(), env: e(&[("SHIM_LOG", log)]), ..Opt::default() }), &format!("{args:?}"))?;
    let after = d.snapshot();
    let points: Vec<String> = logs.read_text("log").unwrap_or_default().lines().map(String::from).collect();
    for (i, kind) in points.iter().enumerate() {
        if kind != "message" {
            continue;
        }
        for act in ["short".to_string(), format!("fail:{}", libc::EINTR), format!("fail:{}", libc::EIO), format!("failon:{}", libc::EPIPE), format!("failon:{}", libc::ENOSPC)] {
            restore(&d, &before);
            let r = d.run_opt(&args, &Opt { stdin: answers.as_bytes(), env: e(&[("SHIM_AT", (i + 1).to_string()), ("SHIM_ACT", act.clone())]), ..Opt::default() });
            let what = format!("{args:?} with a message that cannot be printed ({act} at operation {} of {})", i + 1, points.len());
            let got = d.snapshot();
            ensure!(r.signal.is_none(), "{what} was ended by signal {:?}", r.signal);
            judge(&got, &before, &after, &what)?;
            let full = all_written(&got, &before, &after);
            if act == "short" || act == format!("fail:{}", libc::EINTR) {
                ensure!(r.ok() && full, "{what}: that is no failure, but {}", r.brief());
            }
            ensure!(full || !r.ok(), "{what}: not everything was written but success was reported: {}", r.brief());
            o.label(if full { "saved anyway" } else { "ended before saving" });
        }
    }
    for closed in [2u8, 4, 6] {
        restore(&d, &before);
        let r = d.run_opt(&args, &Opt { stdin: answers.as_bytes(), closed, ..Opt::default() });
        let what = format!("{args:?} with closed {}", ["standard output", "standard error", "standard output and error"][closed as usize / 2 - 1]);
        must(&r, &what)?;
        tree_diff(&d.snapshot(), &after).map_err(|e| format!("{what}: {e}"))?;
        o.label("closed streams");
    }
    o.trivial = points.is_empty();
    Ok(o)
}

fn c13_limit(env: &Env, c: &(Save, Vec<u16>)) -> Check {
    let mut o = Obs::default();
    let d = env.dir();
    let Some((args, answers)) = setup(&d, &c.0)? else { return Ok(Obs { trivial: true, ..o }) };
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let mass = matches!(c.0, Save::Mass(..));
    let before = d.snapshot();
    must(&d.run_in(&args, &answers), &format!("{args:?}"))?;
    let after = d.snapshot();
    let largest = after.iter().filter(|(k, a)| before.get(*k) != Some(a)).map(|(_, a)| match a { Node::File(b) => b.len(), _ => 0 }).max().unwrap_or(0);
    if largest == 0 {
        return Ok(Obs { trivial: true, ..o });
    }
    let mut limits: Vec<u64> = vec![0, 1, 8, 54, 55, 73, 74, largest as u64 / 2, largest.saturating_sub(2) as u64, largest.saturating_sub(1) as u64, largest as u64];
    limits.extend(c.1.iter().map(|x| *x as u64 % (largest as u64 + 2)));
    limits.sort();
    limits.dedup();
    for limit in limits {
        for ignore in [true, false] {
            restore(&d, &before);
            let opt = Opt { stdin: answers.as_bytes(), fsize: Some(limit), ignore_xfsz: ignore, ..Opt::default() };
            let r = d.run_opt(&args, &opt);
            let what = format!("{args:?} with files limited to {limit} bytes{}", if ignore { "" } else { " (killed at the limit)" });
            let got = d.snapshot();
            judge(&got, &before, &after, &what)?;
            let full = all_written(&got, &before, &after);
            if limit >= largest as u64 {
                must(&r, &what)?;
                ensure!(full, "{what}: not everything was written: {}", r.brief());
            }
            if r.signal == Some(libc::SIGXFSZ) {
                o.label("killed by the limit");
                continue;
            }
            no_crash(&r, &what)?;
            if !full {
                let told = format!("{}{}", r.out, r.err).to_lowercase();
                ensure!(!r.ok() || (mass && (told.contains("fail") || told.contains("error"))), "{what}: not everything was written but success was reported: {}", r.brief());
                o.label("limit reported");
            } else {
                o.label("within the limit");
            }
        }
    }
    Ok(o)
}

pub fn source() -> BoxedStrategy<Source> {
    let small_txt = || txt_with(vec(pick().prop_map(Frag::Tok), 0..10).boxed(), all_modes());
    prop_oneof![
        3 => prog().prop_map(Source::Xp),
        1 => (small_prog(), any::<bool>()).prop_map(|(p, t)| Source::Old(p, t)),
        3 => small_txt().prop_map(Source::Txt),
        2 => small_prog().prop_map(Source::Json),
    ]
    .boxed()
}
fn old_content() -> BoxedStrategy<Option<Vec<u8>>> {
    prop_oneof![
        1 => Just(None),
        1 => Just(Some(b"old content\n".to_vec())),
        1 => (1usize..6000).prop_map(|n| Some(vec![0x55; n])),
        1 => Just(Some(vec![])),
    ]
    .boxed()
}
pub fn save() -> BoxedStrategy<Save> {
    prop_oneof![
        4 => (source(), 0u8..5, old_content()).prop_map(|(s, e, o)| Save::Convert(s, e, o)),
        3 => (prog(), valid_edit()).prop_map(|(p, e)| Save::InPlace(p, e)),
        3 => (prog(), valid_edit(), old_content(), any::<bool>()).prop_map(|(p, e, o, d)| Save::To(p, e, o, d)),
        1 => (vec(source(), 1..=2), any::<bool>()).prop_map(|(s, e)| Save::Mass(s, e)),
    ]
    .boxed()
}
pub fn big_prog() -> Prog {
    Prog { body: (0..20000u16).map(Pick::Any).collect(), ..sample_prog() }
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        level: "fault_enumeration",
        subs: vec![
            exhaustive(
                "every-command",
                "every saving command and format, target absent or existing, small and large programs: a kill before, half-way through and after, and errors and short results, at every file-system operation the command makes; all count",
                |_| {
                    let mut v = Vec::new();
                    let p = sample_prog;
                    let t = || Txt { name: "SAMPLE".into(), comment: "c".into(), ftype: 0, archived: false, mode: Mode::Acc, model: 0, frags: vec![Frag::Tok(Pick::Upper(1)), Frag::Tok(Pick::Nl)], crlf: false, times: 1 };
                    for old in [None, Some(b"old content\n".to_vec()), Some(vec![7; 3000])] {
                        for ext in 0..5u8 {
                            for s in [Source::Xp(p()), Source::Txt(t()), Source::Json(p()), Source::Old(p(), true)] {
                                v.push(Save::Convert(s, ext, old.clone()));
                            }
                            v.push(Save::Convert(Source::Xp(big_prog()), ext, old.clone()));
                        }
                        for (i, e) in [Edit::Rename("NEW".into()), Edit::Comment("c".into()), Edit::Lock, Edit::Unlock, Edit::Archive, Edit::Unarchive].into_iter().enumerate() {
                            let p = if i == 0 { big_prog() } else { Prog { archived: i == 5, ..p() } };
                            if old.is_none() {
                                v.push(Save::InPlace(p.clone(), e.clone()));
                            }
                            v.push(Save::To(p.clone(), e.clone(), old.clone(), false));
                            v.push(Save::To(p, e, old.clone(), true));
                        }
                    }
                    for exists in [false, true] {
                        v.push(Save::Mass(vec![Source::Xp(p()), Source::Txt(t())], exists));
                        v.push(Save::Mass(vec![Source::Json(p()), Source::Old(p(), false)], exists));
                    }
                    v
                },
                c13_faults,
            ),
            generated("faults", "the same for random programs, edits and old contents; non-trivial: the input can be converted", 120, 4000, save, c13_faults),
            generated(
                "messages",
                "random saving commands whose messages cannot be printed (interrupted, in part, not at all, from each message on), or whose standard output and error are closed: files are old or complete, and nothing is taken for saved; non-trivial: the input can be converted",
                160,
                5000,
                save,
                c13_mute,
            ),
            generated(
                "size-limits",
                "random saving commands under file-size limits from 0 to just above the largest output, failing or killing at the limit; non-trivial: something is written",
                350,
                12000,
                || (save(), vec(any::<u16>(), 2..6)).boxed(),
                c13_limit,
            ),
        ],
        assumptions: vec!["a kill ends the process, not the machine: what the kernel was given is kept", "leftover temporary files are allowed after a kill or a failure", "stdout and stderr can be written"],
    }
}

// ------------------------------------------------------------------ C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ByteMut {
    Set(u16, u8),
    Flip(u16, u8),
    Insert(u16, Vec<u8>),
    Delete(u16, u8),
    Truncate(u16),
    Append(Vec<u8>),
    /// overwrite two bytes little endian
    Word(u16, u16),
    /// copy of a piece to another place
    Dup(u16, u16, u8),
}
pub fn mutate(b: &mut Vec<u8>, m: &ByteMut) {
    let n = b.len();
    let at = |i: u16| if n == 0 { 0 } else { i as usize % n };
    match m {
        ByteMut::Set(i, v) if n > 0 => b[at(*i)] = *v,
        ByteMut::Flip(i, k) if n > 0 => b[at(*i)] ^= 1 << (k % 8),
        ByteMut::Insert(i, v) => {
            let i = *i as usize % (n + 1);
            b.splice(i..i, v.iter().copied());
        }
        ByteMut::Delete(i, k) if n > 0 => {
            let i = at(*i);
            b.drain(i..(i + *k as usize).min(n));
        }
        ByteMut::Truncate(i) => b.truncate(*i as usize % (n + 1)),
        ByteMut::Append(v) => b.extend(v),
        ByteMut::Word(i, v) if n > 1 => {
            let i = *i as usize % (n - 1);
            b[i..i + 2].copy_from_slice(&v.to_le_bytes());
        }
        ByteMut::Dup(i, j, k) if n > 0 => {
            let i = at(*i);
            let piece = b[i..(i + *k as usize).min(n)].to_vec();
            let j = *j as usize % (n + 1);
            b.splice(j..j, piece);
        }
        _ => {}
    }
}
pub fn byte_mut() -> BoxedStrategy<ByteMut> {
    let pos = || prop_oneof![1 => 0u16..80, 1 => any::<u16>()];
    let val = || prop_oneof![3 => any::<u8>(), 1 => Just(0u8), 1 => Just(0xFF), 1 => Just(0x0A), 1 => Just(0x80), 1 => Just(0x20)];
    prop_oneof![
        4 => (pos(), val()).prop_map(|(a, b)| ByteMut::Set(a, b)),
        3 => (pos(), 0u8..8).prop_map(|(a, b)| ByteMut::Flip(a, b)),
        2 => (pos(), vec(val(), 1..5)).prop_map(|(a, b)| ByteMut::Insert(a, b)),
        2 => (pos(), 1u8..10).prop_map(|(a, b)| ByteMut::Delete(a, b)),
        2 => pos().prop_map(ByteMut::Truncate),
        1 => vec(val(), 1..5).prop_map(ByteMut::Append),
        2 => (pos(), prop_oneof![any::<u16>(), Just(0u16), Just(1u16), Just(0xFFFF)]).prop_map(|(a, b)| ByteMut::Word(a, b)),
        1 => (pos(), pos(), 1u8..40).prop_map(|(a, b, c)| ByteMut::Dup(a, b, c)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum JsonMut {
    Null(u16),
    Number(u16, i64),
    Float(u16),
    Text(u16, String),
    Bool(u16),
    Delete(u16),
    /// arrays: keep the first n
    Shorten(u16, u16),
    Extend(u16, u16, i64),
    EmptyArray(u16),
    EmptyObject(u16),
    Nest(u16, u16),
    /// a key that does not belong
    Extra(u16),
    /// the value of another place
    Swap(u16, u16),
    /// keep a name but change its case
    Case(u16),
}
fn json_mut() -> BoxedStrategy<JsonMut> {
    let p = || any::<u16>();
    let num = || prop_oneof![Just(-1i64), Just(0), Just(1), Just(255), Just(256), Just(65535), Just(65536), Just(i64::MAX), Just(i64::MIN), -300i64..70000];
    let text = || prop_oneof![Just(String::new()), Just("\0".to_string()), Just("é".repeat(50)), Just("TI-84+CE".to_string()), Just("latest".to_string()), Just("Program".to_string()), "[ -~]{0,12}".prop_map(String::from), vec(any::<char>(), 0..10).prop_map(|v| v.into_iter().collect::<String>())];
    prop_oneof![
        1 => p().prop_map(JsonMut::Null),
        3 => (p(), num()).prop_map(|(a, b)| JsonMut::Number(a, b)),
        1 => p().prop_map(JsonMut::Float),
        3 => (p(), text()).prop_map(|(a, b)| JsonMut::Text(a, b)),
        1 => p().prop_map(JsonMut::Bool),
        2 => p().prop_map(JsonMut::Delete),
        4 => (p(), 0u16..80).prop_map(|(a, b)| JsonMut::Shorten(a, b)),
        2 => (p(), 1u16..400, num()).prop_map(|(a, b, c)| JsonMut::Extend(a, b, c)),
        2 => p().prop_map(JsonMut::EmptyArray),
        1 => p().prop_map(JsonMut::EmptyObject),
        1 => (p(), 1u16..400).prop_map(|(a, b)| JsonMut::Nest(a, b)),
        1 => p().prop_map(JsonMut::Extra),
        2 => (p(), p()).prop_map(|(a, b)| JsonMut::Swap(a, b)),
        1 => p().prop_map(JsonMut::Case),
    ]
    .boxed()
}
use serde_json::Value;
/// Pointers to every value, structure first so that few numbers of byte arrays are chosen.
fn pointers(v: &Value, at: String, depth: usize, out: &mut Vec<String>) {
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                let p = format!("{at}/{}", k.replace('~', "~0").replace('/', "~1"));
                out.push(p.clone());
                pointers(x, p, depth + 1, out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate().take(3) {
                let p = format!("{at}/{i}");
                if i == 0 || i + 1 == a.len() {
                    out.push(p.clone());
                }
                pointers(x, p, depth + 1, out);
            }
        }
        _ => {}
    }
}
fn json_mutate(v: &mut Value, m: &JsonMut) {
    let mut ps = Vec::new();
    pointers(v, String::new(), 0, &mut ps);
    if ps.is_empty() {
        return;
    }
    let arrays: Vec<String> = ps.iter().filter(|p| v.pointer(p).map_or(false, |x| x.is_array())).cloned().collect();
    let pick = |i: u16, l: &Vec<String>| if l.is_empty() { ps[0].clone() } else { l[i as usize % l.len()].clone() };
    let mut set = |i: u16, x: Value| {
        let p = pick(i, &ps);
        if let Some(t) = v.pointer_mut(&p) {
            *t = x;
        }
    };
    match m {
        JsonMut::Null(i) => set(*i, Value::Null),
        JsonMut::Number(i, n) => set(*i, (*n).into()),
        JsonMut::Float(i) => set(*i, serde_json::json!(1.5e300)),
        JsonMut::Text(i, s) => set(*i, s.clone().into()),
        JsonMut::Bool(i) => set(*i, true.into()),
        JsonMut::EmptyArray(i) => set(*i, Value::Array(vec![])),
        JsonMut::EmptyObject(i) => set(*i, serde_json::json!({})),
        JsonMut::Nest(i, n) => {
            let mut x = Value::from(1);
            for _ in 0..*n {
                x = Value::Array(vec![x]);
            }
            set(*i, x)
        }
        JsonMut::Delete(i) => {
            let p = pick(*i, &ps);
            let (parent, key) = p.rsplit_once('/').unwrap();
            match v.pointer_mut(parent) {
                Some(Value::Object(o)) => {
                    o.remove(key);
                }
                Some(Value::Array(a)) => {
                    if let Ok(k) = key.parse::<usize>() {
                        a.remove(k);
                    }
                }
                _ => {}
            }
        }
        JsonMut::Shorten(i, n) => {
            if let Some(Value::Array(a)) = v.pointer_mut(&pick(*i, &arrays)) {
                a.truncate(*n as usize % (a.len() + 1));
            }
        }
        JsonMut::Extend(i, n, x) => {
            if let Some(Value::Array(a)) = v.pointer_mut(&pick(*i, &arrays)) {
                for _ in 0..*n {
                    a.push((*x).into());
                }
            }
        }
        JsonMut::Extra(i) => {
            if let Some(Value::Object(o)) = v.pointer_mut(pick(*i, &ps).rsplit_once('/').unwrap().0) {
                o.insert("unexpected".into(), 1.into());
            }
        }
        JsonMut::Swap(i, j) => {
            let x = v.pointer(&pick(*j, &ps)).cloned().unwrap_or(Value::Null);
            let p = pick(*i, &ps);
            if let Some(t) = v.pointer_mut(&p) {
                *t = x;
            }
        }
        JsonMut::Case(i) => {
            let p = pick(*i, &ps);
            if let Some(t) = v.pointer_mut(&p) {
                if let Some(s) = t.as_str() {
                    *t = s.to_lowercase().into();
                }
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Blob {
    Random(Vec<u8>),
    Xp(Prog, Vec<ByteMut>),
    /// a body of arbitrary bytes in a correct container, optionally as 83p
    XpRaw(Prog, Vec<u8>, bool),
    Old(Prog, Vec<ByteMut>),
    Txt(Txt, Vec<ByteMut>),
    /// text of hostile lines under a correct header
    Lines(Txt, Vec<String>),
    Json(Prog, Vec<JsonMut>),
    JsonTxt(Txt, Vec<JsonMut>),
    JsonBytes(Prog, Vec<ByteMut>),
    /// a valid file of one format under the extension of another
    Other(Source),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hostile {
    blob: Blob,
    /// extension when the content does not decide it
    ext: Option<u8>,
    /// also fix up the checksum and lengths of a mutated 8xp, where possible
    commands: Vec<u8>,
    mode: Mode,
    enc: Enc,
}

fn blob_bytes(d: &Dir, b: &Blob) -> Result<(Vec<u8>, usize), String> {
    let muts = |mut v: Vec<u8>, m: &Vec<ByteMut>| {
        for x in m {
            mutate(&mut v, x);
        }
        v
    };
    let json = |from: &str| -> Result<Vec<u8>, String> {
        let r = d.run(&["convert", from, "-o", "tmp1.json"]);
        d.remove(from);
        let j = match r.ok() {
            true => read(d, "tmp1.json")?,
            false => b"{}".to_vec(),
        };
        d.remove("tmp1.json");
        Ok(j)
    };
    let jmuts = |j: Vec<u8>, m: &Vec<JsonMut>| -> Result<Vec<u8>, String> {
        let mut v: Value = serde_json::from_slice(&j).map_err(|e| format!("json output: {e}"))?;
        for x in m {
            json_mutate(&mut v, x);
        }
        Ok(serde_json::to_vec(&v).unwrap())
    };
    Ok(match b {
        Blob::Random(v) => (v.clone(), 0),
        Blob::Xp(p, m) => (muts(p.bytes(), m), 0),
        Blob::XpRaw(p, body, old) => {
            let x = Xp { body: body.clone(), ..p.xp() };
            if *old {
                (strip(x).bytes83(), 3)
            } else {
                (x.bytes(), 0)
            }
        }
        Blob::Old(p, m) => (muts(strip(p.xp()).bytes83(), m), 3),
        Blob::Txt(t, m) => (muts(t.file().into_bytes(), m), 1),
        Blob::Lines(t, l) => (format!("{}{}", t.header(), l.join("\n")).into_bytes(), 1),
        Blob::Json(p, m) => {
            d.write("tmp1.8xp", p.bytes());
            (jmuts(json("tmp1.8xp")?, m)?, 2)
        }
        Blob::JsonTxt(t, m) => {
            d.write("tmp1.txt", t.file());
            (jmuts(json("tmp1.txt")?, m)?, 2)
        }
        Blob::JsonBytes(p, m) => {
            d.write("tmp1.8xp", p.bytes());
            (muts(json("tmp1.8xp")?, m), 2)
        }
        Blob::Other(s) => match put(d, "tmp2", s)? {
            Some(f) => {
                let b = read(d, &f)?;
                d.remove(&f);
                (b, 0)
            }
            None => (vec![], 0),
        },
    })
}

fn c14(env: &Env, c: &Hostile) -> Check {
    let mut o = Obs::default();
    let d = env.dir();
    let (bytes, natural) = blob_bytes(&d, &c.blob)?;
    let ext = EXT5[c.ext.map_or(natural, |e| e as usize % 5)];
    let input = format!("IN.{ext}");
    d.write(&input, &bytes);
    d.write("other.8xp", b"bystander");
    d.mkdir("in");
    d.mkdir("out");
    d.write(&format!("in/{input}"), &bytes);
    let before = d.snapshot();
    for k in &c.commands {
        let out = format!("OUT.{}", EXT5[*k as usize % 5]);
        let nothing = "y\ny\ny\n";
        let (m, e) = (c.mode.name(), c.enc.name());
        let (args, creates, deletes): (Vec<&str>, Option<&str>, bool) = match k {
            0..=4 => (vec!["convert", &input, "-o", &out, "-d", m, "-e", e], Some(&out), false),
            5..=9 => (vec!["convert", &input, "-o", &out, "-c", "-p", "-d", m, "-e", e], Some(&out), false),
            10 => (vec!["convert", &input, "-c", "-d", m], None, false),
            11 => (vec!["convert", &input, "-p", "-e", e], None, false),
            12 => (vec!["details", &input], None, false),
            13 => (vec!["rename", &input, "-n", "NEWNAME"], Some(&input), false),
            14 => (vec!["comment", &input, "-c", "new comment"], Some(&input), false),
            15 => (vec!["lock", &input], Some(&input), false),
            16 => (vec!["unlock", &input, "-f", "OUT.8xp"], Some("OUT.8xp"), false),
            17 => (vec!["archive", &input, "-f", "OUT.83p"], Some("OUT.83p"), false),
            18 => (vec!["unarchive", &input, "-f", "OUT.8xp", "-d"], Some("OUT.8xp"), true),
            19 => (vec!["rename", &input, "-n", "NEWNAME", "-f", "OUT.txt"], Some("OUT.txt"), false),
            20 => (vec!["comment", &input, "-c", "x", "-f", "OUT.json", "-d"], Some("OUT.json"), true),
            _ => (vec!["convert", "in", "-m", "-o", "out", "-d", m, "-e", e], Some("out"), false),
        };
        restore(&d, &before);
        let r = d.run_in(&args, nothing);
        let what = format!("{args:?}");
        no_crash(&r, &what)?;
        let after = d.snapshot();
        if !r.ok() {
            ensure!(!r.out.trim().is_empty() || !r.err.trim().is_empty(), "{what} ended with {:?} without any message", r.code);
            tree_diff(&after, &before).map_err(|e| format!("{what} was refused ({}), but {e}", r.brief()))?;
            o.label(format!("refused: {}", args[0]));
        } else {
            if let Some(f) = creates {
                ensure!(after.contains_key(f), "{what} succeeded but {f} does not exist: {}", r.brief());
                if f.starts_with("OUT") {
                    ensure!(!matches!(after.get(f), Some(Node::File(b)) if b.is_empty()), "{what} succeeded but wrote an empty file");
                }
            }
            for k in before.keys() {
                ensure!(after.contains_key(k) || (deletes && *k == input), "{what} removed {k}");
                if Some(k.as_str()) != creates && *k != input {
                    ensure!(after[k] == before[k], "{what} changed {k}");
                }
            }
            o.label(format!("accepted: {}", args[0]));
        }
    }
    o.label(match &c.blob {
        Blob::Random(_) => "random bytes",
        Blob::Xp(..) => "mutated 8xp",
        Blob::XpRaw(..) => "arbitrary body",
        Blob::Old(..) => "mutated 82p/83p",
        Blob::Txt(..) => "mutated text",
        Blob::Lines(..) => "hostile lines",
        Blob::Json(..) | Blob::JsonTxt(..) => "json of another structure",
        Blob::JsonBytes(..) => "mutated json bytes",
        Blob::Other(..) => "content of another format",
    });
    o.label(format!("as {ext}"));
    o.trivial = match &c.blob {
        Blob::Random(v) => v.is_empty(),
        _ => false,
    };
    Ok(o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CutAt {
    kind: u8,
    len: u16,
    fill: Option<u8>,
}
/// Every prefix of a valid file of every format, and every single byte replaced.
fn c14_cut(env: &Env, c: &CutAt) -> Check {
    let p = Prog { body: vec![Pick::Upper(1), Pick::Any(700), Pick::Quote, Pick::Lower(3), Pick::Nl, Pick::Digit(3)], comment: b"a comment".to_vec(), ..sample_prog() };
    let (mut bytes, ext): (Vec<u8>, u8) = match c.kind {
        0 => (p.bytes(), 0),
        1 => (strip(p.xp()).bytes83(), 3),
        2 => (Txt { name: "SAMPLE".into(), comment: "é c".into(), ftype: 1, archived: true, mode: Mode::Pretty, model: 10, frags: vec![Frag::Tok(Pick::Upper(1)), Frag::Tok(Pick::Nl), Frag::Tok(Pick::Any(600))], crlf: false, times: 1 }.file().into_bytes(), 1),
        _ => {
            let d = env.dir();
            d.write("p.8xp", p.bytes());
            must(&d.run(&["convert", "p.8xp", "-o", "p.json"]), "convert to json")?;
            (read(&d, "p.json")?, 2)
        }
    };
    if c.len as usize >= bytes.len() {
        return Ok(Obs { trivial: true, ..Obs::default() });
    }
    match c.fill {
        None => bytes.truncate(c.len as usize),
        Some(x) => bytes[c.len as usize] = x,
    }
    let commands: Vec<u8> = match ext {
        0 | 3 => vec![0, 1, 2, 3, 5, 12, 13, 16, 18, 21],
        1 => vec![0, 1, 2, 10, 11, 21],
        _ => vec![0, 1, 2, 10, 11, 21],
    };
    c14(env, &Hostile { blob: Blob::Random(bytes), ext: Some(ext), commands, mode: Mode::Acc, enc: Enc::Smart })
}

fn hostile_line() -> BoxedStrategy<String> {
    prop_oneof![
        3 => vec(any::<char>(), 0..30).prop_map(|v| v.into_iter().collect::<String>()),
        2 => "[ -~]{0,60}".prop_map(String::from),
        2 => vec(prop_oneof![Just("\""), Just("prgm"), Just("→"), Just("ʟ"), Just("|L"), Just("θ"), Just("A"), Just("["), Just("]"), Just("\u{301}"), Just("\\"), Just("Disp "), Just("sin("), Just("~"), Just("🄵"), Just("[color:"), Just("[color:red]"), Just("[style:bold]"), Just("\r"), Just("\t"), Just("\u{feff}")], 0..20).prop_map(|v| v.concat()),
        1 => (1usize..3000).prop_map(|n| "A".repeat(n)),
        1 => (1usize..800).prop_map(|n| "\"sin(".repeat(n)),
    ]
    .boxed()
}

pub fn c14_property() -> Property {
    let hostile = |json: bool| {
        let small_txt = || txt_with(vec(pick().prop_map(Frag::Tok), 0..10).boxed(), all_modes());
        let blob = if json {
            prop_oneof![
                5 => (small_prog(), vec(json_mut(), 1..4)).prop_map(|(a, b)| Blob::Json(a, b)),
                3 => (small_txt(), vec(json_mut(), 1..4)).prop_map(|(a, b)| Blob::JsonTxt(a, b)),
                1 => (small_prog(), vec(byte_mut(), 1..4)).prop_map(|(a, b)| Blob::JsonBytes(a, b)),
            ]
            .boxed()
        } else {
            prop_oneof![
                2 => vec(any::<u8>(), 0..200).prop_map(Blob::Random),
                1 => vec(prop_oneof![Just(b'\n'), 0x20u8..0x7F], 0..300).prop_map(Blob::Random),
                6 => (small_prog(), vec(byte_mut(), 1..5)).prop_map(|(a, b)| Blob::Xp(a, b)),
                3 => (small_prog(), vec(any::<u8>(), 0..60), any::<bool>()).prop_map(|(a, b, c)| Blob::XpRaw(a, b, c)),
                3 => (small_prog(), vec(byte_mut(), 1..5)).prop_map(|(a, b)| Blob::Old(a, b)),
                4 => (small_txt(), vec(byte_mut(), 1..5)).prop_map(|(a, b)| Blob::Txt(a, b)),
                4 => (small_txt(), vec(hostile_line(), 0..5)).prop_map(|(a, b)| Blob::Lines(a, b)),
                1 => source().prop_map(Blob::Other),
            ]
            .boxed()
        };
        (blob, prop_oneof![8 => Just(None), 1 => (0u8..5).prop_map(Some)], vec(if json { prop_oneof![6 => 0u8..12, 1 => 12u8..21, 2 => Just(21u8)].boxed() } else { (0u8..22).boxed() }, 3..=3), all_modes(), enc())
            .prop_map(|(blob, ext, commands, mode, enc)| Hostile { blob, ext, commands, mode, enc })
            .boxed()
    };
    Property {
        id: "C14",
        level: "exploration",
        subs: vec![
            exhaustive(
                "cuts",
                "every prefix of a valid 8xp, 83p, text and JSON file, and every byte of the first three replaced by 00, FF, 0A and (8xp, 83p) other values, through 6 to 10 commands each; trivial beyond the file's end",
                |t| {
                    let mut v = Vec::new();
                    for kind in 0..4u8 {
                        let n = if kind == 3 { 3000 } else { 110 };
                        for len in 0..n {
                            if kind < 3 || t.thorough || len % 17 == 0 {
                                v.push(CutAt { kind, len, fill: None });
                            }
                            if kind < 3 {
                                for f in [0, 0xFF, 0x0A, 0x80, 0x41] {
                                    if t.thorough || f < 0x20 || (len + f as u16) % 2 == 0 {
                                        v.push(CutAt { kind, len, fill: Some(f) });
                                    }
                                }
                                if t.thorough {
                                    for f in 0..=255u8 {
                                        v.push(CutAt { kind, len, fill: Some(f) });
                                    }
                                }
                            }
                        }
                    }
                    v
                },
                c14_cut,
            ),
            generated("bytes", "random bytes, mutated 8xp, 82p, 83p and text files, arbitrary bodies in correct containers, hostile text lines, wrong-format content, through three random commands each; non-trivial: not empty", 4000, 120000, move || hostile(false), c14),
            generated("json", "JSON programs with values of other types, out of range, missing, added, shortened or lengthened, and mutated JSON bytes, through three random commands each; all count", 2200, 60000, move || hostile(true), c14),
        ],
        assumptions: vec!["a command ends within 30 s of processor time and 4 GB of address space"],
    }
}
