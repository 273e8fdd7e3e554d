//! C32: reading that comes in pieces, is interrupted or fails.

use crate::cli::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::p1::*;
use crate::p2::*;
use crate::p3::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Reader {
    Save(Save),
    /// 0 details, 1 preview, 2 content, 3 both
    Show(Source, u8),
}

fn prepare(d: &Dir, c: &Reader) -> Result<Option<(Vec<String>, String)>, String> {
    match c {
        Reader::Save(s) => setup(d, s),
        Reader::Show(s, how) => {
            d.write("other.8xp", b"bystander");
            let Some(f) = put(d, "IN", s)? else { return Ok(None) };
            let how = if f.ends_with(".txt") || f.ends_with(".json") { 1 + how % 3 } else { how % 4 };
            let mut a = match how {
                0 => vec!["details", &f],
                1 => vec!["convert", &f, "-p"],
                2 => vec!["convert", &f, "-c"],
                _ => vec!["convert", &f, "-c", "-p"],
            };
            if f.ends_with(".8xp") && how > 0 {
                a.extend(["-d", "pretty"]);
            }
            Ok(Some((a.into_iter().map(String::from).collect(), String::new())))
        }
    }
}
fn label(c: &Reader) -> String {
    match c {
        Reader::Save(Save::Convert(_, e, old)) => format!("convert to {}{}", EXT5[*e as usize % 5], if old.is_some() { ", existing" } else { "" }),
        Reader::Save(Save::InPlace(..)) => "edit in place".into(),
        Reader::Save(Save::To(..)) => "edit to a new file".into(),
        Reader::Save(Save::Mass(..)) => "mass".into(),
        Reader::Show(..) => "listing".into(),
    }
}
fn with(env: &Env, more: &[(&str, String)]) -> Vec<(String, String)> {
    let Some(shim) = &env.shim else { panic!("HARNESS: no shim") };
    let mut v = vec![("LD_PRELOAD".to_string(), shim.to_string_lossy().into_owned()), ("SHIM_DIR".to_string(), "1".to_string())];
    v.extend(more.iter().map(|(a, b)| (a.to_string(), b.clone())));
    v
}

/// every reading of the input, a directory or an answer fails, is interrupted or gives less
fn c32_faults(env: &Env, c: &Reader) -> Check {
    let mut o = Obs::default();
    let d = env.dir();
    let Some((args, answers)) = prepare(&d, c)? else { return Ok(Obs { trivial: true, ..o }) };
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let mass = matches!(c, Reader::Save(Save::Mass(..)));
    let before = d.snapshot();
    let logs = env.dir();
    let log = logs.at("log").to_string_lossy().into_owned();
    let run = |more: &[(&str, String)]| {
        let mut v = vec![("SHIM_READS", "1".to_string())];
        v.extend(more.iter().cloned());
        d.run_opt(&args, &Opt { stdin: answers.as_bytes(), env: with(env, &v), ..Opt::default() })
    };
    let good = run(&[("SHIM_LOG", log)]);
    must(&good, &format!("{args:?}"))?;
    let after = d.snapshot();
    let points: Vec<String> = logs.read_text("log").unwrap_or_default().lines().map(String::from).collect();
    if !points.iter().any(|p| p == "read" || p == "source") {
        panic!("HARNESS: the shim saw no reading by {args:?}: {points:?}");
    }
    for (i, kind) in points.iter().enumerate() {
        let acts: Vec<(String, &str)> = match kind.as_str() {
            "read" | "answer" => vec![
                ("short".into(), "half of what is asked for"),
                (format!("fail:{}", libc::EINTR), "EINTR"),
                (format!("fail:{}", libc::EIO), "EIO"),
                (format!("failon:{}", libc::EIO), "EIO from then on"),
                (format!("fail:{}", libc::EISDIR), "EISDIR"),
            ],
            "source" => vec![(format!("fail:{}", libc::EMFILE), "EMFILE"), (format!("fail:{}", libc::EACCES), "EACCES"), (format!("fail:{}", libc::ENOENT), "ENOENT")],
            "entry" => vec![(format!("fail:{}", libc::EIO), "EIO")],
            _ => continue,
        };
        for (act, text) in acts {
            restore(&d, &before);
            let r = run(&[("SHIM_AT", (i + 1).to_string()), ("SHIM_ACT", act.clone())]);
            let what = format!("{args:?} with a fault ({text} at {kind}, operation {} of {}, {act})", i + 1, points.len());
            let got = d.snapshot();
            no_crash(&r, &what)?;
            if act == "short" || text == "EINTR" {
                ensure!(r == good, "{what} is no failure, but ended with {} and not with {}", r.brief(), good.brief());
                tree_diff(&got, &after).map_err(|e| format!("{what} is no failure, but: {e}"))?;
                o.label(format!("{kind} {}", if act == "short" { "in parts" } else { "interrupted" }));
                continue;
            }
            judge(&got, &before, &after, &what)?;
            let told = !format!("{}{}", r.out, r.err).trim().is_empty();
            match kind.as_str() {
                "answer" => {
                    // what cannot be read is not a yes
                    if !mass {
                        tree_diff(&got, &before).map_err(|e| format!("{what}: no answer is not a yes, but: {e}"))?;
                    }
                }
                "entry" => ensure!(told || all_written(&got, &before, &after), "{what}: not everything was converted, and nothing was said"),
                _ => {
                    ensure!(!r.ok(), "{what}: success was reported: {}", r.brief());
                    ensure!(told, "{what}: failed without a word");
                    if !mass {
                        tree_diff(&got, &before).map_err(|e| format!("{what}: {e}"))?;
                    }
                }
            }
            ensure!(got.keys().all(|k| before.contains_key(k) || after.contains_key(k)), "{what} left a file behind: {:?}", got.keys().collect::<Vec<_>>());
            o.label(format!("{kind} failed"));
        }
    }
    o.label(label(c));
    Ok(o)
}

/// everything that is read comes in small pieces, every second reading is interrupted
fn c32_pieces(env: &Env, c: &(Reader, u16)) -> Check {
    let mut o = Obs::default();
    let d = env.dir();
    let Some((args, answers)) = prepare(&d, &c.0)? else { return Ok(Obs { trivial: true, ..o }) };
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let before = d.snapshot();
    let good = d.run_opt(&args, &Opt { stdin: answers.as_bytes(), env: with(env, &[]), ..Opt::default() });
    must(&good, &format!("{args:?}"))?;
    let after = d.snapshot();
    restore(&d, &before);
    let n = c.1.max(1);
    let r = d.run_opt(&args, &Opt { stdin: answers.as_bytes(), env: with(env, &[("SHIM_CHUNK", n.to_string())]), ..Opt::default() });
    let what = format!("{args:?} when no reading gives more than {n} bytes");
    ensure!(r == good, "{what} ended with {} and not with {}", r.brief(), good.brief());
    tree_diff(&d.snapshot(), &after).map_err(|e| format!("{what}: {e}"))?;
    o.label(label(&c.0));
    o.label(match n {
        1 => "single bytes",
        2..=15 => "up to 15 bytes",
        16..=255 => "up to 255 bytes",
        _ => "larger pieces",
    });
    Ok(o)
}

fn reader() -> BoxedStrategy<Reader> {
    prop_oneof![
        3 => save().prop_map(Reader::Save),
        1 => (source(), 0u8..4).prop_map(|(s, h)| Reader::Show(s, h)),
    ]
    .boxed()
}

pub fn c32_property() -> Property {
    Property {
        id: "C32",
        level: "fault_enumeration",
        subs: vec![
            exhaustive(
                "every-command",
                "every converting, editing and listing command on every kind of source: at each opening and reading of the input, of a directory and of an answer an error, an interruption or a short result; all count",
                |_| {
                    let t = || Txt { name: "SAMPLE".into(), comment: "c".into(), ftype: 0, archived: false, mode: Mode::Acc, model: 0, frags: vec![Frag::Tok(Pick::Upper(1)), Frag::Tok(Pick::Nl)], crlf: false, times: 1 };
                    let sources = || vec![Source::Xp(sample_prog()), Source::Xp(big_prog()), Source::Txt(t()), Source::Txt(Txt { times: 9000, ..t() }), Source::Json(sample_prog()), Source::Json(big_prog()), Source::Old(sample_prog(), true), Source::Old(sample_prog(), false)];
                    let mut v = Vec::new();
                    for s in sources() {
                        for ext in 0..5u8 {
                            for old in [None, Some(b"old content\n".to_vec())] {
                                v.push(Reader::Save(Save::Convert(s.clone(), ext, old)));
                            }
                        }
                        for how in 0..4 {
                            v.push(Reader::Show(s.clone(), how));
                        }
                    }
                    for e in [Edit::Rename("NEW".into()), Edit::Comment("c".into()), Edit::Lock, Edit::Unlock, Edit::Archive, Edit::Unarchive] {
                        for p in [sample_prog(), big_prog()] {
                            v.push(Reader::Save(Save::InPlace(p.clone(), e.clone())));
                            for old in [None, Some(b"old content\n".to_vec())] {
                                for del in [false, true] {
                                    v.push(Reader::Save(Save::To(p.clone(), e.clone(), old.clone(), del)));
                                }
                            }
                        }
                    }
                    for exists in [false, true] {
                        v.push(Reader::Save(Save::Mass(vec![Source::Xp(sample_prog()), Source::Txt(t())], exists)));
                        v.push(Reader::Save(Save::Mass(vec![Source::Json(sample_prog()), Source::Old(sample_prog(), false)], exists)));
                    }
                    v
                },
                c32_faults,
            ),
            generated("faults", "the same for generated sources, edits and old contents; non-trivial: the source exists", 150, 5000, reader, c32_faults),
            generated(
                "pieces",
                "generated commands whose every reading gives at most so many bytes and is interrupted every second time: same messages, status and files as undisturbed; non-trivial: the source exists",
                900,
                25000,
                || (reader(), prop_oneof![2 => Just(1u16), 3 => 2u16..16, 2 => 16u16..256, 1 => 256u16..10000]).boxed(),
                c32_pieces,
            ),
        ],
        assumptions: vec!["a failing look at a path (stat) is not among the faults", "an entry of a directory that cannot be read may be skipped if that is said"],
    }
}
