//! C33: the options of a command are those its help lists.

use crate::cli::*;
use crate::engine::*;
use crate::ensure;
use crate::oracle::*;
use crate::p1::*;
use crate::p2::*;
use crate::p3::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// An option: short, long, whether it takes a value.
type Opt3 = (String, String, bool);
#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct Section {
    /// named values, in order
    places: Vec<(String, bool)>,
    opts: BTreeSet<Opt3>,
}

/// What the README lists.
const DOCUMENTED: [(&str, Option<bool>, &[(&str, &str, bool)]); 12] = [
    ("help", Some(false), &[]),
    ("version", None, &[]),
    ("convert", Some(true), &[("-o", "--output", true), ("-d", "--display-mode", true), ("-e", "--encode-mode", true), ("-c", "--content", false), ("-p", "--preview", false), ("-m", "--mass", false)]),
    ("search", Some(true), &[("-t", "--type", true)]),
    ("rename", Some(true), &[("-n", "--name", true), ("-f", "--new-file", true), ("-d", "--delete-old", false)]),
    ("comment", Some(true), &[("-c", "--comment", true), ("-f", "--new-file", true), ("-d", "--delete-old", false)]),
    ("lock", Some(true), &[("-f", "--new-file", true), ("-d", "--delete-old", false)]),
    ("unlock", Some(true), &[("-f", "--new-file", true), ("-d", "--delete-old", false)]),
    ("archive", Some(true), &[("-f", "--new-file", true), ("-d", "--delete-old", false)]),
    ("unarchive", Some(true), &[("-f", "--new-file", true), ("-d", "--delete-old", false)]),
    ("details", Some(true), &[]),
    ("models", None, &[]),
];

/// The sections of a help text, by command.
fn sections(text: &str) -> BTreeMap<String, Section> {
    let mut m: BTreeMap<String, Section> = BTreeMap::new();
    let mut now: Option<String> = None;
    for line in plain(text).lines() {
        let words: Vec<&str> = line.split_whitespace().collect();
        let value = |w: Option<&&str>| w.map_or(false, |w| w.starts_with('<') && w.ends_with('>'));
        if words.first().map_or(false, |w| w.starts_with('-')) {
            if let Some(s) = now.as_ref().and_then(|n| m.get_mut(n)) {
                let long = words.iter().find(|w| w.starts_with("--")).unwrap_or(&"").to_string();
                let short = words.iter().find(|w| !w.starts_with("--")).unwrap_or(&"").to_string();
                s.opts.insert((short, long, value(words.get(2))));
            }
        } else if words.get(1) == Some(&"-") {
            now = Some(words[0].to_string());
            m.entry(words[0].to_string()).or_default();
        } else if value(words.get(1)) {
            if let Some(s) = now.as_ref().and_then(|n| m.get_mut(n)) {
                s.places.push((words[0].to_string(), line.contains("(required)")));
            }
        }
    }
    m
}

// ------------------------------------------------------------------ what the help lists

fn c33_help(env: &Env, name: &String) -> Check {
    let mut o = Obs::default();
    let d = env.dir();
    d.write("other.8xp", b"bystander");
    let before = d.snapshot();
    let run = |a: &[&str]| -> Result<Run, String> {
        let r = d.run(a);
        must(&r, &format!("{a:?}"))?;
        tree_diff(&d.snapshot(), &before).map_err(|e| format!("{a:?}: {e}"))?;
        Ok(r)
    };
    let all = run(&["help"])?;
    let listed = sections(&all.out);
    let (_, place, opts) = *DOCUMENTED.iter().find(|x| x.0 == name).unwrap();
    let Some(s) = listed.get(name) else { return Err(format!("help does not list the command {name}: {:?}", listed.keys())) };
    match place {
        Some(req) => ensure!(s.places.first().map(|p| p.1) == Some(req), "help lists the places {:?} for {name}", s.places),
        None => ensure!(s.places.iter().all(|p| !p.1), "help lists the places {:?} for {name}", s.places),
    }
    for (a, b, v) in opts {
        ensure!(s.opts.contains(&(a.to_string(), b.to_string(), *v)), "help does not list {a} {b} of {name}, only {:?}", s.opts);
    }
    for (i, x) in s.opts.iter().enumerate() {
        for y in s.opts.iter().skip(i + 1) {
            ensure!(x.0 != y.0 && x.1 != y.1, "help lists {x:?} and {y:?} for {name}");
        }
    }
    for a in [vec!["help", name.as_str()], vec![name, "--help"], vec![name, "-h"], vec![name, "x", "--help"], vec![name, "-h", "x"]] {
        let r = run(&a)?;
        let one = sections(&r.out);
        ensure!(one.get(name) == Some(s) && one.len() == 1, "{a:?} lists {one:?}, help lists {s:?}");
        o.label("help of one command");
    }
    let r = run(&[])?;
    ensure!(sections(&r.out) == listed, "without a command another help is printed: {}", r.brief());
    Ok(o)
}

/// a word that is nearly a command does nothing
fn c33_command(env: &Env, c: &(String, String)) -> Check {
    let mut o = Obs::default();
    let (word, name) = c;
    if DOCUMENTED.iter().any(|x| x.0 == word) || asks_for_help(word) {
        return Ok(Obs { trivial: true, ..o });
    }
    let d = env.dir();
    d.write("IN.8xp", sample_prog().bytes());
    d.write("other.8xp", b"bystander");
    let before = d.snapshot();
    let mut a = vec![word.as_str(), "IN.8xp"];
    match name.as_str() {
        "convert" => a.extend(["-o", "OUT.txt"]),
        "rename" => a.extend(["-n", "NEW"]),
        "comment" => a.extend(["-c", "new comment"]),
        _ => {}
    }
    for a in [&a[..], &a[..1]] {
        let r = d.run_in(a, "y\n");
        no_crash(&r, &format!("{a:?}"))?;
        tree_diff(&d.snapshot(), &before).map_err(|e| format!("{word:?} is no command, but with {a:?}: {e}"))?;
        ensure!(!format!("{}{}", r.out, r.err).trim().is_empty(), "{a:?}: {word:?} is no command, but nothing is said");
        ensure!(!plain(&r.out).to_lowercase().contains("success"), "{a:?}: {word:?} is no command, but: {}", r.brief());
    }
    o.label(name.clone());
    Ok(o)
}

// ------------------------------------------------------------------ what it does not list

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Base {
    Save(Save),
    Show(Source, u8),
    Search(String, bool),
    Plain(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stray {
    base: Base,
    word: String,
    /// a plain word after it
    value: Option<String>,
    at: u8,
}
fn command_of(b: &Base) -> &'static str {
    match b {
        Base::Save(Save::Convert(..) | Save::Mass(..)) => "convert",
        Base::Save(Save::InPlace(_, e) | Save::To(_, e, ..)) => DOCUMENTED.iter().find(|x| x.0 == e.kind()).unwrap().0,
        Base::Show(_, 0) => "details",
        Base::Show(..) => "convert",
        Base::Search(..) => "search",
        Base::Plain(0) => "models",
        Base::Plain(1) => "version",
        Base::Plain(_) => "help",
    }
}

fn c33_stray(env: &Env, c: &Stray) -> Check {
    let mut o = Obs::default();
    let d = env.dir();
    let name = command_of(&c.base);
    let (args, answers): (Vec<String>, String) = match &c.base {
        Base::Save(s) => match setup(&d, s)? {
            Some(x) => x,
            None => return Ok(Obs { trivial: true, ..o }),
        },
        Base::Show(s, how) => {
            let Some(f) = put(&d, "IN", s)? else { return Ok(Obs { trivial: true, ..o }) };
            let mut a = vec![name.to_string(), f];
            a.extend([vec![], vec!["-p"], vec!["-c"], vec!["-c", "-p"]][*how as usize % 4].iter().map(|s| s.to_string()));
            (a, "y\n".into())
        }
        Base::Search(t, pretty) => {
            let mut a = vec!["search".to_string(), t.clone()];
            if *pretty {
                a.extend(["-t".to_string(), "pretty".to_string()]);
            }
            (a, String::new())
        }
        Base::Plain(k) => (if *k < 2 { vec![name.to_string()] } else { vec!["help".into(), "convert".into()] }, String::new()),
    };
    for w in ["OUT.txt", "there.txt"] {
        if !d.at(w).exists() {
            d.write(w, b"old text\n");
        }
    }
    static HELP: std::sync::OnceLock<BTreeMap<String, Section>> = std::sync::OnceLock::new();
    let listed = HELP.get_or_init(|| sections(&d.run(&["help"]).out)).get(name).cloned().unwrap_or_default();
    let known = |w: &str| listed.opts.iter().find(|o| o.0 == w || o.1 == w).cloned();
    let lone = known(&c.word).map_or(false, |o| o.2);
    if (known(&c.word).is_some() && !lone) || asks_for_help(&c.word) || c.value.as_deref().map_or(false, |v| known(v).is_some() || asks_for_help(v)) || args.iter().any(|a| asks_for_help(a)) {
        return Ok(Obs { trivial: true, ..o });
    }
    // where an option may stand
    let mut places = Vec::new();
    let mut i = 1 + DOCUMENTED.iter().find(|x| x.0 == name).unwrap().1.is_some() as usize;
    while i <= args.len() {
        places.push(i);
        i += 1 + (i < args.len() && known(&args[i]).map_or(false, |o| o.2)) as usize;
    }
    let mut line = args.clone();
    let mut insert = vec![c.word.clone()];
    if lone {
        // a listed option of which only the value is missing: the last word
        if args.iter().any(|a| known(a) == known(&c.word)) {
            return Ok(Obs { trivial: true, ..o });
        }
        line.extend(insert.clone());
    } else {
        insert.extend(c.value.clone());
        let at = places[c.at as usize % places.len()];
        for (k, w) in insert.iter().enumerate() {
            line.insert(at + k, w.clone());
        }
    }
    let before = d.snapshot();
    let go = |a: &[String]| d.run_in(&a.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &answers);
    let r1 = go(&args);
    no_crash(&r1, &format!("{args:?}"))?;
    let t1 = d.snapshot();
    restore(&d, &before);
    let r2 = go(&line);
    let t2 = d.snapshot();
    no_crash(&r2, &format!("{line:?}"))?;
    let what = if lone { format!("{line:?}: the last option has no value") } else { format!("{line:?}: {insert:?} is no option of {name}") };
    if r2 == r1 && tree_diff(&t2, &t1).is_ok() {
        o.label(if lone { "ignored without its value" } else { "ignored" });
    } else {
        tree_diff(&t2, &before).map_err(|e| format!("{what}, but it is neither ignored nor refused: {}; {e}", r2.brief()))?;
        ensure!(!r2.ok(), "{what}, but it changes what {args:?} does: {} and not {}", r2.brief(), r1.brief());
        ensure!(!format!("{}{}", r2.out, r2.err).trim().is_empty(), "{what}: refused without a word");
        o.label("refused");
    }
    o.label(name);
    Ok(o)
}

/// All the words that somebody could take for an option.
fn stray_words() -> Vec<String> {
    let mut v: BTreeSet<String> = BTreeSet::new();
    for c in ('a'..='z').chain('A'..='Z').chain('0'..='9').chain("?-_=.+,:".chars()) {
        v.insert(format!("-{c}"));
        v.insert(format!("--{c}"));
    }
    for (cmd, _, opts) in DOCUMENTED {
        v.insert(cmd.into());
        for n in 1..=cmd.len() {
            v.insert(format!("--{}", &cmd[..n]));
            v.insert(format!("-{}", &cmd[..n]));
        }
        for (s, l, _) in opts {
            let l = l.trim_start_matches('-');
            for n in 2..=l.len() {
                v.insert(format!("--{}", &l[..n]));
            }
            v.insert(l.into());
            v.insert(format!("-{l}"));
            v.insert(format!("---{l}"));
            v.insert(format!("/{l}"));
            v.insert(format!("--{}", l.to_uppercase()));
            v.insert(format!("--{}{}", l[..1].to_uppercase(), &l[1..]));
            v.insert(format!("--no-{l}"));
            v.insert(format!("--{}", l.replace('-', "_")));
            v.insert(format!("--{}", l.replace('-', "")));
            v.insert(format!("--{l}s"));
            v.insert(format!("--{l} "));
            for x in ["", "there.txt", "pretty", "max", "NEW", "OUT.8xp", "true"] {
                v.insert(format!("--{l}={x}"));
                v.insert(format!("{s}={x}"));
                v.insert(format!("{s}{x}"));
                v.insert(format!("-{l}={x}"));
                v.insert(format!("{l}={x}"));
            }
            for (t, _, _) in opts {
                v.insert(format!("{s}{}", &t[1..]));
            }
        }
    }
    for w in [
        "", " ", "-", "--", "---", "—output", "–o", "−o", "pretty", "accessible", "ti", "max", "min", "byte", "there.txt", "OUT.txt", "OUT.8xp", "other.8xp", "NEW", "out", "in", ".", "*", "y", "--yes", "-y", "--force", "--overwrite",
        "--version", "-v", "-V", "--verbose", "--quiet", "-q", "--recursive", "--dry-run", "--debug", "--in-place", "-i", "--input", "--model", "--protect", "--keep", "--strict", "--all", "--lock", "--format", "--type", "--json", "--txt",
        "+o", "+d", "/o", "/d", "\\o", "@there.txt", "<there.txt", ">there.txt", "2>there.txt", "| cat", "&", ";", "$HOME", "~", "%d", "\n", "-o\n", "-\u{301}o", "\u{feff}-o", "-ο", "--оutput",
    ] {
        v.insert(w.into());
    }
    v.into_iter().filter(|w| !asks_for_help(w)).collect()
}
fn bases() -> Vec<Base> {
    use crate::gen::*;
    let t = Txt { name: "SAMPLE".into(), comment: "c".into(), ftype: 0, archived: false, mode: Mode::Acc, model: 0, frags: vec![Frag::Raw("Disp \"sin(A\nB".into())], crlf: false, times: 1 };
    let p = sample_prog();
    let mut v = vec![
        Base::Save(Save::Convert(Source::Txt(t.clone()), 0, None)),
        Base::Save(Save::Convert(Source::Xp(p.clone()), 1, None)),
        Base::Save(Save::Convert(Source::Xp(p.clone()), 0, Some(b"old".to_vec()))),
        Base::Save(Save::Mass(vec![Source::Xp(p.clone()), Source::Txt(t)], false)),
        Base::Show(Source::Xp(p.clone()), 0),
        Base::Show(Source::Xp(p.clone()), 1),
        Base::Show(Source::Xp(p.clone()), 2),
        Base::Search("Disp ".into(), false),
        Base::Search("Disp ".into(), true),
        Base::Search("DE".into(), false),
        Base::Plain(0),
        Base::Plain(1),
        Base::Plain(2),
    ];
    for e in [Edit::Rename("NEW".into()), Edit::Comment("c".into()), Edit::Lock, Edit::Unlock, Edit::Archive, Edit::Unarchive] {
        v.push(Base::Save(Save::InPlace(p.clone(), e.clone())));
        for del in [false, true] {
            v.push(Base::Save(Save::To(p.clone(), e.clone(), None, del)));
        }
    }
    v
}

pub fn c33_property() -> Property {
    Property {
        id: "C33",
        level: "exploration",
        subs: vec![
            exhaustive("help", "every command: what help lists for it against the documentation, in every way to ask; all count", |_| DOCUMENTED.iter().map(|x| x.0.to_string()).collect(), c33_help),
            exhaustive(
                "commands",
                "words that are nearly a command (prefixes, other case, options, blanks), with and without arguments, do nothing; non-trivial: not a command",
                |_| {
                    let mut v = Vec::new();
                    for (n, _, _) in DOCUMENTED {
                        for w in (1..n.len()).map(|k| n[..k].to_string()).chain([n.to_uppercase(), format!("--{n}"), format!("-{n}"), format!("-{}", &n[..1]), format!("{n} "), format!(" {n}"), format!("{n}s"), format!("{n}:"), format!("{}{}", n[..1].to_uppercase(), &n[1..]), format!("{n}="), format!("./{n}")]) {
                            v.push((w, n.to_string()));
                        }
                    }
                    for w in ["", " ", "-", "--", "IN.8xp", "*", "-h2", "-v", "--version", "-V", "delete", "edit", "mass"] {
                        v.push((w.to_string(), "convert".into()));
                    }
                    v
                },
                c33_command,
            ),
            exhaustive(
                "unlisted",
                "every command with every word that looks like an option but is not one of its own (letters, prefixes, other spellings, options of other commands, options joined with values or one another), alone or before a plain word, at one place; non-trivial: neither help nor a complete option",
                |t| {
                    let words = stray_words();
                    let mut v = Vec::new();
                    for (i, base) in bases().into_iter().enumerate() {
                        for (j, word) in words.iter().enumerate() {
                            let value = ["there.txt", "pretty", "OUT.8xp", "NEW", "max"][(i + j) % 5].to_string();
                            let k = (i * 3 + j) % 2 == 0;
                            for with in [false, true] {
                                if t.thorough || with == k {
                                    v.push(Stray { base: base.clone(), word: word.clone(), value: with.then(|| value.clone()), at: (i + j / 2) as u8 });
                                }
                            }
                        }
                    }
                    v
                },
                c33_stray,
            ),
            generated(
                "lines",
                "generated commands with such a word, also of random letters, anywhere after the input; non-trivial: neither help nor a complete option",
                1500,
                40000,
                || {
                    let words = stray_words();
                    let word = prop_oneof![3 => (0..words.len()).prop_map(move |i| words[i].clone()), 1 => "-{0,2}[a-zA-Z=-]{1,12}", 1 => "-[a-z]{2,4}", 1 => "[!-~]{1,6}"];
                    let base = prop_oneof![6 => save().prop_map(Base::Save), 2 => (source(), 0u8..4).prop_map(|(s, h)| Base::Show(s, h)), 1 => Just(Base::Search("Disp ".into(), false))];
                    let value = proptest::option::of(prop_oneof![Just("there.txt".to_string()), Just("pretty".to_string()), Just("OUT.8xp".to_string()), Just("OUT.txt".to_string()), Just("max".to_string()), vec(proptest::char::range('a', 'z'), 1..5).prop_map(|v| v.into_iter().collect())]);
                    (base, word, value, any::<u8>()).prop_map(|(base, word, value, at)| Stray { base, word, value, at }).boxed()
                },
                c33_stray,
            ),
        ],
        assumptions: vec!["a word that is no option may be refused or ignored", "no word of a line asks for help"],
    }
}
