//! C27: any command line at all.

use crate::cli::*;
use crate::engine::*;
use crate::ensure;
use crate::p1::*;
use crate::p2::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::fs::PermissionsExt;

const COMMANDS: [&str; 13] = ["convert", "rename", "comment", "lock", "unlock", "archive", "unarchive", "details", "search", "help", "version", "models", "convert"];
const OPTIONS: [&str; 20] = [
    "-o", "--output", "-d", "--display-mode", "-e", "--encode-mode", "-c", "--content", "-p", "--preview", "-m", "--mass", "-n", "--name", "-f", "--new-file", "--delete-old", "-t", "--type",
    "--comment",
];
/// What the scratch directory holds, and names that lead nowhere.
const PATHS: [&str; 40] = [
    "A.8xp", "B.83p", "C.82p", "D.txt", "E.json", "dir", "dir/", "./A.8xp", "dir/../A.8xp", "locked.8xp", "link.8xp", "dangling.8xp", "loop.8xp", "folder.8xp", "folder.txt", "junk.8xp",
    "empty.txt", "notes.md", "noext", "new.8xp", "new.txt", "new.json", "new.83p", "new.82p", "new.bin", "missing/new.8xp", "A.8xp/new.8xp", "shut/x.8xp", "shut/new.8xp", "shut", "fixed/new.txt",
    "fixed/kept.8xp", ".", "..", "/", "", ".8xp", "-", "--", "new dir",
];
const VALUES: [&str; 22] = [
    "accessible", "pretty", "ti", "min", "max", "smart", "byte", "NAME", "toolongname", "a comment", "y", "0x3F", "0x", "0xBBB1", "Disp ", "sin(", "é", "PRETTY", "\u{1F600}", "[color:red]", "--no-such", "-z",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Word {
    Path(u8),
    Opt(u8),
    Value(u8),
    Help(bool),
    Text(String),
    /// not Unicode
    Raw(Vec<u8>),
    Long(u16),
}
impl Word {
    fn os(&self) -> OsString {
        match self {
            Word::Path(i) => PATHS[*i as usize % PATHS.len()].into(),
            Word::Opt(i) => OPTIONS[*i as usize % OPTIONS.len()].into(),
            Word::Value(i) => VALUES[*i as usize % VALUES.len()].into(),
            Word::Help(l) => if *l { "--help" } else { "-h" }.into(),
            Word::Text(s) => s.replace('\0', "").into(),
            Word::Raw(b) => OsString::from_vec(b.iter().map(|&b| if b == 0 { 0xFF } else { b }).collect()),
            Word::Long(n) => "L".repeat(*n as usize).into(),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Any {
    /// None: no arguments at all
    command: Option<Word>,
    known: Option<u8>,
    words: Vec<Word>,
    /// bytes on standard input; 0: end of input
    stdin: u8,
}
fn answers(i: u8) -> &'static [u8] {
    match i % 6 {
        0 => b"",
        1 => b"y\ny\ny\ny\ny\ny\ny\ny\n",
        2 => b"n\nn\nn\nn\nn\nn\nn\nn\n",
        3 => b"n\ny\nn\ny\nn\ny\nn\ny\n",
        4 => b"\xFF\xFE\n\xC3\n",
        _ => b"\0\n",
    }
}

fn stage(d: &Dir) {
    let x = sample_prog().xp();
    d.write("A.8xp", x.bytes());
    d.write("B.83p", x.bytes83());
    d.write("C.82p", x.bytes83());
    d.write("D.txt", "NAME\nc\nProgram\nRAM\naccessible\nTI-84+CE\nDisp 1\n");
    d.write("E.json", "{}");
    for n in ["dir", "folder.8xp", "folder.txt", "shut", "fixed"] {
        d.mkdir(n);
    }
    d.write("dir/one.8xp", x.bytes());
    d.write("dir/two.txt", "TWO\nc\nProgram\nRAM\naccessible\nlatest\nDisp 2\n");
    d.write("dir/three.md", "text");
    d.write("locked.8xp", x.bytes());
    d.write("junk.8xp", b"junk");
    d.write("empty.txt", b"");
    d.write("notes.md", b"notes");
    d.write("noext", b"noext");
    d.write("shut/x.8xp", x.bytes());
    d.write("fixed/kept.8xp", x.bytes());
    d.symlink("A.8xp", "link.8xp");
    d.symlink("nowhere", "dangling.8xp");
    d.symlink("loop.8xp", "loop.8xp");
    let mode = |n: &str, m: u32| {
        let _ = std::fs::set_permissions(d.at(n), std::fs::Permissions::from_mode(m));
    };
    mode("locked.8xp", 0);
    mode("fixed", 0o555);
    mode("shut", 0);
}

fn c27(env: &Env, c: &Any) -> Check {
    let mut o = Obs::default();
    let d = env.dir();
    stage(&d);
    let before = d.snapshot();
    let mut args: Vec<OsString> = Vec::new();
    let name = match (&c.command, c.known) {
        (_, Some(k)) => Some(OsString::from(COMMANDS[k as usize % COMMANDS.len()])),
        (Some(w), None) => Some(w.os()),
        (None, None) => None,
    };
    args.extend(name.clone());
    if name.is_some() {
        args.extend(c.words.iter().map(|w| w.os()));
    }
    let (r, used) = d.run_traced(&args, &Opt { stdin: answers(c.stdin), ..Opt::default() });
    let what = format!("{args:?}, answers {}", c.stdin % 6);
    no_crash(&r, &what)?;
    if let Some(p) = d.strayed(&used) {
        return Err(format!("{what} made or changed {p:?}, which it was not told to"));
    }
    let after = d.snapshot();
    let known = name.as_ref().and_then(|n| n.to_str()).filter(|n| COMMANDS.contains(n)).unwrap_or("");
    let has = |names: &[&str]| args.iter().any(|a| a.to_str().map_or(false, |a| names.contains(&a)));
    let edits = ["rename", "comment", "lock", "unlock", "archive", "unarchive"].contains(&known);
    let writes = edits || known == "convert";
    let same = |why: &str| tree_diff(&after, &before).map_err(|e| format!("{what} ({}) {why}, but {e}", if r.ok() { "succeeded" } else { "refused" }));
    if !r.ok() {
        ensure!(!r.out.is_empty() || !r.err.is_empty(), "{what} ended with status {:?} and without a message", r.code);
    }
    if !writes || has(&["-h", "--help"]) {
        same("writes no files")?;
    } else if !r.ok() && !has(&["-m", "--mass"]) && !(args.iter().any(|a| a == "fixed/kept.8xp") && has(&["-d", "--delete-old"])) {
        // (the new file of an edit stays when the old one cannot be deleted)
        same("was refused")?;
    }
    // (a link that leads nowhere is no existing file)
    // an existing file changes only with consent, and goes only as the old file of an edit
    for (k, v) in before.iter().filter(|(k, _)| !["dangling.8xp", "loop.8xp"].contains(&k.as_str())) {
        match after.get(k) {
            Some(w) if w == v => {}
            Some(_) => ensure!(matches!(c.stdin % 6, 1 | 3), "{what} changed {k} without a y"),
            None => {
                ensure!(edits && has(&["-d", "--delete-old"]) && has(&["-f", "--new-file"]), "{what} deleted {k}")
            }
        }
    }
    // what was not asked for by name is not written
    for k in after.keys().filter(|k| !before.contains_key(*k)) {
        let leaf = k.rsplit('/').next().unwrap();
        let named = args.iter().any(|a| a.to_str().map_or(false, |a| a.trim_end_matches('/').ends_with(leaf)));
        ensure!(named || (has(&["-m", "--mass"]) && ["SAMPLE.txt", "NAME.8xp", "TWO.8xp"].contains(&leaf)) || k == "nowhere", "{what} created {k}");
    }
    let _ = std::fs::set_permissions(d.at("shut"), std::fs::Permissions::from_mode(0o755));
    o.label(if known.is_empty() { "unknown command".to_string() } else { known.to_string() });
    o.label(if r.ok() { "status 0" } else { "refused" });
    o.label_if(after != before, "something was written");
    o.label_if(args.iter().any(|a| a.to_str().is_none()), "not Unicode");
    o.trivial = args.is_empty();
    Ok(o)
}

pub fn c27_property() -> Property {
    let word = || {
        prop_oneof![
            8 => any::<u8>().prop_map(Word::Path),
            10 => any::<u8>().prop_map(Word::Opt),
            6 => any::<u8>().prop_map(Word::Value),
            1 => "\\PC{0,12}".prop_map(Word::Text),
            1 => vec(any::<u8>(), 1..6).prop_map(Word::Raw),
        ]
    };
    Property {
        id: "C27",
        level: "exploration",
        subs: vec![
            exhaustive(
                "one-path",
                "every path of a directory with files of every kind, directories, links, unreadable and missing things, as the input of every command, and as the output of convert, of mass conversion and of an edit, each with every kind of answer; all count",
                |_| {
                    let mut v = Vec::new();
                    let p = Word::Path;
                    let value = |s: &str| Word::Text(s.to_string());
                    for i in 0..PATHS.len() as u8 {
                        for stdin in [0u8, 1, 2, 4] {
                            for k in 0..12u8 {
                                let extra: Vec<Word> = match COMMANDS[k as usize] {
                                    "convert" => vec![value("-p"), value("-c"), value("-o"), value("new.txt")],
                                    "rename" => vec![value("-n"), value("NAME")],
                                    "comment" => vec![value("-c"), value("text")],
                                    _ => vec![],
                                };
                                let mut words = vec![p(i)];
                                words.extend(extra);
                                v.push(Any { command: None, known: Some(k), words, stdin });
                            }
                            for input in ["A.8xp", "B.83p", "D.txt", "dir"] {
                                let mut words = vec![value(input), value("-o"), p(i)];
                                if input == "dir" {
                                    words.push(value("-m"));
                                }
                                v.push(Any { command: None, known: Some(0), words, stdin });
                            }
                            v.push(Any { command: None, known: Some(0), words: vec![p(i), value("-m"), value("-o"), value("new dir")], stdin });
                            for del in [false, true] {
                                let mut words = vec![value("A.8xp"), value("-f"), p(i)];
                                if del {
                                    words.push(value("-d"));
                                }
                                v.push(Any { command: None, known: Some(3), words, stdin });
                            }
                        }
                    }
                    v
                },
                c27,
            ),
            generated(
                "lines",
                "up to 9 words of every kind after a known command (or any word in its place): paths, options of all commands with or without values, option values, any text, bytes that are not Unicode, very long words, help; non-trivial: at least one argument",
                6000,
                150000,
                move || {
                    let any_word = || prop_oneof![30 => word(), 1 => any::<bool>().prop_map(Word::Help), 1 => (0u16..6000).prop_map(Word::Long)];
                    let lead = prop_oneof![6 => any::<u8>().prop_map(Word::Path), 1 => any_word()];
                    let words = prop_oneof![
                        6 => (lead, vec(any_word(), 0..7)).prop_map(|(a, mut v)| { v.insert(0, a); v }),
                        1 => vec(any_word(), 0..9),
                    ];
                    (prop_oneof![14 => (0u8..13).prop_map(|k| (None, Some(k))), 1 => any_word().prop_map(|w| (Some(w), None)), 1 => Just((None, None))], words, any::<u8>())
                        .prop_map(|((command, known), words, stdin)| Any { command, known, words, stdin })
                        .boxed()
                },
                c27,
            ),
            generated(
                "near",
                "a command line that works (every command, every option with values, mass conversion, edits to new files with and without the old one's deletion) with up to 3 words inserted, dropped, doubled, swapped or replaced; non-trivial: always",
                6000,
                150000,
                move || {
                    let text = |s: &'static str| Word::Text(s.to_string());
                    let path = |v: &'static [&'static str]| proptest::sample::select(v).prop_map(move |s| Word::Text(s.to_string()));
                    let inputs = path(&["A.8xp", "B.83p", "C.82p", "D.txt", "link.8xp", "dir/one.8xp", "dir/two.txt", "locked.8xp", "shut/x.8xp", "fixed/kept.8xp"]);
                    let outs = path(&["new.8xp", "new.txt", "new.json", "new.83p", "A.8xp", "D.txt", "dir/one.8xp", "dangling.8xp", "fixed/new.txt", "fixed/kept.8xp", "new.bin", "link.8xp"]);
                    let opt = move |n: [&'static str; 2], v: &'static [&'static str]| {
                        (0..2usize, proptest::sample::select(v)).prop_map(move |(i, v)| vec![text(n[i]), Word::Text(v.to_string())])
                    };
                    let conv_opts = vec(
                        prop_oneof![
                            opt(["-d", "--display-mode"], &["accessible", "pretty", "ti"]),
                            opt(["-e", "--encode-mode"], &["min", "max", "smart"]),
                            Just(vec![text("-p")]),
                            Just(vec![text("--content")]),
                        ],
                        0..3,
                    )
                    .prop_map(|v| v.concat());
                    let convert = (inputs.clone(), conv_opts.clone(), proptest::option::weighted(0.8, outs.clone())).prop_map(move |(i, mut o, out)| {
                        o.insert(0, i);
                        if let Some(out) = out {
                            o.extend([text("-o"), out]);
                        }
                        (0u8, o)
                    });
                    let mass = (conv_opts, path(&["new dir", "dir", "folder.txt", "fixed", "shut", "."])).prop_map(move |(mut o, out)| {
                        o.insert(0, text("dir"));
                        o.extend([text("-m"), text("-o"), out]);
                        (0u8, o)
                    });
                    let edit = (1u8..7, inputs, proptest::option::of(outs), any::<bool>()).prop_map(move |(k, i, out, del)| {
                        let mut v = vec![i];
                        match k {
                            1 => v.extend([text("-n"), text("NEWNAME")]),
                            2 => v.extend([text("-c"), text("new comment")]),
                            _ => {}
                        }
                        if let Some(out) = out {
                            v.extend([text("-f"), out]);
                            if del {
                                v.push(text("-d"));
                            }
                        }
                        (k, v)
                    });
                    let base = prop_oneof![4 => convert, 2 => mass, 4 => edit];
                    let any_word = prop_oneof![30 => word(), 1 => any::<bool>().prop_map(Word::Help), 1 => (0u16..6000).prop_map(Word::Long)];
                    (base, vec((0..5u8, any::<u8>(), any::<u8>(), any_word), 0..4), any::<u8>())
                        .prop_map(|((k, mut words), changes, stdin)| {
                            for (kind, a, b, w) in changes {
                                let n = words.len().max(1);
                                let (a, b) = (a as usize % n, b as usize % n);
                                match kind {
                                    0 => words.insert(a, w),
                                    1 if words.len() > 1 => drop(words.remove(a)),
                                    2 if !words.is_empty() => {
                                        let w = words[a].clone();
                                        words.insert(b, w);
                                    }
                                    3 if !words.is_empty() => words.swap(a, b),
                                    4 if !words.is_empty() => words[a] = w,
                                    _ => {}
                                }
                            }
                            Any { command: None, known: Some(k), words, stdin }
                        })
                        .boxed()
                },
                c27,
            ),
        ],
        assumptions: vec![
            "inputs that never end (a pipe nobody closes) are left out",
            "standard output can be written to",
            "run as a user who may not read or enter everything",
        ],
    }
}
