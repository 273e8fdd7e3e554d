//! C09 - C12, C15 - C17: edits, consent, delete-old, 82p/83p, mass conversion.

use crate::cli::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::p1::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt;

pub type Tree = BTreeMap<String, Node>;

/// The first difference of two directory trees.
pub fn tree_diff(got: &Tree, want: &Tree) -> Result<(), String> {
    for (k, v) in want {
        match got.get(k) {
            None => return Err(format!("{k} is gone")),
            Some(g) if g != v => {
                return Err(match (g, v) {
                    (Node::File(a), Node::File(b)) => format!("{k} has other content: {}", differ(a, b)),
                    _ => format!("{k} is of another kind"),
                })
            }
            _ => {}
        }
    }
    match got.keys().find(|k| !want.contains_key(*k)) {
        Some(k) => Err(format!("{k} was created")),
        None => Ok(()),
    }
}

// ------------------------------------------------------------------ edits

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Edit {
    Rename(String),
    Comment(String),
    Lock,
    Unlock,
    Archive,
    Unarchive,
}

impl Edit {
    pub fn args<'a>(&'a self, input: &'a str) -> Vec<&'a str> {
        match self {
            Edit::Rename(n) => vec!["rename", input, "-n", n],
            Edit::Comment(c) => vec!["comment", input, "-c", c],
            Edit::Lock => vec!["lock", input],
            Edit::Unlock => vec!["unlock", input],
            Edit::Archive => vec!["archive", input],
            Edit::Unarchive => vec!["unarchive", input],
        }
    }
    pub fn valid(&self) -> bool {
        match self {
            Edit::Rename(n) => n.len() <= 8 && n.bytes().all(|b| b.is_ascii_alphabetic()),
            Edit::Comment(c) => c.len() <= 42,
            _ => true,
        }
    }
    pub fn apply(&self, x: &mut Xp) {
        match self {
            Edit::Rename(n) => x.name = pad(n.to_ascii_uppercase().as_bytes(), 8),
            Edit::Comment(c) => x.comment = pad(c.as_bytes(), 42),
            Edit::Lock => x.ftype = 6,
            Edit::Unlock => x.ftype = 5,
            Edit::Archive => x.dest = 0x80,
            Edit::Unarchive => x.dest = 0,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Edit::Rename(_) => "rename",
            Edit::Comment(_) => "comment",
            Edit::Lock => "lock",
            Edit::Unlock => "unlock",
            Edit::Archive => "archive",
            Edit::Unarchive => "unarchive",
        }
    }
}

/// Anywhere on a command line these ask for help.
pub fn asks_for_help(s: &str) -> bool {
    s == "-h" || s == "--help"
}
/// Strings that can be a value on the command line.
fn arg_text(max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        4 => vec(0x20u8..0x7F, 0..=max).prop_map(|v| String::from_utf8(v).unwrap()),
        1 => vec(prop_oneof![Just('é'), Just('θ'), Just('→'), Just('A'), Just('['), Just(']'), Just('\n'), Just('\u{1F600}')], 0..=max / 2).prop_map(|v| v.into_iter().collect()),
        1 => option_like(),
    ]
    .prop_map(|s: String| if asks_for_help(&s) { format!("x{}", &s[1..]) } else { s })
    .boxed()
}
/// Values that are spelled like options of the edit commands.
fn option_like() -> BoxedStrategy<String> {
    proptest::sample::select(vec!["-d", "--delete-old", "-f", "--new-file", "-n", "--name", "-c", "--comment", "-", "--", "-x", "-y", "-o", "--mass", "[color:red]", "a[bg:blue]b", "[style:bold", "[[a]]", "[color:]"]).prop_map(String::from).boxed()
}
fn cut_bytes(s: String, n: usize) -> String {
    let mut e = s.len().min(n);
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    s[..e].to_string()
}
pub fn valid_comment() -> BoxedStrategy<String> {
    prop_oneof![
        3 => arg_text(42).prop_map(|s| cut_bytes(s, 42)),
        1 => vec(0x21u8..0x7F, 42..=42).prop_map(|v| format!("c{}", String::from_utf8(v[1..].to_vec()).unwrap())),
        1 => Just(String::new()),
        1 => option_like(),
    ]
    .boxed()
}
pub fn valid_edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        3 => letters().prop_map(Edit::Rename),
        3 => valid_comment().prop_map(Edit::Comment),
        1 => Just(Edit::Lock),
        1 => Just(Edit::Unlock),
        1 => Just(Edit::Archive),
        1 => Just(Edit::Unarchive),
    ]
    .boxed()
}
pub fn invalid_edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        3 => bad_name().prop_map(Edit::Rename),
        3 => bad_comment().prop_map(Edit::Comment),
    ]
    .boxed()
}
fn bad_name() -> BoxedStrategy<String> {
    let odd = prop_oneof![
        Just('1'), Just('0'), Just('9'), Just(' '), Just('_'), Just('-'), Just('.'), Just('/'), Just('θ'), Just('é'), Just('É'), Just('@'), Just('['), Just('`'), Just('{'), Just('Ⅷ'), Just('ａ'), Just('\u{212A}'), Just('ß'), Just('\t'), Just('\u{1}')
    ];
    prop_oneof![
        2 => vec(0u8..26, 9..24).prop_map(|v| v.iter().map(|b| (b'A' + b) as char).collect::<String>()),
        2 => vec(0u8..26, 9..=9).prop_map(|v| v.iter().map(|b| (b'a' + b) as char).collect::<String>()),
        4 => (letters(), odd, 0usize..8).prop_map(|(s, c, at)| {
            let mut v: Vec<char> = s.chars().collect();
            let at = at % (v.len() + 1);
            v.insert(at, c);
            v.into_iter().collect::<String>()
        }),
        2 => arg_text(12),
    ]
    .prop_filter("an invalid name", |s| !Edit::Rename(s.clone()).valid() && !asks_for_help(s))
    .boxed()
}
fn bad_comment() -> BoxedStrategy<String> {
    prop_oneof![
        2 => vec(0x21u8..0x7F, 43..=44).prop_map(|v| String::from_utf8(v).unwrap()),
        2 => arg_text(200),
        1 => (0usize..42, 14usize..40).prop_map(|(a, b)| "a".repeat(a) + &"é→".repeat(b)),
        1 => (1usize..300).prop_map(|n| " ".repeat(42 + n)),
    ]
    .prop_map(|s| if s.len() <= 42 { s + &"!".repeat(43) } else { s })
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Dest {
    InPlace,
    File(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    edit: Edit,
    file: u8,
    dest: Dest,
    delete_old: bool,
    yes: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    progs: Vec<Prog>,
    steps: Vec<Step>,
}
const SLOTS: [&str; 4] = ["A.8xp", "B.8xp", "C.8xp", "D.8xp"];

fn c09_history(env: &Env, c: &History) -> Check {
    let d = env.dir();
    let mut model: BTreeMap<String, Xp> = BTreeMap::new();
    for (i, p) in c.progs.iter().enumerate() {
        d.write(SLOTS[i], p.bytes());
        model.insert(SLOTS[i].to_string(), p.xp());
    }
    let mut o = Obs::default();
    let mut edits = 0;
    for (n, s) in c.steps.iter().enumerate() {
        let names: Vec<String> = model.keys().cloned().collect();
        let input = names[s.file as usize % names.len()].clone();
        let new = match s.dest {
            Dest::InPlace => None,
            Dest::File(i) => Some(SLOTS[i as usize % 4].to_string()),
        };
        let mut args = s.edit.args(&input);
        if let Some(f) = &new {
            args.extend(["-f", f]);
            if s.delete_old {
                args.push("-d");
            }
        }
        let target = new.clone().unwrap_or(input.clone());
        let exists = model.contains_key(&target);
        let r = d.run_in(&args, if s.yes { "y\n" } else { "n\n" });
        let what = format!("step {} ({})", n + 1, args.join(" "));
        if !s.edit.valid() {
            must_refuse(&r, &what)?;
            o.label("refused edit in the history");
        } else {
            must(&r, &what)?;
            if !exists || s.yes {
                let mut x = model[&input].clone();
                s.edit.apply(&mut x);
                model.insert(target.clone(), x);
                edits += 1;
                if new.is_some() && s.delete_old && target != input {
                    model.remove(&input);
                    o.label("old file deleted");
                }
                o.label(s.edit.kind());
                o.label_if(target == input, "in place");
                o.label_if(target != input, "to another file");
            } else {
                o.label("declined");
            }
        }
        let want: Tree = model.iter().map(|(k, v)| (k.clone(), Node::File(v.bytes()))).collect();
        tree_diff(&d.snapshot(), &want).map_err(|e| format!("after {what}: {e}"))?;
    }
    o.trivial = edits == 0;
    o.label(format!("{edits} edits applied"));
    Ok(o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cross {
    prog: Prog,
    /// the input is an 8xp, 83p or 82p file
    from: u8,
    edit: Edit,
    /// index into EXT5
    to: u8,
    delete_old: bool,
    taken: bool,
}
/// An edit saved in another format against the same edit in place and a conversion.
fn c09_cross(env: &Env, c: &Cross) -> Check {
    let d = env.dir();
    let mut o = Obs::default();
    let (from, bytes) = match c.from % 3 {
        0 => ("8xp", c.prog.bytes()),
        1 => ("83p", strip(c.prog.xp()).bytes83()),
        _ => ("82p", strip(c.prog.xp()).bytes83()),
    };
    let (ext, input) = (["8xp", "txt", "json", "83p", "82p"][c.to as usize % 5], format!("IN.{from}"));
    d.write(&input, &bytes);
    // step by step
    must(&d.run(&["convert", &input, "-o", "R.8xp"]), "convert to 8xp")?;
    must(&d.run_in(&c.edit.args("R.8xp"), "y\n"), "edit in place")?;
    let want_out = format!("R2.{ext}");
    must(&d.run(&["convert", "R.8xp", "-o", &want_out]), &format!("convert to {ext}"))?;
    let want = read(&d, &want_out)?;
    for f in ["R.8xp", &want_out] {
        d.remove(f);
    }
    let out = format!("NEW.{ext}");
    if c.taken {
        d.write(&out, b"taken");
    }
    let mut args = c.edit.args(&input);
    args.extend(["-f", &out]);
    if c.delete_old {
        args.push("-d");
    }
    let r = d.run_in(&args, "y\n");
    let what = args.join(" ");
    must(&r, &what)?;
    let mut tree = Tree::new();
    tree.insert(out.clone(), Node::File(want));
    if !c.delete_old {
        tree.insert(input.clone(), Node::File(bytes));
    }
    tree_diff(&d.snapshot(), &tree).map_err(|e| format!("{what} is not what the edit in place and a conversion give: {e}"))?;
    o.label(format!("{from} to {ext}"));
    o.label(c.edit.kind());
    Ok(o)
}

pub fn c09() -> Property {
    let step = |p: u32| {
        (
            prop_oneof![12 => valid_edit(), p => invalid_edit()],
            0u8..4,
            prop_oneof![3 => Just(Dest::InPlace), 2 => (0u8..4).prop_map(Dest::File)],
            any::<bool>(),
            prop_oneof![5 => Just(true), 1 => Just(false)],
        )
            .prop_map(|(edit, file, dest, delete_old, yes)| Step { edit, file, dest, delete_old, yes })
    };
    Property {
        id: "C09",
        level: "exploration",
        subs: vec![
            generated(
                "histories",
                "up to 8 edit commands on up to 3 programs in one directory, in place or to new or existing files, with and without delete-old, some refused or declined; the whole directory is compared with a model after each; non-trivial: at least one edit applied",
                1600,
                40000,
                move || (vec(prog(), 1..=3), vec(step(1), 1..=8)).prop_map(|(progs, steps)| History { progs, steps }).boxed(),
                c09_history,
            ),
            generated(
                "large-and-odd",
                "one to three edits in place on programs with many tokens, full comments and unusual metadata; non-trivial: at least one edit applied",
                1000,
                20000,
                move || {
                    let big = prog_with(prop_oneof![calc_name(), vec(any::<u8>(), 0..=8).boxed()].boxed(), any_comment(), vec(pick(), 60..500).boxed());
                    (big, vec(valid_edit(), 1..=3))
                        .prop_map(|(p, e)| History {
                            progs: vec![p],
                            steps: e.into_iter().map(|edit| Step { edit, file: 0, dest: Dest::InPlace, delete_old: false, yes: true }).collect(),
                        })
                        .boxed()
                },
                c09_history,
            ),
            generated(
                "other-formats",
                "an edit of an 8xp, 83p or 82p program saved as a file of any format, compared with the same edit in place followed by a conversion; all count",
                700,
                20000,
                || {
                    (prog(), 0u8..3, valid_edit(), 0u8..5, any::<bool>(), proptest::bool::weighted(0.3))
                        .prop_map(|(prog, from, edit, to, delete_old, taken)| Cross { prog, from, edit, to, delete_old, taken })
                        .boxed()
                },
                c09_cross,
            ),
        ],
        assumptions: vec!["programs that a calculator or this tool writes: consistent lengths and checksum, bodies of known tokens"],
    }
}

// ------------------------------------------------------------------ C10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refusal {
    prog: Prog,
    edit: Edit,
    /// 0 in place, 1 new file, 2 existing file, 3 new file and delete-old
    dest: u8,
}

fn c10(env: &Env, c: &Refusal) -> Check {
    let d = env.dir();
    d.write("A.8xp", c.prog.bytes());
    d.write("B.8xp", b"another file");
    d.write("keep.txt", b"unrelated");
    let before = d.snapshot();
    let mut args = c.edit.args("A.8xp");
    match c.dest % 4 {
        0 => {}
        1 => args.extend(["-f", "N.8xp"]),
        2 => args.extend(["-f", "B.8xp"]),
        _ => args.extend(["-f", "N.8xp", "-d"]),
    }
    let r = d.run_in(&args, "y\n");
    let mut o = Obs::default();
    let what = format!("{args:?}");
    if c.edit.valid() {
        must(&r, &what)?;
        let target = ["A.8xp", "N.8xp", "B.8xp", "N.8xp"][c.dest as usize % 4];
        let mut x = c.prog.xp();
        c.edit.apply(&mut x);
        let mut want = before;
        want.insert(target.into(), Node::File(x.bytes()));
        if c.dest % 4 == 3 {
            want.remove("A.8xp");
        }
        tree_diff(&d.snapshot(), &want).map_err(|e| format!("after {what}: {e}"))?;
        o.label("accepted");
    } else {
        must_refuse(&r, &what)?;
        tree_diff(&d.snapshot(), &before).map_err(|e| format!("although {what} was refused: {e}"))?;
        o.label("refused");
        o.label_if(c.dest % 4 == 3, "refused with delete-old");
    }
    o.label(c.edit.kind());
    Ok(o)
}

pub fn sample_prog() -> Prog {
    Prog { model: 0, name: b"SAMPLE".to_vec(), ftype: 0, archived: false, version: 0, unknown: 0, comment: b"a comment".to_vec(), body: vec![Pick::Upper(3), Pick::Nl, Pick::Digit(4)], times: 1 }
}

pub fn c10_property() -> Property {
    Property {
        id: "C10",
        level: "exploration",
        subs: vec![
            exhaustive(
                "single-characters",
                "every character U+0001 to U+024F alone and as the third of four letters as name; names of 0 to 40 letters; comments of 0 to 120 bytes in one- and two-byte characters; all count",
                |t| {
                    let mut v = Vec::new();
                    let mut push = |edit: Edit, dest: usize| {
                        let text = match &edit { Edit::Rename(s) | Edit::Comment(s) => s.clone(), _ => String::new() };
                        if !asks_for_help(&text) {
                            v.push(Refusal { prog: sample_prog(), edit, dest: dest as u8 });
                        }
                    };
                    for u in 1..0x250u32 {
                        let ch = char::from_u32(u).unwrap();
                        if t.thorough || u < 0x80 || u % 3 == 0 {
                            push(Edit::Rename(ch.to_string()), 0);
                        }
                        if t.thorough || u < 0x100 {
                            push(Edit::Rename(format!("AB{ch}D")), u as usize);
                        }
                    }
                    for n in 0..=40 {
                        push(Edit::Rename("Z".repeat(n)), n);
                        push(Edit::Rename("q".repeat(n)), n + 1);
                    }
                    for n in 0..=120 {
                        push(Edit::Comment("c".repeat(n)), n);
                        push(Edit::Comment("é".repeat(n / 2) + &"c".repeat(n % 2)), n + 1);
                        push(Edit::Comment(" ".repeat(n)), n);
                    }
                    v
                },
                c10,
            ),
            generated(
                "values",
                "random valid and invalid names and comments, in place, to a new file, over an existing file, and with delete-old; all count",
                3500,
                60000,
                || {
                    (prog(), prop_oneof![3 => invalid_edit(), 1 => valid_edit()], 0u8..4)
                        .prop_map(|(prog, edit, dest)| Refusal { prog, edit, dest })
                        .boxed()
                },
                c10,
            ),
        ],
        assumptions: vec!["the values -h and --help ask for help (C23) and are left out"],
    }
}

// ------------------------------------------------------------------ C11

/// Where the output of a command goes and what it would be on a fresh path.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// program, output extension
    FromXp(Prog, u8),
    FromTxt(Txt, u8),
    FromJson(Prog, u8),
    /// edit to another file
    EditTo(Prog, Edit),
    EditInPlace(Prog, Edit),
}
const OUT_EXT: [&str; 5] = ["8xp", "txt", "json", "83p", "82p"];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Consent {
    op: Op,
    old: Vec<u8>,
    answer: String,
    /// 0 supported, 1 unsupported extension, 2 no extension
    ext: u8,
    /// directory part of the output path
    sub: bool,
    /// what stands at the output path: 0 the file, else links to it, see `LINKS`
    link: u8,
    /// its permissions
    perm: u8,
}
/// (link, what it holds), the last of which is the output path
const LINKS: [&[&str]; 5] = [&[], &["real.8xp"], &["deep/real.dat"], &["deep/real.txt", "deep/hop"], &["/deep/real"]];
const PERMS: [u32; 8] = [0o644, 0o600, 0o640, 0o664, 0o755, 0o666, 0o700, 0o604];

fn c11(env: &Env, c: &Consent) -> Check {
    let mut o = Obs::default();
    let d = env.dir();
    d.mkdir("sub");
    d.write("bystander.8xp", b"bystander");
    let (input, ext) = match &c.op {
        Op::FromXp(p, e) => {
            d.write("IN.8xp", p.bytes());
            ("IN.8xp", OUT_EXT[*e as usize % 5])
        }
        Op::FromTxt(t, e) => {
            if !encodable(&EncCase { txt: t.clone(), enc: Enc::Smart, explicit: false }) {
                return Ok(Obs { trivial: true, ..o });
            }
            d.write("IN.txt", t.file());
            ("IN.txt", OUT_EXT[*e as usize % 5])
        }
        Op::FromJson(p, e) => {
            d.write("IN0.8xp", p.bytes());
            must(&d.run(&["convert", "IN0.8xp", "-o", "IN.json"]), "convert 8xp to json")?;
            ("IN.json", OUT_EXT[*e as usize % 5])
        }
        Op::EditTo(p, _) | Op::EditInPlace(p, _) => {
            d.write("IN.8xp", p.bytes());
            ("IN.8xp", "8xp")
        }
    };
    let ext = match c.ext {
        0 => ext,
        1 => "bin",
        _ => "",
    };
    let dir = if c.sub { "sub/" } else { "" };
    let out = if matches!(c.op, Op::EditInPlace(..)) {
        input.to_string()
    } else if ext.is_empty() {
        format!("{dir}OUT")
    } else {
        format!("{dir}OUT.{ext}")
    };
    let fresh_name = format!("FRESH.{ext}");
    let command = |out: &str| -> Vec<String> {
        let v: Vec<&str> = match &c.op {
            Op::EditTo(_, e) | Op::EditInPlace(_, e) => {
                let mut v = e.args(input);
                v.extend(["-f", out]);
                v
            }
            _ => vec!["convert", input, "-o", out],
        };
        v.into_iter().map(String::from).collect()
    };
    let go = |args: &[String], stdin: &str| {
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        d.run_opt(&a, &Opt { stdin: &raw_answer(stdin), ..Opt::default() })
    };
    // what a fresh save writes
    let fresh = if c.ext == 0 {
        must(&go(&command(&fresh_name), ""), "save to a fresh path")?;
        let b = read(&d, &fresh_name)?;
        d.remove(&fresh_name);
        Some(b)
    } else {
        None
    };
    // the file itself, and what leads to it
    let old = if out == input { read(&d, input)? } else { c.old.clone() };
    let hops = LINKS[c.link as usize % LINKS.len()];
    let mut file = out.clone();
    if hops.is_empty() {
        d.write(&out, &old);
    } else {
        d.remove(&out);
        d.mkdir("deep");
        file = hops[0].trim_start_matches('/').to_string();
        d.write(&file, &old);
        let mut target = match hops[0].strip_prefix('/') {
            Some(f) => d.at(f).to_string_lossy().into_owned(),
            None => file.clone(),
        };
        for hop in &hops[1..] {
            // a link in the same directory as what it leads to
            d.symlink(target.rsplit('/').next().unwrap(), hop);
            target = hop.to_string();
        }
        let up = if out.contains('/') && !target.starts_with('/') { "../" } else { "" };
        d.symlink(&format!("{up}{target}"), &out);
        o.label("the output path is a link");
    }
    let perm = PERMS[c.perm as usize % PERMS.len()];
    d.chmod(&file, perm);
    let before = d.snapshot();
    let args: Vec<String> = match &c.op {
        Op::EditInPlace(_, e) => e.args(input).into_iter().map(String::from).collect(),
        _ => command(&out),
    };
    let r = go(&args, &c.answer);
    let what = format!("{args:?} answered {:?}", c.answer);
    let first = c.answer.split('\n').next().unwrap();
    let yes = first == "y" || first == "Y";
    let mut want = before.clone();
    match (&fresh, yes) {
        (Some(f), true) => {
            must(&r, &what)?;
            want.insert(file.clone(), Node::File(f.clone()));
            tree_diff(&d.snapshot(), &want).map_err(|e| format!("after {what}: {e}"))?;
            o.label("consent");
        }
        (Some(_), false) => {
            must(&r, &what)?;
            tree_diff(&d.snapshot(), &want).map_err(|e| format!("after {what}: {e}"))?;
            o.label(if c.answer.is_empty() { "end of input" } else { "no consent" });
        }
        (None, _) => {
            no_crash(&r, &what)?;
            tree_diff(&d.snapshot(), &want).map_err(|e| format!("after {what} with an unsupported output path: {e}"))?;
            // with consent nothing can be saved, which is an error
            ensure!(!yes || !r.ok(), "{what}: an unsupported output path was reported as a success");
            o.label("unsupported extension");
        }
    }
    let now = d.perm(&file);
    ensure!(now == perm, "after {what}: the permissions of {file} were {perm:o} and are {now:o}");
    o.label(match &c.op {
        Op::FromXp(..) => "convert 8xp",
        Op::FromTxt(..) => "convert txt",
        Op::FromJson(..) => "convert json",
        Op::EditTo(..) => "edit to an existing file",
        Op::EditInPlace(..) => "edit in place",
    });
    Ok(o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MassConsent {
    /// program, whether its first and its second output exist, and whether it is a json file
    progs: Vec<(Prog, bool, bool, bool)>,
    /// the answers, in the order of the questions; none is left after the last one
    answers: Vec<u8>,
    /// which of the programs are called like the first one
    same: u8,
}
const ANSWERS: [&str; 10] = ["y", "Y", "n", "N", "", "yes", "no", "ny", "yy", "1"];

/// What a mass conversion that meets the files in this order leaves behind.
fn mass_outcome(files: &[Vec<(String, Vec<u8>)>], order: &[usize], start: &Tree, answers: &[u8]) -> Tree {
    let mut tree = start.clone();
    let mut next = answers.iter();
    let mut yes = || next.next().map_or(false, |&a| a % 10 < 2);
    for &i in order {
        for (out, fresh) in &files[i] {
            if tree.contains_key(out) && !yes() {
                // not replaced: go on with the next file?
                if !yes() {
                    return tree;
                }
                break;
            }
            tree.insert(out.clone(), Node::File(fresh.clone()));
        }
    }
    tree
}
fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut all = Vec::new();
    for o in orders(n - 1) {
        for at in 0..n {
            let mut o = o.clone();
            o.insert(at, n - 1);
            all.push(o);
        }
    }
    all
}

fn mass_consent(taken: u32, same: BoxedStrategy<u8>) -> BoxedStrategy<MassConsent> {
    let taken = || prop_oneof![taken => Just(true), 1 => Just(false)];
    let word = prop_oneof![5 => Just(0u8), 1 => 0u8..10, 2 => Just(2u8)];
    (
        vec((small_prog(), taken(), taken(), any::<bool>()), 1..=4),
        prop_oneof![1 => Just(vec![0u8; 12]), 1 => (0u8..10).prop_map(|a| vec![a; 12]), 6 => vec(word, 0..12)],
        same,
    )
        .prop_map(|(progs, answers, same)| MassConsent { progs, answers, same })
        .boxed()
}

/// Mass conversion over existing files, every question with an answer of its own.
fn c11_mass(env: &Env, c: &MassConsent) -> Check {
    let mut o = Obs::default();
    let d = env.dir();
    d.mkdir("in");
    d.mkdir("out");
    d.write("out/other.txt", b"other");
    let mut files = Vec::new();
    let mut existing = 0;
    for (i, (p, first, second, json)) in c.progs.iter().enumerate() {
        let p = Prog { name: ["ONE", "TWO", "THREE", "FOUR"][if c.same >> i & 1 == 1 { 0 } else { i }].into(), ..p.clone() };
        let name = p.xp().name_text();
        d.write("p.8xp", p.bytes());
        let (input, outs) = if *json { (format!("in/{i}.json"), vec!["txt", "8xp"]) } else { (format!("in/{i}.8xp"), vec!["txt"]) };
        must(&d.run(&["convert", "p.8xp", "-o", &input]), "convert 8xp")?;
        let mut of_file = Vec::new();
        for ext in outs {
            must(&d.run(&["convert", &input, "-o", &format!("F.{ext}")]), "convert by itself")?;
            let fresh = read(&d, &format!("F.{ext}"))?;
            d.remove(&format!("F.{ext}"));
            let out = format!("out/{name}.{ext}");
            if if ext == "txt" { *first } else { *second } {
                d.write(&out, b"precious");
                existing += 1;
            }
            of_file.push((out, fresh));
        }
        files.push(of_file);
        d.remove("p.8xp");
    }
    let start = d.snapshot();
    let stdin: String = c.answers.iter().map(|&a| format!("{}\n", ANSWERS[a as usize % 10])).collect();
    let r = d.run_in(&["convert", "in", "-m", "-o", "out"], &stdin);
    let what = format!("mass conversion over existing files, answered {stdin:?}");
    must(&r, &what)?;
    let got = d.snapshot();
    let possible: Vec<Tree> = orders(files.len()).iter().map(|order| mass_outcome(&files, order, &start, &c.answers)).collect();
    if !possible.contains(&got) {
        // told by the order that comes closest
        let e = possible.iter().filter_map(|t| tree_diff(&got, t).err()).min_by_key(|e| e.len()).unwrap_or_default();
        return Err(format!("after {what}: no order of the files explains the directory: {e}"));
    }
    let collisions = (1..c.progs.len()).filter(|i| c.same >> i & 1 == 1).count();
    o.trivial = existing + collisions == 0;
    o.label_if(collisions > 0, "programs of one name");
    o.label(format!("{existing} existing files"));
    o.label_if(possible.iter().any(|t| *t != possible[0]), "the outcome depends on the order");
    o.label_if(got == start, "nothing replaced");
    o.label_if(possible.iter().all(|t| *t == got) && existing > 1 && got != start, "one possible outcome");
    Ok(o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NewDir {
    progs: Vec<Prog>,
    answer: String,
    /// how the output directory is written, the last one lies in a missing directory
    out: u8,
    preview: bool,
}
const NEW_DIRS: [&str; 5] = ["out", "out/", "./out", "in/out", "missing/out"];

/// Mass conversion into a directory that does not exist.
fn c11_new_dir(env: &Env, c: &NewDir) -> Check {
    let mut o = Obs::default();
    let d = env.dir();
    d.mkdir("in");
    let mut fresh = Vec::new();
    for (i, p) in c.progs.iter().enumerate() {
        let p = Prog { name: ["ONE", "TWO", "THREE"][i % 3].into(), ..p.clone() };
        let input = format!("in/{i}.8xp");
        d.write(&input, p.bytes());
        must(&d.run(&["convert", &input, "-o", "F.txt"]), "convert by itself")?;
        fresh.push((p.xp().name_text(), read(&d, "F.txt")?));
        d.remove("F.txt");
    }
    let out = NEW_DIRS[c.out as usize % NEW_DIRS.len()];
    let mut want = d.snapshot();
    let mut args = vec!["convert", "in", "-m", "-o", out];
    if c.preview {
        args.push("-p");
    }
    let r = d.run_opt(&args, &Opt { stdin: &raw_answer(&c.answer), ..Opt::default() });
    let what = format!("{args:?} answered {:?}", c.answer);
    let first = c.answer.split('\n').next().unwrap();
    let yes = first == "y" || first == "Y";
    // that a directory on the way is missing may be made up for, or be an error
    if yes && (!out.starts_with("missing") || r.ok()) {
        must(&r, &what)?;
        if out.starts_with("missing") {
            want.insert("missing".into(), Node::Dir);
        }
        let at = out.trim_start_matches("./").trim_end_matches('/');
        want.insert(at.into(), Node::Dir);
        for (name, text) in fresh {
            want.insert(format!("{at}/{name}.txt"), Node::File(text));
        }
        o.label("created");
    } else {
        must_refuse(&r, &what)?;
        o.label(if yes { "cannot be created" } else { "no consent" });
    }
    tree_diff(&d.snapshot(), &want).map_err(|e| format!("after {what}: {e}"))?;
    Ok(o)
}

/// U+E0FF stands for a byte that is not valid UTF-8.
fn raw_answer(s: &str) -> Vec<u8> {
    s.chars().flat_map(|c| if c == '\u{E0FF}' { vec![0xFF] } else { c.to_string().into_bytes() }).collect()
}

fn answer() -> BoxedStrategy<String> {
    let word = prop_oneof![
        6 => Just("y".to_string()),
        3 => Just("Y".to_string()),
        2 => Just("n".to_string()),
        1 => Just("N".to_string()),
        1 => Just(String::new()),
        1 => Just("yes".to_string()),
        1 => Just("Yes".to_string()),
        1 => Just("YES".to_string()),
        1 => Just("no".to_string()),
        1 => Just("yy".to_string()),
        1 => Just("1".to_string()),
        1 => Just("true".to_string()),
        1 => Just("ｙ".to_string()),
        1 => Just("ý".to_string()),
        2 => Just("\u{E0FF}".to_string()),
        1 => Just("y\u{E0FF}".to_string()),
        1 => Just("\u{E0FF}y".to_string()),
        1 => Just("ny".to_string()),
        1 => Just("n y".to_string()),
        1 => Just("y n".to_string()),
        2 => vec(0x21u8..0x7F, 1..4).prop_map(|v| String::from_utf8(v).unwrap()),
    ];
    (word, 0u8..4)
        .prop_map(|(w, e)| match e {
            0 => w,
            1 | 2 => w + "\n",
            _ => w + "\ny\n",
        })
        .boxed()
}

pub fn c11_property() -> Property {
    let small_txt = || txt_with(vec(pick().prop_map(Frag::Tok), 0..10).boxed(), all_modes());
    let op = move || {
        prop_oneof![
            3 => (prog(), 0u8..5).prop_map(|(p, e)| Op::FromXp(p, e)),
            2 => (small_txt(), 0u8..5).prop_map(|(p, e)| Op::FromTxt(p, e)),
            1 => (prog(), 0u8..5).prop_map(|(p, e)| Op::FromJson(p, e)),
            2 => (prog(), valid_edit()).prop_map(|(p, e)| Op::EditTo(p, e)),
            2 => (prog(), valid_edit()).prop_map(|(p, e)| Op::EditInPlace(p, e)),
        ]
    };
    Property {
        id: "C11",
        level: "exploration",
        subs: vec![
            generated(
                "answers",
                "conversions and edits whose output path exists (any old content, also longer than the new one; a file with all sorts of permissions, or links to one), every kind of answer, supported, unsupported and missing extensions; non-trivial: the input can be converted",
                3000,
                60000,
                move || {
                    (
                        op(),
                        prop_oneof![Just(b"old content\n".to_vec()), Just(vec![]), vec(any::<u8>(), 0..40), Just(vec![0x55; 5000])],
                        answer(),
                        prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
                        any::<bool>(),
                        (prop_oneof![3 => Just(0u8), 1 => 0u8..5], prop_oneof![2 => Just(0u8), 1 => 0u8..8]),
                    )
                        .prop_map(|(op, old, answer, ext, sub, (link, perm))| {
                            let ext = if matches!(op, Op::EditInPlace(..)) { 0 } else { ext };
                            Consent { op, old, answer, ext, sub, link, perm }
                        })
                        .boxed()
                },
                c11,
            ),
            generated(
                "mass",
                "mass conversion of up to four 8xp and json programs over existing files, every question with an answer of its own, none after the last: the directory must be what some order of the files gives; non-trivial: at least one output exists",
                900,
                15000,
                || mass_consent(3, prop_oneof![3 => Just(0u8), 1 => 0u8..16].boxed()),
                c11_mass,
            ),
            generated(
                "new-directory",
                "mass conversion of up to three programs into a directory that does not exist, every kind of answer: it is made on y and Y only; all count",
                700,
                12000,
                || {
                    (vec(small_prog(), 0..=3), answer(), prop_oneof![3 => Just(0u8), 2 => 0u8..5], any::<bool>())
                        .prop_map(|(progs, answer, out, preview)| NewDir { progs, answer, out, preview })
                        .boxed()
                },
                c11_new_dir,
            ),
        ],
        assumptions: vec!["answers padded with blanks are left open"],
    }
}

// ------------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DelOld {
    prog: Prog,
    edit: Edit,
    /// how the new path is written, see `c12`
    path: u8,
    new_file: bool,
    delete_old: bool,
    long: bool,
    answer: u8,
    input_spelling: u8,
}

fn c12(env: &Env, c: &DelOld) -> Check {
    let d = env.dir();
    d.mkdir("sub");
    let orig = c.prog.bytes();
    d.write("A.8xp", &orig);
    d.write("E.8xp", b"existing");
    d.write("sub/A.8xp", b"same name elsewhere");
    d.symlink("A.8xp", "L.8xp");
    let abs = d.at("A.8xp").to_string_lossy().into_owned();
    // (path, names the input, kind)
    let paths: [(&str, bool, &str); 15] = [
        ("A.8xp", true, "same path"),
        ("./A.8xp", true, "same with ./"),
        ("sub/../A.8xp", true, "same with .."),
        (&abs, true, "same, absolute"),
        (".//A.8xp", true, "same with //"),
        ("L.8xp", true, "symlink to the input"),
        ("N.8xp", false, "new file"),
        ("sub/N.8xp", false, "new file in a directory"),
        ("E.8xp", false, "existing file"),
        ("sub/A.8xp", false, "existing file of the same name"),
        ("missing/N.8xp", false, "missing directory"),
        ("N.bin", false, "unsupported extension"),
        ("N", false, "no extension"),
        ("N.83p", false, "new 83p file"),
        ("N.json", false, "new json file"),
    ];
    let (path, same, kind) = paths[c.path as usize % paths.len()];
    let input = ["A.8xp", "./A.8xp", &abs][c.input_spelling as usize % 3];
    let mut args = c.edit.args(input);
    if c.new_file {
        args.extend([if c.long { "--new-file" } else { "-f" }, path]);
    }
    if c.delete_old {
        args.push(if c.long { "--delete-old" } else { "-d" });
    }
    let answer = ["y\n", "n\n", ""][c.answer as usize % 3];
    let before = d.snapshot();
    let r = d.run_in(&args, answer);
    let what = format!("{args:?} answered {answer:?}");
    no_crash(&r, &what)?;
    let after = d.snapshot();
    let mut x = c.prog.xp();
    c.edit.apply(&mut x);
    let edited = if path.ends_with(".83p") && c.new_file { x.bytes83() } else { x.bytes() };
    let mut o = Obs::default();
    o.label(kind);
    o.label_if(c.delete_old && c.new_file, "delete-old with new-file");
    o.label_if(c.delete_old && !c.new_file, "delete-old alone");
    let file = |n: &str| match after.get(n) {
        Some(Node::File(b)) => Some(b.clone()),
        _ => None,
    };
    // the program is somewhere, with or without the edit
    let json_done = path.ends_with(".json") && c.new_file && after.contains_key("N.json") && r.ok();
    let kept = after.iter().any(|(_, n)| matches!(n, Node::File(b) if *b == orig || (c.edit.valid() && *b == edited))) || json_done;
    ensure!(kept, "after {what} no file holds the program any more (files: {:?})", after.keys().collect::<Vec<_>>());
    let saved = c.edit.valid()
        && r.ok()
        && !(c.delete_old && !c.new_file)
        && if !c.new_file {
            answer == "y\n"
        } else {
            match kind {
                "missing directory" | "unsupported extension" | "no extension" => false,
                "new file" | "new file in a directory" | "new 83p file" | "new json file" => true,
                _ => answer == "y\n",
            }
        };
    let may_go = c.new_file && c.delete_old && saved && !same;
    if kind == "symlink to the input" && c.new_file {
        // written through the link or in its place: both leave the program at the new path
        if saved {
            let b = d.read("L.8xp");
            ensure!(b.as_deref() == Some(&edited[..]), "after {what} the new path does not hold the edited program");
        } else {
            tree_diff(&after, &before).map_err(|e| format!("after {what}: {e}"))?;
        }
        return Ok(o);
    }
    if may_go {
        ensure!(!after.contains_key("A.8xp"), "{what} did not remove the old file");
        o.label("old file removed");
        if kind != "new json file" {
            ensure!(file(path).as_deref() == Some(&edited[..]), "after {what} the new file is not the edited program");
        }
    } else {
        let a = file("A.8xp");
        ensure!(a.is_some(), "{what} removed the input file");
        let a_edited = saved && (!c.new_file || same);
        let want = if a_edited { &edited } else { &orig };
        ensure!(a.as_ref() == Some(want), "after {what} the input file holds something else: {}", differ(&a.unwrap(), want));
        o.label("old file kept");
    }
    // nothing else disappears
    for k in before.keys() {
        ensure!(k == "A.8xp" || after.contains_key(k), "{what} removed {k}");
    }
    o.label_if(!c.edit.valid(), "refused edit");
    o.label_if(!saved, "not saved");
    Ok(o)
}

/// the input is reached through a link; what is removed is the path the user
/// named, and the program behind the link is left as it was
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LinkedOld {
    prog: Prog,
    edit: Edit,
    /// 0 a symbolic link, 1 a chain of two, 2 an absolute one, 3 a hard link
    link: u8,
    path: u8,
    delete_old: bool,
    answer: u8,
}

fn c12_links(env: &Env, c: &LinkedOld) -> Check {
    let d = env.dir();
    d.mkdir("store");
    d.mkdir("sub");
    let orig = c.prog.bytes();
    d.write("store/REAL.8xp", &orig);
    d.write("E.8xp", b"existing");
    let real = d.at("store/REAL.8xp");
    let kind = ["symbolic link", "chain of links", "absolute link", "hard link"][c.link as usize % 4];
    match kind {
        "symbolic link" => d.symlink("store/REAL.8xp", "A.8xp"),
        "chain of links" => {
            d.symlink("store/REAL.8xp", "B.8xp");
            d.symlink("B.8xp", "A.8xp");
        }
        "absolute link" => d.symlink(&real.to_string_lossy(), "A.8xp"),
        _ => std::fs::hard_link(&real, d.at("A.8xp")).expect("hard link"),
    }
    let path = ["N.8xp", "sub/N.8xp", "E.8xp", "sub/A.8xp"][c.path as usize % 4];
    let mut args = c.edit.args("A.8xp");
    args.extend(["--new-file", path]);
    if c.delete_old {
        args.push("--delete-old");
    }
    let answer = ["y\n", "n\n"][c.answer as usize % 2];
    let before = d.snapshot();
    let r = d.run_in(&args, answer);
    let what = format!("{args:?} (A.8xp is a {kind} to store/REAL.8xp) answered {answer:?}");
    no_crash(&r, &what)?;
    let after = d.snapshot();
    let saved = c.edit.valid() && r.ok() && (path != "E.8xp" || answer == "y\n");
    let mut o = Obs::default();
    o.label(kind);
    ensure!(d.read("store/REAL.8xp").as_deref() == Some(&orig[..]), "{what} changed or removed the program behind the link");
    if saved {
        let mut x = c.prog.xp();
        c.edit.apply(&mut x);
        ensure!(d.read(path).as_deref() == Some(&x.bytes()[..]), "after {what} the new file is not the edited program");
    }
    let gone = saved && c.delete_old;
    ensure!(after.contains_key("A.8xp") != gone, "{what} {} the path it was given", if gone { "did not remove" } else { "removed" });
    for k in before.keys() {
        ensure!((k == "A.8xp" && gone) || after.contains_key(k), "{what} removed {k}");
    }
    o.label_if(gone, "link removed");
    o.label_if(!saved, "not saved");
    Ok(o)
}

pub fn c12_property() -> Property {
    Property {
        id: "C12",
        level: "exploration",
        subs: vec![
            exhaustive(
                "matrix",
                "every new path spelling x new-file given x delete-old given x answer x an accepted and a refused edit, with a lock, rename or comment command; all count",
                |_| {
                    let mut v = Vec::new();
                    for path in 0..15u8 {
                        for flags in 0..4u8 {
                            for answer in 0..3u8 {
                                for (i, edit) in [Edit::Lock, Edit::Rename("NEWNAME".into()), Edit::Comment("hello".into()), Edit::Archive, Edit::Rename("N1".into()), Edit::Comment("x".repeat(43))].into_iter().enumerate() {
                                    v.push(DelOld {
                                        prog: sample_prog(),
                                        edit,
                                        path,
                                        new_file: flags & 1 != 0,
                                        delete_old: flags & 2 != 0,
                                        long: (path as usize + i) % 2 == 0,
                                        answer,
                                        input_spelling: (i as u8 + path) % 3,
                                    });
                                }
                            }
                        }
                    }
                    v
                },
                c12,
            ),
            generated(
                "edits",
                "random programs and edits with new-file and delete-old combinations; all count",
                2500,
                40000,
                || {
                    (
                        prog(),
                        prop_oneof![4 => valid_edit(), 1 => invalid_edit()],
                        0u8..15,
                        prop_oneof![4 => Just(true), 1 => Just(false)],
                        prop_oneof![4 => Just(true), 1 => Just(false)],
                        any::<bool>(),
                        prop_oneof![3 => Just(0u8), 1 => 1u8..3],
                        0u8..3,
                    )
                        .prop_map(|(prog, edit, path, new_file, delete_old, long, answer, input_spelling)| DelOld { prog, edit, path, new_file, delete_old, long, answer, input_spelling })
                        .boxed()
                },
                c12,
            ),
            generated(
                "links",
                "inputs that are a symbolic link, a chain of them, an absolute one or a hard link, edited into a new or existing file with and without delete-old: the link goes, what it stands for stays; all count",
                500,
                10000,
                || {
                    (prog(), prop_oneof![5 => valid_edit(), 1 => invalid_edit()], 0u8..4, 0u8..4, prop_oneof![3 => Just(true), 1 => Just(false)], prop_oneof![3 => Just(0u8), 1 => Just(1u8)])
                        .prop_map(|(prog, edit, link, path, delete_old, answer)| LinkedOld { prog, edit, link, path, delete_old, answer })
                        .boxed()
                },
                c12_links,
            ),
        ],
        assumptions: vec!["a new path that is a symbolic link to the input may be replaced or written through; only the program must survive at it"],
    }
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Old {
    prog: Prog,
    /// 82p (true) or 83p
    two: bool,
    mode: Mode,
    enc: Enc,
    edits: Vec<Edit>,
}
/// 82p/83p files have no version or destination.
pub fn strip(mut x: Xp) -> Xp {
    x.version = 0;
    x.dest = 0;
    x.unknown = 0;
    x
}

fn c15_load(env: &Env, c: &Old) -> Check {
    let d = env.dir();
    let x = strip(c.prog.xp());
    let (inp, other) = if c.two { ("P.82p", "Q.83p") } else { ("P.83p", "Q.82p") };
    d.write(inp, x.bytes83());
    // to 8xp
    must(&d.run(&["convert", inp, "-o", "O.8xp"]), &format!("convert {inp} to 8xp"))?;
    let b = read(&d, "O.8xp")?;
    parse(&b)?;
    ensure!(b == x.bytes(), "the 8xp made from {inp} differs: {}", differ(&b, &x.bytes()));
    // its text
    must(&d.run(&["convert", inp, "-o", "O.txt", "-d", c.mode.name()]), &format!("convert {inp} to txt"))?;
    let t = read_txt(&d, "O.txt")?;
    let want = c.prog.text(c.mode);
    ensure!(txt_body(&t) == want, "the text of {inp} differs: {}", differ_text(&txt_body(&t), &want));
    must(&d.run(&["convert", "O.8xp", "-o", "O2.txt", "-d", c.mode.name()]), "convert the 8xp to txt")?;
    ensure!(d.read("O.txt") == d.read("O2.txt"), "the text made from {inp} and from its 8xp differ");
    // json keeps the program
    must(&d.run(&["convert", inp, "-o", "O.json", "-d", c.mode.name()]), &format!("convert {inp} to json"))?;
    must(&d.run(&["convert", "O.json", "-o", "O3.8xp"]), "convert the json to 8xp")?;
    ensure!(read(&d, "O3.8xp")? == b, "{inp} through json gives another 8xp");
    // into both old layouts again
    let ext = if c.two { "R.82p" } else { "R.83p" };
    for out in [ext, other] {
        must(&d.run(&["convert", inp, "-o", out]), &format!("convert {inp} to {out}"))?;
        let g = read(&d, out)?;
        Xp::parse83(&g).map_err(|e| format!("{out} made from {inp}: {e}"))?;
        ensure!(g == x.bytes83(), "{out} made from {inp} differs: {}", differ(&g, &x.bytes83()));
    }
    let mut o = Obs::default();
    o.label(format!("model {}", c.prog.model_row().name));
    o.label_if(x.body.is_empty(), "empty body");
    o.label_if(x.body.len() > 255, "more than 255 bytes");
    o.label(if c.two { "82p" } else { "83p" });
    Ok(o)
}

fn c15_save(env: &Env, c: &Old) -> Check {
    let d = env.dir();
    let x = c.prog.xp();
    d.write("P.8xp", x.bytes());
    let out = if c.two { "O.82p" } else { "O.83p" };
    must(&d.run(&["convert", "P.8xp", "-o", out]), &format!("convert 8xp to {out}"))?;
    let g = read(&d, out)?;
    Xp::parse83(&g).map_err(|e| format!("{out} made from an 8xp: {e}"))?;
    ensure!(g == x.bytes83(), "{out} made from an 8xp differs: {}", differ(&g, &x.bytes83()));
    must(&d.run(&["convert", out, "-o", "B.8xp"]), &format!("convert {out} to 8xp"))?;
    let b = read(&d, "B.8xp")?;
    let want = strip(x).bytes();
    ensure!(b == want, "the program read back from {out} differs: {}", differ(&b, &want));
    let mut o = Obs::default();
    o.label(format!("model {}", c.prog.model_row().name));
    o.label(if c.two { "82p" } else { "83p" });
    Ok(o)
}

fn c15_edit(env: &Env, c: &Old) -> Check {
    let d = env.dir();
    let mut x = strip(c.prog.xp());
    let inp = if c.two { "P.82p" } else { "P.83p" };
    d.write(inp, x.bytes83());
    for e in &c.edits {
        let r = d.run_in(&e.args(inp), "y\n");
        must(&r, &format!("{} on {inp}", e.kind()))?;
        e.apply(&mut x);
        x.dest = 0; // the layout has no destination
        let g = read(&d, inp)?;
        Xp::parse83(&g).map_err(|m| format!("{inp} after {}: {m}", e.kind()))?;
        ensure!(g == x.bytes83(), "{inp} after {}: {}", e.kind(), differ(&g, &x.bytes83()));
    }
    // an edit that saves it as 8xp
    let r = d.run(&["archive", inp, "-f", "A.8xp"]);
    must(&r, &format!("archive {inp} to an 8xp"))?;
    x.dest = 0x80;
    let g = read(&d, "A.8xp")?;
    ensure!(g == x.bytes(), "the archived 8xp made from {inp}: {}", differ(&g, &x.bytes()));
    let mut o = Obs::default();
    o.label(format!("{} edits", c.edits.len()));
    for e in &c.edits {
        o.label(e.kind());
    }
    Ok(o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OldTxt {
    txt: Txt,
    two: bool,
    enc: Enc,
}
fn c15_txt(env: &Env, c: &OldTxt) -> Check {
    if !encodable(&EncCase { txt: c.txt.clone(), enc: c.enc, explicit: true }) {
        return Ok(Obs { trivial: true, ..Obs::default() });
    }
    let d = env.dir();
    let out = if c.two { "O.82p" } else { "O.83p" };
    d.write("P.txt", c.txt.file());
    must(&d.run(&["convert", "P.txt", "-o", out, "-e", c.enc.name()]), &format!("convert txt to {out}"))?;
    must(&d.run(&["convert", "P.txt", "-o", "O.8xp", "-e", c.enc.name()]), "convert txt to 8xp")?;
    let x = parse(&read(&d, "O.8xp")?)?;
    let g = read(&d, out)?;
    ensure!(g == x.bytes83(), "{out} made from a text differs: {}", differ(&g, &x.bytes83()));
    Ok(Obs::default())
}

pub fn c15() -> Property {
    let old = |edits: bool| {
        (prog(), any::<bool>(), all_modes(), enc(), vec(valid_edit(), if edits { 1..=4 } else { 0..=0 }))
            .prop_map(|(prog, two, mode, enc, edits)| Old { prog, two, mode, enc, edits })
            .boxed()
    };
    Property {
        id: "C15",
        level: "exploration",
        subs: vec![
            generated("load", "random 82p/83p files converted to 8xp, txt, json, 82p and 83p; all count", 1100, 25000, move || old(false), c15_load),
            generated("save", "random 8xp programs saved as 82p/83p and read back; all count", 1800, 40000, move || old(false), c15_save),
            generated("edit", "one to four edits in place on an 82p/83p file, then one to an 8xp; all count", 1000, 20000, move || old(true), c15_edit),
            generated(
                "from-text",
                "random texts saved as 82p/83p, compared with the 8xp of the same text; non-trivial: encodable",
                1000,
                20000,
                || (txt(), any::<bool>(), enc()).prop_map(|(txt, two, enc)| OldTxt { txt, two, enc }).boxed(),
                c15_txt,
            ),
        ],
        assumptions: vec!["the 82p/83p layout is the documented one: metadata flag 0B 00, no version and destination bytes"],
    }
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Entry16 {
    Xp(Prog),
    Old(Prog, bool),
    Txt(Txt),
    Json(Prog, Mode),
    JsonTxt(Txt),
    Junk(u8, Vec<u8>),
    /// a supported file that cannot be converted
    Broken(Prog, u8),
    Nested(Prog),
    /// a name that is not Unicode
    Foreign(Prog, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Batch {
    entries: Vec<Entry16>,
    mode: Mode,
    enc: Enc,
    create: bool,
    preview: bool,
    same_dir: bool,
    /// the directory is read in an order of its own, and files created meanwhile are found as well
    order: Option<u32>,
    /// how the files are called
    stem: u8,
    /// how the directory is called
    in_dir: u8,
}
const STEMS: [&str; 9] = ["f", "my prog ", "v1.2.", ".h", "-x", "é", "LONGSTEM_", "a.8xp.", "b.txt."];
const JUNK: [&str; 9] = ["README", "notes.md", "x.8xp.bak", "y.TXT", "z.8XP", "a.tns", ".hidden", "b.8xg", "c.json5"];

/// The last ones are called like options and commands.
const IN_DIRS: [&str; 9] = ["in", "-m", "-p", "-o", "-d", "--mass", "--output", "convert", "x.8xp"];

fn c16(env: &Env, c: &Batch) -> Check {
    let d = env.dir();
    let in_dir = IN_DIRS[c.in_dir as usize % IN_DIRS.len()];
    d.mkdir(in_dir);
    let mut o = Obs::default();
    let mut names: Vec<String> = Vec::new();
    let mut expected: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut broken = 0;
    let stem = |i: usize| format!("{}{i}", STEMS[(c.stem as usize + if c.stem >= 18 { i } else { 0 }) % STEMS.len()]);
    for (i, e) in c.entries.iter().enumerate() {
        let tag: &str = &format!("F{}{}", (b'A' + (i / 26) as u8) as char, (b'A' + (i % 26) as u8) as char);
        // different names keep the outputs apart
        let rename = |p: &Prog| Prog { name: tag.as_bytes().to_vec(), ..p.clone() };
        let retitle = |t: &Txt| Txt { name: tag.to_string(), ..t.clone() };
        let (file, outs): (String, Vec<&str>) = match e {
            Entry16::Xp(p) => {
                let f = format!("{in_dir}/{}.8xp", stem(i));
                d.write(&f, rename(p).bytes());
                o.label("8xp");
                (f, vec!["txt"])
            }
            Entry16::Old(p, two) => {
                let f = format!("{in_dir}/{}.{}", stem(i), if *two { "82p" } else { "83p" });
                d.write(&f, strip(rename(p).xp()).bytes83());
                o.label("82p or 83p");
                (f, vec!["txt"])
            }
            Entry16::Txt(t) => {
                let t = retitle(t);
                if !encodable(&EncCase { txt: t.clone(), enc: c.enc, explicit: true }) {
                    continue;
                }
                let f = format!("{in_dir}/{}.txt", stem(i));
                d.write(&f, t.file());
                o.label("txt");
                (f, vec!["8xp"])
            }
            Entry16::Json(p, m) => {
                d.write("tmp.8xp", rename(p).bytes());
                let f = format!("{in_dir}/{}.json", stem(i));
                must(&d.run(&["convert", "tmp.8xp", "-o", &f, "-d", m.name()]), "convert 8xp to json")?;
                d.remove("tmp.8xp");
                o.label("json");
                (f, vec!["txt", "8xp"])
            }
            Entry16::JsonTxt(t) => {
                let t = retitle(t);
                if !encodable(&EncCase { txt: t.clone(), enc: Enc::Smart, explicit: true }) {
                    continue;
                }
                d.write("tmp.txt", t.file());
                let f = format!("{in_dir}/{}.json", stem(i));
                must(&d.run(&["convert", "tmp.txt", "-o", &f]), "convert txt to json")?;
                d.remove("tmp.txt");
                o.label("json of a text");
                (f, vec!["txt", "8xp"])
            }
            Entry16::Nested(p) => {
                d.mkdir(&format!("{in_dir}/sub{i}"));
                d.write(&format!("{in_dir}/sub{i}/inner.8xp"), rename(p).bytes());
                o.label("subdirectory");
                continue;
            }
            Entry16::Foreign(p, k) => {
                let name: &[u8] = match k % 5 {
                    0 => b".\xFF",
                    1 => b"\xFF",
                    2 => b".8x\xFFp",
                    3 => b".\xC3.txt\x80",
                    _ => b"\xFE.8xp",
                };
                let name = [format!("{in_dir}/{i}").as_bytes(), name].concat();
                d.write(std::ffi::OsStr::from_bytes(&name), rename(p).bytes());
                o.label("name that is not Unicode");
                if k % 5 < 4 {
                    continue;
                }
                // converted by itself from a copy
                d.write("copy.8xp", rename(p).bytes());
                ("copy.8xp".into(), vec!["txt"])
            }
            Entry16::Broken(p, k) => {
                let bytes = p.bytes();
                let (ext, bytes): (&str, Vec<u8>) = match k % 6 {
                    0 => ("8xp", bytes[..bytes.len().min(70)].to_vec()),
                    1 => ("8xp", Xp { body: vec![0x41, 0xBB], ..rename(p).xp() }.bytes()),
                    2 => ("txt", b"NAME\ncomment\nProgram\n".to_vec()),
                    3 => ("json", b"{}".to_vec()),
                    4 => ("83p", vec![]),
                    _ => ("txt", b"NAME\ncomment\nProgram\nRAM\naccessible\nlatest\n\xE2\x82\xAC\xE2\x82\xAC".to_vec()),
                };
                d.write(&format!("{in_dir}/{}.{ext}", stem(i)), bytes);
                o.label("file that cannot be converted");
                broken += 1;
                continue;
            }
            Entry16::Junk(k, b) => {
                let f = format!("{in_dir}/{i}{}", JUNK[*k as usize % JUNK.len()]);
                d.write(&f, b);
                o.label("unsupported file");
                continue;
            }
        };
        names.push(file.clone());
        for ext in outs {
            let out = format!("single.{ext}");
            must(
                &d.run(&["convert", &file, "-o", &out, "-d", c.mode.name(), "-e", c.enc.name()]),
                &format!("convert {file} by itself"),
            )?;
            expected.insert(format!("{tag}.{ext}"), read(&d, &out)?);
            d.remove(&out);
        }
        d.remove("copy.8xp");
    }
    let out_dir = if c.same_dir { in_dir } else { "out" };
    if !c.create && !c.same_dir {
        d.mkdir("out");
    }
    let mut want = d.snapshot();
    let mut args = vec!["convert", in_dir, "-m", "-o", out_dir, "-d", c.mode.name(), "-e", c.enc.name()];
    if c.preview {
        args.push("-p");
    }
    let mut env_vars = Vec::new();
    if let (Some(n), Some(shim)) = (c.order, &env.shim) {
        env_vars.push(("LD_PRELOAD".to_string(), shim.to_string_lossy().into_owned()));
        env_vars.push(("SHIM_DIR".to_string(), n.to_string()));
        o.label("order of the directory varied");
    }
    let stdin: &[u8] = if c.create && !c.same_dir { b"y\n" } else { b"" };
    let r = d.run_opt(&args, &Opt { stdin, env: env_vars, ..Opt::default() });
    let what = format!("mass conversion of {names:?} into {out_dir}");
    let got = d.snapshot();
    if !c.same_dir {
        want.insert("out".into(), Node::Dir);
    }
    if broken > 0 {
        // it ends with an error, and what was saved until then is complete
        must_refuse(&r, &format!("{what} with {broken} files that cannot be converted"))?;
        for (k, v) in &expected {
            let k = format!("{out_dir}/{k}");
            let json_twin = k.strip_suffix(".txt").map(|s| format!("{s}.8xp")).filter(|t| expected.contains_key(t.trim_start_matches(&format!("{out_dir}/"))));
            if let Some(t) = json_twin {
                ensure!(got.contains_key(&k) == got.contains_key(&t), "{what}: one of {k} and {t} was saved");
            }
            if got.contains_key(&k) {
                want.insert(k, Node::File(v.clone()));
            }
        }
        tree_diff(&got, &want).map_err(|e| format!("{what}, with a file that cannot be converted: {e}"))?;
        o.trivial = expected.is_empty();
        return Ok(o);
    }
    must(&r, &what)?;
    for (k, v) in &expected {
        want.insert(format!("{out_dir}/{k}"), Node::File(v.clone()));
    }
    tree_diff(&got, &want).map_err(|e| format!("{what}: {e}"))?;
    o.label_if(c.same_dir, "output in the input directory");
    o.label_if(in_dir.starts_with('-'), "input directory called like an option");
    o.trivial = expected.is_empty();
    o.label(match names.len() {
        n @ 0..=6 => format!("{n} convertible files"),
        7..=60 => "7 to 60 convertible files".into(),
        _ => "more than 60 convertible files".into(),
    });
    o.label_if(c.create && !c.same_dir, "output directory created");
    Ok(o)
}

fn batch(least: usize, most: usize, broken: u32) -> BoxedStrategy<Batch> {
    let small = || prog_with(letters().prop_map(|s| s.into_bytes()).boxed(), any_comment(), vec(pick(), 0..20).boxed());
    let small_txt = || txt_with(vec(pick().prop_map(Frag::Tok), 0..15).boxed(), all_modes());
    let e = prop_oneof![
        9 => small().prop_map(Entry16::Xp),
        6 => (small(), any::<bool>()).prop_map(|(p, t)| Entry16::Old(p, t)),
        9 => small_txt().prop_map(Entry16::Txt),
        6 => (small(), all_modes()).prop_map(|(p, m)| Entry16::Json(p, m)),
        3 => small_txt().prop_map(Entry16::JsonTxt),
        6 => (0u8..9, vec(any::<u8>(), 0..100)).prop_map(|(k, b)| Entry16::Junk(k, b)),
        3 => small().prop_map(Entry16::Nested),
        2 => (small(), 0u8..5).prop_map(|(p, k)| Entry16::Foreign(p, k)),
        broken => (small(), 0u8..6).prop_map(|(p, k)| Entry16::Broken(p, k)),
    ];
    (vec(e, least..=most), all_modes(), enc(), any::<bool>(), any::<bool>(), proptest::bool::weighted(0.3), proptest::option::weighted(0.6, any::<u32>()), prop_oneof![Just(0u8), 0u8..9, Just(18u8)], prop_oneof![3 => Just(0u8), 1 => 0u8..9])
        .prop_map(|(entries, mode, enc, create, preview, same_dir, order, stem, in_dir)| Batch { entries, mode, enc, create, preview, same_dir, order, stem, in_dir })
        .boxed()
}

pub fn c16_property() -> Property {
    Property {
        id: "C16",
        level: "exploration",
        subs: vec![
            generated(
                "batches",
                "directories of up to 6 files of every kind, supported and not, sometimes one that cannot be converted, and subdirectories, under all sorts of names, not all of them Unicode, converted in one go (to another directory or the same, read in any order, finding files that appear meanwhile) and one by one; non-trivial: at least one supported file",
                1300,
                30000,
                move || batch(0, 6, 2).boxed(),
                c16,
            ),
            generated(
                "large-batches",
                "the same with directories of 20 to 250 files; all count",
                24,
                1500,
                move || batch(20, 250, 0).boxed(),
                c16,
            ),
            generated(
                "one-name",
                "up to four 8xp and json programs, several of which have the same name, every question with an answer of its own: the directory must be what some order of the files gives when each is converted by itself; non-trivial: two programs share a name, or an output exists",
                500,
                10000,
                || mass_consent(0, prop_oneof![4 => Just(15u8), 1 => 1u8..16].boxed()),
                c11_mass,
            ),
        ],
        assumptions: vec![],
    }
}

// ------------------------------------------------------------------ C17

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Named {
    /// raw name bytes of an 8xp, or a name inside a JSON
    bytes: Vec<u8>,
    json: Option<String>,
    also_normal: bool,
    /// how the file is called, and how the output directory
    stem: u8,
    out: u8,
}
const NAMED_STEMS: [&str; 14] = ["prog", "..\\EVIL", "a\\b", "..", "~", " ", "\\", "..\\..\\EVIL", "C:\\EVIL", "é", "-x", "%2e%2e%2fEVIL", "$HOME", "x.8xp"];
/// the directory and how it is written
const NAMED_OUTS: [(&str, &str); 13] = [
    ("work/out", "work/out"),
    ("work/out", "work/out/"),
    ("work/out", "./work/out"),
    ("work/out", "work/in/../out"),
    ("~/out", "~/out"),
    ("~", "~"),
    ("work\\out", "work\\out"),
    ("work/out dir ", "work/out dir "),
    ("$HOME/out", "$HOME/out"),
    ("work/out.txt", "work/out.txt"),
    ("-x", "-x"),
    ("%2e%2e", "%2e%2e"),
    ("work/...", "work/..."),
];

fn c17(env: &Env, c: &Named) -> Check {
    let d = env.dir();
    for p in ["work", "work/in", "work/out", "work/out/dir"] {
        d.mkdir(p);
    }
    let (out, out_arg) = NAMED_OUTS[c.out as usize % NAMED_OUTS.len()];
    let parts: Vec<&str> = out.split('/').collect();
    for n in 1..=parts.len() {
        if !d.at(&parts[..n].join("/")).exists() {
            d.mkdir(&parts[..n].join("/"));
        }
    }
    let stem = NAMED_STEMS[c.stem as usize % NAMED_STEMS.len()];
    d.write("outside.txt", b"outside");
    d.write("work/secret.txt", b"secret");
    d.write("work/secret.8xp", b"secret");
    let mut x = sample_prog().xp();
    let mut files = vec![];
    match &c.json {
        None => {
            x.name = pad(&c.bytes, 8);
            d.write(&format!("work/in/{stem}.8xp"), x.bytes());
            files.push(("prog", 1));
        }
        Some(n) => {
            d.write("work/p.8xp", x.bytes());
            must(&d.run(&["convert", "work/p.8xp", "-o", "work/p.json"]), "convert 8xp to json")?;
            let mut j: serde_json::Value = serde_json::from_slice(&read(&d, "work/p.json")?).map_err(|e| e.to_string())?;
            d.remove("work/p.json");
            d.remove("work/p.8xp");
            j["metadata"]["name"] = serde_json::Value::String(n.clone());
            d.write(&format!("work/in/{stem}.json"), serde_json::to_vec_pretty(&j).unwrap());
            files.push(("prog", 2));
        }
    }
    if c.also_normal {
        x.name = pad(b"NORMAL", 8);
        d.write("work/in/normal.8xp", x.bytes());
        files.push(("NORMAL", 1));
    }
    let before = d.snapshot();
    let (r, used) = d.run_traced(&["convert", "work/in", "-m", "-o", out_arg], &Opt { stdin: b"y\ny\ny\n", ..Opt::default() });
    let name = c.json.clone().unwrap_or_else(|| x.name_text());
    let what = format!("mass conversion of a program named {:?}", if c.json.is_some() { name.clone() } else { String::from_utf8_lossy(&c.bytes).into_owned() });
    let what = format!("{what} in a file called {stem:?}, into {out_arg:?},");
    must(&r, &what)?;
    if let Some(p) = d.strayed(&used) {
        return Err(format!("{what} wrote to {}", p.display()));
    }
    let after = d.snapshot();
    for (k, v) in &before {
        ensure!(after.get(k) == Some(v), "{what} changed {k}");
    }
    let created: Vec<&String> = after.keys().filter(|k| !before.contains_key(*k)).collect();
    for k in &created {
        let rest = k.strip_prefix(&format!("{out}/"));
        ensure!(rest.map_or(false, |r| !r.contains('/')), "{what} wrote {k}, which is not directly in the output directory");
        ensure!(matches!(after[*k], Node::File(_)), "{what} created {k}, which is not a file");
    }
    let want: usize = files.iter().map(|f| f.1).sum();
    ensure!(created.len() == want, "{what}: {} files were written, want {want}: {created:?}", created.len());
    // and what was written is the program
    let mut txts = 0;
    for k in &created {
        if k.ends_with(".txt") {
            txts += 1;
            let t = d.read_text(k).unwrap_or_default();
            ensure!(t.ends_with(&sample_prog().text(Mode::Acc)), "{what}: {k} does not hold the program text");
        } else {
            ensure!(k.ends_with(".8xp"), "{what} wrote {k}");
        }
    }
    ensure!(txts == files.len(), "{what}: {txts} text files");
    let mut o = Obs::default();
    let n = c.json.clone().unwrap_or_else(|| String::from_utf8_lossy(&c.bytes).into_owned());
    o.trivial = n.bytes().all(|b| b.is_ascii_alphanumeric()) && !n.is_empty();
    o.label_if(n.contains('/'), "separator");
    o.label_if(n.contains(".."), "dots");
    o.label_if(n.starts_with('/'), "absolute");
    o.label_if(n.trim_matches('\0').is_empty(), "empty");
    o.label_if(!n.is_ascii(), "non-ASCII");
    o.label(if c.json.is_some() { "json" } else { "8xp" });
    Ok(o)
}

pub fn c17_property() -> Property {
    let piece = || {
        prop_oneof![
            3 => Just("/"), 3 => Just(".."), 2 => Just("."), 2 => Just("A"), 1 => Just("secret"), 1 => Just("\\"), 1 => Just("dir"), 1 => Just("txt"), 1 => Just(".txt"), 1 => Just(".8xp"), 1 => Just(" "), 1 => Just("é"), 1 => Just("~"), 1 => Just("*"), 1 => Just("\n"), 1 => Just("\u{7f}"), 1 => Just("θ"), 1 => Just("-"), 1 => Just("in"), 1 => Just(":")
        ]
    };
    let named = move || {
        let text = vec(piece(), 0..8).prop_map(|v| v.concat());
        let bytes = prop_oneof![
            3 => text.clone().prop_map(|s| { let mut b = s.into_bytes(); b.truncate(8); b }),
            2 => vec(any::<u8>(), 0..=8),
            2 => vec(prop_oneof![Just(b'/'), Just(b'.'), Just(b'A'), Just(0u8), Just(b'\\')], 0..=8),
        ];
        let json = prop_oneof![
            3 => text,
            1 => vec(any::<char>(), 0..10).prop_map(|v| v.into_iter().collect::<String>()),
            1 => (1usize..100).prop_map(|n| "A".repeat(n)),
            1 => (230usize..400).prop_map(|n| "A".repeat(n)),
            1 => (1usize..140, 0usize..4).prop_map(|(n, k)| ["é", "θ", "文", "\u{1F600}"][k].repeat(n)),
            1 => (1usize..20).prop_map(|n| "../".repeat(n) + "x"),
        ];
        (bytes, prop_oneof![2 => Just(None), 1 => json.prop_map(Some)], any::<bool>(), prop_oneof![Just(0u8), 0u8..14], prop_oneof![Just(0u8), 0u8..13])
            .prop_map(|(bytes, json, also_normal, stem, out)| Named { bytes, json, also_normal, stem, out })
    };
    Property {
        id: "C17",
        level: "exploration",
        subs: vec![
            exhaustive(
                "short-names",
                "every name of one byte and every name of two bytes out of dot, slash, backslash, letter, blank, tilde and 0xE9; all count",
                |_| {
                    let mut v: Vec<Named> = (0..=255u8).map(|b| Named { bytes: vec![b], json: None, also_normal: false, stem: 0, out: 0 }).collect();
                    let set = [b'.', b'/', b'\\', b'A', b' ', b'~', 0xE9];
                    for a in set {
                        for b in set {
                            v.push(Named { bytes: vec![a, b], json: None, also_normal: true, stem: 0, out: 0 });
                            for e in set {
                                v.push(Named { bytes: vec![a, b, e], json: None, also_normal: false, stem: 0, out: 0 });
                            }
                        }
                    }
                    for n in 240..270 {
                        v.push(Named { bytes: vec![], json: Some("N".repeat(n)), also_normal: n % 2 == 0, stem: 0, out: 0 });
                    }
                    for s in ["../secret", "/secret", "a/b", "./a", "a/..", "..", ".", "", "a\\b", "../out", "dir/x", "../in/x", "a.b", "a.txt", ".hidden", "a/", "/", "//", "../../outside"] {
                        v.push(Named { bytes: vec![], json: Some(s.into()), also_normal: true, stem: 0, out: 0 });
                        let mut b = s.as_bytes().to_vec();
                        b.truncate(8);
                        v.push(Named { bytes: b, json: None, also_normal: true, stem: 0, out: 0 });
                    }
                    // every file name with every output directory, for names that are used and for one that is not
                    for stem in 0..NAMED_STEMS.len() as u8 {
                        for out in 0..NAMED_OUTS.len() as u8 {
                            for bytes in [&b"GOOD"[..], b"", b"/"] {
                                v.push(Named { bytes: bytes.to_vec(), json: None, also_normal: out % 2 == 0, stem, out });
                            }
                        }
                    }
                    v
                },
                c17,
            ),
            generated(
                "names",
                "random name bytes and JSON names made of separators, dots and odd characters; non-trivial: not a plain alphanumeric name",
                3000,
                60000,
                move || named().boxed(),
                c17,
            ),
        ],
        assumptions: vec![],
    }
}

pub fn small_prog() -> BoxedStrategy<Prog> {
    prog_with(letters().prop_map(|s| s.into_bytes()).boxed(), any_comment(), vec(pick(), 0..20).boxed())
}
