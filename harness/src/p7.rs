//! C28, C29: where files lie does not matter, and what is reported is what was done.

use crate::cli::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use crate::p1::*;
use crate::p2::*;
use crate::p3::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::PermissionsExt;

// ------------------------------------------------------------------ C28

const DIRS: [&str; 14] =
    ["", "sub", "a b", "é", "dir.txt", "x.8xp", "deep/er/est", ".hid", "-o", "%s", "folder.json/in.83p", "UPPER", "'quoted\"", "th\u{3B8}ta\u{301}"];
const STEMS: [&str; 26] = [
    "IN", "a b", "é", "x.txt", "x.8xp", ".hidden", "-x", "'q\"", "new\nline", "%s{}", "two..dots", "8xp", "$HOME", "~", "*", "CON", " lead", "trail ", "\u{1F600}", "txt.json", "back\\slash",
    "tab\t", "x.tmp", "LONG", "[bg:red]x", "a[b",
];

/// A file's place: directory, stem, how the path is spelled.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spot {
    dir: u8,
    stem: u8,
    other_stem: Option<String>,
    form: u8,
}
impl Spot {
    fn dir(&self) -> &'static str {
        DIRS[self.dir as usize % DIRS.len()]
    }
    fn stem(&self) -> String {
        match &self.other_stem {
            Some(s) => s.clone(),
            None => match STEMS[self.stem as usize % STEMS.len()] {
                "LONG" => "L".repeat(250),
                s => s.to_string(),
            },
        }
    }
    fn rel(&self, leaf: &str) -> String {
        if self.dir().is_empty() {
            leaf.to_string()
        } else if leaf.is_empty() {
            self.dir().to_string()
        } else {
            format!("{}/{leaf}", self.dir())
        }
    }
    /// The path as it is spelled on the command line, from the working directory.
    fn spelled(&self, d: &Dir, leaf: &str, cwd: &str) -> String {
        let up = if cwd.is_empty() { "" } else { "../" };
        let rel = match self.rel(leaf) {
            s if s.is_empty() => ".".to_string(),
            s => s,
        };
        match self.form % 7 {
            1 => format!("./{up}{rel}"),
            2 => format!("{}/{rel}", d.path.display()),
            3 => format!("{up}link/{rel}"),
            4 => format!("{up}step/../{rel}"),
            5 => format!("./{up}.//{}", rel.replace('/', "//")),
            6 => format!("{}/./step/../link/{rel}", d.path.display()),
            _ if up.is_empty() && rel.starts_with('-') => format!("./{rel}"),
            _ => format!("{up}{rel}"),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    /// output extension, or only -p / -c
    Convert(Source, u8, bool),
    Show(Source, bool, bool),
    Details(Source),
    InPlace(Prog, Edit),
    To(Prog, Edit, bool),
    Mass(Vec<Source>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Placed {
    act: Act,
    muts: Vec<ByteMut>,
    mode: Mode,
    enc: Enc,
    exists: bool,
    input: Spot,
    output: Spot,
    in_subdir: bool,
    /// bits: environment, read-only input, input through a link, old time, umask, extra files beside,
    /// every unset variable asked for, another date and terminals
    circumstances: u8,
    /// bits 0 to 2: what the program is called; bit 3: standard input is a file
    #[serde(default)]
    started: u8,
}

/// What a run left: status, what it said, the files it made.
type Left = (bool, Option<String>, BTreeMap<String, Option<Vec<u8>>>);

fn environment(env: &Env, bits: u8) -> Vec<(String, String)> {
    let mut v = Vec::new();
    if bits & (64 | 128) != 0 {
        v.push(("LD_PRELOAD".to_string(), env.shim.as_ref().expect("HARNESS: no shim").display().to_string()));
    }
    if bits & 64 != 0 {
        // whatever other variable the program asks for has this value
        v.push(("SHIM_ENV".into(), ["1", "/nowhere", "pretty", "", "y", "TI-82"][(bits & 63) as usize % 6].into()));
    }
    if bits & 128 != 0 {
        v.push(("SHIM_TIME".into(), ["200000000", "-700000000", "86400"][(bits & 31) as usize % 3].into()));
        v.push(("SHIM_TTY".into(), "1".into()));
    }
    if bits & 1 == 0 {
        return v;
    }
    v.extend([
        ("HOME", "/nowhere"), ("LANG", "de_DE.UTF-8"), ("LC_ALL", "tr_TR"), ("TZ", "Asia/Tokyo"), ("TMPDIR", "/nowhere"), ("TERM", "dumb"), ("COLUMNS", "10"), ("PWD", "/nowhere"),
        ("USER", "x"), ("SOURCE_DATE_EPOCH", "1"),
    ]
    .iter()
    .map(|(a, b)| (a.to_string(), b.to_string())));
    v
}

fn act_sources(a: &Act) -> Vec<Source> {
    match a {
        Act::Convert(s, ..) | Act::Show(s, ..) | Act::Details(s) => vec![s.clone()],
        Act::InPlace(p, _) | Act::To(p, ..) => vec![Source::Xp(p.clone())],
        Act::Mass(v) => v.clone(),
    }
}

/// Carries the command out with its files at the given places.
fn carry_out(env: &Env, c: &Placed, input: &Spot, output: &Spot, cwd: &str, bits: u8, started: u8) -> Result<Option<Left>, String> {
    carry_out_beside(env, c, input, output, cwd, bits, started, &mut Beside::Nothing)
}

/// Files beside those of the command.
enum Beside {
    Nothing,
    /// wanted: the paths below the directory that the program looks for and does not find
    Missed(Vec<String>),
    /// these, with this content
    There(Vec<String>, Vec<u8>),
}

fn carry_out_beside(env: &Env, c: &Placed, input: &Spot, output: &Spot, cwd: &str, bits: u8, started: u8, beside: &mut Beside) -> Result<Option<Left>, String> {
    let d = env.dir();
    // the inputs, made at the top and moved
    let mut made = Vec::new();
    for (i, s) in act_sources(&c.act).iter().enumerate() {
        let tag = ["ONE", "TWO", "THREE"][i];
        let s = if matches!(c.act, Act::Mass(_)) {
            match s {
                Source::Xp(p) => Source::Xp(Prog { name: tag.into(), ..p.clone() }),
                Source::Old(p, t) => Source::Old(Prog { name: tag.into(), ..p.clone() }, *t),
                Source::Json(p) => Source::Json(Prog { name: tag.into(), ..p.clone() }),
                Source::Txt(t) => Source::Txt(Txt { name: tag.into(), ..t.clone() }),
            }
        } else {
            s.clone()
        };
        let Some(f) = put(&d, "MADE", &s)? else { return Ok(None) };
        let mut b = read(&d, &f)?;
        if !matches!(c.act, Act::Mass(_)) {
            for m in &c.muts {
                mutate(&mut b, m);
            }
        }
        d.remove(&f);
        made.push((f.rsplit('.').next().unwrap().to_string(), b));
    }
    d.symlink(".", "link");
    for n in ["step", "cwd"] {
        d.mkdir(n);
    }
    let mkdirs = |path: &str| {
        let mut p = String::new();
        for part in path.split('/').filter(|s| !s.is_empty()) {
            if !p.is_empty() {
                p.push('/');
            }
            p += part;
            if !d.exists(&p) {
                d.mkdir(&p);
            }
        }
    };
    mkdirs(input.dir());
    mkdirs(output.dir());
    let mass = matches!(c.act, Act::Mass(_));
    let in_leaf = if mass {
        "many".to_string()
    } else {
        format!("{}.{}", input.stem(), made[0].0)
    };
    let mut moved = Vec::new();
    if mass {
        mkdirs(&input.rel("many"));
        for (i, (e, b)) in made.iter().enumerate() {
            let n = if i == 0 { input.stem() } else { format!("{i}{}", &input.stem().chars().take(60).collect::<String>()) };
            let at = input.rel(&format!("many/{n}.{e}"));
            d.write(&at, b);
            moved.push(at);
        }
    } else if bits & 4 != 0 && !matches!(c.act, Act::InPlace(..)) {
        d.write("step/real.dat", &made[0].1);
        d.symlink(&d.at("step/real.dat").to_string_lossy(), &input.rel(&in_leaf));
        moved.push("step/real.dat".into());
    } else {
        let at = input.rel(&in_leaf);
        d.write(&at, &made[0].1);
        moved.push(at);
    }
    for m in &moved {
        if bits & 2 != 0 && !matches!(c.act, Act::InPlace(..)) {
            let _ = std::fs::set_permissions(d.at(m), std::fs::Permissions::from_mode(0o444));
        }
        if bits & 8 != 0 {
            if let Ok(f) = std::fs::File::open(d.at(m)) {
                let _ = f.set_modified(std::time::UNIX_EPOCH);
            }
        }
    }
    let out_ext = match &c.act {
        Act::Convert(_, e, _) => EXT5[*e as usize % 5],
        _ => "8xp",
    };
    let out_leaf = if mass { "made".to_string() } else { format!("{}.{out_ext}", output.stem()) };
    // input and output may not be one file
    let out_leaf = if !mass && output.rel(&out_leaf) == input.rel(&in_leaf) { format!("O{}.{out_ext}", &output.stem().chars().take(60).collect::<String>()) } else { out_leaf };
    let has_output = matches!(c.act, Act::Convert(..) | Act::To(..) | Act::Mass(_));
    if mass {
        mkdirs(&output.rel("made"));
        if c.exists {
            for t in ["ONE.txt", "TWO.8xp"] {
                d.write(&output.rel(&format!("made/{t}")), b"precious");
            }
        }
    } else if has_output && c.exists {
        d.write(&output.rel(&out_leaf), b"precious");
    }
    if bits & 32 != 0 {
        for n in ["OUT.8xp.bak", "OUT.tmp", ".OUT.8xp.tmp", "8X.json", "token_definitions.json", "config.toml", ".ti-tools"] {
            for dir in ["", "cwd/"] {
                d.write(&format!("{dir}{n}"), b"beside");
            }
        }
    }
    let ip = input.spelled(&d, &in_leaf, cwd);
    let op = output.spelled(&d, &out_leaf, cwd);
    let (m, e) = (c.mode.name(), c.enc.name());
    let mut args: Vec<&str> = match &c.act {
        Act::Convert(_, _, p) => {
            let mut a = vec!["convert", &ip, "-d", m, "-e", e, "-o", &op];
            if *p {
                a.push("-p");
            }
            a
        }
        Act::Show(_, p, k) => {
            let mut a = vec!["convert", &ip, "-d", m, "-e", e];
            if *p || !*k {
                a.push("-p");
            }
            if *k {
                a.push("-c");
            }
            a
        }
        Act::Details(_) => vec!["details", &ip],
        Act::InPlace(_, e) => e.args(&ip),
        Act::To(_, e, del) => {
            let mut a = e.args(&ip);
            a.extend(["-f", &op]);
            if *del {
                a.push("-d");
            }
            a
        }
        Act::Mass(_) => vec!["convert", &ip, "-m", "-d", m, "-e", e, "-o", &op],
    };
    args.retain(|a| !a.contains('\0'));
    let called = [None, None, None, Some("convert"), Some(""), Some("/x/TI-TOOLS.EXE"), Some("details"), Some("ti tools")][started as usize % 8];
    let opt = Opt {
        stdin: b"y\ny\ny\ny\ny\ny\ny\ny\n",
        cwd,
        env: environment(env, bits),
        umask: if bits & 16 != 0 { 0o077 } else { 0 },
        arg0: called,
        stdin_file: started & 8 != 0,
        ..Opt::default()
    };
    if let Beside::There(paths, content) = &*beside {
        for p in paths {
            if let Some((dir, _)) = p.rsplit_once('/') {
                mkdirs(dir);
            }
            if !d.exists(p) {
                d.write(p, content);
            }
        }
    }
    let r = match beside {
        Beside::Nothing => d.run_opt(&args, &opt),
        Beside::There(..) => d.run_traced(&args, &opt).0,
        Beside::Missed(missed) => {
            let (r, used) = d.run_traced(&args, &opt);
            let own: Vec<_> = used.iter().filter(|(k, _)| *k == 'W').map(|(_, p)| tidy(p)).collect();
            for (k, p) in &used {
                let p = tidy(p);
                if let (true, false, Ok(rel)) = (*k == 'M', own.contains(&p), p.strip_prefix(&d.path)) {
                    if let Some(rel) = rel.to_str().filter(|r| !missed.iter().any(|m| m == r) && !r.is_empty()) {
                        missed.push(rel.to_string());
                    }
                }
            }
            r
        }
    };
    let what = format!("{args:?} in {cwd:?}");
    no_crash(&r, &what)?;
    let text = plain(&r.out);
    let said = if mass {
        None // the order of the files of a directory is open
    } else {
        Some(text.replace(&format!(" to {op}\n"), " to <OUT>\n"))
    };
    let mut files = BTreeMap::new();
    if mass {
        let root = output.rel("made") + "/";
        for (k, v) in d.snapshot() {
            if let (Some(k), Node::File(b)) = (k.strip_prefix(&root), v) {
                files.insert(k.to_string(), Some(b));
            }
        }
    } else {
        files.insert("input".into(), d.read(&input.rel(&in_leaf)));
        if has_output {
            files.insert("output".into(), d.read(&output.rel(&out_leaf)));
        }
    }
    Ok(Some((r.ok(), said, files)))
}

fn c28(env: &Env, c: &Placed) -> Check {
    let mut o = Obs::default();
    let spot = |stem: u8| Spot { dir: 0, stem, other_stem: None, form: 0 };
    let (mut i, mut t) = (spot(0), spot(0));
    t.other_stem = Some("OUT".into());
    if matches!(c.act, Act::Mass(_)) {
        i.stem = c.input.stem;
        i.other_stem = c.input.other_stem.clone();
    }
    let Some(plainly) = carry_out(env, c, &i, &t, "", 0, 0)? else {
        o.trivial = true;
        return Ok(o);
    };
    let there = carry_out(env, c, &c.input, &c.output, if c.in_subdir { "cwd" } else { "" }, c.circumstances, c.started)?.unwrap();
    let what = format!("{:?} at {:?} -> {:?} (circumstances {:#b})", kind(&c.act), c.input.rel(&c.input.stem()), c.output.rel(&c.output.stem()), c.circumstances);
    ensure!(plainly.0 == there.0, "{what} {}, plainly placed it {}", if there.0 { "succeeds" } else { "is refused" }, if plainly.0 { "succeeds" } else { "is refused" });
    for (k, v) in &plainly.2 {
        match (v, there.2.get(k).unwrap_or(&None)) {
            (a, b) if a == b => {}
            (Some(a), Some(b)) => return Err(format!("{what}: the {k} is another: {}", differ(b, a))),
            (a, _) => return Err(format!("{what}: the {k} is {}", if a.is_some() { "missing" } else { "there, plainly placed it is not" })),
        }
    }
    ensure!(there.2.len() == plainly.2.len(), "{what}: it makes {:?}, plainly placed {:?}", there.2.keys(), plainly.2.keys());
    if let (Some(a), Some(b)) = (&plainly.1, &there.1) {
        ensure!(a == b, "{what} says something else: {}", differ_text(b, a));
    }
    o.label(kind(&c.act));
    o.label(if plainly.0 { "succeeded" } else { "refused" });
    o.label(["plain", "dotted", "absolute", "through a link", "with ..", "doubled separators", "absolute through a link"][c.input.form as usize % 7]);
    for (bit, l) in ["environment", "read-only input", "input is a link", "old input", "umask", "files beside", "every variable", "another date, terminals"].iter().enumerate() {
        o.label_if(c.circumstances & (1 << bit) != 0, l);
    }
    Ok(o)
}

/// whatever the program looks for and does not find, it does the same when it is there
fn c28_beside(env: &Env, c: &Placed) -> Check {
    let mut o = Obs::default();
    let cwd = if c.in_subdir { "cwd" } else { "" };
    let mut missed = Beside::Missed(vec![]);
    let run = |b: &mut Beside| carry_out_beside(env, c, &c.input, &c.output, cwd, 0, 0, b);
    let Some(plainly) = run(&mut missed)? else {
        o.trivial = true;
        return Ok(o);
    };
    let Beside::Missed(mut paths) = missed else { unreachable!() };
    let outputs: Vec<String> = if matches!(c.act, Act::Mass(_)) { vec![] } else { vec![c.output.rel(&c.output.stem())] };
    paths.retain(|p| !p.starts_with("link/") && !outputs.iter().any(|o| p == o || p.starts_with(&format!("{o}."))) && !p.contains("made/"));
    o.label(kind(&c.act));
    o.label(match paths.len() {
        0 => "nothing is looked for",
        _ => "something is looked for",
    });
    if paths.is_empty() {
        return Ok(o);
    }
    for content in [&b""[..], b"y\n", b"1\n", b"pretty\n", b"{\"comment\": \"x\", \"display-mode\": \"pretty\", \"name\": \"OTHER\"}\n", b"comment = \"x\"\ndisplay-mode = \"pretty\"\n", &sample_prog().bytes()] {
        let there = run(&mut Beside::There(paths.clone(), content.to_vec()))?.unwrap();
        let what = format!("{:?} with {} beside, which it looks for, holding {:?},", kind(&c.act), paths.join(", "), String::from_utf8_lossy(&content[..content.len().min(40)]));
        ensure!(plainly.0 == there.0, "{what} {}, without it {}", if there.0 { "succeeds" } else { "is refused" }, if plainly.0 { "succeeds" } else { "is refused" });
        ensure!(plainly.2 == there.2, "{what} makes other files than without");
        if let (Some(a), Some(b)) = (&plainly.1, &there.1) {
            ensure!(a == b, "{what} says something else than without: {}", differ_text(b, a));
        }
    }
    Ok(o)
}
fn kind(a: &Act) -> &'static str {
    match a {
        Act::Convert(..) => "convert",
        Act::Show(..) => "show",
        Act::Details(_) => "details",
        Act::InPlace(..) => "edit in place",
        Act::To(..) => "edit to a new file",
        Act::Mass(_) => "mass conversion",
    }
}

fn any_stem() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        5 => Just(None),
        1 => "\\PC{1,20}".prop_map(Some),
        1 => "[a-zA-Z0-9._ -]{1,12}".prop_map(Some),
        1 => "[A-Z]{200,250}".prop_map(Some),
    ]
    .prop_map(|s: Option<String>| s.map(|s| s.replace(['/', '\0'], "_")).filter(|s| s.len() <= 250))
    .boxed()
}
fn spot() -> BoxedStrategy<Spot> {
    (0u8..14, 0u8..26, any_stem(), 0u8..7).prop_map(|(dir, stem, other_stem, form)| Spot { dir, stem, other_stem, form }).boxed()
}

pub fn c28_property() -> Property {
    let acts = || {
        prop_oneof![
            6 => (source(), 0u8..5, any::<bool>()).prop_map(|(s, e, p)| Act::Convert(s, e, p)),
            2 => (source(), any::<bool>(), any::<bool>()).prop_map(|(s, p, k)| Act::Show(s, p, k)),
            1 => small_prog().prop_map(|p| Act::Details(Source::Xp(p))),
            2 => (small_prog(), valid_edit()).prop_map(|(p, e)| Act::InPlace(p, e)),
            3 => (small_prog(), valid_edit(), any::<bool>()).prop_map(|(p, e, d)| Act::To(p, e, d)),
            1 => vec(source(), 1..=3).prop_map(Act::Mass),
        ]
    };
    Property {
        id: "C28",
        level: "exploration",
        subs: vec![
            exhaustive(
                "every-place",
                "a conversion to each format, a listing, details, edits and a mass conversion with the input, then the output, in each of 14 directories under each of 26 names, spelled in 7 ways, from 2 working directories (every pair of directory and spelling, of name and spelling); all count",
                |_| {
                    let p = || Source::Xp(sample_prog());
                    let acts: Vec<Act> = vec![
                        Act::Convert(p(), 0, false), Act::Convert(p(), 1, true), Act::Convert(p(), 2, false), Act::Convert(p(), 3, false),
                        Act::Show(p(), true, true), Act::Details(p()), Act::InPlace(sample_prog(), Edit::Lock),
                        Act::To(sample_prog(), Edit::Rename("NEW".into()), true), Act::Mass(vec![p(), Source::Json(sample_prog())]),
                    ];
                    let plain = || Spot { dir: 0, stem: 0, other_stem: None, form: 0 };
                    let mut v = Vec::new();
                    for (n, act) in acts.iter().enumerate() {
                        for form in 0..7u8 {
                            for k in 0..40u8 {
                                let s = if k < 14 { Spot { dir: k, form, ..plain() } } else { Spot { stem: k - 14, form, ..plain() } };
                                for side in [false, true] {
                                    let mut c = Placed { act: act.clone(), muts: vec![], mode: Mode::Acc, enc: Enc::Smart, exists: (k + form) % 3 == 0, input: plain(), output: Spot { other_stem: Some("OUT".into()), ..plain() }, in_subdir: (n as u8 + k + form) % 2 == 0, circumstances: 0, started: 0 };
                                    if side {
                                        c.output = s.clone();
                                    } else {
                                        c.input = s.clone();
                                    }
                                    v.push(c);
                                }
                            }
                        }
                    }
                    v
                },
                c28,
            ),
            generated(
                "anywhere",
                "a command (conversion to each format, listings, details, edits in place and to new files, mass conversion) on a generated source of any kind, sometimes damaged, with input and output at generated places, names, spellings and working directories, with other environment variables (sometimes every one that is asked for), another date, terminals as standard streams, read-only, linked or old inputs, umask and files lying beside, compared with the same command in an empty directory; non-trivial: the source exists",
                3000,
                60000,
                move || {
                    (acts(), prop_oneof![4 => Just(vec![]), 1 => vec(byte_mut(), 1..3)], all_modes(), enc(), any::<bool>(), spot(), spot(), any::<bool>(), any::<u8>(), 0u8..16)
                        .prop_map(|(act, muts, mode, enc, exists, input, output, in_subdir, circumstances, started)| Placed { act, muts, mode, enc, exists, input, output, in_subdir, circumstances, started })
                        .boxed()
                },
                c28,
            ),
            generated(
                "beside",
                "the same commands; every path that the program looks for in the case's directory (which is its home and temporary directory, too) and does not find is made, with seven contents in turn, and the command carried out again; non-trivial: the source exists",
                500,
                12000,
                move || {
                    (acts(), all_modes(), enc(), any::<bool>(), spot(), spot(), any::<bool>())
                        .prop_map(|(act, mode, enc, exists, input, output, in_subdir)| Placed { act, muts: vec![], mode, enc, exists, input, output, in_subdir, circumstances: 0, started: 0 })
                        .boxed()
                },
                c28_beside,
            ),
        ],
        assumptions: vec!["paths are Unicode and at most 255 bytes per component", "what is said about the order of a directory's files is left open"],
    }
}

// ------------------------------------------------------------------ C29

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Told {
    /// source, output (extension or an impossible one), what the output path holds
    Convert(Source, u8, u8),
    /// program, edit, new file (none, fresh, taken, impossible), delete-old
    Edit(Prog, Edit, u8, bool),
    Mass(Vec<Source>, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Report {
    told: Told,
    mode: Mode,
    /// short answers
    answers: Vec<u8>,
    muts: Vec<ByteMut>,
    content: bool,
}

const OUTS: [&str; 15] = ["[style:dim].txt", "[bg:blue]x[[.8xp", "8xp", "txt", "json", "83p", "82p", "8xp", "txt", "bin", "", "missing/", "shut/", "TXT", "dir/"];
const PRECIOUS: &[u8] = b"precious";

/// name and path of every success message
fn saved(text: &str) -> Vec<(String, String)> {
    text.match_indices("Successfully saved ")
        .filter_map(|(i, m)| {
            let rest = &text[i + m.len()..];
            // a damaged name may hold a line break
            rest.split_once(" to ").map(|(a, b)| (a.to_string(), b.split('\n').next().unwrap().to_string()))
        })
        .collect()
}

fn c29(env: &Env, c: &Report) -> Check {
    let mut o = Obs::default();
    let d = env.dir();
    d.write("bystander.8xp", b"bystander");
    d.mkdir("dir");
    d.mkdir("shut");
    let _ = std::fs::set_permissions(d.at("shut"), std::fs::Permissions::from_mode(0o555));
    let stdin: String = c.answers.iter().map(|a| ["y\n", "n\n", "Y\n", "\n", "yes\n"][*a as usize % 5]).collect();
    let m = c.mode.name();
    let mut args: Vec<String> = Vec::new();
    let mut output = None;
    let mut input = "IN.8xp";
    let damage = |f: &str| -> Result<(), String> {
        if !c.muts.is_empty() {
            let mut b = read(&d, f)?;
            for m in &c.muts {
                mutate(&mut b, m);
            }
            d.write(f, b);
        }
        Ok(())
    };
    let mut names: BTreeSet<String> = BTreeSet::new();
    let mut from_8xp: BTreeSet<String> = BTreeSet::new();
    let is_8xp = |s: &Source| matches!(s, Source::Xp(_) | Source::Old(..));
    match &c.told {
        Told::Convert(s, e, held) => {
            let s = &match s {
                Source::Txt(_) => s.clone(),
                s if held % 32 < 16 => s.clone(),
                s => named_source(s, ["[bg:red]", "a[", "[color:]", "[[style:"][*held as usize / 32 % 4]),
            };
            let Some(f) = put(&d, "IN", s)? else {
                o.trivial = true;
                return Ok(o);
            };
            damage(&f)?;
            names.insert(source_name(s));
            from_8xp.extend(is_8xp(s).then(|| source_name(s)));
            let e = OUTS[*e as usize % OUTS.len()];
            let out = match e {
                "" => "OUT".to_string(),
                "missing/" | "shut/" | "dir/" => format!("{e}OUT.txt"),
                e => format!("OUT.{e}"),
            };
            match held % 4 {
                1 | 2 if !out.contains('/') => d.write(&out, PRECIOUS),
                3 if !out.contains('/') => d.mkdir(&out),
                _ => {}
            }
            args.extend(["convert", &f, "-o", &out, "-d", m].map(String::from));
            if c.content {
                args.push("-c".into());
            }
            output = Some(out);
        }
        Told::Edit(p, e, new, del) => {
            // an old file that cannot be deleted lies in a directory that is read-only
            let place = if new % 8 == 7 { "kept/IN.8xp" } else { "IN.8xp" };
            input = place;
            d.mkdir("kept");
            d.write(place, p.bytes());
            damage(place)?;
            let _ = std::fs::set_permissions(d.at("kept"), std::fs::Permissions::from_mode(0o555));
            args.extend(e.args(place).into_iter().map(String::from));
            let new = match new % 8 {
                0 | 1 => None,
                2 => Some("NEW.8xp"),
                3 => Some("TAKEN.8xp"),
                4 => Some("missing/NEW.8xp"),
                5 => Some(place),
                6 => Some("shut/NEW.txt"),
                _ => Some("NEW.8xp"),
            };
            d.write("TAKEN.8xp", PRECIOUS);
            if let Some(n) = new {
                args.extend(["-f", n].map(String::from));
                if *del {
                    args.push("-d".into());
                }
            }
            output = Some(new.unwrap_or(place).to_string());
        }
        Told::Mass(v, held) => {
            d.mkdir("in");
            if held & 1 != 0 {
                d.mkdir("out");
            }
            for (i, s) in v.iter().enumerate() {
                let plain = held & 32 == 0 || matches!(s, Source::Txt(_));
                let tag = if plain { ["ONE", "TWO", "THREE"][i] } else { ["[bg:red]", "TW[", "[a:b]"][i] };
                let s = named_source(s, tag);
                if put(&d, &format!("in/f{i}"), &s)?.is_none() {
                    o.trivial = true;
                    return Ok(o);
                }
                names.insert(tag.into());
                from_8xp.extend(is_8xp(&s).then(|| tag.to_string()));
                for (bit, e) in [(2, "txt"), (4, "8xp")] {
                    if held & 1 != 0 && held & bit != 0 && (held >> 3) as usize % 3 != i {
                        let at = format!("out/{tag}.{e}");
                        d.write(&at, PRECIOUS);
                    }
                }
            }
            args.extend(["convert", "in", "-m", "-o", if held & 64 != 0 { "out/" } else { "out" }, "-d", m].map(String::from));
            if held & 128 != 0 && held & 1 != 0 {
                for n in ["shut", "kept"] {
        let _ = std::fs::set_permissions(d.at(n), std::fs::Permissions::from_mode(0o755));
    }
    let _ = std::fs::set_permissions(d.at("out"), std::fs::Permissions::from_mode(0o555));
            }
        }
    }
    let before = d.snapshot();
    let words: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let r = d.run_in(&words, &stdin);
    let after = d.snapshot();
    for n in ["shut", "kept"] {
        let _ = std::fs::set_permissions(d.at(n), std::fs::Permissions::from_mode(0o755));
    }
    let _ = std::fs::set_permissions(d.at("out"), std::fs::Permissions::from_mode(0o755));
    let what = format!("{args:?}, answered {stdin:?}");
    no_crash(&r, &what)?;
    let text = plain(&r.out);
    let changed: BTreeSet<&String> = after.iter().filter(|(k, v)| before.get(*k) != Some(*v) && matches!(v, Node::File(_))).map(|(k, _)| k).collect();
    let gone: Vec<&String> = before.keys().filter(|k| !after.contains_key(*k)).collect();
    let reports = saved(&text);
    match &c.told {
        Told::Convert(..) | Told::Mass(..) => {
            let single = matches!(c.told, Told::Convert(..));
            ensure!(gone.is_empty(), "{what}: {gone:?} is gone");
            let mut told = BTreeSet::new();
            for (n, p) in &reports {
                // the path as a file below the directory
                let p = p.replace("//", "/");
                ensure!(after.contains_key(&p), "{what} reports a file saved to {p}, which does not exist");
                ensure!(told.insert(p.clone()), "{what} reports {p} twice");
                ensure!(changed.contains(&p), "{what} reports {p} saved, but it is as it was");
                if !c.muts.is_empty() {
                } else if single {
                    ensure!(names.contains(n), "{what} reports {n:?} saved, the program is {names:?}");
                } else {
                    ensure!(p.starts_with(&format!("out/{n}.")), "{what} reports {n:?} saved to {p}");
                }
            }
            for p in &changed {
                ensure!(told.contains(*p), "{what} saved {p} without reporting it: {}", r.brief());
            }
            if single {
                // declining to replace a file is no failure
                let declined = before.contains_key(output.as_ref().unwrap()) && !["y\n", "Y\n"].iter().any(|y| stdin.starts_with(y));
                ensure!(r.ok() == !reports.is_empty() || (declined && reports.is_empty()), "{what} reports {} saved files and ends with status {:?}", reports.len(), r.code);
                if !reports.is_empty() {
                    ensure!(changed.iter().eq([output.as_ref().unwrap()].iter()), "{what} changed {changed:?}");
                }
            }
            // a replacement that is announced may still fail
            let replaced = changed.iter().filter(|k| before.contains_key(**k)).count();
            let announced = text.matches("Replacing existing file").count();
            ensure!(announced == replaced || (announced > replaced && (!r.ok() || !single)), "{what}: replacements are not told as they happened: {}", r.brief());
            let warned = text.matches("Pretty tokens can't be accurately encoded").count();
            let needed = if c.mode == Mode::Pretty { reports.iter().filter(|(n, _)| from_8xp.contains(n) || (single && !from_8xp.is_empty())).count() } else { 0 };
            let most = if c.mode == Mode::Pretty { reports.len() } else { 0 };
            ensure!(warned >= needed && warned <= most, "{what} warns {warned} times of pretty tokens, want {needed} to {most}");
            o.label(if single { "convert" } else { "mass conversion" });
            o.label(format!("{} files reported", reports.len().min(4)));
        }
        Told::Edit(p, e, new, del) => {
            let out = output.unwrap();
            // not to be looked up in the words, where -d can be a name or comment
            let delete = *del && new % 8 > 1;
            let (field, value) = match e {
                Edit::Rename(n) => ("name", n.clone()),
                Edit::Comment(t) => ("comment", t.clone()),
                Edit::Lock => ("file type", "locked program".into()),
                Edit::Unlock => ("file type", "program".into()),
                Edit::Archive => ("destination", "archive".into()),
                Edit::Unarchive => ("destination", "ram".into()),
            };
            let claims = text.contains("Successfully");
            let declined = before.contains_key(&out) && !["y\n", "Y\n"].iter().any(|y| stdin.starts_with(y));
            ensure!(claims == r.ok() || (declined && !claims), "{what}: {}", r.brief());
            if claims {
                let line = text.split("Successfully").nth(1).unwrap_or("");
                ensure!(line.to_lowercase().starts_with(&format!(" set {field} to {}", value.to_lowercase())), "{what} reports {line:?}");
                match after.get(&out) {
                    Some(Node::File(b)) if c.muts.is_empty() && !out.ends_with("txt") => {
                        let mut x = p.xp();
                        e.apply(&mut x);
                        ensure!(*b == x.bytes(), "{what} reports success: {}", differ(b, &x.bytes()));
                    }
                    Some(_) => {}
                    None => return Err(format!("{what} reports success, but there is no {out}")),
                }
            } else if input.starts_with("kept") && delete {
                // the new file stays when the old one cannot be deleted
                ensure!(changed.iter().all(|k| k.as_str() == "NEW.8xp"), "{what} changed {changed:?}");
                ensure!(declined || !r.ok(), "{what} says nothing of the old file, which is still there");
                o.label("the old file cannot be deleted");
            } else {
                ensure!(changed.is_empty(), "{what} changed {changed:?} without reporting success");
            }
            let deleted = text.contains("Deleted old file.");
            if claims && delete && out != input {
                ensure!(deleted, "{what} reports success, but the old file is not deleted: {}", r.brief());
            }
            ensure!(deleted == (gone == [input]) && deleted == !gone.is_empty(), "{what}: gone: {gone:?}; {}", r.brief());
            ensure!(!text.contains("Replacing existing file") || claims || !r.ok(), "{what} says it replaces a file, and does not: {}", r.brief());
            o.label(format!("edit {}", e.kind()));
            o.label_if(deleted, "old file deleted");
        }
    }
    if !r.ok() {
        ensure!(!text.trim().is_empty() || !r.err.is_empty(), "{what} fails silently");
    }
    o.label(if r.ok() { "status 0" } else { "failed" });
    o.label_if(!c.muts.is_empty(), "damaged input");
    Ok(o)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Aimless {
    source: Source,
    mass: bool,
    mode: Option<Mode>,
    enc: Option<Enc>,
    /// -o as the last word, without a path
    bare: bool,
    answers: u8,
}
/// A conversion that is told neither to save nor to show its result.
fn c29_aimless(env: &Env, c: &Aimless) -> Check {
    let mut o = Obs::default();
    let d = env.dir();
    d.mkdir("in");
    let Some(f) = put(&d, "in/IN", &c.source)? else {
        o.trivial = true;
        return Ok(o);
    };
    let before = d.snapshot();
    let mut args = vec!["convert", &f];
    if c.mass {
        args = vec!["convert", "in", "-m"];
    }
    if let Some(m) = c.mode {
        args.extend(["-d", m.name()]);
    }
    if let Some(e) = c.enc {
        args.extend(["-e", e.name()]);
    }
    if c.bare {
        args.push("-o");
    }
    let r = d.run_in(&args, ["", "y\n", "n\n"][c.answers as usize % 3]);
    let what = format!("{args:?}, which does nothing with the result,");
    must_refuse(&r, &what)?;
    ensure!(!plain(&r.out).contains("Successfully"), "{what} reports success: {}", r.brief());
    tree_diff(&d.snapshot(), &before).map_err(|e| format!("{what}: {e}"))?;
    o.label(if c.mass { "mass conversion" } else { "convert" });
    Ok(o)
}
fn named_source(s: &Source, tag: &str) -> Source {
    match s {
        Source::Xp(p) => Source::Xp(Prog { name: tag.into(), ..p.clone() }),
        Source::Old(p, t) => Source::Old(Prog { name: tag.into(), ..p.clone() }, *t),
        Source::Json(p) => Source::Json(Prog { name: tag.into(), ..p.clone() }),
        Source::Txt(t) => Source::Txt(Txt { name: tag.into(), ..t.clone() }),
    }
}
fn source_name(s: &Source) -> String {
    match s {
        Source::Xp(p) | Source::Old(p, _) | Source::Json(p) => String::from_utf8_lossy(&p.name).into_owned(),
        Source::Txt(t) => t.name.clone(),
    }
}

pub fn c29_property() -> Property {
    Property {
        id: "C29",
        level: "exploration",
        subs: vec![
            generated(
                "single",
                "conversions of every kind of source to fresh, taken, impossible and unwritable outputs, and edits in place, to fresh, taken, impossible and unwritable new files, with and without deletion, with every kind of answer and sometimes a damaged input; non-trivial: the source exists",
                5000,
                100000,
                || {
                    let told = prop_oneof![
                        3 => (source(), any::<u8>(), any::<u8>()).prop_map(|(s, a, b)| Told::Convert(s, a, b)),
                        3 => (small_prog(), prop_oneof![6 => valid_edit(), 1 => invalid_edit()], any::<u8>(), any::<bool>()).prop_map(|(p, e, a, b)| Told::Edit(p, e, a, b)),
                    ];
                    (told, all_modes(), vec(prop_oneof![3 => Just(0u8), 2 => any::<u8>()], 0..3), prop_oneof![6 => Just(vec![]), 1 => vec(byte_mut(), 1..3)], any::<bool>())
                        .prop_map(|(told, mode, answers, muts, content)| Report { told, mode, answers, muts, content })
                        .boxed()
                },
                c29,
            ),
            generated(
                "mass",
                "mass conversions of up to 3 sources of every kind into a missing, empty, partly taken or unwritable directory with up to 8 answers of every kind: what is reported saved is what was saved; non-trivial: the sources exist",
                2500,
                50000,
                || {
                    (vec(source(), 1..=3), any::<u8>(), all_modes(), vec(any::<u8>(), 0..9))
                        .prop_map(|(v, held, mode, answers)| Report { told: Told::Mass(v, held), mode, answers, muts: vec![], content: false })
                        .boxed()
                },
                c29,
            ),
            generated(
                "aimless",
                "conversions and mass conversions without output, preview and content: refused; non-trivial: the source exists",
                250,
                4000,
                || {
                    (source(), any::<bool>(), proptest::option::of(all_modes()), proptest::option::of(enc()), any::<bool>(), any::<u8>())
                        .prop_map(|(source, mass, mode, enc, bare, answers)| Aimless { source, mass, mode, enc, bare, answers })
                        .boxed()
                },
                c29_aimless,
            ),
        ],
        assumptions: vec!["standard output can be written to"],
    }
}
