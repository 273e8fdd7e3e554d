//! C01 - C08: decoding, encoding, round trips.

use crate::cli::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::oracle::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect::<Vec<_>>().join(" ")
}

/// A short description of the first difference of two byte strings.
pub fn differ(got: &[u8], want: &[u8]) -> String {
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let w = |b: &[u8]| hex(&b[i.saturating_sub(4).min(b.len())..(i + 12).min(b.len())]);
    format!("lengths {} and {}, first difference at byte {i}: got ..{}.. want ..{}..", got.len(), want.len(), w(got), w(want))
}
pub fn differ_text(got: &str, want: &str) -> String {
    let i = got.chars().zip(want.chars()).take_while(|(a, b)| a == b).count();
    let w = |s: &str| s.chars().skip(i.saturating_sub(15)).take(60).collect::<String>();
    format!("first difference at character {i}: got {:?} want {:?}", w(got), w(want))
}

pub fn no_crash(r: &Run, what: &str) -> Result<(), String> {
    ensure!(!r.spun(), "{what}: did not end within the CPU limit");
    ensure!(!r.crashed(), "{what} crashed: {}", r.brief());
    Ok(())
}
/// The command succeeded.
pub fn must(r: &Run, what: &str) -> Result<(), String> {
    no_crash(r, what)?;
    ensure!(r.ok(), "{what} failed: {}", r.brief());
    Ok(())
}
/// The command was refused with an error status.
pub fn must_refuse(r: &Run, what: &str) -> Result<(), String> {
    no_crash(r, what)?;
    ensure!(r.refused(), "{what} was not refused: {}", r.brief());
    Ok(())
}
pub fn read(d: &Dir, f: &str) -> Result<Vec<u8>, String> {
    d.read(f).ok_or_else(|| format!("{f} was not written"))
}
pub fn read_txt(d: &Dir, f: &str) -> Result<String, String> {
    String::from_utf8(read(d, f)?).map_err(|_| format!("{f} is not UTF-8"))
}
pub fn parse(b: &[u8]) -> Result<Xp, String> {
    Xp::parse(b).map_err(|e| format!("not a well-formed 8xp file: {e}"))
}

// ------------------------------------------------------------------ C01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dec {
    prog: Prog,
    mode: Mode,
}

fn c01_decode(env: &Env, c: &Dec) -> Check {
    let d = env.dir();
    d.write("P.8xp", c.prog.bytes());
    let want = c.prog.text(c.mode);
    let r = d.run(&["convert", "P.8xp", "-o", "P.json", "-d", c.mode.name(), "-p"]);
    must(&r, "convert 8xp to json")?;
    let j: serde_json::Value = serde_json::from_slice(&read(&d, "P.json")?).map_err(|e| format!("json output: {e}"))?;
    let got = j["body"]["translation"].as_str().ok_or("no body.translation in the json")?;
    ensure!(got == want, "body.translation differs: {}", differ_text(got, &want));
    ensure!(r.out.contains(&format!("----- Program -----\n{want}\n")), "the preview does not show the program text {want:?}: {}", r.brief());
    let r = d.run(&["convert", "P.8xp", "-o", "P.txt", "-d", c.mode.name()]);
    must(&r, "convert 8xp to txt")?;
    let got = txt_body(&read_txt(&d, "P.txt")?);
    ensure!(got == want, "program text differs: {}", differ_text(&got, &want));
    let mut o = Obs::default();
    let toks = c.prog.toks();
    o.trivial = toks.is_empty();
    o.label(format!("mode {}", c.mode.name()));
    o.label(format!("model {}", c.prog.model_row().name));
    o.label_if(toks.iter().any(|t| t.key.len() == 2), "two-byte tokens");
    o.label_if(toks.iter().any(|t| t.key == [0x3F]), "line breaks");
    o.label_if(toks.len() >= 100, "100 tokens or more");
    Ok(o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Group {
    model: u8,
    mode: Mode,
    from: usize,
    len: usize,
}

/// Every token of every model in every mode, in groups.
fn c01_all(env: &Env, c: &Group) -> Check {
    let set = Set::of_model(FILE_MODELS[c.model as usize]);
    let toks: Vec<&Tok> = set.toks.iter().skip(c.from).take(c.len).collect();
    let row = &MODELS[FILE_MODELS[c.model as usize]];
    let d = env.dir();
    // a colon between the tokens shows where one rendition ends
    let colon = set.get(&[0x3E]).unwrap();
    let seq: Vec<&Tok> = toks.iter().flat_map(|t| [*t, colon]).collect();
    d.write("P.8xp", simple(row, &bytes_of(&seq)).bytes());
    must(&d.run(&["convert", "P.8xp", "-o", "P.json", "-d", c.mode.name()]), "convert 8xp to json")?;
    let j: serde_json::Value = serde_json::from_slice(&read(&d, "P.json")?).map_err(|e| format!("json output: {e}"))?;
    let want: String = seq.iter().map(|t| t.text[c.mode as usize].as_str()).collect();
    let got = j["body"]["translation"].as_str().unwrap_or("");
    ensure!(got == want, "model {} mode {}: {}", row.name, c.mode.name(), differ_text(got, &want));
    Ok(Obs::default())
}

pub fn simple(row: &ModelRow, body: &[u8]) -> Xp {
    Xp {
        sig: row.sig.as_bytes().to_vec(),
        extra: vec![0x1A, 0x0A],
        product: row.product,
        comment: pad(b"", 42),
        flag: 0x0D,
        unknown: 0,
        ftype: 5,
        name: pad(b"PROG", 8),
        version: 0,
        dest: 0,
        body: body.to_vec(),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    model: u8,
    before: Vec<Pick>,
    bad: Vec<u8>,
    after: Vec<Pick>,
    mode: Mode,
    out: u8,
}

fn c01_bad(env: &Env, c: &Bad) -> Check {
    let mi = FILE_MODELS[c.model as usize % 9];
    let set = Set::of_model(mi);
    let mut body = bytes_of(&resolve(&c.before, set));
    body.extend(&c.bad);
    body.extend(bytes_of(&resolve(&c.after, set)));
    let want = set.decode(&body, c.mode);
    let d = env.dir();
    d.write("P.8xp", simple(&MODELS[mi], &body).bytes());
    let out = ["O.txt", "O.json", "O.8xp"][c.out as usize % 3];
    let r = d.run(&["convert", "P.8xp", "-o", out, "-d", c.mode.name()]);
    let mut o = Obs::default();
    match want {
        Some(w) => {
            must(&r, "convert 8xp with a body that is a token sequence")?;
            if out == "O.txt" {
                let got = txt_body(&read_txt(&d, out)?);
                // a lone trailing line break aside, the text is the rendition
                ensure!(got == w, "program text differs: {}", differ_text(&got, &w));
            }
            o.label("happens to be valid");
            o.trivial = true;
        }
        None => {
            must_refuse(&r, &format!("body {} of model {}", hex(&body), MODELS[mi].name))?;
            ensure!(!d.exists(out), "{out} was written although the body {} is not a token sequence", hex(&body));
            o.label(if c.after.is_empty() { "bad bytes at the end" } else if c.before.is_empty() { "bad bytes first" } else { "bad bytes inside" });
            o.label_if(c.bad.len() == 1, "single bad byte");
        }
    }
    Ok(o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    model: u8,
    first: u8,
    second: u8,
}

/// Bodies of one byte, and of a two-byte lead with any second byte, for every model.
fn c01_pairs(env: &Env, c: &Pair) -> Check {
    let mi = FILE_MODELS[c.model as usize];
    let set = Set::of_model(mi);
    let body = if c.second == 0 && !is_lead(set, c.first) { vec![c.first] } else { vec![c.first, c.second] };
    let d = env.dir();
    d.write("P.8xp", simple(&MODELS[mi], &body).bytes());
    let r = d.run(&["convert", "P.8xp", "-o", "O.txt"]);
    match set.decode(&body, Mode::Acc) {
        Some(w) => {
            must(&r, &format!("body {}", hex(&body)))?;
            let got = txt_body(&read_txt(&d, "O.txt")?);
            ensure!(got == w, "body {}: {}", hex(&body), differ_text(&got, &w));
        }
        None => {
            must_refuse(&r, &format!("body {} of {}", hex(&body), MODELS[mi].name))?;
            ensure!(!d.exists("O.txt"), "output written for body {}", hex(&body));
        }
    }
    Ok(Obs::default())
}
fn is_lead(set: &Set, b: u8) -> bool {
    set.toks.iter().any(|t| t.key.len() == 2 && t.key[0] == b)
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        level: "exploration",
        subs: vec![
            exhaustive(
                "every-token",
                "every token of each of the 9 recognisable models in each display mode, 27 tokens per body separated by colons; all count",
                |_| {
                    let mut v = Vec::new();
                    for model in 0..9u8 {
                        let n = Set::of_model(FILE_MODELS[model as usize]).toks.len();
                        for mode in 0..3 {
                            for from in (0..n).step_by(27) {
                                v.push(Group { model, mode: Mode::of(mode), from, len: 27 });
                            }
                        }
                    }
                    v
                },
                c01_all,
            ),
            exhaustive(
                "single-units",
                "bodies of one byte (all 256) and of each two-byte lead with every second byte, on the 9 models (quick: latest, TI-82, TI-83+ only); all count",
                |t| {
                    let mut v = Vec::new();
                    for model in 0..9u8 {
                        if !t.thorough && ![0, 1, 3].contains(&model) {
                            continue;
                        }
                        let set = Set::of_model(FILE_MODELS[model as usize]);
                        for first in 0..=255u8 {
                            v.push(Pair { model, first, second: 0 });
                            if is_lead(set, first) {
                                for second in 1..=255u8 {
                                    if t.thorough || second % 3 == 0 || set.get(&[first, second]).is_none() && second % 5 == 1 {
                                        v.push(Pair { model, first, second });
                                    }
                                }
                            }
                        }
                    }
                    v
                },
                c01_pairs,
            ),
            generated(
                "decode",
                "random programs (0 to 400 tokens, every model, type and comment) decoded in a random mode to json, preview and txt; non-trivial: at least one token",
                2500,
                60000,
                || (prog(), all_modes()).prop_map(|(prog, mode)| Dec { prog, mode }).boxed(),
                c01_decode,
            ),
            generated(
                "bad-body",
                "token sequences with stray bytes inserted at a random place; non-trivial: the bytes are not a token sequence of the model",
                2500,
                40000,
                || {
                    let bad = prop_oneof![
                        3 => prop::collection::vec(any::<u8>(), 1..4),
                        3 => prop_oneof![Just(0x5Cu8), Just(0x5D), Just(0x5E), Just(0x60), Just(0x61), Just(0x62), Just(0x63), Just(0x7E), Just(0xAA), Just(0xBB), Just(0xEF)].prop_map(|b| vec![b]),
                        3 => prop_oneof![Just(0xBBu8), Just(0xEF), Just(0x63), Just(0x7E)].prop_flat_map(|b| (Just(b), any::<u8>())).prop_map(|(a, b)| vec![a, b]),
                        2 => Just(vec![0x00u8]),
                    ];
                    (
                        0u8..9,
                        prop::collection::vec(pick(), 0..6),
                        bad,
                        prop_oneof![Just(vec![]), prop::collection::vec(pick(), 1..6)],
                        all_modes(),
                        0u8..3,
                    )
                        .prop_map(|(model, before, bad, after, mode, out)| Bad { model, before, bad, after, mode, out })
                        .boxed()
                },
                c01_bad,
            ),
        ],
        assumptions: vec!["the token sheet pinned in /verif/oracle is the documented one"],
    }
}

// ------------------------------------------------------------------ C02 / C03 encoding

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EncCase {
    pub txt: Txt,
    pub enc: Enc,
    pub explicit: bool,
}

/// Compares the body with the expected renditions: where several tokens share a rendition, any of
/// them is right.
pub fn same_renditions(body: &[u8], want: &[&Tok], set: &Set, mode: Mode) -> Result<(), String> {
    let got = set.split(body).ok_or_else(|| format!("the body {} is not a token sequence of the model", hex(body)))?;
    let show = |t: &[&Tok], i: usize| {
        t[i.saturating_sub(2).min(t.len())..(i + 4).min(t.len())]
            .iter()
            .map(|t| format!("{}={:?}", hex(&t.key).replace(' ', ""), t.text[mode as usize]))
            .collect::<Vec<_>>()
            .join(" ")
    };
    for i in 0..got.len().max(want.len()) {
        let (g, w) = (got.get(i), want.get(i));
        let is_break = |t: Option<&&Tok>| t.map(|t| t.key == [0x3F]);
        if g.map(|t| &t.text[mode as usize]) != w.map(|t| &t.text[mode as usize]) || is_break(g) != is_break(w) {
            return Err(format!("token {i} differs: got {} want {}", show(&got, i), show(want, i)));
        }
    }
    Ok(())
}

fn encode_run(d: &Dir, c: &EncCase) -> Run {
    d.write("P.txt", c.txt.file());
    if c.explicit {
        d.run(&["convert", "P.txt", "-o", "O.8xp", "-e", c.enc.name()])
    } else {
        d.run(&["convert", "P.txt", "-o", "O.8xp"])
    }
}

fn enc_labels(c: &EncCase, text: &str, o: &mut Obs) {
    o.label(format!("mode {}", c.txt.mode.name()));
    o.label(format!("model {}", c.txt.row().name));
    o.label_if(text.contains('\n'), "several lines");
    o.label_if(text.chars().count() >= 200, "200 characters or more");
}

fn c02_encode(env: &Env, c: &EncCase) -> Check {
    let d = env.dir();
    let text = normalize(&c.txt.program_text());
    let set = c.txt.set();
    let rule = if c.enc == Enc::Max { Rule::Max } else { Rule::Min };
    let r = encode_run(&d, c);
    let mut o = Obs::default();
    match encode(&text, set, c.txt.mode, rule) {
        Ok(want) => {
            must(&r, "convert txt to 8xp")?;
            let x = parse(&read(&d, "O.8xp")?)?;
            same_renditions(&x.body, &want, set, c.txt.mode)?;
            let other = encode(&text, set, c.txt.mode, if rule == Rule::Max { Rule::Min } else { Rule::Max });
            o.trivial = want.is_empty();
            o.label_if(other.map(|w| bytes_of(&w)) != Ok(bytes_of(&want)), "longest and shortest match differ");
            enc_labels(c, &text, &mut o);
        }
        Err(rest) => {
            must_refuse(&r, &format!("text with no token for {:?}", rest.chars().take(20).collect::<String>()))?;
            ensure!(!d.exists("O.8xp"), "an output was written although no token matches {:?}", rest.chars().take(20).collect::<String>());
            o.label("no token matches");
        }
    }
    o.label(format!("encode {}", c.enc.name()));
    Ok(o)
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        level: "exploration",
        subs: vec![
            exhaustive(
                "every-rendition",
                "a text of each rendition on a line of its own, each model order and display mode, min and max, 40 lines per text, renditions that must be refused one per text; all count",
                |_| {
                    let mut v = Vec::new();
                    for model in [0usize, 1, 2, 6, 10, 15, 17, 18] {
                        let n = Set::of_model(model).toks.len();
                        for mode in 0..3u8 {
                            for enc in [Enc::Max, Enc::Min] {
                                // a rendition that cannot be split is refused, so it gets its own text
                                let set = Set::of_model(model);
                                let rule = if enc == Enc::Max { Rule::Max } else { Rule::Min };
                                let (good, bad): (Vec<usize>, Vec<usize>) =
                                    (0..n).partition(|&i| encode(&normalize(&set.toks[i].text[mode as usize]), set, Mode::of(mode), rule).is_ok());
                                for c in good.chunks(40).chain(bad.chunks(1)) {
                                    v.push(line_case(model, mode, c, enc));
                                }
                            }
                        }
                    }
                    v
                },
                c02_encode,
            ),
            generated(
                "encode",
                "random texts of renditions, cut renditions, foreign renditions and odd characters, encoded with min or max; non-trivial: some token is encoded or the text is refused",
                5000,
                100000,
                || {
                    (txt_with(wild_frags(), all_modes()), prop_oneof![Just(Enc::Max), Just(Enc::Min)])
                        .prop_map(|(txt, enc)| EncCase { txt, enc, explicit: true })
                        .boxed()
                },
                c02_encode,
            ),
        ],
        assumptions: vec![
            "where several tokens share a rendition in the text's mode, any of them is accepted here (C20 checks that the choice does not vary)",
        ],
    }
}

fn line_case(model: usize, mode: u8, which: &[usize], enc: Enc) -> EncCase {
    let mut frags = Vec::new();
    for &i in which {
        frags.push(Frag::Tok(Pick::Any(i as u16)));
        frags.push(Frag::Tok(Pick::Nl));
    }
    EncCase {
        txt: Txt { name: "LINES".into(), comment: String::new(), ftype: 0, archived: false, mode: Mode::of(mode), model: model as u8, frags, crlf: false, times: 1 },
        enc,
        explicit: true,
    }
}

fn c03_encode(env: &Env, c: &EncCase) -> Check {
    let d = env.dir();
    let text = normalize(&c.txt.program_text());
    let set = c.txt.set();
    let mode = c.txt.mode;
    let r = encode_run(&d, c);
    let mut o = Obs::default();
    // an unclosed or odd text can be encodable under one reading only
    let ideal = encode(&text, set, mode, Rule::SmartIdeal);
    let quirk = encode(&text, set, mode, Rule::SmartQuirk);
    match (&ideal, &quirk) {
        (Err(rest), Err(_)) => {
            must_refuse(&r, &format!("text with no token for {:?}", rest.chars().take(20).collect::<String>()))?;
            ensure!(!d.exists("O.8xp"), "an output was written although no token matches {:?}", rest.chars().take(20).collect::<String>());
            o.label("no token matches");
        }
        _ => {
            no_crash(&r, "convert txt to 8xp")?;
            let got = if r.ok() { Some(parse(&read(&d, "O.8xp")?)?) } else { None };
            let matches = |w: &Result<Vec<&Tok>, String>| match (w, &got) {
                (Ok(w), Some(x)) => same_renditions(&x.body, w, set, mode),
                (Err(_), None) => Ok(()),
                (Ok(_), None) => Err(format!("refused: {}", r.brief())),
                (Err(rest), Some(_)) => Err(format!("accepted, although no token matches {rest:?}")),
            };
            if let Err(e) = matches(&ideal) {
                if matches(&quirk).is_err() {
                    return Err(format!("text {:?}: {e}", text.chars().take(300).collect::<String>()));
                }
                o.known.push(("closing-quote".into(), format!("{:?} mode {}", text, mode.name())));
                o.label("code after a closing quote (known finding)");
            }
            if let Ok(want) = &ideal {
                o.trivial = want.is_empty();
                let b = bytes_of(want);
                o.label_if(want.iter().any(|t| t.key == [0x2A]), "string literals");
                o.label_if(want.iter().any(|t| t.key == [0x5F] || t.key == [0xEB]), "program or list names");
                o.label_if(encode(&text, set, mode, Rule::Max).map(|w| bytes_of(&w)) != Ok(b.clone()), "differs from longest match");
                o.label_if(encode(&text, set, mode, Rule::Min).map(|w| bytes_of(&w)) != Ok(b), "differs from shortest match");
            }
            enc_labels(c, &text, &mut o);
        }
    }
    o.label(if c.explicit { "-e smart" } else { "default mode" });
    Ok(o)
}

/// Text around strings and names.
fn smart_frags() -> BoxedStrategy<Vec<Frag>> {
    let t = |p: Pick| Frag::Tok(p);
    let name = prop::collection::vec(prop_oneof![5 => (0u8..27).prop_map(Pick::Upper), 2 => (0u8..10).prop_map(Pick::Digit)], 1..8);
    let raw_name = prop_oneof![
        Just("RED"), Just("LEVEL1"), Just("BLUE"), Just("PVT"), Just("FV"), Just("L1"), Just("XL6A"), Just("NAVY"), Just("GRAY"), Just("IND"), Just("Str1"), Just("and"), Just("If "), Just("Disp ")
    ];
    let words = prop_oneof![
        Just(" and "), Just(" or "), Just(" xor "), Just("->"), Just("Disp "), Just("sin("), Just("RED"), Just("Then"), Just("L1"), Just("not("), Just("^^2"), Just("Str1"), Just("theta"), Just("Ans"), Just("!="), Just(">="), Just("<=")
    ];
    let piece = prop_oneof![
        4 => plain_piece(),
        3 => (name.clone(), any::<bool>()).prop_map(move |(n, p)| {
            let mut v = vec![t(if p { Pick::Prgm } else { Pick::List })];
            v.extend(n.into_iter().map(Frag::Tok));
            v
        }),
        2 => (raw_name.clone(), any::<bool>()).prop_map(|(n, p)| vec![Frag::Tok(if p { Pick::Prgm } else { Pick::List }), Frag::Raw(n.to_string())]),
        5 => (prop::collection::vec(pick(), 0..6), 0u8..8).prop_map(|(s, close)| {
            let mut v = vec![Frag::Tok(Pick::Quote)];
            v.extend(s.into_iter().map(Frag::Tok));
            if close != 0 { v.push(Frag::Tok(Pick::Quote)); }
            v
        }),
        3 => (prop_oneof![raw_name.prop_map(String::from), words.clone().prop_map(String::from)], any::<bool>()).prop_map(|(w, close)| {
            let mut v = vec![Frag::Tok(Pick::Quote), Frag::Raw(w)];
            if close { v.push(Frag::Tok(Pick::Quote)); }
            v
        }),
        3 => words.prop_map(|w| vec![Frag::Raw(w.to_string())]),
        1 => Just(vec![Frag::Tok(Pick::Arrow)]),
        1 => Just(vec![Frag::Tok(Pick::Nl)]),
    ];
    prop::collection::vec(piece, 0..8).prop_map(|v| v.into_iter().flatten().collect()).boxed()
}
/// Texts of 40 lines made of all tokens in all surroundings.
fn context_cases(all_models: bool) -> Vec<EncCase> {
    let models: Vec<usize> = if all_models { (0..25).collect() } else { vec![0, 1, 2, 6, 10, 15, 17, 18] };
    let jobs: Vec<(usize, u8)> = models.iter().flat_map(|&m| (0..3).map(move |k| (m, k))).collect();
    std::thread::scope(|sc| {
        let handles: Vec<_> = jobs.into_iter().map(|(m, k)| sc.spawn(move || context_cases_of(m, k))).collect();
        handles.into_iter().flat_map(|h| h.join().unwrap()).collect()
    })
}
fn context_cases_of(model: usize, mode: u8) -> Vec<EncCase> {
    let set = Set::of_model(model);
    let m = Mode::of(mode);
    let at = |key: &[u8]| set.toks.iter().position(|t| t.key == key).map(|i| Pick::Any(i as u16));
    let (mut good, mut odd, mut bad) = (Vec::new(), Vec::new(), Vec::new());
    for i in 0..set.toks.len() {
        if set.toks[i].key == [0x3F] {
            continue;
        }
        let t = Pick::Any(i as u16);
        let q = Pick::Quote;
        let mut lines: Vec<Vec<Pick>> = vec![
            vec![q.clone(), t.clone()],
            vec![q.clone(), Pick::Upper(0), t.clone()],
            vec![q.clone(), Pick::Space, t.clone(), t.clone()],
            vec![q.clone(), t.clone(), q.clone()],
            vec![q.clone(), Pick::Digit(1), q.clone(), t.clone()],
            vec![Pick::Prgm, t.clone()],
            vec![Pick::Prgm, Pick::Upper(0), Pick::Digit(1), t.clone(), Pick::Upper(1)],
            vec![t.clone(), q.clone(), Pick::Upper(0)],
            vec![t.clone(), t.clone()],
            vec![Pick::Upper(0), t.clone(), Pick::Upper(1)],
            vec![Pick::Arrow, t.clone(), Pick::Arrow, t.clone()],
            vec![q.clone(), Pick::Arrow, t.clone()],
            vec![q.clone(), Pick::Prgm, t.clone()],
        ];
        if let Some(list) = at(&[0xEB]) {
            lines.push(vec![list.clone(), t.clone()]);
            lines.push(vec![list, Pick::Upper(0), t.clone(), Pick::Upper(1)]);
        }
        if let Some(send) = at(&[0xE7]) {
            lines.push(vec![send, q.clone(), t.clone(), q.clone()]);
        }
        for l in lines {
            let text = normalize(&l.iter().map(|p| p.resolve(set).text[mode as usize].as_str()).collect::<String>());
            match (encode(&text, set, m, Rule::SmartIdeal), encode(&text, set, m, Rule::SmartQuirk)) {
                (Ok(a), Ok(b)) if bytes_of(&a) == bytes_of(&b) => good.push(l),
                (Err(_), Err(_)) => bad.push(l),
                _ => odd.push(l),
            }
        }
    }
    let case = |lines: &[Vec<Pick>]| {
        let mut frags = Vec::new();
        for l in lines {
            frags.extend(l.iter().cloned().map(Frag::Tok));
            frags.push(Frag::Tok(Pick::Nl));
        }
        EncCase {
            txt: Txt { name: "LINES".into(), comment: String::new(), ftype: 0, archived: false, mode: m, model: model as u8, frags, crlf: false, times: 1 },
            enc: Enc::Smart,
            explicit: model % 2 == 0,
        }
    };
    good.chunks(40).chain(odd.chunks(40)).chain(bad.chunks(1)).map(case).collect()
}
fn plain_piece() -> BoxedStrategy<Vec<Frag>> {
    prop::collection::vec(pick().prop_map(Frag::Tok), 0..5).boxed()
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        level: "exploration",
        subs: vec![
            exhaustive(
                "every-token",
                "every token of one model per model order, in every display mode, in 16 surroundings (after an opening quote, at once or later; before, at and after a closing quote; after prgm, after the list prefix, inside such names; before a string; in the string of Send(; doubled; between letters; before and after an arrow), 40 such lines per text, lines that must be refused one per text; all count",
                |tier| context_cases(tier.thorough),
                c03_encode,
            ),
            generated(
                "context",
                "texts of strings (closed or not), program and list names, keyword words, arrows and line breaks; non-trivial: some token is encoded or the text is refused",
                6000,
                100000,
                || {
                    (
                        txt_with(smart_frags(), prop_oneof![5 => Just(Mode::Acc), 3 => Just(Mode::Pretty), 1 => Just(Mode::Ti)].boxed()),
                        any::<bool>(),
                    )
                        .prop_map(|(txt, explicit)| EncCase { txt, enc: Enc::Smart, explicit })
                        .boxed()
                },
                c03_encode,
            ),
            generated(
                "general",
                "the same texts as for min and max, encoded with smart",
                2500,
                40000,
                || {
                    (txt_with(wild_frags(), all_modes()), any::<bool>())
                        .prop_map(|(txt, explicit)| EncCase { txt, enc: Enc::Smart, explicit })
                        .boxed()
                },
                c03_encode,
            ),
        ],
        assumptions: vec!["where several tokens share a rendition in the text's mode, any of them is accepted here"],
    }
}

// ------------------------------------------------------------------ C04

fn c04_fidelity(env: &Env, c: &EncCase) -> Check {
    let d = env.dir();
    d.write("P.txt", c.txt.file());
    let r = d.run(&["convert", "P.txt", "-o", "O.8xp", "-e", c.enc.name()]);
    no_crash(&r, "convert txt to 8xp")?;
    let mut o = Obs::default();
    if !r.ok() {
        o.trivial = true;
        o.label("not encodable");
        return Ok(o);
    }
    let xp = parse(&read(&d, "O.8xp")?)?;
    // the reference tokens of a model that is not told apart in the file can differ from those of
    // the model the file is recognised as
    let as_read = xp.model().ok_or("the written product byte is not recognised")?;
    let r = d.run(&["convert", "O.8xp", "-o", "Q.txt", "-d", c.txt.mode.name()]);
    let lb = if c.txt.mode == Mode::Ti { "D6" } else { "\n" };
    let want = c.txt.program_text().replace('\n', lb);
    if MODELS[as_read].order != c.txt.row().order {
        o.label("model not recorded in the file");
        if Set::of_model(as_read).decode(&xp.body, c.txt.mode).as_deref() != Some(&want) {
            no_crash(&r, "convert 8xp to txt")?;
            o.trivial = true;
            return Ok(o);
        }
    }
    must(&r, "convert the 8xp back to txt")?;
    let got = txt_body(&read_txt(&d, "Q.txt")?);
    ensure!(got == want, "the text came back altered: {}", differ_text(&got, &want));
    o.trivial = want.is_empty();
    o.label(format!("encode {}", c.enc.name()));
    enc_labels(c, &want, &mut o);
    Ok(o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stray {
    case: EncCase,
    at: u32,
    bytes: Vec<u8>,
    /// all of the text in UTF-16 or Latin-1 instead
    whole: u8,
}
/// A text with bytes that stand for no character cannot come back, so it has to be refused.
fn c04_stray(env: &Env, c: &Stray) -> Check {
    let d = env.dir();
    let text = c.case.txt.file();
    let body = text.match_indices('\n').nth(5).map_or(text.len(), |(i, _)| i + 1);
    let file = match c.whole {
        1 => text.encode_utf16().flat_map(u16::to_le_bytes).collect(),
        2 => [0xFF, 0xFE].into_iter().chain(text.encode_utf16().flat_map(u16::to_le_bytes)).collect(),
        3 => text[..body].bytes().chain(text[body..].chars().map(|c| c as u32 as u8)).chain([0xE9]).collect(),
        _ => {
            let at = body + c.at as usize % (text.len() - body + 1);
            [&text.as_bytes()[..at], &c.bytes, &text.as_bytes()[at..]].concat()
        }
    };
    let mut o = Obs::default();
    if std::str::from_utf8(&file).is_ok() {
        o.trivial = true;
        return Ok(o);
    }
    d.write("P.txt", &file);
    d.write("O.8xp", b"old");
    let before = d.snapshot();
    let what = format!("convert of a text that is not UTF-8 ({})", hex(&c.bytes));
    must_refuse(&d.run_in(&["convert", "P.txt", "-o", "O.8xp", "-e", c.case.enc.name()], "y\n"), &what)?;
    crate::p2::tree_diff(&d.snapshot(), &before).map_err(|e| format!("{what}: {e}"))?;
    o.label(["stray bytes", "UTF-16", "UTF-16 with a mark", "Latin-1"][c.whole as usize % 4]);
    Ok(o)
}

pub fn c04() -> Property {
    let strat = |f: fn() -> BoxedStrategy<Vec<Frag>>| {
        move || {
            (txt_with(f(), all_modes()), enc())
                .prop_map(|(mut txt, enc)| {
                    // variants of theta are replaced on purpose and \r is part of a line break
                    for f in &mut txt.frags {
                        if let Frag::Raw(s) = f {
                            *s = s.replace(['\u{0398}', '\u{03F4}', '\u{1DBF}', '\r'], "");
                        }
                    }
                    EncCase { txt, enc, explicit: true }
                })
                .boxed()
        }
    };
    Property {
        id: "C04",
        level: "exploration",
        subs: vec![
            generated("text", "random texts of renditions and other characters, encoded in a random mode and decoded again; non-trivial: encodable and not empty", 2800, 60000, strat(wild_frags), c04_fidelity),
            generated("strings", "the same with strings, names and keywords", 1800, 30000, strat(smart_frags), c04_fidelity),
            generated(
                "stray-bytes",
                "random texts with bytes anywhere in the program that are not UTF-8 (stray, cut, overlong and surrogate sequences), or all of it in another encoding: must be refused; non-trivial: the file is not UTF-8",
                700,
                15000,
                move || {
                    let bytes = prop_oneof![
                        3 => prop::collection::vec(0x80u8..=0xFF, 1..3),
                        1 => Just(vec![0xC0, 0x80]),
                        1 => Just(vec![0xC1, 0x81]),
                        1 => Just(vec![0xED, 0xA0, 0x80]),
                        1 => Just(vec![0xE2, 0x86]),
                        1 => Just(vec![0xF5, 0x80, 0x80, 0x80]),
                        1 => Just(vec![0xFF]),
                        1 => Just(vec![0xFF, 0xFE]),
                    ];
                    (strat(smart_frags)(), any::<u32>(), bytes, prop_oneof![9 => Just(0u8), 1 => 1u8..4])
                        .prop_map(|(case, at, bytes, whole)| Stray { case, at, bytes, whole })
                        .boxed()
                },
                c04_stray,
            ),
        ],
        assumptions: vec![],
    }
}

// ------------------------------------------------------------------ C05

fn c05_roundtrip(env: &Env, c: &Prog) -> Check {
    let d = env.dir();
    let a = c.xp();
    d.write("P.8xp", a.bytes());
    must(&d.run(&["convert", "P.8xp", "-o", "T.txt"]), "convert 8xp to txt")?;
    must(&d.run(&["convert", "T.txt", "-o", "Q.8xp"]), "convert that txt to 8xp")?;
    let b = parse(&read(&d, "Q.8xp")?)?;
    ensure!(b.name == a.name, "name {} became {}", hex(&a.name), hex(&b.name));
    ensure!(b.ftype == a.ftype, "file type {:02X} became {:02X}", a.ftype, b.ftype);
    ensure!(b.dest == a.dest, "destination {:02X} became {:02X}", a.dest, b.dest);
    ensure!(b.sig == a.sig && b.extra == a.extra, "signature {} became {}", hex(&a.sig), hex(&b.sig));
    ensure!(b.product == a.product, "product byte {:02X} became {:02X}", a.product, b.product);
    let set = c.set();
    let text = c.text(Mode::Acc);
    let got = set.decode(&b.body, Mode::Acc).ok_or("the new body is not a token sequence")?;
    ensure!(got == text, "program text changed: {}", differ_text(&got, &text));
    let mut o = Obs::default();
    let own = encode(&text, set, Mode::Acc, Rule::SmartIdeal).ok().map(|t| bytes_of(&t));
    let own2 = encode(&text, set, Mode::Acc, Rule::SmartQuirk).ok().map(|t| bytes_of(&t));
    if own.as_deref() == Some(&a.body) && own2.as_deref() == Some(&a.body) {
        ensure!(b.body == a.body, "the body changed: {}", differ(&b.body, &a.body));
        o.label("body is its text's default encoding");
    }
    o.label_if(a.body.is_empty(), "empty body");
    o.label_if(a.body.last() == Some(&0x3F), "ends in a line break");
    o.label_if(c.comment.iter().any(|&b| b == b'\n' || b >= 0x80 || b == b'\r'), "odd comment");
    o.label(format!("model {}", c.model_row().name));
    Ok(o)
}

/// Programs whose tokens are what the default encoding gives: code without strings and without
/// letters that join to longer tokens.
fn canonical() -> BoxedStrategy<Prog> {
    let p = prop_oneof![
        4 => (0u16..809).prop_map(Pick::Any),
        3 => (0u16..640).prop_map(Pick::Two),
        2 => Just(Pick::Nl),
        2 => (0u8..10).prop_map(Pick::Digit),
        2 => (0u8..26).prop_map(Pick::Upper),
    ];
    prog_with(letters().prop_map(|s| s.into_bytes()).boxed(), any_comment(), prop::collection::vec(p, 0..8).boxed())
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        level: "exploration",
        subs: vec![
            generated("programs", "random programs with alphabetic names and any comment bytes; all count", 2500, 60000, alpha_prog, c05_roundtrip),
            generated("canonical", "short bodies that mostly are their text's default encoding; all count", 2000, 40000, canonical, c05_roundtrip),
        ],
        assumptions: vec!["sequences of tokens whose renditions read as another token sequence come back as that sequence, with the same text (inherent to the text format)"],
    }
}

// ------------------------------------------------------------------ C06

fn c06_wellformed(env: &Env, c: &EncCase) -> Check {
    let d = env.dir();
    d.write("P.txt", c.txt.file());
    let r = d.run(&["convert", "P.txt", "-o", "O.8xp", "-e", c.enc.name()]);
    must(&r, "convert txt to 8xp")?;
    let b = read(&d, "O.8xp")?;
    let x = parse(&b)?;
    let row = c.txt.row();
    ensure!(x.sig == row.sig.as_bytes(), "signature {:?}, want {:?}", String::from_utf8_lossy(&x.sig), row.sig);
    ensure!(x.extra == [0x1A, 0x0A], "bytes 8 and 9 are {}, want 1A 0A", hex(&x.extra));
    ensure!(x.product == row.product, "product byte {:02X}, want {:02X}", x.product, row.product);
    let zero = x.comment.iter().position(|&b| b == 0).unwrap_or(42);
    ensure!(x.comment[zero..].iter().all(|&b| b == 0), "the comment is not zero-padded: {}", hex(&x.comment));
    ensure!(x.comment[..zero].iter().all(|&b| (0x20..0x7F).contains(&b)), "odd comment bytes: {}", hex(&x.comment));
    ensure!(x.flag == 0x0D && x.unknown == 0, "metadata starts with {:02X} {:02X}, want 0D 00", x.flag, x.unknown);
    let ftype = FTYPES[c.txt.ftype as usize % 4].0;
    ensure!(x.ftype == ftype, "file type {:02X}, want {ftype:02X}", x.ftype);
    ensure!(x.name == pad(c.txt.name.as_bytes(), 8), "name field {}, want {:?} zero-padded", hex(&x.name), c.txt.name);
    ensure!(x.version == 0, "version {:02X}, want 00", x.version);
    let dest = if c.txt.archived { 0x80 } else { 0 };
    ensure!(x.dest == dest, "destination {:02X}, want {dest:02X}", x.dest);
    let set = c.txt.set();
    let got = set.decode(&x.body, c.txt.mode).ok_or_else(|| format!("the body {} is not a token sequence", hex(&x.body)))?;
    let want = c.txt.program_text().replace('\n', if c.txt.mode == Mode::Ti { "D6" } else { "\n" });
    ensure!(got == want, "the body holds another text: {}", differ_text(&got, &want));
    let mut o = Obs::default();
    o.label(format!("model {}", row.name));
    o.label(format!("name length {}", c.txt.name.len()));
    o.label(format!("type {ftype:02X}"));
    o.label(match x.body.len() {
        0 => "body empty",
        1..=255 => "body up to 255 bytes",
        256..=4095 => "body up to 4095 bytes",
        _ => "body larger",
    });
    let s: u64 = b[55..b.len() - 2].iter().map(|&x| x as u64).sum();
    o.label_if(s > 0xFFFF, "checksum wraps around");
    Ok(o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    case: EncCase,
    times: u16,
}
fn c06_big(env: &Env, c: &Big) -> Check {
    let mut e = c.case.clone();
    let unit = e.txt.frags.clone();
    let mut frags = Vec::new();
    for _ in 0..c.times {
        frags.extend(unit.iter().cloned());
        frags.push(Frag::Tok(Pick::Nl));
    }
    e.txt.frags = frags;
    if e.txt.program_text().len() > 30000 {
        // stays below the size limit whatever the encoding; C24 is about the limit
        e.txt.frags.truncate(3000);
    }
    c06_wellformed(env, &e)
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        level: "exploration",
        subs: vec![
            exhaustive(
                "headers",
                "every model x file type x destination x name length 1 to 8 (quick: alternating lengths); all count",
                |t| {
                    let mut v = Vec::new();
                    for model in 0..25u8 {
                        for ftype in 0..4u8 {
                            for archived in [false, true] {
                                for len in 1..=8usize {
                                    if !t.thorough && (len + model as usize + ftype as usize) % 4 != archived as usize {
                                        continue;
                                    }
                                    v.push(EncCase {
                                        txt: Txt {
                                            name: "ABCDEFGH"[..len].into(),
                                            comment: "c".into(),
                                            ftype,
                                            archived,
                                            mode: Mode::Acc,
                                            model,
                                            frags: vec![Frag::Tok(Pick::Upper(len as u8)); (model % 3) as usize],
                                            crlf: model % 4 == 1,
                                            times: 1,
                                        },
                                        enc: Enc::Smart,
                                        explicit: true,
                                    });
                                }
                            }
                        }
                    }
                    v
                },
                c06_wellformed,
            ),
            generated(
                "texts",
                "random encodable texts; all count",
                4500,
                90000,
                || (txt(), enc()).prop_map(|(txt, enc)| EncCase { txt, enc, explicit: true }).boxed(),
                |env, c| if encodable(c) { c06_wellformed(env, c) } else { Ok(Obs { trivial: true, ..Obs::default() }) },
            ),
            generated(
                "large",
                "texts repeated up to 250 times",
                150,
                3000,
                || ((txt(), enc()).prop_map(|(txt, enc)| EncCase { txt, enc, explicit: true }), 1u16..250).prop_map(|(case, times)| Big { case, times }).boxed(),
                |env, c| if encodable(&c.case) { c06_big(env, c) } else { Ok(Obs { trivial: true, ..Obs::default() }) },
            ),
        ],
        assumptions: vec![],
    }
}
/// Min mode can run into a dead end where the shortest token leaves text no token matches.
pub fn encodable(c: &EncCase) -> bool {
    let rules: &[Rule] = match c.enc {
        Enc::Max => &[Rule::Max],
        Enc::Min => &[Rule::Min],
        Enc::Smart => &[Rule::SmartIdeal, Rule::SmartQuirk],
    };
    let text = normalize(&c.txt.program_text());
    rules.iter().all(|&r| encode(&text, c.txt.set(), c.txt.mode, r).is_ok())
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HeaderCase {
    txt: Txt,
    enc: Enc,
}
fn c07_valid(env: &Env, c: &HeaderCase) -> Check {
    let d = env.dir();
    if !encodable(&EncCase { txt: c.txt.clone(), enc: c.enc, explicit: true }) {
        return Ok(Obs { trivial: true, ..Obs::default() });
    }
    d.write("P.txt", c.txt.file());
    must(&d.run(&["convert", "P.txt", "-o", "O.8xp", "-e", c.enc.name()]), "convert txt to 8xp")?;
    must(&d.run(&["convert", "P.txt", "-o", "O.json", "-e", c.enc.name()]), "convert txt to json")?;
    let x = parse(&read(&d, "O.8xp")?)?;
    let row = c.txt.row();
    ensure!(x.name == pad(c.txt.name.as_bytes(), 8), "name {}, want {:?}", hex(&x.name), c.txt.name);
    let f = FTYPES[c.txt.ftype as usize % 4];
    ensure!(x.ftype == f.0, "file type {:02X}, want {:02X}", x.ftype, f.0);
    ensure!(x.dest == if c.txt.archived { 0x80 } else { 0 }, "destination {:02X}", x.dest);
    ensure!(x.sig == row.sig.as_bytes() && x.product == row.product, "signature {} product {:02X} for model {}", hex(&x.sig), x.product, row.name);
    let rules: &[Rule] = match c.enc {
        Enc::Max => &[Rule::Max],
        Enc::Min => &[Rule::Min],
        Enc::Smart => &[Rule::SmartIdeal, Rule::SmartQuirk],
    };
    let text = normalize(&c.txt.program_text());
    let fits: Vec<_> = rules
        .iter()
        .map(|&r| same_renditions(&x.body, &encode(&text, c.txt.set(), c.txt.mode, r).unwrap(), c.txt.set(), c.txt.mode))
        .collect();
    if fits.iter().all(|f| f.is_err()) {
        return Err(format!("not encoded with the header's characters and model: {}", fits[0].clone().unwrap_err()));
    }
    let j: serde_json::Value = serde_json::from_slice(&read(&d, "O.json")?).map_err(|e| e.to_string())?;
    for (what, got, want) in [
        ("metadata.name", &j["metadata"]["name"], c.txt.name.as_str()),
        ("metadata.file_type", &j["metadata"]["file_type"], f.2),
        ("metadata.destination", &j["metadata"]["destination"], if c.txt.archived { "Archive" } else { "RAM" }),
        ("display_mode", &j["display_mode"], c.txt.mode.json()),
        ("model.model", &j["model"]["model"], row.name),
        ("model.signature", &j["model"]["signature"], row.sig),
        ("model.language", &j["model"]["language"], row.lang),
    ] {
        ensure!(got.as_str() == Some(want), "json {what} is {got}, want {want:?}");
    }
    ensure!(j["model"]["product_id"] == row.product, "json product_id {}", j["model"]["product_id"]);
    let mut o = Obs::default();
    o.label(format!("mode {}", c.txt.mode.name()));
    o.label(format!("model {}", row.name));
    o.label(format!("type {}", f.1));
    Ok(o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BrokenHeader {
    txt: Txt,
    /// which line is broken, 0 name, 2 type, 3 destination, 4 display mode; 6: cut after `cut` lines
    line: u8,
    value: String,
    cut: u8,
    out: u8,
}
fn c07_broken(env: &Env, c: &BrokenHeader) -> Check {
    let d = env.dir();
    let file = c.txt.file();
    let mut lines: Vec<String> = file.split('\n').map(String::from).collect();
    let mut o = Obs::default();
    let broken = match c.line {
        0 => c.value.len() > 8 || !c.value.chars().all(|ch| ch.is_ascii_alphabetic()),
        2 => !FTYPES.iter().any(|f| f.1 == c.value),
        3 => c.value != "RAM" && c.value != "Archive",
        4 => !MODES.contains(&c.value.as_str()),
        _ => true,
    };
    let content = if c.line >= 5 {
        let n = c.cut as usize % 6;
        let mut s = lines[..n].join("\n");
        if n > 0 && c.value.len() % 2 == 0 {
            s.push('\n');
        }
        o.label(format!("cut after {n} lines"));
        s
    } else {
        lines[c.line as usize] = c.value.clone();
        o.label(["name", "", "type", "destination", "display mode"][c.line as usize]);
        lines.join("\n")
    };
    // a line break or \r in the value would make another header of it
    if !broken || c.value.contains(['\n', '\r']) {
        return Ok(Obs { trivial: true, ..Obs::default() });
    }
    let out = ["O.8xp", "O.json", "O.txt", "O.83p"][c.out as usize % 4];
    d.write("P.txt", &content);
    let before = d.snapshot();
    let r = d.run(&["convert", "P.txt", "-o", out]);
    must_refuse(&r, &format!("header {:?}", content.chars().take(120).collect::<String>()))?;
    ensure!(d.snapshot() == before, "files changed although the header {:?} was refused", content.chars().take(120).collect::<String>());
    Ok(o)
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        level: "exploration",
        subs: vec![
            exhaustive(
                "combinations",
                "every type x destination x display mode x model with a short text; all count",
                |_| {
                    let mut v = Vec::new();
                    for model in 0..25u8 {
                        for ftype in 0..4u8 {
                            for archived in [false, true] {
                                for mode in 0..3u8 {
                                    v.push(HeaderCase {
                                        txt: Txt {
                                            name: "Ab".into(),
                                            comment: "x".into(),
                                            ftype,
                                            archived,
                                            mode: Mode::of(mode),
                                            model,
                                            frags: vec![Frag::Tok(Pick::Any(700 - model as u16 * 3)), Frag::Tok(Pick::Upper(ftype)), Frag::Tok(Pick::Upper(26))],
                                            crlf: false,
                                            times: 1,
                                        },
                                        enc: Enc::Smart,
                                    });
                                }
                            }
                        }
                    }
                    v
                },
                c07_valid,
            ),
            generated(
                "valid",
                "random text files with valid headers; non-trivial: encodable",
                1500,
                30000,
                || (txt(), enc()).prop_map(|(txt, enc)| HeaderCase { txt, enc }).boxed(),
                c07_valid,
            ),
            generated(
                "broken",
                "one header line replaced by an invalid value, or the file cut after 0 to 5 lines; non-trivial: the header is invalid",
                4000,
                60000,
                || {
                    let near = prop_oneof![
                        Just("program"), Just("Program "), Just(" Program"), Just("LockedProgram"), Just("Locked program"), Just("ram"), Just("RAM "), Just("ROM"), Just("archive"), Just("Archived"),
                        Just("Accessible"), Just("PRETTY"), Just("tiascii"), Just("TiAscii"), Just("ti "), Just("smart"), Just("Groups"), Just("Flash"), Just("Flash Application!"), Just(""), Just("5"), Just("latest"),
                        Just("Program"), Just("RAM"), Just("accessible"), Just("ABCDEFGHI"), Just("abcdefghi"), Just("A B"), Just("A1"), Just("1A"), Just("θ"), Just("é"), Just("AÉ"), Just("A-B"), Just("A_B"), Just("ABCDEFG "), Just("A\t"), Just("ÀÉÎÕÜ"), Just("\u{FEFF}A"), Just("A\u{0}"), Just("K\u{212A}")
                    ].prop_map(String::from);
                    let value = prop_oneof![
                        4 => near,
                        2 => prop::collection::vec(0x20u8..0x7F, 0..12).prop_map(|v| String::from_utf8(v).unwrap()),
                        2 => prop::collection::vec(any::<char>(), 0..10).prop_map(|v| v.into_iter().collect()),
                        1 => prop::collection::vec(0u8..26, 9..30).prop_map(|v| v.iter().map(|b| (b'A' + b) as char).collect()),
                    ];
                    (txt(), prop_oneof![4 => Just(0u8), 2 => Just(2u8), 2 => Just(3u8), 2 => Just(4u8), 2 => Just(6u8)], value, 0u8..6, 0u8..4)
                        .prop_map(|(txt, line, value, cut, out)| BrokenHeader { txt, line, value, cut, out })
                        .boxed()
                },
                c07_broken,
            ),
        ],
        assumptions: vec!["an unknown model line, which the code reads as latest, is not part of the property"],
    }
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chain {
    prog: Prog,
    /// each step: to json (true) or 8xp, and the display mode asked for
    steps: Vec<(bool, Mode)>,
    last: u8,
    last_mode: Mode,
}

fn c08_chain(env: &Env, c: &Chain) -> Check {
    let d = env.dir();
    let orig = c.prog.bytes();
    d.write("S0.8xp", &orig);
    let mut cur = "S0.8xp".to_string();
    let mut decoded_in: Option<Mode> = None; // display mode recorded in the current json
    for (i, (json, mode)) in c.steps.iter().enumerate() {
        let next = format!("S{}.{}", i + 1, if *json { "json" } else { "8xp" });
        must(&d.run(&["convert", &cur, "-o", &next, "-d", mode.name()]), &format!("convert {cur} to {next}"))?;
        if *json {
            // json input keeps the display mode it was made with
            decoded_in = decoded_in.or(Some(*mode));
        } else {
            decoded_in = None;
            let got = read(&d, &next)?;
            ensure!(got == orig, "{next} is not the original 8xp: {}", differ(&got, &orig));
        }
        cur = next;
    }
    let ext = ["txt", "json", "8xp"][c.last as usize % 3];
    let (out, direct) = (format!("OUT.{ext}"), format!("DIRECT.{ext}"));
    must(&d.run(&["convert", &cur, "-o", &out, "-d", c.last_mode.name()]), &format!("convert {cur} to {ext}"))?;
    let mode = decoded_in.unwrap_or(c.last_mode);
    must(&d.run(&["convert", "S0.8xp", "-o", &direct, "-d", mode.name()]), &format!("convert 8xp to {ext}"))?;
    let (a, b) = (read(&d, &out)?, read(&d, &direct)?);
    ensure!(a == b, "the chain's {ext} differs from the direct conversion: {}", if ext == "8xp" { differ(&a, &b) } else { differ_text(&String::from_utf8_lossy(&a), &String::from_utf8_lossy(&b)) });
    if ext == "8xp" {
        ensure!(b == orig, "8xp to 8xp changed the file: {}", differ(&b, &orig));
    }
    if ext == "json" {
        let j: serde_json::Value = serde_json::from_slice(&b).map_err(|e| e.to_string())?;
        ensure!(j["model"]["model"] == c.prog.model_row().name, "json names the model {}", j["model"]["model"]);
        ensure!(j["display_mode"] == mode.json(), "json names the display mode {}", j["display_mode"]);
    }
    if ext == "txt" {
        let h = txt_header(&String::from_utf8_lossy(&b));
        ensure!(h.get(4).map(|s| s.as_str()) == Some(mode.name()), "txt names the display mode {:?}", h.get(4));
        ensure!(h.get(5).map(|s| s.as_str()) == Some(c.prog.model_row().name), "txt names the model {:?}", h.get(5));
    }
    let mut o = Obs::default();
    o.trivial = c.steps.is_empty() && ext != "8xp";
    o.label(format!("chain of {}", c.steps.len() + 1));
    o.label_if(c.steps.windows(2).any(|w| w[0].0 && !w[1].0), "json back to 8xp");
    o.label_if(mode != Mode::Acc, "other than accessible");
    o.label(format!("ends in {ext}"));
    o.label(format!("model {}", c.prog.model_row().name));
    Ok(o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TxtChain {
    txt: Txt,
    enc: Enc,
    steps: Vec<bool>,
}
/// txt -> (txt | json)* -> 8xp equals txt -> 8xp.
fn c08_text(env: &Env, c: &TxtChain) -> Check {
    if !encodable(&EncCase { txt: c.txt.clone(), enc: c.enc, explicit: true }) {
        return Ok(Obs { trivial: true, ..Obs::default() });
    }
    let d = env.dir();
    d.write("S0.txt", c.txt.file());
    let e = c.enc.name();
    must(&d.run(&["convert", "S0.txt", "-o", "D.8xp", "-e", e]), "convert txt to 8xp")?;
    let want = read(&d, "D.8xp")?;
    let mut cur = "S0.txt".to_string();
    for (i, json) in c.steps.iter().enumerate() {
        let next = format!("S{}.{}", i + 1, if *json { "json" } else { "txt" });
        must(&d.run(&["convert", &cur, "-o", &next, "-e", e]), &format!("convert {cur} to {next}"))?;
        if !json {
            let t = read_txt(&d, &next)?;
            let (got, want) = (txt_body(&t), normalize(&c.txt.program_text()));
            ensure!(normalize(&got) == want, "{next} holds another text: {}", differ_text(&got, &want));
            let h = txt_header(&t);
            let w = txt_header(&c.txt.file());
            for l in [0, 2, 3, 4, 5] {
                ensure!(h.get(l) == w.get(l), "{next}: header line {} is {:?}, was {:?}", l + 1, h.get(l), w.get(l));
            }
        } else {
            let j: serde_json::Value = serde_json::from_slice(&read(&d, &next)?).map_err(|e| e.to_string())?;
            ensure!(j["model"]["model"] == c.txt.row().name, "{next} names the model {}", j["model"]["model"]);
            ensure!(j["display_mode"] == c.txt.mode.json(), "{next} names the display mode {}", j["display_mode"]);
        }
        cur = next;
    }
    must(&d.run(&["convert", &cur, "-o", "E.8xp", "-e", e]), &format!("convert {cur} to 8xp"))?;
    let got = read(&d, "E.8xp")?;
    ensure!(got == want, "the text does not encode to the same program any more: {}", differ(&got, &want));
    let mut o = Obs::default();
    o.trivial = c.steps.is_empty();
    o.label(format!("chain of {}", c.steps.len()));
    o.label_if(c.steps.contains(&false), "txt to txt or json to txt");
    o.label_if(c.txt.program_text().ends_with('\n'), "ends in empty lines");
    o.label(format!("mode {}", c.txt.mode.name()));
    Ok(o)
}

pub fn c08() -> Property {
    Property {
        id: "C08",
        level: "exploration",
        subs: vec![
            generated(
                "program-chains",
                "random programs through 0 to 4 conversions to 8xp or json in random display modes, then exported and compared with the direct export; non-trivial: at least one intermediate step or an 8xp copy",
                1300,
                30000,
                || {
                    (prog(), prop::collection::vec((any::<bool>(), all_modes()), 0..=4), 0u8..3, all_modes())
                        .prop_map(|(prog, steps, last, last_mode)| Chain { prog, steps, last, last_mode })
                        .boxed()
                },
                c08_chain,
            ),
            generated(
                "text-chains",
                "random texts re-saved as txt or json up to 4 times, then encoded and compared with encoding the original; non-trivial: at least one step",
                1300,
                30000,
                || (txt(), enc(), prop::collection::vec(any::<bool>(), 0..=4)).prop_map(|(txt, enc, steps)| TxtChain { txt, enc, steps }).boxed(),
                c08_text,
            ),
        ],
        assumptions: vec!["valid files: consistent lengths and checksum, signature 1A 0A, metadata flag 0D"],
    }
}
