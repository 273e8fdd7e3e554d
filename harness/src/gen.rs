//! Generators: token picks resolved against a model's token set, programs, text files.

use crate::oracle::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// One token choice, resolved against the token set of the case's model.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pick {
    Digit(u8),
    Upper(u8),
    Lower(u8),
    Any(u16),
    Two(u16),
    /// a token whose rendition starts with another token's rendition
    Confuse(u16),
    Nl,
    Quote,
    Arrow,
    Space,
    Prgm,
    List,
}

const LOWER: [u8; 26] = [
    0xB0, 0xB1, 0xB2, 0xB3, 0xB4, 0xB5, 0xB6, 0xB7, 0xB8, 0xB9, 0xBA, 0xBC, 0xBD, 0xBE, 0xBF, 0xC0, 0xC1, 0xC2, 0xC3, 0xC4,
    0xC5, 0xC6, 0xC7, 0xC8, 0xC9, 0xCA,
];

impl Pick {
    pub fn resolve<'a>(&self, set: &'a Set) -> &'a Tok {
        let any = |i: u16| &set.toks[i as usize % set.toks.len()];
        match self {
            Pick::Digit(i) => set.get(&[0x30 + i % 10]).unwrap(),
            Pick::Upper(i) => set.get(&[0x41 + i % 27]).unwrap(),
            Pick::Lower(i) => set.get(&[0xBB, LOWER[*i as usize % 26]]).unwrap_or_else(|| any(*i as u16)),
            Pick::Any(i) => any(*i),
            Pick::Two(i) => {
                let n = set.toks.len();
                let from = set.toks.iter().position(|t| t.key.len() == 2).unwrap();
                (0..n).map(|j| &set.toks[(from + *i as usize + j) % n]).find(|t| t.key.len() == 2).unwrap()
            }
            Pick::Confuse(i) => {
                let l = &set.confusable[0];
                &set.toks[l[*i as usize % l.len()]]
            }
            Pick::Nl => set.get(&[0x3F]).unwrap(),
            Pick::Quote => set.get(&[0x2A]).unwrap(),
            Pick::Arrow => set.get(&[0x04]).unwrap(),
            Pick::Space => set.get(&[0x29]).unwrap(),
            Pick::Prgm => set.get(&[0x5F]).unwrap(),
            Pick::List => set.get(&[0xEB]).unwrap_or_else(|| any(0)),
        }
    }
}

pub fn resolve<'a>(picks: &[Pick], set: &'a Set) -> Vec<&'a Tok> {
    picks.iter().map(|p| p.resolve(set)).collect()
}

pub fn pick() -> BoxedStrategy<Pick> {
    prop_oneof![
        4 => (0u8..10).prop_map(Pick::Digit),
        4 => (0u8..27).prop_map(Pick::Upper),
        3 => (0u8..26).prop_map(Pick::Lower),
        6 => (0u16..809).prop_map(Pick::Any),
        3 => (0u16..640).prop_map(Pick::Two),
        4 => (0u16..700).prop_map(Pick::Confuse),
        3 => Just(Pick::Nl),
        2 => Just(Pick::Quote),
        1 => Just(Pick::Arrow),
        1 => Just(Pick::Space),
        1 => Just(Pick::Prgm),
        1 => Just(Pick::List),
    ]
    .boxed()
}

/// Mostly short bodies, some of a few hundred tokens.
pub fn body() -> BoxedStrategy<Vec<Pick>> {
    prop_oneof![
        1 => vec(pick(), 0..3),
        8 => vec(pick(), 0..40),
        1 => vec(pick(), 100..400),
        1 => (vec(pick(), 0..6), vec(Just(Pick::Nl), 1..4)).prop_map(|(mut a, b)| { a.extend(b); a }),
    ]
    .boxed()
}

pub fn letters() -> BoxedStrategy<String> {
    prop_oneof![
        6 => vec(prop_oneof![8 => 0u8..26, 2 => 26u8..52], 1..=8),
        1 => vec(0u8..26, 8..=8),
        1 => vec(0u8..26, 1..=1),
    ]
    .prop_map(|v| v.iter().map(|&i| if i < 26 { (b'A' + i) as char } else { (b'a' + i - 26) as char }).collect())
    .boxed()
}

/// A program file.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    /// index into FILE_MODELS
    pub model: u8,
    pub name: Vec<u8>,
    pub ftype: u8,
    pub archived: bool,
    pub version: u8,
    pub unknown: u8,
    pub comment: Vec<u8>,
    pub body: Vec<Pick>,
    /// the body is repeated this often (as long as that makes no program that is too large)
    #[serde(default = "once")]
    pub times: u16,
}
/// Text of this many characters encodes, in any mode, to a body that a file can hold.
const LARGE: usize = 30000;
pub const EXACT: u16 = 30000;
pub fn once() -> u16 {
    1
}
/// Mostly 1, sometimes large.
pub fn times() -> BoxedStrategy<u16> {
    prop_oneof![100 => Just(1u16), 2 => 2u16..40, 2 => 40u16..4000].boxed()
}
fn repeats(times: u16, len: usize) -> usize {
    // exact sizes near the limit, of bodies of one token
    if times > EXACT {
        return times as usize;
    }
    (times as usize).min(LARGE / len.max(1)).max(1)
}

impl Prog {
    pub fn model_index(&self) -> usize {
        FILE_MODELS[self.model as usize % FILE_MODELS.len()]
    }
    pub fn model_row(&self) -> &'static ModelRow {
        &MODELS[self.model_index()]
    }
    pub fn set(&self) -> &'static Set {
        Set::of_model(self.model_index())
    }
    pub fn toks(&self) -> Vec<&'static Tok> {
        let one = resolve(&self.body, self.set());
        let n = repeats(self.times, one.iter().map(|t| t.text[0].chars().count()).sum());
        one.repeat(n)
    }
    pub fn text(&self, mode: Mode) -> String {
        self.toks().iter().map(|t| t.text[mode as usize].as_str()).collect()
    }
    pub fn xp(&self) -> Xp {
        let row = self.model_row();
        Xp {
            sig: row.sig.as_bytes().to_vec(),
            extra: vec![0x1A, 0x0A],
            product: row.product,
            comment: pad(&self.comment, 42),
            flag: 0x0D,
            unknown: self.unknown,
            ftype: FTYPES[self.ftype as usize % 4].0,
            name: pad(&self.name, 8),
            version: self.version,
            dest: if self.archived { 0x80 } else { 0 },
            body: bytes_of(&self.toks()),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.xp().bytes()
    }
}

pub fn ascii_comment() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => Just(b"Created by TI Connect CE 6.0.0.85".to_vec()),
        1 => Just(vec![]),
        4 => vec(0x20u8..0x7F, 0..=42),
        1 => vec(0x20u8..0x7F, 42..=42),
    ]
    .boxed()
}
/// Text as the comment command writes it: UTF-8 of at most 42 bytes, here printable.
pub fn text_comment() -> BoxedStrategy<Vec<u8>> {
    let c = prop_oneof![3 => (0x20u8..0x7F).prop_map(char::from), 2 => prop::sample::select("éÉßÃ©ÿθΣ→ʟ√²文\u{1F600}".chars().collect::<Vec<_>>())];
    prop_oneof![
        3 => ascii_comment(),
        1 => vec(c, 1..=42).prop_map(|v| {
            let mut s = String::new();
            for c in v {
                if s.len() + c.len_utf8() <= 42 {
                    s.push(c);
                }
            }
            s.into_bytes()
        }),
    ]
    .boxed()
}
pub fn any_comment() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => text_comment(),
        2 => vec(any::<u8>(), 0..=42),
        1 => vec(prop_oneof![Just(b'\n'), Just(b'\r'), Just(0u8), Just(b'['), Just(0xE9u8), Just(b'A')], 0..=42),
    ]
    .boxed()
}
/// Names as the calculator allows them: a letter or theta, then letters, digits, theta.
pub fn calc_name() -> BoxedStrategy<Vec<u8>> {
    (0u8..27, vec(0u8..37, 0..8))
        .prop_map(|(a, v)| {
            let mut n = vec![b'A' + a];
            n.extend(v.iter().map(|&i| if i < 27 { b'A' + i } else { b'0' + i - 27 }));
            n
        })
        .boxed()
}
pub fn prog_with(name: BoxedStrategy<Vec<u8>>, comment: BoxedStrategy<Vec<u8>>, body: BoxedStrategy<Vec<Pick>>) -> BoxedStrategy<Prog> {
    (
        0u8..9,
        name,
        prop_oneof![6 => Just(0u8), 3 => Just(1u8), 1 => 2u8..4],
        any::<bool>(),
        prop_oneof![3 => Just(0u8), 1 => 0u8..6, 1 => any::<u8>()],
        prop_oneof![5 => Just(0u8), 1 => any::<u8>()],
        comment,
        (body, times()),
    )
        .prop_map(|(model, name, ftype, archived, version, unknown, comment, (body, times))| Prog {
            model,
            name,
            ftype,
            archived,
            version,
            unknown,
            comment,
            body,
            times,
        })
        .boxed()
}
pub fn prog() -> BoxedStrategy<Prog> {
    prog_with(prop_oneof![2 => letters().prop_map(|s| s.into_bytes()), 1 => calc_name()].boxed(), any_comment(), body())
}
pub fn alpha_prog() -> BoxedStrategy<Prog> {
    prog_with(letters().prop_map(|s| s.into_bytes()).boxed(), any_comment(), body())
}

/// A piece of program text.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Frag {
    Tok(Pick),
    /// the first characters of a rendition
    Cut(u16, u8),
    /// the rendition of a token the model lacks
    Foreign(u16),
    Raw(String),
}

pub fn frag_text(f: &Frag, set: &Set, mode: Mode) -> String {
    let m = mode as usize;
    match f {
        // a newline is written as a line break in every mode's text file
        Frag::Tok(Pick::Nl) => "\n".to_string(),
        Frag::Tok(p) => p.resolve(set).text[m].clone(),
        Frag::Cut(i, n) => {
            let l = &set.confusable[m];
            let t = &set.toks[l[*i as usize % l.len()]].text[m];
            let k = t.chars().count();
            t.chars().take(1 + *n as usize % k).collect()
        }
        Frag::Foreign(i) => {
            let all = Set::of_model(0);
            let missing: Vec<&Tok> = all.toks.iter().filter(|t| set.get(&t.key).is_none()).collect();
            if missing.is_empty() {
                String::new()
            } else {
                missing[*i as usize % missing.len()].text[m].clone()
            }
        }
        Frag::Raw(s) => s.clone(),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Txt {
    pub name: String,
    pub comment: String,
    pub ftype: u8,
    pub archived: bool,
    pub mode: Mode,
    pub model: u8,
    pub frags: Vec<Frag>,
    /// lines end in CR LF
    #[serde(default)]
    pub crlf: bool,
    /// the body is repeated this often (as long as that makes no program that is too large)
    #[serde(default = "once")]
    pub times: u16,
}

impl Txt {
    pub fn row(&self) -> &'static ModelRow {
        &MODELS[self.model as usize % 25]
    }
    pub fn set(&self) -> &'static Set {
        Set::of_model(self.model as usize % 25)
    }
    pub fn body(&self) -> String {
        let one: String = self.frags.iter().map(|f| frag_text(f, self.set(), self.mode)).collect();
        one.repeat(repeats(self.times, one.chars().count()))
    }
    pub fn header(&self) -> String {
        format!(
            "{}\n{}\n{}\n{}\n{}\n{}\n",
            self.name,
            self.comment,
            FTYPES[self.ftype as usize % 4].1,
            if self.archived { "Archive" } else { "RAM" },
            self.mode.name(),
            self.row().name
        )
    }
    pub fn file(&self) -> String {
        let file = format!("{}{}", self.header(), self.body());
        if self.crlf {
            file.replace("\r\n", "\n").replace('\n', "\r\n")
        } else {
            file
        }
    }
    /// The program text the file holds (its line breaks interpreted).
    pub fn program_text(&self) -> String {
        txt_body(&self.file())
    }
}

/// Program text that the model can encode: renditions of its tokens.
pub fn plain_frags() -> BoxedStrategy<Vec<Frag>> {
    prop_oneof![
        1 => vec(pick().prop_map(Frag::Tok), 0..4),
        8 => vec(pick().prop_map(Frag::Tok), 0..40),
        1 => vec(pick().prop_map(Frag::Tok), 80..300),
    ]
    .boxed()
}
/// Also cut renditions, tokens of other models and arbitrary characters.
pub fn wild_frags() -> BoxedStrategy<Vec<Frag>> {
    let raw = prop_oneof![
        4 => (0x20u8..0x7F).prop_map(|c| (c as char).to_string()),
        1 => prop_oneof![Just("θ"), Just("é"), Just("→"), Just("ʟ"), Just("\t"), Just("𝑛"), Just("Θ"), Just("ϴ"), Just("ᶿ"), Just("\u{301}"), Just("\u{1F600}")].prop_map(String::from),
        1 => Just("\r\n".to_string()),
        1 => Just("\r".to_string()),
    ];
    let frag = prop_oneof![
        30 => pick().prop_map(Frag::Tok),
        12 => (0u16..700, 0u8..12).prop_map(|(a, b)| Frag::Cut(a, b)),
        1 => (0u16..600).prop_map(Frag::Foreign),
        1 => raw.prop_map(Frag::Raw),
    ];
    prop_oneof![2 => plain_frags(), 3 => vec(frag, 0..16)].boxed()
}

pub fn txt_with(frags: BoxedStrategy<Vec<Frag>>, modes: BoxedStrategy<Mode>) -> BoxedStrategy<Txt> {
    (
        letters(),
        prop_oneof![3 => Just("Created by TI-Tools 0.2.0".to_string()), 1 => Just(String::new()), 2 => vec(0x20u8..0x7F, 0..50).prop_map(|v| String::from_utf8(v).unwrap())],
        prop_oneof![6 => Just(0u8), 3 => Just(1u8), 1 => 2u8..4],
        any::<bool>(),
        modes,
        prop_oneof![2 => Just(0u8), 5 => 0u8..25],
        frags,
        (prop_oneof![5 => Just(false), 1 => Just(true)], times()),
    )
        .prop_map(|(name, comment, ftype, archived, mode, model, frags, (crlf, times))| Txt { name, comment, ftype, archived, mode, model, frags, crlf, times })
        .boxed()
}
pub fn all_modes() -> BoxedStrategy<Mode> {
    prop_oneof![3 => Just(Mode::Acc), 2 => Just(Mode::Pretty), 1 => Just(Mode::Ti)].boxed()
}
pub fn enc() -> BoxedStrategy<Enc> {
    prop_oneof![Just(Enc::Smart), Just(Enc::Max), Just(Enc::Min)].boxed()
}
pub fn txt() -> BoxedStrategy<Txt> {
    txt_with(plain_frags(), all_modes())
}

/// Body sizes at which a length, a size or their sum with header and metadata passes a power of two.
pub fn edge_sizes() -> Vec<u16> {
    let mut v: Vec<u16> = [32768u32, 65536].iter().flat_map(|p| [0, 2, 17, 19, 53, 55, 57, 70, 72, 74, 76].into_iter().flat_map(move |k| [p - k - 1, p - k, p - k + 1])).filter(|n| *n <= 65516).map(|n| n as u16).collect();
    v.push(65516);
    v.sort();
    v.dedup();
    v
}
/// A program whose body is one letter, n times.
pub fn sized(n: u16) -> Prog {
    Prog { model: 0, name: b"LARGE".to_vec(), ftype: 0, archived: n % 2 == 0, version: 0, unknown: 0, comment: b"a comment".to_vec(), body: vec![Pick::Upper((n % 26) as u8)], times: n }
}
