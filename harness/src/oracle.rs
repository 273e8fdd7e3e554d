//! Reference model of the file formats, the token sheet and the encoders, written from the
//! documentation and independent of the code under test. The token sheet and the definitions are
//! pinned copies in /verif/oracle.

use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;

pub const MODES: [&str; 3] = ["accessible", "pretty", "ti"];
pub const MODE_JSON: [&str; 3] = ["Accessible", "Pretty", "TiAscii"];
pub const ENCODES: [&str; 3] = ["smart", "max", "min"];
pub const FTYPES: [(u8, &str, &str); 4] = [
    (0x05, "Program", "Program"),
    (0x06, "Locked Program", "LockedProgram"),
    (0x17, "Group", "Group"),
    (0x24, "Flash Application", "FlashApplication"),
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Mode {
    Acc,
    Pretty,
    Ti,
}
impl Mode {
    pub fn of(i: u8) -> Mode {
        [Mode::Acc, Mode::Pretty, Mode::Ti][i as usize % 3]
    }
    pub fn name(self) -> &'static str {
        MODES[self as usize]
    }
    pub fn json(self) -> &'static str {
        MODE_JSON[self as usize]
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Enc {
    Smart,
    Max,
    Min,
}
impl Enc {
    pub fn of(i: u8) -> Enc {
        [Enc::Smart, Enc::Max, Enc::Min][i as usize % 3]
    }
    pub fn name(self) -> &'static str {
        ENCODES[self as usize]
    }
}

pub struct ModelRow {
    pub name: &'static str,
    pub sig: &'static str,
    pub product: u8,
    pub lang: &'static str,
    pub order: u32,
}
const fn m(name: &'static str, sig: &'static str, product: u8, lang: &'static str, order: u32) -> ModelRow {
    ModelRow { name, sig, product, lang, order }
}
/// The 25 calculator models with the signature and product byte their files carry.
pub const MODELS: [ModelRow; 25] = [
    m("latest", "**TI83F*", 0x00, "en", u32::MAX),
    m("TI-82", "**TI82**", 0x00, "en", 10),
    m("TI-83", "**TI83**", 0x00, "en", 20),
    m("TI-82ST", "**TI83**", 0x00, "en", 20),
    m("TI-82ST.fr", "**TI83**", 0x00, "fr", 20),
    m("TI-76.fr", "**TI83**", 0x00, "fr", 20),
    m("TI-83+", "**TI83F*", 0x04, "en", 30),
    m("TI-83+SE", "**TI83F*", 0x04, "en", 30),
    m("TI-83+.fr", "**TI83F*", 0x04, "fr", 30),
    m("TI-82+", "**TI83F*", 0x04, "fr", 30),
    m("TI-84+", "**TI83F*", 0x0A, "en", 40),
    m("TI-84+SE", "**TI83F*", 0x0A, "en", 40),
    m("TI-83+.fr:USB", "**TI83F*", 0x0A, "fr", 40),
    m("TI-84P.fr", "**TI83F*", 0x0A, "fr", 40),
    m("TI-84+PSE", "**TI83F*", 0x0A, "en", 40),
    m("TI-82A", "**TI83F*", 0x0B, "fr", 45),
    m("TI-84+T", "**TI83F*", 0x1B, "en", 45),
    m("TI-84+CSE", "**TI83F*", 0x0F, "en", 50),
    m("TI-84+CE", "**TI83F*", 0x13, "en", 60),
    m("TI-84+CET", "**TI83F*", 0x13, "en", 60),
    m("TI-83PCE", "**TI83F*", 0x13, "fr", 60),
    m("TI-83PCEEP", "**TI83F*", 0x13, "fr", 60),
    m("TI-84+CEPY", "**TI83F*", 0x13, "en", 60),
    m("TI-84+CETPE", "**TI83F*", 0x13, "en", 60),
    m("TI-82AEP", "**TI83F*", 0x00, "fr", 60),
];
/// Indices in MODELS of the models that a program file is recognised as.
pub const FILE_MODELS: [usize; 9] = [0, 1, 2, 6, 10, 15, 16, 17, 18];

pub fn model_by_name(name: &str) -> Option<usize> {
    MODELS.iter().position(|m| m.name == name)
}

/// The model a program file is recognised as, from its product byte and signature.
pub fn recognise(product: u8, sig: &[u8]) -> Option<usize> {
    Some(match product {
        0x00 => match sig {
            b"**TI83F*" => 0,
            b"**TI83**" => 2,
            b"**TI82**" => 1,
            _ => return None,
        },
        0x04 => 6,
        0x0A => 10,
        0x0B => 15,
        0x0F => 17,
        0x13 => 18,
        0x1B => 16,
        _ => return None,
    })
}

// ---------------------------------------------------------------- token sheet

#[derive(Clone, Debug)]
pub struct Entry {
    pub since: (u32, Vec<u32>),
    pub until: Option<(u32, Vec<u32>)>,
    pub text: [String; 3],
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub key: Vec<u8>,
    pub text: [String; 3],
}

pub struct Set {
    pub order: u32,
    pub toks: Vec<Tok>,
    pub by_key: HashMap<Vec<u8>, usize>,
    by_char: [HashMap<char, Vec<usize>>; 3],
    /// tokens whose rendition begins with another token's rendition, per mode
    pub confusable: [Vec<usize>; 3],
}

pub struct World {
    pub sheet: BTreeMap<Vec<u8>, Vec<Entry>>,
    pub sets: Vec<Set>,
    pub defs: BTreeMap<String, Vec<(String, String)>>,
}

static WORLD: OnceLock<World> = OnceLock::new();
pub fn world() -> &'static World {
    WORLD.get_or_init(load)
}

fn order_of(model: &str) -> u32 {
    MODELS[model_by_name(model).unwrap_or_else(|| panic!("HARNESS: model {model} in sheet"))].order
}
fn version_of(v: &str) -> Vec<u32> {
    v.split('.').map(|p| p.parse().unwrap()).collect()
}
fn os(v: &Value) -> (u32, Vec<u32>) {
    (order_of(v["model"].as_str().unwrap()), version_of(v["os-version"].as_str().unwrap()))
}

fn load() -> World {
    let sheet_text = include_str!("../../oracle/8X.json");
    let raw: Value = serde_json::from_str(sheet_text).unwrap();
    let mut sheet = BTreeMap::new();
    let byte = |k: &str| u8::from_str_radix(k.trim_start_matches('$'), 16).unwrap();
    let entries = |v: &Value| -> Vec<Entry> {
        v.as_array()
            .unwrap()
            .iter()
            .map(|e| {
                let en = &e["langs"]["en"];
                let s = |k: &str| en[k].as_str().unwrap().to_string();
                Entry {
                    since: os(&e["since"]),
                    until: e.get("until").filter(|u| !u.is_null()).map(os),
                    text: [s("accessible"), s("display"), s("ti-ascii")],
                }
            })
            .collect()
    };
    for (k, v) in raw.as_object().unwrap() {
        if v.is_array() {
            sheet.insert(vec![byte(k)], entries(v));
        } else {
            for (k2, v2) in v.as_object().unwrap() {
                sheet.insert(vec![byte(k), byte(k2)], entries(v2));
            }
        }
    }
    let mut orders: Vec<u32> = MODELS.iter().map(|m| m.order).collect();
    orders.sort();
    orders.dedup();
    let sets = orders.iter().map(|&o| build_set(&sheet, o, None)).collect();
    let defs_raw: Value = serde_json::from_str(include_str!("../../oracle/token_definitions.json")).unwrap();
    let defs = defs_raw
        .as_object()
        .unwrap()
        .iter()
        .map(|(k, v)| {
            let l = v
                .as_array()
                .unwrap()
                .iter()
                .map(|d| (d["syntax"].as_str().unwrap().to_string(), d["description"].as_str().unwrap().to_string()))
                .collect();
            (k.clone(), l)
        })
        .collect();
    World { sheet, sets, defs }
}

/// The tokens of a model (its order) at an OS version (None: the latest one).
/// A token exists from its `since` to its `until`, both included; the later entry of a key wins.
pub fn build_set(sheet: &BTreeMap<Vec<u8>, Vec<Entry>>, order: u32, version: Option<&[u32]>) -> Set {
    let at_or_before = |t: &(u32, Vec<u32>)| match t.0.cmp(&order) {
        std::cmp::Ordering::Less => true,
        std::cmp::Ordering::Greater => false,
        std::cmp::Ordering::Equal => version.map_or(true, |v| t.1.as_slice() <= v),
    };
    let at_or_after = |t: &(u32, Vec<u32>)| match t.0.cmp(&order) {
        std::cmp::Ordering::Less => false,
        std::cmp::Ordering::Greater => true,
        std::cmp::Ordering::Equal => version.map_or(false, |v| t.1.as_slice() >= v),
    };
    let mut toks = Vec::new();
    for (key, entries) in sheet {
        if let Some(e) = entries
            .iter()
            .filter(|e| at_or_before(&e.since) && e.until.as_ref().map_or(true, |u| at_or_after(u)))
            .last()
        {
            toks.push(Tok { key: key.clone(), text: e.text.clone() });
        }
    }
    Set::new(order, toks)
}

impl Set {
    fn new(order: u32, toks: Vec<Tok>) -> Set {
        let by_key = toks.iter().enumerate().map(|(i, t)| (t.key.clone(), i)).collect();
        let mut by_char: [HashMap<char, Vec<usize>>; 3] = Default::default();
        for (i, t) in toks.iter().enumerate() {
            for m in 0..3 {
                by_char[m].entry(t.text[m].chars().next().unwrap()).or_default().push(i);
            }
        }
        let mut set = Set { order, toks, by_key, by_char, confusable: Default::default() };
        for m in 0..3 {
            let mode = Mode::of(m as u8);
            set.confusable[m] = (0..set.toks.len())
                .filter(|&i| set.shortest(&set.toks[i].text[m], mode) != set.longest(&set.toks[i].text[m], mode))
                .collect();
        }
        set
    }
    pub fn of_order(order: u32) -> &'static Set {
        world().sets.iter().find(|s| s.order == order).unwrap()
    }
    pub fn of_model(model: usize) -> &'static Set {
        Set::of_order(MODELS[model].order)
    }
    fn candidates<'a>(&'a self, s: &str, mode: Mode) -> impl Iterator<Item = usize> + 'a {
        let m = mode as usize;
        let s = s.to_string();
        s.chars()
            .next()
            .and_then(|c| self.by_char[m].get(&c))
            .map(|v| v.as_slice())
            .unwrap_or(&[])
            .iter()
            .copied()
            .filter(move |&i| s.starts_with(self.toks[i].text[m].as_str()))
            .collect::<Vec<_>>()
            .into_iter()
    }
    /// Longest rendition that starts `s`; among equally long ones the smallest key.
    pub fn longest(&self, s: &str, mode: Mode) -> Option<usize> {
        let m = mode as usize;
        // toks are sorted by key bytes; compare as the documented "$HH$HH" keys do
        self.candidates(head(s), mode).min_by_key(|&i| (usize::MAX - self.toks[i].text[m].len(), self.toks[i].key.clone()))
    }
    pub fn shortest(&self, s: &str, mode: Mode) -> Option<usize> {
        let m = mode as usize;
        self.candidates(head(s), mode).min_by_key(|&i| (self.toks[i].text[m].len(), self.toks[i].key.clone()))
    }
    /// The split of a line that takes, from left to right, the longest token after which the
    /// rest of the line still can be split; None if there is no split at all.
    pub fn split_text(&self, line: &str, mode: Mode) -> Option<Vec<&Tok>> {
        let m = mode as usize;
        let mut choice: Vec<Option<usize>> = vec![None; line.len()];
        let ok = |choice: &Vec<Option<usize>>, at: usize| at == line.len() || choice[at].is_some();
        for (at, _) in line.char_indices().rev() {
            choice[at] = self
                .candidates(head(&line[at..]), mode)
                .filter(|&i| ok(&choice, at + self.toks[i].text[m].len()))
                .min_by_key(|&i| (usize::MAX - self.toks[i].text[m].len(), self.toks[i].key.clone()));
        }
        let mut out = Vec::new();
        let mut at = 0;
        while at < line.len() {
            let t = &self.toks[choice[at]?];
            out.push(t);
            at += t.text[m].len();
        }
        Some(out)
    }
    pub fn get(&self, key: &[u8]) -> Option<&Tok> {
        self.by_key.get(key).map(|&i| &self.toks[i])
    }

    /// Splits a body into tokens: one byte if that is a token, otherwise two; None if it is not
    /// a token sequence.
    pub fn split<'a>(&'a self, body: &[u8]) -> Option<Vec<&'a Tok>> {
        let mut out = Vec::new();
        let mut i = 0;
        while i < body.len() {
            if let Some(t) = self.get(&body[i..i + 1]) {
                out.push(t);
                i += 1;
            } else if i + 1 < body.len() {
                out.push(self.get(&body[i..i + 2])?);
                i += 2;
            } else {
                return None;
            }
        }
        Some(out)
    }
    pub fn decode(&self, body: &[u8], mode: Mode) -> Option<String> {
        Some(self.split(body)?.iter().map(|t| t.text[mode as usize].as_str()).collect())
    }
}

/// No rendition is longer than this many bytes; matching only needs that much of the line.
fn head(s: &str) -> &str {
    let mut n = s.len().min(80);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    &s[..n]
}

pub fn normalize(s: &str) -> String {
    s.replace(['\u{0398}', '\u{03F4}', '\u{1DBF}'], "θ")
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rule {
    Max,
    Min,
    /// smart, with code after a closing quote split by longest match
    SmartIdeal,
    /// smart as it is pinned by the repository's own tests: every quote, closing ones too,
    /// starts shortest matching (known finding)
    SmartQuirk,
}

/// Encodes program text. Err: the text from the first position no token matches.
pub fn encode<'a>(text: &str, set: &'a Set, mode: Mode, rule: Rule) -> Result<Vec<&'a Tok>, String> {
    #[derive(PartialEq, Clone, Copy)]
    enum St {
        Long,
        Short,
        Name,
    }
    let is_name = |k: &[u8]| matches!(k, [0x30..=0x39] | [0x41..=0x5B]);
    let mi = mode as usize;
    let nl = set.get(&[0x3F]).unwrap();
    let mut out = Vec::new();
    for (n, line) in text.split('\n').enumerate() {
        if n > 0 {
            out.push(nl);
        }
        let mut rest = line;
        let mut st = St::Long;
        let mut open = false;
        let line_start = out.len();
        while !rest.is_empty() {
            let found = match rule {
                Rule::Max => set.longest(rest, mode),
                Rule::Min => set.shortest(rest, mode),
                _ => match st {
                    St::Long => set.longest(rest, mode),
                    St::Short => set.shortest(rest, mode),
                    St::Name => (0x30..=0x39u8)
                        .chain(0x41..=0x5B)
                        .filter_map(|b| set.by_key.get(&vec![b]).copied())
                        .find(|&i| rest.starts_with(set.toks[i].text[mi].as_str()))
                        .or_else(|| set.longest(rest, mode)),
                },
            };
            let Some(i) = found else {
                match set.split_text(line, mode) {
                    Some(v) if matches!(rule, Rule::SmartIdeal | Rule::SmartQuirk) => {
                        out.truncate(line_start);
                        out.extend(v);
                        break;
                    }
                    _ => return Err(rest.to_string()),
                }
            };
            let t = &set.toks[i];
            let k: &[u8] = &t.key;
            if st == St::Name && is_name(k) {
            } else if k == [0x5F] || k == [0xEB] {
                st = St::Name;
            } else if k == [0x2A] {
                open = !open;
                st = if rule == Rule::SmartQuirk || open { St::Short } else { St::Long };
            } else if k == [0x04] {
                open = false;
                st = St::Long;
            } else if st == St::Name || !t.text[mi].chars().all(|c| c.is_ascii_alphabetic()) {
                st = St::Long;
                if k == [0x3F] {
                    open = false;
                }
            }
            out.push(t);
            rest = &rest[t.text[mi].len()..];
        }
    }
    Ok(out)
}

pub fn bytes_of(toks: &[&Tok]) -> Vec<u8> {
    toks.iter().flat_map(|t| t.key.iter().copied()).collect()
}

// ---------------------------------------------------------------- containers

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Xp {
    pub sig: Vec<u8>,
    pub extra: Vec<u8>,
    pub product: u8,
    pub comment: Vec<u8>, // 42 bytes
    pub flag: u8,
    pub unknown: u8,
    pub ftype: u8,
    pub name: Vec<u8>, // 8 bytes
    pub version: u8,
    pub dest: u8,
    pub body: Vec<u8>,
}

pub fn le(n: usize) -> [u8; 2] {
    (n as u16).to_le_bytes()
}
pub fn sum(b: &[u8]) -> [u8; 2] {
    (b.iter().map(|&x| x as u64).sum::<u64>() as u16).to_le_bytes()
}
pub fn pad(b: &[u8], n: usize) -> Vec<u8> {
    let mut v = b.to_vec();
    v.resize(n, 0);
    v
}

impl Xp {
    pub fn bytes(&self) -> Vec<u8> {
        let mut h = self.sig.clone();
        h.extend(&self.extra);
        h.push(self.product);
        h.extend(&self.comment);
        h.extend(le(19 + self.body.len()));
        let mut d = vec![self.flag, self.unknown];
        d.extend(le(self.body.len() + 2));
        d.push(self.ftype);
        d.extend(&self.name);
        d.push(self.version);
        d.push(self.dest);
        d.extend(le(self.body.len() + 2));
        d.extend(le(self.body.len()));
        d.extend(&self.body);
        h.extend(&d);
        h.extend(sum(&d));
        h
    }
    /// The 82p/83p layout: 17 bytes of metadata, no version and destination.
    pub fn bytes83(&self) -> Vec<u8> {
        let mut h = self.sig.clone();
        h.extend(&self.extra);
        h.push(self.product);
        h.extend(&self.comment);
        h.extend(le(17 + self.body.len()));
        let mut d = vec![0x0B, 0x00];
        d.extend(le(self.body.len() + 2));
        d.push(self.ftype);
        d.extend(&self.name);
        d.extend(le(self.body.len() + 2));
        d.extend(le(self.body.len()));
        d.extend(&self.body);
        h.extend(&d);
        h.extend(sum(&d));
        h
    }
    /// Parses an 8xp file and checks everything about its layout.
    pub fn parse(b: &[u8]) -> Result<Xp, String> {
        if b.len() < 76 {
            return Err(format!("8xp file of {} bytes", b.len()));
        }
        let body = b[74..b.len() - 2].to_vec();
        let x = Xp {
            sig: b[0..8].to_vec(),
            extra: b[8..10].to_vec(),
            product: b[10],
            comment: b[11..53].to_vec(),
            flag: b[55],
            unknown: b[56],
            ftype: b[59],
            name: b[60..68].to_vec(),
            version: b[68],
            dest: b[69],
            body,
        };
        let n = x.body.len();
        for (what, at, want) in [
            ("header length", 53, n + 19),
            ("body length + 2", 57, n + 2),
            ("copy of body length + 2", 70, n + 2),
            ("body length", 72, n),
        ] {
            if want > 0xFFFF {
                return Err(format!("{what} {want} does not fit"));
            }
            if b[at..at + 2] != le(want) {
                return Err(format!("{what} is {:?}, want {want}", u16::from_le_bytes([b[at], b[at + 1]])));
            }
        }
        let want = sum(&b[55..b.len() - 2]);
        if b[b.len() - 2..] != want {
            return Err(format!("checksum {:02X?}, want {:02X?}", &b[b.len() - 2..], want));
        }
        Ok(x)
    }
    pub fn parse83(b: &[u8]) -> Result<Xp, String> {
        if b.len() < 74 {
            return Err(format!("82p/83p file of {} bytes", b.len()));
        }
        let body = b[72..b.len() - 2].to_vec();
        let n = body.len();
        for (what, at, want) in [
            ("header length", 53, n + 17),
            ("metadata flag", 55, 0x0B),
            ("body length + 2", 57, n + 2),
            ("copy of body length + 2", 68, n + 2),
            ("body length", 70, n),
        ] {
            if b[at..at + 2] != le(want) {
                return Err(format!("{what} is {:?}, want {want}", u16::from_le_bytes([b[at], b[at + 1]])));
            }
        }
        let want = sum(&b[55..b.len() - 2]);
        if b[b.len() - 2..] != want {
            return Err(format!("checksum {:02X?}, want {:02X?}", &b[b.len() - 2..], want));
        }
        Ok(Xp {
            sig: b[0..8].to_vec(),
            extra: b[8..10].to_vec(),
            product: b[10],
            comment: b[11..53].to_vec(),
            flag: 0x0D,
            unknown: 0,
            ftype: b[59],
            name: b[60..68].to_vec(),
            version: 0,
            dest: 0,
            body,
        })
    }
    pub fn model(&self) -> Option<usize> {
        recognise(self.product, &self.sig)
    }
    pub fn name_text(&self) -> String {
        self.name.iter().filter(|&&b| b != 0).map(|&b| b as char).collect()
    }
    pub fn comment_text(&self) -> String {
        comment_text(&self.comment)
    }
}

/// A comment is UTF-8, as the tool writes it; where it is not, every byte is a character.
pub fn comment_text(b: &[u8]) -> String {
    let v: Vec<u8> = b.iter().filter(|&&b| b != 0).copied().collect();
    String::from_utf8(v).unwrap_or_else(|e| e.as_bytes().iter().map(|&b| b as char).collect())
}

/// Program text of a text file: everything after its six header lines.
pub fn txt_body(file: &str) -> String {
    file.lines().skip(6).collect::<Vec<_>>().join("\n")
}
pub fn txt_header(file: &str) -> Vec<String> {
    file.lines().take(6).map(|s| s.to_string()).collect()
}
pub fn ftype_name(b: u8) -> &'static str {
    FTYPES.iter().find(|f| f.0 == b).map(|f| f.1).unwrap_or("?")
}
pub fn dest_name(b: u8) -> &'static str {
    if b == 0x80 {
        "Archive"
    } else {
        "RAM"
    }
}
