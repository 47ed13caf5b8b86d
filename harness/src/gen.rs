//! C36: the table generator (unic-gen) as a black box. Source files are written here in the formats of the
//! Unicode Character Database, UTS #46 and UTS #51, from a model; the generated tables are read back by a
//! parser of Rust literals and must state the model again. The program runs as an unprivileged user in a
//! scratch directory, because it deletes directories.
use crate::ctx::{fnv, par, Ctx, Obs};
use crate::refdata as rd;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::os::unix::fs::{chown, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

// ---------- Rust literals ----------
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum V {
    Id(String),
    S(String),
    C(char),
    N(u64),
    T(Vec<V>),
    A(Vec<V>),
    Call(String, Vec<V>),
    St(String, Vec<(String, V)>),
    R(char, char),
}
fn id(s: &str) -> V {
    V::Id(s.into())
}
struct P<'a> {
    s: &'a [u8],
    t: &'a str,
    i: usize,
}
type R<T> = Result<T, String>;
impl<'a> P<'a> {
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && (self.s[self.i].is_ascii_whitespace() || self.s[self.i] == b'&') {
                self.i += 1;
            }
            if self.s[self.i..].starts_with(b"//") {
                while self.i < self.s.len() && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else if self.s[self.i..].starts_with(b"/*") {
                match self.t[self.i..].find("*/") {
                    Some(n) => self.i += n + 2,
                    None => self.i = self.s.len(),
                }
            } else {
                return;
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let a = self.i.saturating_sub(40);
        let near: String = String::from_utf8_lossy(&self.s[a..(self.i + 40).min(self.s.len())]).into();
        Err(format!("{} at byte {} near {:?}", m, self.i, near))
    }
    fn eat(&mut self, c: u8) -> R<()> {
        if self.peek() == c {
            self.i += 1;
            Ok(())
        } else {
            self.err(&format!("expected {:?}", c as char))
        }
    }
    fn ident(&mut self) -> R<String> {
        self.ws();
        let a = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
            self.i += 1;
        }
        if a == self.i || self.s[a].is_ascii_digit() {
            return self.err("expected an identifier");
        }
        Ok(self.t[a..self.i].into())
    }
    fn ch(&mut self, quote: char) -> R<Option<char>> {
        let c = match self.t[self.i..].chars().next() {
            None => return self.err("unterminated literal"),
            Some(c) => c,
        };
        self.i += c.len_utf8();
        if c == quote {
            return Ok(None);
        }
        if c != '\\' {
            return Ok(Some(c));
        }
        let e = *self.s.get(self.i).unwrap_or(&0);
        self.i += 1;
        Ok(Some(match e {
            b'n' => '\n',
            b'r' => '\r',
            b't' => '\t',
            b'0' => '\0',
            b'\\' => '\\',
            b'\'' => '\'',
            b'"' => '"',
            b'x' => {
                let v = self.t.get(self.i..self.i + 2).and_then(|h| u32::from_str_radix(h, 16).ok());
                self.i += 2;
                match v {
                    Some(v) if v < 128 => char::from_u32(v).unwrap(),
                    _ => return self.err("bad \\x escape"),
                }
            }
            b'u' => {
                let end = match self.t[self.i..].find('}') {
                    Some(n) if self.s.get(self.i) == Some(&b'{') => self.i + n,
                    _ => return self.err("bad \\u escape"),
                };
                let v = u32::from_str_radix(&self.t[self.i + 1..end], 16).ok().and_then(char::from_u32);
                self.i = end + 1;
                match v {
                    Some(v) => v,
                    None => return self.err("bad \\u escape"),
                }
            }
            _ => return self.err("bad escape"),
        }))
    }
    fn list(&mut self, close: u8) -> R<Vec<V>> {
        let mut v = vec![];
        loop {
            if self.peek() == close {
                self.i += 1;
                return Ok(v);
            }
            v.push(self.expr()?);
            match self.peek() {
                b',' => self.i += 1,
                c if c == close => {}
                _ => return self.err("expected , or the end of a list"),
            }
        }
    }
    fn expr(&mut self) -> R<V> {
        let a = self.prim()?;
        self.ws();
        if self.s[self.i..].starts_with(b"..") {
            self.i += 2;
            let incl = self.s.get(self.i) == Some(&b'=');
            if incl {
                self.i += 1;
            }
            return match (a, self.prim()?) {
                (V::C(a), V::C(b)) => {
                    if incl {
                        Ok(V::R(a, b))
                    } else if b > a {
                        Ok(V::R(a, if b == '\u{e000}' { '\u{d7ff}' } else { char::from_u32(b as u32 - 1).unwrap() }))
                    } else {
                        self.err("empty range")
                    }
                }
                _ => self.err("not a character range"),
            };
        }
        Ok(a)
    }
    fn prim(&mut self) -> R<V> {
        match self.peek() {
            b'"' => {
                self.i += 1;
                let mut s = String::new();
                while let Some(c) = self.ch('"')? {
                    s.push(c);
                }
                Ok(V::S(s))
            }
            b'\'' => {
                self.i += 1;
                match self.ch('\'')? {
                    Some(c) if self.s.get(self.i) == Some(&b'\'') => {
                        self.i += 1;
                        Ok(V::C(c))
                    }
                    _ => self.err("bad character literal"),
                }
            }
            b'[' => {
                self.i += 1;
                Ok(V::A(self.list(b']')?))
            }
            b'(' => {
                self.i += 1;
                Ok(V::T(self.list(b')')?))
            }
            c if c.is_ascii_digit() => {
                let a = self.i;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
                    self.i += 1;
                }
                let t = self.t[a..self.i].replace('_', "");
                let t = t.trim_end_matches("u8").trim_end_matches("u16").trim_end_matches("u32");
                let v = match t.strip_prefix("0x") {
                    Some(h) => u64::from_str_radix(h, 16),
                    None => t.parse(),
                };
                v.map(V::N).or_else(|_| self.err("bad number"))
            }
            _ => {
                let mut n = self.ident()?;
                while self.s[self.i..].starts_with(b"::") {
                    self.i += 2;
                    n = self.ident()?;
                }
                if self.s.get(self.i) == Some(&b'!') {
                    self.i += 1;
                }
                match self.peek() {
                    b'(' => {
                        self.i += 1;
                        Ok(V::Call(n, self.list(b')')?))
                    }
                    b'{' => {
                        self.i += 1;
                        let mut f = vec![];
                        loop {
                            if self.peek() == b'}' {
                                self.i += 1;
                                break;
                            }
                            let k = self.ident()?;
                            self.eat(b':')?;
                            f.push((k, self.expr()?));
                            if self.peek() == b',' {
                                self.i += 1;
                            }
                        }
                        Ok(V::St(n, f))
                    }
                    _ => Ok(V::Id(n)),
                }
            }
        }
    }
}
fn parse(t: &str) -> R<V> {
    let mut p = P { s: t.as_bytes(), t, i: 0 };
    let v = p.expr()?;
    if p.peek() != 0 {
        return p.err("text after the value");
    }
    Ok(v)
}
type Row = (u32, u32, V);
/// Rows of a table in file order.
fn rows(v: V) -> R<Vec<Row>> {
    let (kind, list) = match v {
        V::Call(k, mut a) if a.len() == 1 => match a.pop() {
            Some(V::A(l)) => (k, l),
            _ => return Err("not a table".into()),
        },
        _ => return Err("not a table".into()),
    };
    let mut out = Vec::with_capacity(list.len());
    for r in list {
        let V::T(mut r) = r else { return Err("a row is not a tuple".into()) };
        if r.len() != 2 {
            return Err("a row is not a pair".into());
        }
        let val = r.pop().unwrap();
        let (a, b) = match (kind.as_str(), r.pop().unwrap()) {
            ("Direct", V::C(c)) => (c, c),
            ("Range", V::Call(m, mut a)) if m == "chars" && a.len() == 1 => match a.pop().unwrap() {
                V::R(a, b) => (a, b),
                _ => return Err("a key is not a range".into()),
            },
            (_, k) => return Err(format!("a key of a {} table is {:?}", kind, k)),
        };
        out.push((a as u32, b as u32, val));
    }
    Ok(out)
}
/// Sorted, without surrogates, adjacent rows with one value merged.
fn norm(mut r: Vec<Row>) -> Vec<Row> {
    r.sort_by_key(|x| x.0);
    let mut o: Vec<Row> = vec![];
    let mut put = |lo: u32, hi: u32, v: V| {
        if lo > hi {
            return;
        }
        if let Some(l) = o.last_mut() {
            if (l.1 + 1 == lo || (l.1 == 0xD7FF && lo == 0xE000)) && l.2 == v {
                l.1 = hi;
                return;
            }
        }
        o.push((lo, hi, v));
    };
    for (lo, hi, v) in r {
        if hi < 0xD800 || lo > 0xDFFF {
            put(lo, hi, v);
        } else {
            put(lo, hi.min(0xD7FF), v.clone());
            if hi > 0xDFFF {
                put(lo.max(0xE000), hi, v);
            }
        }
    }
    o
}
/// First code point on which two normalised tables differ.
fn diff<'a>(a: &'a [Row], b: &'a [Row]) -> Option<(u32, Option<&'a V>, Option<&'a V>)> {
    let find = |t: &'a [Row], c: u32| t.iter().find(|r| r.0 <= c && c <= r.1).map(|r| &r.2);
    let mut cand: Vec<u32> = vec![];
    for (x, y) in a.iter().zip(b) {
        if x != y {
            cand.extend([x.0, y.0, x.1, y.1, x.1 + 1, y.1 + 1]);
            break;
        }
    }
    if a.len() != b.len() {
        let n = a.len().min(b.len());
        let l = if a.len() > n { &a[n] } else { &b[n] };
        cand.push(l.0);
    }
    cand.sort();
    for c in cand {
        let (x, y) = (find(a, c), find(b, c));
        if x != y {
            return Some((c, x, y));
        }
    }
    if a == b {
        None
    } else {
        Some((0x110000, None, None))
    }
}

// ---------- the model ----------
#[derive(Clone, Default)]
struct Ud {
    lo: u32,
    hi: u32,
    name: String,
    gc: String,
    ccc: u8,
    bc: String,
    tag: Option<String>,
    dm: Vec<char>,
    num: [String; 3],
    mirrored: bool,
    u1: String,
    cases: [Option<u32>; 3],
}
type Set = Vec<(u32, u32)>;
type Map = Vec<(u32, u32, String)>;
struct Line {
    cps: Vec<u32>,
    names: Vec<String>,
    props: Vec<String>,
    brk: Vec<(bool, String)>,
}
#[derive(Default)]
struct Uni {
    ver: [u32; 3],
    emoji_ver: [u32; 2],
    ud: Vec<Ud>,
    pl: BTreeMap<&'static str, Set>,
    dcp: BTreeMap<&'static str, Set>,
    emoji: BTreeMap<&'static str, Set>,
    age: Map,
    blocks: Map,
    gcb: Map,
    wb: Map,
    sb: Map,
    jamo: Vec<(u32, String)>,
    alias: Vec<(u32, usize, String)>,
    excl: Set,
    idna: Vec<(u32, u32, usize, Option<Vec<char>>, bool)>,
    nt: Vec<[Vec<char>; 5]>,
    gt: Vec<Line>,
    wt: Vec<Line>,
}
const PL: [&str; 33] = [
    "White_Space", "Bidi_Control", "Join_Control", "Dash", "Hyphen", "Quotation_Mark", "Terminal_Punctuation", "Other_Math", "Hex_Digit", "ASCII_Hex_Digit", "Other_Alphabetic", "Ideographic", "Diacritic", "Extender",
    "Other_Lowercase", "Other_Uppercase", "Noncharacter_Code_Point", "Other_Grapheme_Extend", "IDS_Binary_Operator", "IDS_Trinary_Operator", "Radical", "Unified_Ideograph", "Other_Default_Ignorable_Code_Point", "Deprecated",
    "Soft_Dotted", "Logical_Order_Exception", "Other_ID_Start", "Other_ID_Continue", "Variation_Selector", "Pattern_White_Space", "Pattern_Syntax", "Prepended_Concatenation_Mark", "Regional_Indicator",
];
const DCP: [&str; 19] = [
    "Math", "Alphabetic", "Lowercase", "Uppercase", "Cased", "Case_Ignorable", "Changes_When_Lowercased", "Changes_When_Uppercased", "Changes_When_Titlecased", "Changes_When_Casefolded", "Changes_When_Casemapped", "ID_Start",
    "ID_Continue", "XID_Start", "XID_Continue", "Default_Ignorable_Code_Point", "Grapheme_Extend", "Grapheme_Base", "Grapheme_Link",
];
const EMOJI: [&str; 5] = ["Emoji", "Emoji_Presentation", "Emoji_Modifier", "Emoji_Modifier_Base", "Emoji_Component"];
const ALIAS: [(&str, &str, &str); 5] = [
    ("correction", "NameCorrections", "corrections"),
    ("control", "ControlCodeNames", "controls"),
    ("alternate", "AlternateNames", "alternates"),
    ("figment", "Figments", "figments"),
    ("abbreviation", "NameAbbreviations", "abbreviations"),
];
const IDNA: [(&str, &str); 7] = [
    ("valid", "Valid"),
    ("ignored", "Ignored"),
    ("mapped", "Mapped"),
    ("deviation", "Deviation"),
    ("disallowed", "Disallowed"),
    ("disallowed_STD3_valid", "DisallowedStd3Valid"),
    ("disallowed_STD3_mapped", "DisallowedStd3Mapped"),
];
/// Default Bidi_Class values of unlisted code points (DerivedBidiClass.txt of Unicode 10.0.0).
const BC_DEFAULT: [(u32, u32, &str); 18] = [
    (0x0590, 0x05FF, "R"),
    (0x0600, 0x07BF, "AL"),
    (0x07C0, 0x085F, "R"),
    (0x0860, 0x086F, "AL"),
    (0x0870, 0x089F, "R"),
    (0x08A0, 0x08FF, "AL"),
    (0x2065, 0x2065, "BN"),
    (0x20A0, 0x20CF, "ET"),
    (0xFB1D, 0xFB4F, "R"),
    (0xFB50, 0xFDCF, "AL"),
    (0xFDF0, 0xFDFF, "AL"),
    (0xFE70, 0xFEFF, "AL"),
    (0xFFF0, 0xFFF8, "BN"),
    (0x10800, 0x10FFF, "R"),
    (0x1E800, 0x1EDFF, "R"),
    (0x1EE00, 0x1EEFF, "AL"),
    (0x1EF00, 0x1EFFF, "R"),
    (0xE0000, 0xE0FFF, "BN"),
];
const UCD_DIRS: [&str; 13] = ["age", "bidi", "block", "case", "category", "common", "version", "hangul", "ident", "name", "name_aliases", "normal", "segment"];
enum W {
    Table(Vec<Row>),
    Val(V),
}

fn cp(c: u32) -> char {
    char::from_u32(c).unwrap()
}
fn ver(v: &[u32; 3]) -> V {
    V::St("UnicodeVersion".into(), vec![("major".into(), V::N(v[0] as u64)), ("minor".into(), V::N(v[1] as u64)), ("micro".into(), V::N(v[2] as u64))])
}
fn unit() -> V {
    V::T(vec![])
}
fn set_t(s: &Set) -> W {
    // as a set: overlapping lines are one
    let mut s = s.clone();
    s.sort();
    let mut o: Set = vec![];
    for (a, b) in s {
        match o.last_mut() {
            Some(l) if a <= l.1 + 1 => l.1 = l.1.max(b),
            _ => o.push((a, b)),
        }
    }
    W::Table(norm(o.into_iter().map(|(a, b)| (a, b, unit())).collect()))
}
fn map_t(m: &Map, f: impl Fn(&str) -> V) -> W {
    W::Table(norm(m.iter().map(|(a, b, v)| (*a, *b, f(v))).collect()))
}
fn chars_v(c: &[char]) -> V {
    V::A(c.iter().map(|c| V::C(*c)).collect())
}
fn clusters(l: &Line, extra: bool) -> Vec<V> {
    let mut o = vec![];
    let mut cur = String::new();
    for (i, c) in l.cps.iter().enumerate() {
        if i > 0 && (l.brk[i - 1].0 || (extra && (l.brk[i - 1].1 == "9.1" || l.brk[i - 1].1 == "9.2"))) {
            o.push(V::S(std::mem::take(&mut cur)));
        }
        cur.push(cp(*c));
    }
    o.push(V::S(cur));
    o
}
impl Uni {
    fn ud_rows(&self, f: impl Fn(&Ud) -> Option<V>) -> W {
        W::Table(norm(self.ud.iter().filter_map(|u| f(u).map(|v| (u.lo, u.hi, v))).collect()))
    }
    /// What every generated file has to state, by component.
    fn want(&self, comp: &str) -> BTreeMap<String, W> {
        let mut w: BTreeMap<String, W> = BTreeMap::new();
        let none: Set = vec![];
        match comp {
            "ucd" => {
                for d in UCD_DIRS {
                    w.insert(format!("unic/ucd/{}/tables/unicode_version.rsv", d), W::Val(ver(&self.ver)));
                }
                let mut p = |d: &str, f: &str, x: W| {
                    w.insert(format!("unic/ucd/{}/tables/{}.rsv", d, f), x);
                };
                p("age", "age_values", map_t(&self.age, |s| {
                    let mut n = s.split('.').map(|x| x.parse().unwrap());
                    ver(&[n.next().unwrap(), n.next().unwrap(), n.next().unwrap_or(0)])
                }));
                let mut bc: Vec<Row> = self.ud.iter().map(|u| (u.lo, u.hi, id(&u.bc))).collect();
                let mut have: Vec<(u32, u32)> = self.ud.iter().map(|u| (u.lo, u.hi)).collect();
                have.sort();
                for (a, b, v) in BC_DEFAULT {
                    let mut at = a;
                    for &(lo, hi) in have.iter().filter(|x| x.1 >= a && x.0 <= b) {
                        if lo > at {
                            bc.push((at, lo - 1, id(v)));
                        }
                        at = hi + 1;
                    }
                    if at <= b {
                        bc.push((at, b, id(v)));
                    }
                }
                p("bidi", "bidi_class", W::Table(norm(bc)));
                p("bidi", "bidi_mirrored", self.ud_rows(|u| if u.mirrored { Some(unit()) } else { None }));
                p("bidi", "bidi_control", set_t(self.pl.get("Bidi_Control").unwrap_or(&none)));
                p("block", "blocks", map_t(&self.blocks, |s| V::S(s.into())));
                let d = |n: &str| set_t(self.dcp.get(n).unwrap_or(&none));
                for (f, n) in [
                    ("lowercase", "Lowercase"),
                    ("uppercase", "Uppercase"),
                    ("cased", "Cased"),
                    ("case_ignorable", "Case_Ignorable"),
                    ("changes_when_lowercased", "Changes_When_Lowercased"),
                    ("changes_when_uppercased", "Changes_When_Uppercased"),
                    ("changes_when_titlecased", "Changes_When_Titlecased"),
                    ("changes_when_casefolded", "Changes_When_Casefolded"),
                    ("changes_when_casemapped", "Changes_When_Casemapped"),
                ] {
                    p("case", f, d(n));
                }
                for (f, n) in [("id_start", "ID_Start"), ("id_continue", "ID_Continue"), ("xid_start", "XID_Start"), ("xid_continue", "XID_Continue")] {
                    p("ident", f, d(n));
                }
                p("ident", "pattern_syntax", set_t(self.pl.get("Pattern_Syntax").unwrap_or(&none)));
                p("ident", "pattern_white_space", set_t(self.pl.get("Pattern_White_Space").unwrap_or(&none)));
                p("category", "general_category", self.ud_rows(|u| Some(id(&u.gc))));
                let num: Set = self.ud.iter().filter(|u| ["Nd", "Nl", "No"].contains(&u.gc.as_str())).map(|u| (u.lo, u.hi)).collect();
                let mut an = num.clone();
                an.extend(self.dcp.get("Alphabetic").unwrap_or(&none));
                p("common", "alphabetic", d("Alphabetic"));
                p("common", "numeric", set_t(&num));
                p("common", "alphanumeric", set_t(&an));
                p("common", "control", self.ud_rows(|u| if u.gc == "Cc" { Some(unit()) } else { None }));
                p("common", "white_space", set_t(self.pl.get("White_Space").unwrap_or(&none)));
                p("name", "name_map", self.ud_rows(|u| if u.lo != u.hi || u.name.starts_with('<') { None } else { Some(V::A(u.name.split(' ').map(|x| V::S(x.into())).collect())) }));
                p("name", "jamo", W::Table(norm(self.jamo.iter().map(|(c, s)| (*c, *c, V::S(s.clone()))).collect())));
                let mut types: BTreeMap<u32, Vec<V>> = BTreeMap::new();
                let mut per: Vec<BTreeMap<u32, Vec<V>>> = vec![BTreeMap::new(); 5];
                for (c, t, s) in &self.alias {
                    let e = types.entry(*c).or_default();
                    let v = id(ALIAS[*t].1);
                    if !e.contains(&v) {
                        e.push(v);
                    }
                    let e = per[*t].entry(*c).or_default();
                    let v = V::S(s.clone());
                    if !e.contains(&v) {
                        e.push(v);
                    }
                }
                let t = |m: &BTreeMap<u32, Vec<V>>| W::Table(norm(m.iter().map(|(c, v)| (*c, *c, V::A(v.clone()))).collect()));
                p("name_aliases", "name_alias_types", t(&types));
                for (i, a) in ALIAS.iter().enumerate() {
                    p("name_aliases", a.2, t(&per[i]));
                }
                p("normal", "general_category_mark", self.ud_rows(|u| if u.gc.starts_with('M') { Some(unit()) } else { None }));
                p("normal", "canonical_combining_class_values", self.ud_rows(|u| if u.ccc == 0 { None } else { Some(V::Call("CanonicalCombiningClass".into(), vec![V::N(u.ccc as u64)])) }));
                p("normal", "canonical_decomposition_mapping", self.ud_rows(|u| if u.tag.is_none() && !u.dm.is_empty() { Some(chars_v(&u.dm)) } else { None }));
                p("normal", "compatibility_decomposition_mapping", self.ud_rows(|u| {
                    u.tag.as_ref().map(|t| {
                        let l = t.to_ascii_lowercase();
                        V::T(vec![id(&format!("{}{}", l[..1].to_ascii_uppercase(), &l[1..])), chars_v(&u.dm)])
                    })
                }));
                let mut co: BTreeMap<char, BTreeMap<char, u32>> = BTreeMap::new();
                for u in &self.ud {
                    if u.tag.is_none() && u.dm.len() == 2 && !self.excl.iter().any(|e| e.0 <= u.lo && u.lo <= e.1) {
                        co.entry(u.dm[0]).or_default().insert(u.dm[1], u.lo);
                    }
                }
                p("normal", "canonical_composition_mapping", W::Table(norm(co
                    .into_iter()
                    .map(|(l, m)| (l as u32, l as u32, V::Call("Direct".into(), vec![V::A(m.into_iter().map(|(f, c)| V::T(vec![V::C(f), V::C(cp(c))])).collect())])))
                    .collect())));
                p("segment", "grapheme_cluster_break", map_t(&self.gcb, id));
                p("segment", "word_break", map_t(&self.wb, id));
                p("segment", "sentence_break", map_t(&self.sb, id));
                for (f, ls) in [("grapheme_cluster_break", &self.gt), ("word_break", &self.wt)] {
                    let mut m: BTreeMap<u32, V> = BTreeMap::new();
                    for l in ls.iter().filter(|l| l.cps.iter().all(|c| char::from_u32(*c).is_some())) {
                        for (c, x) in l.cps.iter().zip(&l.props) {
                            m.insert(*c, id(x));
                        }
                    }
                    w.insert(format!("unic/ucd/segment/tests/tables/{}_test_data.rsv", f), W::Table(norm(m.into_iter().map(|(c, v)| (c, c, v)).collect())));
                }
            }
            "segment" => {
                for (f, ls, g) in [("grapheme_cluster_break", &self.gt, true), ("word_break", &self.wt, false)] {
                    let v = ls
                        .iter()
                        .filter(|l| l.cps.iter().all(|c| char::from_u32(*c).is_some()))
                        .map(|l| {
                            let mut t = vec![V::S(l.cps.iter().map(|c| cp(*c)).collect()), V::A(clusters(l, false))];
                            if g {
                                t.push(if l.brk.iter().any(|b| b.1 == "9.1" || b.1 == "9.2") { V::Call("Some".into(), vec![V::A(clusters(l, true))]) } else { id("None") });
                            }
                            V::T(t)
                        })
                        .collect();
                    w.insert(format!("unic/segment/tests/tables/{}_test_data.rsv", f), W::Val(V::A(v)));
                }
            }
            "normal" => {
                let v = self.nt.iter().map(|t| V::T(t.iter().map(|x| V::S(x.iter().collect())).collect())).collect();
                w.insert("unic/normal/tests/tables/conformance_tests_data.rsv".into(), W::Val(V::A(v)));
            }
            "idna" => {
                w.insert("unic/idna/mapping/tables/unicode_version.rsv".into(), W::Val(ver(&self.ver)));
                let r = self
                    .idna
                    .iter()
                    .map(|(a, b, s, m, _)| {
                        let n = IDNA[*s].1;
                        let v = if matches!(*s, 2 | 3 | 6) { V::Call(n.into(), vec![V::S(m.iter().flatten().collect())]) } else { id(n) };
                        (*a, *b, v)
                    })
                    .collect();
                w.insert("unic/idna/mapping/tables/idna_mapping.rsv".into(), W::Table(norm(r)));
            }
            "emoji" => {
                w.insert("unic/emoji/char/tables/emoji_version.rsv".into(), W::Val(ver(&[self.emoji_ver[0], self.emoji_ver[1], 0])));
                for e in EMOJI {
                    w.insert(format!("unic/emoji/char/tables/{}.rsv", e.to_lowercase()), set_t(self.emoji.get(e).unwrap_or(&none)));
                }
            }
            _ => unreachable!(),
        }
        w
    }

    // ---------- the source files ----------
    fn write(&self, root: &Path, g: &mut Rng) {
        let ucd = root.join("external/unicode/ucd/data");
        let emo = root.join("external/unicode/emoji/data");
        let idn = root.join("external/unicode/idna/data");
        for d in [&ucd.join("auxiliary"), &emo, &idn] {
            std::fs::create_dir_all(d).unwrap();
        }
        let put = |p: PathBuf, s: String| std::fs::write(p, s).unwrap();
        let v = self.ver;
        put(ucd.join("ReadMe.txt"), format!("# Unicode Character Database\n# Date: 2017-06-20, 17:31:00 GMT [KW]\n# For documentation, see UAX #44.\n\nThis directory contains the final data files\nfor the Unicode Character Database, for Version {}.{}.{} of the Unicode\nStandard.\n", v[0], v[1], v[2]));
        put(idn.join("ReadMe.txt"), format!("# Unicode IDNA Mapping and Test Data\n# Date: 2017-06-20\n\nThis directory contains final data files for Unicode IDNA, for Version {}.{}.{} of the Unicode Standard\n", v[0], v[1], v[2]));
        put(emo.join("ReadMe.txt"), format!("# Unicode Emoji\n# Date: 2017-05-18\n\nThis directory contains the final data files\nfor Unicode Emoji, Version {}.{}.\n", self.emoji_ver[0], self.emoji_ver[1]));

        // UnicodeData.txt
        let mut s = String::new();
        let hx = |c: &Option<u32>| c.map_or(String::new(), |c| format!("{:04X}", c));
        for u in &self.ud {
            let mut d = String::new();
            if let Some(t) = &u.tag {
                write!(d, "<{}> ", t).unwrap();
            }
            d.push_str(&u.dm.iter().map(|c| format!("{:04X}", *c as u32)).collect::<Vec<_>>().join(" "));
            let rest = format!("{};{};{};{};{};{};{};{};{};;{};{};{}", u.gc, u.ccc, u.bc, d, u.num[0], u.num[1], u.num[2], if u.mirrored { "Y" } else { "N" }, u.u1, hx(&u.cases[0]), hx(&u.cases[1]), hx(&u.cases[2]));
            if u.lo == u.hi {
                writeln!(s, "{:04X};{};{}", u.lo, u.name, rest).unwrap();
            } else {
                writeln!(s, "{:04X};<{}, First>;{}\n{:04X};<{}, Last>;{}", u.lo, u.name, rest, u.hi, u.name, rest).unwrap();
            }
        }
        put(ucd.join("UnicodeData.txt"), s);

        let head = |f: &str, miss: &str| format!("# {}-{}.{}.{}.txt\n# Date: 2017-04-14, 05:40:43 GMT\n# © 2017 Unicode®, Inc.\n# For terms of use, see http://www.unicode.org/terms_of_use.html\n#\n{}\n", f, v[0], v[1], v[2], miss);
        let rng_s = |a: u32, b: u32| if a == b { format!("{:04X}", a) } else { format!("{:04X}..{:04X}", a, b) };
        // cuts an interval into the lines a file might have
        fn cut(g: &mut Rng, a: u32, b: u32) -> Vec<(u32, u32)> {
            if b - a < 2 || !g.chance(1, 6) {
                return vec![(a, b)];
            }
            let m = a + g.below((b - a) as usize) as u32;
            vec![(a, m), (m + 1, b)]
        }
        let prop = |g: &mut Rng, sep: usize, a: u32, b: u32, name: &str| -> String {
            let mut s = String::new();
            for (a, b) in cut(g, a, b) {
                let r = rng_s(a, b);
                let _ = match sep {
                    0 => writeln!(s, "{:<14}; {} # So {} SOME NAME..OTHER NAME; Extend # 0041", r, name, if a == b { "      ".into() } else { format!("[{:>4}]", b - a + 1) }),
                    1 => writeln!(s, "{:<14}; {}", r, name),
                    _ => writeln!(s, "{}    ; {} #   <control-0000>", r, name),
                };
            }
            s
        };
        for (dir, f, m) in [(&ucd, "PropList", &self.pl), (&ucd, "DerivedCoreProperties", &self.dcp), (&emo, "emoji-data", &self.emoji)] {
            let mut s = head(f, "# @missing: 0000..10FFFF; Bidi_Control");
            for (n, set) in m {
                writeln!(s, "\n# ================================================\n\n# Derived Property: {}\n#  Generated from: 0041..005A ; {}\n", n, n).unwrap();
                for (a, b) in set {
                    s += &prop(g, if dir == &emo { 2 } else { 0 }, *a, *b, n);
                }
                writeln!(s, "\n# Total code points: {}", set.iter().map(|x| x.1 - x.0 + 1).sum::<u32>()).unwrap();
            }
            s += "\n# EOF\n";
            put(dir.join(format!("{}.txt", f)), s);
        }
        // grouped by value, as the real files are
        for (f, m, sep, miss) in [
            ("DerivedAge", &self.age, 0, "# @missing: 0000..10FFFF; Unassigned"),
            ("auxiliary/GraphemeBreakProperty", &self.gcb, 0, "# @missing: 0000..10FFFF; Other"),
            ("auxiliary/WordBreakProperty", &self.wb, 0, "# @missing: 0000..10FFFF; Other"),
            ("auxiliary/SentenceBreakProperty", &self.sb, 0, "# @missing: 0000..10FFFF; Other"),
        ] {
            let mut s = head(f, miss);
            let mut by: BTreeMap<&str, Vec<(u32, u32)>> = BTreeMap::new();
            for (a, b, v) in m {
                by.entry(v).or_default().push((*a, *b));
            }
            let mut keys: Vec<_> = by.keys().copied().collect();
            if g.chance(1, 2) {
                keys.reverse();
            }
            for k in keys {
                writeln!(s, "\n# ================================================\n").unwrap();
                for (a, b) in &by[k] {
                    s += &prop(g, sep, *a, *b, k);
                }
                s += "\n# Total code points: 12\n";
            }
            s += "\n# EOF\n";
            put(ucd.join(format!("{}.txt", f)), s);
        }
        let mut s = head("Blocks", "# Format:\n# Start Code..End Code; Block Name\n# @missing: 0000..10FFFF; No_Block");
        for (a, b, n) in &self.blocks {
            writeln!(s, "{:04X}..{:04X}; {}", a, b, n).unwrap();
        }
        s += "\n# EOF\n";
        put(ucd.join("Blocks.txt"), s);
        let mut s = head("Jamo", "# Code; Jamo_Short_Name");
        for (c, n) in &self.jamo {
            writeln!(s, "{:04X}; {:<5} # HANGUL CHOSEONG X", c, n).unwrap();
        }
        put(ucd.join("Jamo.txt"), s);
        let mut s = head("NameAliases", "# First field:  Code point\n# Second field: Alias\n# Third field:  Type");
        for (c, t, n) in &self.alias {
            writeln!(s, "{:04X};{};{}", c, n, ALIAS[*t].0).unwrap();
            if g.chance(1, 8) {
                s += "\n# Note that this is a comment; 0041;A;control\n";
            }
        }
        s += "\n# EOF\n";
        put(ucd.join("NameAliases.txt"), s);
        let mut s = head("DerivedNormalizationProps", "# @missing: 0000..10FFFF; NFD_QC; Yes");
        for i in 0..8u32 {
            writeln!(s, "{:<14}; FC_NFKC; 0061 # L&       LATIN\n{:<14}; NFD_QC; N # L&   [6] LATIN..LATIN\n{:<14}; Expands_On_NFD # L&   [6] LATIN", rng_s(0x41 + i * 9, 0x41 + i * 9), rng_s(0xC0 + i * 9, 0xC3 + i * 9), rng_s(0x1000 + i, 0x1010)).unwrap();
        }
        s += "\n# Derived Property: Full_Composition_Exclusion\n#  Generated from: Composition Exclusions + Singletons\n\n";
        for (a, b) in &self.excl {
            s += &prop(g, 0, *a, *b, "Full_Composition_Exclusion");
        }
        for i in 0..8u32 {
            writeln!(s, "{:<14}; Changes_When_NFKC_Casefolded # L&   [26] LATIN", rng_s(0x41 + i * 9, 0x45 + i * 9)).unwrap();
        }
        put(ucd.join("DerivedNormalizationProps.txt"), s);

        let mut s = head("IdnaMappingTable", "# Unicode IDNA Compatible Preprocessing (UTS #46)\n#");
        for (a, b, st, m, nv) in &self.idna {
            let m = m.as_ref().map(|m| m.iter().map(|c| format!("{:04X}", *c as u32)).collect::<Vec<_>>().join(" "));
            let body = match (m, nv) {
                (Some(m), _) => format!("{:<23}; {:<24}", IDNA[*st].0, m),
                (None, true) => format!("{:<23};      ; {:<17}", IDNA[*st].0, if g.chance(1, 2) { "NV8" } else { "XV8" }),
                (None, false) => format!("{:<47}", IDNA[*st].0),
            };
            writeln!(s, "{:<14}; {} # 1.1  NAME..NAME", rng_s(*a, *b), body).unwrap();
        }
        s += "\n# Total code points: 1114112\n\n";
        put(idn.join("IdnaMappingTable.txt"), s);

        let mut s = head("NormalizationTest", "# NFC\n#    c2 ==  toNFC(c1) ==  toNFC(c2) ==  toNFC(c3)\n@Part0 # Specific cases\n#");
        for (i, t) in self.nt.iter().enumerate() {
            for x in t {
                s += &x.iter().map(|c| format!("{:04X}", *c as u32)).collect::<Vec<_>>().join(" ");
                s.push(';');
            }
            s += " # (◌̀; ◌̀; ) COMBINING; 0041;\n";
            if i % 7 == 3 {
                s += "@Part1 # Character by character test\n# comment\n";
            }
        }
        s += "# EOF\n";
        put(ucd.join("NormalizationTest.txt"), s);
        for (f, ls) in [("GraphemeBreakTest", &self.gt), ("WordBreakTest", &self.wt)] {
            let mut s = head(f, "# Default Test\n#  ÷ wherever there is a break opportunity, and \n#  × wherever there is not.\n#");
            for l in ls {
                s += "÷ ";
                for (i, c) in l.cps.iter().enumerate() {
                    write!(s, "{:04X} {} ", c, if i + 1 == l.cps.len() || l.brk[i].0 { "÷" } else { "×" }).unwrap();
                }
                s.pop();
                s += "\t#  ÷ [0.2] ";
                for (i, (n, p)) in l.names.iter().zip(&l.props).enumerate() {
                    let (b, r) = if i + 1 == l.cps.len() { (true, "0.3") } else { (l.brk[i].0, l.brk[i].1.as_str()) };
                    write!(s, "{} ({}) {} [{}] ", n, p, if b { "÷" } else { "×" }, r).unwrap();
                }
                s.pop();
                s += "\n";
            }
            write!(s, "#\n# Lines: {}\n#\n# EOF\n", ls.len()).unwrap();
            put(ucd.join(format!("auxiliary/{}.txt", f)), s);
        }
    }

    // ---------- random universes ----------
    fn random(g: &mut Rng) -> Uni {
        let mut u = Uni { ver: [g.range(1, 99) as u32, g.below(20) as u32, g.below(12) as u32], emoji_ver: [g.range(1, 40) as u32, g.below(20) as u32], ..Default::default() };
        if g.chance(1, 6) {
            u.ver[2] = g.range(100, 999) as u32;
        }
        const ANCHOR: [u32; 24] = [0, 0x41, 0x7E, 0xA0, 0x300, 0x58E, 0x5FF, 0x7BE, 0x85E, 0x8A0, 0x1100, 0x2064, 0x20CE, 0xD7F0, 0xE000, 0xFB1C, 0xFDEE, 0xFEFE, 0xFFF0, 0xFFFE, 0x10000, 0x107FF, 0xE0FFE, 0x10FFF0];
        let at = |g: &mut Rng| -> u32 {
            match g.below(4) {
                0 => g.below(0x800) as u32,
                1 => g.below(0x110000) as u32,
                _ => (*g.pick(&ANCHOR) + g.below(20) as u32).min(0x10FFFF),
            }
        };
        let sur = |a: u32, b: u32| a <= 0xDFFF && b >= 0xD800;
        // disjoint sorted intervals
        let ivs = |g: &mut Rng, n: usize, big: u32, surr: bool| -> Vec<(u32, u32)> {
            let mut v: Vec<(u32, u32)> = vec![];
            for _ in 0..n {
                let a = at(g);
                let len = match g.below(10) {
                    0..=3 => 0,
                    4..=8 => g.below(12) as u32,
                    _ => g.below(big as usize) as u32,
                };
                let mut b = (a + len).min(0x10FFFF);
                if sur(a, b) && !surr {
                    if a >= 0xD800 {
                        continue;
                    }
                    b = 0xD7FF;
                }
                // often adjacent to an earlier one
                let (mut a, mut b) = (a, b);
                if g.chance(1, 4) && !v.is_empty() {
                    let p = *g.pick(&v);
                    if p.1 < 0x10FFFF && !(p.1 == 0xD7FF) {
                        let l = b - a;
                        a = p.1 + 1;
                        b = (a + l).min(0x10FFFF);
                        if sur(a, b) && !surr {
                            continue;
                        }
                    } else if p.1 == 0xD7FF {
                        a = 0xE000;
                        b = 0xE000 + g.below(4) as u32;
                    }
                }
                if v.iter().all(|x| x.1 < a || x.0 > b) {
                    v.push((a, b));
                }
            }
            v.sort();
            v
        };
        let vals = |g: &mut Rng, n: usize, pool: &[&str], surr: bool| -> Map {
            let mut cur = g.pick(pool).to_string();
            ivs(g, n, 3000, surr)
                .into_iter()
                .map(|(a, b)| {
                    if g.chance(1, 2) {
                        cur = g.pick(pool).to_string();
                    }
                    (a, b, cur.clone())
                })
                .collect()
        };
        const GC: [&str; 29] = ["Cc", "Cf", "Co", "Ll", "Lm", "Lo", "Lt", "Lu", "Mc", "Me", "Mn", "Nd", "Nl", "No", "Pc", "Pd", "Pe", "Pf", "Pi", "Po", "Ps", "Sc", "Sk", "Sm", "So", "Zl", "Zp", "Zs", "Cn"];
        const BC: [&str; 23] = ["AL", "AN", "B", "BN", "CS", "EN", "ES", "ET", "FSI", "L", "LRE", "LRI", "LRO", "NSM", "ON", "PDF", "PDI", "R", "RLE", "RLI", "RLO", "S", "WS"];
        const TAG: [&str; 16] = ["font", "noBreak", "initial", "medial", "final", "isolated", "circle", "super", "sub", "vertical", "wide", "narrow", "small", "square", "fraction", "compat"];
        fn word(g: &mut Rng) -> String {
            let mut s = String::new();
            if g.chance(1, 15) {
                s.push('-');
            }
            s.push((b'A' + g.below(26) as u8) as char);
            for _ in 0..g.below(7) {
                match g.below(12) {
                    0 => s.push((b'0' + g.below(10) as u8) as char),
                    1 if !s.ends_with('-') => s.push('-'),
                    _ => s.push((b'A' + g.below(26) as u8) as char),
                }
            }
            s
        }
        let pool: Vec<String> = (0..g.range(3, 40)).map(|_| word(g)).collect();
        fn name(g: &mut Rng, pool: &[String]) -> String {
            (0..g.range(1, 6)).map(|_| g.pick(pool).clone()).collect::<Vec<_>>().join(" ")
        }
        // UnicodeData.txt
        let mut used: BTreeSet<(char, char)> = BTreeSet::new();
        let k = g.range(3, 40);
        let mut proto = Ud::default();
        for (a, b) in ivs(g, k, 6000, false) {
            let mut fresh = |g: &mut Rng, p: &Ud| -> Ud {
                let mut x = p.clone();
                if p.gc.is_empty() || g.chance(1, 3) {
                    x.gc = g.pick(&GC[..28]).to_string();
                }
                if p.bc.is_empty() || g.chance(1, 3) {
                    x.bc = g.pick(&BC).to_string();
                }
                if g.chance(1, 4) {
                    x.ccc = *g.pick(&[0, 0, 1, 9, 10, 84, 202, 220, 230, 230, 240, 254, 255]);
                }
                if g.chance(1, 4) {
                    x.mirrored = g.chance(1, 2);
                }
                x
            };
            if b - a >= 12 || (b > a && g.chance(1, 5)) {
                let mut x = fresh(g, &proto);
                (x.lo, x.hi) = (a, b);
                x.name = g.pick(&["CJK Ideograph Extension Q", "Hangul Syllable", "Private Use", "Plane 15 Private Use", "Tangut Ideograph"]).to_string();
                u.ud.push(x);
                continue;
            }
            for c in a..=b {
                let mut x = fresh(g, &proto);
                proto = x.clone();
                (x.lo, x.hi) = (c, c);
                x.name = if x.gc == "Cc" { "<control>".into() } else { name(g, &pool) };
                let any = |g: &mut Rng| loop {
                    if let Some(c) = char::from_u32(at(g)) {
                        return c;
                    }
                };
                match g.below(8) {
                    0 => x.dm = vec![any(g)],
                    1 => {
                        // followers cluster on few leads
                        let l = if used.is_empty() || g.chance(1, 3) { any(g) } else { used.iter().nth(g.below(used.len())).unwrap().0 };
                        let f = any(g);
                        if used.insert((l, f)) {
                            x.dm = vec![l, f];
                        }
                    }
                    2 => {
                        x.tag = Some(g.pick(&TAG).to_string());
                        x.dm = (0..*g.pick(&[1, 1, 1, 2, 2, 3, 4, 18])).map(|_| any(g)).collect();
                    }
                    _ => {}
                }
                if g.chance(1, 6) {
                    let d = g.below(10).to_string();
                    match g.below(3) {
                        0 => x.num = [d.clone(), d.clone(), d],
                        1 => x.num = [String::new(), d.clone(), d],
                        _ => x.num[2] = g.pick(&["1/2", "-1/2", "1000000000", "3/80", "17"]).to_string(),
                    }
                }
                if g.chance(1, 8) {
                    x.u1 = g.pick(&["NULL", "GREEK CAPITAL LETTER TONOS", "LEFT POINTING GUILLEMET (X)", "Y"]).to_string();
                }
                for i in 0..3 {
                    if g.chance(1, 8) {
                        x.cases[i] = Some(any(g) as u32);
                    }
                }
                u.ud.push(x);
            }
        }
        if g.chance(1, 2) {
            for (a, b, n) in [(0xD800, 0xDB7F, "Non Private Use High Surrogate"), (0xDB80, 0xDBFF, "Private Use High Surrogate"), (0xDC00, 0xDFFF, "Low Surrogate")] {
                u.ud.push(Ud { lo: a, hi: b, name: n.into(), gc: "Cs".into(), bc: "L".into(), ..Default::default() });
            }
            u.ud.sort_by_key(|x| x.lo);
        }
        // Full_Composition_Exclusion: the singletons, and some of the pairs
        let mut ex: Vec<u32> = u.ud.iter().filter(|x| x.tag.is_none() && (x.dm.len() == 1 || (x.dm.len() == 2 && g.chance(1, 3)))).map(|x| x.lo).collect();
        ex.sort();
        for c in ex {
            match u.excl.last_mut() {
                Some(l) if l.1 + 1 == c => l.1 = c,
                _ => u.excl.push((c, c)),
            }
        }
        for n in PL {
            if g.chance(1, 2) || ["White_Space", "Bidi_Control", "Pattern_Syntax", "Pattern_White_Space", "Dash", "Hyphen"].contains(&n) {
                let k = g.below(14);
                u.pl.insert(n, ivs(g, k, 500, false));
            }
        }
        for n in DCP {
            let k = g.below(16);
            u.dcp.insert(n, ivs(g, k, 5000, false));
        }
        for n in EMOJI {
            let k = g.below(16);
            u.emoji.insert(n, ivs(g, k, 100, false));
        }
        let k = g.below(40);
        u.age = vals(g, k, &["1.1", "2.0", "2.1", "3.0", "3.1", "3.2", "4.0", "4.1", "5.0", "5.1", "5.2", "6.0", "6.1", "6.2", "6.3", "7.0", "8.0", "9.0", "10.0", "12.1", "15.1"], true);
        let k = g.below(20);
        let mut bl = vals(g, k, &["Basic Latin"], true);
        for (i, b) in bl.iter_mut().enumerate() {
            b.2 = format!("{}{} {}", g.pick(&["Latin-1 Supplement", "CJK Unified Ideographs Extension B", "N'Ko", "Arabic Presentation Forms-A", "Supplementary Private Use Area-A", "Superscripts and Subscripts"]), if g.chance(1, 2) { "" } else { " Extended" }, i);
        }
        u.blocks = bl;
        let k = g.below(40);
        u.gcb = vals(g, k, &["CR", "LF", "Control", "Extend", "Prepend", "SpacingMark", "L", "V", "T", "LV", "LVT", "Regional_Indicator", "ZWJ", "E_Base", "E_Modifier", "Glue_After_Zwj", "E_Base_GAZ"], true);
        let k = g.below(40);
        u.wb = vals(g, k, &["CR", "LF", "Newline", "Extend", "Format", "Katakana", "Hebrew_Letter", "ALetter", "Single_Quote", "Double_Quote", "MidNumLet", "MidLetter", "MidNum", "Numeric", "ExtendNumLet", "ZWJ"], false);
        let k = g.below(40);
        u.sb = vals(g, k, &["CR", "LF", "Extend", "Sep", "Format", "Sp", "Lower", "Upper", "OLetter", "Numeric", "ATerm", "SContinue", "STerm", "Close"], false);
        for i in 0..g.below(40) {
            u.jamo.push((0x1100 + i as u32 * 3, g.pick(&["G", "GG", "", "WAE", "YU", "NG", "BS", "H"]).to_string()));
        }
        for (a, b) in { let k = g.below(30); ivs(g, k, 5, false) } {
            for c in a..=b {
                let mut ts: Vec<usize> = (0..g.range(1, 4)).map(|_| g.below(5)).collect();
                if g.chance(3, 4) {
                    ts.sort();
                }
                for t in ts {
                    u.alias.push((c, t, if t == 4 { g.pick(&["NUL", "LF", "NL", "EOL", "VS17", "NBSP"]).to_string() } else { name(g, &pool) }));
                }
            }
        }
        // the whole code space, as in the real file
        let mut c = 0u32;
        let mut cur = (0usize, None, false);
        let mut bounds: Vec<u32> = vec![0xD800, 0xE000, 0x110000];
        for _ in 0..g.range(2, 120) {
            let a = at(g);
            if !sur(a, a) {
                bounds.push(a);
            }
        }
        bounds.sort();
        for e in bounds {
            if e <= c {
                continue;
            }
            if g.chance(4, 5) {
                let s = g.below(7);
                let m = match s {
                    2 | 6 => Some((0..*g.pick(&[1, 1, 1, 2, 3, 18])).filter_map(|_| char::from_u32(at(g))).collect::<Vec<_>>()).filter(|m: &Vec<char>| !m.is_empty()).or(Some(vec!['a'])),
                    3 => Some((0..g.below(3)).filter_map(|_| char::from_u32(at(g))).collect()),
                    _ => None,
                };
                cur = (s, m, s == 0 && g.chance(1, 3));
            }
            if c == 0xD800 {
                u.idna.push((c, e - 1, 4, None, false));
            } else {
                u.idna.push((c, e - 1, cur.0, cur.1.clone(), cur.2));
            }
            c = e;
        }
        let str_ = |g: &mut Rng| -> Vec<char> {
            let n = *g.pick(&[1, 1, 2, 3, 5, 18]);
            (0..n).map(|_| char::from_u32(at(g)).unwrap_or('x')).collect()
        };
        for _ in 0..g.below(30) {
            u.nt.push([str_(g), str_(g), str_(g), str_(g), str_(g)]);
        }
        for which in 0..2 {
            let cs: Vec<(u32, String, String)> = (0..g.range(2, 12))
                .map(|_| {
                    let c = char::from_u32(at(g)).unwrap_or('y') as u32;
                    let (n, p) = if which == 0 { (g.pick(&["SPACE", "<CARRIAGE RETURN (CR)>", "<START OF HEADING>", "COMBINING DIAERESIS", "HANGUL CHOSEONG KIYEOK", "ZERO WIDTH JOINER (ZWJ)", "THAI CHARACTER SARA AM-2"]), g.pick(&["Other", "CR", "Control", "Extend", "L", "ZWJ_EP_CN", "E_Base_GAZ"])) } else { (g.pick(&["DIGIT ONE", "<LINE FEED (LF)>", "LATIN SMALL LETTER A", "SOFT HYPHEN (SHY)", "HEBREW LETTER ALEF"]), g.pick(&["Numeric", "LF", "ALetter", "Format_FE", "Hebrew_Letter", "Other"])) };
                    (c, n.to_string(), p.to_string())
                })
                .collect();
            // one property per character
            let mut by: BTreeMap<u32, (String, String)> = BTreeMap::new();
            for (c, n, p) in cs {
                by.entry(c).or_insert((n, p));
            }
            let keys: Vec<u32> = by.keys().copied().collect();
            for _ in 0..g.below(25) {
                let n = g.range(2, 8);
                let mut l = Line { cps: vec![], names: vec![], props: vec![], brk: vec![] };
                for i in 0..n {
                    let c = *g.pick(&keys);
                    if g.chance(1, 40) {
                        l.cps.push(0xD800);
                        l.names.push("<surrogate-D800>".into());
                        l.props.push("Control".into());
                    } else {
                        l.cps.push(c);
                        l.names.push(by[&c].0.clone());
                        l.props.push(by[&c].1.clone());
                    }
                    if i + 1 < n {
                        l.brk.push(match g.below(3) {
                            0 => (true, g.pick(&["999.0", "4.0", "5.0", "3.1"]).to_string()),
                            1 if which == 0 => (false, g.pick(&["9.1", "9.2"]).to_string()),
                            _ => (false, g.pick(&["9.0", "3.0", "8.0", "13.1", "12.0", "9.3", "19.1"]).to_string()),
                        });
                    }
                }
                if which == 0 {
                    u.gt.push(l)
                } else {
                    u.wt.push(l)
                }
            }
        }
        u
    }

    // ---------- Unicode 10.0.0 from /verif/ref ----------
    fn unicode10() -> Uni {
        let mut u = Uni { ver: [10, 0, 0], emoji_ver: [5, 0], ..Default::default() };
        let mut long: HashMap<(&str, &str), &str> = HashMap::new();
        for l in include_str!("../../ref/pva.txt").lines() {
            let mut it = l.split(';');
            if let (Some(a), Some(b), Some(c)) = (it.next(), it.next(), it.next()) {
                long.insert((a, b), c);
            }
        }
        let runs = |t: &rd::Table, f: &dyn Fn(&'static str) -> Option<String>| -> Map {
            let mut o: Map = vec![];
            let mut last = u16::MAX;
            for c in 0..0x110000u32 {
                let k = t.idx[c as usize];
                if k == last {
                    if let Some(l) = o.last_mut() {
                        if l.1 + 1 == c {
                            l.1 = c;
                        }
                    }
                } else if let Some(v) = f(t.vals[k as usize]) {
                    o.push((c, c, v));
                }
                last = k;
            }
            o
        };
        let set = |t: &rd::Table| -> Set { runs(t, &|v| if v == "Y" { Some(String::new()) } else { None }).into_iter().map(|x| (x.0, x.1)).collect() };
        for (n, t) in [("White_Space", rd::wspace()), ("Bidi_Control", rd::bidi_c()), ("Pattern_Syntax", rd::pat_syn()), ("Pattern_White_Space", rd::pat_ws()), ("Noncharacter_Code_Point", rd::nchar())] {
            u.pl.insert(n, set(t));
        }
        for (n, t) in [
            ("Alphabetic", rd::alpha()),
            ("Lowercase", rd::lower()),
            ("Uppercase", rd::upper()),
            ("Cased", rd::cased()),
            ("Case_Ignorable", rd::ci()),
            ("Changes_When_Lowercased", rd::cwl()),
            ("Changes_When_Uppercased", rd::cwu()),
            ("Changes_When_Titlecased", rd::cwt()),
            ("Changes_When_Casefolded", rd::cwcf()),
            ("Changes_When_Casemapped", rd::cwcm()),
            ("ID_Start", rd::ids()),
            ("ID_Continue", rd::idc()),
            ("XID_Start", rd::xids()),
            ("XID_Continue", rd::xidc()),
        ] {
            u.dcp.insert(n, set(t));
        }
        for (n, t) in [("Emoji", rd::emoji()), ("Emoji_Presentation", rd::epres()), ("Emoji_Modifier", rd::emod()), ("Emoji_Modifier_Base", rd::ebase()), ("Emoji_Component", rd::ecomp())] {
            u.emoji.insert(n, set(t));
        }
        u.age = runs(rd::age(), &|v| if v == "Unassigned" { None } else { Some(v.trim_end_matches(".0").to_string()).map(|x| if x.contains('.') { x } else { format!("{}.0", x) }) });
        u.blocks = runs(rd::blk(), &|v| if v == "No_Block" { None } else { Some(v.into()) });
        let brk = |p: &'static str, t: &rd::Table| runs(t, &|v| if v == "XX" { None } else { Some(long.get(&(p, v)).unwrap_or(&v).to_string()) });
        u.gcb = brk("gcb", rd::gcb());
        u.wb = brk("wb", rd::wb());
        u.sb = brk("sb", rd::sb());
        let jl = ["G", "GG", "N", "D", "DD", "R", "M", "B", "BB", "S", "SS", "", "J", "JJ", "C", "K", "T", "P", "H"];
        let jv = ["A", "AE", "YA", "YAE", "EO", "E", "YEO", "YE", "O", "WA", "WAE", "OE", "YO", "U", "WEO", "WE", "WI", "YU", "EU", "YI", "I"];
        let jt = ["G", "GG", "GS", "N", "NJ", "NH", "D", "L", "LG", "LM", "LB", "LS", "LT", "LP", "LH", "M", "B", "BS", "S", "SS", "NG", "J", "C", "K", "T", "P", "H"];
        for (b, l) in [(0x1100, &jl[..]), (0x1161, &jv[..]), (0x11A8, &jt[..])] {
            for (i, s) in l.iter().enumerate() {
                u.jamo.push((b + i as u32, s.to_string()));
            }
        }
        for c in rd::chars() {
            let a = rd::alias().get(c);
            if a == "None" {
                continue;
            }
            for part in a.split('|').skip(1) {
                let (k, v) = part.split_once('=').unwrap();
                let t = ALIAS.iter().position(|x| x.1 == k).unwrap();
                for n in v.split(',') {
                    u.alias.push((c as u32, t, n.into()));
                }
            }
        }
        // UnicodeData: listed characters and First/Last ranges
        const RANGES: [(u32, u32, &str); 17] = [
            (0x3400, 0x4DB5, "CJK Ideograph Extension A"),
            (0x4E00, 0x9FEA, "CJK Ideograph"),
            (0xAC00, 0xD7A3, "Hangul Syllable"),
            (0xD800, 0xDB7F, "Non Private Use High Surrogate"),
            (0xDB80, 0xDBFF, "Private Use High Surrogate"),
            (0xDC00, 0xDFFF, "Low Surrogate"),
            (0xE000, 0xF8FF, "Private Use"),
            (0x17000, 0x187EC, "Tangut Ideograph"),
            (0x20000, 0x2A6D6, "CJK Ideograph Extension B"),
            (0x2A700, 0x2B734, "CJK Ideograph Extension C"),
            (0x2B740, 0x2B81D, "CJK Ideograph Extension D"),
            (0x2B820, 0x2CEA1, "CJK Ideograph Extension E"),
            (0x2CEB0, 0x2EBE0, "CJK Ideograph Extension F"),
            (0xF0000, 0xFFFFD, "Plane 15 Private Use"),
            (0x100000, 0x10FFFD, "Plane 16 Private Use"),
            (0x110000, 0x110000, ""),
            (0x110000, 0x110000, ""),
        ];
        let mut c = 0u32;
        while c < 0x110000 {
            let r = RANGES.iter().find(|r| r.0 <= c && c <= r.1);
            let gc = rd::gc().cp(c);
            if let Some(r) = r {
                u.ud.push(Ud { lo: r.0, hi: r.1, name: r.2.into(), gc: gc.into(), bc: rd::bc().cp(c).into(), ..Default::default() });
                c = r.1 + 1;
                continue;
            }
            if let (Some(ch), true) = (char::from_u32(c), gc != "Cn") {
                let name = match rd::names().get(&ch) {
                    Some(n) => n.to_string(),
                    None if gc == "Cc" => "<control>".into(),
                    None => match c {
                        0xF900..=0xFAFF | 0x2F800..=0x2FA1D => format!("CJK COMPATIBILITY IDEOGRAPH-{:04X}", c),
                        0x1B170..=0x1B2FB => format!("NUSHU CHARACTER-{:04X}", c),
                        _ => "<unknown>".into(),
                    },
                };
                let mut x = Ud { lo: c, hi: c, name, gc: gc.into(), bc: rd::bc().cp(c).into(), ccc: rd::ccc(ch), mirrored: rd::bidi_m().is(ch), ..Default::default() };
                if let Some(m) = rd::dm().get(&ch) {
                    x.dm = m.clone();
                    if m.len() == 1 || !rd::comp().contains_key(&(m[0], m[1])) {
                        match u.excl.last_mut() {
                            Some(l) if l.1 + 1 == c => l.1 = c,
                            _ => u.excl.push((c, c)),
                        }
                    }
                } else if let Some(m) = rd::dmk().get(&ch) {
                    x.dm = m.clone();
                    let t = rd::dt().get(ch).to_lowercase();
                    x.tag = Some(if t == "nobreak" { "noBreak".into() } else { t });
                }
                u.ud.push(x);
            }
            c += 1;
        }
        for (a, b, v) in runs(rd::idna(), &|v| Some(v.into())) {
            let (k, m) = v.split_once(':').unwrap();
            let st = ["V", "ign", "M", "dev", "X", "d3v", "d3m"].iter().position(|x| *x == k).unwrap();
            let m = if matches!(st, 2 | 3 | 6) { Some(rd::hexs(m)) } else { None };
            // surrogates are a row of their own
            for (lo, hi) in [(a, b.min(0xD7FF)), (a.max(0xD800), b.min(0xDFFF)), (a.max(0xE000), b)] {
                if lo <= hi {
                    u.idna.push((lo, hi, st, m.clone(), false));
                }
            }
        }
        u
    }
}

// ---------- running the program ----------
const NOBODY: u32 = 65534;
const COMPS: [&str; 5] = ["ucd", "normal", "segment", "idna", "emoji"];
fn dirs(comp: &str) -> Vec<String> {
    match comp {
        "ucd" => UCD_DIRS.iter().map(|d| format!("unic/ucd/{}/tables", d)).chain(["unic/ucd/segment/tests/tables".to_string()]).collect(),
        "normal" => vec!["unic/normal/tests/tables".into()],
        "segment" => vec!["unic/segment/tests/tables".into()],
        "idna" => vec!["unic/idna/mapping/tables".into()],
        _ => vec!["unic/emoji/char/tables".into()],
    }
}
struct Box_ {
    root: PathBuf,
    bin: PathBuf,
}
impl Box_ {
    fn new(tag: &str, bin: &str) -> std::io::Result<Box_> {
        let root = std::env::temp_dir().join(format!("verif-gen-{}-{}", std::process::id(), tag));
        let _ = std::fs::remove_dir_all(&root);
        let work = root.join("work");
        std::fs::create_dir_all(&work)?;
        std::fs::set_permissions(&root, std::fs::Permissions::from_mode(0o755))?;
        let b = root.join("unic-gen");
        std::fs::copy(bin, &b)?;
        std::fs::set_permissions(&b, std::fs::Permissions::from_mode(0o755))?;
        chown(&work, Some(NOBODY), Some(NOBODY))?;
        Ok(Box_ { root, bin: b })
    }
    fn work(&self) -> PathBuf {
        self.root.join("work")
    }
    /// (exit ok, timed out, last line of stderr)
    fn run(&self, args: &[&str]) -> std::io::Result<(bool, bool, String)> {
        let err = self.root.join("stderr");
        let f = std::fs::File::create(&err)?;
        let mut ch = Command::new(&self.bin)
            .args(args)
            .current_dir(self.work())
            .env_clear()
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(f)
            .uid(NOBODY)
            .gid(NOBODY)
            .spawn()?;
        let t0 = std::time::Instant::now();
        let st = loop {
            if let Some(s) = ch.try_wait()? {
                break Some(s);
            }
            if t0.elapsed().as_secs() > 240 {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            std::thread::sleep(std::time::Duration::from_millis(3));
        };
        let e = std::fs::read(&err).unwrap_or_default();
        let e = String::from_utf8_lossy(&e).lines().filter(|l| !l.contains("RUST_BACKTRACE") && !l.trim().is_empty()).collect::<Vec<_>>().join(" / ");
        Ok((st.map_or(false, |s| s.success()), st.is_none(), e.chars().take(300).collect()))
    }
}
impl Drop for Box_ {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}
fn own(dir: &Path) {
    let _ = chown(dir, Some(NOBODY), Some(NOBODY));
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                own(&p);
            } else {
                let _ = chown(&p, Some(NOBODY), Some(NOBODY));
            }
        }
    }
}
fn tree(dir: &Path, base: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                tree(&p, base, out);
            } else {
                out.insert(p.strip_prefix(base).unwrap().to_string_lossy().into(), std::fs::read(&p).unwrap_or_default());
            }
        }
    }
}

/// name_values.rsd: identifier to word.
fn name_values(t: &str) -> R<HashMap<String, String>> {
    let mut m = HashMap::new();
    for l in t.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with("//") {
            continue;
        }
        let bad = || format!("not a constant: {:?}", l);
        let r = l.strip_prefix("pub ").unwrap_or(l).strip_prefix("const ").or_else(|| l.strip_prefix("static ")).ok_or_else(bad)?;
        let (k, r) = r.split_once(':').ok_or_else(bad)?;
        let (_, v) = r.split_once('=').ok_or_else(bad)?;
        let V::S(v) = parse(v.trim().trim_end_matches(';'))? else { return Err(bad()) };
        let k = k.trim();
        if k == "_" || k.is_empty() || k.starts_with(|c: char| c.is_ascii_digit()) || !k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
            return Err(format!("{:?} is not an identifier", k));
        }
        if m.insert(k.to_string(), v).is_some() {
            return Err(format!("{} is defined twice", k));
        }
    }
    Ok(m)
}
/// A generated (or committed) table file, normalised. Err: unreadable, or the rows are not in order.
fn load(path: &str, get: &dyn Fn(&str) -> Option<String>, table: bool, o: &mut Obs) -> R<W> {
    let t = get(path).ok_or("the file is missing")?;
    let v = parse(&t)?;
    if !table {
        return Ok(W::Val(v));
    }
    let mut r = rows(v)?;
    o.add("table rows read back", r.len() as u64);
    for x in &r {
        if x.0 > x.1 {
            return Err(format!("row {:X}..{:X} is backwards", x.0, x.1));
        }
    }
    for w in r.windows(2) {
        if w[0].1 >= w[1].0 {
            return Err(format!("rows out of order: {:X}..{:X} before {:X}..{:X}", w[0].0, w[0].1, w[1].0, w[1].1));
        }
    }
    if path.ends_with("name/tables/name_map.rsv") {
        let vp = path.replace("name_map.rsv", "name_values.rsd");
        let m = name_values(&get(&vp).ok_or("name_values.rsd is missing")?)?;
        for x in &mut r {
            if let V::A(l) = &mut x.2 {
                for y in l.iter_mut() {
                    match y {
                        V::Id(n) => match m.get(n.as_str()) {
                            Some(s) => *y = V::S(s.clone()),
                            None => return Err(format!("{} is not defined in name_values.rsd", n)),
                        },
                        _ => return Err("a name piece is not an identifier".into()),
                    }
                }
            }
        }
    }
    Ok(W::Table(norm(r)))
}
fn hexv(v: Option<&V>) -> String {
    let s = format!("{:?}", v);
    s.chars().take(160).collect()
}
/// Compares one file with what it should state; returns a description of the first difference.
fn compare(path: &str, want: &W, have: &W) -> Option<String> {
    match (want, have) {
        (W::Val(a), W::Val(b)) => {
            if a == b {
                return None;
            }
            if let (V::A(x), V::A(y)) = (a, b) {
                let i = x.iter().zip(y).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
                return Some(format!("entry {} of {} (expected {} entries): expected {}, found {}", i, y.len(), x.len(), hexv(x.get(i)), hexv(y.get(i))));
            }
            Some(format!("expected {}, found {}", hexv(Some(a)), hexv(Some(b))))
        }
        (W::Table(a), W::Table(b)) => {
            // unlisted noncharacters: see the known finding of C02
            let drop = |r: &[Row]| -> Vec<Row> {
                if !path.ends_with("bidi_class.rsv") {
                    return r.to_vec();
                }
                let mut o = vec![];
                for x in r {
                    let mut lo = x.0;
                    let mut nc: Vec<(u32, u32)> = vec![(0xFDD0, 0xFDEF)];
                    nc.extend((0..17u32).map(|p| (p * 0x10000 + 0xFFFE, p * 0x10000 + 0xFFFF)));
                    for (a, b) in nc {
                        if b < lo || a > x.1 {
                            continue;
                        }
                        if a > lo {
                            o.push((lo, a - 1, x.2.clone()));
                        }
                        lo = b + 1;
                    }
                    if lo <= x.1 {
                        o.push((lo, x.1, x.2.clone()));
                    }
                }
                o
            };
            let (a, b) = (norm(drop(a)), norm(drop(b)));
            diff(&a, &b).map(|(c, x, y)| format!("U+{:04X}: expected {}, found {}", c, hexv(x), hexv(y)))
        }
        _ => Some("wrong kind of file".into()),
    }
}

pub fn c36(ctx: &Ctx) {
    ctx.rule("one evaluation = one file written by unic-gen read back and compared with what its sources state; distinct cases = distinct (universe, file) pairs with at least one row");
    ctx.assume("source files are written here in the published formats; the full-data run derives them from /verif/ref (Unicode 10.0.0); default Bidi_Class ranges are those of DerivedBidiClass.txt 10.0.0, unlisted noncharacters are left out (known finding of C02)");
    let Ok(bin) = std::env::var("VERIF_GEN") else {
        eprintln!("HARNESS-ERROR unic-gen was not built");
        ctx.harness_fail();
        return;
    };
    let n = ctx.n(700, 30000);
    // case 0 and 1: Unicode 10.0.0
    par(n + 2, |i| {
        if ctx.too_many() {
            return;
        }
        let mut o = Obs::default();
        if let Err(e) = case(ctx, i, &bin, &mut o) {
            eprintln!("HARNESS-ERROR case {}: {}", i, e);
            ctx.harness_fail();
        }
        ctx.obs_all(&o);
    });
}

fn case(ctx: &Ctx, i: u64, bin: &str, o: &mut Obs) -> std::io::Result<()> {
    let mut g = Rng::new(ctx.seed, 36, i);
    let full = i == 0;
    let u = if full { Uni::unicode10() } else { Uni::random(&mut g) };
    let b = Box_::new(&i.to_string(), bin)?;
    let work = b.work();
    u.write(&work, &mut g);
    // which components, by which arguments
    let (args, comps): (Vec<&str>, Vec<&str>) = match g.below(6) {
        _ if full => (vec!["ucd", "idna", "emoji"], vec!["ucd", "idna", "emoji"]),
        0..=2 => (vec![], COMPS.to_vec()),
        3 => (COMPS.to_vec(), COMPS.to_vec()),
        _ => {
            let mut v: Vec<&str> = COMPS.iter().copied().filter(|_| g.chance(2, 5)).collect();
            if v.is_empty() {
                v.push(*g.pick(&COMPS));
            }
            let mut a = v.clone();
            if g.chance(1, 2) {
                a.reverse();
            }
            if g.chance(1, 3) {
                a.push(a[0]);
            }
            (a, v)
        }
    };
    // what was there before
    let stale = g.chance(2, 3);
    let mut sentinel = |p: String, t: &str| -> std::io::Result<()> {
        let f = work.join(&p);
        std::fs::create_dir_all(f.parent().unwrap())?;
        std::fs::write(f, t)
    };
    for c in COMPS {
        for d in dirs(c) {
            if stale || g.chance(1, 2) {
                sentinel(format!("{}/old_table.rsv", d), "CharDataTable::Range(&[])")?;
                sentinel(format!("{}/sub/older.rsv", d), "x")?;
            }
        }
    }
    for p in ["unic/ucd/age/src/lib.rs", "unic/ucd/tables/keep.rs", "unic/ucd/segment/tests/keep.rs", "unic/emoji/char/keep.rs", "unic/segment/keep.txt", "unic/normal/tests/keep.rs", "keep.txt", "unic/idna/tables/keep.rs"] {
        sentinel(p.into(), "keep")?;
    }
    own(&work.join("unic"));
    let mut before = BTreeMap::new();
    tree(&work, &work, &mut before);
    let what = if full { "Unicode 10.0.0".to_string() } else { format!("random universe seed={} case={}", ctx.seed, i) };
    let hint = format!("{}, arguments {:?}", what, args);

    // a name that is no component
    if g.chance(1, 8) {
        let bad = *g.pick(&["ucds", "UCD", "", "char", "unic/ucd", "all"]);
        let mut a = args.clone();
        a.insert(g.below(a.len() + 1), bad);
        let (ok, _, _) = b.run(&a)?;
        let mut t = BTreeMap::new();
        tree(&work, &work, &mut t);
        o.add("invalid component names rejected", 1);
        ctx.eval(1);
        ctx.check(!ok, || "gen:invalid-component-accepted".into(), || format!("unic-gen {:?} succeeded ({})", a, hint));
        ctx.check(t == before, || "gen:invalid-component-wrote".into(), || format!("unic-gen {:?} changed files although a component name is invalid ({})", a, hint));
        if t != before {
            return Ok(());
        }
    }
    let (ok, hung, err) = b.run(&args)?;
    o.add("runs of unic-gen", 1);
    if full {
        o.add("runs over all of Unicode 10.0.0", 1);
    }
    if !ok {
        let site = err.find(".rs:").map_or(err.as_str(), |p| &err[err[..p].rfind(|c: char| c == ' ' || c == '/').map_or(0, |x| x + 1)..(p + 3)]);
        ctx.fail(format!("gen:{}:{}", if hung { "hang" } else { "failed" }, site), format!("unic-gen {} on well-formed sources\n  {}\n  {}", if hung { "did not end within 240 s" } else { "failed" }, err, hint));
        return Ok(());
    }
    let mut after = BTreeMap::new();
    tree(&work, &work, &mut after);
    // every file outside the generated directories is as it was; nothing old is left inside
    let gen_dirs: Vec<String> = comps.iter().flat_map(|c| dirs(c)).map(|d| d + "/").collect();
    let inside = |p: &str| gen_dirs.iter().any(|d| p.starts_with(d.as_str()));
    for (p, t) in &before {
        ctx.eval(1);
        if inside(p) {
            o.add("stale table files that had to go", 1);
            ctx.check(!after.contains_key(p), || format!("gen:stale:{}", p), || format!("{} from an earlier run is still there ({})", p, hint));
        } else {
            o.add("other files that had to stay", 1);
            ctx.check(after.get(p) == Some(t), || format!("gen:touched:{}", p.split('/').take(3).collect::<Vec<_>>().join("/")), || format!("{} was changed or removed although no component requested owns it ({})", p, hint));
        }
    }
    for p in after.keys() {
        ctx.check(before.contains_key(p) || inside(p), || "gen:stray".into(), || format!("{} was written outside the tables directories of the components requested ({})", p, hint));
    }
    let get = |p: &str| after.get(p).map(|b| String::from_utf8_lossy(b).into_owned());
    let repo = |p: &str| std::fs::read_to_string(format!("/repo/{}", p)).ok();
    for c in &comps {
        for (p, w) in u.want(c) {
            ctx.eval(1);
            let short = p.trim_start_matches("unic/").to_string();
            let table = matches!(w, W::Table(_));
            match load(&p, &get, table, o) {
                Err(e) => ctx.fail(format!("gen:unreadable:{}", short), format!("{}: {} ({})", p, e, hint)),
                Ok(h) => {
                    o.add("generated files compared", 1);
                    if let W::Table(r) = &w {
                        o.add("model rows", r.len() as u64);
                        if !r.is_empty() {
                            ctx.distinct(fnv(format!("{}{}{}", p, i, ctx.seed).as_bytes()));
                        }
                    } else {
                        ctx.distinct(fnv(format!("{}{}{}", p, i, ctx.seed).as_bytes()));
                    }
                    if let Some(d) = compare(&p, &w, &h) {
                        ctx.fail(format!("gen:wrong:{}", short), format!("{}: {} ({})", p, d, hint));
                    }
                    if full && !p.contains("/tests/") {
                        o.add("committed tables compared with regenerated ones", 1);
                        match load(&p, &repo, table, o) {
                            Err(e) => ctx.fail(format!("gen:committed-unreadable:{}", short), format!("/repo/{}: {}", p, e)),
                            Ok(r) => {
                                if let Some(d) = compare(&p, &h, &r) {
                                    ctx.fail(format!("gen:committed:{}", short), format!("the table committed as {} is not the one unic-gen writes for Unicode 10.0.0 (expected = generated): {}", p, d));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // the same sources, the same bytes
    if i % 4 == 1 || full {
        let (ok, _, err) = b.run(&args)?;
        o.add("repeated runs", 1);
        ctx.check(ok, || "gen:rerun-failed".into(), || format!("a second run failed: {} ({})", err, hint));
        let mut again = BTreeMap::new();
        tree(&work, &work, &mut again);
        for (p, t) in &after {
            if inside(p) {
                ctx.eval(1);
                ctx.check(again.get(p) == Some(t), || format!("gen:not-deterministic:{}", p), || format!("{} differs between two runs on the same sources ({})", p, hint));
            }
        }
    }
    if i < 6 {
        ctx.sample(|| format!("{}: {} UnicodeData lines, {} IDNA rows, {} alias lines, components {:?}", what, u.ud.len(), u.idna.len(), u.alias.len(), comps));
    }
    Ok(())
}
