//! C18-C22: text segmentation against boundary models written from the rules of UAX #29 (revision 31,
//! Unicode 10.0.0), read off the class sequence of the whole string, one position at a time.
use crate::ctx::{fnv, par, Ctx, Obs, Outcome};
use crate::refdata as r;
use crate::rng::Rng;
use std::sync::OnceLock;
use unic_segment::{GraphemeCursor, GraphemeIncomplete, GraphemeIndices, Graphemes, WordBoundIndices, WordBounds, Words};

pub struct Classes {
    pub names: Vec<&'static str>,
    of: Vec<u8>,
    pub members: Vec<Vec<char>>,
    pub reps: Vec<char>,
}
impl Classes {
    fn new(names: &[&'static str], t: &'static r::Table) -> Classes {
        let ids: Vec<u8> = t
            .vals
            .iter()
            .map(|v| names.iter().position(|n| n == v).unwrap_or_else(|| panic!("class {}", v)) as u8)
            .collect();
        let mut members = vec![vec![]; names.len()];
        let mut of = vec![0u8; 0x110000];
        for i in 0..0x110000u32 {
            of[i as usize] = ids[t.idx[i as usize] as usize];
            if let Some(c) = char::from_u32(i) {
                members[of[i as usize] as usize].push(c);
            }
        }
        // shortest representative of every class
        let reps = members.iter().map(|m: &Vec<char>| *m.iter().find(|c| !c.is_control() || m.len() < 5).unwrap_or(&m[0])).collect();
        Classes { names: names.to_vec(), of, members, reps }
    }
    #[inline]
    pub fn of(&self, c: char) -> u8 {
        self.of[c as usize]
    }
    pub fn seq(&self, s: &str) -> Vec<u8> {
        s.chars().map(|c| self.of(c)).collect()
    }
    pub fn show(&self, s: &str) -> String {
        s.chars().take(60).map(|c| self.names[self.of(c) as usize]).collect::<Vec<_>>().join(" ")
    }
    /// A member of the class: the plain representative, or any other.
    pub fn pick(&self, g: &mut Rng, k: u8) -> char {
        let m = &self.members[k as usize];
        if m.len() < 1000 {
            *g.pick(m)
        } else if g.chance(1, 2) {
            m[g.below(400)]
        } else {
            *g.pick(m)
        }
    }
}

pub mod gc {
    pub const NAMES: [&str; 18] =
        ["XX", "CR", "LF", "CN", "EX", "ZWJ", "RI", "PP", "SM", "L", "V", "T", "LV", "LVT", "EB", "EM", "GAZ", "EBG"];
    pub const CR: u8 = 1;
    pub const LF: u8 = 2;
    pub const CN: u8 = 3;
    pub const EX: u8 = 4;
    pub const ZWJ: u8 = 5;
    pub const RI: u8 = 6;
    pub const PP: u8 = 7;
    pub const SM: u8 = 8;
    pub const L: u8 = 9;
    pub const V: u8 = 10;
    pub const T: u8 = 11;
    pub const LV: u8 = 12;
    pub const LVT: u8 = 13;
    pub const EB: u8 = 14;
    pub const EM: u8 = 15;
    pub const GAZ: u8 = 16;
    pub const EBG: u8 = 17;
}
pub mod wc {
    pub const NAMES: [&str; 22] = [
        "XX", "CR", "LF", "NL", "Extend", "ZWJ", "FO", "RI", "KA", "HL", "LE", "SQ", "DQ", "MB", "ML", "MN", "NU", "EX", "EB", "EM",
        "GAZ", "EBG",
    ];
    pub const CR: u8 = 1;
    pub const LF: u8 = 2;
    pub const NL: u8 = 3;
    pub const EXTEND: u8 = 4;
    pub const ZWJ: u8 = 5;
    pub const FO: u8 = 6;
    pub const RI: u8 = 7;
    pub const KA: u8 = 8;
    pub const HL: u8 = 9;
    pub const LE: u8 = 10;
    pub const SQ: u8 = 11;
    pub const DQ: u8 = 12;
    pub const MB: u8 = 13;
    pub const ML: u8 = 14;
    pub const MN: u8 = 15;
    pub const NU: u8 = 16;
    pub const EX: u8 = 17;
    pub const EB: u8 = 18;
    pub const EM: u8 = 19;
    pub const GAZ: u8 = 20;
    pub const EBG: u8 = 21;
}
pub fn gcls() -> &'static Classes {
    static T: OnceLock<Classes> = OnceLock::new();
    T.get_or_init(|| Classes::new(&gc::NAMES, r::gcb()))
}
pub fn wcls() -> &'static Classes {
    static T: OnceLock<Classes> = OnceLock::new();
    T.get_or_init(|| Classes::new(&wc::NAMES, r::wb()))
}

/// What the rules that look further back ask about the characters before position i.
struct GbLook {
    /// regional indicators directly before i
    ri: Vec<u32>,
    /// extending characters before i follow an emoji base
    eb: Vec<bool>,
}
impl GbLook {
    fn new(c: &[u8]) -> GbLook {
        use gc::*;
        let mut l = GbLook { ri: vec![0], eb: vec![false] };
        for (i, x) in c.iter().enumerate() {
            l.ri.push(if *x == RI { l.ri[i] + 1 } else { 0 });
            l.eb.push(matches!(*x, EB | EBG) || *x == EX && l.eb[i]);
        }
        l
    }
}
/// Grapheme cluster boundary between position i-1 and i (0 < i < len), GB3..GB999.
fn gb(c: &[u8], l: &GbLook, i: usize, extended: bool) -> bool {
    use gc::*;
    let (a, b) = (c[i - 1], c[i]);
    if a == CR && b == LF {
        return false; // GB3
    }
    if matches!(a, CN | CR | LF) || matches!(b, CN | CR | LF) {
        return true; // GB4, GB5
    }
    if a == L && matches!(b, L | V | LV | LVT) {
        return false; // GB6
    }
    if matches!(a, LV | V) && matches!(b, V | T) {
        return false; // GB7
    }
    if matches!(a, LVT | T) && b == T {
        return false; // GB8
    }
    if matches!(b, EX | ZWJ) {
        return false; // GB9
    }
    if extended && (b == SM || a == PP) {
        return false; // GB9a, GB9b
    }
    if b == EM && l.eb[i] {
        return false; // GB10
    }
    if a == ZWJ && matches!(b, GAZ | EBG) {
        return false; // GB11
    }
    if a == RI && b == RI && l.ri[i] % 2 == 1 {
        return false; // GB12, GB13
    }
    true
}
/// Byte offsets of all boundaries including 0 and len (nothing for the empty string).
fn offsets(s: &str, brk: impl Fn(usize) -> bool) -> Vec<usize> {
    let mut v = vec![];
    if s.is_empty() {
        return v;
    }
    for (i, (o, _)) in s.char_indices().enumerate() {
        if i == 0 || brk(i) {
            v.push(o);
        }
    }
    v.push(s.len());
    v
}
pub fn grapheme_bounds(s: &str, extended: bool) -> Vec<usize> {
    let c = gcls().seq(s);
    let l = GbLook::new(&c);
    offsets(s, |i| gb(&c, &l, i, extended))
}
fn ign(x: u8) -> bool {
    matches!(x, wc::EXTEND | wc::FO | wc::ZWJ)
}
/// WB4: skip ignorables; a run of them at the start of text or after a line break has no base other
/// than its own first character.
struct WbLook {
    /// index of the base at or before i-1
    prev: Vec<Option<usize>>,
    /// class of the first character from i on that is not ignorable
    next: Vec<Option<u8>>,
    /// regional indicators in a row, by base, up to and including base i
    ri: Vec<u32>,
}
impl WbLook {
    fn new(c: &[u8]) -> WbLook {
        use wc::*;
        let mut prev = vec![None];
        let mut ri = vec![];
        for i in 0..c.len() {
            let p: Option<usize> = prev[i];
            let own = !ign(c[i]) || i == 0 || matches!(c[i - 1], CR | LF | NL);
            prev.push(if own { Some(i) } else { p });
            ri.push(if c[i] != RI { 0 } else { 1 + p.map_or(0, |j| ri[j]) });
        }
        let mut next = vec![None; c.len() + 1];
        for i in (0..c.len()).rev() {
            next[i] = if ign(c[i]) { next[i + 1] } else { Some(c[i]) };
        }
        WbLook { prev, next, ri }
    }
}
/// Word boundary between position i-1 and i, WB3..WB999.
fn wbk(c: &[u8], l: &WbLook, i: usize) -> bool {
    use wc::*;
    let (a, b) = (c[i - 1], c[i]);
    if a == CR && b == LF {
        return false; // WB3
    }
    if matches!(a, CR | LF | NL) || matches!(b, CR | LF | NL) {
        return true; // WB3a, WB3b
    }
    if a == ZWJ && matches!(b, GAZ | EBG) {
        return false; // WB3c
    }
    if ign(b) {
        return false; // WB4
    }
    let ai = l.prev[i].unwrap();
    let a = c[ai];
    let aa = l.prev[ai].map(|j| c[j]);
    let bb = l.next[i + 1];
    let ahl = |x: u8| x == LE || x == HL;
    let oahl = |x: Option<u8>| matches!(x, Some(LE) | Some(HL));
    let mnlq = |x: u8| x == MB || x == SQ;
    if ahl(a) && ahl(b) {
        return false; // WB5
    }
    if ahl(a) && (b == ML || mnlq(b)) && oahl(bb) {
        return false; // WB6
    }
    if oahl(aa) && (a == ML || mnlq(a)) && ahl(b) {
        return false; // WB7
    }
    if a == HL && b == SQ {
        return false; // WB7a
    }
    if a == HL && b == DQ && bb == Some(HL) {
        return false; // WB7b
    }
    if aa == Some(HL) && a == DQ && b == HL {
        return false; // WB7c
    }
    if a == NU && b == NU || ahl(a) && b == NU || a == NU && ahl(b) {
        return false; // WB8, WB9, WB10
    }
    if aa == Some(NU) && (a == MN || mnlq(a)) && b == NU {
        return false; // WB11
    }
    if a == NU && (b == MN || mnlq(b)) && bb == Some(NU) {
        return false; // WB12
    }
    if a == KA && b == KA {
        return false; // WB13
    }
    if (ahl(a) || a == NU || a == KA || a == EX) && b == EX {
        return false; // WB13a
    }
    if a == EX && (ahl(b) || b == NU || b == KA) {
        return false; // WB13b
    }
    if matches!(a, EB | EBG) && b == EM {
        return false; // WB14
    }
    if a == RI && b == RI && l.ri[ai] % 2 == 1 {
        return false; // WB15, WB16
    }
    true
}
pub fn word_bounds(s: &str) -> Vec<usize> {
    let c = wcls().seq(s);
    let l = WbLook::new(&c);
    offsets(s, |i| wbk(&c, &l, i))
}
/// The same models over classes given by short name, whoever says so.
pub fn grapheme_bounds_by(s: &str, extended: bool, cls: impl Fn(char) -> &'static str) -> Vec<usize> {
    let c: Vec<u8> = s.chars().map(|c| { let k = cls(c); gc::NAMES.iter().position(|n| *n == k).unwrap_or(0) as u8 }).collect();
    let l = GbLook::new(&c);
    offsets(s, |i| gb(&c, &l, i, extended))
}
pub fn word_bounds_by(s: &str, cls: impl Fn(char) -> &'static str) -> Vec<usize> {
    let c: Vec<u8> = s.chars().map(|c| { let k = cls(c); wc::NAMES.iter().position(|n| *n == k).unwrap_or(0) as u8 }).collect();
    let l = WbLook::new(&c);
    offsets(s, |i| wbk(&c, &l, i))
}
fn slices<'a>(s: &'a str, b: &[usize]) -> Vec<&'a str> {
    b.windows(2).map(|w| &s[w[0]..w[1]]).collect()
}

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Grapheme,
    Legacy,
    Word,
}
use Kind::*;
impl Kind {
    fn name(self) -> &'static str {
        match self {
            Grapheme => "graphemes",
            Legacy => "legacy graphemes",
            Word => "words",
        }
    }
    fn cls(self) -> &'static Classes {
        if self == Word { wcls() } else { gcls() }
    }
    pub fn bounds(self, s: &str) -> Vec<usize> {
        match self {
            Grapheme => grapheme_bounds(s, true),
            Legacy => grapheme_bounds(s, false),
            Word => word_bounds(s),
        }
    }
}
/// The two iterator families behind one face.
#[derive(Clone)]
enum It<'a> {
    G(Graphemes<'a>),
    W(WordBounds<'a>),
    GI(GraphemeIndices<'a>),
    WI(WordBoundIndices<'a>),
}
impl<'a> It<'a> {
    fn new(k: Kind, s: &'a str, idx: bool) -> It<'a> {
        match (k, idx) {
            (Grapheme, false) => It::G(Graphemes::new(s)),
            (Legacy, false) => It::G(Graphemes::new_legacy(s)),
            (Word, false) => It::W(WordBounds::new(s)),
            (Grapheme, true) => It::GI(GraphemeIndices::new(s)),
            (Legacy, true) => It::GI(GraphemeIndices::new_legacy(s)),
            (Word, true) => It::WI(WordBoundIndices::new(s)),
        }
    }
    fn next(&mut self) -> Option<(Option<usize>, &'a str)> {
        match self {
            It::G(i) => i.next().map(|x| (None, x)),
            It::W(i) => i.next().map(|x| (None, x)),
            It::GI(i) => i.next().map(|x| (Some(x.0), x.1)),
            It::WI(i) => i.next().map(|x| (Some(x.0), x.1)),
        }
    }
    fn next_back(&mut self) -> Option<(Option<usize>, &'a str)> {
        match self {
            It::G(i) => i.next_back().map(|x| (None, x)),
            It::W(i) => i.next_back().map(|x| (None, x)),
            It::GI(i) => i.next_back().map(|x| (Some(x.0), x.1)),
            It::WI(i) => i.next_back().map(|x| (Some(x.0), x.1)),
        }
    }
    fn as_str(&self) -> &'a str {
        match self {
            It::G(i) => i.as_str(),
            It::W(i) => i.as_str(),
            It::GI(i) => i.as_str(),
            It::WI(i) => i.as_str(),
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self {
            It::G(i) => i.size_hint(),
            It::W(i) => i.size_hint(),
            It::GI(i) => i.size_hint(),
            It::WI(i) => i.size_hint(),
        }
    }
}

fn show(v: &[&str]) -> String {
    let t: Vec<String> = v.iter().take(40).map(|s| s.escape_unicode().to_string()).collect();
    format!("[{}]", t.join(" | "))
}

/// Forward iteration: segments, offsets, totality.
fn check_forward(ctx: &Ctx, k: Kind, s: &str, o: &mut Obs) {
    let b = k.bounds(s);
    let exp = slices(s, &b);
    // a runaway iterator is cut off and reported as too many segments
    let lim = exp.len() + 4;
    let got = ctx.call(k.name(), s, || {
        let mut it = It::new(k, s, false);
        let mut v = vec![];
        while let Some((_, x)) = it.next() {
            v.push(x);
            if v.len() > lim {
                break;
            }
        }
        v
    });
    ctx.eval(1);
    let Some(got) = got else { return };
    if got != exp {
        ctx.fail(
            format!("{}:{}", k.name(), k.cls().show(s)),
            format!("{} of {:?}\n  classes: {}\n  rules give {}\n  iterator gave {}", k.name(), s, k.cls().show(s), show(&exp), show(&got)),
        );
    }
    o.add("segments", exp.len() as u64);
    o.add("boundaries between characters", (exp.len() as u64).saturating_sub(1));
}
fn check_indices(ctx: &Ctx, k: Kind, s: &str) {
    let b = k.bounds(s);
    let lim = b.len() + 4;
    let got = ctx.call(k.name(), s, || {
        let mut it = It::new(k, s, true);
        let mut v = vec![];
        while let Some((i, x)) = it.next() {
            v.push((i.unwrap(), x));
            if v.len() > lim {
                break;
            }
        }
        v
    });
    let Some(got) = got else { return };
    let exp: Vec<(usize, &str)> = b.windows(2).map(|w| (w[0], &s[w[0]..w[1]])).collect();
    ctx.eval(1);
    ctx.check(
        got == exp,
        || format!("{} indices:{}", k.name(), k.cls().show(s)),
        || format!("indices of {} of {:?}: expected {:?}, got {:?}", k.name(), s, exp, got),
    );
}
fn check_back(ctx: &Ctx, k: Kind, s: &str, o: &mut Obs) {
    let b = k.bounds(s);
    let exp = slices(s, &b);
    let lim = exp.len() + 4;
    let got = ctx.call(k.name(), s, || {
        let mut it = It::new(k, s, false);
        let mut v = vec![];
        while let Some((_, x)) = it.next_back() {
            v.push(x);
            if v.len() > lim {
                break;
            }
        }
        v.reverse();
        v
    });
    ctx.eval(1);
    let Some(got) = got else { return };
    if got != exp {
        ctx.fail(
            format!("{} from the back:{}", k.name(), k.cls().show(s)),
            format!(
                "{} from the back of {:?}\n  classes: {}\n  rules give {}\n  reversed iteration gave {}",
                k.name(),
                s,
                k.cls().show(s),
                show(&exp),
                show(&got)
            ),
        );
    }
    o.add("segments from the back", exp.len() as u64);
}
/// One interleaving; bit j of `pat` (cyclic) = step j from the back.
fn check_mix(ctx: &Ctx, k: Kind, s: &str, pat: &[bool], idx: bool, fork: Option<usize>) {
    let b = k.bounds(s);
    let n = b.len().saturating_sub(1);
    let mut log = String::new();
    let r = ctx.call(k.name(), s, || {
        let mut it = It::new(k, s, idx);
        let (mut lo, mut hi) = (0, n);
        let mut step = 0;
        loop {
            if fork == Some(step) {
                // a clone continues independently and identically
                it = it.clone();
            }
            let rest = it.as_str();
            let exp_rest = if n == 0 { "" } else { &s[b[lo]..b[hi]] };
            if rest != exp_rest {
                return Some(format!("after {}: remainder {:?}, expected {:?}", log, rest, exp_rest));
            }
            let (l, h) = it.size_hint();
            if l > hi - lo || h.is_some_and(|h| h < hi - lo) {
                return Some(format!("after {}: size_hint ({}, {:?}) with {} segments left", log, l, h, hi - lo));
            }
            let back = pat[step % pat.len()];
            let got = if back { it.next_back() } else { it.next() };
            let exp = if lo == hi {
                None
            } else if back {
                hi -= 1;
                Some((b[hi], &s[b[hi]..b[hi + 1]]))
            } else {
                lo += 1;
                Some((b[lo - 1], &s[b[lo - 1]..b[lo]]))
            };
            log.push(if back { 'B' } else { 'F' });
            let ok = match (got, exp) {
                (None, None) => true,
                (Some((i, x)), Some((j, y))) => x == y && i.is_none_or(|i| i == j),
                _ => false,
            };
            if !ok {
                return Some(format!("steps {}: got {:?}, expected {:?}", log, got, exp));
            }
            step += 1;
            if exp.is_none() {
                // stays exhausted in both directions
                if it.next().is_some() || it.next_back().is_some() || it.next().is_some() || !it.as_str().is_empty() {
                    return Some("not exhausted for good".into());
                }
                return None;
            }
        }
    });
    ctx.eval(1);
    if let Some(Some(m)) = r {
        ctx.fail(
            format!("{} mixed:{}:{}", k.name(), k.cls().show(s), m.split(':').next().unwrap_or("")),
            format!("{} of {:?} (classes {})\n  {}", k.name(), s, k.cls().show(s), m),
        );
    }
}
fn pats(n: usize, g: &mut Rng) -> Vec<Vec<bool>> {
    if n <= 4 {
        (0..1u32 << (n + 1)).map(|m| (0..=n).map(|i| m >> i & 1 == 1).collect()).collect()
    } else {
        let mut v: Vec<Vec<bool>> = (0..6).map(|_| (0..n + 2).map(|_| g.chance(1, 2)).collect()).collect();
        for cut in [1, 2, g.range(1, n)] {
            // some from the front, the rest from the back, and the converse
            v.push((0..n + 2).map(|i| i >= cut).collect());
            v.push((0..n + 2).map(|i| i < cut).collect());
        }
        v.push(vec![false, true]);
        v
    }
}

/// All class sequences of length <= max with the shortest representative of every class.
fn enumerate(ctx: &Ctx, k: Kind, max: usize, o: &str, f: impl Fn(&str, &mut Obs) + Sync) {
    let cl = k.cls();
    let n = cl.names.len();
    for len in 0..=max {
        let head = len.min(2);
        let jobs = n.pow(head as u32) as u64;
        par(jobs, |j| {
            if ctx.too_many() {
                return;
            }
            let mut ob = Obs::default();
            let mut d = vec![0usize; len];
            let mut x = j as usize;
            for q in d.iter_mut().take(head) {
                *q = x % n;
                x /= n;
            }
            let mut s = String::new();
            let mut cnt = 0u64;
            loop {
                s.clear();
                for q in &d {
                    s.push(cl.reps[*q]);
                }
                f(&s, &mut ob);
                cnt += 1;
                let mut p = head;
                while p < len {
                    d[p] += 1;
                    if d[p] < n {
                        break;
                    }
                    d[p] = 0;
                    p += 1;
                }
                if p >= len {
                    break;
                }
            }
            ob.add(&format!("{} (all class sequences of length {})", o, len), cnt);
            ctx.distinct_n(cnt);
            ctx.obs_all(&ob);
        });
        if ctx.too_many() {
            return;
        }
    }
}
/// Random text over the classes: uniform, few classes with long runs, or rule-shaped fragments.
pub fn text(k: Kind, g: &mut Rng, max: usize) -> String {
    let cl = k.cls();
    let n = cl.names.len() as u8;
    let len = match g.below(20) {
        0 => g.range(0, 3),
        1 => g.range(max, 3 * max),
        _ => g.range(2, max),
    };
    let style = g.below(5);
    let some: Vec<u8> = (0..g.range(2, 5)).map(|_| g.below(n as usize) as u8).collect();
    let mut s = String::new();
    let mut cnt = 0;
    while cnt < len {
        let kls: Vec<u8> = match style {
            0 => vec![g.below(n as usize) as u8],
            1 => vec![*g.pick(&some)],
            2 => {
                let q = *g.pick(&some);
                vec![q; g.range(1, 9)]
            }
            _ if k == Word => {
                let base: &[u8] = match g.below(9) {
                    0 => &[wc::LE, wc::MB, wc::HL],
                    1 => &[wc::HL, wc::DQ, wc::HL],
                    2 => &[wc::HL, wc::SQ],
                    3 => &[wc::NU, wc::MN, wc::NU],
                    4 => &[wc::LE, wc::EX, wc::KA],
                    5 => &[wc::EB, wc::EM],
                    6 => &[wc::RI, wc::RI, wc::RI],
                    7 => &[wc::ZWJ, wc::EBG],
                    _ => &[wc::NL, wc::LE],
                };
                let mut v = vec![];
                for q in base {
                    if !g.chance(1, 12) {
                        v.push(*q);
                    }
                    while g.chance(1, 4) {
                        v.push(*g.pick(&[wc::EXTEND, wc::FO, wc::ZWJ]));
                    }
                }
                v
            }
            _ => {
                let base: &[u8] = match g.below(8) {
                    0 => &[gc::EB, gc::EX, gc::EX, gc::EM],
                    1 => &[gc::RI, gc::RI, gc::RI],
                    2 => &[gc::ZWJ, gc::EBG, gc::EM],
                    3 => &[gc::L, gc::LV, gc::T],
                    4 => &[gc::PP, gc::RI, gc::RI],
                    5 => &[gc::PP, gc::EM],
                    6 => &[0, gc::SM, gc::EX],
                    _ => &[gc::CR, gc::LF],
                };
                let mut v = vec![];
                for q in base {
                    if !g.chance(1, 8) {
                        v.push(*q);
                    }
                    while g.chance(1, 8) {
                        v.push(g.below(n as usize) as u8);
                    }
                }
                v
            }
        };
        for q in kls {
            s.push(cl.pick(g, q));
            cnt += 1;
        }
    }
    s
}
impl Kind {
    fn stream(self, base: u64) -> u64 {
        base + self as u64
    }
}
fn random(ctx: &Ctx, k: Kind, stream: u64, n: u64, max: usize, f: impl Fn(&str, &mut Rng, &mut Obs) + Sync) {
    const B: u64 = 256;
    par(n.div_ceil(B), |blk| {
        if ctx.too_many() {
            return;
        }
        let mut o = Obs::default();
        for i in blk * B..((blk + 1) * B).min(n) {
            let mut g = Rng::new(ctx.seed, k.stream(stream), i);
            let s = text(k, &mut g, max);
            if s.chars().count() > 6 {
                ctx.distinct(fnv(s.as_bytes()));
            }
            o.add(&format!("random texts: {}", k.name()), 1);
            f(&s, &mut g, &mut o);
        }
        ctx.obs_all(&o);
    });
}
/// How long a stretch of filler is: around the limits of narrow counters, or some hundreds.
pub fn edge(g: &mut Rng, max: usize) -> usize {
    loop {
        let n = match g.below(8) {
            0 | 1 => g.range(250, 262),
            2 => g.range(120, 136),
            3 => g.range(505, 520),
            4 | 5 => g.range(65_525, 65_545),
            6 => g.range(32_760, 32_775),
            _ => g.range(20, 3000),
        };
        if n <= max {
            return n;
        }
    }
}
/// Random pieces before, between and after long stretches of a repeated class pattern.
pub fn long_text(k: Kind, g: &mut Rng, max: usize) -> String {
    let cl = k.cls();
    let n = cl.names.len();
    let ri = if k == Word { wc::RI } else { gc::RI };
    let mut s = String::new();
    for _ in 0..g.range(1, 3) {
        if g.chance(2, 3) {
            s.push_str(&text(k, g, 20));
        }
        let mut pat: Vec<u8> = (0..g.range(1, 3)).map(|_| g.below(n) as u8).collect();
        if g.chance(1, 8) {
            pat = vec![ri]; // the class that is counted
        }
        // going back, every word among regional indicators looks back to the start of the run
        let slow = k == Word && pat.contains(&wc::RI);
        let len = edge(g, if slow { max.min(3000) } else { max });
        let cs: Vec<char> = pat.iter().map(|q| if g.chance(1, 2) { cl.reps[*q as usize] } else { cl.pick(g, *q) }).collect();
        s.extend(cs.iter().cycle().take(len));
    }
    s.push_str(&text(k, g, 20));
    s
}
fn long_texts(ctx: &Ctx, k: Kind, stream: u64, n: u64, max: usize, f: impl Fn(&str, &mut Rng, &mut Obs) + Sync) {
    par(n, |i| {
        if ctx.too_many() {
            return;
        }
        let mut o = Obs::default();
        let mut g = Rng::new(ctx.seed, k.stream(stream), i);
        let s = long_text(k, &mut g, max);
        ctx.distinct(fnv(s.as_bytes()));
        o.add(&format!("long texts: {}", k.name()), 1);
        o.add(&format!("bytes of long texts: {}", k.name()), s.len() as u64);
        f(&s, &mut g, &mut o);
        ctx.obs_all(&o);
    });
}
/// Every character of the code space beside a fixed context: the class used by the segmenter is the
/// class of that character.
fn every_char(ctx: &Ctx, k: Kind) {
    // contexts that tell the classes apart
    let cl = k.cls();
    let ctxs: Vec<String> = (0..cl.names.len()).map(|q| cl.reps[q].to_string()).collect();
    par(0x1100, |blk| {
        if ctx.too_many() {
            return;
        }
        let mut o = Obs::default();
        for cp in blk as u32 * 256..(blk as u32 + 1) * 256 {
            let Some(c) = char::from_u32(cp) else { continue };
            let mut s = String::new();
            for x in &ctxs {
                s.push_str(x);
                s.push(c);
                s.push_str(x);
                s.push('x');
            }
            check_forward(ctx, k, &s, &mut o);
            o.add("characters placed before and after every class", 1);
        }
        ctx.distinct_n(256);
        ctx.obs_all(&o);
    });
}

pub fn c18(ctx: &Ctx) {
    ctx.rule("segments of Graphemes/GraphemeIndices, forward, compared with boundaries from GB1-GB999; distinct = class sequences enumerated plus random texts of more than 6 characters and texts with stretches around the limits of 8- and 16-bit counters");
    enumerate(ctx, Grapheme, ctx.n(5, 6) as usize, "class sequences", |s, o| check_forward(ctx, Grapheme, s, o));
    enumerate(ctx, Legacy, ctx.n(4, 5) as usize, "class sequences, legacy", |s, o| check_forward(ctx, Legacy, s, o));
    every_char(ctx, Grapheme);
    for k in [Grapheme, Legacy] {
        random(ctx, k, 0x180, ctx.n(200_000, 8_000_000), 40, |s, _, o| {
            check_forward(ctx, k, s, o);
            check_indices(ctx, k, s);
        });
    }
    for k in [Grapheme, Legacy] {
        long_texts(ctx, k, 0x184, ctx.n(400, 12_000), 70_000, |s, _, o| {
            check_forward(ctx, k, s, o);
            check_indices(ctx, k, s);
        });
    }
    ctx.assume("the character classes are those of /verif/ref/GCB.txt");
}
pub fn c21(ctx: &Ctx) {
    ctx.rule("segments of WordBounds/WordBoundIndices/Words, forward, compared with boundaries from WB1-WB999; distinct = class sequences enumerated plus random texts of more than 6 characters and texts with stretches around the limits of 8- and 16-bit counters");
    enumerate(ctx, Word, ctx.n(5, 5) as usize, "class sequences", |s, o| check_forward(ctx, Word, s, o));
    every_char(ctx, Word);
    random(ctx, Word, 0x180, ctx.n(200_000, 8_000_000), 40, |s, _, o| {
        check_forward(ctx, Word, s, o);
        check_indices(ctx, Word, s);
        words(ctx, s, false, o);
    });
    long_texts(ctx, Word, 0x184, ctx.n(600, 16_000), 70_000, |s, _, o| {
        check_forward(ctx, Word, s, o);
        check_indices(ctx, Word, s);
        words(ctx, s, false, o);
    });
    ctx.assume("the character classes are those of /verif/ref/WB.txt");
}
const FILTERS: [fn(&&str) -> bool; 5] = [
    |s| s.chars().any(|c| c.is_alphanumeric()),
    |_| true,
    |_| false,
    |s| s.len() % 2 == 1,
    |s| s.starts_with(|c: char| c < '\u{100}'),
];
fn words(ctx: &Ctx, s: &str, back: bool, o: &mut Obs) {
    let b = word_bounds(s);
    let all = slices(s, &b);
    for (i, f) in FILTERS.iter().enumerate() {
        let exp: Vec<&str> = all.iter().copied().filter(|x| f(x)).collect();
        let lim = exp.len() + 4;
        let got = ctx.call("Words", s, || {
            if back {
                let mut v: Vec<&str> = Words::new(s, *f).rev().take(lim).collect();
                v.reverse();
                v
            } else {
                Words::new(s, *f).take(lim).collect::<Vec<_>>()
            }
        });
        ctx.eval(1);
        let Some(got) = got else { return };
        o.add("filtered word sequences", 1);
        ctx.check(
            got == exp,
            || format!("Words filter {}{}:{}", i, if back { " rev" } else { "" }, wcls().show(s)),
            || format!("Words of {:?} with filter #{}: expected {}, got {}", s, i, show(&exp), show(&got)),
        );
    }
}
fn mixed(ctx: &Ctx, k: Kind, o: &mut Obs, s: &str, g: &mut Rng) {
    let n = k.bounds(s).len().saturating_sub(1);
    for p in pats(n, g) {
        let fork = if g.chance(1, 4) { Some(g.below(n + 1)) } else { None };
        check_mix(ctx, k, s, &p, g.chance(1, 2), fork);
        o.add("interleavings of front and back steps", 1);
    }
}
pub fn c19(ctx: &Ctx) {
    ctx.rule("iteration from the back and in mixtures compared with the forward boundary model; distinct = class sequences enumerated plus random texts of more than 6 characters and texts with stretches around the limits of 8- and 16-bit counters");
    enumerate(ctx, Grapheme, ctx.n(5, 6) as usize, "class sequences", |s, o| check_back(ctx, Grapheme, s, o));
    enumerate(ctx, Legacy, ctx.n(4, 5) as usize, "class sequences, legacy", |s, o| check_back(ctx, Legacy, s, o));
    for k in [Grapheme, Legacy] {
        enumerate(ctx, k, ctx.n(3, 4) as usize, "class sequences, all interleavings", |s, o| {
            mixed(ctx, k, o, s, &mut Rng::new(ctx.seed, 0x190, fnv(s.as_bytes())))
        });
        random(ctx, k, 0x191, ctx.n(150_000, 4_000_000), 30, |s, g, o| {
            check_back(ctx, k, s, o);
            mixed(ctx, k, o, s, g);
        });
        long_texts(ctx, k, 0x195, ctx.n(300, 10_000), 70_000, |s, _, o| check_back(ctx, k, s, o));
        long_texts(ctx, k, 0x199, ctx.n(100, 3_000), 1_500, |s, g, o| mixed(ctx, k, o, s, g));
    }
}
pub fn c22(ctx: &Ctx) {
    ctx.rule("iteration from the back and in mixtures compared with the forward boundary model; distinct = class sequences enumerated plus random texts of more than 6 characters and texts with stretches around the limits of 8- and 16-bit counters");
    enumerate(ctx, Word, ctx.n(5, 5) as usize, "class sequences", |s, o| check_back(ctx, Word, s, o));
    enumerate(ctx, Word, ctx.n(3, 4) as usize, "class sequences, all interleavings", |s, o| {
        mixed(ctx, Word, o, s, &mut Rng::new(ctx.seed, 0x220, fnv(s.as_bytes())))
    });
    random(ctx, Word, 0x221, ctx.n(150_000, 6_000_000), 30, |s, g, o| {
        check_back(ctx, Word, s, o);
        words(ctx, s, true, o);
        mixed(ctx, Word, o, s, g);
    });
    long_texts(ctx, Word, 0x225, ctx.n(400, 12_000), 70_000, |s, _, o| {
        check_back(ctx, Word, s, o);
        words(ctx, s, true, o);
    });
    long_texts(ctx, Word, 0x229, ctx.n(150, 3_000), 1_500, |s, g, o| mixed(ctx, Word, o, s, g));
}

// ---------------------------------------------------------------- C20: the cursor

/// Chunk division: char-boundary offsets 0 = c0 < c1 < ... < ck = len.
struct Text<'a> {
    s: &'a str,
    cuts: Vec<usize>,
}
impl Text<'_> {
    fn chunk_at(&self, o: usize) -> (usize, usize) {
        let i = self.cuts.partition_point(|c| *c <= o);
        (self.cuts[i - 1], self.cuts[i])
    }
    fn chunk_ending_after(&self, o: usize) -> (usize, usize) {
        // the chunk that contains the character before offset o
        let i = self.cuts.partition_point(|c| *c < o);
        (self.cuts[i - 1], self.cuts[i])
    }
}
struct Driver<'a> {
    t: &'a Text<'a>,
    cur: GraphemeCursor,
    pos: usize,
    bounds: Vec<usize>,
    log: Vec<String>,
    requests: u64,
    misplaced: u64,
    /// how provided context is sized
    ctx_style: usize,
}
type R = Result<(), String>;
impl Driver<'_> {
    fn give(&mut self, off: usize, start: usize, at: usize, g: &mut Rng) -> R {
        self.requests += 1;
        if off == 0 || off > self.t.s.len() || off > at.max(self.pos) || !self.t.s.is_char_boundary(off) || start == 0 {
            return Err(format!("asked for context before offset {} (chunk starts at {})", off, start));
        }
        let (mut a, _) = self.t.chunk_ending_after(off);
        match self.ctx_style {
            0 => {}
            1 => {
                // one character only
                a = self.t.s[..off].char_indices().next_back().unwrap().0
            }
            2 => a = 0,
            _ => {
                let cand: Vec<usize> = self.t.s[..off].char_indices().rev().take(4).map(|x| x.0).collect();
                a = *g.pick(&cand);
            }
        }
        self.log.push(format!("provide_context([{}..{}])", a, off));
        self.cur.provide_context(&self.t.s[a..off], a);
        Ok(())
    }
    fn is_boundary(&mut self, g: &mut Rng) -> R {
        let (a, b) = if self.pos == self.t.s.len() { (*self.t.cuts.iter().rev().nth(1).unwrap(), self.t.s.len()) } else { self.t.chunk_at(self.pos) };
        for _ in 0..self.t.s.len() + 4 {
            self.log.push(format!("is_boundary([{}..{}]) at {}", a, b, self.pos));
            match self.cur.is_boundary(&self.t.s[a..b], a) {
                Ok(x) => {
                    let e = self.bounds.binary_search(&self.pos).is_ok();
                    if x != e {
                        return Err(format!("is_boundary at {} = {}, expected {}", self.pos, x, e));
                    }
                    if self.cur.cur_cursor() != self.pos {
                        return Err(format!("is_boundary moved the cursor to {}", self.cur.cur_cursor()));
                    }
                    return Ok(());
                }
                Err(GraphemeIncomplete::PreContext(o)) => self.give(o, a, self.pos, g)?,
                Err(e) => return Err(format!("is_boundary at {} with chunk [{}..{}]: {:?}", self.pos, a, b, e)),
            }
        }
        Err("is_boundary keeps asking".into())
    }
    fn next(&mut self, g: &mut Rng) -> R {
        let len = self.t.s.len();
        let exp = self.bounds.get(self.bounds.partition_point(|x| *x <= self.pos)).copied();
        let (mut a, mut b) =
            if self.pos == len { (*self.t.cuts.iter().rev().nth(1).unwrap(), len) } else { self.t.chunk_at(self.pos) };
        for _ in 0..2 * len + 4 {
            self.log.push(format!("next_boundary([{}..{}]) at {}", a, b, self.pos));
            match self.cur.next_boundary(&self.t.s[a..b], a) {
                Ok(x) => {
                    if x != exp {
                        return Err(format!("next_boundary from {} = {:?}, expected {:?}", self.pos, x, exp));
                    }
                    if let Some(x) = x {
                        self.pos = x;
                    }
                    if self.cur.cur_cursor() != self.pos {
                        return Err(format!("cur_cursor() = {} after moving to {}", self.cur.cur_cursor(), self.pos));
                    }
                    return Ok(());
                }
                Err(GraphemeIncomplete::PreContext(o)) => self.give(o, a, b, g)?,
                Err(GraphemeIncomplete::NextChunk) => {
                    self.requests += 1;
                    if b == len {
                        return Err("asked for a chunk after the end".into());
                    }
                    let (x, y) = self.t.chunk_at(b);
                    a = x;
                    b = y;
                }
                Err(e) => return Err(format!("next_boundary from {} with chunk [{}..{}]: {:?}", self.pos, a, b, e)),
            }
        }
        Err("next_boundary keeps asking".into())
    }
    fn prev(&mut self, g: &mut Rng) -> R {
        let len = self.t.s.len();
        let exp = self.bounds[..self.bounds.partition_point(|x| *x < self.pos)].last().copied();
        // either the chunk holding the character before the cursor or (documented for is_boundary) the one after it
        let (mut a, mut b) = if self.pos == 0 {
            self.t.chunk_at(0)
        } else if self.pos < len && g.chance(1, 3) {
            self.t.chunk_at(self.pos)
        } else {
            self.t.chunk_ending_after(self.pos)
        };
        for _ in 0..2 * len + 4 {
            self.log.push(format!("prev_boundary([{}..{}]) at {}", a, b, self.pos));
            match self.cur.prev_boundary(&self.t.s[a..b], a) {
                Ok(x) => {
                    if x != exp {
                        return Err(format!("prev_boundary from {} = {:?}, expected {:?}", self.pos, x, exp));
                    }
                    if let Some(x) = x {
                        self.pos = x;
                    }
                    if self.cur.cur_cursor() != self.pos {
                        return Err(format!("cur_cursor() = {} after moving to {}", self.cur.cur_cursor(), self.pos));
                    }
                    return Ok(());
                }
                Err(GraphemeIncomplete::PreContext(o)) => self.give(o, a, self.pos, g)?,
                Err(GraphemeIncomplete::PrevChunk) => {
                    self.requests += 1;
                    if a == 0 {
                        return Err("asked for a chunk before the start".into());
                    }
                    let (x, y) = self.t.chunk_ending_after(a);
                    a = x;
                    b = y;
                }
                Err(e) => return Err(format!("prev_boundary from {} with chunk [{}..{}]: {:?}", self.pos, a, b, e)),
            }
        }
        Err("prev_boundary keeps asking".into())
    }
    /// Starts a move, drops it at the first request and repositions the cursor.
    fn abandon(&mut self, back: bool, to: usize) -> R {
        let len = self.t.s.len();
        if !back && self.pos < len {
            let (a, b) = self.t.chunk_at(self.pos);
            self.log.push(format!("next_boundary([{}..{}]) at {} (result ignored)", a, b, self.pos));
            let _ = self.cur.next_boundary(&self.t.s[a..b], a);
        } else if back && self.pos > 0 {
            let (a, b) = self.t.chunk_ending_after(self.pos);
            self.log.push(format!("prev_boundary([{}..{}]) at {} (result ignored)", a, b, self.pos));
            let _ = self.cur.prev_boundary(&self.t.s[a..b], a);
        }
        self.set(to);
        Ok(())
    }
    /// Offers a chunk that does not hold the cursor: refused (or answered correctly, when the answer is
    /// already known), never a panic, and what follows is not disturbed.
    fn misplaced(&mut self, which: usize, g: &mut Rng) -> R {
        let k = g.below(self.t.cuts.len() - 1);
        let (a, b) = (self.t.cuts[k], self.t.cuts[k + 1]);
        if a <= self.pos && self.pos <= b {
            // a chunk that ends at the cursor lacks the character after it
            if !(self.pos == b && b < self.t.s.len() && self.log.last().map_or(false, |l| l.starts_with("set_cursor") || l.starts_with("new"))) {
                return Ok(());
            }
        }
        if self.pos == 0 || self.pos == self.t.s.len() {
            return Ok(());
        }
        self.requests += 1;
        let c = &self.t.s[a..b];
        let name = ["is_boundary", "next_boundary", "prev_boundary"][which];
        if which == 2 && a <= self.pos && self.pos <= b {
            return Ok(());
        }
        self.log.push(format!("{}([{}..{}]) at {} (misplaced)", name, a, b, self.pos));
        let got = match which {
            0 => self.cur.is_boundary(c, a).map(|x| (x == self.bounds.binary_search(&self.pos).is_ok(), format!("{}", x))),
            1 => self.cur.next_boundary(c, a).map(|x| (false, format!("{:?}", x))),
            _ => self.cur.prev_boundary(c, a).map(|x| (false, format!("{:?}", x))),
        };
        let at_end = which == 1 && self.pos == b;
        match got {
            Ok((true, _)) | Err(GraphemeIncomplete::InvalidOffset) => {}
            Err(GraphemeIncomplete::NextChunk) if at_end => {}
            Err(GraphemeIncomplete::PrevChunk) if which == 2 && self.pos == a => {}
            e => return Err(format!("{} at {} with the chunk [{}..{}] = {:?}", name, self.pos, a, b, e)),
        }
        if self.cur.cur_cursor() != self.pos {
            return Err(format!("a refused {} moved the cursor to {}", name, self.cur.cur_cursor()));
        }
        self.misplaced += 1;
        Ok(())
    }
    /// Asks is_boundary until the first context is given, then offers a misplaced chunk before going on.
    fn interrupted(&mut self, g: &mut Rng) -> R {
        if self.pos < self.t.s.len() {
            let (a, b) = self.t.chunk_at(self.pos);
            self.log.push(format!("is_boundary([{}..{}]) at {}", a, b, self.pos));
            if let Err(GraphemeIncomplete::PreContext(o)) = self.cur.is_boundary(&self.t.s[a..b], a) {
                if g.chance(2, 3) {
                    self.give(o, a, self.pos, g)?;
                }
                let which = g.below(3);
                self.misplaced(which, g)?;
            }
        }
        self.is_boundary(g)
    }
    fn set(&mut self, to: usize) {
        self.log.push(format!("set_cursor({})", to));
        self.cur.set_cursor(to);
        self.pos = to;
    }
}
/// One cursor session.
fn session(ctx: &Ctx, s: &str, cuts: Vec<usize>, ext: bool, start: usize, g: &mut Rng, steps: usize, o: &mut Obs, mode: usize) {
    let t = Text { s, cuts };
    let bounds = grapheme_bounds(s, ext);
    let positions: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
    let cell = std::cell::RefCell::new(Driver {
        t: &t,
        cur: if ext { GraphemeCursor::new(start, s.len()) } else { GraphemeCursor::new_legacy(start, s.len()) },
        pos: start,
        bounds,
        log: vec![format!("new{}({}, {})", if ext { "" } else { "_legacy" }, start, s.len())],
        requests: 0,
        misplaced: 0,
        ctx_style: g.below(4),
    });
    let out = ctx.guard(s, || {
        let mut d = cell.borrow_mut();
        for i in 0..steps {
            match if mode < 3 { mode } else { g.below(10) } {
                0 => d.is_boundary(g)?,
                1 | 3 => d.next(g)?,
                2 | 4 => d.prev(g)?,
                5 => {
                    let p = *g.pick(&positions);
                    d.set(p)
                }
                6 => {
                    let p = *g.pick(&positions);
                    d.abandon(g.chance(1, 2), p)?
                }
                8 => {
                    let which = g.below(3);
                    d.misplaced(which, g)?
                }
                9 => d.interrupted(g)?,
                _ => {
                    if i > 0 {
                        d.is_boundary(g)?
                    }
                }
            }
        }
        Ok::<(), String>(())
    });
    ctx.eval(1);
    let d = match cell.try_borrow() {
        Ok(d) => d,
        Err(_) => {
            ctx.harness_fail();
            return;
        }
    };
    o.add("context and chunk requests answered", d.requests);
    o.add("misplaced chunks refused", d.misplaced);
    o.add("cursor operations", d.log.len() as u64);
    let m = match out {
        Outcome::Ok(Ok(())) => return,
        Outcome::Ok(Err(m)) => m,
        Outcome::Panic(m) if m.contains("at src/") => return,
        Outcome::Panic(m) => format!("panic {}", m),
    };
    let first: Vec<&str> = m.split(' ').take(3).collect();
    ctx.fail(
        format!("cursor:{}:{}:{:?}", first.join(" "), gcls().show(s), t.cuts),
        format!("text {:?}\n  classes {}\n  chunk cuts {:?}, extended={}\n  {}\n  calls: {}", s, gcls().show(s), t.cuts, ext, m, d.log.join("; ")),
    );
}
fn all_cuts(s: &str) -> Vec<Vec<usize>> {
    let inner: Vec<usize> = s.char_indices().map(|x| x.0).skip(1).collect();
    (0..1u32 << inner.len())
        .map(|m| {
            let mut v = vec![0];
            v.extend(inner.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| x.1));
            v.push(s.len());
            v
        })
        .collect()
}
pub fn c20(ctx: &Ctx) {
    ctx.rule("GraphemeCursor sessions driven by the documented request protocol (with misplaced chunks offered in between), answers compared with the boundary model on the undivided text; distinct = (class sequence, division, start position) triples enumerated plus random sessions");
    // every class sequence of length <= 3 (4), every division, every start position: query, next to the end, prev to the start
    for (ext, max) in [(true, ctx.n(4, 5)), (false, ctx.n(3, 4))] {
        enumerate(ctx, Grapheme, max as usize, "class sequences with every division and start", |s, o| {
            if s.is_empty() {
                return;
            }
            let pos: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
            let mut g = Rng::new(ctx.seed, 0x200, fnv(s.as_bytes()));
            for cuts in all_cuts(s) {
                for p in &pos {
                    for mode in 0..3 {
                        session(ctx, s, cuts.clone(), ext, *p, &mut g, if mode == 0 { 1 } else { 5 }, o, mode);
                    }
                    o.add("triples", 1);
                    ctx.distinct_n(1);
                }
            }
        });
    }
    for k in [Grapheme, Legacy] {
        long_texts(ctx, k, 0x205, ctx.n(150, 5_000), 1_500, |s, g, o| {
            let pos: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
            for _ in 0..3 {
                let den = *g.pick(&[1, 10, 100, 1000]);
                let mut cuts = vec![0];
                cuts.extend(pos[1..pos.len() - 1].iter().filter(|_| g.chance(1, den)));
                cuts.push(s.len());
                let start = if g.chance(1, 3) { s.len() } else { *g.pick(&pos) };
                let mode = g.below(7);
                session(ctx, s, cuts, k == Grapheme, start, g, if mode == 0 { 2 } else { 60 }, o, mode);
                o.add("sessions on long texts", 1);
            }
        });
    }
    // walks over texts longer than a 16-bit counter holds
    for k in [Grapheme, Legacy] {
        long_texts(ctx, k, 0x209, ctx.n(100, 2_000), 70_000, |s, g, o| {
            let pos: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
            let den = *g.pick(&[100, 1000, 10_000, 1 << 20]);
            let mut cuts = vec![0];
            cuts.extend(pos[1..pos.len() - 1].iter().filter(|_| g.chance(1, den)));
            cuts.push(s.len());
            let mode = g.range(1, 4);
            let start = match (mode, g.below(3)) {
                (_, 0) => *g.pick(&pos),
                (1, _) => 0,
                _ => s.len(),
            };
            session(ctx, s, cuts, k == Grapheme, start, g, if mode < 3 { pos.len() + 2 } else { 40 }, o, mode);
            o.add("walks over very long texts", 1);
        });
    }
    for k in [Grapheme, Legacy] {
        random(ctx, k, 0x201, ctx.n(200_000, 8_000_000), 14, |s, g, o| {
            if s.is_empty() {
                return;
            }
            let pos: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
            for _ in 0..4 {
                let den = *g.pick(&[1, 2, 5]);
                let mut cuts = vec![0];
                for p in &pos[1..pos.len() - 1] {
                    if g.chance(1, den) {
                        cuts.push(*p);
                    }
                }
                cuts.push(s.len());
                let start = *g.pick(&pos);
                let mode = g.below(7);
                let steps = if mode == 0 { 2 } else { pos.len() + 3 };
                session(ctx, s, cuts, k == Grapheme, start, g, steps, o, mode);
                o.add("random sessions", 1);
            }
        });
    }
}
