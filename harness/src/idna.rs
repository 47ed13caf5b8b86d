//! Punycode (C27) and IDNA processing (C29).
use crate::ctx::{cps, fnv, par, Ctx, Obs};
use crate::data::bc_ref;
use crate::normal::{compose, decompose};
use crate::refdata as r;
use crate::rng::Rng;
use std::collections::HashMap;
use std::sync::OnceLock;

// ---------------------------------------------------------------- RFC 3492, section 6
const MAXINT: u64 = u32::MAX as u64;
fn adapt(delta: u64, numpoints: u64, first: bool) -> u64 {
    let mut d = if first { delta / 700 } else { delta / 2 };
    d += d / numpoints;
    let mut k = 0;
    while d > 455 {
        d /= 35;
        k += 36;
    }
    k + 36 * d / (d + 38)
}
fn thr(k: u64, bias: u64) -> u64 {
    if k <= bias { 1 } else { (k - bias).min(26) }
}
pub fn rfc_encode(s: &[char]) -> Option<String> {
    let mut out: String = s.iter().filter(|c| c.is_ascii()).collect();
    let b = out.len() as u64;
    if b > 0 {
        out.push('-');
    }
    let mut todo: Vec<u64> = s.iter().filter(|c| !c.is_ascii()).map(|c| *c as u64).collect();
    todo.sort_unstable();
    todo.dedup();
    let (mut n, mut delta, mut bias, mut h) = (128u64, 0u64, 72u64, b);
    for m in todo {
        delta += (m - n) * (h + 1);
        if delta > MAXINT {
            return None;
        }
        n = m;
        for c in s {
            let c = *c as u64;
            if c < n {
                delta += 1;
                if delta > MAXINT {
                    return None;
                }
            } else if c == n {
                let mut q = delta;
                let mut k = 36;
                loop {
                    let t = thr(k, bias);
                    let d = if q < t { q } else { t + (q - t) % (36 - t) };
                    out.push(b"abcdefghijklmnopqrstuvwxyz0123456789"[d as usize] as char);
                    if q < t {
                        break;
                    }
                    q = (q - t) / (36 - t);
                    k += 36;
                }
                bias = adapt(delta, h + 1, h == b);
                delta = 0;
                h += 1;
            }
        }
        delta += 1;
        n += 1;
    }
    Some(out)
}
pub fn rfc_decode(s: &str) -> Option<Vec<char>> {
    let v: Vec<char> = s.chars().collect();
    let b = v.iter().rposition(|c| *c == '-').unwrap_or(0);
    let mut out: Vec<char> = v[..b].to_vec();
    if !out.iter().all(|c| c.is_ascii()) {
        return None;
    }
    let mut p = if b > 0 { b + 1 } else { 0 };
    let (mut n, mut i, mut bias) = (128u64, 0u64, 72u64);
    while p < v.len() {
        let old = i;
        let (mut w, mut k) = (1u64, 36u64);
        loop {
            let c = *v.get(p)?;
            p += 1;
            let d = match c {
                'a'..='z' => c as u64 - 97,
                'A'..='Z' => c as u64 - 65,
                '0'..='9' => c as u64 - 48 + 26,
                _ => return None,
            };
            if d * w > MAXINT - i {
                return None;
            }
            i += d * w;
            let t = thr(k, bias);
            if d < t {
                break;
            }
            w *= 36 - t;
            if w > MAXINT {
                return None;
            }
            k += 36;
        }
        let len = out.len() as u64 + 1;
        bias = adapt(i - old, len, old == 0);
        n += i / len;
        if n > MAXINT {
            return None;
        }
        i %= len;
        out.insert(i as usize, char::from_u32(u32::try_from(n).ok()?)?);
        i += 1;
    }
    Some(out)
}

/// The digits of one delta, with thresholds of the given bias.
fn varint(mut q: u64, bias: u64, out: &mut String) {
    let mut k = 36;
    loop {
        let t = thr(k, bias);
        let d = if q < t { q } else { t + (q - t) % (36 - t) };
        out.push(b"abcdefghijklmnopqrstuvwxyz0123456789"[d as usize] as char);
        if q < t {
            return;
        }
        q = (q - t) / (36 - t);
        k += 36;
    }
}

struct W<'a> {
    ctx: &'a Ctx,
    ev: u64,
    obs: Obs,
}
impl<'a> W<'a> {
    fn new(ctx: &'a Ctx) -> W<'a> {
        W { ctx, ev: 0, obs: Obs::default() }
    }
    fn done(self) {
        self.ctx.eval(self.ev);
        self.ctx.obs_all(&self.obs);
    }
    fn enc(&mut self, s: &[char]) -> Option<String> {
        use unic_idna_punycode as p;
        let txt: String = s.iter().collect();
        self.ev += 1;
        let want = rfc_encode(s);
        let (a, b) = self.ctx.call("punycode encode", &txt, || (p::encode(s), p::encode_str(&txt)))?;
        let short = |x: &Option<String>| format!("{:?}", x.as_ref().map(|t| t.chars().take(200).collect::<String>()));
        if a != want || b != want {
            self.ctx.fail(
                format!("encode:{:x}:{}", fnv(txt.as_bytes()), cps(&txt)),
                format!("encode({} characters: {}) expected {}, encode gave {}, encode_str {}", s.len(), cps(&txt), short(&want), short(&a), short(&b)),
            );
        }
        match &a {
            None => self.obs.add("encodings that exceed the limits", 1),
            Some(e) => {
                if s.iter().any(|c| !c.is_ascii()) {
                    self.ctx.distinct(fnv(txt.as_bytes()));
                }
                self.obs.add("encodings", 1);
                self.dec(e);
                let back = self.ctx.call("punycode decode", e, || p::decode(e))?;
                self.obs.add("round trips", 1);
                if back.as_deref() != Some(s) {
                    self.ctx.fail(format!("roundtrip:{}", cps(&txt)), format!("{} encodes to {:?}, which decodes to {:?}", cps(&txt), short(&Some(e.clone())), back.map(|b| cps(&b.iter().collect::<String>()))));
                }
            }
        }
        a
    }
    fn dec(&mut self, s: &str) {
        use unic_idna_punycode as p;
        self.ev += 1;
        let want = rfc_decode(s);
        let Some((a, b)) = self.ctx.call("punycode decode", s, || (p::decode(s), p::decode_to_string(s))) else { return };
        let ws: Option<String> = want.as_ref().map(|v| v.iter().collect());
        if a != want || b != ws {
            self.ctx.fail(
                format!("decode:{:x}:{}", fnv(s.as_bytes()), s.chars().take(300).collect::<String>()),
                format!("decode({:?}) expected {:?}, decode gave {:?}, decode_to_string {:?}", s.chars().take(300).collect::<String>(), ws.map(|x| cps(&x)), a.map(|x| cps(&x.iter().collect::<String>())), b.map(|x| cps(&x))),
            );
        }
        match want {
            None => self.obs.add("decodings that fail", 1),
            Some(v) if v.iter().any(|c| !c.is_ascii()) => {
                self.obs.add("decodings to non-ASCII text", 1);
                self.ctx.distinct(fnv(s.as_bytes()));
            }
            Some(_) => self.obs.add("decodings to ASCII text", 1),
        }
    }
}

fn any_char(g: &mut Rng) -> char {
    loop {
        let u = match g.below(9) {
            0 => g.below(0x80),
            1 => g.range(0x80, 0xFF),
            2 => g.range(0x100, 0x7FF),
            3 => g.range(0x800, 0xFFFF),
            4 => g.range(0x10000, 0x10FFFF),
            5 => *g.pick(&[0x7F, 0x80, 0x81, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x10FFFE]),
            6 => g.range(0x4E00, 0x9FFF),
            7 => g.range(0x5D0, 0x64A),
            _ => g.range(0x61, 0x7A),
        };
        if let Some(c) = char::from_u32(u as u32) {
            return c;
        }
    }
}

/// One Punycode text whose last delta is at a limit of the decoder.
pub fn crafted(g: &mut Rng) -> String {
    let basic = if g.chance(1, 2) { 0 } else { g.below(21) as u64 };
    let mut d = "a".repeat(basic as usize);
    if basic > 0 {
        d.push('-');
    }
    let (mut n, mut at, mut bias, mut len) = (128u64, 0u64, 72u64, basic + 1);
    let earlier = g.below(4);
    for j in 0..=earlier {
        let delta = if j < earlier {
            let m = *g.pick(&[3usize, 50, 5000, 200_000]);
            g.below(m) as u64
        } else {
            let edge = match g.below(6) {
                0 => (0x110000 - n) * len,
                1 => 0xD800u64.saturating_sub(n) * len,
                2 => 0xE000u64.saturating_sub(n) * len,
                3 => (1u64 << 32) - n * len,
                4 => (1u64 << 32) - at,
                _ => (1u64 << 32) - n,
            };
            (edge + g.below(300) as u64).saturating_sub(150 + at)
        };
        let old = at;
        varint(delta, bias, &mut d);
        at += delta;
        bias = adapt(delta, len, old == 0);
        n += at / len;
        at = at % len + 1;
        len += 1;
    }
    if g.chance(1, 20) {
        d.make_ascii_uppercase();
    }
    d
}

pub fn c27(ctx: &Ctx) {
    ctx.rule("encode/encode_str/decode/decode_to_string against RFC 3492 section 6 (with a 32-bit maxint); strings: all ASCII strings up to length 4 over 40 characters for decoding, every scalar value in 4 contexts, random strings of many scripts, encodings mutated (case, truncation, insertion, non-ASCII), strings long enough to exceed the arithmetic limits; non-trivial: distinct cases whose plain form is not ASCII");
    ctx.assume("reference: RFC 3492 transcribed independently with 64-bit arithmetic and explicit 32-bit limits");
    // every scalar value
    par(0x110, |b| {
        let mut w = W::new(ctx);
        for i in 0..0x1000u32 {
            if let Some(c) = char::from_u32(b as u32 * 0x1000 + i) {
                w.enc(&[c]);
                if i % 4 == 0 || ctx.thorough() {
                    w.enc(&['a', c]);
                    w.enc(&[c, '-', 'Z']);
                    w.enc(&['\u{e9}', c, '\u{4e00}', c]);
                }
            }
        }
        w.done();
    });
    // all short inputs of the decoder
    let al: Vec<char> = "abcdefghijklmnopqrstuvwxyz0123456789-AZé".chars().collect();
    let n = al.len() as u64;
    par(n * n, |i| {
        let mut w = W::new(ctx);
        let (a, b) = (al[(i / n) as usize], al[(i % n) as usize]);
        if i == 0 {
            w.dec("");
        }
        if i < n {
            w.dec(&String::from(b));
        }
        w.dec(&[a, b].iter().collect::<String>());
        for c in &al {
            w.dec(&[a, b, *c].iter().collect::<String>());
            for d in &al {
                w.dec(&[a, b, *c, *d].iter().collect::<String>());
            }
        }
        w.done();
    });
    // random
    let m = ctx.n(400_000, 12_000_000);
    par(m / 1000, |i| {
        let mut w = W::new(ctx);
        let mut g = Rng::new(ctx.seed, 27, i);
        for j in 0..1000 {
            let len = if g.chance(1, 30) { g.range(30, 300) } else { g.range(0, 14) };
            let s: Vec<char> = match g.below(4) {
                0 => (0..len).map(|_| any_char(&mut g)).collect(),
                1 => {
                    let base = any_char(&mut g) as usize;
                    (0..len).map(|_| char::from_u32((base + g.below(40)) as u32).unwrap_or('\u{3b1}')).collect()
                }
                2 => (0..len).map(|_| if g.chance(3, 4) { *g.pick(&['a', 'b', '-', 'Z', '0', ' ', '\u{7f}']) } else { any_char(&mut g) }).collect(),
                _ => {
                    let p: Vec<char> = (0..3).map(|_| any_char(&mut g)).collect();
                    (0..len).map(|_| *g.pick(&p)).collect()
                }
            };
            let e = w.enc(&s);
            if i == 0 && j < 5 {
                ctx.sample(|| format!("{} <-> {:?}", cps(&s.iter().collect::<String>()), e));
            }
            // mutate the encoding
            let mut t: Vec<char> = match e {
                Some(e) => e.chars().collect(),
                None => continue,
            };
            for _ in 0..3 {
                match g.below(8) {
                    0 => {
                        let k = g.below(t.len() + 1);
                        t.truncate(k);
                    }
                    1 => {
                        let k = g.below(t.len() + 1);
                        let c = *g.pick(&al);
                        t.insert(k, c);
                    }
                    2 if !t.is_empty() => {
                        let k = g.below(t.len());
                        t[k] = *g.pick(&al);
                    }
                    3 => t.iter_mut().for_each(|c| *c = c.to_ascii_uppercase()),
                    4 if !t.is_empty() => {
                        let k = g.below(t.len());
                        t[k] = *g.pick(&['9', '9', 'z', '-']);
                    }
                    5 => {
                        for _ in 0..g.below(8) {
                            t.push(*g.pick(&['9', '9', '9', '8', 'z', 'a']));
                        }
                    }
                    6 if !t.is_empty() => {
                        let k = g.below(t.len());
                        t[k] = any_char(&mut g);
                    }
                    _ if !t.is_empty() => {
                        let k = g.below(t.len());
                        t.remove(k);
                    }
                    _ => {}
                }
                w.dec(&t.iter().collect::<String>());
            }
            // pure digit soup
            let d: String = (0..g.range(1, 12)).map(|_| *g.pick(&al[..36])).collect();
            w.dec(&d);
        }
        w.done();
    });
    // near and beyond the arithmetic limits
    par(ctx.n(60, 600), |i| {
        let mut w = W::new(ctx);
        let mut g = Rng::new(ctx.seed, 28, i);
        let top = *g.pick(&['\u{10FFFF}', '\u{10FFFF}', '\u{FFFFF}', '\u{20000}', '\u{FFFF}']);
        // (top - 0x80) * (n + 1) crosses 2^32 at this length
        let crit = ((1u64 << 32) / (top as u64 - 0x80)) as usize;
        let n = match i % 4 {
            0 => crit - 1,
            1 => crit,
            2 => crit + 1 + g.below(50),
            _ => crit.saturating_sub(g.below(12)),
        }
        .min(80_000);
        let mut s: Vec<char> = vec!['a'; n];
        match g.below(4) {
            0 => s.push(top),
            1 => s.insert(0, top),
            2 => {
                let k = g.below(n + 1);
                s.insert(k, top);
                let k = g.below(n + 1);
                s.insert(k, '\u{e9}');
            }
            _ => {
                let k = g.below(n + 1);
                s.insert(k, top);
                s.push(top);
            }
        }
        w.obs.add("strings around the arithmetic limit", 1);
        w.enc(&s);
        // and for the decoder: deltas of growing weight
        for _ in 0..200 {
            let mut d: String = if g.chance(1, 2) { String::new() } else { "a".repeat(g.below(20)) + "-" };
            for _ in 0..g.range(4, 14) {
                d.push(*g.pick(&['9', '9', '9', '8', '7', 'z', 'y', 'p', 'b', 'a']));
            }
            w.dec(&d);
        }
        w.done();
    });
    // hand-made deltas around every limit of the decoder: the end of the code space, the surrogates, and
    // 32 bits of the index, of the weight and of the code point, after 0 to 20 basic characters and up to
    // three earlier insertions
    par(ctx.n(400, 4000), |i| {
        let mut w = W::new(ctx);
        let mut g = Rng::new(ctx.seed, 29, i);
        for _ in 0..200 {
            let d = crafted(&mut g);
            w.obs.add("deltas crafted around the decoder's limits", 1);
            w.dec(&d);
        }
        w.done();
    });
    // mixed-case digits
    let mut w = W::new(ctx);
    for s in ["Hxvn1I", "-", "--", "---", "a-", "-a", "--a", "a--", "99999999", "9999999999999", "ls8H", "0", "é-", "é", "-é", "a-é", "ab c-x", "\u{ff10}"] {
        w.dec(s);
    }
    w.done();
}

// ---------------------------------------------------------------- UTS #46, section 4
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct F {
    pub std3: bool,
    pub trans: bool,
    pub dns: bool,
}
fn nfc(s: &str) -> String {
    let v: Vec<char> = s.chars().collect();
    compose(&decompose(&v, false)).into_iter().collect()
}
fn bidi_rule(label: &str) -> bool {
    let v: Vec<&str> = label.chars().map(bc_ref).collect();
    if v.is_empty() {
        return true;
    }
    let last = v.iter().rev().find(|c| **c != "NSM").copied();
    match v[0] {
        "L" => v.iter().all(|c| matches!(*c, "L" | "EN" | "ES" | "CS" | "ET" | "ON" | "BN" | "NSM")) && matches!(last, Some("L" | "EN")),
        "R" | "AL" => {
            v.iter().all(|c| matches!(*c, "R" | "AL" | "AN" | "EN" | "ES" | "CS" | "ET" | "ON" | "BN" | "NSM"))
                && matches!(last, Some("R" | "AL" | "EN" | "AN"))
                && !(v.contains(&"EN") && v.contains(&"AN"))
        }
        _ => false,
    }
}
#[derive(Default)]
pub struct Trace(pub Vec<&'static str>);
/// Section 4 steps 1-4; true: an error was recorded.
pub fn processing(domain: &str, f: F, tr: &mut Trace) -> (String, bool) {
    let mut err = false;
    let mut m = String::new();
    for c in domain.chars() {
        match r::idna_of(c) {
            r::Idna::Valid => m.push(c),
            r::Idna::Ignored => tr.0.push("ignored character"),
            r::Idna::Mapped(x) => {
                tr.0.push("mapped character");
                m.push_str(x)
            }
            r::Idna::Deviation(x) => {
                tr.0.push("deviation");
                if f.trans { m.push_str(x) } else { m.push(c) }
            }
            r::Idna::Disallowed => {
                tr.0.push("error: disallowed");
                err = true;
                m.push(c)
            }
            r::Idna::Std3Valid => {
                if f.std3 {
                    tr.0.push("error: disallowed by STD3");
                    err = true;
                }
                m.push(c)
            }
            r::Idna::Std3Mapped(x) => {
                if f.std3 {
                    tr.0.push("error: disallowed by STD3");
                    err = true;
                }
                m.push_str(x)
            }
        }
    }
    let n = nfc(&m);
    if n != m {
        tr.0.push("normalization changed the text");
    }
    // (label text, decoded?, undecodable?)
    let labels: Vec<(String, bool, bool)> = n
        .split('.')
        .map(|l| match l.strip_prefix("xn--") {
            None => (l.to_string(), false, false),
            Some(p) => match rfc_decode(p) {
                Some(d) => (d.into_iter().collect(), true, false),
                None => (l.to_string(), true, true),
            },
        })
        .collect();
    let bidi = labels.iter().any(|l| !l.2 && l.0.chars().any(|c| matches!(bc_ref(c), "R" | "AL" | "AN")));
    if bidi {
        tr.0.push("Bidi domain name");
    }
    for (l, decoded, bad) in &labels {
        if *bad {
            tr.0.push("error: undecodable label");
            err = true;
            continue;
        }
        if *decoded {
            tr.0.push("decoded label");
        }
        if l.is_empty() {
            continue;
        }
        let trans = f.trans && !decoded;
        let e = if nfc(l) != *l {
            "error: V1 not NFC"
        } else if l.starts_with('-') || l.ends_with('-') {
            "error: V3 hyphen"
        } else if r::gc().get(l.chars().next().unwrap()).starts_with('M') {
            "error: V5 leading mark"
        } else if l.chars().any(|c| match r::idna_of(c) {
            r::Idna::Valid => false,
            r::Idna::Deviation(_) => trans,
            r::Idna::Std3Valid => f.std3,
            _ => true,
        }) {
            "error: V6 status"
        } else if bidi && !bidi_rule(l) {
            "error: V8 bidi rule"
        } else {
            continue;
        };
        tr.0.push(e);
        err = true;
    }
    (labels.into_iter().map(|l| l.0).collect::<Vec<_>>().join("."), err)
}
pub fn to_ascii(domain: &str, f: F, tr: &mut Trace) -> Option<String> {
    let (u, mut err) = processing(domain, f, tr);
    let mut labels = vec![];
    for l in u.split('.') {
        if l.is_ascii() {
            labels.push(l.to_string());
        } else {
            match rfc_encode(&l.chars().collect::<Vec<_>>()) {
                Some(e) => labels.push(format!("xn--{}", e)),
                None => {
                    tr.0.push("error: label cannot be encoded");
                    err = true
                }
            }
        }
    }
    let a = labels.join(".");
    if f.dns && !dns_ok(&a) {
        tr.0.push("error: DNS length");
        err = true;
    }
    if err { None } else { Some(a) }
}
/// VerifyDnsLength: without the trailing root label and its dot, 1..=253 and each label 1..=63.
fn dns_ok(a: &str) -> bool {
    let d = a.strip_suffix('.').unwrap_or(a);
    (1..=253).contains(&d.len()) && d.split('.').all(|l| (1..=63).contains(&l.len()))
}

struct IdnaPools {
    by: Vec<(&'static str, Vec<char>)>,
    bc: HashMap<&'static str, Vec<char>>,
    marks: Vec<char>,
}
fn ipools() -> &'static IdnaPools {
    static P: OnceLock<IdnaPools> = OnceLock::new();
    P.get_or_init(|| {
        let mut by: Vec<(&'static str, Vec<char>)> = ["valid", "ignored", "mapped", "deviation", "disallowed", "std3v", "std3m"].iter().map(|x| (*x, vec![])).collect();
        let mut bc: HashMap<&'static str, Vec<char>> = HashMap::new();
        let mut marks = vec![];
        for c in r::chars() {
            let i = match r::idna_of(c) {
                r::Idna::Valid => {
                    bc.entry(bc_ref(c)).or_default().push(c);
                    if r::gc().get(c).starts_with('M') {
                        marks.push(c);
                    }
                    0
                }
                r::Idna::Ignored => 1,
                r::Idna::Mapped(_) => 2,
                r::Idna::Deviation(_) => 3,
                r::Idna::Disallowed => {
                    if r::gc().get(c) == "Cn" {
                        continue;
                    }
                    4
                }
                r::Idna::Std3Valid => 5,
                r::Idna::Std3Mapped(_) => 6,
            };
            by[i].1.push(c);
        }
        IdnaPools { by, bc, marks }
    })
}
fn ascii_word(g: &mut Rng, n: usize) -> String {
    (0..n).map(|_| *g.pick(&['a', 'b', 'x', 'n', 'z', '0', '7'])).collect()
}
pub fn gen_label(g: &mut Rng) -> String {
    let p = ipools();
    let n = if g.chance(1, 16) { g.range(8, 40) } else { g.range(1, 6) };
    let mut s = String::new();
    match g.below(16) {
        0 => s = ascii_word(g, n),
        1 => {
            for _ in 0..n {
                s.push(*g.pick(&p.by[0].1));
            }
        }
        2 => {
            for _ in 0..n {
                let k = g.below(p.by.len());
                s.push(*g.pick(&p.by[k].1));
            }
        }
        3 | 4 | 5 => {
            // bidi-shaped label
            let kinds: &[&str] = if g.chance(1, 3) { &["L", "EN", "ES", "CS", "ET", "ON", "NSM"] } else { &["R", "AL", "AN", "EN", "ES", "CS", "ET", "ON", "NSM", "R", "AL"] };
            let lead = *g.pick(&["L", "R", "AL", "R", "EN", "AN", "NSM", "ON"]);
            let mut ks = vec![lead];
            for _ in 0..n {
                ks.push(*g.pick(kinds));
            }
            if g.chance(1, 3) {
                ks.push(*g.pick(&["R", "L", "EN", "AN", "AL"]));
                for _ in 0..g.below(3) {
                    ks.push("NSM");
                }
            }
            for k in ks {
                if let Some(v) = p.bc.get(k) {
                    s.push(*g.pick(v));
                }
            }
        }
        6 => {
            // mapped text (upper case, full width, compatibility)
            for _ in 0..n {
                s.push(if g.chance(1, 2) { *g.pick(&p.by[2].1) } else { *g.pick(&['A', 'Z', 'É', 'ẞ', 'Å', '\u{212B}', '\u{FF21}', '\u{1F1E6}']) });
            }
        }
        7 => {
            for _ in 0..n {
                s.push(*g.pick(&['ß', 'ς', '\u{200C}', '\u{200D}', 'a', 's', 'क', '\u{94D}', 'ى', '\u{AD}']));
            }
        }
        8 => {
            s = ascii_word(g, n);
            match g.below(4) {
                0 => s.insert(0, '-'),
                1 => s.push('-'),
                2 => s.insert_str(s.len().min(2), "--"),
                _ => s.push_str("_!"),
            }
        }
        9 => {
            s.push(*g.pick(&p.marks));
            s += &ascii_word(g, 2);
        }
        10 => {
            // composition across mapped or ignored characters
            for _ in 0..n {
                s.push(*g.pick(&['A', 'e', '\u{AD}', '\u{301}', '\u{323}', '\u{1161}', '\u{1100}', '\u{AC00}', '\u{11A8}', '\u{338}', '=', '<', '\u{34F}', '\u{9C7}', '\u{9BE}']));
            }
        }
        11 | 12 => {
            // a label that is already encoded, from an arbitrary (often invalid) label
            let inner: String = match g.below(5) {
                0 => (0..n).map(|_| any_char(g)).collect(),
                1 => {
                    let k = g.below(p.by.len());
                    (0..n).map(|_| *g.pick(&p.by[k].1)).collect()
                }
                2 => {
                    let mut d = ipools_word(g, n);
                    d.push(*g.pick(&['\u{301}', 'ß', '\u{200D}', '\u{FF21}', 'A', '-', '.', '\u{3002}']));
                    d
                }
                _ => ipools_word(g, n),
            };
            let inner = if g.chance(3, 4) { nfc(&inner) } else { inner };
            s = format!("{}{}", g.pick(&["xn--", "xn--", "xn--", "XN--", "Xn--", "ｘn--"]), rfc_encode(&inner.chars().collect::<Vec<_>>()).unwrap_or_default());
            if g.chance(1, 6) {
                s.pop();
            }
            if g.chance(1, 12) {
                s.insert(4.min(s.len()), 'é');
            }
        }
        13 => s = format!("xn--{}", g.pick(&["", "-", "--", "a", "a-", "zca", "3xa", "0ca24w", "99999999", "xn---", "xn--a-", "-a", "abc-", "é"])),
        14 => s = ascii_word(g, *[62usize, 63, 64, 59, 58, 20].get(n % 6).unwrap()),
        _ => {}
    }
    s
}
fn ipools_word(g: &mut Rng, n: usize) -> String {
    let p = ipools();
    let k = *g.pick(&["L", "R", "AL", "L"]);
    (0..n).map(|_| *g.pick(&p.bc[k])).collect()
}
pub fn gen_domain(g: &mut Rng) -> String {
    let n = match g.below(12) {
        0 => 0,
        1 => g.range(4, 8),
        2 => 30,
        _ => g.range(1, 3),
    };
    let mut s = String::new();
    if n == 30 {
        // lengths around 253
        let total = g.range(248, 258);
        while s.len() + 10 < total {
            s += &ascii_word(g, 9);
            s.push('.');
        }
        let k = total - s.len();
        s += &ascii_word(g, k);
    }
    for i in 0..n.min(8) {
        if i > 0 {
            s.push(*g.pick(&['.', '.', '.', '\u{3002}', '\u{FF0E}', '\u{FF61}', '\u{2024}']));
        }
        if n < 10 {
            s += &gen_label(g);
        }
        if n >= 10 {
            break;
        }
    }
    if g.chance(1, 8) {
        s.push('.');
    }
    if g.chance(1, 30) {
        s.insert(0, '.');
    }
    s
}
pub fn all_flags() -> Vec<F> {
    (0..8).map(|i| F { std3: i & 1 != 0, trans: i & 2 != 0, dns: i & 4 != 0 }).collect()
}
pub fn fl(f: F) -> unic_idna::Flags {
    unic_idna::Flags { use_std3_ascii_rules: f.std3, transitional_processing: f.trans, verify_dns_length: f.dns }
}
/// Every option combination on one domain: against the model, and the stability of the results.
fn domain_case(w: &mut W, d: &str) {
    let mut kinds: Vec<&'static str> = vec![];
    for f in all_flags() {
        let mut tr = Trace::default();
        let want = to_ascii(d, f, &mut tr);
        w.ev += 2;
        let Some(got) = w.ctx.call("to_ascii", d, || unic_idna::to_ascii(d, fl(f)).ok()) else { return };
        if got != want {
            w.ctx.fail(
                format!("to_ascii:{}{}{}:{}", f.std3 as u8, f.trans as u8, f.dns as u8, cps(d)),
                format!("to_ascii({:?} = {}, {:?}): expected {:?}, got {:?} (None = error); model trace {:?}", d, cps(d), f, want, got, tr.0),
            );
        }
        kinds.extend(&tr.0);
        let mut tu = Trace::default();
        let (wt, we) = processing(d, F { trans: false, ..f }, &mut tu);
        let Some((gt, ge)) = w.ctx.call("to_unicode", d, || {
            let (t, e) = unic_idna::to_unicode(d, fl(f));
            (t, e.is_err())
        }) else {
            return;
        };
        if (&gt, ge) != (&wt, we) {
            w.ctx.fail(
                format!("to_unicode:{}{}{}:{}", f.std3 as u8, f.trans as u8, f.dns as u8, cps(d)),
                format!("to_unicode({:?} = {}, {:?}): expected {:?} error={}, got {:?} error={}; model trace {:?}", d, cps(d), f, wt, we, gt, ge, tu.0),
            );
        }
        if let Some(a) = got {
            w.obs.add("successful conversions to ASCII", 1);
            if !a.is_ascii() || (f.dns && !dns_ok(&a)) {
                w.ctx.fail(format!("result:{}", cps(d)), format!("to_ascii({:?}, {:?}) succeeded with {:?}", d, f, a));
            }
            let Some((u, ok)) = w.ctx.call("to_unicode", &a, || {
                let (u, e) = unic_idna::to_unicode(&a, fl(f));
                (u, e.is_ok())
            }) else {
                return;
            };
            // an encoded label may decode to text that again looks encoded (criterion V2 is not
            // implemented, as documented); such names are not stable
            if processing(d, f, &mut Trace::default()).0.split('.').any(|l| l.starts_with("xn--")) {
                w.obs.add("excluded from the stability monitor: decodes to another encoded label", 1);
                continue;
            }
            let Some((again, back)) = w.ctx.call("conversion of a result", &a, || (unic_idna::to_ascii(&a, fl(f)).ok(), unic_idna::to_ascii(&u, fl(F { trans: false, ..f })).ok())) else { return };
            w.ev += 3;
            w.obs.add("stability checks", 1);
            if !ok || again.as_deref() != Some(&a[..]) || back.as_deref() != Some(&a[..]) {
                w.ctx.fail(
                    format!("unstable:{}", cps(d)),
                    format!("{:?} with {:?} converts to {:?}; again: {:?}; to Unicode: {:?} (ok={}); and back: {:?}", d, f, a, again, u, ok, back),
                );
            }
        }
    }
    kinds.sort_unstable();
    kinds.dedup();
    let nt = !kinds.is_empty();
    for k in kinds {
        w.obs.add(k, 1);
    }
    if nt {
        w.ctx.distinct(fnv(d.as_bytes()));
    }
}

pub fn c29(ctx: &Ctx) {
    ctx.rule("to_ascii and to_unicode under all 8 option combinations against UTS #46 section 4 as documented by the crate (V2 and V7 not implemented), and stability of every successful result; domains: every assigned scalar value in 4 label contexts, all bidi-class label shapes up to length 4 next to a right-to-left label, random multi-label domains with encoded, malformed, hyphenated, long, bidi, deviation and STD3 labels, labels grown across 63 bytes, domains of up to 70,000 labels or characters, two labels of which one decides about the other with up to 70,000 harmless ones around them; non-trivial: distinct domains on which at least one processing step other than plain copying happened");
    ctx.assume("reference: UTS #46 revision 19 over /verif/ref data; the criteria the crate documents as not implemented (CheckHyphens V2, CheckJoiners V7) are outside the property");
    // every scalar value
    par(0x110, |b| {
        let mut w = W::new(ctx);
        for i in 0..0x1000u32 {
            let Some(c) = char::from_u32(b as u32 * 0x1000 + i) else { continue };
            if r::gc().get(c) == "Cn" && i % 64 != 0 {
                continue;
            }
            if (0xAC00..0xD7A4).contains(&(c as u32)) && c as u32 % 9 != 0 {
                continue;
            }
            if (c as u32 >= 0x17000 && (c as u32) < 0x18800 || c as u32 >= 0x20000 && (c as u32) < 0x2F800 || (0x3400..0xA000).contains(&(c as u32)) || c as u32 >= 0xE1000 || (0xE000..0xF900).contains(&(c as u32))) && c as u32 % 13 != 0 && !ctx.thorough() {
                continue;
            }
            domain_case(&mut w, &String::from(c));
            domain_case(&mut w, &format!("a{}b.x", c));
            domain_case(&mut w, &format!("\u{5d0}.{}", c));
            let e = rfc_encode(&[c, 'q']).unwrap();
            domain_case(&mut w, &format!("xn--{}", e));
        }
        w.done();
    });
    // bidi label shapes
    let cl: Vec<(&str, char)> = vec![("L", 'a'), ("R", '\u{5d0}'), ("AL", '\u{628}'), ("AN", '\u{660}'), ("EN", '1'), ("ES", '+'), ("CS", ','), ("ET", '\u{b0}'), ("ON", '!'), ("NSM", '\u{5b0}'), ("BN", '\u{200d}')];
    let n = cl.len() as u64;
    for (k, c) in &cl {
        if bc_ref(*c) != *k {
            eprintln!("HARNESS-ERROR {} {:?}", k, c);
            ctx.harness_fail();
        }
    }
    par(n * n, |i| {
        let mut w = W::new(ctx);
        let (a, b) = (cl[(i / n) as usize].1, cl[(i % n) as usize].1);
        domain_case(&mut w, &format!("{}{}.\u{5d0}", a, b));
        for (_, c) in &cl {
            domain_case(&mut w, &format!("{}{}{}.\u{5d0}", a, b, c));
            domain_case(&mut w, &format!("xn--4db.{}{}{}", a, b, c));
            for (_, d) in &cl {
                domain_case(&mut w, &format!("{}{}{}{}.\u{5d0}", a, b, c, d));
                if ctx.thorough() {
                    for (_, e) in &cl {
                        domain_case(&mut w, &format!("{}{}{}{}{}.\u{5d0}", a, b, c, d, e));
                    }
                }
            }
        }
        w.done();
    });
    // random domains
    let m = ctx.n(100_000, 4_000_000);
    par(m / 250, |i| {
        let mut w = W::new(ctx);
        let mut g = Rng::new(ctx.seed, 29, i);
        for j in 0..250 {
            let d = gen_domain(&mut g);
            if i == 0 && j < 8 {
                ctx.sample(|| format!("{:?}: to_ascii (default flags) {:?}", d, to_ascii(&d, F { std3: false, trans: false, dns: false }, &mut Trace::default())));
            }
            domain_case(&mut w, &d);
        }
        w.done();
    });
    // lengths
    par(70, |i| {
        let mut w = W::new(ctx);
        let n = i as usize;
        domain_case(&mut w, &"a".repeat(n));
        domain_case(&mut w, &format!("{}.", "a".repeat(n)));
        domain_case(&mut w, &format!("b.{}..c", "a".repeat(n)));
        domain_case(&mut w, &"é".repeat(n));
        domain_case(&mut w, &format!("\u{5d0}{}", "a".repeat(n)));
        for t in [63usize, 62, 61] {
            // 3 full labels and one that makes the total 253 +- 2 with and without the root dot
            let s = format!("{0}.{0}.{0}.{1}", "a".repeat(t), "b".repeat(n));
            domain_case(&mut w, &s);
            domain_case(&mut w, &format!("{}.", s));
            domain_case(&mut w, &format!("{}.b.", s));
        }
        w.done();
    });
    // encoded labels around the length limit, of every script mix
    par(ctx.n(64, 2000), |i| {
        let mut w = W::new(ctx);
        let mut g = Rng::new(ctx.seed, 0x291, i);
        for _ in 0..20 {
            let mut l = String::new();
            let base = ipools_word(&mut g, 3);
            loop {
                l.push(if g.chance(1, 2) { *g.pick(&['a', '7', 'z', '-']) } else { base.chars().nth(g.below(3)).unwrap() });
                let k = rfc_encode(&l.chars().collect::<Vec<_>>()).map_or(99, |e| e.len());
                if k > 61 {
                    break;
                }
                if k > 56 {
                    domain_case(&mut w, &l);
                    domain_case(&mut w, &format!("{0}.{0}.{0}.{1}", l, "b".repeat(g.range(40, 63))));
                }
            }
            w.obs.add("labels grown across the limit of 63", 1);
        }
        w.done();
    });
    // long domains: a decisive label or character far from the start, from the end or from both
    par(ctx.n(150, 4000), |i| {
        if ctx.too_many() {
            return;
        }
        let mut w = W::new(ctx);
        let mut g = Rng::new(ctx.seed, 0x292, i);
        let mut d = String::new();
        for _ in 0..g.range(1, 3) {
            if g.chance(2, 3) {
                d += &gen_domain(&mut g);
                if g.chance(2, 3) {
                    d.push('.');
                }
            }
            let max = if g.chance(1, 6) { 70_000 } else { 3000 };
            let n = crate::seg::edge(&mut g, max);
            match g.below(6) {
                0 => d += &"a".repeat(n),
                1 => d += &"a.".repeat(n),
                2 => d += &".".repeat(n),
                3 => {
                    let l = g.pick(&["A", "\u{AD}", "\u{5D0}", "1", "-", "\u{301}", "\u{3002}", "\u{DF}"]);
                    d += &l.repeat(n)
                }
                4 => {
                    let l = gen_label(&mut g) + ".";
                    d += &l.repeat(n.min(3000))
                }
                _ => {
                    let l = ipools_word(&mut g, 3);
                    d += &l.repeat(n.min(900))
                }
            }
        }
        if g.chance(2, 3) {
            d += &gen_domain(&mut g);
        }
        w.obs.add("long domains", 1);
        w.obs.add("bytes of long domains", d.len() as u64);
        domain_case(&mut w, &d);
        w.done();
    });
    // two labels of which one decides about the other, and many harmless ones between, before or after them
    par(ctx.n(300, 6000), |i| {
        if ctx.too_many() {
            return;
        }
        let mut w = W::new(ctx);
        let mut g = Rng::new(ctx.seed, 0x293, i);
        for _ in 0..4 {
            let max = if g.chance(1, 30) { 70_000 } else { 1500 };
            let a = *g.pick(&["xn--4db", "\u{5D0}", "\u{628}", "\u{660}", "xn--4ca", "xn--a", "xn--", "\u{301}a", "a_b", "\u{DF}", "xn--4db1"]);
            let b = *g.pick(&["1a", "a-", "a1", "-1", "1", "\u{628}1\u{660}", "xn--1a-yja", "a", "\u{5D0}a", "xn--a-0hc", "a\u{660}"]);
            let f = *g.pick(&["b", "bb", "b7", "\u{E9}", "xn--4ca", "B", "\u{5D1}"]);
            let mut part = |g: &mut Rng| {
                let n = if g.chance(1, 3) { 0 } else { crate::seg::edge(g, max) };
                format!("{}.", f).repeat(n)
            };
            let mut d = part(&mut g);
            let (x, y) = if g.chance(1, 2) { (a, b) } else { (b, a) };
            d += x;
            d.push('.');
            d += &part(&mut g);
            d += y;
            if g.chance(1, 3) {
                d.push('.');
                d += &part(&mut g);
            }
            w.obs.add("domains of two decisive labels among many", 1);
            domain_case(&mut w, &d);
        }
        w.done();
    });
    // a label too long to encode
    let mut w = W::new(ctx);
    domain_case(&mut w, &format!("{}\u{10FFFD}\u{20000}", "a".repeat(30000)));
    domain_case(&mut w, &format!("{}\u{2F9F4}\u{2A6D6}", "a".repeat(30000)));
    w.done();
}
