//! C11 (tables), C12 (range iteration), C13 (range construction), C14 (parallel iteration), C15 (Hangul).
use crate::ctx::{par, Ctx, Obs};
use crate::data::sweep;
use crate::rng::Rng;
use rayon::prelude::*;
use std::collections::Bound;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use unic_char_property::tables::CharDataTable;
use unic_char_range::{chars, CharIter, CharRange};

pub const N: u32 = 0x110000 - 0x800;
/// Scalar values numbered without the surrogate gap; the model's only arithmetic.
pub fn idx(c: char) -> u32 {
    let u = c as u32;
    if u >= 0xE000 { u - 0x800 } else { u }
}
pub fn at(i: u32) -> char {
    char::from_u32(if i >= 0xD800 { i + 0x800 } else { i }).unwrap()
}
/// The set a range denotes: a half-open interval of scalar indices.
fn set(lo: char, hi: char) -> (u32, u32) {
    if lo > hi { (0, 0) } else { (idx(lo), idx(hi) + 1) }
}
const EDGE: [u32; 14] = [0, 1, 2, 0x7F, 0xFF, 0xD7FD, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xE002, 0x10FFFD, 0x10FFFE, 0x10FFFF];
fn endpoint(r: &mut Rng) -> char {
    match r.below(4) {
        0 => char::from_u32(*r.pick(&EDGE)).unwrap(),
        1 => at(((0xD800 - 20) + r.below(40)) as u32),
        2 => at(r.below(N as usize) as u32),
        _ => at(r.below(300) as u32),
    }
}
fn near(r: &mut Rng, c: char, w: usize) -> char {
    let i = idx(c) as i64 + r.below(2 * w + 1) as i64 - w as i64;
    at(i.clamp(0, N as i64 - 1) as u32)
}
fn pair(r: &mut Rng) -> (char, char) {
    let a = endpoint(r);
    match r.below(5) {
        0 => (a, a),
        1 => (a, endpoint(r)),
        2 => (a, near(r, a, 3)),
        _ => {
            let b = near(r, a, 40);
            if r.chance(9, 10) { (a.min(b), a.max(b)) } else { (a, b) }
        }
    }
}

/// Model of a double-ended iterator: the interval not yet yielded.
struct Model {
    lo: u32,
    hi: u32,
}
impl Model {
    fn len(&self) -> usize {
        (self.hi - self.lo) as usize
    }
    fn front(&mut self, k: usize) -> Option<char> {
        if k >= self.len() {
            self.lo = self.hi;
            return None;
        }
        self.lo += k as u32 + 1;
        Some(at(self.lo - 1))
    }
    fn back(&mut self, k: usize) -> Option<char> {
        if k >= self.len() {
            self.hi = self.lo;
            return None;
        }
        self.hi -= k as u32 + 1;
        Some(at(self.hi))
    }
}
fn same_set(ctx: &Ctx, what: &str, case: &str, rg: CharRange, m: &Model) {
    let s = set(rg.low, rg.high);
    ctx.check((s.1 - s.0) as usize == m.len() && (m.len() == 0 || s == (m.lo, m.hi)), || what.to_string(), || format!("{}: range {:?} is not the remaining set (model: {} characters from {:X?})", case, rg, m.len(), m.lo));
}

fn history(ctx: &Ctx, r: &mut Rng, a: char, b: char, maxlen: usize, log: &mut String, obs: &mut Obs) {
    let s = set(a, b);
    let mut m = Model { lo: s.0, hi: s.1 };
    let mut it: CharIter = CharRange { low: a, high: b }.iter();
    log.clear();
    log.push_str(&format!("{:04X}..={:04X}:", a as u32, b as u32));
    let steps = r.below(maxlen) + 2;
    let mut ran_dry = 0;
    for _ in 0..steps {
        let op = r.below(14);
        let small = if r.chance(1, 6) { r.below(m.len() + 3) } else { r.below(4) };
        let (name, got, want): (&str, String, String) = match op {
            0..=2 => ("next", format!("{:?}", it.next()), format!("{:?}", m.front(0))),
            3..=5 => ("next_back", format!("{:?}", it.next_back()), format!("{:?}", m.back(0))),
            6 => ("nth", format!("{:?}", it.nth(small)), format!("{:?}", m.front(small))),
            7 => ("nth_back", format!("{:?}", it.nth_back(small)), format!("{:?}", m.back(small))),
            8 => ("len", format!("{:?}", (it.len(), it.size_hint())), format!("{:?}", (m.len(), (m.len(), Some(m.len()))))),
            9 => {
                // consuming adaptors on a clone, compared with the model's remaining interval
                let c = it.clone();
                let big = m.len() > 4000;
                match r.below(if big { 3 } else { 9 }) {
                    0 => ("clone.last", format!("{:?}", c.last()), format!("{:?}", if m.len() == 0 { None } else { Some(at(m.hi - 1)) })),
                    1 => ("clone.max", format!("{:?}", c.max()), format!("{:?}", if m.len() == 0 { None } else { Some(at(m.hi - 1)) })),
                    2 => ("clone.min", format!("{:?}", c.min()), format!("{:?}", if m.len() == 0 { None } else { Some(at(m.lo)) })),
                    3 => ("clone.count", format!("{}", c.count()), format!("{}", m.len())),
                    4 => ("clone.collect", format!("{:?}", c.collect::<String>()), format!("{:?}", (m.lo..m.hi).map(at).collect::<String>())),
                    5 => ("clone.rev", format!("{:?}", c.rev().collect::<String>()), format!("{:?}", (m.lo..m.hi).rev().map(at).collect::<String>())),
                    6 => ("clone.fold", format!("{}", c.fold(0u64, |x, c| x.wrapping_mul(31).wrapping_add(c as u64))), format!("{}", (m.lo..m.hi).map(at).fold(0u64, |x, c| x.wrapping_mul(31).wrapping_add(c as u64)))),
                    7 => ("clone.rfold", format!("{}", c.rfold(0u64, |x, c| x.wrapping_mul(31).wrapping_add(c as u64))), format!("{}", (m.lo..m.hi).rev().map(at).fold(0u64, |x, c| x.wrapping_mul(31).wrapping_add(c as u64)))),
                    _ => ("clone.step_by", format!("{:?}", c.step_by(3).collect::<String>()), format!("{:?}", (m.lo..m.hi).step_by(3).map(at).collect::<String>())),
                }
            }
            10 => {
                let k = small.min(200);
                let got: String = it.by_ref().take(k).collect();
                let mut want = String::new();
                for _ in 0..k {
                    match m.front(0) {
                        Some(c) => want.push(c),
                        None => break,
                    }
                }
                ("take", format!("{:?}", got), format!("{:?}", want))
            }
            11 => {
                let k = small.min(200);
                let got: String = it.by_ref().rev().take(k).collect();
                let mut want = String::new();
                for _ in 0..k {
                    match m.back(0) {
                        Some(c) => want.push(c),
                        None => break,
                    }
                }
                ("rev.take", format!("{:?}", got), format!("{:?}", want))
            }
            12 => {
                same_set(ctx, "remainder", log, CharRange::from(it.clone()), &m);
                continue;
            }
            _ => {
                // continue through the range form
                it = CharRange::from(it).into_iter();
                continue;
            }
        };
        log.push(' ');
        log.push_str(name);
        obs.add(name, 1);
        if m.len() == 0 {
            ran_dry += 1;
        }
        if !ctx.check(got == want, || format!("iter.{}", name), || format!("{}: {} gave {}, expected {}", log, name, got, want)) {
            return;
        }
    }
    if ran_dry > 1 {
        obs.add("histories that continued after exhaustion", 1);
    }
    same_set(ctx, "remainder", log, CharRange::from(it), &m);
}

pub fn c12(ctx: &Ctx) {
    ctx.rule("histories of iterator operations (next, next_back, nth, nth_back, len, take, consuming adaptors on clones, conversion to a range) over ranges whose ends concentrate on 0, the surrogate gap and the last code point, against a model over gap-free scalar indices; plus every front/back interleaving of every short range around the edges, and complete traversals; non-trivial: distinct histories");
    // complete traversals
    for (a, b) in [('\0', char::MAX), ('\0', '\u{D7FF}'), ('\u{E000}', char::MAX), ('\u{D000}', '\u{F000}')] {
        for dir in 0..3 {
            let s = set(a, b);
            ctx.call("full traversal", &format!("{:04X}..={:04X} dir {}", a as u32, b as u32, dir), || {
                let mut it = CharRange::closed(a, b).iter();
                let mut m = Model { lo: s.0, hi: s.1 };
                let mut n = 0u64;
                loop {
                    let fwd = dir == 0 || (dir == 2 && n % 3 != 0);
                    let (g, w) = if fwd { (it.next(), m.front(0)) } else { (it.next_back(), m.back(0)) };
                    if g != w {
                        ctx.fail(format!("traversal:{}", dir), format!("traversal {} of {:X}..={:X}: step {} gave {:?}, expected {:?}", dir, a as u32, b as u32, n, g, w));
                        break;
                    }
                    if n % 1024 == 0 || m.len() < 5 {
                        if it.len() != m.len() {
                            ctx.fail("traversal.len", format!("after {} steps len is {}, expected {}", n, it.len(), m.len()));
                            break;
                        }
                    }
                    n += 1;
                    if w.is_none() {
                        break;
                    }
                }
                ctx.eval(n);
                ctx.obs("steps in complete traversals", n);
            });
            ctx.distinct_n(1);
        }
    }
    // every interleaving of short ranges at the edges
    let mut short = vec![];
    for base in [0u32, 0xD800 - 5, N - 9] {
        for a in base..base + 9 {
            for b in a.saturating_sub(1)..(a + 8).min(N) {
                short.push((at(a), at(b)));
            }
        }
    }
    let cnt = AtomicU64::new(0);
    par(short.len() as u64, |i| {
        let (a, b) = short[i as usize];
        let s = set(a, b);
        let len = (s.1 - s.0) as usize;
        for mask in 0..1u32 << (len + 2) {
            let ok = ctx.call("interleaving", &format!("{:04X}..={:04X} mask {:b}", a as u32, b as u32, mask), || {
                let mut it = CharRange { low: a, high: b }.iter();
                let mut m = Model { lo: s.0, hi: s.1 };
                for k in 0..len + 2 {
                    let (g, w) = if mask >> k & 1 == 0 { (it.next(), m.front(0)) } else { (it.next_back(), m.back(0)) };
                    if g != w || it.len() != m.len() {
                        ctx.fail("interleaving", format!("range {:04X}..={:04X}, steps {:b} (1 = from the back): step {} gave {:?} (len {}), expected {:?} (len {})", a as u32, b as u32, mask, k, g, it.len(), w, m.len()));
                        return false;
                    }
                }
                true
            });
            cnt.fetch_add(1, Relaxed);
            if ok != Some(true) {
                break;
            }
        }
    });
    ctx.eval(cnt.load(SeqCst));
    ctx.distinct_n(cnt.load(SeqCst));
    ctx.obs("complete interleavings of short ranges", cnt.load(SeqCst));
    let n = ctx.n(2_000_000, 60_000_000);
    par(64, |t| {
        let mut obs = Obs::default();
        let mut r = Rng::new(ctx.seed, 0x1200, t);
        let mut log = String::new();
        for i in 0..n / 64 {
            let (a, b) = pair(&mut r);
            let seed = format!("history task {} number {} range {:04X}..={:04X}", t, i, a as u32, b as u32);
            ctx.call("range history", &seed, || history(ctx, &mut r, a, b, 40, &mut log, &mut obs));
            ctx.distinct(crate::ctx::fnv(log.as_bytes()));
            if t == 0 && i < 6 {
                ctx.sample(|| log.clone());
            }
        }
        ctx.eval(n / 64);
        ctx.obs_all(&obs);
    });
}

pub fn c13(ctx: &Ctx) {
    ctx.rule("pairs of end points (exhaustive over a neighbourhood of 0, the surrogate gap and the last code point, random elsewhere) in every construction form, each range then queried for length, emptiness, membership of characters at and around its ends, comparison and equality; non-trivial: distinct (form, end points)");
    let mut pts: Vec<char> = EDGE.iter().map(|u| char::from_u32(*u).unwrap()).collect();
    for u in [0x41u32, 0x42, 0x7E, 0xD7F0, 0xE010, 0xFFFF, 0x10000, 0x100000, 0x2FFFE, 0x2FFFF, 0x30000] {
        pts.push(char::from_u32(u).unwrap());
    }
    let np = pts.len();
    let extra = ctx.n(60_000, 3_000_000) as usize;
    let total = np * np + extra;
    par(64, |t| {
        let mut r = Rng::new(ctx.seed, 0x1300, t);
        let mut obs = Obs::default();
        let mut i = t as usize;
        while i < total {
            let (a, b) = if i < np * np { (pts[i / np], pts[i % np]) } else { pair(&mut r) };
            one13(ctx, &mut r, a, b, &pts, &mut obs);
            i += 64;
        }
        ctx.obs_all(&obs);
    });
    let all = (0u32, N);
    for (n, g, w) in [
        ("all", CharRange::all(), all),
        ("chars!(..)", chars!(..), all),
        ("assigned_normal_planes", CharRange::assigned_normal_planes(), (0, idx('\u{2FFFF}') + 1)),
    ] {
        ctx.check(set(g.low, g.high) == w && g.len() == (w.1 - w.0) as usize, || format!("form.{}", n), || format!("{} is {:?}", n, g));
    }
    // the macro with literals
    let lits: [(CharRange, char, char, bool); 6] = [
        (chars!('a'..'z'), 'a', 'z', true),
        (chars!('a'..='z'), 'a', 'z', false),
        (chars!('\u{D7FF}'..'\u{E000}'), '\u{D7FF}', '\u{E000}', true),
        (chars!('\u{D7FF}'..='\u{E000}'), '\u{D7FF}', '\u{E000}', false),
        (chars!('a'..'a'), 'a', 'a', true),
        (chars!('\0'..'\0'), '\0', '\0', true),
    ];
    for (g, a, b, right_open) in lits {
        let want: String = if right_open { (idx(a)..idx(b)).map(at).collect() } else { (idx(a)..=idx(b)).map(at).collect() };
        ctx.check(g.iter().collect::<String>() == want, || "macro".into(), || format!("chars! of {:?}, {:?}, right open {}: {:?}", a, b, right_open, g));
    }
}
fn one13(ctx: &Ctx, r: &mut Rng, a: char, b: char, pts: &[char], obs: &mut Obs) {
    use Bound::*;
    let (i, j) = (idx(a), idx(b));
    let (lo0, hi0) = (0u32, N);
    let norm = |lo: u32, hi: u32| if lo >= hi { (0, 0) } else { (lo, hi) };
    let forms: [(&str, fn(char, char) -> CharRange, (u32, u32)); 16] = [
        ("closed", CharRange::closed, norm(i, j + 1)),
        ("open", CharRange::open, norm(i + 1, j)),
        ("open_left", CharRange::open_left, norm(i + 1, j + 1)),
        ("open_right", CharRange::open_right, norm(i, j)),
        ("macro ..=", |a, b| chars!(a..=b), norm(i, j + 1)),
        ("macro ..", |a, b| chars!(a..b), norm(i, j)),
        ("bound(I,I)", |a, b| CharRange::bound(Included(a), Included(b)), norm(i, j + 1)),
        ("bound(I,E)", |a, b| CharRange::bound(Included(a), Excluded(b)), norm(i, j)),
        ("bound(E,I)", |a, b| CharRange::bound(Excluded(a), Included(b)), norm(i + 1, j + 1)),
        ("bound(E,E)", |a, b| CharRange::bound(Excluded(a), Excluded(b)), norm(i + 1, j)),
        ("bound(U,I)", |_, b| CharRange::bound(Unbounded, Included(b)), norm(lo0, j + 1)),
        ("bound(U,E)", |_, b| CharRange::bound(Unbounded, Excluded(b)), norm(lo0, j)),
        ("bound(I,U)", |a, _| CharRange::bound(Included(a), Unbounded), norm(i, hi0)),
        ("bound(E,U)", |a, _| CharRange::bound(Excluded(a), Unbounded), norm(i + 1, hi0)),
        ("bound(U,U)", |_, _| CharRange::bound(Unbounded, Unbounded), norm(lo0, hi0)),
        ("single", |a, _| CharRange::closed(a, a), norm(i, i + 1)),
    ];
    let mut made: Vec<(CharRange, (u32, u32))> = vec![];
    for (name, f, want) in forms {
        let case = format!("{}({:04X}, {:04X})", name, a as u32, b as u32);
        let Some(rg) = ctx.call("range construction", &case, || f(a, b)) else { continue };
        ctx.eval(1);
        ctx.distinct(crate::ctx::fnv(case.as_bytes()));
        obs.add(name, 1);
        if want.0 == want.1 {
            obs.add("empty ranges", 1);
        } else if want.0 < 0xD800 && want.1 > 0xD800 {
            obs.add("ranges across the surrogate gap", 1);
        }
        let g = set(rg.low, rg.high);
        ctx.check(norm(g.0, g.1) == want, || format!("form.{}", name), || format!("{} gave {:?}, expected the scalar indices {:X?}", case, rg, want));
        let n = (want.1 - want.0) as usize;
        ctx.call("range queries", &case, || {
            ctx.check(rg.len() == n, || format!("len.{}", name), || format!("{}: len {} expected {}", case, rg.len(), n));
            ctx.check(rg.is_empty() == (n == 0), || format!("is_empty.{}", name), || format!("{}: is_empty {}", case, rg.is_empty()));
            if n <= 64 {
                let s: String = rg.iter().collect();
                let w: String = (want.0..want.1).map(at).collect();
                ctx.check(s == w, || format!("elements.{}", name), || format!("{}: elements {:?} expected {:?}", case, s, w));
                let s2: String = rg.into_iter().collect();
                ctx.check(s2 == w, || format!("into_iter.{}", name), || format!("{}: into_iter differs", case));
            }
            let mut probes = vec![a, b, at(r.below(N as usize) as u32), *r.pick(pts)];
            for c in [a, b] {
                for d in [-1i64, 1] {
                    probes.push(at((idx(c) as i64 + d).clamp(0, N as i64 - 1) as u32));
                }
            }
            for c in probes {
                let k = idx(c);
                let inside = want.0 <= k && k < want.1;
                ctx.check(rg.contains(c) == inside, || format!("contains.{}", name), || format!("{}: contains(U+{:04X}) is {}", case, c as u32, rg.contains(c)));
                if n > 0 {
                    let w = if k < want.0 { std::cmp::Ordering::Greater } else if k >= want.1 { std::cmp::Ordering::Less } else { std::cmp::Ordering::Equal };
                    ctx.check(rg.cmp_char(c) == w, || format!("cmp_char.{}", name), || format!("{}: cmp_char(U+{:04X}) is {:?} expected {:?}", case, c as u32, rg.cmp_char(c), w));
                }
                ctx.eval(2);
            }
        });
        made.push((rg, want));
    }
    made.push((CharRange { low: '\u{1}', high: '\0' }, (0, 0)));
    for (x, sx) in &made {
        for (y, sy) in &made {
            ctx.check((x == y) == (sx == sy), || "eq".into(), || format!("{:?} == {:?} is {}, but the sets {} equal", x, y, x == y, if sx == sy { "are" } else { "are not" }));
        }
    }
    ctx.eval((made.len() * made.len()) as u64);
}

pub fn c11(ctx: &Ctx) {
    ctx.rule("random well-formed tables (both forms, 0 to 3000 rows, adjacent and distant rows, ends of the code space and the surrogate gap) looked up at every row end, its neighbours and random characters, against a linear scan; non-trivial: distinct (table, key) lookups that hit a row or a gap next to one");
    // sizes systematically, then random
    let n = ctx.n(80_000, 400_000);
    par(n, |t| {
        let mut r = Rng::new(ctx.seed, 0x1100, t);
        let rows = if t < 600 { (t / 8) as usize } else { [0, 1, 2, 3, 7, 8, 9, 31, 32, 33, 100, 1000, 3000][r.below(13)] };
        // choose 2*rows cut points in increasing order
        let dense = r.below(4);
        let mut rg: Vec<(u32, u32)> = vec![];
        let mut pos = match r.below(3) {
            0 => 0,
            1 => r.below(50) as u32,
            _ => r.below(N as usize / 2) as u32,
        };
        let single = t % 2 == 0;
        for k in 0..rows {
            let left = (rows - k) as u32;
            let room = N.saturating_sub(pos);
            if room <= left * 2 {
                break;
            }
            let maxgap = (room / (left + 1) / 2).max(1);
            let gap = match dense {
                0 => 0,
                1 => r.below(3) as u32,
                _ => r.below(maxgap.min(2000) as usize) as u32,
            };
            let len = if single { 0 } else { match r.below(3) { 0 => 0, 1 => r.below(4) as u32, _ => r.below(maxgap.min(500) as usize) as u32 } };
            let a = pos + gap;
            let b = a + len;
            if b >= N {
                break;
            }
            rg.push((a, b));
            pos = b + 1;
        }
        // sometimes push the last row to the end of the code space
        if r.chance(1, 5) {
            if let Some(l) = rg.last_mut() {
                if single { l.0 = N - 1; }
                l.1 = N - 1;
            }
        }
        // rows of one character at the ends of the code space and of the surrogate gap
        if r.chance(1, 2) {
            for k in [0, 1, 0xD7FE, 0xD7FF, 0xD800, 0xD801, N - 2, N - 1] {
                if !r.chance(1, 3) {
                    continue;
                }
                match rg.iter().position(|x| k <= x.1) {
                    None => rg.push((k, k)),
                    Some(i) if k < rg[i].0 => rg.insert(i, (k, k)),
                    Some(i) => {
                        let (a, b) = rg[i];
                        rg.splice(i..=i, [(a, k), (k, k), (k, b)].iter().enumerate().filter_map(|(j, _)| match j {
                            0 if a < k => Some((a, k - 1)),
                            1 => Some((k, k)),
                            2 if k < b => Some((k + 1, b)),
                            _ => None,
                        }).collect::<Vec<_>>());
                    }
                }
            }
        }
        // values all different, or few (neighbouring rows with one value; the default value too)
        let few = r.chance(1, 2);
        let vals: Vec<u32> = rg.iter().map(|_| if few { r.below(3) as u32 } else { r.next() as u32 | 1 }).collect();
        let table: CharDataTable<u32>;
        let leak: (Option<*mut [(char, u32)]>, Option<*mut [(CharRange, u32)]>);
        if single {
            let v: Vec<(char, u32)> = rg.iter().zip(&vals).map(|(x, v)| (at(x.0), *v)).collect();
            let p = Box::into_raw(v.into_boxed_slice());
            leak = (Some(p), None);
            table = CharDataTable::Direct(unsafe { &*p });
        } else {
            let v: Vec<(CharRange, u32)> = rg.iter().zip(&vals).map(|(x, v)| (CharRange::closed(at(x.0), at(x.1)), *v)).collect();
            let p = Box::into_raw(v.into_boxed_slice());
            leak = (None, Some(p));
            table = CharDataTable::Range(unsafe { &*p });
        }
        let mut keys: Vec<u32> = vec![0, 1, 0xD7FF, 0xD800, N - 1, N - 2];
        for x in &rg {
            if rg.len() <= 200 || r.chance(200, rg.len()) {
                keys.extend([x.0, x.1, x.0.saturating_sub(1), (x.1 + 1).min(N - 1), (x.0 + x.1) / 2]);
            }
        }
        for _ in 0..20 {
            keys.push(r.below(N as usize) as u32);
        }
        let mut obs = Obs::default();
        for k in keys {
            let c = at(k);
            let row = rg.iter().position(|x| x.0 <= k && k <= x.1);
            let want = row.map(|i| vals[i]);
            let case = format!("table #{} ({} rows, {}), U+{:04X}", t, rg.len(), if single { "single" } else { "range" }, c as u32);
            ctx.call("table lookup", &case, || {
                ctx.check(table.find(c) == want, || "find".into(), || format!("{}: find gave {:?}, expected {:?}", case, table.find(c), want));
                ctx.check(table.contains(c) == want.is_some(), || "contains".into(), || format!("{}: contains gave {}", case, table.contains(c)));
                ctx.check(table.find_or_default(c) == want.unwrap_or(0), || "find_or_default".into(), || format!("{}: find_or_default gave {:?}", case, table.find_or_default(c)));
                let w = if single { None } else { row.map(|i| (at(rg[i].0), at(rg[i].1), vals[i])) };
                let g = table.find_with_range(c).map(|(x, v)| (x.low, x.high, v));
                ctx.check(g == w, || "find_with_range".into(), || format!("{}: find_with_range gave {:?}, expected {:?}", case, g, w));
            });
            ctx.eval(4);
            obs.add(if row.is_some() { "lookups that hit a row" } else { "lookups that hit nothing" }, 1);
        }
        // iteration
        let want: Vec<(char, char, u32)> = rg.iter().zip(&vals).map(|(x, v)| (at(x.0), at(x.1), *v)).collect();
        if let Some((got, again)) = ctx.call("table iteration", &format!("table #{}", t), || {
            let mut it = table.iter();
            let mut v = vec![];
            while let Some((x, val)) = it.next() {
                v.push((x.low, x.high, val));
                if v.len() > 10_000 {
                    break;
                }
            }
            (v, it.next().is_some())
        }) {
            ctx.check(got == want && !again, || "iter".into(), || format!("table #{} ({} rows): iteration gave {} rows", t, want.len(), got.len()));
            ctx.eval(got.len() as u64 + 1);
            obs.add("rows iterated", got.len() as u64);
        }
        obs.add(&format!("tables with {} rows", match rg.len() { 0 => "0", 1 => "1", 2..=3 => "2-3", 4..=15 => "4-15", 16..=255 => "16-255", _ => "256+" }), 1);
        ctx.obs_all(&obs);
        ctx.distinct(crate::ctx::fnv(format!("{:?}", (single, &rg)).as_bytes()));
        if t < 24 && t % 5 == 0 {
            ctx.sample(|| format!("table #{}: single={} rows {:X?}", t, single, &rg[..rg.len().min(6)]));
        }
        unsafe {
            if let Some(p) = leak.0 { drop(Box::from_raw(p)); }
            if let Some(p) = leak.1 { drop(Box::from_raw(p)); }
        }
    });
    let d: CharDataTable<u32> = Default::default();
    ctx.check(d.iter().next().is_none() && !d.contains('a') && d.find('\0').is_none() && d.find_or_default('x') == 0, || "default".into(), || "the default table is not empty".into());
}

pub fn c14(ctx: &Ctx) {
    ctx.rule("ranges (edges of the surrogate gap and of the code space, random) iterated in parallel on pools of 1 to 16 threads with varied split lengths, adaptors and injected delays; every character visited is counted and ordered results are compared with the model; non-trivial: distinct (range, pool size, split lengths, adaptor)");
    let pools: Vec<(usize, rayon::ThreadPool)> = [1usize, 2, 3, 4, 8, 16].iter().map(|n| (*n, rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap())).collect();
    let n = ctx.n(12_000, 400_000);
    let mut r = Rng::new(ctx.seed, 0x1400, 0);
    let counts: Vec<AtomicU32> = (0..N).map(|_| AtomicU32::new(0)).collect();
    let threads_seen = std::sync::Mutex::new(std::collections::HashSet::new());
    let mut obs = Obs::default();
    for t in 0..n {
        let (a, b) = if t < 12 {
            [('\0', char::MAX), ('\0', '\u{D7FF}'), ('\u{E000}', char::MAX), ('\u{D7FF}', '\u{E000}'), ('\u{E000}', '\u{E000}'), ('\u{D7FF}', '\u{D7FF}'), ('\u{E001}', '\u{E005}'), (char::MAX, char::MAX), ('\0', '\0'), ('b', 'a'), (char::MAX, '\0'), ('\u{F000}', '\u{E000}')][t as usize]
        } else if r.chance(1, 12) {
            (endpoint(&mut r), endpoint(&mut r))
        } else {
            let (a, b) = pair(&mut r);
            if set(a, b).1 - set(a, b).0 > 5000 && r.chance(9, 10) { (a, near(&mut r, a, 700)) } else { (a, b) }
        };
        let s = set(a, b);
        let len = (s.1 - s.0) as usize;
        let rg = CharRange { low: a, high: b };
        let (pn, pool) = &pools[r.below(pools.len())];
        let minl = [1, 1, 2, 7, 64, 1000][r.below(6)];
        let maxl = [usize::MAX, 1, 2, 5, 50, 1000][r.below(6)];
        let mode = if t < 12 { t as usize % 10 } else { r.below(12) };
        let jit = r.next();
        let case = format!("{:04X}..={:04X} threads {} min {} max {} mode {}", a as u32, b as u32, pn, minl, maxl, mode);
        obs.add(&format!("mode {}", ["for_each", "collect", "filter+collect", "enumerate", "rev", "skip/take", "chunks", "zip", "fold/reduce", "unindexed/by ref", "collect_into_vec", "step/interleave/chain/position"][mode]), 1);
        obs.add(&format!("pool of {}", pn), 1);
        let delay = |c: char| {
            if len < 3000 && (c as u64).wrapping_mul(jit) >> 58 == 0 {
                if jit & 1 == 0 { std::thread::yield_now() } else { for _ in 0..200 { std::hint::spin_loop() } }
            }
        };
        let seq = || (s.0..s.1).map(at);
        ctx.call("parallel iteration", &case, || {
            pool.install(|| {
                let it = || rg.into_par_iter().with_min_len(minl).with_max_len(maxl);
                ctx.check(rg.par_iter().len() == len && rg.into_par_iter().len() == len, || "par.len".into(), || format!("{}: parallel len {} expected {}", case, rg.par_iter().len(), len));
                let ordered = |got: Vec<char>, want: Vec<char>, m: &str| {
                    ctx.check(got == want, || format!("par.{}", m), || {
                        let p = got.iter().zip(&want).position(|(x, y)| x != y);
                        format!("{}: {} differs at {:?} (lengths {} and {}); got {:X?}", case, m, p, got.len(), want.len(), p.map(|p| got[p] as u32))
                    });
                };
                match mode {
                    0 => {
                        it().for_each(|c| {
                            delay(c);
                            counts[idx(c) as usize].fetch_add(1, Relaxed);
                            if len < 3000 {
                                threads_seen.lock().unwrap().insert(std::thread::current().id());
                            }
                        });
                        let lo = s.0.saturating_sub(3000) as usize;
                        let hi = ((s.1 + 3000) as usize).min(N as usize);
                        let scan = if t < 12 { 0..N as usize } else { lo..hi };
                        for i in scan {
                            let v = counts[i].swap(0, Relaxed);
                            let w = (s.0..s.1).contains(&(i as u32)) as u32;
                            ctx.check(v == w, || "par.visits".into(), || format!("{}: U+{:04X} visited {} times, expected {}", case, at(i as u32) as u32, v, w));
                        }
                        if t >= 12 {
                            // anything visited outside the scanned window shows up as a wrong total
                            let tot = it().map(|_| 1usize).sum::<usize>();
                            ctx.check(tot == len, || "par.total".into(), || format!("{}: {} visits, expected {}", case, tot, len));
                        }
                    }
                    1 => ordered(it().inspect(|c| delay(*c)).collect(), seq().collect(), "collect"),
                    2 => ordered(it().filter(|c| *c as u32 % 3 == 0).collect(), seq().filter(|c| *c as u32 % 3 == 0).collect(), "filter"),
                    3 => {
                        let g: Vec<(usize, char)> = it().enumerate().collect();
                        let w: Vec<(usize, char)> = seq().enumerate().collect();
                        ctx.check(g == w, || "par.enumerate".into(), || format!("{}: enumerate differs", case));
                    }
                    4 => ordered(it().rev().collect(), seq().rev().collect(), "rev"),
                    5 => {
                        let (x, y) = (len / 3, len / 2);
                        ordered(it().skip(x).take(y).collect(), seq().skip(x).take(y).collect(), "skip/take")
                    }
                    6 => {
                        let g: Vec<Vec<char>> = rg.into_par_iter().chunks(7).collect();
                        ordered(g.into_iter().flatten().collect(), seq().collect(), "chunks")
                    }
                    7 => {
                        let g: Vec<(char, char)> = it().zip(rg.into_par_iter().rev()).collect();
                        let w: Vec<(char, char)> = seq().zip(seq().rev()).collect();
                        ctx.check(g == w, || "par.zip".into(), || format!("{}: zip differs", case));
                    }
                    8 => {
                        let g = it().fold(|| (0u64, 0u64), |x, c| (x.0 + 1, x.1 ^ (c as u64).wrapping_mul(0x9E3779B97F4A7C15))).reduce(|| (0, 0), |x, y| (x.0 + y.0, x.1 ^ y.1));
                        let w = seq().fold((0u64, 0u64), |x, c| (x.0 + 1, x.1 ^ (c as u64).wrapping_mul(0x9E3779B97F4A7C15)));
                        ctx.check(g == w, || "par.fold".into(), || format!("{}: fold differs: {:?} vs {:?}", case, g, w));
                        let f = it().find_first(|c| *c as u32 % 5 == 3);
                        ctx.check(f == seq().find(|c| *c as u32 % 5 == 3), || "par.find_first".into(), || format!("{}: find_first differs", case));
                        let f = it().find_last(|c| *c as u32 % 5 == 3);
                        ctx.check(f == seq().rev().find(|c| *c as u32 % 5 == 3), || "par.find_last".into(), || format!("{}: find_last differs", case));
                    }
                    10 => {
                        // drive: writes straight into preallocated memory
                        let mut v = vec!['x'; r.below(5)];
                        rg.into_par_iter().collect_into_vec(&mut v);
                        ordered(v, seq().collect(), "collect_into_vec");
                        let mut v = Vec::new();
                        it().inspect(|c| delay(*c)).collect_into_vec(&mut v);
                        ordered(v, seq().collect(), "collect_into_vec");
                        let (mut x, mut y) = (Vec::new(), Vec::new());
                        rg.par_iter().enumerate().unzip_into_vecs(&mut x, &mut y);
                        ordered(y, seq().collect(), "unzip_into_vecs");
                        ctx.check(x.iter().copied().eq(0..len), || "par.unzip indexes".into(), || format!("{}: indexes differ", case));
                    }
                    11 => {
                        let k = 1 + r.below(9);
                        ordered(it().step_by(k).collect(), seq().step_by(k).collect(), "step_by");
                        ordered(it().chain(rg.into_par_iter()).collect(), seq().chain(seq()).collect(), "chain");
                        let g: Vec<char> = it().interleave(rg.into_par_iter().rev()).collect();
                        ordered(g, seq().zip(seq().rev()).flat_map(|(a, b)| vec![a, b]).collect(), "interleave");
                        if len > 0 {
                            let c = at(s.0 + r.below(len) as u32);
                            let p = rg.into_par_iter().position_any(|x| x == c);
                            ctx.check(p == seq().position(|x| x == c), || "par.position".into(), || format!("{}: position of {:?} is {:?}", case, c, p));
                        }
                        ctx.check(it().min() == seq().next() && it().max() == seq().last(), || "par.min/max".into(), || format!("{}: min {:?} max {:?}", case, it().min(), it().max()));
                        ctx.check(it().eq(rg.into_par_iter()), || "par.eq".into(), || format!("{}: not equal to itself", case));
                        ctx.check(it().count() == len, || "par.count".into(), || format!("{}: count {}", case, it().count()));
                    }
                    _ => {
                        // drive_unindexed directly, through the by-reference form and clones
                        let p = rg.par_iter();
                        let q = p.clone();
                        let mut g: Vec<char> = p.flat_map_iter(|c| Some(c)).collect();
                        ordered(std::mem::take(&mut g), seq().collect(), "flat_map_iter");
                        ordered(q.with_max_len(3).collect(), seq().collect(), "clone");
                        let st: String = rg.par_iter().collect();
                        ordered(st.chars().collect(), seq().collect(), "collect String");
                    }
                }
            })
        });
        ctx.eval(1);
        obs.add("characters visited", len as u64);
        obs.add(if s.0 == s.1 { "empty ranges" } else if s.0 >= 0xD800 { "ranges after the gap" } else if s.1 > 0xD800 { "ranges across the gap" } else { "ranges before the gap" }, 1);
        ctx.distinct(crate::ctx::fnv(case.as_bytes()));
        if t < 5 || t == 40 {
            ctx.sample(|| case.clone());
        }
    }
    obs.add("distinct worker threads seen visiting", threads_seen.lock().unwrap().len() as u64);
    ctx.obs_all(&obs);
}

pub fn c15(ctx: &Ctx) {
    use unic_ucd_hangul as h;
    ctx.rule("every scalar value (syllable test, decomposition), all pairs from the jamo/syllable blocks with neighbours in either position against each other and against every character; non-trivial: syllables and composing pairs");
    ctx.exhaustive();
    sweep(ctx, "hangul", |c, s| {
        let syl = ('\u{AC00}'..='\u{D7A3}').contains(&c);
        s.eq("is_syllable", c, h::is_syllable(c), syl);
        let mut got = vec![];
        h::decompose_syllable(c, &mut |x| got.push(x));
        let mut want = vec![];
        if syl {
            crate::data::full_decomp(c, false, &mut want);
            s.nontrivial += 1;
            s.seen("syllables decomposed");
            let back = if got.len() >= 2 {
                let lv = h::compose_syllable(got[0], got[1]);
                if got.len() == 3 { lv.and_then(|x| h::compose_syllable(x, got[2])) } else { lv }
            } else { None };
            s.eq("recompose", c, back, Some(c));
        } else {
            want.push(c);
        }
        s.eq("decompose_syllable", c, got, want);
    });
    let hg = |a: char, b: char| {
        let (x, y) = (a as u32, b as u32);
        if (0x1100..0x1113).contains(&x) && (0x1161..0x1176).contains(&y) {
            char::from_u32(0xAC00 + ((x - 0x1100) * 21 + y - 0x1161) * 28)
        } else if (0xAC00..0xAC00 + 11172).contains(&x) && (x - 0xAC00) % 28 == 0 && (0x11A8..0x11C3).contains(&y) {
            char::from_u32(x + y - 0x11A7)
        } else {
            None
        }
    };
    let seconds: Vec<char> = (0x10F0..=0x1210u32).chain([0xAC00, 0xAC1C, 0xD7A3, 0, 0x41, 0x300, 0xFFFF, 0x10FFFF]).filter_map(char::from_u32).collect();
    let firsts: Vec<char> = (0x10F0..=0x1120u32).chain(0xABF0..=0xAC40).chain(0xD780..=0xD7B0).filter_map(char::from_u32).collect();
    sweep(ctx, "compose_syllable", |c, s| {
        for &b in s.part(c, &seconds) {
            let (g, w) = (h::compose_syllable(c, b), hg(c, b));
            s.evals += 1;
            if w.is_some() {
                s.nontrivial += 1;
                s.obs.add("pairs that compose", 1);
            }
            if g != w {
                s.ctx.fail(format!("compose_syllable:{:04X}:{:04X}", c as u32, b as u32), format!("compose_syllable(U+{:04X}, U+{:04X}) gave {:?}, expected {:?}", c as u32, b as u32, g, w));
            }
        }
        for &a in s.part(c, &firsts) {
            let (g, w) = (h::compose_syllable(a, c), hg(a, c));
            s.evals += 1;
            if g != w {
                s.ctx.fail(format!("compose_syllable:{:04X}:{:04X}", a as u32, c as u32), format!("compose_syllable(U+{:04X}, U+{:04X}) gave {:?}, expected {:?}", a as u32, c as u32, g, w));
            }
        }
    });
    ctx.sample(|| "decompose U+AC01 -> 1100 1161 11A8; compose(AC00, 11A7) -> none".into());
}
