//! Normalization: the UAX #15 algorithm as a reference, and the monitors of C16 and C17.
use crate::ctx::{cps, fnv, par, Ctx, Obs};
use crate::data::{full_decomp, pair_comp};
use crate::refdata as r;
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::sync::OnceLock;
use unic_normal::StrNormalForm;

fn table(compat: bool) -> &'static Vec<Option<Box<[char]>>> {
    static T: OnceLock<[Vec<Option<Box<[char]>>>; 2]> = OnceLock::new();
    &T.get_or_init(|| {
        [false, true].map(|k| {
            (0..0x110000u32)
                .map(|i| {
                    let c = char::from_u32(i)?;
                    let mut v = vec![];
                    full_decomp(c, k, &mut v);
                    if v == [c] { None } else { Some(v.into_boxed_slice()) }
                })
                .collect()
        })
    })[compat as usize]
}
/// D68 / D65: full decomposition, then canonical ordering (stable sort of each run of non-starters).
pub fn decompose(s: &[char], compat: bool) -> Vec<char> {
    let t = table(compat);
    let mut v = Vec::with_capacity(s.len());
    for &c in s {
        match &t[c as usize] {
            None => v.push(c),
            Some(d) => v.extend_from_slice(d),
        }
    }
    let cc = r::ccc_all();
    let mut i = 0;
    while i < v.len() {
        if cc[v[i] as usize] == 0 {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < v.len() && cc[v[j] as usize] != 0 {
            j += 1;
        }
        v[i..j].sort_by_key(|c| cc[*c as usize]);
        i = j;
    }
    v
}
/// D117: canonical composition.
pub fn compose(d: &[char]) -> Vec<char> {
    let cc = r::ccc_all();
    let mut out: Vec<char> = Vec::with_capacity(d.len());
    let mut starter: Option<usize> = None;
    for &c in d {
        let k = cc[c as usize];
        if let Some(l) = starter {
            // blocked: some character between L and C is a starter or has a class >= that of C
            let blocked = out[l + 1..].iter().any(|b| cc[*b as usize] == 0 || cc[*b as usize] >= k);
            if !blocked {
                if let Some(p) = pair_comp(out[l], c) {
                    out[l] = p;
                    continue;
                }
            }
        }
        if k == 0 {
            starter = Some(out.len());
        }
        out.push(c);
    }
    out
}
pub const FORMS: [&str; 4] = ["NFD", "NFKD", "NFC", "NFKC"];
pub fn model(s: &[char], form: usize) -> Vec<char> {
    let d = decompose(s, form % 2 == 1);
    if form >= 2 { compose(&d) } else { d }
}
pub fn imp(s: &str, form: usize) -> Vec<char> {
    match form {
        0 => s.nfd().collect(),
        1 => s.nfkd().collect(),
        2 => s.nfc().collect(),
        _ => s.nfkc().collect(),
    }
}
fn st(v: &[char]) -> String {
    v.iter().collect()
}

pub struct Pools {
    pub firsts: Vec<char>,
    pub seconds: Vec<char>,
    pub composites: Vec<char>,
    pub excluded: Vec<char>,
    pub compat: Vec<char>,
    pub marks: Vec<char>,
    pub mark_by_ccc: BTreeMap<u8, Vec<char>>,
    pub weird: Vec<char>,
    pub hangul: Vec<char>,
    pub assigned: Vec<char>,
}
pub fn pools() -> &'static Pools {
    static P: OnceLock<Pools> = OnceLock::new();
    P.get_or_init(|| {
        let mut firsts: Vec<char> = r::comp().keys().map(|k| k.0).collect();
        let mut seconds: Vec<char> = r::comp().keys().map(|k| k.1).collect();
        let mut composites: Vec<char> = r::comp().values().copied().collect();
        let comps: HashSet<char> = composites.iter().copied().collect();
        let mut excluded: Vec<char> = r::dm().keys().filter(|c| !comps.contains(c)).copied().collect();
        let mut compat: Vec<char> = r::dmk().keys().copied().collect();
        let mut marks = vec![];
        let mut mark_by_ccc: BTreeMap<u8, Vec<char>> = BTreeMap::new();
        let mut weird = vec![];
        let mut assigned = vec![];
        for c in r::chars() {
            let k = r::ccc(c);
            if r::gc().get(c) != "Cn" {
                assigned.push(c);
            }
            if k != 0 {
                marks.push(c);
                mark_by_ccc.entry(k).or_default().push(c);
            }
            let mut v = vec![];
            full_decomp(c, true, &mut v);
            // several starters, leading non-starters, or a non-starter that decomposes
            if v.len() > 1 && (r::ccc(v[0]) != 0 || k != 0 || v[1..].iter().any(|x| r::ccc(*x) == 0) && v.iter().any(|x| r::ccc(*x) != 0)) && !(0xAC00..0xD7A4).contains(&(c as u32)) {
                weird.push(c);
            }
        }
        // starters that are the second half of a composite
        weird.extend(seconds.iter().filter(|c| r::ccc(**c) == 0));
        for v in [&mut firsts, &mut seconds, &mut composites, &mut excluded, &mut compat, &mut weird] {
            v.sort_unstable();
            v.dedup();
        }
        let hangul = [0x10FFu32, 0x1100, 0x1101, 0x1112, 0x1113, 0x1160, 0x1161, 0x1162, 0x1175, 0x1176, 0x11A6, 0x11A7, 0x11A8, 0x11A9, 0x11C2, 0x11C3, 0xABFF, 0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xD788, 0xD7A2, 0xD7A3, 0xD7A4, 0xD7B0, 0xA960]
            .iter()
            .map(|x| char::from_u32(*x).unwrap())
            .collect();
        Pools { firsts, seconds, composites, excluded, compat, marks, mark_by_ccc, weird, hangul, assigned }
    })
}
pub fn random_text(g: &mut Rng, max: usize) -> Vec<char> {
    let p = pools();
    let n = match g.below(20) {
        0 => g.range(0, 2),
        1 => g.range(max, 4 * max),
        _ => g.range(1, max),
    };
    let style = g.below(6);
    let mut v = vec![];
    while v.len() < n {
        let k = if style == 0 { g.below(11) } else { [0, 1, 2, 3, 5, 6][g.below(6)] };
        match k {
            0 => {
                // a composable pair with material in between
                let c = *g.pick(&p.composites);
                let d = &r::dm()[&c];
                v.push(d[0]);
                for _ in 0..g.below(3) {
                    v.push(*g.pick(&p.marks));
                }
                v.extend(&d[1..]);
            }
            1 => v.push(*g.pick(&p.firsts)),
            2 => v.push(*g.pick(&p.seconds)),
            3 => {
                // marks drawn from few classes, so that equal classes and near-inversions are frequent
                let classes: Vec<u8> = p.mark_by_ccc.keys().copied().collect();
                let a = *g.pick(&classes);
                let b = *g.pick(&[220u8, 230, 1, 7, 8, 9, 240, 216, 202]);
                for _ in 0..g.range(1, 5) {
                    let k = *g.pick(&[a, b, 230]);
                    v.push(*g.pick(&p.mark_by_ccc[&k]));
                }
            }
            4 => v.push(*g.pick(&p.excluded)),
            5 => v.push(*g.pick(&p.weird)),
            6 => v.push(*g.pick(&p.hangul)),
            7 => v.push(*g.pick(&p.compat)),
            8 => v.push(*g.pick(&p.composites)),
            9 => v.push(*g.pick(&p.assigned)),
            _ => v.push(*g.pick(&['a', ' ', '\u{0}', '\u{200D}', '\u{10FFFF}', '\u{FFFD}', 'Å'])),
        }
    }
    v
}

struct W<'a> {
    ctx: &'a Ctx,
    ev: u64,
    obs: Obs,
}
impl<'a> W<'a> {
    fn new(ctx: &'a Ctx) -> W<'a> {
        W { ctx, ev: 0, obs: Obs::default() }
    }
    fn done(self) {
        self.ctx.eval(self.ev);
        self.ctx.obs_all(&self.obs);
    }
    /// All four forms of one string against the algorithm.
    fn forms(&mut self, s: &[char]) {
        let txt = st(s);
        let mut any = false;
        for f in 0..4 {
            let want = model(s, f);
            self.ev += 1;
            if let Some(got) = self.ctx.call(FORMS[f], &txt, || imp(&txt, f)) {
                if got != want {
                    self.ctx.fail(
                        format!("{}:{}", FORMS[f], cps(&txt)),
                        format!("{} of {}\n  expected {}\n  got      {}", FORMS[f], cps(&txt), cps(&st(&want)), cps(&st(&got))),
                    );
                }
            }
            if want != s {
                any = true;
                self.obs.add(FORMS[f], 1);
            }
        }
        if any {
            self.ctx.distinct(fnv(txt.as_bytes()));
        }
    }
}

fn small_set() -> Vec<char> {
    "aAeoÅ\u{1E9B}\u{212B}\u{2126}\u{0300}\u{0301}\u{0307}\u{0323}\u{0327}\u{031B}\u{0345}\u{0344}\u{0334}\u{093C}\u{094D}\u{0915}\u{0958}\u{09C7}\u{09BE}\u{0DD9}\u{0DCA}\u{0DCF}\u{0F71}\u{0F72}\u{0F73}\u{0F75}\u{0F81}\u{3099}\u{304B}\u{304C}\u{302A}\u{05B0}\u{05BC}\u{05E9}\u{05C1}\u{FB2C}\u{0653}\u{0627}\u{FDFA}\u{FB01}\u{1100}\u{1161}\u{11A8}\u{11A7}\u{AC00}\u{AC01}\u{1D15E}\u{1D165}\u{1D16E}\u{110A5}\u{110BA}\u{2ADC}\u{0338}\u{003D}\u{226E}\u{003C}\u{0B47}\u{0B3E}\u{0B57}\u{0B56}\u{1026}\u{1025}\u{102E}\u{FF76}\u{FF9E}\u{3147}\u{1112E}\u{11131}\u{11127}\u{01D5}\u{00DC}\u{0055}\u{0308}\u{0304}".chars().collect()
}

pub fn c16(ctx: &Ctx) {
    ctx.rule("each of the four forms of a string equals the UAX #15 algorithm; strings: every scalar value alone and (decomposable or non-starter) in 6 contexts; every primary composite pair with one mark of every combining class between; all pairs of 300 and triples of 70 interesting characters; random strings rich in composable pairs, blocked marks, Hangul and multi-starter decompositions, up to tens of thousands of marks, texts with stretches around the limits of 8- and 16-bit counters; non-trivial: distinct strings that at least one form changes");
    ctx.assume("reference: the definitions D68, D65, D109, D117 of the standard over /verif/ref (Unicode 10.0.0)");
    let p = pools();
    // 1. every scalar value
    par(0x110, |b| {
        let mut w = W::new(ctx);
        for i in 0..0x1000u32 {
            let Some(c) = char::from_u32(b as u32 * 0x1000 + i) else { continue };
            w.forms(&[c]);
            let d = table(true)[c as usize].is_some();
            if d || r::ccc(c) != 0 {
                for s in [vec!['a', c], vec![c, '\u{301}'], vec![c, '\u{323}', '\u{301}'], vec!['\u{345}', c], vec!['e', '\u{301}', c, '\u{327}'], vec![c, c], vec![c, '\u{1161}', '\u{11A8}'], vec!['\u{1100}', c]] {
                    w.forms(&s);
                }
            }
        }
        w.done();
    });
    // 2. every composite pair, with and without one mark of every class between
    let pairs: Vec<(char, char)> = {
        let mut v: Vec<_> = r::comp().keys().copied().collect();
        v.sort_unstable();
        v
    };
    let reps: Vec<char> = p.mark_by_ccc.values().map(|v| v[v.len() / 2]).collect();
    par(pairs.len() as u64, |i| {
        let (a, b) = pairs[i as usize];
        let mut w = W::new(ctx);
        for s in [vec![a, b], vec![a, b, b], vec![a, 'x', b], vec![a, a, b], vec![b, a, b], vec![a, '\u{34F}', b]] {
            w.forms(&s);
        }
        for m in &reps {
            w.forms(&[a, *m, b]);
            w.forms(&[a, b, *m]);
            w.forms(&[a, *m, b, *m, b]);
            w.forms(&[*m, a, b, 'x', *m]);
        }
        w.done();
    });
    // 3. all pairs / triples of interesting characters
    let mut g = Rng::new(ctx.seed, 16, 0);
    let mut set: Vec<char> = small_set();
    for _ in 0..60 {
        set.push(*g.pick(&p.weird));
        set.push(*g.pick(&p.seconds));
        set.push(*g.pick(&p.firsts));
        set.push(*g.pick(&p.excluded));
    }
    set.extend(&p.hangul);
    set.sort_unstable();
    set.dedup();
    par(set.len() as u64, |i| {
        let mut w = W::new(ctx);
        for b in &set {
            w.forms(&[set[i as usize], *b]);
        }
        w.done();
    });
    let sm = small_set();
    par(sm.len() as u64, |i| {
        let mut w = W::new(ctx);
        for b in &sm {
            for c in &sm {
                w.forms(&[sm[i as usize], *b, *c]);
                if ctx.thorough() {
                    for d in &sm {
                        w.forms(&[sm[i as usize], *b, *c, *d]);
                    }
                }
            }
        }
        w.done();
    });
    // 4. random
    let n = ctx.n(600_000, 12_000_000);
    par(n / 500, |i| {
        let mut w = W::new(ctx);
        let mut g = Rng::new(ctx.seed, 160, i);
        for j in 0..500 {
            let s = random_text(&mut g, 24);
            if i == 0 && j < 6 {
                ctx.sample(|| format!("{} -> NFC {} NFKD {}", cps(&st(&s)), cps(&st(&model(&s, 2))), cps(&st(&model(&s, 1)))));
            }
            w.forms(&s);
        }
        w.done();
    });
    // 5. long combining runs
    let lens: Vec<usize> = if ctx.thorough() { vec![30, 31, 32, 33, 64, 100, 256, 1000, 4000, 20000] } else { vec![30, 31, 32, 33, 64, 100, 256, 1000, 3000] };
    par(lens.len() as u64 * 4, |i| {
        let mut w = W::new(ctx);
        let mut g = Rng::new(ctx.seed, 161, i);
        let n = lens[i as usize / 4];
        let mut s = vec![*g.pick(&p.firsts)];
        for _ in 0..n {
            s.push(match i % 4 {
                0 => *g.pick(&p.marks),
                1 => *g.pick(&['\u{301}', '\u{323}', '\u{345}', '\u{F73}']),
                2 => '\u{301}',
                _ => *g.pick(&p.weird),
            });
        }
        s.push('b');
        s.push('\u{301}');
        w.obs.add("long runs of marks", 1);
        w.forms(&s);
        w.done();
    });
    // 6. long texts: stretches around the limits of narrow counters, before, between and after random pieces
    par(ctx.n(400, 8_000), |i| {
        if ctx.too_many() {
            return;
        }
        let mut w = W::new(ctx);
        let mut g = Rng::new(ctx.seed, 162, i);
        let s = long_text(&mut g, 70_000);
        w.obs.add("long texts", 1);
        w.obs.add("characters of long texts", s.len() as u64);
        w.forms(&s);
        w.done();
    });
}
/// Random pieces before, between and after long stretches of a repeated pattern.
pub fn long_text(g: &mut Rng, max: usize) -> Vec<char> {
    let p = pools();
    let mut s = vec![];
    for _ in 0..g.range(1, 3) {
        if g.chance(2, 3) {
            s.extend(random_text(g, 12));
        }
        let n = crate::seg::edge(g, max);
        let pat: Vec<char> = match g.below(6) {
            0 => vec![*g.pick(&p.marks)],
            1 => vec!['a'],
            2 => {
                let a = *g.pick(&p.marks);
                vec![a, *g.pick(&p.marks)]
            }
            3 => vec![*g.pick(&['\u{1100}', '\u{1161}', '\u{11A8}', '\u{AC00}', '\u{AC01}'])],
            4 => vec![*g.pick(&p.weird)],
            _ => random_text(g, 4),
        };
        s.extend(pat.iter().cycle().take(if pat.is_empty() { 0 } else { n }));
        if g.chance(1, 2) {
            s.push(*g.pick(&p.seconds));
        }
    }
    s.extend(random_text(g, 12));
    s
}

/// First character of the full decomposition is a starter that no composite has as its second
/// character: a normalization boundary lies before such a character in all four forms.
fn boundary_before(c: char) -> bool {
    static S: OnceLock<HashSet<char>> = OnceLock::new();
    let s = S.get_or_init(|| r::comp().keys().map(|k| k.1).collect());
    let ok = |compat: bool| {
        let f = table(compat)[c as usize].as_ref().map(|d| d[0]).unwrap_or(c);
        let u = f as u32;
        r::ccc(f) == 0 && !s.contains(&f) && !(0x1161..0x1176).contains(&u) && !(0x11A8..0x11C3).contains(&u)
    };
    ok(false) && ok(true)
}
/// A random string canonically equivalent to `s`.
fn equivalent(g: &mut Rng, s: &[char]) -> Vec<char> {
    let mut v = match g.below(3) {
        0 => s.to_vec(),
        1 => decompose(s, false),
        _ => compose(&decompose(s, false)),
    };
    for _ in 0..g.below(12) + 1 {
        if v.is_empty() {
            break;
        }
        let i = g.below(v.len());
        match g.below(4) {
            0 => {
                // decompose one character by one step or fully
                if let Some(d) = r::dm().get(&v[i]) {
                    v.splice(i..=i, d.iter().copied());
                } else if let Some(d) = &table(false)[v[i] as usize] {
                    v.splice(i..=i, d.iter().copied());
                }
            }
            1 if i + 1 < v.len() => {
                // exchange two marks of different non-zero classes
                let (a, b) = (r::ccc(v[i]), r::ccc(v[i + 1]));
                if a != 0 && b != 0 && a != b {
                    v.swap(i, i + 1);
                }
            }
            2 if i + 1 < v.len() => {
                // compose two adjacent characters (any pair with a primary composite)
                if let Some(p) = pair_comp(v[i], v[i + 1]) {
                    v.splice(i..=i + 1, [p]);
                }
            }
            _ => {
                // singletons and exclusions: replace a character by one that decomposes to it
                for (k, d) in [('\u{212B}', '\u{C5}'), ('\u{2126}', '\u{3A9}'), ('\u{340}', '\u{300}'), ('\u{341}', '\u{301}'), ('\u{37E}', ';'), ('\u{2000}', '\u{2002}'), ('\u{F900}', '\u{8C48}')] {
                    if v[i] == d {
                        v[i] = k;
                        break;
                    }
                }
            }
        }
    }
    v
}

/// Drives one iterator step by step; at every step its clone, its display and its size hint must
/// agree with what it goes on to yield, and it must stay exhausted.
fn drive<I>(ctx: &Ctx, what: &str, txt: &str, it: I, want: &[char], every: usize, obs: &mut Obs)
where
    I: Iterator<Item = char> + Clone + std::fmt::Display,
{
    ctx.call(what, txt, || {
        let mut it = it;
        let mut k = 0;
        loop {
            if k % every == 0 || k + 2 >= want.len() {
                let rest = &want[k.min(want.len())..];
                let c: Vec<char> = it.clone().collect();
                let d = it.to_string();
                let (lo, hi) = it.size_hint();
                obs.add("midway clones", 1);
                if c != rest || d != st(rest) || lo > rest.len() || hi.map(|h| h < rest.len()).unwrap_or(false) {
                    ctx.fail(
                        format!("{} midway:{}", what, cps(txt)),
                        format!("{} of {} after {} steps: still to come {}; clone yields {}, display shows {}, size hint {:?}", what, cps(txt), k, cps(&st(rest)), cps(&st(&c)), cps(&d), (lo, hi)),
                    );
                    return;
                }
            }
            match it.next() {
                Some(c) => {
                    if want.get(k) != Some(&c) {
                        ctx.fail(format!("{} step:{}", what, cps(txt)), format!("{} of {}: step {} gave U+{:04X}, collecting gave {}", what, cps(txt), k, c as u32, cps(&st(want))));
                        return;
                    }
                    k += 1;
                }
                None => break,
            }
        }
        let again: Vec<Option<char>> = (0..4).map(|_| it.next()).collect();
        obs.add("polls past the end", 4);
        if k != want.len() || again.iter().any(|x| x.is_some()) {
            ctx.fail(format!("{} end:{}", what, cps(txt)), format!("{} of {}: {} of {} characters, then {:?}", what, cps(txt), k, want.len(), again));
        }
    });
}

/// How many characters of the source a form may have read when it has yielded output `j`: all of the
/// pending segment (starter, marks, composed starters) and of the one after it.
fn read_bounds(s: &[char], form: usize) -> (Vec<char>, Vec<usize>) {
    let cc = r::ccc_all();
    let t = table(form % 2 == 1);
    // decomposed characters with the index of their source
    let mut d: Vec<(char, usize)> = vec![];
    for (i, &c) in s.iter().enumerate() {
        match &t[c as usize] {
            None => d.push((c, i)),
            Some(x) => d.extend(x.iter().map(|c| (*c, i))),
        }
    }
    let mut a = 0;
    while a < d.len() {
        let b = (a..d.len()).find(|i| cc[d[*i].0 as usize] == 0).unwrap_or(d.len());
        d[a..b].sort_by_key(|c| cc[c.0 as usize]);
        a = b + 1;
    }
    // outputs, and where segments start (output index, source index of their starter)
    let mut out: Vec<char> = vec![];
    let mut seg: Vec<(usize, usize)> = vec![];
    let mut starter: Option<usize> = None;
    let mut top = 0u8;
    let mut any = false;
    for &(c, i) in &d {
        let k = cc[c as usize];
        if form >= 2 {
            if let Some(l) = starter {
                if !any || (k != 0 && top < k) {
                    if let Some(p) = pair_comp(out[l], c) {
                        out[l] = p;
                        continue;
                    }
                }
            }
        }
        if k == 0 {
            starter = Some(out.len());
            any = false;
            top = 0;
            seg.push((out.len(), i));
        } else {
            any = true;
            top = k;
        }
        out.push(c);
    }
    let mut bounds = Vec::with_capacity(out.len());
    let mut n = 0;
    for j in 0..out.len() {
        while n < seg.len() && seg[n].0 <= j {
            n += 1;
        }
        bounds.push(seg.get(n + 1).map(|x| x.1 + 1).unwrap_or(s.len()));
    }
    (out, bounds)
}
/// A source that counts what was read from it.
struct Counted<'a> {
    s: &'a [char],
    n: &'a std::cell::Cell<usize>,
}
impl Iterator for Counted<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let i = self.n.get();
        let c = self.s.get(i).copied();
        if c.is_some() {
            self.n.set(i + 1);
        }
        c
    }
}
const AHEAD: usize = 64;
fn streamed(ctx: &Ctx, s: &[char], obs: &mut Obs) {
    use unic::normal::StrNormalForm as N;
    let txt = st(s);
    for form in 0..4 {
        let (want, bounds) = read_bounds(s, form);
        ctx.eval(1);
        let n = std::cell::Cell::new(0);
        let r = ctx.call("normalization of a stream", &txt, || {
            let src = Counted { s, n: &n };
            let mut it: Box<dyn Iterator<Item = char>> = match form {
                0 => Box::new(N::nfd(src)),
                1 => Box::new(N::nfkd(src)),
                2 => Box::new(N::nfc(src)),
                _ => Box::new(N::nfkc(src)),
            };
            let mut most = 0;
            for (j, w) in want.iter().enumerate() {
                let c = it.next();
                if c != Some(*w) {
                    return Err(format!("output {} is {:?} instead of U+{:04X}", j, c, *w as u32));
                }
                let ahead = n.get().saturating_sub(bounds[j]);
                most = most.max(ahead);
                if ahead > AHEAD {
                    return Err(format!("after {} outputs {} characters were read, {} would do", j + 1, n.get(), bounds[j]));
                }
            }
            match it.next() {
                None => Ok(most),
                c => Err(format!("{:?} after the end", c)),
            }
        });
        match r {
            Some(Err(e)) => ctx.fail(format!("{} stream:{}", FORMS[form], cps(&txt)), format!("{} of a stream: {}\n  input ({} characters): {}", FORMS[form], e, s.len(), cps(&txt))),
            Some(Ok(m)) => {
                if m > 0 {
                    obs.add("streams that read beyond two segments", 1);
                }
            }
            None => {}
        }
        obs.add("streamed outputs with their reads counted", want.len() as u64);
    }
    obs.add("streams", 1);
}

pub fn c17(ctx: &Ctx) {
    ctx.rule("metamorphic and consumption monitors on the implementation alone: idempotence, the 16 form-of-form identities, equality on canonically equivalent variants (random decomposition, recomposition, mark exchange), concatenation at normalization boundaries, step-by-step / cloned / displayed / polled-past-the-end consumption, str and char-iterator entry points, umbrella crate, the same on texts of up to 200,000 characters, streams with their reads counted; non-trivial: distinct strings that some form changes");
    ctx.assume("boundaries and equivalence steps are computed from /verif/ref");
    let p = pools();
    let run = |w: &mut W, g: &mut Rng, s: &[char]| {
        let txt = st(s);
        let Some(f) = ctx.call("normalization", &txt, || [imp(&txt, 0), imp(&txt, 1), imp(&txt, 2), imp(&txt, 3)]) else { return };
        if f.iter().any(|x| x[..] != *s) {
            ctx.distinct(fnv(txt.as_bytes()));
        }
        // form of form
        for a in 0..4 {
            let t = st(&f[a]);
            let Some(h) = ctx.call("normalization twice", &t, || [imp(&t, 0), imp(&t, 1), imp(&t, 2), imp(&t, 3)]) else { return };
            for b in 0..4 {
                // compatibility is sticky; the outer form decides composition
                let want = (b & 2) | ((a | b) & 1);
                w.ev += 1;
                if h[b] != f[want] {
                    ctx.fail(
                        format!("{}({}):{}", FORMS[b], FORMS[a], cps(&txt)),
                        format!("{}({}(s)) differs from {}(s) for s = {}\n  {}\n  {}", FORMS[b], FORMS[a], FORMS[want], cps(&txt), cps(&st(&h[b])), cps(&st(&f[want]))),
                    );
                }
            }
            w.obs.add("form-of-form identities", 4);
        }
        // canonical equivalents
        for _ in 0..3 {
            let e = equivalent(g, s);
            if e == s {
                continue;
            }
            let t = st(&e);
            w.obs.add("canonically equivalent variants", 1);
            let Some(h) = ctx.call("normalization", &t, || [imp(&t, 0), imp(&t, 1), imp(&t, 2), imp(&t, 3)]) else { return };
            for b in 0..4 {
                w.ev += 1;
                if h[b] != f[b] {
                    ctx.fail(format!("{} equivalent:{}", FORMS[b], cps(&txt)), format!("{} differs on canonically equivalent strings {} and {}\n  {}\n  {}", FORMS[b], cps(&txt), cps(&t), cps(&st(&f[b])), cps(&st(&h[b]))));
                }
            }
        }
        // consumption
        let every = 1 + s.len() / 20;
        drive(ctx, "nfd", &txt, txt.nfd(), &f[0], every, &mut w.obs);
        drive(ctx, "nfkd", &txt, txt.nfkd(), &f[1], every, &mut w.obs);
        drive(ctx, "nfc", &txt, txt.nfc(), &f[2], every, &mut w.obs);
        drive(ctx, "nfkc", &txt, txt.nfkc(), &f[3], every, &mut w.obs);
        drive(ctx, "nfc of chars()", &txt, txt.chars().nfc(), &f[2], every, &mut w.obs);
        drive(ctx, "nfkd of an iterator", &txt, s.to_vec().into_iter().nfkd(), &f[1], every, &mut w.obs);
        w.ev += 6;
        let Some(other) = ctx.call("entry points", &txt, || {
            use unic::normal::StrNormalForm as N;
            let v = s.to_vec();
            [
                N::nfd(v.clone().into_iter()).collect::<Vec<char>>(),
                N::nfkd(txt.chars()).collect(),
                N::nfc(v.clone().into_iter()).collect(),
                N::nfkc(&txt[..]).collect(),
            ]
        }) else {
            return;
        };
        for b in 0..4 {
            w.ev += 1;
            if other[b] != f[b] {
                ctx.fail(format!("{} entry point:{}", FORMS[b], cps(&txt)), format!("{} of {} depends on the entry point: {} / {}", FORMS[b], cps(&txt), cps(&st(&f[b])), cps(&st(&other[b]))));
            }
        }
        // concatenation at boundaries
        let cuts: Vec<usize> = (1..s.len()).filter(|i| boundary_before(s[*i])).collect();
        if !cuts.is_empty() {
            let i = *g.pick(&cuts);
            let (x, y) = (st(&s[..i]), st(&s[i..]));
            w.obs.add("boundary splits", 1);
            if let Some(h) = ctx.call("normalization of parts", &txt, || [0, 1, 2, 3].map(|b| [imp(&x, b), imp(&y, b)].concat())) {
                for b in 0..4 {
                    w.ev += 1;
                    if h[b] != f[b] {
                        ctx.fail(format!("{} concat:{}", FORMS[b], cps(&txt)), format!("{} of {} + {} is not the concatenation of the parts' forms\n  {}\n  {}", FORMS[b], cps(&x), cps(&y), cps(&st(&f[b])), cps(&st(&h[b]))));
                    }
                }
            }
        }
    };
    // every character with a decomposition or a class, alone and in a context
    par(0x110, |b| {
        let mut w = W::new(ctx);
        let mut g = Rng::new(ctx.seed, 170, b);
        for i in 0..0x1000u32 {
            let Some(c) = char::from_u32(b as u32 * 0x1000 + i) else { continue };
            if table(true)[c as usize].is_some() || r::ccc(c) != 0 {
                run(&mut w, &mut g, &[c]);
                if !(0xAC00..0xD7A4).contains(&(c as u32)) || c as u32 % 7 == 0 {
                    run(&mut w, &mut g, &['o', c, '\u{323}', '\u{301}', c, 'k', c]);
                }
            }
        }
        w.done();
    });
    let n = ctx.n(200_000, 4_000_000);
    par(n / 400, |i| {
        let mut w = W::new(ctx);
        let mut g = Rng::new(ctx.seed, 171, i);
        for j in 0..400 {
            let s = random_text(&mut g, 16);
            if i == 0 && j < 5 {
                ctx.sample(|| format!("{} with variant {}", cps(&st(&s)), cps(&st(&equivalent(&mut Rng::new(1, 1, j), &s)))));
            }
            run(&mut w, &mut g, &s);
        }
        w.done();
    });
    // streams: what is read ahead of each output
    let dec: Vec<char> = (0..0x110000u32).filter_map(char::from_u32).filter(|c| table(true)[*c as usize].is_some() && (!(0xAC00..0xD7A4).contains(&(*c as u32)) || *c as u32 % 97 == 0)).collect();
    par(dec.len() as u64 / 64 + 1, |i| {
        let mut w = W::new(ctx);
        for c in dec.iter().skip(i as usize * 64).take(64) {
            streamed(ctx, &[*c; 160], &mut w.obs);
            streamed(ctx, &['a', '\u{327}', *c, '\u{301}'].repeat(40), &mut w.obs);
        }
        w.done();
    });
    par(ctx.n(400, 8000), |i| {
        let mut w = W::new(ctx);
        let mut g = Rng::new(ctx.seed, 173, i);
        let mut s: Vec<char> = vec![];
        let unit = random_text(&mut g, 6);
        for _ in 0..60 {
            s.extend(&unit);
            if g.chance(1, 2) {
                s.extend(random_text(&mut g, 6));
            }
            if g.chance(1, 6) {
                s.extend((0..g.range(0, 60)).map(|_| *g.pick(&p.marks)));
            }
        }
        streamed(ctx, &s, &mut w.obs);
        w.done();
    });
    // long texts
    par(ctx.n(150, 4000), |i| {
        if ctx.too_many() {
            return;
        }
        let mut w = W::new(ctx);
        let mut g = Rng::new(ctx.seed, 174, i);
        let s = long_text(&mut g, if i % 8 == 0 { 70_000 } else { 3000 });
        w.obs.add("long texts", 1);
        w.obs.add("characters of long texts", s.len() as u64);
        run(&mut w, &mut g, &s);
        streamed(ctx, &s, &mut w.obs);
        w.done();
    });
    // long runs of marks, consumed in steps
    par(ctx.n(24, 200), |i| {
        let mut w = W::new(ctx);
        let mut g = Rng::new(ctx.seed, 172, i);
        let mut s = random_text(&mut g, 4);
        for _ in 0..g.range(20, 600) {
            s.push(*g.pick(&p.marks));
        }
        s.extend(random_text(&mut g, 8));
        w.obs.add("long runs of marks", 1);
        run(&mut w, &mut g, &s);
        w.done();
    });
}
