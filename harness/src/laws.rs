//! C37: values of the public types compare, hash, copy and display coherently; displaying into a
//! writer that fails reports the failure.

use crate::ctx::{cps, fnv, par, Ctx, Obs};
use crate::rng::Rng;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{self, Debug, Display, Write};
use std::hash::{Hash, Hasher};
use std::sync::Mutex;
use unic_bidi::{BidiInfo, Level, ParagraphInfo};
use unic_char_basics::notation::unicode_notation;
use unic_char_property::{EnumeratedCharProperty, TotalCharProperty};
use unic_char_range::CharRange;
use unic_normal::StrNormalForm;
use unic_segment::{GraphemeCursor, GraphemeIncomplete, GraphemeIndices, Graphemes, WordBoundIndices, WordBounds};
use unic_ucd_age::{Age, UnicodeVersion};
use unic_ucd_name::Name;
use unic_ucd_name_aliases::NameAliasType;
use unic_ucd_normal::CanonicalCombiningClass;

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn any_char(g: &mut Rng) -> char {
    loop {
        if let Some(c) = char::from_u32(g.below(0x110000) as u32) {
            return c;
        }
    }
}

// ------------------------------------------------------------------ equality, hashing, order

/// Equality of the values must be equality of their keys (what can be observed of them).
fn eq_laws<T: PartialEq + Debug, K: PartialEq + Debug>(ctx: &Ctx, label: &str, vals: &[T], keys: &[K], pairs: &mut dyn Iterator<Item = (usize, usize)>) {
    let mut n = 0u64;
    let mut equal = 0u64;
    for (i, j) in pairs {
        n += 1;
        let (a, b) = (&vals[i], &vals[j]);
        let want = keys[i] == keys[j];
        equal += want as u64;
        if (a == b) != want || (a != b) == want || (b == a) != want {
            ctx.fail(
                format!("{}:eq:{:?}:{:?}", label, keys[i], keys[j]),
                format!("{}: {:?} and {:?}: == {}, reversed {}, != {}; expected equal: {}", label, keys[i], keys[j], a == b, b == a, a != b, want),
            );
        }
    }
    ctx.eval(n);
    ctx.obs("pairs compared for equality", n);
    ctx.obs("equal pairs", equal);
}

fn hash_laws<T: Hash + Clone + PartialEq + Debug, K: PartialEq + Debug>(ctx: &Ctx, label: &str, vals: &[T], keys: &[K]) {
    // equal values hash alike, a copy hashes as its original, and the hash does not drift
    let hs: Vec<u64> = vals.iter().map(hash).collect();
    let mut by: Vec<usize> = (0..vals.len()).collect();
    by.sort_by_key(|i| hs[*i]);
    let mut n = 0u64;
    for (i, v) in vals.iter().enumerate() {
        n += 2;
        #[allow(clippy::clone_on_copy)]
        let c = v.clone();
        if hash(&c) != hs[i] || hash(v) != hs[i] || c != *v {
            ctx.fail(format!("{}:copy:{:?}", label, keys[i]), format!("{}: a copy of {:?} is {:?}; equal {}, hashes alike {}", label, keys[i], c, c == *v, hash(&c) == hs[i]));
        }
        for j in [i.saturating_sub(1), 0, vals.len() / 2] {
            n += 1;
            if keys[i] == keys[j] && hs[i] != hs[j] {
                ctx.fail(format!("{}:hash:{:?}", label, keys[i]), format!("{}: equal values {:?} and {:?} have different hashes", label, vals[i], vals[j]));
            }
        }
    }
    let buckets = 1 + by.windows(2).filter(|w| hs[w[0]] != hs[w[1]]).count();
    ctx.eval(n);
    ctx.obs("values hashed", n);
    ctx.obs("different hashes", buckets as u64);
}

fn ord_laws<T: Ord + Debug>(ctx: &Ctx, label: &str, vals: &[T], want: &dyn Fn(usize, usize) -> Ordering, pairs: &mut dyn Iterator<Item = (usize, usize)>) {
    let mut n = 0u64;
    for (i, j) in pairs {
        n += 1;
        let (a, b) = (&vals[i], &vals[j]);
        let w = want(i, j);
        let got = (a.cmp(b), a.partial_cmp(b), a < b, a <= b, a > b, a >= b, b.cmp(a));
        let exp = (w, Some(w), w.is_lt(), w.is_le(), w.is_gt(), w.is_ge(), w.reverse());
        let (mx, mn) = (a.max(b), a.min(b));
        let ok = got == exp && (mx == a || mx == b) && mx >= mn && (mx == if w.is_gt() { a } else { b }) && (mn == if w.is_gt() { b } else { a });
        if !ok {
            ctx.fail(
                format!("{}:ord:{:?}:{:?}", label, a, b),
                format!("{}: {:?} and {:?}: cmp, partial_cmp, <, <=, >, >=, reversed cmp are {:?}, expected {:?}; max {:?}, min {:?}", label, a, b, got, exp, mx, mn),
            );
        }
    }
    ctx.eval(n);
    ctx.obs("pairs compared for order", n);
}

fn all(n: usize) -> impl Iterator<Item = (usize, usize)> {
    (0..n).flat_map(move |i| (0..n).map(move |j| (i, j)))
}
fn some(n: usize, count: u64, mut g: Rng) -> impl Iterator<Item = (usize, usize)> {
    (0..count).map(move |k| {
        let i = g.below(n);
        (i, if k % 8 == 0 { i } else { (if k % 8 < 4 { i + g.below(3) } else { g.below(n) }).min(n - 1) })
    })
}

// ------------------------------------------------------------------ displaying

/// Takes at most `cap` bytes; refuses the rest, for good. `by_piece`: refuses the piece that does
/// not fit as a whole; otherwise takes the part of it that fits.
struct Full {
    cap: usize,
    got: String,
    failed: bool,
    by_piece: bool,
    calls: u64,
}
impl Write for Full {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        if self.failed {
            return Err(fmt::Error);
        }
        if self.got.len() + s.len() <= self.cap {
            self.got.push_str(s);
            return Ok(());
        }
        self.failed = true;
        if !self.by_piece {
            let mut k = self.cap - self.got.len();
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            self.got.push_str(&s[..k]);
        }
        Err(fmt::Error)
    }
}

/// `fault points` observed: the number of (value, capacity) pairs at which the writer failed.
pub fn display<T: Display + ?Sized>(ctx: &Ctx, label: &str, case: &str, v: &T, every: usize, obs: &mut Obs) {
    ctx.call(label, case, || {
        let full = v.to_string();
        let again = format!("{}", v);
        if full != again {
            ctx.fail(format!("{}:display twice:{}", label, case), format!("{} {}: displayed as {:?}, then as {:?}", label, case, full, again));
        }
        obs.add("values displayed", 1);
        let mut cap = 0;
        while cap <= full.len() {
            for by_piece in [true, false] {
                let mut w = Full { cap, got: String::new(), failed: false, by_piece, calls: 0 };
                let r = write!(w, "{}", v);
                obs.add("writers tried", 1);
                if w.failed {
                    obs.add("fault points", 1);
                }
                let ok = if cap >= full.len() { r.is_ok() && w.got == full } else { r.is_err() && w.failed && full.starts_with(&w.got) };
                if !ok {
                    ctx.fail(
                        format!("{}:display fault:{}", label, case),
                        format!("{} {}: displays as {:?}; a writer that takes {} bytes got {:?} and the result was {:?}", label, case, full, cap, w.got, r),
                    );
                    return;
                }
            }
            cap += if cap + every > full.len() && cap < full.len() { full.len() - cap } else { every };
        }
        // and after the failures the value is what it was
        if v.to_string() != full {
            ctx.fail(format!("{}:display after:{}", label, case), format!("{} {}: displayed as {:?}, after failing writers as {:?}", label, case, full, v.to_string()));
        }
    });
}

/// The debug form never panics, is repeatable and passes on failures.
fn debug<T: Debug + ?Sized>(ctx: &Ctx, label: &str, case: &str, v: &T, obs: &mut Obs) {
    ctx.call(label, case, || {
        let a = format!("{:?}", v);
        let p = format!("{:#?}", v);
        let mut ok = a == format!("{:?}", v) && p == format!("{:#?}", v) && !a.is_empty();
        for cap in [0, 1, a.len() / 2, a.len().saturating_sub(1)] {
            let mut w = Full { cap, got: String::new(), failed: false, by_piece: cap % 2 == 0, calls: 0 };
            let r = write!(w, "{:?}", v);
            ok &= if cap >= a.len() { r.is_ok() } else { r.is_err() && a.starts_with(&w.got) };
        }
        obs.add("debug forms", 1);
        if !ok {
            ctx.fail(format!("{}:debug:{}", label, case), format!("{} {}: debug form {:?} is not repeatable or hides a failing writer", label, case, a));
        }
    });
}

// ------------------------------------------------------------------ the laws, type by type

fn enumerated<P>(ctx: &Ctx, label: &str, default: Option<P>, want_default: &str, obs: &mut Obs)
where
    P: EnumeratedCharProperty + Display + Debug + Copy + Eq + Hash + TotalOf + 'static,
{
    let v = P::all_values();
    let keys: Vec<&str> = v.iter().map(|x| x.abbr_name()).collect();
    eq_laws(ctx, label, v, &keys, &mut all(v.len()));
    hash_laws(ctx, label, v, &keys);
    for x in v {
        ctx.distinct(fnv(format!("{} {}", label, x.abbr_name()).as_bytes()));
        display(ctx, label, x.abbr_name(), x, 1, obs);
        debug(ctx, label, x.abbr_name(), x, obs);
    }
    if let Some(d) = default {
        ctx.eval(1);
        ctx.check(d.abbr_name() == want_default, || format!("{}:default", label), || format!("{}: the default value is {:?}, expected {}", label, d, want_default));
        // an unassigned, ordinary code point has the default value
        let u = P::of_char('\u{E1FFF}');
        ctx.obs("defaults", 1);
        ctx.check(u == d || want_default == "L", || format!("{}:default of unassigned", label), || format!("{}: U+E1FFF has {:?}, the default is {:?}", label, u, d));
    }
}
pub trait TotalOf {
    fn of_char(c: char) -> Self;
}
impl<T: TotalCharProperty> TotalOf for T {
    fn of_char(c: char) -> T {
        <T as TotalCharProperty>::of(c)
    }
}

fn binary<P>(ctx: &Ctx, label: &str, obs: &mut Obs)
where
    P: TotalCharProperty + Display + Debug + Copy + Eq + Hash + Default + Into<bool>,
{
    let mut v: Vec<P> = vec![P::default()];
    let mut g = Rng::new(ctx.seed, 371, fnv(label.as_bytes()));
    for c in ('\0'..='\u{2ff}').step_by(7).chain(['\u{1F600}', '\u{200E}', '\u{300}', '\u{1F3FB}', '\u{261D}', '-', '#', ' ']) {
        v.push(<P as TotalCharProperty>::of(c));
    }
    for _ in 0..200 {
        v.push(<P as TotalCharProperty>::of(any_char(&mut g)));
    }
    let keys: Vec<bool> = v.iter().map(|x| (*x).into()).collect();
    ctx.eval(1);
    ctx.check(!keys[0], || format!("{}:default", label), || format!("{}: the default value is yes", label));
    let n = v.len();
    eq_laws(ctx, label, &v, &keys, &mut all(n));
    hash_laws(ctx, label, &v, &keys);
    for b in [true, false] {
        if let Some(i) = keys.iter().position(|k| *k == b) {
            ctx.distinct(fnv(format!("{} {}", label, b).as_bytes()));
            display(ctx, label, if b { "yes" } else { "no" }, &v[i], 1, obs);
            debug(ctx, label, if b { "yes" } else { "no" }, &v[i], obs);
        }
    }
}

/// One iterator cloned at every step: the clone and the original each go on as `want` says, in
/// whichever order they are advanced.
fn clones<I, T>(ctx: &Ctx, label: &str, txt: &str, make: &dyn Fn() -> I, g: &mut Rng, obs: &mut Obs)
where
    I: Iterator<Item = T> + Clone + Debug,
    T: PartialEq + Debug,
{
    ctx.call(label, txt, || {
        let want: Vec<T> = make().collect();
        let mut it = make();
        let steps = want.len();
        let every = 1 + steps / 12;
        for k in 0..=steps {
            if k % every == 0 || k == steps {
                let mut c = it.clone();
                let d = format!("{:?}", it);
                if g.chance(1, 2) {
                    // the clone runs on ahead; the original stays where it was
                    let ahead = g.below(steps - k + 2);
                    for m in 0..ahead {
                        if c.next().as_ref() != want.get(k + m) {
                            ctx.fail(format!("{}:clone:{}", label, cps(txt)), format!("{} of {}: a clone taken after {} steps went wrong at its step {}", label, cps(txt), k, m));
                            return;
                        }
                    }
                } else {
                    // the clone is exhausted by reference, then dropped
                    let n = c.by_ref().count();
                    if n != steps - k {
                        ctx.fail(format!("{}:clone count:{}", label, cps(txt)), format!("{} of {}: a clone taken after {} of {} steps yielded {} more", label, cps(txt), k, steps, n));
                        return;
                    }
                }
                // a clone of a used clone ends up at the same place
                let rest: Vec<T> = it.clone().clone().collect();
                let ok = rest[..] == want[k..] && format!("{:?}", it) == d;
                obs.add("clones followed", 3);
                if !ok {
                    ctx.fail(format!("{}:clone disturbs:{}", label, cps(txt)), format!("{} of {}: after {} steps and using a clone the original has left {:?}, expected {:?}", label, cps(txt), k, rest, &want[k..]));
                    return;
                }
            }
            let n = it.next();
            if n.as_ref() != want.get(k) {
                ctx.fail(format!("{}:original:{}", label, cps(txt)), format!("{} of {}: step {} gave {:?}, expected {:?}", label, cps(txt), k, n, want.get(k)));
                return;
            }
        }
    });
}

/// A cursor cloned at any point of a walk goes on like the original, whatever the other one does.
fn cursors(ctx: &Ctx, txt: &str, g: &mut Rng, obs: &mut Obs) {
    ctx.call("GraphemeCursor clone", txt, || {
        for legacy in [false, true] {
            let new = |o: usize| if legacy { GraphemeCursor::new_legacy(o, txt.len()) } else { GraphemeCursor::new(o, txt.len()) };
            let mut c = new(0);
            let mut walk = vec![0];
            while let Ok(Some(b)) = c.next_boundary(txt, 0) {
                walk.push(b);
            }
            let mut c = new(0);
            for (k, b) in walk.iter().enumerate() {
                if c.cur_cursor() != *b {
                    ctx.fail(format!("cursor original:{}", cps(txt)), format!("cursor over {}: at {} after {} steps, expected {}", cps(txt), c.cur_cursor(), k, b));
                    return;
                }
                let mut d = c.clone();
                let mut at = k;
                for _ in 0..g.range(0, 6) {
                    let fwd = g.chance(1, 2);
                    let r = if fwd { d.next_boundary(txt, 0) } else { d.prev_boundary(txt, 0) };
                    let w = if fwd { walk.get(at + 1).copied() } else { at.checked_sub(1).map(|i| walk[i]) };
                    if r != Ok(w) {
                        ctx.fail(format!("cursor clone:{}", cps(txt)), format!("clone of a cursor over {} at boundary {}: moving {} gave {:?}, expected {:?}", cps(txt), walk[at], if fwd { "forward" } else { "back" }, r, w));
                        return;
                    }
                    if w.is_some() {
                        at = if fwd { at + 1 } else { at - 1 };
                    }
                    obs.add("cursor clones moved", 1);
                }
                if k + 1 < walk.len() && c.next_boundary(txt, 0) != Ok(Some(walk[k + 1])) {
                    ctx.fail(format!("cursor disturbed:{}", cps(txt)), format!("cursor over {}: using its clone changed its next boundary after {}", cps(txt), b));
                    return;
                }
            }
        }
        // a cursor that waits for text, fed piece by piece and cloned before every piece
        let inner: Vec<usize> = txt.char_indices().map(|x| x.0).skip(1).collect();
        for _ in 0..3 {
            if inner.is_empty() {
                break;
            }
            let i = *g.pick(&inner);
            let mut c = GraphemeCursor::new(i, txt.len());
            let whole = GraphemeCursor::new(i, txt.len()).is_boundary(txt, 0);
            let mut start = i;
            let mut waiting = Vec::new();
            let end = loop {
                match c.is_boundary(&txt[i..], i) {
                    Err(GraphemeIncomplete::PreContext(n)) if n <= start && n > 0 => {
                        waiting.push((c.clone(), n));
                        start = txt[..n].char_indices().rev().nth(g.below(3)).map(|x| x.0).unwrap_or(0);
                        c.provide_context(&txt[start..n], start);
                    }
                    r => break r,
                }
            };
            let mut ok = end == whole;
            // every clone, taken while waiting, gets there as well, from what it had been given
            for (mut d, n) in waiting {
                d.provide_context(&txt[..n], 0);
                ok &= d.is_boundary(&txt[i..], i) == whole;
                obs.add("cursor clones taken while waiting", 1);
            }
            if !ok {
                ctx.fail(format!("cursor waiting:{}", cps(txt)), format!("cursor at {} of {}: fed piece by piece {:?}, undivided {:?}, or a clone taken on the way differs", i, cps(txt), end, whole));
                return;
            }
        }
    });
}

type BidiKey = (String, Vec<u8>, Vec<&'static str>, Vec<(std::ops::Range<usize>, u8)>);
fn bidi_key(b: &BidiInfo<'_>) -> BidiKey {
    use unic_char_property::EnumeratedCharProperty as _;
    (b.text.to_string(), b.levels.iter().map(|l| l.number()).collect(), b.original_classes.iter().map(|c| c.abbr_name()).collect(), b.paragraphs.iter().map(|p| (p.range.clone(), p.level.number())).collect())
}

pub fn c37(ctx: &Ctx) {
    ctx.rule("every value (or a seeded sample of the large types) of every public value type: all pairs or sampled pairs for equality, hashing and every ordering operator against a key of what is observable; every iterator and cursor cloned along its walk; every Display driven into writers that run full at every byte, piecewise and partially; non-trivial: distinct values");
    ctx.assume("keys: the observable content of the value (names, numbers, texts, members); a writer that failed once keeps failing");
    let mut o = Obs::default();

    // enumerated and binary properties
    use unic_ucd_bidi::{BidiClass, BidiClassCategory};
    use unic_ucd_category::GeneralCategory;
    use unic_ucd_normal::DecompositionType;
    use unic_ucd_segment::{GraphemeClusterBreak, SentenceBreak, WordBreak};
    enumerated::<GeneralCategory>(ctx, "General_Category", Some(GeneralCategory::default()), "Cn", &mut o);
    enumerated::<BidiClass>(ctx, "Bidi_Class", Some(BidiClass::default()), "L", &mut o);
    enumerated::<GraphemeClusterBreak>(ctx, "Grapheme_Cluster_Break", Some(GraphemeClusterBreak::default()), "XX", &mut o);
    enumerated::<WordBreak>(ctx, "Word_Break", Some(WordBreak::default()), "XX", &mut o);
    enumerated::<SentenceBreak>(ctx, "Sentence_Break", Some(SentenceBreak::default()), "XX", &mut o);
    {
        let v = DecompositionType::all_values();
        let keys: Vec<&str> = v.iter().map(|x| x.abbr_name()).collect();
        eq_laws(ctx, "Decomposition_Type", v, &keys, &mut all(v.len()));
        hash_laws(ctx, "Decomposition_Type", v, &keys);
        for x in v {
            display(ctx, "Decomposition_Type", x.abbr_name(), x, 1, &mut o);
            debug(ctx, "Decomposition_Type", x.abbr_name(), x, &mut o);
        }
        let v = [BidiClassCategory::Strong, BidiClassCategory::Weak, BidiClassCategory::ExplicitFormatting, BidiClassCategory::Neutral];
        eq_laws(ctx, "BidiClassCategory", &v, &[0, 1, 2, 3], &mut all(4));
        let v = [NameAliasType::NameCorrections, NameAliasType::ControlCodeNames, NameAliasType::AlternateNames, NameAliasType::Figments, NameAliasType::NameAbbreviations];
        eq_laws(ctx, "NameAliasType", &v, &[0, 1, 2, 3, 4], &mut all(5));
        hash_laws(ctx, "NameAliasType", &v, &[0, 1, 2, 3, 4]);
    }
    macro_rules! bin {
        ($($t:path)*) => { $( binary::<$t>(ctx, stringify!($t), &mut o); )* };
    }
    bin! {
        unic_emoji_char::Emoji unic_emoji_char::EmojiPresentation unic_emoji_char::EmojiModifier unic_emoji_char::EmojiModifierBase unic_emoji_char::EmojiComponent
        unic_ucd_ident::XidStart unic_ucd_ident::XidContinue unic_ucd_ident::IdStart unic_ucd_ident::IdContinue unic_ucd_ident::PatternSyntax unic_ucd_ident::PatternWhitespace
        unic_ucd_common::Alphabetic unic_ucd_common::WhiteSpace unic_ucd_common::alphanumeric::Alphanumeric unic_ucd_common::control::Control unic_ucd_common::numeric::Numeric
        unic_ucd_case::Lowercase unic_ucd_case::Uppercase unic_ucd_case::Cased unic_ucd_case::CaseIgnorable unic_ucd_case::ChangesWhenLowercased unic_ucd_case::ChangesWhenUppercased
        unic_ucd_case::ChangesWhenTitlecased unic_ucd_case::ChangesWhenCasefolded unic_ucd_case::ChangesWhenCasemapped unic_ucd_bidi::BidiMirrored unic_ucd_bidi::BidiControl
    }

    // numbers: levels, combining classes, versions, ages
    {
        let v: Vec<Level> = (0..=126).map(|n| Level::new(n).unwrap()).collect();
        let k: Vec<u8> = (0..=126).collect();
        eq_laws(ctx, "Level", &v, &k, &mut all(v.len()));
        hash_laws(ctx, "Level", &v, &k);
        ord_laws(ctx, "Level", &v, &|i, j| k[i].cmp(&k[j]), &mut all(v.len()));
        for (l, n) in v.iter().zip(&k) {
            ctx.distinct(fnv(format!("Level {}", n).as_bytes()));
            ctx.check(l.to_string() == n.to_string(), || format!("Level:text:{}", n), || format!("level {} displays as {}", n, l));
            display(ctx, "Level", &n.to_string(), l, 1, &mut o);
            debug(ctx, "Level", &n.to_string(), l, &mut o);
        }
        let v: Vec<(char, CanonicalCombiningClass)> = (0..0x110000).filter_map(char::from_u32).map(|c| (c, CanonicalCombiningClass::of(c))).filter(|x| x.1.number() != 0).collect();
        let mut v: Vec<CanonicalCombiningClass> = v.into_iter().map(|x| x.1).collect();
        v.push(CanonicalCombiningClass::default());
        v.push(CanonicalCombiningClass::of('a'));
        let k: Vec<u8> = v.iter().map(|c| c.number()).collect();
        ctx.check(CanonicalCombiningClass::default().number() == 0, || "CCC:default".into(), || "the default combining class is not 0".into());
        eq_laws(ctx, "Canonical_Combining_Class", &v, &k, &mut all(v.len()));
        hash_laws(ctx, "Canonical_Combining_Class", &v, &k);
        ord_laws(ctx, "Canonical_Combining_Class", &v, &|i, j| k[i].cmp(&k[j]), &mut all(v.len()));
        let mut seen = [false; 256];
        for (c, n) in v.iter().zip(&k) {
            if !std::mem::replace(&mut seen[*n as usize], true) {
                ctx.distinct(fnv(format!("ccc {}", n).as_bytes()));
                ctx.check(c.to_string() == n.to_string(), || format!("CCC:text:{}", n), || format!("combining class {} displays as {}", n, c));
                display(ctx, "Canonical_Combining_Class", &n.to_string(), c, 1, &mut o);
                debug(ctx, "Canonical_Combining_Class", &n.to_string(), c, &mut o);
                let (r, q) = (c.is_reordered(), c.is_not_reordered());
                ctx.check(r != q && q == (*n == 0), || format!("CCC:reordered:{}", n), || format!("combining class {}: is_reordered {}, is_not_reordered {}", n, r, q));
            }
        }
        let e = [0u8, 1, 2, 9, 10, 11, 99, 100, 255];
        let mut v: Vec<UnicodeVersion> = Vec::new();
        for a in e {
            for b in e {
                for c in e {
                    v.push(UnicodeVersion { major: a, minor: b, micro: c });
                }
            }
        }
        let k: Vec<(u8, u8, u8)> = v.iter().map(|x| (x.major, x.minor, x.micro)).collect();
        eq_laws(ctx, "UnicodeVersion", &v, &k, &mut all(v.len()));
        hash_laws(ctx, "UnicodeVersion", &v, &k);
        ord_laws(ctx, "UnicodeVersion", &v, &|i, j| k[i].cmp(&k[j]), &mut all(v.len()));
        for (x, t) in v.iter().zip(&k) {
            let s = format!("{}.{}.{}", t.0, t.1, t.2);
            ctx.distinct(fnv(s.as_bytes()));
            ctx.check(x.to_string() == s && UnicodeVersion::from(*t) == *x, || format!("UnicodeVersion:text:{}", s), || format!("version {} displays as {}", s, x));
            display(ctx, "UnicodeVersion", &s, x, 1, &mut o);
        }
        ctx.check(UnicodeVersion::default() == UnicodeVersion { major: 0, minor: 0, micro: 0 }, || "UnicodeVersion:default".into(), || "the default version is not 0.0.0".into());
        let mut ages: Vec<Age> = (0..0x110000).step_by(17).filter_map(char::from_u32).filter_map(Age::of).collect();
        ages.sort_by_key(|a| a.actual());
        ages.dedup_by_key(|a| a.actual());
        let twice: Vec<Age> = ages.iter().chain(ages.iter().rev()).cloned().collect();
        let k: Vec<UnicodeVersion> = twice.iter().map(|a| a.actual()).collect();
        ctx.obs("different ages", ages.len() as u64);
        eq_laws(ctx, "Age", &twice, &k, &mut all(twice.len()));
        hash_laws(ctx, "Age", &twice, &k);
        // an earlier version is a greater age
        ord_laws(ctx, "Age", &twice, &|i, j| k[j].cmp(&k[i]), &mut all(twice.len()));
        for a in &ages {
            debug(ctx, "Age", &a.actual().to_string(), a, &mut o);
        }
    }

    // ranges: equal when they have the same members
    {
        let e = ['\0', '\u{1}', 'a', 'b', '\u{D7FE}', '\u{D7FF}', '\u{E000}', '\u{E001}', '\u{10FFFE}', '\u{10FFFF}'];
        let mut v: Vec<CharRange> = vec![CharRange::all(), CharRange::assigned_normal_planes()];
        for a in e {
            for b in e {
                v.push(CharRange::closed(a, b));
                v.push(CharRange::open_right(a, b));
                v.push(CharRange::open_left(a, b));
                v.push(CharRange::open(a, b));
            }
        }
        let k: Vec<Option<(char, char)>> = v.iter().map(|r| if r.is_empty() { None } else { Some((r.iter().next().unwrap(), r.iter().next_back().unwrap())) }).collect();
        eq_laws(ctx, "CharRange", &v, &k, &mut all(v.len()));
        for (r, k) in v.iter().zip(&k) {
            ctx.distinct(fnv(format!("range {:?}", k).as_bytes()));
            let c = *r;
            ctx.check(c == *r && c.low == r.low && c.high == r.high, || format!("CharRange:copy:{:?}", k), || format!("a copy of {:?} is {:?}", r, c));
            debug(ctx, "CharRange", "range", r, &mut o);
        }
        let mut g = Rng::new(ctx.seed, 372, 0);
        for _ in 0..ctx.n(300, 3000) {
            let (a, n) = (any_char(&mut g), g.range(0, 40) as u32);
            let b = char::from_u32(a as u32 + n).unwrap_or('\u{10FFFF}');
            let r = CharRange::closed(a, b);
            clones(ctx, "CharIter", &format!("{:?}..={:?}", a, b), &|| r.iter(), &mut g, &mut o);
        }
        for (a, b) in [('\u{D7F0}', '\u{E010}'), ('\0', '\u{20}'), ('\u{10FFF0}', '\u{10FFFF}'), ('b', 'a'), ('\u{10FFFF}', '\u{10FFFF}'), ('\0', '\0')] {
            let r = CharRange::closed(a, b);
            clones(ctx, "CharIter", &format!("{:?}..={:?}", a, b), &|| r.iter(), &mut g, &mut o);
            clones(ctx, "CharIter reversed", &format!("{:?}..={:?}", a, b), &|| r.iter().rev(), &mut g, &mut o);
        }
    }

    // names: equality, hash and display of every name; the order is C06's
    let tot = Mutex::new(o);
    {
        let names: Vec<(char, Name, String)> = (0..0x110000).filter_map(char::from_u32).filter_map(|c| Name::of(c).map(|n| (c, n, n.to_string()))).collect();
        let names = &names;
        ctx.obs("names", names.len() as u64);
        let parts = 64;
        let every = if ctx.thorough() { 1 } else { 3 };
        par(parts, |t| {
            let mut o = Obs::default();
            let (a, b) = (names.len() * t as usize / parts as usize, names.len() * (t as usize + 1) / parts as usize);
            let sl = &names[a..b];
            for (k, (c, n, _)) in sl.iter().enumerate() {
                if ctx.too_many() {
                    return;
                }
                if k % every == (t as usize + ctx.seed as usize) % every {
                    display(ctx, "Name", &format!("U+{:04X}", *c as u32), n, 1, &mut o);
                    debug(ctx, "Name", &format!("U+{:04X}", *c as u32), n, &mut o);
                }
            }
            let v: Vec<Name> = sl.iter().map(|x| x.1).collect();
            let k: Vec<&str> = sl.iter().map(|x| &x.2[..]).collect();
            hash_laws(ctx, "Name", &v, &k);
            eq_laws(ctx, "Name", &v, &k, &mut some(v.len(), ctx.n(20_000, 400_000), Rng::new(ctx.seed, 373, t)));
            ctx.distinct_n((v.len() / every) as u64);
            // the same name obtained again is equal and hashes alike
            for (c, n, _) in sl.iter().step_by(5) {
                let m = Name::of(*c).unwrap();
                if m != *n || hash(&m) != hash(n) || m.cmp(n) != Ordering::Equal {
                    ctx.fail(format!("Name:again:{:04X}", *c as u32), format!("the name of U+{:04X}, asked for twice, differs", *c as u32));
                }
            }
            tot.lock().unwrap().merge(&o);
        });
        // notation
        par(parts, |t| {
            let mut o = Obs::default();
            let mut c = t as u32 * 17;
            while c < 0x110000 {
                if let Some(ch) = char::from_u32(c) {
                    let case = format!("U+{:04X}", c);
                    let n = unicode_notation(ch);
                    display(ctx, "notation", &case, &n, 1, &mut o);
                    debug(ctx, "notation", &case, &n, &mut o);
                }
                c += 64 * 17;
            }
            tot.lock().unwrap().merge(&o);
        });
    }

    // mappings, idna errors, incompleteness
    {
        use unic_idna_mapping::Mapping;
        let mut v: Vec<Mapping> = Vec::new();
        let mut k: Vec<String> = Vec::new();
        for c in (0..0x110000).step_by(if ctx.thorough() { 7 } else { 61 }).chain(0..0x600).filter_map(char::from_u32) {
            let m = Mapping::of(c);
            k.push(match m {
                Mapping::Valid => "V".into(),
                Mapping::Ignored => "I".into(),
                Mapping::Mapped(s) => format!("M{}", s),
                Mapping::Deviation(s) => format!("D{}", s),
                Mapping::Disallowed => "X".into(),
                Mapping::DisallowedStd3Valid => "SV".into(),
                Mapping::DisallowedStd3Mapped(s) => format!("SM{}", s),
            });
            v.push(m);
        }
        let n = v.len();
        eq_laws(ctx, "Mapping", &v, &k, &mut some(n, ctx.n(400_000, 4_000_000), Rng::new(ctx.seed, 374, 0)));
        let g: Vec<GraphemeIncomplete> = vec![
            GraphemeIncomplete::PreContext(0),
            GraphemeIncomplete::PreContext(1),
            GraphemeIncomplete::PreContext(usize::MAX),
            GraphemeIncomplete::PreContext(1),
            GraphemeIncomplete::PrevChunk,
            GraphemeIncomplete::NextChunk,
            GraphemeIncomplete::InvalidOffset,
        ];
        eq_laws(ctx, "GraphemeIncomplete", &g, &[0, 1, 2, 1, 4, 5, 6], &mut all(7));
    }

    // texts: bidi results, clones of iterators and cursors, displays of normalization iterators
    let n = ctx.n(50_000, 600_000);
    let parts = 64;
    par(parts, |t| {
        let mut g = Rng::new(ctx.seed, 375, t);
        let mut o = Obs::default();
        let mut prev: Vec<String> = vec![String::new(), "a".into()];
        for i in 0..n / parts {
            if ctx.too_many() {
                break;
            }
            let s = crate::total::hostile(&mut g, 24);
            ctx.distinct(fnv(s.as_bytes()));
            ctx.eval(1);
            clones(ctx, "nfd", &s, &|| s.nfd(), &mut g, &mut o);
            clones(ctx, "nfkc", &s, &|| s.nfkc(), &mut g, &mut o);
            clones(ctx, "Graphemes", &s, &|| Graphemes::new(&s), &mut g, &mut o);
            clones(ctx, "GraphemeIndices from the back", &s, &|| GraphemeIndices::new_legacy(&s).rev(), &mut g, &mut o);
            clones(ctx, "WordBounds", &s, &|| WordBounds::new(&s), &mut g, &mut o);
            clones(ctx, "WordBoundIndices from the back", &s, &|| WordBoundIndices::new(&s).rev(), &mut g, &mut o);
            cursors(ctx, &s, &mut g, &mut o);
            if i % 4 == 0 {
                let every = 1 + s.len() / 24;
                display(ctx, "nfc", &s, &s.nfc(), every, &mut o);
                display(ctx, "nfd", &s, &s.nfd(), every, &mut o);
                display(ctx, "nfkc", &s, &s.nfkc(), every, &mut o);
                display(ctx, "nfkd", &s, &s.nfkd(), every, &mut o);
                let mut it = s.nfc();
                it.next();
                debug(ctx, "nfc", &s, &it, &mut o);
                display(ctx, "nfc after a step", &s, &it, every, &mut o);
            }
            // bidi: equal exactly when text, classes, levels and paragraphs are
            let lv = |x: usize| [None, Some(Level::ltr()), Some(Level::rtl())][x % 3];
            ctx.call("BidiInfo", &s, || {
                let copy = s.clone();
                let other = if g.chance(1, 3) { g.pick(&prev).clone() } else { s.chars().rev().collect() };
                let v = vec![
                    BidiInfo::new(&s, lv(i as usize)),
                    BidiInfo::new(&copy, lv(i as usize)),
                    BidiInfo::new(&s, lv(i as usize + 1)),
                    BidiInfo::new(&s, lv(i as usize + 2)),
                    BidiInfo::new(&other, lv(i as usize)),
                ];
                let k: Vec<BidiKey> = v.iter().map(bidi_key).collect();
                eq_laws(ctx, "BidiInfo", &v, &k, &mut all(v.len()));
                for a in 0..v.len() {
                    for b in 0..a {
                        if k[a] == k[b] && hash(&v[a]) != hash(&v[b]) {
                            ctx.fail(format!("BidiInfo:hash:{}", cps(&s)), format!("equal bidi results over {} have different hashes", cps(&s)));
                        }
                    }
                }
                let ps: Vec<ParagraphInfo> = v.iter().flat_map(|b| b.paragraphs.iter().cloned()).collect();
                let pk: Vec<(usize, usize, u8)> = ps.iter().map(|p| (p.range.start, p.range.end, p.level.number())).collect();
                if !ps.is_empty() {
                    eq_laws(ctx, "ParagraphInfo", &ps, &pk, &mut all(ps.len().min(12)));
                    hash_laws(ctx, "ParagraphInfo", &ps, &pk);
                }
                if i % 4 == 1 {
                    display(ctx, "BidiInfo", &s, &v[0], 1, &mut o);
                    debug(ctx, "BidiInfo", &s, &v[2], &mut o);
                    let t = v[0].to_string();
                    let (a, b) = (v[0].paragraphs.len().to_string(), v[0].levels.iter().max().map(|l| l.number()).unwrap_or(0).to_string());
                    let nums: Vec<&str> = t.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).collect();
                    if nums != [&a[..], &b[..]] {
                        ctx.fail(format!("BidiInfo:text:{}", cps(&s)), format!("bidi result over {} with {} paragraphs and maximum level {} displays as {:?}", cps(&s), a, b, t));
                    }
                }
            });
            if g.chance(1, 8) {
                let at = g.below(prev.len());
                prev[at] = s;
            }
        }
        tot.lock().unwrap().merge(&o);
    });
    // idna errors: the same call gives equal errors
    par(parts, |t| {
        let mut g = Rng::new(ctx.seed, 376, t);
        let mut o = Obs::default();
        for _ in 0..ctx.n(200, 4000) {
            let s = crate::total::hostile(&mut g, 12);
            let f = || unic_idna::Flags { use_std3_ascii_rules: true, transitional_processing: false, verify_dns_length: true };
            ctx.call("idna", &s, || {
                let (a, b) = (unic_idna::to_ascii(&s, f()), unic_idna::to_ascii(&s, f()));
                let (c, d) = (unic_idna::to_unicode(&s, f()), unic_idna::to_unicode(&s, f()));
                o.add("idna results compared", 2);
                #[allow(clippy::nonminimal_bool)]
                if a != b || !(a == b) || c != d {
                    ctx.fail(format!("idna again:{}", cps(&s)), format!("converting {} twice gives different results: {:?} and {:?}; {:?} and {:?}", cps(&s), a, b, c, d));
                }
                if let (Err(x), Err(y)) = (&a, &c.1) {
                    // errors of different kinds or numbers are different
                    let same = format!("{:?}", x) == format!("{:?}", y);
                    o.add("error lists compared", 1);
                    if (x == y) != same {
                        ctx.fail(format!("idna errors:{}", cps(&s)), format!("error lists {:?} and {:?}: == {}", x, y, x == y));
                    }
                }
            });
        }
        tot.lock().unwrap().merge(&o);
    });
    let o = tot.into_inner().unwrap();
    ctx.eval(o.get("writers tried") + o.get("clones followed"));
    ctx.obs_all(&o);
    ctx.sample(|| {
        let mut w = Full { cap: 20, got: String::new(), failed: false, by_piece: true, calls: 0 };
        let r = write!(w, "{}", Name::of('\u{AC01}').unwrap());
        format!("U+AC01 into a writer of 20 bytes: {:?} after {:?} in {} calls", r, w.got, w.calls)
    });
}
