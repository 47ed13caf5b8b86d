//! Monitors of the character-data properties: every scalar value, every access path, against the
//! frozen reference data. C01-C09, C28, C34.
use crate::ctx::{js, par, Ctx, Obs};
use crate::refdata as r;
use crate::rng::Rng;
use std::collections::HashMap;
use std::sync::Mutex;
use unic_char_property::{BinaryCharProperty, CharProperty, EnumeratedCharProperty, PartialCharProperty, TotalCharProperty};

/// Per-thread sink of one sweep.
pub struct Sink<'a> {
    pub ctx: &'a Ctx,
    pub evals: u64,
    pub nontrivial: u64,
    pub obs: Obs,
    /// the second time round, in another order
    pub again: bool,
}
impl<'a> Sink<'a> {
    /// One answer of the code under test compared with the expected one.
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, c: char, got: T, want: T) {
        self.evals += 1;
        if got != want {
            self.ctx.fail(
                format!("{}:{:04X}:{:?}", what, c as u32, got),
                format!("{} of U+{:04X}: expected {:?}, got {:?}", what, c as u32, want, got),
            );
        }
    }
    /// All of a list the first time; the second time only some of it.
    pub fn part<'b>(&self, c: char, v: &'b [char]) -> impl Iterator<Item = &'b char> {
        let n = if self.again { 16 } else { 1 };
        v.iter().skip(c as usize % n).step_by(n)
    }
    pub fn seen(&mut self, k: &str) {
        self.obs.add(k, 1);
    }
}
/// Asks about every scalar value twice: in ascending order, and again in an order in which every lookup
/// follows one of another place (descending, with a jump to another block now and then), so that an answer
/// which depends on what was asked before shows.
pub fn sweep(ctx: &Ctx, what: &str, f: impl Fn(char, &mut Sink) + Sync) {
    let total = Mutex::new(Obs::default());
    par(0x110, |blk| {
        let mut s = Sink { ctx, evals: 0, nontrivial: 0, obs: Obs::default(), again: false };
        let mut again = Sink { ctx, evals: 0, nontrivial: 0, obs: Obs::default(), again: true };
        let last = std::cell::Cell::new('\0');
        let mut jumps = 0;
        let mut rng = Rng::new(ctx.seed, 0x5EE9, blk as u64);
        let r = ctx.guard(&format!("{} block U+{:04X}..", what, blk * 0x1000), || {
            for i in 0..0x1000u32 {
                if let Some(c) = char::from_u32(blk as u32 * 0x1000 + i) {
                    last.set(c);
                    f(c, &mut s);
                }
            }
            for i in (0..0x1000u32).rev() {
                let mut ask = |cp: u32| {
                    if let Some(c) = char::from_u32(cp) {
                        last.set(c);
                        f(c, &mut again);
                    }
                };
                ask(blk as u32 * 0x1000 + i);
                if rng.chance(1, 8) {
                    // mostly where the data is
                    let n = *rng.pick(&[0x3100, 0x20000, 0x110000]);
                    ask(rng.below(n) as u32);

                    jumps += 1;
                }
            }
        });
        if let crate::ctx::Outcome::Panic(m) = r {
            if !m.contains("at src/") {
                ctx.fail(format!("panic:{}:{:04X}", what, last.get() as u32), format!("{} panicked for U+{:04X}: {}", what, last.get() as u32, m));
            }
        }
        ctx.eval(s.evals + again.evals);
        ctx.distinct_n(s.nontrivial);
        let mut t = total.lock().unwrap();
        for (k, v) in &s.obs.0 {
            t.add(k, *v);
        }
        t.add("lookups after a jump", jumps);
    });
    ctx.obs_all(&total.into_inner().unwrap());
}

fn cat_groups(v: &str) -> [bool; 8] {
    let f = v.as_bytes()[0];
    [f == b'L', matches!(v, "Lu" | "Ll" | "Lt"), f == b'M', f == b'N', f == b'P', f == b'S', f == b'Z', f == b'C']
}

pub fn c01(ctx: &Ctx) {
    use unic_ucd_category::GeneralCategory as GC;
    ctx.rule("every one of the 1,112,064 scalar values through every access path (inherent, trait, umbrella crate, grouping predicates, control/numeric/mark queries of both feature configurations); non-trivial: assigned characters (category other than Cn)");
    ctx.exhaustive();
    ctx.assume("reference: /verif/ref/gc.txt (Unicode 10.0.0, derived independently of the repository)");
    let t = r::gc();
    sweep(ctx, "General_Category", |c, s| {
        let want = t.get(c);
        let g = GC::of(c);
        s.eq("gc", c, crate::vals::gc(g), want);
        s.eq("gc.total", c, <GC as TotalCharProperty>::of(c), g);
        s.eq("gc.partial", c, <GC as PartialCharProperty>::of(c), Some(g));
        s.eq("gc.umbrella", c, crate::vals::gc(unic::ucd::GeneralCategory::of(c)), want);
        let w = cat_groups(want);
        let got = [g.is_letter(), g.is_cased_letter(), g.is_mark(), g.is_number(), g.is_punctuation(), g.is_symbol(), g.is_separator(), g.is_other()];
        for (i, n) in ["letter", "cased_letter", "mark", "number", "punctuation", "symbol", "separator", "other"].iter().enumerate() {
            s.eq(n, c, got[i], w[i]);
        }
        s.eq("control", c, unic_ucd_common::is_control(c), want == "Cc");
        s.eq("control.of", c, unic_ucd_common::control::Control::of(c).as_bool(), want == "Cc");
        s.eq("control.of.total", c, <unic_ucd_common::control::Control as TotalCharProperty>::of(c).as_bool(), want == "Cc");
        s.eq("numeric", c, unic_ucd_common::is_numeric(c), want.starts_with('N'));
        s.eq("numeric.of", c, unic_ucd_common::numeric::Numeric::of(c).as_bool(), want.starts_with('N'));
        s.eq("combining_mark", c, unic_ucd_normal::is_combining_mark(c), want.starts_with('M'));
        s.eq("combining_mark.umbrella", c, unic::ucd::normal::is_combining_mark(c), want.starts_with('M'));
        if want != "Cn" {
            s.nontrivial += 1;
        }
        s.seen(want);
    });
    // the configuration of unic-ucd-normal without its category feature, built separately
    offcfg(ctx);
    ctx.sample(|| "U+0041 -> Lu; U+10FFFF -> Cn; U+E000 -> Co".into());
}
/// `is_combining_mark` without the category feature: answered by the separate `offcfg` binary, which
/// prints the characters as hexadecimal ranges.
fn offcfg(ctx: &Ctx) {
    let exe = std::env::var("VERIF_OFFCFG").unwrap_or_default();
    let out = match std::process::Command::new(&exe).output() {
        Ok(o) => o,
        Err(e) => {
            eprintln!("HARNESS-ERROR offcfg binary {:?}: {}", exe, e);
            ctx.harness_fail();
            return;
        }
    };
    if !out.status.success() {
        ctx.fail("offcfg:panic", format!("is_combining_mark without the category feature did not finish: {}", String::from_utf8_lossy(&out.stderr)));
        return;
    }
    let mut is = vec![false; 0x110000];
    let txt = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut done = false;
    for l in txt.lines() {
        if l == "end" {
            done = true;
            continue;
        }
        let (a, b) = l.split_once(' ').expect("offcfg line");
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        for x in &mut is[a..=b] {
            *x = true;
        }
    }
    if !done {
        ctx.harness_fail();
        return;
    }
    let t = r::gc();
    sweep(ctx, "is_combining_mark(no category feature)", |c, s| {
        s.eq("combining_mark.offcfg", c, is[c as usize], t.get(c).starts_with('M'));
        if is[c as usize] {
            s.seen("mark in the configuration without unic-ucd-category");
        }
    });
}

pub fn bc_ref(c: char) -> &'static str {
    r::bc().get(c)
}
pub fn c02(ctx: &Ctx) {
    use unic_ucd_bidi::{BidiClass as B, BidiClassCategory as Cat, CharBidiClass, StrBidiClass};
    ctx.rule("every scalar value (class, mirrored, control, char traits, category) plus string queries on generated strings; non-trivial: characters whose class is not L, or mirrored; distinct strings");
    ctx.assume("reference: /verif/ref/bc.txt, Bidi_M.txt, Bidi_C.txt (Unicode 10.0.0)");
    let cat_of = |v: &str| match v {
        "L" | "R" | "AL" => Cat::Strong,
        "EN" | "ES" | "ET" | "AN" | "CS" | "NSM" | "BN" => Cat::Weak,
        "B" | "S" | "WS" | "ON" => Cat::Neutral,
        _ => Cat::ExplicitFormatting,
    };
    let ltr = |v: &str| matches!(v, "L" | "LRE" | "LRO" | "LRI");
    let rtl = |v: &str| matches!(v, "R" | "AL" | "RLE" | "RLO" | "RLI");
    sweep(ctx, "Bidi", |c, s| {
        let want = bc_ref(c);
        let b = B::of(c);
        s.eq("bc", c, crate::vals::bc(b), want);
        // the rest is judged against the class actually reported, so that one wrong class is one finding
        let v = crate::vals::bc(b);
        s.eq("bc.total", c, <B as TotalCharProperty>::of(c), b);
        s.eq("bc.char", c, c.bidi_class(), b);
        s.eq("bc.umbrella", c, unic::ucd::BidiClass::of(c), b);
        s.eq("bc.category", c, b.category(), cat_of(v));
        s.eq("bc.is_ltr", c, b.is_ltr(), ltr(v));
        s.eq("bc.is_rtl", c, b.is_rtl(), rtl(v));
        s.eq("char.is_ltr", c, c.is_ltr(), ltr(v));
        s.eq("char.is_rtl", c, c.is_rtl(), rtl(v));
        let mut buf = [0u8; 4];
        let st: &str = c.encode_utf8(&mut buf);
        s.eq("str.has_ltr", c, st.has_ltr(), ltr(v));
        s.eq("str.has_rtl", c, st.has_rtl(), rtl(v));
        s.eq("str.has_explicit", c, st.has_bidi_explicit(), cat_of(v) == Cat::ExplicitFormatting);
        bin(s, "Bidi_M", c, r::bidi_m().is(c), unic_ucd_bidi::is_bidi_mirrored(c), unic_ucd_bidi::BidiMirrored::of(c));
        bin(s, "Bidi_C", c, r::bidi_c().is(c), unic_ucd_bidi::is_bidi_control(c), unic_ucd_bidi::BidiControl::of(c));
        if want != "L" || r::bidi_m().is(c) {
            s.nontrivial += 1;
        }
        s.seen(want);
    });
    // strings: at most a few non-L characters at every position
    let by = r::bc().members();
    let mut classes: Vec<&&str> = by.keys().collect();
    classes.sort();
    let n = ctx.n(40_000, 400_000);
    let w = 64;
    par(w, |t| {
        let mut rng = Rng::new(ctx.seed, 0x202, t);
        for i in 0..n / w {
            let len = rng.below(9);
            let bg = *rng.pick(&classes);
            let mut st = String::new();
            if i % 40 == 0 {
                // the deciding characters after a long stretch of one other
                let m = crate::seg::edge(&mut rng, if i % 160 == 0 { 70_000 } else { 3000 });
                let c = *rng.pick(&by[bg]);
                st.extend(std::iter::repeat(c).take(m));
                ctx.obs("strings with a long stretch", 1);
            }
            for _ in 0..len {
                let k = if rng.chance(2, 3) { bg } else { *rng.pick(&classes) };
                st.push(*rng.pick(&by[*k]));
            }
            let cl: Vec<&str> = st.chars().map(|c| crate::vals::bc(B::of(c))).collect();
            if let Some((a, b, c)) = ctx.call("string direction query", &st, || (st.has_ltr(), st.has_rtl(), st.has_bidi_explicit())) {
                let want = (cl.iter().any(|v| ltr(v)), cl.iter().any(|v| rtl(v)), cl.iter().any(|v| cat_of(v) == Cat::ExplicitFormatting));
                for (name, g, w) in [("has_ltr", a, want.0), ("has_rtl", b, want.1), ("has_bidi_explicit", c, want.2)] {
                    ctx.check(g == w, || format!("str.{}", name), || format!("{} of {} characters ending in {} (classes {:?}): expected {}, got {}", name, cl.len(), js(&st.chars().rev().take(12).collect::<Vec<_>>().into_iter().rev().collect::<String>()), &cl[cl.len().saturating_sub(12)..], w, g));
                }
            }
            ctx.eval(3);
            ctx.distinct(crate::ctx::fnv(st.as_bytes()));
        }
    });
}

fn bin<P>(s: &mut Sink, what: &str, c: char, want: bool, f: bool, p: P)
where
    P: BinaryCharProperty + TotalCharProperty + Into<bool> + Copy,
{
    s.eq(what, c, f, want);
    if p.as_bool() != want
        || <P as TotalCharProperty>::of(c).as_bool() != want
        || <P as PartialCharProperty>::of(c).map(|x| x.as_bool()) != Some(want)
        || Into::<bool>::into(p) != want
    {
        s.ctx.fail(format!("{}.value:{:04X}", what, c as u32), format!("{} property value of U+{:04X}: expected {}, got {:?}", what, c as u32, want, p));
    }
    s.evals += 4;
    if want {
        s.obs.add(what, 1);
    }
}

pub fn c03(ctx: &Ctx) {
    use unic_ucd_case as k;
    use unic_ucd_common as m;
    ctx.rule("every scalar value, 12 binary properties, each through the free function, the value type, the traits and the umbrella crate; non-trivial: characters with at least one property");
    ctx.exhaustive();
    ctx.assume("reference: /verif/ref (Unicode 10.0.0); alphanumeric = Alphabetic or General_Category N*");
    sweep(ctx, "case/common", |c, s| {
        let before = s.obs.0.values().sum::<u64>();
        bin(s, "Lowercase", c, r::lower().is(c), k::is_lowercase(c), k::Lowercase::of(c));
        bin(s, "Uppercase", c, r::upper().is(c), k::is_uppercase(c), k::Uppercase::of(c));
        bin(s, "Cased", c, r::cased().is(c), k::is_cased(c), k::Cased::of(c));
        bin(s, "Case_Ignorable", c, r::ci().is(c), k::is_case_ignorable(c), k::CaseIgnorable::of(c));
        bin(s, "CWL", c, r::cwl().is(c), k::changes_when_lowercased(c), k::ChangesWhenLowercased::of(c));
        bin(s, "CWU", c, r::cwu().is(c), k::changes_when_uppercased(c), k::ChangesWhenUppercased::of(c));
        bin(s, "CWT", c, r::cwt().is(c), k::changes_when_titlecased(c), k::ChangesWhenTitlecased::of(c));
        bin(s, "CWCF", c, r::cwcf().is(c), k::changes_when_casefolded(c), k::ChangesWhenCasefolded::of(c));
        bin(s, "CWCM", c, r::cwcm().is(c), k::changes_when_casemapped(c), k::ChangesWhenCasemapped::of(c));
        bin(s, "Alphabetic", c, r::alpha().is(c), m::is_alphabetic(c), m::Alphabetic::of(c));
        bin(s, "White_Space", c, r::wspace().is(c), m::is_white_space(c), m::WhiteSpace::of(c));
        let an = r::alpha().is(c) || r::gc().get(c).starts_with('N');
        bin(s, "Alphanumeric", c, an, m::is_alphanumeric(c), m::alphanumeric::Alphanumeric::of(c));
        s.eq("umbrella.alphabetic", c, unic::ucd::is_alphabetic(c), r::alpha().is(c));
        s.eq("umbrella.white_space", c, unic::ucd::is_white_space(c), r::wspace().is(c));
        s.eq("umbrella.lowercase", c, unic::ucd::is_lowercase(c), r::lower().is(c));
        s.eq("umbrella.uppercase", c, unic::ucd::is_uppercase(c), r::upper().is(c));
        s.eq("umbrella.cased", c, unic::ucd::is_cased(c), r::cased().is(c));
        s.eq("umbrella.case_ignorable", c, unic::ucd::is_case_ignorable(c), r::ci().is(c));
        s.eq("umbrella.cwl", c, unic::ucd::changes_when_lowercased(c), r::cwl().is(c));
        s.eq("umbrella.cwu", c, unic::ucd::changes_when_uppercased(c), r::cwu().is(c));
        s.eq("umbrella.cwt", c, unic::ucd::changes_when_titlecased(c), r::cwt().is(c));
        s.eq("umbrella.cwcf", c, unic::ucd::changes_when_casefolded(c), r::cwcf().is(c));
        s.eq("umbrella.cwcm", c, unic::ucd::changes_when_casemapped(c), r::cwcm().is(c));
        if s.obs.0.values().sum::<u64>() != before {
            s.nontrivial += 1;
        }
    });
    ctx.sample(|| "U+0345 -> Lowercase, Cased, Case_Ignorable, Alphabetic; U+01C5 -> Cased, CWL, CWU, CWCF".into());
}

pub fn c04(ctx: &Ctx) {
    use std::cmp::Ordering::*;
    use unic_ucd_age::{Age, CharAge, UnicodeVersion};
    use unic_ucd_block::{Block, BlockIter};
    ctx.rule("every scalar value (age and block through every access path), the complete block listing, all ordered triples of the distinct ages and of sampled versions; non-trivial: assigned age or a block");
    ctx.assume("reference: /verif/ref/age.txt, blk.txt (Unicode 10.0.0)");
    let (ta, tb) = (r::age(), r::blk());
    // block extents in the reference
    let mut extent: HashMap<&str, (u32, u32)> = HashMap::new();
    for i in 0..0x110000u32 {
        let v = tb.cp(i);
        if v != "No_Block" {
            let e = extent.entry(v).or_insert((i, i));
            e.1 = i;
        }
    }
    sweep(ctx, "age/block", |c, s| {
        let want = ta.get(c);
        let a = Age::of(c);
        s.eq("age", c, a.map_or("Unassigned".to_string(), |a| a.actual().to_string()), want.to_string());
        s.eq("age.char", c, c.age(), a);
        s.eq("age.partial", c, <Age as PartialCharProperty>::of(c), a);
        s.eq("age.custom", c, a.map(|a| unic_char_property::CustomCharProperty::actual(&a)), a.map(|a| a.actual()));
        s.eq("age.umbrella", c, unic::ucd::Age::of(c), a);
        let b = Block::of(c);
        let wb = tb.get(c);
        s.eq("block", c, b.map_or("No_Block", |b| b.name), wb);
        s.eq("block.partial", c, <Block as PartialCharProperty>::of(c).map(|b| (b.name, b.range)), b.map(|b| (b.name, b.range)));
        if let (Some(b), Some(e)) = (b, extent.get(wb)) {
            s.eq("block.range", c, (b.range.low as u32, b.range.high as u32), block_scalar_extent(*e));
        }
        if want != "Unassigned" || wb != "No_Block" {
            s.nontrivial += 1;
        }
        s.seen(want);
    });
    // the listing
    if let Some(list) = ctx.call("BlockIter", "whole listing", || {
        let mut it = BlockIter::new();
        let mut v = vec![];
        for _ in 0..2000 {
            match it.next() {
                Some(b) => v.push(b),
                None => break,
            }
        }
        v.push_none_check(&mut it)
    }) {
        let (list, again) = list;
        ctx.check(!again, || "blocklist.fused".into(), || "BlockIter yields again after it ended".into());
        let mut want: Vec<(u32, u32, &str)> = extent
            .iter()
            .filter_map(|(n, e)| {
                if e.0 >= 0xD800 && e.1 <= 0xDFFF {
                    None // surrogate blocks hold no scalar value
                } else {
                    let e = block_scalar_extent(*e);
                    Some((e.0, e.1, *n))
                }
            })
            .collect();
        want.sort();
        let got: Vec<(u32, u32, &str)> = list.iter().map(|b| (b.range.low as u32, b.range.high as u32, b.name)).collect();
        ctx.eval(got.len() as u64);
        ctx.obs("blocks listed", got.len() as u64);
        for w in got.windows(2) {
            ctx.check(w[0].1 < w[1].0, || format!("blocklist.order:{:04X}", w[1].0), || format!("block listing not increasing: {:?} then {:?}", w[0], w[1]));
        }
        for x in &want {
            ctx.check(got.iter().filter(|g| *g == x).count() == 1, || format!("blocklist.missing:{}", x.2), || format!("block {:?} not listed exactly once", x));
        }
        for g in &got {
            ctx.check(want.contains(g), || format!("blocklist.extra:{}", g.2), || format!("listed block {:?} is not a block of Unicode 10.0.0", g));
        }
        let d: Vec<_> = BlockIter::default().map(|b| b.name).collect();
        ctx.check(d.len() == got.len(), || "blocklist.default".into(), || "BlockIter::default differs from new".into());
    }
    // orders
    let mut ages: Vec<Age> = vec![];
    for c in r::chars() {
        if let Some(a) = Age::of(c) {
            if !ages.contains(&a) {
                ages.push(a);
            }
        }
    }
    ctx.obs("distinct ages", ages.len() as u64);
    let mut n = 0u64;
    for &a in &ages {
        for &b in &ages {
            let (o, p) = (a.cmp(&b), a.partial_cmp(&b));
            let rev = b.cmp(&a);
            let id = || format!("{} vs {}", a.actual(), b.actual());
            ctx.check(p == Some(o), || "age.ord-partial".into(), || format!("Age: cmp says {:?} but partial_cmp says {:?} for {}", o, p, id()));
            ctx.check(rev == o.reverse(), || "age.antisym".into(), || format!("Age: cmp not antisymmetric for {}", id()));
            ctx.check((o == Equal) == (a == b), || "age.eq".into(), || format!("Age: cmp {:?} but == {} for {}", o, a == b, id()));
            let ops = [a < b, a <= b, a > b, a >= b];
            let want = [o == Less, o != Greater, o == Greater, o != Less];
            ctx.check(ops == want, || "age.ops".into(), || format!("Age: operators <,<=,>,>= give {:?} but cmp says {:?} for {}", ops, o, id()));
            ctx.check(o == b.actual().cmp(&a.actual()), || "age.direction".into(), || format!("Age: earlier version must be the greater age; cmp {:?} for {}", o, id()));
            ctx.check(a.max(b) == if a >= b { a } else { b } || a == b, || "age.max".into(), || format!("Age: max disagrees with >= for {}", id()));
            for &c in &ages {
                if a <= b && b <= c {
                    ctx.check(a <= c, || "age.trans".into(), || format!("Age: order not transitive for {} vs {}", id(), c.actual()));
                }
                n += 1;
            }
        }
    }
    let mut vs: Vec<UnicodeVersion> = ages.iter().map(|a| a.actual()).collect();
    let mut rng = Rng::new(ctx.seed, 0x404, 0);
    for _ in 0..40 {
        let e = [0u8, 1, 2, 9, 10, 11, 127, 128, 255];
        vs.push(UnicodeVersion { major: *rng.pick(&e), minor: *rng.pick(&e), micro: *rng.pick(&e) });
    }
    for a in &vs {
        let t = (a.major, a.minor, a.micro);
        ctx.check(UnicodeVersion::from(t) == *a, || "version.from".into(), || format!("version from {:?}", t));
        ctx.check(a.to_string() == format!("{}.{}.{}", t.0, t.1, t.2), || "version.display".into(), || format!("version {:?} displays as {}", t, a));
        for b in &vs {
            let u = (b.major, b.minor, b.micro);
            ctx.check(a.cmp(b) == t.cmp(&u) && a.partial_cmp(b) == Some(t.cmp(&u)) && (a == b) == (t == u) && (a < b) == (t < u), || "version.ord".into(), || format!("versions {:?} and {:?} compare wrongly", t, u));
            n += 1;
        }
    }
    ctx.eval(n);
    ctx.sample(|| format!("ages seen: {:?}", ages.iter().map(|a| a.actual().to_string()).collect::<Vec<_>>()));
}
trait NoneCheck<I> {
    fn push_none_check(self, it: &mut I) -> (Vec<unic_ucd_block::Block>, bool);
}
impl<I: Iterator<Item = unic_ucd_block::Block>> NoneCheck<I> for Vec<unic_ucd_block::Block> {
    fn push_none_check(self, it: &mut I) -> (Vec<unic_ucd_block::Block>, bool) {
        let again = it.next().is_some() || it.next().is_some();
        (self, again)
    }
}
fn block_scalar_extent(e: (u32, u32)) -> (u32, u32) {
    e
}

pub fn full_decomp(c: char, compat: bool, out: &mut Vec<char>) {
    let u = c as u32;
    if (0xAC00..0xAC00 + 11172).contains(&u) {
        let s = u - 0xAC00;
        out.push(char::from_u32(0x1100 + s / 588).unwrap());
        out.push(char::from_u32(0x1161 + s % 588 / 28).unwrap());
        if s % 28 != 0 {
            out.push(char::from_u32(0x11A7 + s % 28).unwrap());
        }
        return;
    }
    let m = r::dm().get(&c).or_else(|| if compat { r::dmk().get(&c) } else { None });
    match m {
        None => out.push(c),
        Some(v) => {
            for x in v {
                full_decomp(*x, compat, out)
            }
        }
    }
}
pub fn pair_comp(a: char, b: char) -> Option<char> {
    let (x, y) = (a as u32, b as u32);
    if (0x1100..0x1113).contains(&x) && (0x1161..0x1176).contains(&y) {
        return char::from_u32(0xAC00 + ((x - 0x1100) * 21 + y - 0x1161) * 28);
    }
    if (0xAC00..0xAC00 + 11172).contains(&x) && (x - 0xAC00) % 28 == 0 && (0x11A8..0x11C3).contains(&y) {
        return char::from_u32(x + y - 0x11A7);
    }
    r::comp().get(&(a, b)).copied()
}

pub fn c05(ctx: &Ctx) {
    use unic_char_property::NumericCharProperty;
    use unic_ucd_normal as n;
    ctx.rule("every scalar value (ccc, decomposition type, one-step and full decompositions) and pairs for composition: every character first with every possible second element and its neighbours, every possible first element and its neighbours with every character second; non-trivial: characters with ccc != 0 or a decomposition, pairs that compose");
    ctx.exhaustive();
    ctx.assume("reference: /verif/ref/ccc.txt, dm.txt, dmk.txt, dt.txt, comp.txt (Unicode 10.0.0), Hangul by the arithmetic of chapter 3.12");
    sweep(ctx, "normalization data", |c, s| {
        let k = n::CanonicalCombiningClass::of(c);
        let want = r::ccc(c);
        s.eq("ccc", c, k.number(), want);
        s.eq("ccc.total", c, <n::CanonicalCombiningClass as TotalCharProperty>::of(c).number(), want);
        s.eq("ccc.numeric", c, NumericCharProperty::number(&k), want);
        s.eq("ccc.is_reordered", c, (k.is_reordered(), k.is_not_reordered()), (want != 0, want == 0));
        s.eq("ccc.display", c, k.to_string(), want.to_string());
        let dt = r::dt().get(c);
        s.eq("dt", c, n::DecompositionType::of(c).map_or("None", |d| d.long_name()), dt);
        s.eq("dt.partial", c, <n::DecompositionType as PartialCharProperty>::of(c), n::DecompositionType::of(c));
        s.eq("dm", c, n::canonical_decomposition(c), r::dm().get(&c).map(|v| &v[..]));
        s.eq("dmk", c, n::compatibility_decomposition(c), r::dmk().get(&c).map(|v| &v[..]));
        for compat in [false, true] {
            let (mut want, mut got) = (vec![], vec![]);
            full_decomp(c, compat, &mut want);
            if compat {
                n::decompose_compatible(c, |x| got.push(x));
            } else {
                n::decompose_canonical(c, |x| got.push(x));
            }
            if want != [c] {
                s.seen(if compat { "full compatibility decompositions" } else { "full canonical decompositions" });
            }
            s.eq(if compat { "nfkd1" } else { "nfd1" }, c, got, want);
        }
        if want != 0 {
            s.seen("ccc != 0");
        }
        if want != 0 || dt != "None" {
            s.nontrivial += 1;
        }
    });
    // named classes
    {
        use n::CanonicalCombiningClass as K;
        let named = [
            (K::NotReordered, 0u8), (K::Overlay, 1), (K::Nukta, 7), (K::KanaVoicing, 8), (K::Virama, 9), (K::AttatchedBelowLeft, 200), (K::AttachedBelow, 202),
            (K::AttachedBelowRight, 204), (K::AttachedLeft, 208), (K::AttachedRight, 210), (K::AttachedAboveLeft, 212), (K::AttatchedAbove, 214), (K::AttatchedAboveRight, 216),
            (K::BelowLeft, 218), (K::Below, 220), (K::BelowRight, 222), (K::Left, 224), (K::Right, 226), (K::AboveLeft, 228), (K::Above, 230), (K::AboveRight, 232),
            (K::DoubleBelow, 233), (K::DoubleAbove, 234), (K::IotaSubscript, 240),
        ];
        for (k, v) in named {
            ctx.check(k.number() == v, || format!("ccc.const:{}", v), || format!("named combining class {} has number {}", v, k.number()));
            for (j, w) in named {
                ctx.check(k.cmp(&j) == v.cmp(&w), || format!("ccc.ord:{}:{}", v, w), || format!("combining classes {} and {} compare wrongly", v, w));
            }
        }
    }
    // pairs
    let mut firsts: Vec<char> = r::comp().keys().map(|k| k.0).collect();
    let mut seconds: Vec<char> = r::comp().keys().map(|k| k.1).collect();
    seconds.extend((0x1160..=0x1177).filter_map(char::from_u32));
    seconds.extend((0x11A6..=0x11C4).filter_map(char::from_u32));
    firsts.extend((0x10FF..=0x1114).filter_map(char::from_u32));
    firsts.extend((0xABFF..=0xAC40).filter_map(char::from_u32));
    firsts.extend((0xD780..=0xD7A5).filter_map(char::from_u32));
    for v in [&mut firsts, &mut seconds] {
        let base = v.clone();
        for c in base {
            for d in [-1i32, 1] {
                v.extend(char::from_u32((c as i32 + d) as u32));
            }
        }
        v.sort();
        v.dedup();
    }
    ctx.obs("composition: first elements tried with every character", firsts.len() as u64);
    ctx.obs("composition: second elements tried with every character", seconds.len() as u64);
    let pair = |s: &mut Sink, a: char, b: char| {
        let want = pair_comp(a, b);
        let got = n::compose(a, b);
        s.evals += 1;
        if want.is_some() {
            s.obs.add("pairs that compose", 1);
            s.nontrivial += 1;
        }
        if got != want {
            s.ctx.fail(format!("compose:{:04X}:{:04X}", a as u32, b as u32), format!("compose(U+{:04X}, U+{:04X}): expected {:?}, got {:?}", a as u32, b as u32, want, got));
        }
    };
    sweep(ctx, "compose(any, second)", |c, s| {
        for &b in s.part(c, &seconds) {
            pair(s, c, b)
        }
    });
    sweep(ctx, "compose(first, any)", |c, s| {
        for &a in s.part(c, &firsts) {
            pair(s, a, c)
        }
    });
    // the exposed composition tables
    sweep(ctx, "canonical_composition table", |c, s| {
        let rows: Vec<(char, char)> = n::canonical_composition(c)
            .map(|t| t.iter().flat_map(|(rg, v)| rg.iter().map(move |x| (x, v)).collect::<Vec<_>>()).collect())
            .unwrap_or_default();
        for (b, v) in &rows {
            s.eq("composition row", c, Some(*v), r::comp().get(&(c, *b)).copied());
        }
        s.obs.add("composition table rows", rows.len() as u64);
    });
    let rows = ctx.get_obs("composition table rows");
    ctx.check(rows == r::comp().len() as u64, || "composition.rows".into(), || format!("composition tables hold {} pairs, the standard defines {}", rows, r::comp().len()));
}

const JAMO_L: [&str; 19] = ["G", "GG", "N", "D", "DD", "R", "M", "B", "BB", "S", "SS", "", "J", "JJ", "C", "K", "T", "P", "H"];
const JAMO_V: [&str; 21] = ["A", "AE", "YA", "YAE", "EO", "E", "YEO", "YE", "O", "WA", "WAE", "OE", "YO", "U", "WEO", "WE", "WI", "YU", "EU", "YI", "I"];
const JAMO_T: [&str; 28] = ["", "G", "GG", "GS", "N", "NJ", "NH", "D", "L", "LG", "LM", "LB", "LS", "LT", "LP", "LH", "M", "B", "BS", "S", "SS", "NG", "J", "C", "K", "T", "P", "H"];

pub fn name_ref(c: char) -> Option<String> {
    let u = c as u32;
    match u {
        0xAC00..=0xD7A3 => {
            let s = (u - 0xAC00) as usize;
            Some(format!("HANGUL SYLLABLE {}{}{}", JAMO_L[s / 588], JAMO_V[s % 588 / 28], JAMO_T[s % 28]))
        }
        0x3400..=0x4DB5 | 0x4E00..=0x9FEA | 0x20000..=0x2A6D6 | 0x2A700..=0x2B734 | 0x2B740..=0x2B81D | 0x2B820..=0x2CEA1 | 0x2CEB0..=0x2EBE0 => Some(format!("CJK UNIFIED IDEOGRAPH-{:X}", u)),
        0xF900..=0xFA6D | 0xFA70..=0xFAD9 | 0x2F800..=0x2FA1D => Some(format!("CJK COMPATIBILITY IDEOGRAPH-{:X}", u)),
        0x17000..=0x187EC => Some(format!("TANGUT IDEOGRAPH-{:X}", u)),
        0x1B170..=0x1B2FB => Some(format!("NUSHU CHARACTER-{:X}", u)),
        _ => r::names().get(&c).map(|s| s.to_string()),
    }
}

pub fn c06(ctx: &Ctx) {
    use unic_ucd_name::Name;
    use unic_ucd_name_aliases::{name_aliases_of, NameAliasType as T};
    ctx.rule("every scalar value (name text, absence, length, aliases of every type), uniqueness over all names, ordering over the sorted list of all names plus random triples; non-trivial: characters with a name or an alias");
    ctx.exhaustive();
    ctx.assume("reference: /verif/ref/names.txt, alias.txt (Unicode 10.0.0) and rules NR1/NR2 of chapter 4.8");
    let alias = r::alias();
    let types = [
        (T::NameCorrections, "NameCorrections"),
        (T::ControlCodeNames, "ControlCodeNames"),
        (T::AlternateNames, "AlternateNames"),
        (T::Figments, "Figments"),
        (T::NameAbbreviations, "NameAbbreviations"),
    ];
    let all: Mutex<Vec<(char, Name, String)>> = Mutex::new(vec![]);
    sweep(ctx, "names", |c, s| {
        let want = name_ref(c);
        let got = Name::of(c);
        let txt = got.map(|n| n.to_string());
        if let (Some(n), Some(t)) = (got, &txt) {
            s.eq("name.len", c, n.len(), t.len());
            s.eq("name.ascii", c, t.bytes().all(|b| matches!(b, b'A'..=b'Z' | b'0'..=b'9' | b' ' | b'-')), true);
            if !s.again {
                all.lock().unwrap().push((c, n, t.clone()));
            }
            s.seen(match n {
                Name::NR1(_) => "NR1 names",
                Name::NR2(..) => "NR2 names",
                Name::NR3(_) => "NR3 names",
            });
        }
        s.eq("name.umbrella", c, unic::ucd::Name::of(c), got);
        if want.is_some() {
            s.nontrivial += 1;
        }
        s.eq("name", c, txt, want);
        // aliases
        let a = alias.get(c);
        let mut parts = a.split('|');
        let head = parts.next().unwrap();
        let t = T::of(c);
        // the order in which types are listed is not part of the property
        let mut gt: Vec<String> = t.map(|v| v.iter().map(|x| format!("{:?}", x)).collect()).unwrap_or_default();
        let gl = gt.len();
        gt.sort();
        gt.dedup();
        s.eq("alias.types.dup", c, gt.len(), gl);
        let mut wt: Vec<String> = head.trim_start_matches("Some([").trim_end_matches("])").split(", ").filter(|x| *x != "None" && !x.is_empty()).map(|x| x.to_string()).collect();
        wt.sort();
        s.eq("alias.types", c, gt, wt);
        let m: HashMap<&str, &str> = parts.map(|p| p.split_once('=').unwrap()).collect();
        for (k, n) in types {
            let g = name_aliases_of(c, k).map(|v| {
                let mut v = v.to_vec();
                v.sort();
                v.join(",")
            });
            let w = m.get(n).map(|v| {
                let mut v: Vec<&str> = v.split(',').collect();
                v.sort();
                v.join(",")
            });
            if w.is_some() {
                s.seen(n);
            }
            s.eq(n, c, g, w);
        }
        if a != "None" {
            s.nontrivial += 1;
        }
    });
    let mut v = all.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    let mut seen: HashMap<&str, char> = HashMap::new();
    for (c, _, t) in &v {
        if let Some(d) = seen.insert(t, *c) {
            ctx.fail(format!("name.dup:{:04X}", *c as u32), format!("U+{:04X} and U+{:04X} share the name {:?}", d as u32, *c as u32, t));
        }
    }
    ctx.obs("names compared for uniqueness", v.len() as u64);
    // ordering: sort by cmp, then every pair must agree with the positions
    let sorted = ctx.call("Name ordering", "sort of all names", || {
        let mut w: Vec<usize> = (0..v.len()).collect();
        w.sort_by(|a, b| v[*a].1.cmp(&v[*b].1));
        w
    });
    if let Some(w) = sorted {
        let rel = |i: usize, j: usize| {
            let (a, b) = (&v[w[i]], &v[w[j]]);
            let o = a.1.cmp(&b.1);
            let want = i.cmp(&j);
            ctx.check(
                o == want && a.1.partial_cmp(&b.1) == Some(o) && (a.1 == b.1) == (i == j) && (a.1 < b.1) == (i < j),
                || "name.order".to_string(),
                || format!("order of the names {:?} and {:?} is not a total order agreeing with equality: cmp {:?}, position {:?}, == {}", a.2, b.2, o, want, a.1 == b.1),
            );
        };
        for i in 1..w.len() {
            rel(i - 1, i);
            rel(i, i - 1);
            rel(i, i);
        }
        let n = ctx.n(2_000_000, 40_000_000) / 64;
        par(64, |t| {
            let mut rng = Rng::new(ctx.seed, 0x606, t);
            for _ in 0..n {
                rel(rng.below(w.len()), rng.below(w.len()));
            }
        });
        ctx.eval(n * 64 + 3 * w.len() as u64);
    }
    ctx.sample(|| format!("U+AC01 {:?}; U+4E00 {:?}; U+0041 {:?}", name_ref('\u{AC01}'), name_ref('\u{4E00}'), name_ref('A')));
}

pub fn c07(ctx: &Ctx) {
    use unic_ucd_segment::{GraphemeClusterBreak as G, SentenceBreak as S, WordBreak as W};
    ctx.rule("every scalar value, three properties, inherent/trait/umbrella access; non-trivial: characters with a value other than the default in at least one property");
    ctx.exhaustive();
    ctx.assume("reference: /verif/ref/GCB.txt, WB.txt, SB.txt (Unicode 10.0.0)");
    sweep(ctx, "break properties", |c, s| {
        let (g, w, b) = (r::gcb().get(c), r::wb().get(c), r::sb().get(c));
        s.eq("GCB", c, crate::vals::gcb(G::of(c)), g);
        s.eq("WB", c, crate::vals::wb(W::of(c)), w);
        s.eq("SB", c, crate::vals::sb(S::of(c)), b);
        s.eq("GCB.t", c, (<G as TotalCharProperty>::of(c), <G as PartialCharProperty>::of(c), unic::ucd::GraphemeClusterBreak::of(c)), (G::of(c), Some(G::of(c)), G::of(c)));
        s.eq("WB.t", c, (<W as TotalCharProperty>::of(c), <W as PartialCharProperty>::of(c), unic::ucd::WordBreak::of(c)), (W::of(c), Some(W::of(c)), W::of(c)));
        s.eq("SB.t", c, (<S as TotalCharProperty>::of(c), <S as PartialCharProperty>::of(c), unic::ucd::SentenceBreak::of(c)), (S::of(c), Some(S::of(c)), S::of(c)));
        s.obs.add(&format!("GCB={}", g), 1);
        s.obs.add(&format!("WB={}", w), 1);
        s.obs.add(&format!("SB={}", b), 1);
        if (g, w, b) != ("XX", "XX", "XX") {
            s.nontrivial += 1;
        }
    });
    ctx.check(G::default() == G::Other && W::default() == W::Other && S::default() == S::Other, || "default".into(), || "default break value is not Other".into());
    ctx.sample(|| "U+200D -> GCB ZWJ, WB ZWJ, SB Extend".into());
}

pub fn c08(ctx: &Ctx) {
    use unic_ucd_ident as i;
    ctx.rule("every scalar value, six properties, all access paths, plus the closure relations between the six answers; non-trivial: characters with at least one property");
    ctx.exhaustive();
    ctx.assume("reference: /verif/ref/IDS.txt, IDC.txt, XIDS.txt, XIDC.txt, Pat_Syn.txt, Pat_WS.txt (Unicode 10.0.0)");
    sweep(ctx, "identifier properties", |c, s| {
        let (ids, idc, xs, xc) = (i::is_id_start(c), i::is_id_continue(c), i::is_xid_start(c), i::is_xid_continue(c));
        let (ps, pw) = (i::is_pattern_syntax(c), i::is_pattern_whitespace(c));
        bin(s, "ID_Start", c, r::ids().is(c), ids, i::IdStart::of(c));
        bin(s, "ID_Continue", c, r::idc().is(c), idc, i::IdContinue::of(c));
        bin(s, "XID_Start", c, r::xids().is(c), xs, i::XidStart::of(c));
        bin(s, "XID_Continue", c, r::xidc().is(c), xc, i::XidContinue::of(c));
        bin(s, "Pattern_Syntax", c, r::pat_syn().is(c), ps, i::PatternSyntax::of(c));
        bin(s, "Pattern_White_Space", c, r::pat_ws().is(c), pw, i::PatternWhitespace::of(c));
        s.eq("start implies continue", c, (!ids || idc) && (!xs || xc), true);
        s.eq("XID implies ID", c, (!xs || ids) && (!xc || idc), true);
        s.eq("no pattern character in identifiers", c, (ps || pw) && (ids || idc || xs || xc), false);
        s.eq("umbrella", c, (unic::ucd::ident::is_id_start(c), unic::ucd::ident::is_xid_continue(c), unic::ucd::ident::is_pattern_syntax(c)), (ids, xc, ps));
        if ids || idc || xs || xc || ps || pw {
            s.nontrivial += 1;
        }
    });
    ctx.sample(|| "U+2118 ID_Start; U+00B7 ID_Continue only; U+0021 Pattern_Syntax".into());
}

pub fn c09(ctx: &Ctx) {
    use unic_emoji_char as e;
    ctx.rule("every scalar value, five properties, all access paths; non-trivial: characters with at least one property");
    ctx.exhaustive();
    ctx.assume("reference: /verif/ref/Emoji.txt, EPres.txt, EMod.txt, EBase.txt, EComp.txt (Emoji 5.0)");
    sweep(ctx, "emoji properties", |c, s| {
        let before = s.obs.0.values().sum::<u64>();
        bin(s, "Emoji", c, r::emoji().is(c), e::is_emoji(c), e::Emoji::of(c));
        bin(s, "Emoji_Presentation", c, r::epres().is(c), e::is_emoji_presentation(c), e::EmojiPresentation::of(c));
        bin(s, "Emoji_Modifier", c, r::emod().is(c), e::is_emoji_modifier(c), e::EmojiModifier::of(c));
        bin(s, "Emoji_Modifier_Base", c, r::ebase().is(c), e::is_emoji_modifier_base(c), e::EmojiModifierBase::of(c));
        bin(s, "Emoji_Component", c, r::ecomp().is(c), e::is_emoji_component(c), e::EmojiComponent::of(c));
        s.eq("umbrella", c, unic::emoji::char::is_emoji(c), r::emoji().is(c));
        if s.obs.0.values().sum::<u64>() != before {
            s.nontrivial += 1;
        }
    });
    ctx.check(e::EMOJI_VERSION.to_string() == "5.0.0", || "emoji version".into(), || format!("EMOJI_VERSION is {}", e::EMOJI_VERSION));
    ctx.sample(|| "U+1F466 Emoji, EPres, EBase; U+1F3FB EMod; U+0023 Emoji, EComp".into());
}

pub fn c28(ctx: &Ctx) {
    use unic_idna_mapping::Mapping as M;
    ctx.rule("every scalar value: status and replacement text; non-trivial: every status other than disallowed");
    ctx.exhaustive();
    ctx.assume("reference: /verif/ref/idna.txt (UTS #46 IdnaMappingTable 10.0.0)");
    sweep(ctx, "IDNA mapping", |c, s| {
        let want = r::idna_of(c).clone();
        let got = match M::of(c) {
            M::Valid => r::Idna::Valid,
            M::Ignored => r::Idna::Ignored,
            M::Mapped(x) => r::Idna::Mapped(x.into()),
            M::Deviation(x) => r::Idna::Deviation(x.into()),
            M::Disallowed => r::Idna::Disallowed,
            M::DisallowedStd3Valid => r::Idna::Std3Valid,
            M::DisallowedStd3Mapped(x) => r::Idna::Std3Mapped(x.into()),
        };
        s.seen(match &want {
            r::Idna::Valid => "valid",
            r::Idna::Ignored => "ignored",
            r::Idna::Mapped(_) => "mapped",
            r::Idna::Deviation(_) => "deviation",
            r::Idna::Disallowed => "disallowed",
            r::Idna::Std3Valid => "disallowed_STD3_valid",
            r::Idna::Std3Mapped(_) => "disallowed_STD3_mapped",
        });
        if want != r::Idna::Disallowed {
            s.nontrivial += 1;
        }
        s.eq("idna", c, got, want);
    });
    ctx.sample(|| "U+00DF deviation 'ss'; U+0041 mapped 'a'; U+00AD ignored".into());
}

pub fn c34(ctx: &Ctx) {
    use unic_char_basics as b;
    ctx.rule("every scalar value: noncharacter, private use, notation text; non-trivial: noncharacters, private-use characters and every distinct notation");
    ctx.exhaustive();
    ctx.assume("reference: the definitions in chapter 23.5 and 23.7 of the standard, computed arithmetically, cross-checked with /verif/ref/NChar.txt and gc.txt");
    sweep(ctx, "basics", |c, s| {
        let u = c as u32;
        let nc = u & 0xFFFE == 0xFFFE || (0xFDD0..=0xFDEF).contains(&u);
        let pu = (0xE000..=0xF8FF).contains(&u) || (u >= 0xF0000 && u & 0xFFFF <= 0xFFFD);
        assert!(nc == r::nchar().is(c) && pu == (r::gc().get(c) == "Co"));
        s.eq("noncharacter", c, b::is_noncharacter(c), nc);
        s.eq("private_use", c, b::is_private_use(c), pu);
        s.eq("umbrella", c, (unic::char::basics::is_noncharacter(c), unic::char::basics::is_private_use(c)), (nc, pu));
        let h = format!("{:X}", u);
        s.eq("notation", c, b::unicode_notation(c).to_string(), format!("U+{}{}", &"0000"[..4usize.saturating_sub(h.len())], h));
        if nc {
            s.seen("noncharacters");
        }
        if pu {
            s.seen("private use");
        }
        s.nontrivial += 1;
    });
    ctx.sample(|| "U+FDD0 noncharacter; U+E000 private use; '\\u{a}' -> U+000A; '\\u{10FFFF}' -> U+10FFFF".into());
}

/// Names of the properties themselves (part of C10's contract).
pub fn prop_names<P: CharProperty>() -> (&'static str, &'static str, &'static str) {
    (P::prop_abbr_name(), P::prop_long_name(), P::prop_human_name())
}
