//! C31: totality. Hostile texts through every operation of the catalogue, with overflow checks on; a
//! panic, an output beyond the bounds of the standard or a case that does not finish is a violation.
use crate::ctx::{fnv, par, Ctx, Obs};
use crate::ops::{of_char, OPS};
use crate::rng::Rng;
use std::sync::Mutex;

fn run(ctx: &Ctx, s: &str, obs: &mut Obs) {
    let n = s.chars().count();
    for op in OPS {
        // Long texts only where the work is linear: RFC 3492 inserts into the middle of its output,
        // words from the back look back over a whole run of regional indicators at each step.
        let max = match op.name {
            "character properties" => 300,
            "property value parsing" => 3000,
            "punycode encode" | "punycode decode" | "idna" | "words and segments" | "word bounds, reversed" => if ctx.thorough() { 5000 } else { 1100 },
            _ => usize::MAX,
        };
        if n > max {
            continue;
        }
        ctx.eval(1);
        obs.add(op.name, 1);
        if let Some(r) = ctx.call(op.name, s, || (op.f)(s)) {
            if let Err(e) = r {
                ctx.fail(format!("bound:{}:{}", op.name, e), format!("{}: {}\n  input ({} bytes): {}", op.name, e, s.len(), crate::ctx::cps(s)));
            }
        }
    }
    ctx.distinct(fnv(s.as_bytes()));
    obs.add("texts", 1);
    obs.add("bytes", s.len() as u64);
    if s.len() >= 65536 {
        obs.add("texts of 64 KiB and more", 1);
    }
}

/// Representatives of every class any algorithm distinguishes, deduplicated.
fn reps() -> Vec<char> {
    let mut v: Vec<char> = vec![];
    v.extend(crate::seg::gcls().reps.iter());
    v.extend(crate::seg::wcls().reps.iter());
    v.extend(crate::bidi::cls().reps.iter().flatten());
    v.extend("\0\u{7f}\u{80}\u{ff}\u{7ff}\u{800}\u{d7ff}\u{e000}\u{fffe}\u{ffff}\u{10000}\u{1ffff}\u{10fffe}\u{10ffff}".chars());
    v.extend("-.xn0a9AzZ\u{3002}\u{ff0e}\u{ff61}\u{df}\u{3c2}\u{200c}\u{200d}\u{1e9e}\u{2f868}\u{fdfa}\u{fb2c}\u{1d160}\u{1d15e}\u{390}\u{1f82}\u{344}\u{212b}\u{958}".chars());
    v.extend("\u{300}\u{301}\u{327}\u{334}\u{345}\u{3099}\u{5b0}\u{64b}\u{1d165}\u{16ff0}\u{1100}\u{1161}\u{11a7}\u{11a8}\u{ac00}\u{ac01}\u{d7a3}".chars());
    v.sort();
    v.dedup();
    v
}

pub fn hostile(g: &mut Rng, max: usize) -> String {
    let pool: &str = match g.below(12) {
        0 => "\u{1F1E6}\u{1F1FF}\u{200D}\u{301}a",
        1 => "\u{300}\u{301}\u{327}\u{334}\u{345}\u{3099}\u{1D165}a\u{1100}\u{1161}\u{11A8}",
        2 => "\u{202A}\u{202B}\u{202C}\u{202D}\u{202E}\u{2066}\u{2067}\u{2068}\u{2069}a\u{5D0}1\n",
        3 => "xn--9az.-\u{3002}\u{FC}",
        4 => "\u{1F466}\u{1F3FB}\u{200D}\u{2764}\u{1F48B}\u{FE0F}\u{1F1E6}",
        5 => "\u{FDFA}\u{FB2C}\u{1D160}\u{390}\u{1F82}\u{AC01}\u{2F868}",
        6 => "\u{0}\u{D7FF}\u{E000}\u{FFFF}\u{10000}\u{10FFFF}\u{7F}\u{80}",
        7 => "'\":.,_\u{5D0}a1\u{30A2}\u{AD}\u{200D}\u{1F1E6}\r\n",
        8 => "\u{661}1+,#$%\u{644}\u{5D0}\u{300}\u{AD}\t \u{2029}",
        9 => "",
        _ => "abcxyz0129--..",
    };
    let p: Vec<char> = pool.chars().collect();
    let n = match g.below(10) {
        0 => g.range(0, 3),
        1 => g.range(max, max * 4),
        _ => g.range(0, max),
    };
    let any = |g: &mut Rng| loop {
        if let Some(c) = char::from_u32(match g.below(3) {
            0 => g.below(0x110000),
            1 => g.below(0x3000),
            _ => g.below(0x20000),
        } as u32)
        {
            break c;
        }
    };
    let mut s = String::new();
    if g.chance(1, 4) {
        s.push_str(["xn--", "XN--", ".", "xn--a-", "\u{5D0}.", "a\n"][g.below(6)]);
    }
    for _ in 0..n {
        s.push(if p.is_empty() || g.chance(1, 20) { any(g) } else { *g.pick(&p) });
    }
    s
}

pub fn c31(ctx: &Ctx) {
    ctx.rule("a text run through one operation of the public API; texts: every scalar value alone, every representative of every break, bidi, combining and mapping class repeated to lengths around every power of two up to 64 Ki characters, all pairs (and sampled triples) of representatives repeated and alone, nested bidi controls around the depth limit, malformed and over-long domains, seeded random hostile texts; non-trivial: distinct texts");
    ctx.assume("bounds: at most 4 characters of NFC/NFD and 18 of NFKC/NFKD, IDNA per character; segments and runs at most one per character; termination: less than 60 s of CPU for one text (normally microseconds)");
    let total = Mutex::new(Obs::default());
    let all = reps();
    // instrumented builds run a thinner selection
    let light = std::env::var("VERIF_SCALE").is_ok() && !ctx.thorough();
    ctx.obs("class representatives", all.len() as u64);
    // every scalar value through everything
    par(0x1100, |b| {
        let mut o = Obs::default();
        let mut block = String::new();
        for i in 0..0x100u32 {
            let Some(c) = char::from_u32(b as u32 * 0x100 + i) else { continue };
            block.push(c);
            let s = c.to_string();
            ctx.eval(1);
            match ctx.call("character properties", &s, || of_char(c)) {
                Some(Err(e)) => ctx.fail(format!("bound:character properties:{:04X}:{}", c as u32, e), format!("U+{:04X}: {}", c as u32, e)),
                _ => {}
            }
            // uniform areas (ideographs, syllables, private use, unassigned planes): one in sixteen
            // alone, all of them within their block of 256
            let u = c as u32;
            let uniform = matches!(u, 0x3400..=0x4DBF | 0x4E00..=0x9FFF | 0xAC00..=0xD7A3 | 0xE000..=0xF8FF | 0x12000..=0x1CFFF | 0x20000..=0x2F7FF | 0x2FA20..=0xDFFFF | 0xE0200..);
            if !light && (!uniform || ctx.thorough() || i % 16 == 0) || light && i % 64 == 1 {
                run(ctx, &s, &mut o);
            }
        }
        if !block.is_empty() {
            run(ctx, &block, &mut o);
        }
        total.lock().unwrap().add("scalar values", block.chars().count() as u64);
        merge(&total, o);
    });
    // runs of one class, lengths around the powers of two
    let mut lens: Vec<usize> = vec![2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 29, 30, 31, 32, 33, 61, 62, 63, 64, 65, 66, 124, 125, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097];
    let big = [16383, 16385, 32767, 32769, 65535, 65536, 65537];
    lens.extend(big);
    par(all.len() as u64, |i| {
        let mut o = Obs::default();
        let c = all[i as usize];
        for n in &lens {
            if light && (*n > 1030 || (i + *n as u64) % 4 != 0) {
                continue;
            }
            if *n > 5000 && !ctx.thorough() && (*n != 65537 || i % 3 != 0) {
                continue;
            }
            let s: String = std::iter::repeat(c).take(*n).collect();
            run(ctx, &s, &mut o);
            for (pre, post) in [("a", "b"), ("\u{5D0}", "1"), ("xn--", ""), ("", "\u{300}"), ("\u{2067}", "\u{2069}"), ("\u{1F1E6}", "\u{1F1E6}")] {
                if *n < 5000 || ctx.thorough() {
                    let t = format!("{}{}{}", pre, s, post);
                    if *n < 600 || (i + *n as u64) % 16 == 0 {
                        run(ctx, &t, &mut o);
                    }
                }
            }
        }
        merge(&total, o);
    });
    // pairs
    par(all.len() as u64, |i| {
        let mut o = Obs::default();
        for j in 0..all.len() {
            if light && (i + j as u64) % 8 != 0 {
                continue;
            }
            let p: String = [all[i as usize], all[j]].iter().collect();
            run(ctx, &p, &mut o);
            run(ctx, &p.repeat(3 + (j % 5)), &mut o);
            if j % 7 == 0 {
                run(ctx, &p.repeat(130), &mut o);
            }
            if ctx.thorough() {
                for k in 0..all.len() {
                    let t: String = [all[i as usize], all[j], all[k]].iter().collect();
                    run(ctx, &t, &mut o);
                }
            }
        }
        merge(&total, o);
    });
    // nesting: openers, something inside, closers, with overflow of the depth on both kinds
    let open = ["\u{202A}", "\u{202B}", "\u{202D}", "\u{202E}", "\u{2066}", "\u{2067}", "\u{2068}"];
    par((open.len() * open.len()) as u64, |i| {
        let mut o = Obs::default();
        let (a, b) = (open[i as usize % open.len()], open[i as usize / open.len()]);
        for n in [1usize, 2, 30, 31, 32, 60, 61, 62, 63, 64, 65, 124, 125, 126, 127, 128, 300, 3000] {
            for inner in ["", "a", "\u{5D0}", "1", "\u{661}", " ", "\n", "a\u{5D0}1 \u{2029}b"] {
                for m in [0, 1, n, n + 1, 2 * n + 3] {
                    for close in ["\u{202C}", "\u{2069}", "\u{202C}\u{2069}"] {
                        if m == 0 && close != "\u{202C}" || n == 3000 && (m != n || inner.len() > 2) {
                            continue;
                        }
                        let s = format!("{}{}{}{}{}", a.repeat(n / 2), format!("{}{}", b, a).repeat(n - n / 2), inner, close.repeat(m), "a\u{5D0}");
                        ctx.eval(2);
                        for op in OPS.iter().filter(|o| o.name.starts_with("bidi")) {
                            if let Some(Err(e)) = ctx.call(op.name, &s, || (op.f)(&s)) {
                                ctx.fail(format!("bound:{}:{}", op.name, e), format!("{}: {}\n  input: {}", op.name, e, crate::ctx::cps(&s)));
                            }
                        }
                        ctx.distinct(fnv(s.as_bytes()));
                        o.add("nested bidi texts", 1);
                    }
                }
            }
        }
        merge(&total, o);
    });
    // very long runs of marks in every unfavourable order, through everything that normalizes
    let orders: [&[char]; 5] = [
        &['\u{345}', '\u{301}', '\u{323}', '\u{334}'],
        &['\u{345}', '\u{334}'],
        &['\u{301}', '\u{327}', '\u{301}', '\u{345}', '\u{F73}'],
        &['\u{3099}', '\u{5B0}', '\u{64B}', '\u{1D165}', '\u{334}'],
        &['\u{344}', '\u{1D160}', '\u{327}'],
    ];
    let len = if light { 2000 } else { 200_000 };
    par(orders.len() as u64 * 2, |i| {
        let mut o = Obs::default();
        let m = orders[i as usize / 2];
        let s: String = if i % 2 == 0 {
            // mixed
            std::iter::once('a').chain(m.iter().cycle().copied().take(len)).chain(['b']).collect()
        } else {
            // a block of each, the highest class first
            std::iter::once('a').chain(m.iter().flat_map(|c| std::iter::repeat(*c).take(len / m.len()))).chain(['b']).collect()
        };
        for op in OPS.iter().filter(|o| o.name.starts_with("nf") || o.name == "normalization display") {
            ctx.eval(1);
            if let Some(Err(e)) = ctx.call(op.name, &s, || (op.f)(&s)) {
                ctx.fail(format!("bound:{}:{}", op.name, e), format!("{}: {}\n  input: {} characters, {}...", op.name, e, len, crate::ctx::cps(&s.chars().take(20).collect::<String>())));
            }
        }
        ctx.eval(2);
        ctx.call("to_unicode of a long run of marks", &s, || unic_idna::to_unicode(&s, unic_idna::Flags { use_std3_ascii_rules: true, transitional_processing: false, verify_dns_length: false }).1.is_ok());
        ctx.call("to_ascii of a long run of marks", &s, || unic_idna::to_ascii(&s, unic_idna::Flags { use_std3_ascii_rules: true, transitional_processing: false, verify_dns_length: true }).is_ok());
        o.add("very long runs of marks", 1);
        merge(&total, o);
    });
    // domains: label lengths, numbers of labels, digit runs that overflow
    par(64, |i| {
        let mut o = Obs::default();
        let mut g = Rng::new(ctx.seed, 0x310, i);
        for k in 0..ctx.n(60, 1500) {
            let s = match k % 6 {
                0 => "a".repeat(55 + g.below(20)) + &".b".repeat(g.below(140)),
                1 => format!("xn--{}", ["a", "9", "z", "A", "0", "-"][g.below(6)].repeat(g.below(300))),
                2 => format!("xn--{}{}", crate::idna::gen_label(&mut g), "99999999"),
                3 => ".".repeat(g.below(300)) + &crate::idna::gen_domain(&mut g),
                4 => crate::idna::gen_domain(&mut g).repeat(1 + g.below(20)),
                _ => format!("xn--xn--{}", crate::idna::gen_label(&mut g)),
            };
            run(ctx, &s, &mut o);
        }
        merge(&total, o);
    });
    // random
    par(512, |i| {
        let mut o = Obs::default();
        let mut g = Rng::new(ctx.seed, 0x311, i);
        for k in 0..ctx.n(400, 20_000) {
            let s = match k % 5 {
                0 => crate::bidi::text(&mut g, 40),
                1 => crate::normal::random_text(&mut g, 40).into_iter().collect(),
                2 => crate::seg::text(if g.chance(1, 2) { crate::seg::Kind::Word } else { crate::seg::Kind::Grapheme }, &mut g, 40),
                _ => hostile(&mut g, if k % 50 == 3 { 2000 } else { 60 }),
            };
            run(ctx, &s, &mut o);
        }
        merge(&total, o);
    });
    ctx.obs_all(&total.into_inner().unwrap());
    ctx.sample(|| "U+1F1E6 x 65537 | U+2067 x 126, a, U+2069 x 127 | xn--999...".into());
}
fn merge(t: &Mutex<Obs>, o: Obs) {
    let mut t = t.lock().unwrap();
    for (k, v) in o.0 {
        t.add(&k, v);
    }
}
pub fn optime(n: usize) {
    for c in reps() {
        let s: String = std::iter::repeat(c).take(n).collect();
        for op in OPS {
            let t = std::time::Instant::now();
            let _ = std::panic::catch_unwind(|| (op.f)(&s).is_ok());
            let e = t.elapsed().as_secs_f64();
            if e > 0.02 {
                println!("U+{:04X} x {} {} {:.3}", c as u32, n, op.name, e);
            }
        }
    }
}
