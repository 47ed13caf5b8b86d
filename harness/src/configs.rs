//! C38: every build of the library gives the same answers. /verif/cfgs, built in several configurations
//! (debug and release, overflow checks on and off, optional features on and off, another toolchain, machines
//! of another word size and byte order under Miri), answers the same questions; the answers are compared
//! operation by operation.
use crate::ctx::{cps, fnv, Ctx};
use crate::rng::Rng;
use crate::san::{excerpt, run, scratch};
use std::collections::HashMap;
use std::path::Path;
use std::process::Command;
use std::sync::Mutex;

type Answers = HashMap<(String, String), HashMap<String, String>>;
fn parse(out: &str, partial: bool) -> Option<Answers> {
    let mut m = Answers::new();
    let mut done = false;
    // a line cut off by the end of the run is not an answer
    for l in out.split_inclusive('\n').filter_map(|l| l.strip_suffix('\n')) {
        if l == "DONE" {
            done = true;
            break;
        }
        let mut it = l.split(' ');
        let (Some(kind), Some(key)) = (it.next(), it.next()) else { continue };
        m.insert((kind.into(), key.into()), it.filter_map(|x| x.split_once('=')).map(|(a, b)| (a.to_string(), b.to_string())).collect());
    }
    (done || partial && !m.is_empty()).then_some(m)
}
fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}

fn gen_text(g: &mut Rng, max: usize) -> String {
    let n = g.range(3, max.max(4));
    match g.below(9) {
        0 => crate::seg::text(crate::seg::Kind::Grapheme, g, n),
        1 => crate::seg::text(crate::seg::Kind::Word, g, n),
        2 | 3 => crate::bidi::text(g, n),
        4 | 5 => crate::normal::random_text(g, n).into_iter().collect(),
        6 | 7 => crate::idna::gen_domain(g),
        _ => crate::total::hostile(g, n),
    }
}
/// Texts of every kind; some long ones around the limits of small counters.
fn texts(ctx: &Ctx) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let n = ctx.n(2500, 30000);
    for i in 0..n {
        let mut g = Rng::new(ctx.seed, 0x383, i);
        let max = match i % 50 {
            0 => 300,
            1 | 2 => 80,
            _ => 14,
        };
        v.push(gen_text(&mut g, max));
    }
    for i in 0..ctx.n(100, 2000) {
        v.push(crate::idna::crafted(&mut Rng::new(ctx.seed, 0x385, i)));
    }
    // whole names, aliases and the like, for the operations that parse
    for t in ["LATIN SMALL LETTER A", "Lu", "Uppercase_Letter", "AL", "NSM", "not_reordered", "Virama", "9", "255", "256", "Y", "true", "V1_1", "Cn", "L", "xn--a", "ZWJ", "E_Base_GAZ"] {
        v.push(t.into());
    }
    for i in 0..ctx.n(24, 200) {
        let mut g = Rng::new(ctx.seed, 0x384, i);
        let mut s = gen_text(&mut g, 20);
        let len = *g.pick(&[127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000]);
        let cs: Vec<char> = gen_text(&mut g, 8).chars().take(3).collect();
        s.extend(cs.iter().cycle().take(len));
        s.push_str(&gen_text(&mut g, 20));
        v.push(s);
    }
    v
}

/// Compares the answers of one build with those of the reference.
fn compare(ctx: &Ctx, name: &str, reference: &Answers, got: &Answers, texts: &[String]) -> Vec<u32> {
    let mut blocks = vec![];
    let (mut n, mut same) = (0, 0);
    for (k, a) in reference {
        let Some(b) = got.get(k) else {
            ctx.obs("answers that one build did not give", 1);
            continue;
        };
        for (op, x) in a {
            // parts that an optional feature adds
            let Some(y) = b.get(op) else { continue };
            n += 1;
            if x == y {
                same += 1;
                continue;
            }
            match k.0.as_str() {
                "chars" => blocks.push(u32::from_str_radix(&k.1, 16).unwrap()),
                "text" => {
                    let t = &texts[k.1.parse::<usize>().unwrap()];
                    ctx.fail(format!("config:{}:{}:{:x}", name, op, fnv(t.as_bytes())), format!("{} of the build `{}` differs from the debug build: {} there, {} here\n  text: {:?}\n  code points: {}", op, name, x, y, t, cps(t)));
                }
                _ => ctx.fail(format!("config:{}:{}:{}", name, op, k.1), format!("{} history {} (seed {}) of the build `{}` differs from the debug build: {} there, {} here", op, k.1, ctx.seed, name, x, y)),
            }
        }
    }
    ctx.eval(n);
    ctx.obs(&format!("answers compared, build {}", name), n);
    ctx.obs("answers alike", same);
    blocks.sort();
    blocks
}

fn finish(ctx: &Ctx, name: &str, r: std::io::Result<crate::san::Ran>, limit: u64) -> Option<Answers> {
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            ctx.obs("runs that could not start", 1);
            eprintln!("NOTE {}: {}", name, e);
            return None;
        }
    };
    if let Some(a) = parse(&r.out, r.timeout && name.contains("-linux-")) {
        if r.timeout {
            ctx.obs(&format!("interpreted parts cut short by the time limit, {}", name), 1);
        }
        return Some(a);
    }
    let all = format!("{}\n{}", r.out, r.err);
    if r.timeout {
        ctx.obs(&format!("runs not finished within {} s, build {}", limit, name), 1);
        None
    } else if r.signal == Some(9) {
        ctx.obs("runs ended from outside", 1);
        None
    } else if let Some(i) = all.find("Undefined Behavior: ") {
        ctx.fail(format!("config:{}:miri", name), format!("build {}:\n{}", name, excerpt(&all, i)));
        None
    } else if r.signal.is_some() {
        ctx.fail(format!("config:{}:signal {}", name, r.signal.unwrap()), format!("build {} was ended by signal {}:\n{}", name, r.signal.unwrap(), r.err.lines().take(20).collect::<Vec<_>>().join("\n")));
        None
    } else {
        ctx.obs(&format!("runs without an answer, build {}", name), 1);
        eprintln!("NOTE {} ended with {:?}: {}", name, r.code, r.err.lines().last().unwrap_or(""));
        None
    }
}

fn native(dir: &Path, bin: &str, tag: &str, args: &[String], limit: u64) -> std::io::Result<crate::san::Ran> {
    let mut c = Command::new(bin);
    c.args(args);
    run(&mut c, dir, tag, limit)
}

pub fn c38(ctx: &Ctx) {
    ctx.rule("one operation on one text, block of 64 characters, range history or level history, whose complete answer (as a digest, or the panic) in one build is compared with the debug build's; questions: every scalar value through every character property, texts of all generators of the other checks, some with stretches around the limits of small counters, seeded histories of range iterators and level arithmetic; builds: see `observed`; non-trivial: distinct texts and histories");
    ctx.assume("digests of 64 bits stand for the answers; the builds for other word sizes and byte orders are interpreted by Miri and see a small share of the questions; what an optional feature adds is compared only where both builds have it");
    let Ok(bins) = std::env::var("VERIF_CFGS") else {
        eprintln!("HARNESS-ERROR no builds to compare");
        ctx.harness_fail();
        return;
    };
    let bins: Vec<(&str, &str)> = bins.split(';').filter_map(|x| x.split_once('=')).collect();
    for f in std::env::var("VERIF_CFGS_FAILED").unwrap_or_default().split('\n').filter(|f| !f.is_empty()) {
        ctx.fail(format!("config:{}:build", f.split(':').next().unwrap()), format!("the library builds in the reference configuration but not in this one: {}", f));
    }
    let dir = scratch(ctx);
    let ts = texts(ctx);
    for t in &ts {
        ctx.distinct(fnv(t.as_bytes()));
    }
    ctx.obs("texts", ts.len() as u64);
    let hist = ctx.n(3000, 60000);
    ctx.distinct_n(2 * hist);
    ctx.obs("range and level histories", 2 * hist);
    let file = dir.join("texts");
    std::fs::write(&file, ts.iter().map(|t| hex(t) + "\n").collect::<String>()).expect("scratch");
    let args: Vec<String> = vec![file.display().to_string(), ctx.seed.to_string(), hist.to_string(), "1".into()];
    let limit = if ctx.thorough() { 3000 } else { 240 };
    // small share of the questions for the interpreted builds
    // (the first ones are certain to be answered)
    let first = ["xn--fa-hia.de", "XN--4DB", "fa\u{df}.\u{5d0}1", "xn--a-ecp.xn--", "a\u{5d0}\u{202b}1\u{2067}b", "\u{1f1e6}\u{1f1e7}\u{300}\u{1f468}\u{200d}\u{2764}", "\u{ac01}\u{1112}\u{1161}e\u{323}\u{302}", "1.a\u{2019}b\u{3042}\u{30a2}"];
    let small: Vec<String> = first.iter().map(|t| t.to_string()).chain(ts.iter().filter(|t| !t.is_empty() && t.chars().count() <= 8).take(ctx.n(40, 1200) as usize).cloned()).chain((0..ctx.n(8, 200)).map(|i| crate::idna::crafted(&mut Rng::new(ctx.seed, 0x386, i)))).collect();
    let sfile = dir.join("small");
    std::fs::write(&sfile, small.iter().map(|t| hex(t) + "\n").collect::<String>()).expect("scratch");
    let sargs = |part: usize, parts: usize| -> Vec<String> { vec![sfile.display().to_string(), ctx.seed.to_string(), ctx.n(40, 2000).to_string(), if ctx.thorough() { "256" } else { "8192" }.into(), part.to_string(), parts.to_string()] };

    let (rname, rbin) = bins[0];
    ctx.obs(&format!("build {}", rname), 1);
    let Some(reference) = finish(ctx, rname, native(&dir, rbin, rname, &args, limit), limit) else {
        // a debug build that hangs or dies is for C31; nothing to compare with
        if !ctx.too_many() {
            ctx.obs("no reference", 1);
        }
        std::fs::remove_dir_all(&dir).ok();
        return;
    };
    for a in reference.values().flat_map(|x| x.values()) {
        match a.as_str() {
            "panic" => ctx.obs("panics in the reference (watched by C31)", 1),
            e if e.starts_with("error:") => ctx.obs("bounds exceeded in the reference (watched by C31)", 1),
            _ => {}
        }
    }
    ctx.sample(|| format!("text {:?}: {}", ts[0], reference.get(&("text".into(), "0".into())).map_or(0, |m| m.len())));
    for (name, bin) in &bins[1..] {
        ctx.obs(&format!("build {}", name), 1);
        let Some(got) = finish(ctx, name, native(&dir, bin, name, &args, limit), limit) else { continue };
        let blocks = compare(ctx, name, &reference, &got, &ts);
        for b in blocks.iter().take(20) {
            let q: Vec<String> = vec!["chars".into(), b.to_string(), (b + 64).to_string()];
            let (Ok(x), Ok(y)) = (native(&dir, rbin, "chars-ref", &q, 60), native(&dir, bin, "chars-got", &q, 60)) else { continue };
            for (l, m) in x.out.lines().zip(y.out.lines()).filter(|(l, m)| l != m).take(4) {
                let cp = l.split(' ').next().unwrap_or("");
                ctx.fail(format!("config:{}:character:{}", name, cp), format!("the properties of U+{} differ between the debug build ({}) and the build `{}` ({})", cp, l, name, m));
            }
        }
        if !blocks.is_empty() {
            ctx.fail(format!("config:{}:characters", name), format!("the properties of some characters of the blocks of 64 from {:X?} on differ between the debug build and the build `{}`", &blocks[..blocks.len().min(8)], name));
        }
    }
    // other machines
    let (Ok(cdir), Ok(targets)) = (std::env::var("VERIF_CFGS_DIR"), std::env::var("VERIF_CFGS_MIRI")) else {
        ctx.obs("interpreted builds: not available", 1);
        std::fs::remove_dir_all(&dir).ok();
        return;
    };
    let Some(sref) = finish(ctx, rname, native(&dir, rbin, "ref-small", &sargs(0, 1), limit), limit) else { return };
    let targets: Vec<&str> = targets.split(' ').filter(|t| !t.is_empty()).collect();
    let parts = if ctx.thorough() { 32 } else { 8 };
    let jobs: Vec<(usize, &str)> = (0..parts).flat_map(|p| targets.iter().map(move |t| (p, *t))).collect();
    let next = Mutex::new(0usize);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let i = {
                    let mut n = next.lock().unwrap();
                    *n += 1;
                    *n - 1
                };
                let Some((part, t)) = jobs.get(i) else { break };
                if !ctx.thorough() && ctx.elapsed() > 420.0 {
                    ctx.obs("interpreted parts left out, time budget used up", 1);
                    continue;
                }
                let mut c = Command::new("cargo");
                c.current_dir(&cdir).args(["+nightly", "miri", "run", "--offline", "-q", "--target", t, "--"]).args(sargs(*part, parts));
                c.env("CARGO_TARGET_DIR", format!("{}/target/cfgs-miri-{}", ctx.root, t)).env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-ignore-leaks").env("RUSTFLAGS", "-Awarnings").env_remove("RUSTUP_TOOLCHAIN");
                let lim = if ctx.thorough() { 3000 } else { 130 };
                if let Some(got) = finish(ctx, t, run(&mut c, &dir, &format!("{}-{}", t, part), lim), lim) {
                    let mine: Answers = sref.iter().filter(|(k, _)| got.contains_key(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
                    ctx.obs(&format!("interpreted parts with answers, {}", t), 1);
                    let blocks = compare(ctx, t, &mine, &got, &small);
                    for b in blocks {
                        ctx.fail(format!("config:{}:characters:{:X}", t, b), format!("the properties of some character of U+{:04X}..+63 differ between the debug build and `{}`", b, t));
                    }
                }
            });
        }
    });
    std::fs::remove_dir_all(&dir).ok();
}
