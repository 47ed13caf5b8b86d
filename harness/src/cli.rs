//! C33: the command-line programs as black boxes (real processes, real pipes) and the codecs of their
//! library, against codecs written here.
use crate::ctx::{cps, fnv, par, Ctx, Obs, Outcome};
use crate::rng::Rng;
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::Mutex;
use unic::char::property::EnumeratedCharProperty;
use unic::ucd::{name_aliases_of, GeneralCategory, Name, NameAliasType};
use unic_cli::{parsers, writers};

// ---- reference codecs ----
fn enc_cp(s: &str) -> String {
    s.chars().map(|c| format!("U+{:04X}", c as u32)).collect::<Vec<_>>().join(" ")
}
fn enc_8(s: &str) -> String {
    s.bytes().map(|b| format!("0x{:02X}", b)).collect::<Vec<_>>().join(" ")
}
fn enc_16(s: &str) -> String {
    s.encode_utf16().map(|u| format!("0x{:04X}", u)).collect::<Vec<_>>().join(" ")
}
/// A Rust / ES6 string literal back to its text; None if it is not one.
fn literal(t: &str) -> Option<String> {
    let t = t.strip_prefix('"')?.strip_suffix('"')?;
    let mut o = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return None,
            '\\' => match it.next()? {
                'n' => o.push('\n'),
                'r' => o.push('\r'),
                't' => o.push('\t'),
                '0' => o.push('\0'),
                c @ ('\\' | '\'' | '"') => o.push(c),
                'u' => {
                    if it.next()? != '{' {
                        return None;
                    }
                    let (mut v, mut n) = (0u32, 0);
                    loop {
                        match it.next()? {
                            '}' => break,
                            c => {
                                v = v * 16 + c.to_digit(16)?;
                                n += 1;
                                if n > 6 {
                                    return None;
                                }
                            }
                        }
                    }
                    if n == 0 {
                        return None;
                    }
                    o.push(char::from_u32(v)?);
                }
                _ => return None,
            },
            c => o.push(c),
        }
    }
    Some(o)
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Out {
    Plain,
    Cp,
    U8,
    U16,
    Esc,
    EscAll,
    EscCtl,
}
const OUTS: [(&str, Out); 14] = [
    ("plain", Out::Plain),
    ("codepoints", Out::Cp),
    ("codepoint", Out::Cp),
    ("utf8-hex", Out::U8),
    ("utf16-hex", Out::U16),
    ("braces-escape", Out::Esc),
    ("js6-escape", Out::Esc),
    ("rust-escape", Out::Esc),
    ("braces-escape-all", Out::EscAll),
    ("js6-escape-all", Out::EscAll),
    ("rust-escape-all", Out::EscAll),
    ("braces-escape-control", Out::EscCtl),
    ("js6-escape-control", Out::EscCtl),
    ("rust-escape-control", Out::EscCtl),
];
/// What is wrong with `got` as the form `o` of `s`, if anything.
fn wrong(o: Out, s: &str, got: &str) -> Option<String> {
    let exact = |want: String| if got == want { None } else { Some(format!("expected {:?}", want.chars().take(300).collect::<String>())) };
    match o {
        Out::Plain => exact(s.into()),
        Out::Cp => exact(enc_cp(s)),
        Out::U8 => exact(enc_8(s)),
        Out::U16 => exact(enc_16(s)),
        Out::EscAll => exact(format!("\"{}\"", s.chars().map(|c| format!("\\u{{{:x}}}", c as u32)).collect::<String>())),
        Out::Esc | Out::EscCtl => {
            match literal(got) {
                None => return Some("not a string literal".into()),
                Some(t) if t != s => return Some(format!("the literal stands for {}", cps(&t))),
                _ => {}
            }
            // what is shown as itself must be allowed to
            let mut it = got[1..got.len() - 1].chars();
            while let Some(c) = it.next() {
                if c == '\\' {
                    // the escape itself is ASCII; skip what it quotes
                    if it.next() == Some('u') {
                        it.by_ref().take_while(|c| *c != '}').for_each(drop);
                    }
                } else if c.is_control() || o == Out::Esc && !c.is_ascii() {
                    return Some(format!("U+{:04X} is not escaped", c as u32));
                }
            }
            // plain letters and digits are not escaped
            for c in s.chars().filter(|c| c.is_ascii_alphanumeric() || *c == ' ' || o == Out::EscCtl && matches!(*c, '\u{C0}'..='\u{D6}' | '\u{5D0}'..='\u{5EA}' | '\u{4E00}'..='\u{9FD0}')) {
                if got.contains(&format!("\\u{{{:x}}}", c as u32)) {
                    return Some(format!("U+{:04X} is escaped", c as u32));
                }
            }
            None
        }
    }
}

// ---- texts ----
const POOL: [&str; 12] = [
    "abc XYZ 019",
    "\n\r\t\u{b}\u{c}\u{7f}\u{80}\u{85}\u{9f}\u{a0}\u{ad}",
    "\\\"'`$|&;<>*?[]{}()!#%~^=+,.:/@_",
    "-- -n -i -o --input plain -",
    "U+41 0x41 u+0 x+ \\u{41} \\n",
    "\u{e9}\u{df}\u{130}\u{300}\u{301}\u{345}\u{3099}\u{1160}",
    "\u{5d0}\u{661}\u{202e}\u{2066}\u{200d}\u{200b}\u{feff}",
    "\u{d7ff}\u{e000}\u{fffd}\u{fffe}\u{ffff}\u{fdd0}\u{10000}\u{1ffff}\u{10ffff}\u{7ff}\u{800}",
    "\u{1f600}\u{1f1e6}\u{1f1e7}\u{1f468}\u{1f3fb}\u{fe0f}\u{20e3}",
    "\u{4e00}\u{ac00}\u{d7a3}\u{3400}\u{20000}\u{3042}\u{ff21}",
    "\u{2028}\u{2029}\u{1680}\u{3000}\u{2003}  ",
    "\u{1}\u{2}\u{7}\u{8}\u{1b}\u{1f}",
];
fn text(g: &mut Rng, max: usize, nul: bool) -> String {
    let p: Vec<char> = POOL[g.below(POOL.len())].chars().collect();
    let q: Vec<char> = POOL[g.below(POOL.len())].chars().collect();
    let n = g.below(max + 1);
    (0..n)
        .map(|_| match g.below(12) {
            0 => loop {
                if let Some(c) = char::from_u32(1 + g.below(0x10ffff) as u32) {
                    break c;
                }
            },
            1 => char::from_u32(1 + g.below(0x2ff) as u32).unwrap(),
            2 if nul => '\0',
            3..=7 => p[g.below(p.len())],
            _ => q[g.below(q.len())],
        })
        .collect()
}
/// One of the spellings a form accepts: optional prefix, either case, leading zeros, one separator.
fn spell(g: &mut Rng, s: &str, form: usize) -> String {
    let units: Vec<u32> = match form {
        0 => s.chars().map(|c| c as u32).collect(),
        1 => s.bytes().map(|b| b as u32).collect(),
        _ => s.encode_utf16().map(|u| u as u32).collect(),
    };
    let mut o = String::new();
    for (i, u) in units.iter().enumerate() {
        if i > 0 {
            o.push([' ', ' ', ' ', ','][g.below(4)]);
        }
        o.push_str(match form {
            0 => ["U+", "u+", ""][g.below(3)],
            _ => ["0x", "0X", ""][g.below(3)],
        });
        let w = g.below(8);
        o.push_str(&if g.chance(1, 2) { format!("{:0w$X}", u, w = w) } else { format!("{:0w$x}", u, w = w) });
    }
    o
}

// ---- the library's codecs ----
fn write(o: Out, s: &str) -> Vec<u8> {
    let mut v = vec![];
    match o {
        Out::Plain => v.extend(s.bytes()),
        Out::Cp => writers::write_as_codepoints(&mut v, s.chars()).unwrap(),
        Out::U8 => writers::write_as_utf8_hex(&mut v, s.chars()).unwrap(),
        Out::U16 => writers::write_as_utf16_hex(&mut v, s.chars()).unwrap(),
        Out::Esc => writers::write_with_control_n_unicode_braces_escape(&mut v, s.chars()).unwrap(),
        Out::EscAll => writers::write_with_all_braces_escape(&mut v, s.chars()).unwrap(),
        Out::EscCtl => writers::write_with_control_braces_escape(&mut v, s.chars()).unwrap(),
    }
    v
}
fn lib(ctx: &Ctx, s: &str, o: &mut Obs) {
    for f in [Out::Cp, Out::U8, Out::U16, Out::Esc, Out::EscAll, Out::EscCtl] {
        ctx.eval(1);
        let Some(got) = ctx.call(&format!("writer {:?}", f), s, || write(f, s)) else { continue };
        let Ok(got) = String::from_utf8(got) else {
            ctx.fail(format!("writer:{:?}:not UTF-8", f), format!("input: {}", cps(s)));
            continue;
        };
        if let Some(w) = wrong(f, s, &got) {
            ctx.fail(format!("writer:{:?}:{}", f, cps(s)), format!("{:?} written as {:?}: {}", s, got, w));
        }
        let back = match f {
            Out::Cp => parsers::codepoints,
            Out::U8 => parsers::utf8_hex,
            Out::U16 => parsers::utf16_hex,
            _ => continue,
        };
        if let Some(b) = ctx.call(&format!("reader {:?}", f), &got, || back(&got)) {
            ctx.check(b == s, || format!("round trip:{:?}:{}", f, cps(s)), || format!("{:?} written as {:?}, read back as {:?}", s, got, b));
        }
        o.add("texts written and read back by the library", 1);
    }
}
fn lenient(ctx: &Ctx, g: &mut Rng, s: &str, o: &mut Obs) {
    for form in 0..3 {
        let t = spell(g, s, form);
        ctx.eval(1);
        let f = [parsers::codepoints, parsers::utf8_hex, parsers::utf16_hex][form];
        if let Some(b) = ctx.call(&format!("reader {}", form), &t, || f(&t)) {
            ctx.check(b == s, || format!("reading:{}:{}", form, cps(s)), || format!("{:?} read as {:?} instead of {:?}", t, b, s));
        }
        o.add("spellings read by the library", 1);
    }
}
/// What stands for no text must be refused, not read as something else.
fn refuse(ctx: &Ctx, g: &mut Rng, o: &mut Obs) {
    let good = text(g, 6, true);
    let (form, bad) = match g.below(8) {
        0 => (0, format!("{:X}", 0xD800 + g.below(0x800))),
        1 => (0, format!("U+{:X}", 0x110000 + g.below(0x10000))),
        2 => (0, format!("U+{:X}00000000", 1 + g.below(9))),
        3 => (1, format!("0x{:X}", 0x100 + g.below(0x1000))),
        4 => (1, ["C0 80", "ED A0 80", "F4 90 80 80", "80", "C3", "E2 82", "FF", "F8 88 80 80 80"][g.below(8)].into()),
        5 => (2, format!("0x{:X}", 0xD800 + g.below(0x400)) + if g.chance(1, 2) { " 0041" } else { "" }),
        6 => (2, format!("0x{:X}", 0xDC00 + g.below(0x400))),
        _ => (g.below(3), ["zz", "4G", "U+-1", "0x", "U+", "_41"][g.below(6)].into()),
    };
    let mut t = spell(g, &good, form);
    t = match g.below(3) {
        0 => bad,
        1 if !t.is_empty() => format!("{} {}", t, bad),
        _ if !t.is_empty() => format!("{} {}", bad, t),
        _ => bad,
    };
    ctx.eval(1);
    let f = [parsers::codepoints, parsers::utf8_hex, parsers::utf16_hex][form];
    if let Outcome::Ok(v) = ctx.guard(&t, || f(&t)) {
        // a truncated sequence may have been completed by what follows
        let fits = match form {
            0 => false,
            1 => t.replace("0x", "").replace("0X", "").split([' ', ',']).map(|x| u8::from_str_radix(x, 16).ok()).collect::<Option<Vec<_>>>().map_or(false, |b| String::from_utf8(b).ok() == Some(v.clone())),
            _ => t.replace("0x", "").replace("0X", "").split([' ', ',']).map(|x| u16::from_str_radix(x, 16).ok()).collect::<Option<Vec<_>>>().map_or(false, |b| String::from_utf16(&b).ok() == Some(v.clone())),
        };
        ctx.check(fits, || format!("not refused:{}:{}", form, t), || format!("{:?} does not stand for any text but was read as {:?}", t, v));
    } else {
        o.add("malformed inputs refused", 1);
    }
}

// ---- the programs ----
struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}
fn exec(bin: &str, args: &[String]) -> std::io::Result<Ran> {
    let mut ch = Command::new(bin).args(args).env("RUST_BACKTRACE", "0").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn()?;
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut v = vec![];
        so.read_to_end(&mut v).map(|_| v)
    });
    let mut e = vec![];
    se.read_to_end(&mut e)?;
    let out = h.join().unwrap()?;
    Ok(Ran { code: ch.wait()?.code(), out, err: String::from_utf8_lossy(&e).chars().take(300).collect() })
}
fn echo(ctx: &Ctx, bin: &str, args: &[String], newline: bool, o: &mut Obs) -> Option<String> {
    ctx.eval(1);
    let r = match exec(bin, args) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("HARNESS-ERROR cannot run {}: {}", bin, e);
            ctx.harness_fail();
            return None;
        }
    };
    o.add("unic-echo processes", 1);
    if r.code != Some(0) {
        ctx.fail(format!("echo:failed:{:?}", args), format!("unic-echo {:?} ended with {:?}: {}", args, r.code, r.err));
        return None;
    }
    let Ok(mut s) = String::from_utf8(r.out) else {
        ctx.fail(format!("echo:not UTF-8:{:?}", args), format!("unic-echo {:?} wrote invalid UTF-8", args));
        return None;
    };
    if newline && s.pop() != Some('\n') {
        ctx.fail(format!("echo:no newline:{:?}", args), format!("unic-echo {:?}: the output does not end in a newline", args));
        return None;
    }
    Some(s)
}
/// Cuts at some of its spaces, so that the program has to join the arguments again.
fn cut(g: &mut Rng, s: &str) -> Vec<String> {
    let mut v = vec![String::new()];
    // (one argument has at most 128 KiB)
    let p = if s.len() > 100_000 { 1 } else { g.below(3) };
    for c in s.chars() {
        if c == ' ' && (p == 1 || p == 2 && g.chance(1, 2)) {
            v.push(String::new());
        } else {
            v.last_mut().unwrap().push(c);
        }
    }
    v
}
fn programs(ctx: &Ctx, echo_bin: &str, g: &mut Rng, s: &str, o: &mut Obs) {
    let nul = s.contains('\0');
    let form = if nul { 1 + g.below(3) } else { g.below(4) };
    let input = match form {
        0 => s.to_string(),
        _ if g.chance(1, 2) => spell(g, s, form - 1),
        1 => enc_cp(s),
        2 => enc_8(s),
        _ => enc_16(s),
    };
    let (oname, of) = OUTS[g.below(OUTS.len())];
    let mut args: Vec<String> = vec![];
    let iname = [["plain", "plain"], ["codepoints", "codepoint"], ["utf8-hex", "utf8-hex"], ["utf16-hex", "utf16-hex"]][form][g.below(2)];
    if form != 0 || g.chance(1, 2) {
        args.extend(match g.below(3) {
            0 => vec!["-i".to_string(), iname.into()],
            1 => vec!["--input".to_string(), iname.into()],
            _ => vec![format!("--input={}", iname)],
        });
    }
    if of != Out::Plain || g.chance(1, 2) {
        args.extend(match g.below(3) {
            0 => vec!["-o".to_string(), oname.into()],
            1 => vec!["--output".to_string(), oname.into()],
            _ => vec![format!("--output={}", oname)],
        });
    }
    let newline = g.chance(2, 3);
    if !newline {
        args.push(["-n", "--no-newline"][g.below(2)].into());
    }
    args.push("--".into());
    args.extend(cut(g, &input));
    let Some(out) = echo(ctx, echo_bin, &args, newline, o) else { return };
    o.add(&format!("{} to {}", ["plain", "code points", "UTF-8", "UTF-16"][form], oname), 1);
    if let Some(w) = wrong(of, s, &out) {
        ctx.fail(format!("echo:{}:{}:{}", form, oname, cps(s)), format!("unic-echo {:?} wrote {:?}: {}", args, out.chars().take(300).collect::<String>(), w));
        return;
    }
    // and back
    let back = match of {
        Out::Plain if !nul => "plain",
        Out::Cp => "codepoints",
        Out::U8 => "utf8-hex",
        Out::U16 => "utf16-hex",
        _ => return,
    };
    let mut args: Vec<String> = vec!["-n".into(), "-i".into(), back.into(), "--".into()];
    args.extend(cut(g, &out));
    if let Some(again) = echo(ctx, echo_bin, &args, false, o) {
        ctx.check(again == s, || format!("echo:back:{}:{}", oname, cps(s)), || format!("{:?}, written as {:?}, reads back as {:?}", s, out, again));
        o.add("outputs read back by the program", 1);
    }
}
fn inspector(ctx: &Ctx, bin: &str, g: &mut Rng, s: &str, o: &mut Obs) {
    let mut args: Vec<String> = vec!["--".into()];
    args.extend(cut(g, s));
    ctx.eval(1);
    let r = match exec(bin, &args) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("HARNESS-ERROR cannot run {}: {}", bin, e);
            ctx.harness_fail();
            return;
        }
    };
    o.add("unic-inspector processes", 1);
    if r.code != Some(0) {
        ctx.fail(format!("inspector:failed:{}", cps(s)), format!("unic-inspector {:?} ended with {:?}: {}", args, r.code, r.err));
        return;
    }
    let Ok(t) = String::from_utf8(r.out) else {
        ctx.fail(format!("inspector:not UTF-8:{}", cps(s)), "invalid UTF-8".to_string());
        return;
    };
    // rows end in a newline that belongs to the table, and a newline character shows as an empty cell
    let mut rows: Vec<&str> = t.split('\n').collect();
    if rows.pop() != Some("") && !s.is_empty() {
        ctx.fail(format!("inspector:last row:{}", cps(s)), format!("{:?} is not a sequence of complete rows", t));
        return;
    }
    // lines without any cell content continue the row above (a newline in its first cell)
    rows.retain(|r| !r.replace('|', "").trim().is_empty());
    if rows.len() != s.chars().count() {
        ctx.fail(format!("inspector:rows:{}", cps(s)), format!("{} rows for {} characters ({}):\n{}", rows.len(), s.chars().count(), cps(s), t));
        return;
    }
    for (c, row) in s.chars().zip(rows) {
        let shown = match ctx.call("expected row", &c.to_string(), || {
            (Name::of(c).map(|n| n.to_string()).or_else(|| name_aliases_of(c, NameAliasType::NameAbbreviations).map(|a| a[0].to_string())).unwrap_or("<none>".into()), GeneralCategory::of(c).long_name())
        }) {
            Some(x) => x,
            None => return,
        };
        // from the right: the first cell may contain the separator itself
        let p: Vec<&str> = row.rsplitn(4, '|').map(|x| x.trim_matches(' ')).collect();
        let ok = p.len() == 4
            && p[0] == shown.1
            && p[1] == shown.0
            && p[2] == format!("U+{:04X}", c as u32)
            && match c {
                ' ' => p[3].is_empty(),
                '\n' => p[3].is_empty(),
                c => p[3] == c.to_string(),
            };
        ctx.check(ok, || format!("inspector:U+{:04X}", c as u32), || format!("row for U+{:04X} ({:?}, {}): {:?}", c as u32, shown.0, shown.1, row));
        o.add("rows", 1);
    }
}

pub fn c33(ctx: &Ctx) {
    ctx.rule("a text and a pair of input and output forms run through the real program (arguments, standard output, exit status) or the library's codecs, compared with codecs written in the monitor, and read back; a text inspected, every row compared with the character; non-trivial: distinct texts");
    ctx.assume("the inspector's names and categories are compared with the library's answers in the same build (C28 and C03 judge those); NUL cannot be passed in an argument, so it appears only in the hexadecimal forms");
    let (Ok(eb), Ok(ib)) = (std::env::var("VERIF_ECHO"), std::env::var("VERIF_INSPECTOR")) else {
        eprintln!("HARNESS-ERROR the programs are not built");
        ctx.harness_fail();
        return;
    };
    let total = Mutex::new(Obs::default());
    let merge = |o: Obs| {
        let mut t = total.lock().unwrap();
        for (k, v) in o.0 {
            t.add(&k, v);
        }
    };
    // the library: every scalar value, alone and in its block; spellings; malformed inputs
    par(0x1100, |b| {
        let mut o = Obs::default();
        let block: String = (0..0x100u32).filter_map(|i| char::from_u32(b as u32 * 0x100 + i)).collect();
        for c in block.chars() {
            lib(ctx, &c.to_string(), &mut o);
            ctx.distinct_n(1);
        }
        lib(ctx, &block, &mut o);
        merge(o);
    });
    par(64, |i| {
        let mut o = Obs::default();
        let mut g = Rng::new(ctx.seed, 0x330, i);
        for k in 0..ctx.n(1000, 60_000) {
            let s = text(&mut g, if k % 100 == 0 { 3000 } else { 30 }, true);
            lib(ctx, &s, &mut o);
            lenient(ctx, &mut g, &s, &mut o);
            refuse(ctx, &mut g, &mut o);
            ctx.distinct(fnv(s.as_bytes()));
        }
        merge(o);
    });
    // the programs
    par(64, |i| {
        let mut o = Obs::default();
        let mut g = Rng::new(ctx.seed, 0x331, i);
        for k in 0..ctx.n(120, 4000) {
            let s = text(&mut g, if k % 40 == 7 { 1500 } else { 20 }, true);
            programs(ctx, &eb, &mut g, &s, &mut o);
            ctx.distinct(fnv(s.as_bytes()));
            if k % 4 == 0 {
                let s = text(&mut g, if k % 40 == 8 { 1500 } else { 20 }, false);
                inspector(ctx, &ib, &mut g, &s, &mut o);
            }
            if ctx.too_many() {
                break;
            }
        }
        merge(o);
    });
    // long texts: past the sizes of pipe and output buffers
    par(ctx.n(24, 400), |i| {
        let mut o = Obs::default();
        let mut g = Rng::new(ctx.seed, 0x334, i);
        let s = text(&mut g, 10_000, true);
        lib(ctx, &s.repeat(8), &mut o);
        lenient(ctx, &mut g, &s.repeat(8), &mut o);
        programs(ctx, &eb, &mut g, &s, &mut o);
        if i % 4 == 0 {
            let s: String = s.chars().filter(|c| *c != '\0').take(4000).collect();
            inspector(ctx, &ib, &mut g, &s, &mut o);
        }
        ctx.distinct(fnv(s.as_bytes()));
        o.add("long texts", 1);
        merge(o);
    });
    // every scalar value through the inspector (all of those with distinguishing properties when quick)
    par(0x1100, |b| {
        let mut o = Obs::default();
        let mut g = Rng::new(ctx.seed, 0x332, b);
        let dull = b > 0x1F && !ctx.thorough() && b % 16 != ctx.seed % 16 && (b >= 0x200 || (0x34..0xA0).contains(&b) || (0xAC..0xD7).contains(&b) || (0xE0..0xF9).contains(&b));
        if !dull {
            let block: String = (0..0x100u32).filter_map(|i| char::from_u32(b as u32 * 0x100 + i)).filter(|c| *c != '\0').collect();
            if !block.is_empty() {
                inspector(ctx, &ib, &mut g, &block, &mut o);
            }
        }
        merge(o);
    });
    // fixed points of the interface: no text at all, and the spellings of the manual
    let mut o = Obs::default();
    let mut g = Rng::new(ctx.seed, 0x333, 0);
    for (args, nl, want) in [
        (vec![], true, ""),
        (vec!["-n"], false, ""),
        (vec![""], true, ""),
        (vec!["a", "", "b"], true, "a  b"),
        (vec!["-i", "codepoints"], true, ""),
        (vec!["-i", "utf8-hex", ""], true, ""),
        (vec!["-i", "utf16-hex", ""], true, ""),
        (vec!["-o", "codepoints"], true, ""),
        (vec!["-o", "utf8-hex", "-n"], false, ""),
        (vec!["-o", "utf16-hex"], true, ""),
        (vec!["-o", "rust-escape"], true, "\"\""),
        (vec!["-i", "codepoints", "U+0", "U+20", "U+41", "U+A0", "-o", "rust-escape"], true, "\"\\u{0} A\\u{a0}\""),
        (vec!["Hello", "\u{633}\u{644}", "-o", "codepoints"], true, "U+0048 U+0065 U+006C U+006C U+006F U+0020 U+0633 U+0644"),
    ] {
        let args: Vec<String> = args.into_iter().map(String::from).collect();
        if let Some(got) = echo(ctx, &eb, &args, nl, &mut o) {
            ctx.check(got == want, || format!("echo:manual:{:?}", args), || format!("unic-echo {:?} wrote {:?} instead of {:?}", args, got, want));
        }
    }
    inspector(ctx, &ib, &mut g, "", &mut o);
    merge(o);
    ctx.obs_all(&total.into_inner().unwrap());
    ctx.sample(|| "unic-echo --input=utf16-hex -o js6-escape -n -- d83d,0xDE00 00041".into());
}
