//! Answers the same questions in every build configuration: `cfgs FILE SEED HISTORIES EVERY PART PARTS`
//! reads texts (one per line, as hexadecimal UTF-8) and prints one line of digests for every EVERY-th block
//! of characters (0: none), every text and every range or level history that falls to PART; `cfgs chars LO
//! HI` prints them character by character. /verif/harness/src/configs.rs compares the lines of differently
//! built programs.
#![cfg_attr(feature = "unstable", feature(exact_size_is_empty))]
#[path = "../../harness/src/ops.rs"]
#[allow(dead_code)]
mod ops;
#[path = "../../harness/src/rng.rs"]
#[allow(dead_code)]
mod rng;
use ops::D;
use rng::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use unic_char_property::*;
use unic_char_range::{chars, CharIter, CharRange};

fn ask(f: impl FnOnce() -> ops::Res) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(d)) => format!("{:016x}", d),
        Ok(Err(e)) => format!("error:{}", e.replace([' ', '\n', '\t'], "_").chars().take(120).collect::<String>()),
        Err(_) => "panic".into(),
    }
}
/// The character once more, through traits and tables.
fn of_char(c: char) -> ops::Res {
    let mut d = D::new();
    d.add(&ops::of_char(c)?);
    fn b<P: BinaryCharProperty + TotalCharProperty + std::fmt::Display>(d: &mut D, c: char) {
        let p = <P as TotalCharProperty>::of(c);
        d.add(&p.as_bool());
        d.add(&<P as PartialCharProperty>::of(c).map(|x| x.as_bool()));
        d.add(p.human_name());
    }
    b::<unic_ucd_case::Lowercase>(&mut d, c);
    b::<unic_ucd_case::CaseIgnorable>(&mut d, c);
    b::<unic_ucd_common::Alphabetic>(&mut d, c);
    b::<unic_ucd_common::WhiteSpace>(&mut d, c);
    b::<unic_ucd_bidi::BidiMirrored>(&mut d, c);
    b::<unic_emoji_char::Emoji>(&mut d, c);
    d.add(&<unic_ucd_category::GeneralCategory as TotalCharProperty>::of(c));
    d.add(&<unic_ucd_bidi::BidiClass as TotalCharProperty>::of(c).abbr_name());
    d.add(unic_ucd_normal::CanonicalCombiningClass::of(c).to_string().as_str());
    d.add(&format!("{:>9}|{:?}", unic_char_basics::unicode_notation(c).to_string(), unic_ucd_age::Age::of(c).map(|a| a.actual().to_string())));
    Ok(d.end())
}
const EDGE: [u32; 22] = [0, 1, 2, 3, 0x7E, 0x7F, 0x80, 0xD7FB, 0xD7FC, 0xD7FD, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xE002, 0xE003, 0xFFFF, 0x10000, 0x10FFFC, 0x10FFFD, 0x10FFFE, 0x10FFFF];
fn edge(g: &mut Rng) -> char {
    char::from_u32(EDGE[g.below(EDGE.len())]).unwrap()
}
fn range(g: &mut Rng) -> ops::Res {
    let a = edge(g);
    let b = if g.chance(1, 3) {
        edge(g)
    } else {
        let up = a as u32 + g.below(40) as u32;
        char::from_u32(up).unwrap_or_else(|| char::from_u32(up + 0x800).unwrap_or(char::MAX))
    };
    let r = match g.below(7) {
        0 => CharRange::open(a, b),
        1 => CharRange::open_left(a, b),
        2 => CharRange::open_right(a, b),
        3 => chars!(a..b),
        4 => chars!(a..=b),
        _ => CharRange::closed(a, b),
    };
    let mut d = D::new();
    d.add(&(r.len(), r.is_empty(), r.contains(a), r.contains(b), r == CharRange::closed(a, b)));
    if !r.is_empty() {
        d.dbg(&r.cmp_char(edge(g)));
    }
    let mut it = r.iter();
    for _ in 0..g.below(60) {
        d.add(&match g.below(9) {
            0 | 1 | 2 => it.next(),
            3 | 4 | 5 => it.next_back(),
            6 => it.nth(g.below(30)),
            7 => it.nth_back(g.below(30)),
            _ => it.clone().last(),
        });
        d.add(&(it.len(), it.size_hint(), it.clone().min(), it.clone().max()));
        #[cfg(feature = "unstable")]
        if ExactSizeIterator::is_empty(&it) != (it.len() == 0) {
            return Err("is_empty of an iterator contradicts its length".into());
        }
        let q = CharRange::from(it.clone());
        d.add(&(q.len(), q.is_empty()));
    }
    if r.len() < 400 {
        d.add(&r.iter().collect::<Vec<char>>());
        d.add(&r.iter().rev().collect::<String>());
        d.add(&r.iter().fold(0u64, |x, c| x.wrapping_mul(31).wrapping_add(c as u64)));
        d.add(&r.iter().rfold(0u64, |x, c| x.wrapping_mul(31).wrapping_add(c as u64)));
        d.add(&CharIter::from(r).skip(3).step_by(2).count());
    }
    Ok(d.end())
}
#[cfg(feature = "rayon")]
fn parallel(g: &mut Rng) -> ops::Res {
    use rayon::prelude::*;
    let a = edge(g);
    let up = a as u32 + g.below(3000) as u32;
    let r = CharRange::closed(a, char::from_u32(up).unwrap_or_else(|| char::from_u32(up + 0x800).unwrap_or(char::MAX)));
    let v: Vec<char> = r.into_par_iter().collect();
    let mut w = vec![];
    (&r).into_par_iter().rev().collect_into_vec(&mut w);
    if v != r.iter().collect::<Vec<_>>() || w != r.iter().rev().collect::<Vec<_>>() {
        return Err("parallel iteration differs from sequential iteration".into());
    }
    let mut d = D::new();
    d.add(&(v, w));
    Ok(d.end())
}
fn level(g: &mut Rng) -> ops::Res {
    use unic_bidi::level::*;
    let mut d = D::new();
    let mut l = match g.below(4) {
        0 => Level::ltr(),
        1 => Level::rtl(),
        2 => Level::new_explicit(g.below(256) as u8).unwrap_or(Level::ltr()),
        _ => Level::new(g.below(256) as u8).unwrap_or(Level::rtl()),
    };
    for _ in 0..g.below(40) {
        let n = if g.chance(1, 2) { g.below(4) } else { g.below(256) } as u8;
        let e = match g.below(4) {
            0 => l.raise(n).is_ok(),
            1 => l.raise_explicit(n).is_ok(),
            2 => l.lower(n).is_ok(),
            _ => l.new_explicit_next_ltr().map(|x| l = x).is_ok(),
        };
        d.add(&(e, l.number(), l.is_ltr(), l.is_rtl(), l.new_lowest_ge_rtl().map(|x| x.number()).ok(), l.new_explicit_next_rtl().map(|x| x.number()).ok()));
    }
    Ok(d.end())
}
/// Numbers near the end of 32 bits, where the decoder has to stop.
fn puny(g: &mut Rng) -> ops::Res {
    let mut d = D::new();
    for _ in 0..20 {
        let mut s = if g.chance(1, 2) { String::new() } else { "a".repeat(g.below(8)) + "-" };
        let pool: &[u8] = *g.pick(&[b"01234" as &[u8], b"0", b"56789", b"yz0189", b"abz09"]);
        for _ in 0..g.range(2, 12) {
            s.push(*g.pick(pool) as char);
        }
        s.push(*g.pick(b"abcmpyz09") as char);
        if g.chance(1, 4) {
            s.push(*g.pick(b"abcz09") as char);
        }
        d.add(&unic_idna_punycode::decode_to_string(&s));
    }
    Ok(d.end())
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "chars" {
        for u in a[2].parse::<u32>().unwrap()..a[3].parse().unwrap() {
            if let Some(c) = char::from_u32(u) {
                println!("{:04X} {}", u, ask(|| of_char(c)));
            }
        }
        return;
    }
    let texts: Vec<String> = std::fs::read_to_string(&a[1])
        .unwrap()
        .lines()
        .map(|l| String::from_utf8((0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect()).unwrap())
        .collect();
    let seed: u64 = a[2].parse().unwrap();
    let hist: usize = a[3].parse().unwrap();
    let num = |i: usize, d: usize| a.get(i).map_or(d, |x| x.parse().unwrap());
    let (every, part, parts) = (num(4, 1), num(5, 0), num(6, 1));
    let blocks = if every == 0 { 0 } else { 0x110000 / 64 };
    let total = blocks + texts.len() + hist;
    let next = AtomicUsize::new(0);
    let out = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..if cfg!(miri) { 1 } else { std::thread::available_parallelism().map_or(8, |n| n.get()) } {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    let mut mine = vec![];
                    loop {
                        let from = next.fetch_add(16, Relaxed);
                        if from >= total {
                            break;
                        }
                        for i in from..(from + 16).min(total) {
                            if i % parts != part || i < blocks && (i / parts) % every != seed as usize % every {
                                continue;
                            }
                            let l = if i < blocks {
                                let u = 64 * i as u32;
                                let mut d = D::new();
                                for c in (u..u + 64).filter_map(char::from_u32) {
                                    d.add(&ask(|| of_char(c)));
                                }
                                format!("chars {:X} all={:016x}", u, d.end())
                            } else if i < blocks + texts.len() {
                                let s = &texts[i - blocks];
                                let mut l = format!("text {}", i - blocks);
                                for op in ops::OPS {
                                    l += &format!(" {}={}", op.name.replace(' ', "_"), ask(|| (op.f)(s)));
                                }
                                l
                            } else {
                                let k = (i - blocks - texts.len()) as u64;
                                let mut l = format!("history {}", k);
                                let mut g = Rng::new(seed, 0x380, k);
                                l += &format!(" range={}", ask(|| range(&mut g)));
                                let mut g = Rng::new(seed, 0x381, k);
                                l += &format!(" level={}", ask(|| level(&mut g)));
                                let mut g = Rng::new(seed, 0x383, k);
                                l += &format!(" punycode={}", ask(|| puny(&mut g)));
                                #[cfg(feature = "rayon")]
                                if k % 8 == 0 {
                                    let mut g = Rng::new(seed, 0x382, k);
                                    l += &format!(" parallel={}", ask(|| parallel(&mut g)));
                                }
                                l
                            };
                            if cfg!(miri) {
                                // what is there when time runs out counts
                                println!("{}", l);
                            } else {
                                mine.push((i, l));
                            }
                        }
                    }
                    out.lock().unwrap().append(&mut mine);
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort();
    let mut t = String::new();
    for (_, l) in v {
        t += &l;
        t.push('\n');
    }
    t += "DONE\n";
    use std::io::Write;
    std::io::stdout().write_all(t.as_bytes()).unwrap();
}
