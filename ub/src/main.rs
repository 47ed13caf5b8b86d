//! Workload for Miri (and plain runs): every operation whose safety rests on arithmetic, and every
//! algorithm of the library on small hostile texts. `ub SECTION SEED SIZE`; prints one line
//! `OBS key count` per counter. Panics of the code under test are counted, not judged (C31 does).
#[path = "../../harness/src/ops.rs"]
#[allow(dead_code)]
mod ops;
#[path = "../../harness/src/rng.rs"]
#[allow(dead_code)]
mod rng;
use rayon::prelude::*;
use rng::Rng;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use unic_char_range::{chars, CharIter, CharRange};

thread_local! {
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
struct Out {
    obs: BTreeMap<String, u64>,
}
impl Out {
    fn add(&mut self, k: &str, n: u64) {
        *self.obs.entry(k.into()).or_insert(0) += n;
    }
    /// Runs code under test; invalid values it reports are undefined behaviour.
    fn run<T>(&mut self, what: &str, case: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.add(what, 1);
        let was = GUARDED.with(|g| g.replace(true));
        let r = catch_unwind(AssertUnwindSafe(f));
        GUARDED.with(|g| g.set(was));
        match r {
            Ok(v) => Some(v),
            Err(_) => {
                self.add("panics (judged by C31)", 1);
                let _ = case;
                None
            }
        }
    }
    fn chk(&mut self, what: &str, c: char) {
        self.add("characters checked for validity", 1);
        if !ops::valid(c) {
            println!("INVALID char {:#x} from {}", c as u32, what);
            std::process::exit(1);
        }
    }
}

const EDGE: [u32; 22] = [0, 1, 2, 3, 0x7E, 0x7F, 0x80, 0xD7FB, 0xD7FC, 0xD7FD, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xE002, 0xE003, 0xFFFF, 0x10000, 0x10FFFC, 0x10FFFD, 0x10FFFE, 0x10FFFF];
fn edge(g: &mut Rng) -> char {
    char::from_u32(EDGE[g.below(EDGE.len())]).unwrap()
}
fn near(g: &mut Rng, c: char, w: u32) -> char {
    let up = c as u32 + g.below(w as usize) as u32;
    char::from_u32(up).unwrap_or_else(|| char::from_u32(up + 0x800).unwrap_or(char::MAX))
}

fn range(o: &mut Out, g: &mut Rng, n: usize) {
    for _ in 0..n {
        let a = edge(g);
        let b = if g.chance(1, 6) { edge(g) } else { near(g, a, 24) };
        let r = match g.below(5) {
            0 => CharRange::open(a, b),
            1 => CharRange::open_left(a, b),
            2 => CharRange::open_right(a, b),
            _ => CharRange::closed(a, b),
        };
        let case = format!("{:?}", r);
        // whole ranges only where the interpreter can afford it
        let short = (b as u32).wrapping_sub(a as u32) < 3000;
        if let Some(v) = o.run("range histories", &case, || {
            let mut it = r.iter();
            let mut v = vec![];
            for _ in 0..g.below(40) {
                let x = match g.below(8) {
                    0 | 1 | 2 => it.next(),
                    3 | 4 | 5 => it.next_back(),
                    6 => it.nth(g.below(3)),
                    _ => it.nth_back(g.below(3)),
                };
                v.extend(x);
                let rest = CharRange::from(it.clone());
                v.extend([rest.low, rest.high]);
                std::hint::black_box((it.len(), it.size_hint(), rest.len(), rest.is_empty()));
                v.extend(it.clone().last());
                v.extend(it.clone().min());
                v.extend(it.clone().max());
            }
            v
        }) {
            for c in v {
                o.chk("range iteration", c);
            }
        }
        if short {
            if let Some(v) = o.run("range collected", &case, || {
                let mut it = r.iter();
                for _ in 0..g.below(3) {
                    it.next();
                    it.next_back();
                }
                // Vec relies on the announced length when TrustedLen is on
                let mut v: Vec<char> = it.clone().collect();
                v.extend(it.clone().rev());
                let mut w: Vec<char> = Vec::with_capacity(1);
                w.extend(it.clone());
                w.extend(it.clone().rev());
                let s: String = it.clone().collect();
                v.extend(s.chars());
                v.extend(w);
                let bx: Box<[char]> = it.clone().collect();
                v.extend(bx.iter());
                v.extend(it.clone().zip(it.clone().rev()).map(|x| x.1));
                v.extend(r);
                v
            }) {
                for c in v {
                    o.chk("collected range", c);
                }
            }
        }
    }
    if let Some(v) = o.run("macro ranges", "", || {
        let mut v: Vec<char> = chars!('\u{D7FE}'..'\u{E001}').iter().collect();
        v.extend(chars!('\u{10FFFE}'..='\u{10FFFF}'));
        v.extend(CharIter::from(CharRange::all()).take(3));
        v.extend(CharRange::all().iter().rev().take(3));
        v.extend(CharRange::assigned_normal_planes().iter().rev().take(3));
        v
    }) {
        for c in v {
            o.chk("macro range", c);
        }
    }
}

fn par(o: &mut Out, g: &mut Rng, n: usize) {
    for _ in 0..n {
        let a = edge(g);
        let b = near(g, a, 12);
        let r = CharRange::closed(a, b);
        let threads = 2 + g.below(2);
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        if let Some((v, w)) = o.run("parallel iterations", &format!("{:?}", r), || {
            pool.install(|| {
                let v: Vec<char> = r.into_par_iter().collect();
                let w = std::sync::Mutex::new(vec![]);
                (&r).into_par_iter().rev().with_max_len(1 + threads).for_each(|c| w.lock().unwrap().push(c));
                let x: Vec<char> = r.into_par_iter().chunks(2).flatten_iter().collect();
                let mut w = w.into_inner().unwrap();
                w.extend(x);
                w.extend(r.into_par_iter().max());
                (v, w)
            })
        }) {
            for c in v.into_iter().chain(w) {
                o.chk("parallel iteration", c);
            }
        }
    }
}

fn hangul(o: &mut Out, g: &mut Rng, n: usize) {
    use unic_ucd_hangul::*;
    let e = [0u32, 0x41, 0x10FF, 0x1100, 0x1101, 0x1112, 0x1113, 0x1160, 0x1161, 0x1162, 0x1175, 0x1176, 0x11A6, 0x11A7, 0x11A8, 0x11A9, 0x11C1, 0x11C2, 0x11C3, 0xABFF, 0xAC00, 0xAC01, 0xAC1B, 0xAC1C, 0xAC1D, 0xD787, 0xD788, 0xD789, 0xD7A2, 0xD7A3, 0xD7A4, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF];
    let e: Vec<char> = e.iter().map(|u| char::from_u32(*u).unwrap()).collect();
    let mut v: Vec<(char, char)> = vec![];
    for a in &e {
        for b in &e {
            v.push((*a, *b));
        }
    }
    for _ in 0..n {
        let c = char::from_u32(0xAC00 + g.below(11172 + 40) as u32).unwrap();
        let any = char::from_u32(g.below(0x110000) as u32).unwrap_or('a');
        v.extend([(c, e[g.below(e.len())]), (any, c), (c, any), (any, any)]);
    }
    for (a, b) in v {
        if let Some(x) = o.run("syllables decomposed and composed", "", || {
            let mut x = vec![];
            decompose_syllable(a, &mut |c| x.push(c));
            x.extend(compose_syllable(a, b));
            x.extend(unic_ucd_normal::compose(a, b));
            unic_ucd_normal::decompose_canonical(a, |c| x.push(c));
            x
        }) {
            for c in x {
                o.chk("Hangul arithmetic", c);
            }
        }
    }
}

const POOLS: [&str; 13] = [
    "\u{1F1E6}\u{1F1FF}\u{200D}\u{301}a",
    "\u{300}\u{301}\u{327}\u{345}\u{3099}\u{1D165}a\u{1100}\u{1161}\u{11A8}",
    "\u{202A}\u{202B}\u{202C}\u{202D}\u{202E}\u{2066}\u{2067}\u{2068}\u{2069}a\u{5D0}1\n",
    "xn--9az.-\u{3002}\u{FC}",
    "\u{1F466}\u{1F3FB}\u{200D}\u{2764}\u{1F48B}\u{FE0F}",
    "\u{FDFA}\u{FB2C}\u{1D160}\u{390}\u{1F82}\u{AC01}\u{2F868}",
    "\u{0}\u{D7FF}\u{E000}\u{FFFF}\u{10000}\u{10FFFF}\u{7F}\u{80}",
    "'\":.,_\u{5D0}a1\u{30A2}\u{AD}\u{200D}\r\n",
    "\u{661}1+,#$\u{644}\u{5D0}\u{300}\u{AD}\t \u{2029}",
    "abcxyz0129--..",
    "\u{7F}\u{80}\u{FF}\u{100}az-",
    "\u{FB1D}\u{FB31}\u{1100}\u{1161}\u{11A7}\u{11A8}\u{AC00}\u{11C2}",
    "\u{41}\u{DF}\u{130}\u{3A3}\u{1E9E}\u{200C}\u{AD}",
];
fn text(g: &mut Rng, max: usize) -> String {
    let p: Vec<char> = POOLS[g.below(POOLS.len())].chars().collect();
    let n = if g.chance(1, 12) { max * 3 } else { g.below(max + 1) };
    let mut s = String::from(["", "", "", "xn--", "\u{5D0}", "a-"][g.below(6)]);
    for _ in 0..n {
        if g.chance(1, 15) {
            s.extend(char::from_u32(g.below(0x110000) as u32));
        } else {
            s.push(p[g.below(p.len())]);
        }
    }
    s
}

fn algo(o: &mut Out, g: &mut Rng, n: usize) {
    for i in 0..n {
        let s = text(g, 10);
        for (k, op) in ops::OPS.iter().enumerate() {
            // the heavy ones on every fourth text
            if matches!(op.name, "idna" | "character properties" | "property value parsing") && (i + k) % 4 != 0 {
                continue;
            }
            if let Some(Err(e)) = o.run(op.name, &s, || (op.f)(&s)) {
                if e.starts_with("INVALID") {
                    println!("{} from {} of {:?}", e, op.name, s);
                    std::process::exit(1);
                }
            }
        }
    }
}

fn puny(o: &mut Out, g: &mut Rng, n: usize) {
    for _ in 0..n {
        let s = text(g, 24);
        for op in ops::OPS.iter().filter(|o| o.name.starts_with("punycode")) {
            if let Some(Err(e)) = o.run(op.name, &s, || (op.f)(&s)) {
                if e.starts_with("INVALID") {
                    println!("{} from {} of {:?}", e, op.name, s);
                    std::process::exit(1);
                }
            }
        }
    }
}

fn chars(o: &mut Out, g: &mut Rng, n: usize) {
    for _ in 0..n {
        let Some(c) = char::from_u32(match g.below(4) {
            0 => g.below(0x110000),
            1 => g.below(0x3100),
            2 => EDGE[g.below(EDGE.len())] as usize,
            _ => g.below(0x20000),
        } as u32) else { continue };
        if let Some(Err(e)) = o.run("characters inspected", "", || ops::of_char(c)) {
            if e.starts_with("INVALID") {
                println!("{} for U+{:04X}", e, c as u32);
                std::process::exit(1);
            }
        }
    }
}

/// Several threads at once, for the race detector of the interpreter.
fn threads(o: &mut Out, g: &mut Rng, n: usize) {
    for _ in 0..n {
        let t: Vec<String> = (0..2).map(|_| text(g, 6)).collect();
        let b = unic_bidi::BidiInfo::new(&t[0], None);
        let k = g.below(ops::OPS.len());
        let c = char::from_u32(g.below(0x20000) as u32).unwrap_or('a');
        o.run("texts on concurrent threads", "", || {
            std::thread::scope(|sc| {
                for i in 0..3 {
                    let (t, b) = (&t, &b);
                    sc.spawn(move || {
                        std::hint::black_box((ops::OPS[k].f)(&t[0])).ok();
                        std::hint::black_box(ops::bidi_read(b, &t[0])).ok();
                        std::hint::black_box((ops::OPS[(k + i) % ops::OPS.len()].f)(&t[1])).ok();
                        std::hint::black_box(ops::of_char(c)).ok();
                    });
                }
            })
        });
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (sec, seed, n) = (a[1].as_str(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let mut g = Rng::new(seed, 0x300 + sec.len() as u64, sec.as_bytes()[0] as u64);
    let mut o = Out { obs: BTreeMap::new() };
    std::panic::set_hook(Box::new(|i| {
        if !GUARDED.with(|g| g.get()) {
            println!("DRIVER PANIC {}", i);
        }
    }));
    match sec {
        "range" => range(&mut o, &mut g, n),
        "par" => par(&mut o, &mut g, n),
        "hangul" => hangul(&mut o, &mut g, n),
        "algo" => algo(&mut o, &mut g, n),
        "puny" => puny(&mut o, &mut g, n),
        "chars" => chars(&mut o, &mut g, n),
        "threads" => threads(&mut o, &mut g, n),
        _ => {}
    }
    for (k, v) in &o.obs {
        println!("OBS {}\t{}", k, v);
    }
    println!("DONE {}", sec);
}
