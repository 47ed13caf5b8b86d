//! C32: the same question always gets the same answer, whatever was asked before, from whichever
//! thread, and while other threads ask. Also built with ThreadSanitizer, and a small part under Miri.
use crate::ctx::{fnv, Ctx, Obs};
use crate::ops::{bidi_read, of_char, Res, OPS};
use crate::rng::Rng;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Barrier, Mutex};
use unic_bidi::BidiInfo;

/// `T: Send + Sync` as a value, so that losing it is reported instead of breaking this build.
struct Auto<T: ?Sized>(PhantomData<T>);
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> No for T {}
struct AutoSend<T: ?Sized>(PhantomData<T>);
#[allow(dead_code)]
impl<T: ?Sized + Send> AutoSend<T> {
    const SEND: bool = true;
}
#[allow(dead_code)]
impl<T: ?Sized + Sync> Auto<T> {
    const SYNC: bool = true;
}
macro_rules! autos {
    ($ctx:expr, $($t:ty),* $(,)?) => { $(
        $ctx.eval(2);
        $ctx.distinct(fnv(stringify!($t).as_bytes()));
        $ctx.check(<AutoSend<$t>>::SEND, || concat!("not Send: ", stringify!($t)).into(), || concat!(stringify!($t), " cannot be moved to another thread").into());
        $ctx.check(<Auto<$t>>::SYNC, || concat!("not Sync: ", stringify!($t)).into(), || concat!(stringify!($t), " cannot be shared with another thread").into());
        $ctx.obs("public types checked for Send and Sync", 1);
    )* };
}
/// Shares a value with other threads even if its type has lost Sync: the execution then shows why.
struct Force<T>(T);
unsafe impl<T> Sync for Force<T> {}
unsafe impl<T> Send for Force<T> {}

/// One question: an operation of the catalogue on a text, or all properties of a character.
#[derive(Clone)]
enum Q {
    Op(usize, usize),
    Ch(char),
    Shared(usize),
}
struct World {
    texts: Vec<String>,
    infos: Vec<Force<BidiInfo<'static>>>,
}
impl World {
    fn ask(&self, q: &Q) -> Res {
        match q {
            Q::Op(o, t) => (OPS[*o].f)(&self.texts[*t]),
            Q::Ch(c) => of_char(*c),
            Q::Shared(i) => bidi_read(&self.infos[*i].0, self.infos[*i].0.text),
        }
    }
    fn show(&self, q: &Q) -> String {
        match q {
            Q::Op(o, t) => format!("{} of {:?}", OPS[*o].name, self.texts[*t]),
            Q::Ch(c) => format!("properties of U+{:04X}", *c as u32),
            Q::Shared(i) => format!("lines of the shared analysis of {:?}", self.infos[*i].0.text),
        }
    }
}

pub fn c32(ctx: &Ctx) {
        ctx.rule("a question (operation on a text, all properties of a character, lines of a shared bidi analysis) answered again in another order, after other questions, or on another thread while 2-16 threads ask; the digest of the complete answer is compared with the first answer; non-trivial: distinct questions and types");
    ctx.assume("races are observed on the executed schedules only: native stress here, ThreadSanitizer and Miri builds of the same questions in the second stage");
    types(ctx);
    let mut g = Rng::new(ctx.seed, 0x320, 0);
    let mut texts: Vec<String> = vec!["".into(), "a".into(), "e\u{301}\u{327}".into(), "\u{AC00}\u{11A8}\u{1F1E6}\u{1F1E6}\u{1F1E6}".into(), "a\u{5D0}1\u{2067}b\u{2069} \u{661}".into(), "xn--mnchen-3ya.de".into(), "\u{FDFA}\u{DF}.\u{3002}".into()];
    let scale = ctx.n(160, 600) as usize;
    while texts.len() < scale {
        let m = if texts.len() % 10 == 0 { 400 } else { 25 };
        texts.push(match g.below(6) {
            0 => crate::bidi::text(&mut g, m.min(60)),
            1 => crate::normal::random_text(&mut g, m).into_iter().collect(),
            2 => crate::seg::text(crate::seg::Kind::Word, &mut g, m),
            3 => crate::seg::text(crate::seg::Kind::Grapheme, &mut g, m),
            4 => crate::idna::gen_domain(&mut g),
            _ => crate::total::hostile(&mut g, m),
        });
    }
    let shared: Vec<&'static str> = (0..scale / 4).map(|_| &*Box::leak(crate::bidi::text(&mut g, 40).into_boxed_str())).collect();
    let w = World { texts, infos: shared.iter().map(|s| Force(BidiInfo::new(s, None))).collect() };
    let mut qs: Vec<Q> = vec![];
    for o in 0..OPS.len() {
        for t in 0..w.texts.len() {
            qs.push(Q::Op(o, t));
        }
    }
    for i in 0..w.infos.len() {
        qs.push(Q::Shared(i));
    }
    // characters: everything assigned in the low planes' corners, sampled elsewhere
    for _ in 0..ctx.n(12_000, 200_000) {
        let c = match g.below(3) {
            0 => g.below(0x3100),
            1 => g.below(0x20000),
            _ => g.below(0x110000),
        };
        if let Some(c) = char::from_u32(c as u32) {
            qs.push(Q::Ch(c));
        }
    }
    // reference answers: each question asked on a thread of its own that has asked nothing before
    // (groups of a few share the thread only to save thread creation), in a first order
    let refs: Vec<AtomicU64> = (0..qs.len()).map(|_| AtomicU64::new(0)).collect();
    let err = |q: &Q, m: &str| {
        let s = w.show(q);
        ctx.fail(format!("{}:{}", m, s.chars().take(80).collect::<String>()), format!("{}: {}\n  code points {}", m, s, crate::ctx::cps(&s)));
    };
    let digest = |q: &Q| -> u64 {
        match ctx.guard(&w.show(q), || w.ask(q)) {
            crate::ctx::Outcome::Ok(Ok(d)) => d,
            crate::ctx::Outcome::Ok(Err(e)) => fnv(e.as_bytes()) ^ 1,
            crate::ctx::Outcome::Panic(m) => fnv(m.as_bytes()) ^ 2,
        }
    };
    let n = qs.len();
    for (gi, grp) in qs.chunks(n / 200 + 1).enumerate() {
        let base = gi * (n / 200 + 1);
        std::thread::scope(|sc| {
            sc.spawn(|| {
                for (i, q) in grp.iter().enumerate() {
                    refs[base + i].store(digest(q), SeqCst);
                }
            });
        });
    }
    ctx.distinct_n(n as u64);
    ctx.eval(n as u64);
    ctx.obs("questions", n as u64);
    // histories on one thread: reversed, shuffled, every question twice in a row, alternating pairs
    let mut hist: Vec<usize> = (0..n).rev().collect();
    let mut sh: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        sh.swap(i, g.below(i + 1));
    }
    hist.extend(sh.iter());
    for i in sh.iter().take(n / 4) {
        hist.extend([*i, *i]);
    }
    for _ in 0..n / 4 {
        let (a, b) = (g.below(n), g.below(n));
        hist.extend([a, b, a, b]);
    }
    for i in &hist {
        if digest(&qs[*i]) != refs[*i].load(SeqCst) {
            err(&qs[*i], "answer depends on what was asked before");
        }
    }
    ctx.eval(hist.len() as u64);
    ctx.obs("questions asked again in other orders", hist.len() as u64);

    // concurrent phases
    let total = Mutex::new(Obs::default());
    let max_over = AtomicUsize::new(0);
    let running = AtomicUsize::new(0);
    let rounds = ctx.n(36, 400);
    for round in 0..rounds {
        let threads = [2, 3, 4, 8, 16][(round % 5) as usize];
        // hot: a few questions only, all threads on the same tables; mixed: everything
        let hot: Option<Vec<usize>> = if round % 3 != 0 { Some((0..[2, 3, 6, 40][g.below(4)]).map(|_| g.below(n)).collect()) } else { None };
        let mode = ["one question", "few questions", "all questions"][(round % 3) as usize];
        let bar = Barrier::new(threads);
        let same = g.below(n);
        let steps = ctx.n(5000, 12000) as usize / if hot.is_some() { 1 } else { 2 };
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (bar, hot, qs, refs, digest, err, total, running, max_over) = (&bar, &hot, &qs, &refs, &digest, &err, &total, &running, &max_over);
                let seed = ctx.seed;
                sc.spawn(move || {
                    let mut g = Rng::new(seed, 0x321 + round, t as u64);
                    bar.wait();
                    let mut overlapped = 0u64;
                    for k in 0..steps {
                        let i = match hot {
                            Some(_) if round % 3 == 1 && k % 2 == 0 => same,
                            Some(h) => h[g.below(h.len())],
                            None => g.below(n),
                        };
                        let r = running.fetch_add(1, Relaxed) + 1;
                        max_over.fetch_max(r, Relaxed);
                        overlapped += (r > 1) as u64;
                        let d = digest(&qs[i]);
                        running.fetch_sub(1, Relaxed);
                        if d != refs[i].load(Relaxed) {
                            err(&qs[i], "answer differs under concurrency");
                        }
                        if g.chance(1, 64) {
                            std::thread::yield_now();
                        }
                    }
                    let mut o = total.lock().unwrap();
                    o.add(&format!("concurrent questions ({})", mode), steps as u64);
                    o.add("questions overlapping another thread's", overlapped);
                    o.add(&format!("threads in a {}-thread round", threads), 1);
                });
            }
        });
        ctx.eval(threads as u64 * steps as u64);
        if ctx.too_many() {
            break;
        }
    }
    iterators(ctx, &w, &mut g);
    ctx.obs_all(&total.into_inner().unwrap());
    ctx.obs("most questions in flight at once", max_over.load(SeqCst) as u64);
    crate::san::races(ctx);
    ctx.sample(|| "16 threads, 40 hot questions, every answer equal to the one given alone".into());
}

/// Iterators half-way through are moved to, or cloned onto, another thread and finished there.
fn iterators(ctx: &Ctx, w: &World, g: &mut Rng) {
    use unic_normal::StrNormalForm;
    use unic_segment::*;
    let mut done = 0;
    for s in &w.texts {
        let k = g.below(8);
        let want: (Vec<char>, Vec<String>, Vec<String>) = (s.nfc().collect(), Graphemes::new(s).map(|x| x.into()).collect(), WordBounds::new(s).map(|x| x.into()).collect());
        let (mut a, mut b, mut c) = (s.nfc(), Graphemes::new(s), WordBounds::new(s));
        let mut got: (Vec<char>, Vec<String>, Vec<String>) = Default::default();
        for _ in 0..k {
            got.0.extend(a.next());
            got.1.extend(b.next().map(String::from));
            got.2.extend(c.next().map(String::from));
        }
        let f = Force((a, b, c));
        let (x, y) = std::thread::scope(|sc| {
            let f = &f;
            // one clone is finished here while the other is finished elsewhere
            let h = sc.spawn(move || {
                let q = f.0.clone();
                (q.0.collect::<Vec<_>>(), q.1.map(String::from).collect::<Vec<_>>(), q.2.map(String::from).collect::<Vec<_>>())
            });
            let q = f.0.clone();
            let x = (q.0.collect::<Vec<_>>(), q.1.map(String::from).collect::<Vec<_>>(), q.2.map(String::from).collect::<Vec<_>>());
            (x, h.join().unwrap_or_default())
        });
        for z in [x, y] {
            let mut t = got.clone();
            t.0.extend(z.0);
            t.1.extend(z.1);
            t.2.extend(z.2);
            ctx.check(t == want, || "iterator finished on another thread".into(), || format!("iterators over {:?} moved after {} steps give {:?} instead of {:?}", s, k, t, want));
        }
        done += 6;
    }
    ctx.eval(done);
    ctx.obs("iterators finished on another thread", done);
}

fn types(ctx: &Ctx) {
    autos!(
        ctx,
        BidiInfo<'static>,
        unic_bidi::ParagraphInfo,
        unic_bidi::Level,
        unic_bidi::level::Error,
        unic_segment::Graphemes<'static>,
        unic_segment::GraphemeIndices<'static>,
        unic_segment::GraphemeCursor,
        unic_segment::GraphemeIncomplete,
        unic_segment::Words<'static>,
        unic_segment::WordBounds<'static>,
        unic_segment::WordBoundIndices<'static>,
        unic_normal::Decompositions<std::str::Chars<'static>>,
        unic_normal::Recompositions<std::str::Chars<'static>>,
        unic_idna::Errors,
        unic_idna::Flags,
        unic_idna_mapping::Mapping,
        unic_char_range::CharRange,
        unic_char_range::CharIter,
        unic_char_property::tables::CharDataTable<u32>,
        unic_ucd_age::Age,
        unic_ucd_block::Block,
        unic_ucd_block::BlockIter<'static>,
        unic_ucd_bidi::BidiClass,
        unic_ucd_category::GeneralCategory,
        unic_ucd_name::Name,
        unic_ucd_name_aliases::NameAliasType,
        unic_ucd_normal::CanonicalCombiningClass,
        unic_ucd_normal::DecompositionType,
        unic_ucd_segment::GraphemeClusterBreak,
        unic_ucd_segment::WordBreak,
        unic_ucd_segment::SentenceBreak,
        unic_ucd_version::UnicodeVersion,
        unic_ucd_common::Alphabetic,
        unic_ucd_case::Cased,
        unic_ucd_ident::XidStart,
        unic_emoji_char::Emoji,
        unic_char_basics::notation::UnicodeNotation,
    );
}
