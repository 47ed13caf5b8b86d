//! Run context: counters of what the monitors observed, violation reporting, known findings,
//! worker slots (so that a crash, hang or memory blow-up of the code under test can be attributed to
//! the case that was executing), and evidence output.
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub const NSLOT: usize = 64;
pub const SLOT: usize = 32 * 1024;
/// Thread CPU seconds one single guarded case may consume before it counts as non-terminating. Cases
/// here normally take micro- to milliseconds; CPU time, not wall-clock, so load does not matter.
pub const CASE_CPU_LIMIT: f64 = 60.0;
pub const RSS_LIMIT_PAGES: u64 = 16 * 1024 * 1024 * 1024 / 4096;

#[repr(C)]
pub struct Slot {
    pub active: AtomicU32,
    pub len: AtomicU32,
    pub clock: AtomicU32,
    pub has_clock: AtomicU32,
    pub cpu0: AtomicU64, // f64 bits: thread cpu at case start
    pub buf: [u8; SLOT],
}
pub struct Shared {
    pub slots: *mut Slot,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
pub static SHARED: std::sync::OnceLock<Shared> = std::sync::OnceLock::new();

#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn pthread_self() -> u64;
    fn pthread_getcpuclockid(t: u64, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, t: *mut Timespec) -> i32;
    fn _exit(c: i32) -> !;
}
fn clock_now(id: i32) -> f64 {
    let mut t = Timespec { s: 0, n: 0 };
    if unsafe { clock_gettime(id, &mut t) } != 0 {
        return -1.0;
    }
    t.s as f64 + t.n as f64 * 1e-9
}
pub fn init_shared() {
    let p = unsafe { mmap(std::ptr::null_mut(), NSLOT * std::mem::size_of::<Slot>(), 3, 0x21, -1, 0) };
    assert!(!p.is_null() && p as isize != -1);
    SHARED.set(Shared { slots: p as *mut Slot }).ok();
}
fn slot(i: usize) -> &'static Slot {
    unsafe { &*SHARED.get().unwrap().slots.add(i) }
}
fn slot_text(i: usize) -> String {
    let s = slot(i);
    let n = (s.len.load(Acquire) as usize).min(SLOT);
    String::from_utf8_lossy(&s.buf[..n]).into_owned()
}

static OUTSIDE: Mutex<String> = Mutex::new(String::new());
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static MY_SLOT: Cell<Option<usize>> = const { Cell::new(None) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static IN_GUARD: Cell<bool> = const { Cell::new(false) };
}
fn my_slot() -> usize {
    MY_SLOT.with(|c| match c.get() {
        Some(i) => i,
        None => {
            let i = NEXT_SLOT.fetch_add(1, SeqCst) % NSLOT;
            let mut id = 0;
            if unsafe { pthread_getcpuclockid(pthread_self(), &mut id) } == 0 {
                slot(i).clock.store(id as u32, Release);
                slot(i).has_clock.store(1, Release);
            }
            c.set(Some(i));
            i
        }
    })
}

pub enum Outcome<T> {
    Ok(T),
    Panic(String),
}

#[derive(Default)]
struct State {
    obs: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<(String, String)>,
    viol_sigs: HashSet<String>,
    known_hit: BTreeMap<String, u64>,
    assumptions: Vec<String>,
    rule: Vec<String>,
    exhaustive: bool,
}

pub struct Known {
    pub prop: String,
    pub pat: String,
    pub text: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub root: String,
    known: Vec<Known>,
    st: Mutex<State>,
    evals: AtomicU64,
    nviol: AtomicU64,
    distinct: Vec<Mutex<HashSet<u64>>>,
    distinct_cnt: AtomicU64,
    start: Instant,
    harness_error: AtomicBool,
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

/// Known-finding patterns are exact signatures; the only wildcard is `{A-B}`, one hexadecimal code
/// point in an inclusive range.
pub fn sig_match(pat: &str, sig: &str) -> bool {
    match pat.find('{') {
        None => pat == sig,
        Some(i) => {
            let Some(j) = pat[i..].find('}') else { return pat == sig };
            let (lo, hi) = match pat[i + 1..i + j].split_once('-') {
                Some((a, b)) => (u32::from_str_radix(a, 16).ok(), u32::from_str_radix(b, 16).ok()),
                None => return pat == sig,
            };
            let (Some(lo), Some(hi)) = (lo, hi) else { return false };
            if !sig.starts_with(&pat[..i]) {
                return false;
            }
            let rest = &sig[i..];
            let n = rest.bytes().take_while(|b| b.is_ascii_hexdigit()).count();
            match u32::from_str_radix(&rest[..n], 16) {
                Ok(v) if lo <= v && v <= hi => sig_match(&pat[i + j + 1..], &rest[n..]),
                _ => false,
            }
        }
    }
}

impl Ctx {
    pub fn new(prop: &str, tier: &str, seed: u64, root: &str) -> Ctx {
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.txt", root)) {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix("known: property=") {
                    let mut it = r.splitn(3, '\t');
                    if let (Some(p), Some(sig), Some(t)) = (it.next(), it.next(), it.next()) {
                        known.push(Known { prop: p.into(), pat: sig.trim_start_matches("sig=").into(), text: t.into() });
                    }
                }
            }
        }
        Ctx {
            prop: prop.into(),
            tier: tier.into(),
            seed,
            root: root.into(),
            known,
            st: Default::default(),
            evals: AtomicU64::new(0),
            nviol: AtomicU64::new(0),
            distinct: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            distinct_cnt: AtomicU64::new(0),
            start: Instant::now(),
            harness_error: AtomicBool::new(false),
        }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let v = if self.thorough() { thorough } else { quick };
        // sanitizer builds run the same workloads with fewer random cases
        match std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(f) if v >= 24 => ((v as f64 * f) as u64).max(24),
            // small numbers are the depths of enumerations
            Some(f) if f < 0.9 && v >= 3 => v - 1,
            _ => v,
        }
    }
    pub fn eval(&self, n: u64) {
        self.evals.fetch_add(n, Relaxed);
    }
    /// One distinct non-trivial case, identified by hash.
    pub fn distinct(&self, h: u64) {
        self.distinct[(h & 63) as usize].lock().unwrap().insert(h);
    }
    /// Distinct non-trivial cases of an enumeration (distinct by construction).
    pub fn distinct_n(&self, n: u64) {
        self.distinct_cnt.fetch_add(n, Relaxed);
    }
    pub fn harness_fail(&self) {
        self.harness_error.store(true, SeqCst);
    }
    pub fn obs(&self, k: &str, n: u64) {
        let mut s = self.st.lock().unwrap();
        *s.obs.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn obs_all(&self, m: &Obs) {
        let mut s = self.st.lock().unwrap();
        for (k, n) in &m.0 {
            *s.obs.entry(k.clone()).or_insert(0) += n;
        }
    }
    pub fn get_obs(&self, k: &str) -> u64 {
        self.st.lock().unwrap().obs.get(k).copied().unwrap_or(0)
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut s = self.st.lock().unwrap();
        if s.samples.len() < 24 {
            let v = f();
            s.samples.push(v);
        }
    }
    pub fn rule(&self, r: &str) {
        self.st.lock().unwrap().rule.push(r.into());
    }
    pub fn assume(&self, r: &str) {
        self.st.lock().unwrap().assumptions.push(r.into());
    }
    pub fn exhaustive(&self) {
        self.st.lock().unwrap().exhaustive = true;
    }
    pub fn too_many(&self) -> bool {
        self.nviol.load(Relaxed) > 50
    }
    pub fn fail(&self, sig: impl Into<String>, detail: impl Into<String>) {
        let (sig, detail) = (sig.into(), detail.into());
        let mut s = self.st.lock().unwrap();
        if let Some(k) = self.known.iter().find(|k| k.prop == self.prop && sig_match(&k.pat, &sig)) {
            *s.known_hit.entry(format!("{} [{}]", k.text, k.pat)).or_insert(0) += 1;
            return;
        }
        self.nviol.fetch_add(1, Relaxed);
        if s.violations.len() < 40 && s.viol_sigs.insert(sig.clone()) {
            s.violations.push((sig, detail));
        }
    }
    pub fn check(&self, ok: bool, sig: impl FnOnce() -> String, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(sig(), detail());
        }
        ok
    }
    /// Runs code under test. `case` identifies the input for crash/hang attribution.
    pub fn guard<T>(&self, case: &str, f: impl FnOnce() -> T) -> Outcome<T> {
        let i = my_slot();
        let s = slot(i);
        let was = s.active.load(Relaxed);
        let n = case.len().min(SLOT);
        unsafe {
            std::ptr::copy_nonoverlapping(case.as_ptr(), s.buf.as_ptr() as *mut u8, n);
        }
        s.len.store(n as u32, Release);
        s.active.store(was.wrapping_add(2) | 1, Release);
        let prev = IN_GUARD.with(|g| g.replace(true));
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_GUARD.with(|g| g.set(prev));
        s.active.store(was.wrapping_add(4) & !1, Release);
        match r {
            Ok(v) => Outcome::Ok(v),
            Err(_) => {
                let m = LAST_PANIC.with(|l| l.borrow().clone());
                if m.contains("at src/") {
                    // the monitor itself panicked: an error of the check, never a verdict
                    eprintln!("HARNESS-ERROR {} case={:?}", m, case);
                    self.harness_error.store(true, SeqCst);
                }
                Outcome::Panic(m)
            }
        }
    }
    /// Like `guard`; a panic is itself a violation (totality is part of every property here).
    pub fn call<T>(&self, what: &str, case: &str, f: impl FnOnce() -> T) -> Option<T> {
        match self.guard(case, f) {
            Outcome::Ok(v) => Some(v),
            Outcome::Panic(m) => {
                if !m.contains("at src/") {
                    self.fail(format!("panic:{}:{}", what, m), format!("{} panicked: {}\n  input: {:?}\n  input code points: {}", what, m, case, cps(case)));
                }
                None
            }
        }
    }
    pub fn finish(&self) -> i32 {
        let s = self.st.lock().unwrap();
        let distinct: u64 = self.distinct.iter().map(|d| d.lock().unwrap().len() as u64).sum::<u64>() + self.distinct_cnt.load(SeqCst);
        let evals = self.evals.load(SeqCst);
        let mut j = String::new();
        let viol = self.nviol.load(SeqCst);
        write!(
            j,
            "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"exhaustive\": {},\n    \"samples\": [{}],\n    \"observed\": {{{}}},\n    \"known_findings_hit\": {{{}}}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
            js(&self.prop),
            js(&self.tier),
            self.seed,
            evals,
            distinct,
            js(&s.rule.join(" | ")),
            s.exhaustive,
            s.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "),
            s.obs.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "),
            s.known_hit.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "),
            s.assumptions.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "),
            self.start.elapsed().as_secs_f64(),
            viol,
        )
        .unwrap();
        let ev = std::env::var("VERIF_EVIDENCE_DIR").unwrap_or_else(|_| format!("{}/evidence", self.root));
        std::fs::create_dir_all(&ev).ok();
        std::fs::write(format!("{}/{}.json", ev, self.prop), &j).expect("evidence");
        for k in s.known_hit.keys() {
            println!("KNOWN-FINDING: property={} {}", self.prop, k);
        }
        println!(
            "{} tier={} seed={} evaluations={} distinct={} violations={} wall={:.1}s",
            self.prop, self.tier, self.seed, evals, distinct, viol, self.start.elapsed().as_secs_f64()
        );
        let code = if !s.violations.is_empty() {
            for (i, (sig, d)) in s.violations.iter().enumerate() {
                let p = self.write_replay(i, sig, d);
                if i < 5 {
                    println!("VIOLATION property={} replay={}", self.prop, p);
                    println!("  {}: {}", sig.chars().take(400).collect::<String>(), d.lines().take(6).map(|l| l.chars().take(1200).collect::<String>()).collect::<Vec<_>>().join("\n    "));
                }
            }
            1
        } else if self.harness_error.load(SeqCst) {
            println!("INCONCLUSIVE: the monitor itself failed");
            3
        } else if evals == 0 || distinct == 0 {
            println!("INCONCLUSIVE: nothing was observed");
            3
        } else {
            0
        };
        use std::io::Write;
        std::io::stdout().flush().ok();
        code
    }
    fn write_replay(&self, i: usize, sig: &str, d: &str) -> String {
        let dir = format!("{}/replays", self.root);
        std::fs::create_dir_all(&dir).ok();
        let p = format!("{}/{}-{}.txt", dir, self.prop, i);
        std::fs::write(
            &p,
            format!(
                "property: {}\nsignature: {}\nreproduce: cd /verif && VERIF_SEED={} VERIF_TIER={} ./check.sh {}\n\n{}\n",
                self.prop, sig, self.seed, self.tier, self.prop, d
            ),
        )
        .ok();
        p
    }
}

#[derive(Default)]
pub struct Obs(pub BTreeMap<String, u64>);
impl Obs {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.0.get_mut(k) {
            *v += n;
        } else {
            self.0.insert(k.to_string(), n);
        }
    }
    pub fn merge(&mut self, o: &Obs) {
        for (k, n) in &o.0 {
            self.add(k, *n);
        }
    }
    pub fn get(&self, k: &str) -> u64 {
        self.0.get(k).copied().unwrap_or(0)
    }
}

pub fn cps(s: &str) -> String {
    s.chars().take(400).map(|c| format!("U+{:04X}", c as u32)).collect::<Vec<_>>().join(" ")
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || ((c as u32) > 0x7e && (c as u32) < 0x10000) => {
                write!(o, "\\u{:04x}", c as u32).unwrap()
            }
            c if (c as u32) >= 0x10000 => {
                let v = c as u32 - 0x10000;
                write!(o, "\\u{:04x}\\u{:04x}", 0xD800 + (v >> 10), 0xDC00 + (v & 0x3ff)).unwrap()
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Forks; the child runs `f` and the parent attributes crashes to the case that was executing.
pub fn supervise(prop: &str, root: &str, f: impl FnOnce() -> i32) -> i32 {
    init_shared();
    let pid = unsafe { fork() };
    assert!(pid >= 0);
    if pid == 0 {
        std::panic::set_hook(Box::new(|i| {
            let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let loc = i.location().map(|l| format!("{}", l.file())).unwrap_or_default();
            // line numbers are left out so that signatures survive unrelated edits
            let m = format!("{} at {}", msg.lines().next().unwrap_or("").chars().take(120).collect::<String>(), loc);
            if msg.starts_with("unsafe precondition") {
                eprintln!("UB-CHECK {} {:?}", msg, i.location());
            }
            if !IN_GUARD.with(|g| g.get()) {
                *OUTSIDE.lock().unwrap() = m.clone();
                eprintln!("panic outside guard: {} {:?}", m, i.location());
            }
            LAST_PANIC.with(|l| *l.borrow_mut() = m);
        }));
        let code = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(c) => c,
            Err(_) => {
                // code under test that panicked where no guard attributes the case
                let m = OUTSIDE.lock().unwrap().clone();
                if m.contains("at /repo/") {
                    let p = format!("{}/replays/{}-panic.txt", root, prop);
                    std::fs::create_dir_all(format!("{}/replays", root)).ok();
                    std::fs::write(&p, format!("property: {}\nthe code under test panicked: {}\n", prop, m)).ok();
                    println!("VIOLATION property={} replay={}", prop, p);
                    1
                } else {
                    3
                }
            }
        };
        use std::io::Write;
        std::io::stdout().flush().ok();
        unsafe { _exit(code) }
    }
    let mut st = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
    }
    if st & 0x7f == 0 {
        return (st >> 8) & 0xff;
    }
    let sig = st & 0x7f;
    let mut active = vec![];
    for i in 0..NSLOT {
        if slot(i).active.load(Acquire) & 1 == 1 {
            active.push(slot_text(i));
        }
    }
    if sig == 9 || active.is_empty() {
        println!("INCONCLUSIVE: monitor process ended by signal {}", sig);
        return 3;
    }
    let dir = format!("{}/replays", root);
    std::fs::create_dir_all(&dir).ok();
    let p = format!("{}/{}-crash.txt", dir, prop);
    let mut t = format!("property: {}\nthe process executing the code under test died with signal {}; cases executing at that moment (one of them is the culprit):\n", prop, sig);
    for a in &active {
        writeln!(t, "  {:?}  [{}]", a, cps(a)).unwrap();
    }
    std::fs::write(&p, t).ok();
    println!("VIOLATION property={} replay={}", prop, p);
    1
}

pub fn start_watchdog(ctx: &'static Ctx) {
    std::thread::spawn(move || {
        let mut seen: Vec<(u32, f64)> = vec![(0, 0.0); NSLOT];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(300));
            for i in 0..NSLOT {
                let s = slot(i);
                let a = s.active.load(Acquire);
                if a & 1 == 0 || s.has_clock.load(Acquire) == 0 {
                    seen[i] = (0, 0.0);
                    continue;
                }
                let now = clock_now(s.clock.load(Acquire) as i32);
                if now < 0.0 {
                    continue;
                }
                if seen[i].0 != a {
                    seen[i] = (a, now);
                } else if now - seen[i].1 > CASE_CPU_LIMIT {
                    let t = slot_text(i);
                    ctx.fail("non-termination", format!("one case consumed more than {} s of CPU without finishing: {:?} [{}]", CASE_CPU_LIMIT, t, cps(&t)));
                    let c = ctx.finish();
                    unsafe { _exit(c) }
                }
            }
            if let Ok(t) = std::fs::read_to_string("/proc/self/statm") {
                let rss: u64 = t.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
                if rss > RSS_LIMIT_PAGES {
                    let mut all = vec![];
                    for i in 0..NSLOT {
                        if slot(i).active.load(Acquire) & 1 == 1 {
                            let t = slot_text(i);
                            all.push(format!("{:?} [{}]", t, cps(&t)));
                        }
                    }
                    ctx.fail("unbounded-memory", format!("memory use grew past {} pages while executing: {}", RSS_LIMIT_PAGES, all.join(" ; ")));
                    let c = ctx.finish();
                    unsafe { _exit(c) }
                }
            }
        }
    });
}

/// Runs tasks 0..n on all cores; every task derives its own RNG from (seed, task index).
pub fn par(n: u64, f: impl Fn(u64) + Sync) {
    let next = AtomicU64::new(0);
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).min(16);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= n {
                    break;
                }
                f(i);
            });
        }
    });
}
