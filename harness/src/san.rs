//! Instrumented builds: C30 (AddressSanitizer with the standard library's unsafe-precondition checks,
//! and Miri) and the race-detector stage of C32 (ThreadSanitizer and Miri). The workloads are the other
//! monitors' own and /verif/ub; here only reports of the instrumentation count, not their verdicts.
use crate::ctx::{fnv, Ctx};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Quick runs start nothing new after this many seconds.
const BUDGET: f64 = 420.0;
pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timeout: bool,
    pub out: String,
    pub err: String,
}
extern "C" {
    fn kill(p: i32, s: i32) -> i32;
    fn setpgid(p: i32, g: i32) -> i32;
}
pub fn run(cmd: &mut Command, dir: &Path, tag: &str, limit: u64) -> std::io::Result<Ran> {
    use std::os::unix::process::CommandExt;
    let (po, pe) = (dir.join(format!("{}.out", tag)), dir.join(format!("{}.err", tag)));
    cmd.stdin(Stdio::null()).stdout(std::fs::File::create(&po)?).stderr(std::fs::File::create(&pe)?);
    unsafe {
        cmd.pre_exec(|| {
            setpgid(0, 0);
            Ok(())
        });
    }
    let mut ch = cmd.spawn()?;
    let t0 = Instant::now();
    let mut timeout = false;
    let st = loop {
        if let Some(st) = ch.try_wait()? {
            break st;
        }
        if t0.elapsed() > Duration::from_secs(limit) {
            timeout = true;
            unsafe {
                kill(-(ch.id() as i32), 9);
            }
            break ch.wait()?;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    unsafe {
        // the monitor under test forks: nothing of its group may stay behind
        kill(-(ch.id() as i32), 9);
    }
    let rd = |p: &PathBuf| std::fs::read(p).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    Ok(Ran { code: st.code(), signal: std::os::unix::process::ExitStatusExt::signal(&st), timeout, out: rd(&po), err: rd(&pe) })
}
/// Reads and removes the sanitizer's log files.
fn logs(dir: &Path, prefix: &str) -> String {
    let mut t = String::new();
    let mut v: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    v.sort();
    for p in v {
        if p.file_name().and_then(|n| n.to_str()).map_or(false, |n| n.starts_with(prefix)) {
            t.push_str(&String::from_utf8_lossy(&std::fs::read(&p).unwrap_or_default()));
        }
    }
    t
}
pub fn excerpt(t: &str, from: usize) -> String {
    t[from..].lines().take(40).collect::<Vec<_>>().join("\n")
}
/// First report of the instrumentation in a log: (signature, excerpt).
fn report(t: &str) -> Option<(String, String)> {
    for (k, mark) in [("address", "ERROR: AddressSanitizer: "), ("race", "WARNING: ThreadSanitizer: "), ("precondition", "UB-CHECK "), ("precondition", "unsafe precondition(s) violated"), ("miri", "Undefined Behavior: "), ("invalid", "INVALID ")] {
        let mut at = 0;
        while let Some(i) = t[at..].find(mark) {
            let i = at + i;
            let line = t[i + mark.len()..].lines().next().unwrap_or("");
            // resource limits are not undefined behaviour (C31 watches them)
            let skip = k == "address" && ["stack-overflow", "requested allocation size", "allocator is out of memory", "allocation-size-too-big", "out-of-memory"].iter().any(|s| line.starts_with(s));
            // one report of the race detector: not ours when it is about the thread pool's own queue (which
            // reads a slot before it knows whether it won it, and throws the copy away if not), or when no
            // frame of it is in the repository
            let skip = skip || k == "race" && {
                let b = t[i..].split("==================").next().unwrap_or("");
                let leaf = b.lines().filter(|l| ["#0 ", "#1 ", "#2 ", "#3 "].iter().any(|f| l.trim_start().starts_with(f))).any(|l| l.contains("crossbeam"));
                leaf || !(b.contains("/repo/") || b.contains("unic_"))
            };
            if !skip {
                // addresses and numbers vary from run to run
                let mut sig: String = line.split(" at pc").next().unwrap_or("").split(" 0x").next().unwrap_or("").chars().take(90).collect();
                sig.retain(|c| !c.is_ascii_digit());
                return Some((format!("{}:{}", k, sig.trim()), excerpt(t, i)));
            }
            at = i + mark.len();
        }
    }
    None
}
fn num(out: &str, key: &str) -> u64 {
    out.rfind(key).and_then(|i| out[i + key.len()..].split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()).unwrap_or(0)
}
pub fn scratch(ctx: &Ctx) -> PathBuf {
    let d = PathBuf::from(format!("{}/target/scratch/{}-{}", ctx.root, ctx.prop, std::process::id()));
    std::fs::remove_dir_all(&d).ok();
    std::fs::create_dir_all(&d).expect("scratch");
    d
}

/// Runs the monitors of `props` in an instrumented build; every report is a violation here.
fn instrumented(ctx: &Ctx, dir: &Path, name: &str, bin: &str, props: &[&str], scale: &str, limit: u64) {
    // the interpreter's and the compilers' virtual memory needs randomised layout left alone
    for p in props {
        let tag = format!("{}-{}", name, p);
        if !ctx.thorough() && ctx.elapsed() > BUDGET {
            ctx.obs(&format!("{}: workloads left out, time budget used up", name), 1);
            continue;
        }
        let sub = dir.join(&tag);
        std::fs::create_dir_all(sub.join("evidence")).ok();
        let log = sub.join("report");
        let mut c = Command::new(bin);
        c.args(["run", p]).env("VERIF_ROOT", &sub).env("VERIF_EVIDENCE_DIR", sub.join("evidence")).env("VERIF_SCALE", scale).env("VERIF_TIER", "quick").env("VERIF_SEED", ctx.seed.to_string());
        c.env("ASAN_OPTIONS", format!("log_path={}:detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1", log.display()));
        c.env("TSAN_OPTIONS", format!("log_path={}:exitcode=66:halt_on_error=0:report_thread_leaks=0", log.display()));
        c.env("VERIF_INNER", "1");
        let r = match run(&mut c, &sub, "mon", limit) {
            Ok(r) => r,
            Err(e) => {
                ctx.obs(&format!("{}: runs that could not start", name), 1);
                eprintln!("NOTE {}: {}", tag, e);
                continue;
            }
        };
        let n = num(&r.out, "evaluations=");
        if std::env::var("VERIF_VERBOSE").is_ok() {
            eprintln!("{} rc={:?} timeout={} evaluations={} {}", tag, r.code, r.timeout, n, r.out.lines().last().unwrap_or(""));
        }
        let all = format!("{}\n{}", logs(&sub, "report"), r.err);
        match report(&all) {
            Some((sig, ex)) => ctx.fail(format!("{}:{}:{}", name, p, sig), format!("{} build running the workload of {}:\n{}\ncases that were executing: {}", name, p, ex, crash_cases(&sub))),
            None if r.timeout => ctx.obs(&format!("{}: workloads cut short by the time limit", name), 1),
            None if n == 0 => {
                ctx.obs(&format!("{}: workloads that ended early for other reasons", name), 1);
                eprintln!("NOTE {} ended with {:?}: {}", tag, r.code, r.err.lines().last().unwrap_or(""));
            }
            None => {
                ctx.obs(&format!("{}: workloads observed to the end", name), 1);
                ctx.distinct(fnv(tag.as_bytes()));
            }
        }
        ctx.obs(&format!("{}: evaluations observed, workload {}", name, p), n);
        ctx.eval(n);
        ctx.distinct_n(num(&r.out, "distinct="));
    }
}
fn crash_cases(sub: &Path) -> String {
    let mut t = String::new();
    if let Ok(d) = std::fs::read_dir(sub.join("replays")) {
        for e in d.flatten() {
            if e.file_name().to_string_lossy().ends_with("crash.txt") {
                t.push_str(&std::fs::read_to_string(e.path()).unwrap_or_default());
            }
        }
    }
    t.chars().take(3000).collect()
}

/// Runs sections of /verif/ub under Miri, in parallel processes.
fn miri(ctx: &Ctx, dir: &Path, jobs: &[(&str, u64, u64)], limit: u64) {
    let Ok(crate_dir) = std::env::var("VERIF_UB_DIR") else {
        ctx.obs("Miri: not available", 1);
        return;
    };
    let next = Mutex::new(0usize);
    let slots = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).min(8);
    std::thread::scope(|sc| {
        for _ in 0..slots {
            sc.spawn(|| loop {
                let i = {
                    let mut n = next.lock().unwrap();
                    *n += 1;
                    *n - 1
                };
                let Some((sec, k, n)) = jobs.get(i) else { break };
                if !ctx.thorough() && ctx.elapsed() > BUDGET {
                    ctx.obs("Miri: sections left out, time budget used up", 1);
                    continue;
                }
                let seed = ctx.seed.wrapping_mul(1000).wrapping_add(*k);
                let tag = format!("miri-{}-{}", sec, k);
                let mut flags = format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-permissive-provenance -Zmiri-seed={}", k);
                if *sec == "par" {
                    // the thread pool's own code is only accepted under the newer aliasing model
                    flags.push_str(" -Zmiri-tree-borrows");
                }
                let mut c = Command::new("cargo");
                c.current_dir(&crate_dir).args(["+nightly", "miri", "run", "--offline", "-q", "--features", "unstable", "--", sec, &seed.to_string(), &n.to_string()]);
                c.env("CARGO_TARGET_DIR", format!("{}/target/miri", ctx.root)).env("MIRIFLAGS", flags).env("RUSTFLAGS", "-Awarnings").env_remove("RUSTUP_TOOLCHAIN");
                let r = match run(&mut c, dir, &tag, limit) {
                    Ok(r) => r,
                    Err(e) => {
                        ctx.obs("Miri: runs that could not start", 1);
                        eprintln!("NOTE {}: {}", tag, e);
                        continue;
                    }
                };
                if std::env::var("VERIF_VERBOSE").is_ok() {
                    eprintln!("{} rc={:?} timeout={} {}", tag, r.code, r.timeout, r.out.lines().last().unwrap_or(""));
                }
                let all = format!("{}\n{}", r.out, r.err);
                match report(&all) {
                    // inside the thread pool's implementation and nowhere near the repository: not ours
                    Some((_, ex)) if *sec == "par" && !ex.contains("/repo/") && !ex.contains("INVALID") => ctx.obs("Miri: reports inside the thread pool library only", 1),
                    Some((sig, ex)) => ctx.fail(format!("miri:{}:{}", sec, sig), format!("Miri, workload `ub {} {} {}`:\n{}", sec, seed, n, ex)),
                    None if r.timeout => ctx.obs("Miri: sections cut short by the time limit", 1),
                    None if !r.out.contains("\nDONE ") => {
                        ctx.obs("Miri: sections that ended early for other reasons", 1);
                        eprintln!("NOTE {} ended with {:?}: {} {}", tag, r.code, r.out.lines().last().unwrap_or(""), r.err.lines().last().unwrap_or(""));
                    }
                    None => {
                        ctx.obs("Miri: sections interpreted to the end", 1);
                        ctx.distinct(fnv(format!("{}{}", tag, ctx.seed).as_bytes()));
                    }
                }
                for l in r.out.lines() {
                    if let Some((k, v)) = l.strip_prefix("OBS ").and_then(|l| l.split_once('\t')) {
                        let v = v.parse().unwrap_or(0);
                        ctx.obs(&format!("Miri: {}", k), v);
                        ctx.eval(v);
                    }
                }
            });
        }
    });
}

pub fn c30(ctx: &Ctx) {
    ctx.rule("an executed workload of the real code in which the instrumentation checked every access: /verif/ub interpreted by Miri (validity of every value, aliasing, bounds, races), and the other monitors' workloads in an AddressSanitizer build without debug assertions but with the standard library's unsafe-precondition checks; non-trivial: distinct cases of those workloads");
    ctx.assume("undefined behaviour is observed only on executed inputs; Miri's share is small because interpretation is slow, the AddressSanitizer share is large but sees only accesses and checked preconditions; verdicts of the workloads' own monitors are ignored here");
    let dir = scratch(ctx);
    let mut jobs: Vec<(&str, u64, u64)> = vec![];
    let seeds = if ctx.thorough() { 24 } else { 2 };
    for k in 0..seeds {
        for (s, n) in [("range", 45), ("algo", 5), ("hangul", 6), ("puny", 60), ("par", 14), ("chars", 40), ("threads", 2), ("range", 45)] {
            let k = k * 10 + jobs.len() as u64 % 8;
            jobs.push((s, k + 1, n));
        }
    }
    let t = Instant::now();
    miri(ctx, &dir, &jobs, 240);
    ctx.obs("Miri: seconds", t.elapsed().as_secs());
    let t = Instant::now();
    match std::env::var("VERIF_ASAN_MON") {
        Ok(bin) => {
            let mut props = vec!["C12", "C13", "C14", "C15", "C27", "C16", "C17", "C29", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C10", "C11", "C28", "C08", "C34", "C31", "C32"];
            if ctx.thorough() {
                props.extend(["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09"]);
            }
            instrumented(ctx, &dir, "ASan", &bin, &props, if ctx.thorough() { "1" } else { "0.08" }, if ctx.thorough() { 900 } else { 100 });
        }
        Err(_) => ctx.obs("ASan: build not available", 1),
    }
    ctx.obs("ASan: seconds", t.elapsed().as_secs());
    ctx.sample(|| jobs.iter().take(8).map(|(s, k, n)| format!("Miri: ub {} {} {}", s, ctx.seed * 1000 + k, n)).collect::<Vec<_>>().join("; "));
    std::fs::remove_dir_all(&dir).ok();
}

/// Second stage of C32.
pub fn races(ctx: &Ctx) {
    if std::env::var("VERIF_INNER").is_ok() {
        return;
    }
    let dir = scratch(ctx);
    let jobs: Vec<(&str, u64, u64)> = (0..if ctx.thorough() { 64 } else { 8 }).map(|k| ("threads", k, if k % 4 == 3 { 4 } else { 2 })).collect();
    miri(ctx, &dir, &jobs, 240);
    match std::env::var("VERIF_TSAN_MON") {
        Ok(bin) => instrumented(ctx, &dir, "TSan", &bin, &["C32", "C14", "C11", "C23"], if ctx.thorough() { "0.5" } else { "0.05" }, if ctx.thorough() { 1200 } else { 150 }),
        Err(_) => ctx.obs("TSan: build not available", 1),
    }
    std::fs::remove_dir_all(&dir).ok();
}
