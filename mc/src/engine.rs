//! Running a check: a supervising parent, a worker process whose threads
//! announce every case before running it, the verdict, the replay files and
//! the evidence file.
//!
//! A case is a short string that identifies one execution completely; the
//! binary can re-run it alone (`--replay`). Panics are caught in the worker. A
//! worker that dies or hangs is diagnosed by the parent: the cases in flight
//! are re-run one by one, each in a process of its own, and only a case that
//! dies or hangs again is reported.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub case: String,
    pub what: String,
}

/// What a check reports about its coverage, besides the counters.
pub struct Spec {
    pub property: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

const SLOTS: usize = 64;
const SLOT: usize = 1 << 16;
const HANG: Duration = Duration::from_secs(40);
const STACK: usize = 1 << 30;

pub struct Engine {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    pub verif: PathBuf,
    start: Instant,
    counters: Mutex<BTreeMap<String, u64>>,
    info: Mutex<BTreeMap<String, String>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<Violation>>,
    known: Mutex<Vec<String>>,
    stop: AtomicBool,
    first: Mutex<Option<Instant>>,
    shm: usize,
    next_slot: AtomicUsize,
    quiet: bool,
}

thread_local! {
    static SLOT_ID: Cell<usize> = const { Cell::new(usize::MAX) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} ({at})"));
    }));
}

/// Runs `f`, turning a panic into its message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

impl Engine {
    fn new(property: &str, tier: Tier, seed: u64, verif: PathBuf, shm: usize, quiet: bool) -> Self {
        let threads = std::env::var("MC_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| {
                std::thread::available_parallelism()
                    .map(|n| n.get())
                    .unwrap_or(8)
                    .clamp(1, 16)
            });
        Engine {
            property: property.into(),
            tier,
            seed,
            threads,
            verif,
            start: Instant::now(),
            counters: Default::default(),
            info: Default::default(),
            samples: Default::default(),
            violations: Default::default(),
            known: Default::default(),
            stop: AtomicBool::new(false),
            first: Mutex::new(None),
            shm,
            next_slot: AtomicUsize::new(0),
            quiet,
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }

    /// `q` in the quick tier, `t` in the thorough tier.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() {
            q
        } else {
            t
        }
    }

    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }

    pub fn add(&self, counter: &str, n: u64) {
        if counter == "evaluations" {
            // The same number as the traces.
            return;
        }
        *self
            .counters
            .lock()
            .unwrap()
            .entry(counter.to_string())
            .or_default() += n;
    }

    pub fn note(&self, key: &str, value: impl ToString) {
        self.info
            .lock()
            .unwrap()
            .insert(key.to_string(), value.to_string());
    }

    pub fn sample(&self, s: impl ToString) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            let mut s = s.to_string();
            if s.len() > 400 {
                let mut i = 400;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push_str("...");
            }
            v.push(s);
        }
    }

    pub fn known_finding(&self, line: String) {
        self.known.lock().unwrap().push(line);
    }

    pub fn violation(&self, case: impl Into<String>, what: impl Into<String>) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < 400 {
            v.push(Violation {
                case: case.into(),
                what: what.into(),
            });
        }
        let mut first = self.first.lock().unwrap();
        let now = Instant::now();
        let since = *first.get_or_insert(now);
        // Carry on a little, so that the smallest counterexample of this
        // neighbourhood is the one reported.
        if v.len() >= 400 || now - since > Duration::from_secs(3) {
            self.stop.store(true, Ordering::Relaxed);
        }
    }

    pub fn violated(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }

    fn slot(&self) -> Option<*mut u8> {
        if self.shm == 0 {
            return None;
        }
        let id = SLOT_ID.with(|s| {
            if s.get() == usize::MAX {
                s.set(self.next_slot.fetch_add(1, Ordering::Relaxed) % SLOTS);
            }
            s.get()
        });
        Some((self.shm + id * SLOT) as *mut u8)
    }

    /// Announces the case this thread is about to run.
    pub fn announce(&self, parts: &[&[u8]]) {
        let Some(p) = self.slot() else { return };
        unsafe {
            let seq = &*(p as *const AtomicU64);
            let len = &*(p.add(8) as *const AtomicU64);
            len.store(0, Ordering::Relaxed);
            let mut off = 0;
            for part in parts {
                let n = part.len().min(SLOT - 16 - off);
                std::ptr::copy_nonoverlapping(part.as_ptr(), p.add(16 + off), n);
                off += n;
            }
            len.store(off as u64, Ordering::Release);
            seq.fetch_add(1, Ordering::Release);
        }
    }

    /// This thread runs no case now.
    pub fn idle(&self) {
        self.announce(&[]);
    }

    /// Announces and runs one case; a panic is a violation.
    pub fn case<R>(&self, case: &str, f: impl FnOnce() -> R) -> Option<R> {
        self.announce(&[case.as_bytes()]);
        let r = guard(f);
        self.idle();
        match r {
            Ok(r) => Some(r),
            Err(m) => {
                self.violation(case, format!("panic: {m}"));
                None
            }
        }
    }

    /// Announces and runs one case that answers what is wrong, if anything.
    pub fn check(&self, case: &str, f: impl FnOnce() -> Result<(), String>) -> bool {
        match self.case(case, f) {
            Some(Ok(())) => true,
            Some(Err(what)) => {
                self.violation(case, what);
                false
            }
            None => false,
        }
    }

    /// Runs `f(i)` for every i below n on all cores.
    pub fn parallel(&self, n: usize, f: impl Fn(usize) + Sync) {
        self.parallel_on(STACK, n, f)
    }

    /// The same on threads with a stack of a given size.
    pub fn parallel_on(&self, stack: usize, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(n.max(1)) {
                std::thread::Builder::new()
                    .stack_size(stack)
                    .spawn_scoped(s, || {
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || self.stopped() {
                                break;
                            }
                            f(i);
                        }
                        self.idle();
                        SLOT_ID.with(|s| s.set(usize::MAX));
                    })
                    .expect("thread");
            }
        });
    }

    /// Runs `f` on one thread with a large stack.
    pub fn alone(&self, f: impl Fn() + Sync) {
        self.parallel(1, |_| f());
    }

    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    pub fn progress(&self, what: &str) {
        if !self.quiet {
            eprintln!("[{:7.1}s] {what}", self.elapsed());
        }
    }
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// One line, reversible.
pub fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if c.is_control() || (c.is_whitespace() && c != ' ') => {
                o.push_str(&format!("\\u{{{:x}}}", c as u32))
            }
            c => o.push(c),
        }
    }
    o
}

pub fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('u') => {
                it.next();
                let mut v = 0;
                for d in it.by_ref() {
                    if d == '}' {
                        break;
                    }
                    v = v * 16 + d.to_digit(16).unwrap_or(0);
                }
                o.push(char::from_u32(v).unwrap_or('?'));
            }
            Some(c) => o.push(c),
            None => (),
        }
    }
    o
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn write_replay(verif: &Path, property: &str, v: &Violation) -> PathBuf {
    let dir = verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{property}-{:016x}.txt", hash(&v.case)));
    let text = format!(
        "property={property}\ncase={}\nwhat={}\nto replay: ./check.sh {property} --replay {}\n",
        escape(&v.case),
        escape(&v.what),
        path.display()
    );
    let _ = std::fs::write(&path, text);
    path
}

/// Findings on the unchanged tree that are recorded rather than repaired:
/// lines `known: property=<id> <what fails>`.
pub fn known_findings(verif: &Path, property: &str) -> Vec<String> {
    let prefix = format!("known: property={property} ");
    std::fs::read_to_string(verif.join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&prefix))
        .map(|l| l.to_string())
        .collect()
}

fn report(engine: &Engine, spec: &Spec, violations: &[Violation]) -> i32 {
    let mut by_case = violations.to_vec();
    by_case.sort_by_key(|v| (v.case.len(), v.case.clone(), v.what.len()));
    let mut seen = HashSet::new();
    by_case.retain(|v| seen.insert(v.case.clone()));

    let mut cov = String::new();
    for (k, v) in engine.counters.lock().unwrap().iter() {
        cov.push_str(&format!("    {}: {},\n", json(k), v));
    }
    for (k, v) in engine.info.lock().unwrap().iter() {
        cov.push_str(&format!("    {}: {},\n", json(k), json(v)));
    }
    let samples: Vec<String> = engine
        .samples
        .lock()
        .unwrap()
        .iter()
        .map(|s| json(s))
        .collect();
    let assumptions: Vec<String> = spec.assumptions.iter().map(|s| json(s)).collect();
    let text = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n{}    \"exhaustive\": {},\n    \"rule\": {},\n    \"samples\": [{}]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n",
        json(&engine.property),
        json(if engine.quick() { "quick" } else { "thorough" }),
        engine.seed,
        cov,
        violations.is_empty() && !engine.stopped(),
        json(spec.rule),
        samples.join(", "),
        assumptions.join(", "),
        engine.elapsed(),
        by_case.len()
    );
    let dir = engine.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", engine.property)), text) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    for k in engine.known.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {}", engine.property, k);
    }
    for v in by_case.iter().take(3) {
        let path = write_replay(&engine.verif, &engine.property, v);
        println!(
            "VIOLATION property={} replay={}",
            engine.property,
            path.display()
        );
        println!("  case: {}", escape(&v.case));
        println!("  {}", v.what.replace('\n', "\n  "));
    }
    if by_case.len() > 3 {
        println!("  ... and {} more cases", by_case.len() - 3);
    }
    let _ = std::io::stdout().flush();
    if by_case.is_empty() {
        let c = engine.counters.lock().unwrap();
        println!(
            "property={} held: {}",
            engine.property,
            c.iter()
                .map(|(k, v)| format!("{k}={v}"))
                .collect::<Vec<_>>()
                .join(" ")
        );
        0
    } else {
        1
    }
}

pub struct Check {
    pub spec: Spec,
    pub run: fn(&Engine),
    /// Re-runs one case; reports through the engine.
    pub replay: fn(&Engine, &str),
}

fn map_shm(path: &Path) -> usize {
    use std::os::fd::AsRawFd;
    let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).open(path) else {
        return 0;
    };
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            SLOTS * SLOT,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        )
    };
    if p == libc::MAP_FAILED {
        0
    } else {
        p as usize
    }
}

fn read_slots(shm: usize) -> Vec<(u64, String)> {
    (0..SLOTS)
        .map(|i| unsafe {
            let p = (shm + i * SLOT) as *const u8;
            let seq = (*(p as *const AtomicU64)).load(Ordering::Acquire);
            let len = (*(p.add(8) as *const AtomicU64)).load(Ordering::Acquire) as usize;
            let bytes = std::slice::from_raw_parts(p.add(16), len.min(SLOT - 16));
            (seq, String::from_utf8_lossy(bytes).into_owned())
        })
        .collect()
}

/// An execution that takes all memory must end, not the machine.
fn limit_memory(gb: u64) {
    let l = libc::rlimit {
        rlim_cur: gb << 30,
        rlim_max: gb << 30,
    };
    // SAFETY: only reads the struct.
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

enum End {
    Code(i32),
    Died(String),
    Hung(Vec<usize>),
}

fn supervise(mut cmd: std::process::Command, shm: usize, hang: Duration) -> End {
    let mut child = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start the worker: {e}");
            return End::Code(2);
        }
    };
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); SLOTS];
    let mut wait = 2;
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                return match st.code() {
                    Some(c) => End::Code(c),
                    None => End::Died(format!("{st}")),
                }
            }
            Ok(None) => (),
            Err(_) => return End::Code(2),
        }
        std::thread::sleep(Duration::from_millis(wait));
        wait = (wait * 2).min(100);
        if shm != 0 {
            let mut hung = vec![];
            for i in 0..SLOTS {
                let (seq, len) = unsafe {
                    let p = (shm + i * SLOT) as *const u8;
                    (
                        (*(p as *const AtomicU64)).load(Ordering::Acquire),
                        (*(p.add(8) as *const AtomicU64)).load(Ordering::Acquire),
                    )
                };
                if seq != last[i].0 || len == 0 {
                    last[i] = (seq, Instant::now());
                } else if last[i].1.elapsed() > hang {
                    hung.push(i);
                }
            }
            if !hung.is_empty() {
                let _ = child.kill();
                let _ = child.wait();
                return End::Hung(hung);
            }
        }
    }
}

/// Runs one case in a process of its own and says how that ended:
/// None if it held, else what went wrong.
pub fn isolated(engine: &Engine, case: &str, limit: Duration) -> Option<String> {
    isolated_run(&engine.property, &engine.verif, case, limit)
}

fn isolated_run(property: &str, verif: &Path, case: &str, limit: Duration) -> Option<String> {
    let mut cmd = std::process::Command::new(std::env::current_exe().ok()?);
    cmd.arg(property)
        .arg("--case")
        .arg(escape(case))
        .env("MC_CHILD", "1")
        .env("MC_VERIF", verif)
        .env_remove("MC_SHM")
        .stderr(std::process::Stdio::null())
        .stdout(std::process::Stdio::piped());
    let mut child = cmd.spawn().ok()?;
    let begin = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                let mut out = String::new();
                if let Some(mut o) = child.stdout.take() {
                    let _ = std::io::Read::read_to_string(&mut o, &mut out);
                }
                return match st.code() {
                    Some(0) => None,
                    Some(1) => Some(out.trim().to_string()),
                    Some(c) => Some(format!("the process exits with code {c}")),
                    None => Some(format!("the process dies: {st}")),
                };
            }
            Ok(None) => (),
            Err(_) => return None,
        }
        if begin.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return Some(format!("still running after {} s", limit.as_secs()));
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Entry point of every binary:
/// `<bin> <property> [--tier quick|thorough] [--replay FILE | --case CASE]`
pub fn main(checks: &[Check]) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif = PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()));
    let mut property = String::new();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let mut case: Option<String> = None;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--tier" => {
                tier = match it.next().map(|s| s.as_str()) {
                    Some("thorough") => Tier::Thorough,
                    _ => Tier::Quick,
                }
            }
            "--case" => case = it.next().map(|s| unescape(s)),
            "--replay" => {
                let text = it
                    .next()
                    .and_then(|p| std::fs::read_to_string(p).ok())
                    .unwrap_or_default();
                case = text
                    .lines()
                    .find_map(|l| l.strip_prefix("case="))
                    .map(unescape);
                if case.is_none() {
                    eprintln!("no case in the replay file");
                    std::process::exit(2);
                }
            }
            p => property = p.to_string(),
        }
    }
    let Some(check) = checks.iter().find(|c| c.spec.property == property) else {
        eprintln!("unknown property {property:?}");
        std::process::exit(2);
    };
    let child = std::env::var("MC_CHILD").is_ok();

    if let Some(case) = case {
        if !child {
            match isolated_run(&property, &verif, &case, Duration::from_secs(120)) {
                None => {
                    println!("case held");
                    std::process::exit(0)
                }
                Some(what) => {
                    println!("case violates {property}: {what}");
                    std::process::exit(1)
                }
            }
        }
        hook();
        limit_memory(6);
        let engine = Engine::new(&property, tier, seed, verif, 0, true);
        engine.alone(|| {
            if let Err(m) = guard(|| (check.replay)(&engine, &case)) {
                engine.violation(case.clone(), format!("panic: {m}"));
            }
        });
        let v = engine.violations.lock().unwrap();
        for v in v.iter() {
            println!("{}", v.what);
        }
        std::process::exit(if v.is_empty() { 0 } else { 1 });
    }

    if child {
        hook();
        limit_memory(22);
        let shm = std::env::var("MC_SHM")
            .map(|p| map_shm(Path::new(&p)))
            .unwrap_or(0);
        let quiet = std::env::var("MC_QUIET").is_ok();
        let engine = Engine::new(&property, tier, seed, verif, shm, quiet);
        if let Err(m) = guard(|| (check.run)(&engine)) {
            eprintln!("the check itself failed: {m}");
            std::process::exit(2);
        }
        let v = engine.violations.lock().unwrap().clone();
        std::process::exit(report(&engine, &check.spec, &v));
    }

    // Supervising parent
    let dir = verif.join("target");
    let _ = std::fs::create_dir_all(&dir);
    let shm_path = dir.join(format!("mc-shm-{}", std::process::id()));
    let made = std::fs::File::create(&shm_path).and_then(|f| f.set_len((SLOTS * SLOT) as u64));
    if made.is_err() {
        eprintln!("cannot create {}", shm_path.display());
        std::process::exit(2);
    }
    let shm = map_shm(&shm_path);
    let exe = std::env::current_exe().expect("own path");
    let mut cmd = std::process::Command::new(exe);
    cmd.args(&args)
        .env("MC_CHILD", "1")
        .env("MC_SHM", &shm_path)
        .env_remove("RUST_BACKTRACE");
    let begin = Instant::now();
    let end = supervise(cmd, shm, HANG);
    let slots = read_slots(shm);
    let _ = std::fs::remove_file(&shm_path);
    let suspects: Vec<(u64, String)> = match &end {
        End::Code(c) => std::process::exit(*c),
        End::Died(how) => {
            eprintln!("the worker died: {how}; re-running the cases in flight");
            slots.into_iter().filter(|s| !s.1.is_empty()).collect()
        }
        End::Hung(ids) => {
            eprintln!("the worker hangs; re-running the cases in flight");
            ids.iter().map(|i| slots[*i].clone()).collect()
        }
    };
    let engine = Engine::new(&property, tier, seed, verif.clone(), 0, true);
    std::thread::scope(|s| {
        for (_, case) in &suspects {
            s.spawn(|| {
                if let Some(what) = isolated_run(&property, &verif, case, Duration::from_secs(60)) {
                    engine.violation(case.clone(), what);
                }
            });
        }
    });
    let v = engine.violations.lock().unwrap().clone();
    if v.is_empty() {
        eprintln!(
            "the worker did not finish, and no case in flight explains it ({} cases)",
            suspects.len()
        );
        std::process::exit(2);
    }
    engine.add("evaluations", suspects.len() as u64);
    engine.add("states", suspects.len() as u64);
    engine.add("transitions", suspects.len() as u64);
    engine.add("traces_validated_against_impl", suspects.len() as u64);
    engine.note("stopped_after_s", begin.elapsed().as_secs());
    std::process::exit(report(&engine, &check.spec, &v));
}
