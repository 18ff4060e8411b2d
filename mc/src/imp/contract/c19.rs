//! C19: what parsing leaves behind once its result has been dropped.
//!
//! Every case runs several times. After the first time, in which tables may be
//! built that are built once, the memory in use must not grow. Files opened must
//! be closed again, and nothing may be written or changed outside the process.
//! What the thread itself sees suffices to suspect a case; before it is
//! reported it is run in a process of its own, whose whole memory and whose
//! threads are looked at.

use super::c01::{self, TABLE};
use super::c16::{self, Plan, Scratch};
use super::common::*;
use crate::bridge::{self, end_of, start_of};
use mc::engine::{self, Engine};
use mc::grammar::{decode, encode, Grammar, Kinds};
use mc::terms::{self, K};
use scilla_parser::parser::lexer::Lexer;
use scilla_parser::parser::parser::ProgramParser;
use scilla_parser::simplified_representation::emitter::SrEmitter;
use scilla_parser::{Contract, Error};
use std::cell::{Cell, RefCell};
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::time::Duration;

// ------------------------------------------------------------ observation

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static FILES: Cell<i64> = const { Cell::new(0) };
    static THREADS: Cell<usize> = const { Cell::new(0) };
    static SEEN: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Whether the memory of all threads counts.
static WHOLE: AtomicBool = AtomicBool::new(false);
static ALL: AtomicI64 = AtomicI64::new(0);

/// Called by the allocator.
pub fn took(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
    if WHOLE.load(Ordering::Relaxed) {
        ALL.fetch_add(n, Ordering::Relaxed);
    }
}

fn on() -> bool {
    ON.try_with(|o| o.get()).unwrap_or(false)
}

/// Notes something that parsing should not do.
fn seen(what: &str) {
    ON.with(|o| o.set(false));
    SEEN.with(|s| {
        s.borrow_mut().get_or_insert_with(|| what.into());
    });
    ON.with(|o| o.set(true));
}

/// Called by the executable's `open64`.
pub fn opened(flags: libc::c_int, ok: bool) {
    if on() {
        if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0 {
            seen("a file is opened for writing");
        }
        if ok {
            FILES.with(|f| f.set(f.get() + 1));
        }
    }
}

/// # Safety
/// As `close`.
#[no_mangle]
pub unsafe extern "C" fn close(fd: libc::c_int) -> libc::c_int {
    if on() {
        FILES.with(|f| f.set(f.get() - 1));
    }
    libc::syscall(libc::SYS_close, fd) as libc::c_int
}

/// # Safety
/// As `write`.
#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, b: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    if on() {
        seen("something is written");
    }
    libc::syscall(libc::SYS_write, fd, b, n) as libc::ssize_t
}

/// # Safety
/// As `writev`.
#[no_mangle]
pub unsafe extern "C" fn writev(fd: libc::c_int, v: *const libc::iovec, n: libc::c_int) -> libc::ssize_t {
    if on() {
        seen("something is written");
    }
    libc::syscall(libc::SYS_writev, fd, v, n) as libc::ssize_t
}

/// # Safety
/// As `mkdir`.
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const libc::c_char, mode: libc::mode_t) -> libc::c_int {
    if on() {
        seen("a directory is made");
    }
    libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD, p, mode) as libc::c_int
}

/// # Safety
/// As `unlink`.
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const libc::c_char) -> libc::c_int {
    if on() {
        seen("a file is removed");
    }
    libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, p, 0) as libc::c_int
}

/// # Safety
/// As `rename`.
#[no_mangle]
pub unsafe extern "C" fn rename(p: *const libc::c_char, q: *const libc::c_char) -> libc::c_int {
    if on() {
        seen("a file is renamed");
    }
    libc::syscall(libc::SYS_renameat2, libc::AT_FDCWD, p, libc::AT_FDCWD, q, 0) as libc::c_int
}

/// # Safety
/// As `chdir`.
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const libc::c_char) -> libc::c_int {
    if on() {
        seen("the working directory is changed");
    }
    libc::syscall(libc::SYS_chdir, p) as libc::c_int
}

/// # Safety
/// As `setenv`.
#[no_mangle]
pub unsafe extern "C" fn setenv(k: *const libc::c_char, v: *const libc::c_char, o: libc::c_int) -> libc::c_int {
    if on() {
        seen("the environment is changed");
    }
    let real = libc::dlsym(libc::RTLD_NEXT, c"setenv".as_ptr());
    type Set = unsafe extern "C" fn(*const libc::c_char, *const libc::c_char, libc::c_int) -> libc::c_int;
    std::mem::transmute::<*mut libc::c_void, Set>(real)(k, v, o)
}

/// # Safety
/// As `unsetenv`.
#[no_mangle]
pub unsafe extern "C" fn unsetenv(k: *const libc::c_char) -> libc::c_int {
    if on() {
        seen("the environment is changed");
    }
    let real = libc::dlsym(libc::RTLD_NEXT, c"unsetenv".as_ptr());
    type Unset = unsafe extern "C" fn(*const libc::c_char) -> libc::c_int;
    std::mem::transmute::<*mut libc::c_void, Unset>(real)(k)
}

type Start = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;
type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut libc::c_void) -> libc::c_int;

/// # Safety
/// As `pthread_create`.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    a: *const libc::pthread_attr_t,
    f: Start,
    x: *mut libc::c_void,
) -> libc::c_int {
    if on() {
        THREADS.with(|t| t.set(t.get() + 1));
    }
    let real = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr());
    if real.is_null() {
        return libc::EAGAIN;
    }
    std::mem::transmute::<*mut libc::c_void, Create>(real)(t, a, f, x)
}

fn tasks() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

fn surroundings() -> String {
    let mut v: Vec<_> = std::env::vars_os().collect();
    v.sort();
    format!("{v:?} {:?}", std::env::current_dir().ok())
}

/// Whether this process has been started for one case.
fn single() -> bool {
    std::env::var_os("MC_SHM").is_none()
}

struct Off;

impl Drop for Off {
    fn drop(&mut self) {
        ON.with(|o| o.set(false));
    }
}

/// Runs `step` for a while and then for another, and says what is left. The
/// second while may not add more than `slack` bytes.
fn traces(first: usize, then: usize, slack: i64, alone: bool, step: &dyn Fn(usize)) -> Result<(), String> {
    WHOLE.store(alone, Ordering::Relaxed);
    SEEN.with(|s| *s.borrow_mut() = None);
    FILES.with(|f| f.set(0));
    THREADS.with(|f| f.set(0));
    let around = if alone { surroundings() } else { String::new() };
    let tasks_before = if alone { tasks() } else { 0 };
    ON.with(|o| o.set(true));
    let off = Off;
    (0..first).for_each(step);
    // Threads that have not quite ended.
    let settled = || {
        for _ in 0..50 {
            if !alone || tasks() <= tasks_before {
                break;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
    };
    let live = || if alone { ALL.load(Ordering::Relaxed) } else { LIVE.get() };
    settled();
    let before = live();
    (first..first + then).for_each(step);
    settled();
    let more = live() - before;
    drop(off);
    if let Some(what) = SEEN.with(|s| s.borrow_mut().take()) {
        return Err(what);
    }
    if FILES.get() > 0 {
        return Err(format!("{} files stay open", FILES.get()));
    }
    if more > slack {
        return Err(format!("{more} bytes more are in use after {then} more parses"));
    }
    if alone {
        if tasks() > tasks_before {
            return Err("a thread goes on running".into());
        }
        if surroundings() != around {
            return Err("the environment or the working directory changes".into());
        }
    }
    Ok(())
}

/// Runs a case; what looks wrong is looked at again in a process of its own.
fn clean(engine: &Engine, case: &str, first: usize, then: usize, slack: i64, step: &dyn Fn(usize)) {
    if single() {
        engine.check(case, || traces(first, then, slack, true, step));
        return;
    }
    engine.announce(&[case.as_bytes()]);
    let r = engine::guard(|| traces(first, then, slack, false, step));
    engine.idle();
    let what = match r {
        Ok(Ok(())) if THREADS.get() == 0 => return,
        Ok(_) => match engine::isolated(engine, case, Duration::from_secs(60)) {
            Some(what) => what,
            None => return,
        },
        Err(p) => format!("panic: {p}"),
    };
    engine.violation(case, what);
}

// ------------------------------------------------------------------- steps

/// Everything that can be done with a text.
fn whole(s: &str) {
    c01::use_up(s.parse::<Contract>());
    drop(bridge::lex(s));
}

fn text(engine: &Engine, s: &str) {
    stepped(3 * s.len() / 4);
    clean(engine, &format!("t:{s}"), 1, 2, 0, &|_| whole(s));
}

/// Tokens taken one by one and dropped early.
fn abandoned(engine: &Engine, s: &str) {
    clean(engine, &format!("l:{s}"), 1, 2, 0, &|_| {
        let n = Lexer::new(s).count();
        for k in 0..n {
            let mut l = Lexer::new(s);
            let some: Vec<_> = l.by_ref().take(k).collect();
            drop(l);
            drop(some);
        }
    });
}

fn construct(engine: &Engine, name: &str, ks: &[K]) {
    let (_, run) = TABLE.iter().find(|t| t.0 == name).expect("construct");
    stepped(3 * ks.len());
    clean(engine, &format!("p:{name}:{}", encode(ks)), 1, 2, 0, &|_| run(ks, None));
}

/// Parser and converter.
fn converted(engine: &Engine, toks: &[(K, &'static str)]) {
    let mut case = format!("k:{}\u{1}", encode(&toks.iter().map(|t| t.0).collect::<Vec<_>>()));
    for t in toks {
        case.push_str(t.1);
        case.push('\u{2}');
    }
    stepped(3 * toks.len());
    clean(engine, &case, 1, 2, 0, &|_| {
        let mut errors = vec![];
        let it = toks
            .iter()
            .enumerate()
            .map(|(i, (k, s))| Ok((start_of(i), bridge::tok_str(*k, s), end_of(i))));
        c01::use_up(match ProgramParser::new().parse(&mut errors, it) {
            Ok(p) => SrEmitter::default().emit(&p).map_err(Error::ParseError),
            Err(e) => Err(e.into()),
        });
    });
}

/// Texts without end, each of which differs from all others in one place.
const FAMILIES: &[&str] = &[
    "scilla_version 0 contract C@ ()",
    "scilla_version @ contract C ()",
    "scilla_version 0 import I@ as J contract C ()",
    "scilla_version 0 library L@ contract C ()",
    "scilla_version 0 library L let a = \"@\" contract C ()",
    "scilla_version 0 library L let a = 0x@ contract C ()",
    "scilla_version 0 library L let a = Int32 -@ contract C ()",
    "scilla_version 0 library L let a@ = b contract C ()",
    "scilla_version 0 library L let _a@ = b contract C ()",
    "scilla_version 0 library L type T@ = | A contract C ()",
    "scilla_version 0 contract C (a@ : T)",
    "scilla_version 0 contract C (a : T@)",
    "scilla_version 0 contract C (a : ByStr@)",
    "scilla_version 0 contract C (a : 'A@)",
    "scilla_version 0 contract C (a : Option T T@)",
    "scilla_version 0 contract C (a : ByStr20 with contract field a@ : T end)",
    "scilla_version 0 contract C (a : L@.T)",
    "scilla_version 0 contract C () field a@ : T = b",
    "scilla_version 0 contract C () field a : T = b@",
    "scilla_version 0 contract C () transition t@ () end",
    "scilla_version 0 contract C () transition t (a@ : T) end",
    "scilla_version 0 contract C () procedure p@ () end",
    "scilla_version 0 contract C () transition t () a = {b : c@} end",
    "scilla_version 0 contract C () transition t () a[b@] := c end",
    "(* @ *) scilla_version 0 contract C ()",
    "(* @",
    "\"@",
    "scilla_version 0 contract C () ?@",
    "scilla_version 0 contract C (a : T@",
];

fn family(engine: &Engine, f: usize, first: usize, then: usize) {
    stepped((first + then) * 10);
    // A table of bounded size may be filled at first, but then no more.
    clean(engine, &format!("g:{f}:{first}:{then}"), first, then, then as i64, &|i| {
        whole(&FAMILIES[f].replace('@', &format!("{:08}", i + 1)));
    });
}

// ------------------------------------------------------------------- files

fn listing(p: &Path, out: &mut Vec<String>) {
    let Ok(d) = std::fs::read_dir(p) else { return };
    for e in d.flatten() {
        let m = e.metadata();
        out.push(format!(
            "{:?} {:?}",
            e.path(),
            m.as_ref().map(|m| (m.len(), m.modified().ok(), m.file_type())).ok()
        ));
        if m.is_ok_and(|m| m.is_dir()) {
            listing(&e.path(), out);
        }
    }
}

fn descriptors() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

const CONTENTS: &[&[u8]] = &[
    b"scilla_version 0 contract C (a : T)",
    b"scilla_version 0 contract C (a : T",
    b"scilla_version 0 contract C (a : T -> T)",
    b"scilla_version 0 contract C (a : T) (* \xff *)",
    b"",
];

/// Parses every kind of path, with and without faults; or one of these cases.
fn files(engine: &Engine, only: Option<&str>) {
    let s = Scratch::new(engine);
    let plans = [
        Plan::default(),
        Plan { chunk: 1, ..Plan::default() },
        Plan { fail_read: 1, read_errno: libc::EIO, ..Plan::default() },
        Plan { fail_read: 2, read_errno: libc::EIO, chunk: 7, ..Plan::default() },
        Plan { fail_read: 1, read_errno: libc::EINTR, ..Plan::default() },
        Plan { open_errno: libc::EMFILE, open_times: 1, ..Plan::default() },
        Plan { open_errno: libc::EACCES, open_times: 9, ..Plan::default() },
    ];
    let mut n = 0;
    for (c, content) in CONTENTS.iter().enumerate() {
        for (what, path) in c16::path_kinds(&s, content) {
            for (i, plan) in plans.iter().enumerate() {
                let case = format!("f:{c}:{i}:{what}");
                if only.is_some_and(|o| o != case) {
                    continue;
                }
                n += 1;
                let mut before = vec![];
                listing(&s.0, &mut before);
                let open = descriptors();
                clean(engine, &case, 1, 2, 0, &|_| {
                    let _ = c16::under(*plan, &path);
                });
                let mut after = vec![];
                listing(&s.0, &mut after);
                engine.check(&case, || {
                    if descriptors() > open {
                        return Err(format!("{} files stay open", descriptors() - open));
                    }
                    if before != after {
                        return Err("files are changed".into());
                    }
                    Ok(())
                });
            }
            if engine.violated() {
                return;
            }
        }
    }
    engine.note("paths", n);
    tally(engine, n, 3 * n);
    // Many files, of which none may be remembered.
    let p = s.at("many.scilla");
    let (first, then) = (engine.pick(64, 256), engine.pick(512, 2048));
    let (first, then) = match only.map(|o| o.split(':').collect::<Vec<_>>()) {
        None => (first, then),
        Some(o) => match o[..] {
            ["F", a, b] => (a.parse().unwrap_or(first), b.parse().unwrap_or(then)),
            _ => return,
        },
    };
    let case = format!("F:{first}:{then}");
    clean(engine, &case, first, then, then as i64, &|i| {
        ON.with(|o| o.set(false));
        let q = s.at(&format!("many{i:08}"));
        let _ = std::fs::write(&p, format!("scilla_version 0 contract C{i:08} ()"));
        let _ = std::fs::rename(&p, &q);
        ON.with(|o| o.set(true));
        let _ = Contract::parse(&q);
        ON.with(|o| o.set(false));
        let _ = std::fs::remove_file(&q);
        drop(q);
        ON.with(|o| o.set(true));
    });
    engine.add("evaluations", n + 1);
}

// --------------------------------------------------------------------- run

pub fn run(engine: &Engine) {
    let g = Grammar::scilla();

    // Each construct, cut off after every token, going on with every other.
    for (name, _) in TABLE {
        let list = g.covering(g.id(name), engine.pick(2, 3));
        engine.parallel(list.len(), |i| {
            let ks = &list[i];
            let mut n = 1;
            construct(engine, name, ks);
            for at in 0..ks.len() {
                construct(engine, name, &ks[..at]);
                n += 1;
                let kinds = mc::terms::NTERMS;
                let step = if engine.quick() { 11 } else { 1 };
                for k in ((i + at) % step..=kinds).step_by(step) {
                    let mut v: Kinds = ks[..at].to_vec();
                    v.push(if k < kinds { k as K } else { terms::UNKNOWN });
                    construct(engine, name, &v);
                    n += 1;
                }
                if engine.stopped() {
                    return;
                }
            }
            tally(engine, n, 3 * n);
            engine.add("evaluations", n);
        });
    }
    engine.progress("constructs");

    // Conversion, of what is right and wrong.
    let list = g.covering(g.id("Program"), engine.pick(3, 4));
    let types = g.covering(g.id("ScillaType"), 3);
    engine.note("programs", list.len());
    engine.parallel(list.len(), |i| {
        for v in 0..engine.pick(2, 12) {
            converted(engine, &mc::terms::dress(&list[i], i + 3 * v));
        }
        tally(engine, 1, 3);
        engine.add("evaluations", engine.pick(2, 12));
    });
    let places: [(&str, &str); 5] = [
        ("scilla_version 0 contract C ( a :", ")"),
        ("scilla_version 0 contract C ( a : T , b : ByStr20 with contract field a :", "end )"),
        ("scilla_version 0 contract C ( a : Map T ( List ( ", ") ) )"),
        ("scilla_version 0 contract C ( a : T ) field b : T = c field a :", "= b"),
        ("scilla_version 0 contract C ( a : T ) transition t ( b : T , a :", ") end"),
    ];
    let of = |s: &str| -> Kinds { mc::reflex::tokenize(s).iter().map(|l| l.k).collect() };
    engine.parallel(types.len() * places.len(), |i| {
        let (pre, post) = places[i % places.len()];
        let ks = [of(pre), types[i / places.len()].clone(), of(post)].concat();
        for v in 0..engine.pick(4, 24) {
            converted(engine, &mc::terms::dress(&ks, i + v));
        }
        tally(engine, 1, 3);
        engine.add("evaluations", engine.pick(4, 24));
    });
    engine.progress("conversion");

    // Texts.
    let a: Vec<&str> = c01::ALPHABET.iter().chain(c01::WORDS).copied().collect();
    let n = a.len();
    engine.parallel(n * n, |i| {
        let s = format!("{}{}", a[i / n], a[i % n]);
        text(engine, &s);
        text(engine, &format!("scilla_version 0 contract C (a : T{s}"));
        if !engine.quick() {
            for x in &a {
                text(engine, &format!("{s}{x}"));
            }
            tally(engine, n as u64, 3 * n as u64);
        }
        tally(engine, 2, 6);
        engine.add("evaluations", 2);
    });
    for base in c01::compact() {
        let cuts: Vec<usize> = base.char_indices().map(|(i, _)| i).chain([base.len()]).collect();
        engine.parallel(cuts.len(), |i| {
            text(engine, &base[..cuts[i]]);
            if engine.quick() && i % 8 != 0 {
                return;
            }
            abandoned(engine, &base[..cuts[i]]);
            tally(engine, 2, 6);
            engine.add("evaluations", 2);
        });
    }
    engine.progress("texts");

    engine.parallel(FAMILIES.len(), |f| {
        family(engine, f, engine.pick(100, 512), engine.pick(500, 4096));
        let n = engine.pick(600, 4608);
        tally(engine, n, n);
        engine.add("evaluations", 1);
    });
    engine.progress("families");

    engine.alone(|| files(engine, None));
    engine.progress("files");
    engine.sample(FAMILIES[0]);
}

pub fn replay(engine: &Engine, case: &str) {
    let Some((tag, r)) = case.split_once(':') else { return };
    match tag {
        "t" => text(engine, r),
        "l" => abandoned(engine, r),
        "p" => {
            if let Some((name, ks)) = r.split_once(':') {
                construct(engine, name, &decode(ks));
            }
        }
        "k" => {
            let Some((ks, ss)) = r.split_once('\u{1}') else { return };
            let toks: Vec<(K, &'static str)> = decode(ks)
                .into_iter()
                .zip(ss.split('\u{2}'))
                .map(|(k, s)| (k, &*Box::leak(s.to_string().into_boxed_str())))
                .collect();
            converted(engine, &toks);
        }
        "g" => {
            let v: Vec<usize> = r.split(':').filter_map(|x| x.parse().ok()).collect();
            if let [f, first, then] = v[..] {
                family(engine, f, first, then);
            }
        }
        _ => files(engine, Some(case)),
    }
}
