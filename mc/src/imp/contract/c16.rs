//! C16: histories of a file, kinds of paths, contents, and failing reads.
//!
//! Everything happens in a scratch directory of this process, which it makes
//! and removes. `read` and `open64` of this executable are defined here, so
//! that system calls of a parse can be made short or fail one by one.

use super::common::{stepped, tally};
use mc::engine::{self, Engine};
use mc::reflex;
use scilla_parser::{Contract, Error};
use std::cell::Cell;
use std::collections::HashSet;
use std::fs::{self, File};
use std::os::fd::AsRawFd;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, SystemTime};

// ------------------------------------------------------------ fault injection

#[derive(Clone, Copy, Default)]
pub struct Plan {
    pub on: bool,
    /// Longest read, 0 for any.
    pub chunk: usize,
    /// This read (counted from 1) fails with this error.
    pub fail_read: usize,
    pub read_errno: i32,
    /// Opening fails with this error.
    pub open_errno: i32,
    /// Opening fails only this often.
    pub open_times: usize,
}

thread_local! {
    static PLAN: Cell<Plan> = const { Cell::new(Plan { on: false, chunk: 0, fail_read: 0, read_errno: 0, open_errno: 0, open_times: 0 }) };
    static READS: Cell<usize> = const { Cell::new(0) };
    static OPENS: Cell<usize> = const { Cell::new(0) };
}

fn errno(e: i32) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}

/// The C library's `read`, for this executable.
/// # Safety
/// As `read`.
#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, mut n: libc::size_t) -> libc::ssize_t {
    let p = PLAN.try_with(|p| p.get()).unwrap_or_default();
    if p.on {
        let k = READS.with(|r| {
            r.set(r.get() + 1);
            r.get()
        });
        if k == p.fail_read {
            return errno(p.read_errno);
        }
        if p.chunk > 0 {
            n = n.min(p.chunk);
        }
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as libc::ssize_t
}

/// The C library's `open64`, for this executable.
/// # Safety
/// As `open64`.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    let p = PLAN.try_with(|p| p.get()).unwrap_or_default();
    if p.on {
        let k = OPENS.with(|r| {
            r.set(r.get() + 1);
            r.get()
        });
        if p.open_errno != 0 && k <= p.open_times {
            return errno(p.open_errno) as libc::c_int;
        }
    }
    let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode as libc::c_uint) as libc::c_int;
    super::c19::opened(flags, fd >= 0);
    fd
}

/// Parses a path under a plan; answers also the number of reads and opens.
pub fn under(plan: Plan, path: &Path) -> (Out, usize, usize) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            PLAN.with(|p| p.set(Plan::default()));
        }
    }
    READS.with(|r| r.set(0));
    OPENS.with(|r| r.set(0));
    PLAN.with(|p| p.set(Plan { on: true, ..plan }));
    let r = {
        let _off = Off;
        Contract::parse(path)
    };
    (out(r), READS.with(|r| r.get()), OPENS.with(|r| r.get()))
}

// --------------------------------------------------------------- outcomes

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Contract(String),
    Parse(String),
    Io,
    Other(String),
}

fn out(r: Result<Contract, Error>) -> Out {
    match r {
        Ok(c) => Out::Contract(format!("{c:?}")),
        Err(Error::ParseError(m)) => Out::Parse(m),
        Err(Error::IoError(_)) => Out::Io,
        Err(e) => Out::Other(format!("{e:?}")),
    }
}

fn of_bytes(b: &[u8]) -> Out {
    match std::str::from_utf8(b) {
        Ok(s) => out(s.parse()),
        Err(_) => Out::Io,
    }
}

/// What the file system has at a path right now, read by the harness.
fn expected(path: &Path) -> Out {
    match fs::read(path) {
        Ok(b) => of_bytes(&b),
        Err(_) => Out::Io,
    }
}

fn compare(what: &str, got: &Out, want: &Out) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: parsing the path gives {got:?}, but parsing the contents {want:?}"))
    }
}

/// Identity and contents of what a path leads to.
fn snapshot(path: &Path) -> String {
    use std::os::unix::fs::MetadataExt;
    match fs::metadata(path) {
        Ok(m) => format!(
            "{} {} {:?} {:o} {:?}",
            m.ino(),
            m.len(),
            m.modified().ok(),
            m.mode(),
            if m.is_file() { fs::read(path).ok() } else { None }
        ),
        Err(_) => "nothing".into(),
    }
}

/// Parses a path and compares with its contents; the file must not change.
fn agrees(what: &str, path: &Path) -> Result<(), String> {
    let before = snapshot(path);
    let want = expected(path);
    let got = out(Contract::parse(path));
    compare(what, &got, &want)?;
    if snapshot(path) != before {
        return Err(format!("{what}: parsing the file changes it"));
    }
    Ok(())
}

// ---------------------------------------------------------------- scratch

/// A directory, and files to keep open as long as it is there.
pub struct Scratch(pub PathBuf, Mutex<Vec<File>>);

impl Scratch {
    pub fn new(engine: &Engine) -> Scratch {
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = engine.verif.join("target").join(format!(
            "mc-c16-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p, Mutex::new(vec![]))
    }
    fn keep(&self, f: File) {
        self.1.lock().unwrap().push(f);
    }
    pub fn at(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

// --------------------------------------------------------------- histories

const CONTENTS: &[&[u8]] = &[
    b"scilla_version 0 contract C (a : T)",
    b"scilla_version 0 contract D (a : T)",
    b"scilla_version 0 contract C (a : T ",
    b"scilla_version 0 contract C (a : T\xff",
    b"",
    b"scilla_version 0\r\ncontract C ()\r\n",
    b"scilla_version 0 contract C (a:Option)",
    b"scilla_version 0 contract C (a : T) transition t () end",
];

/// An operation: letter, name (a or b), content.
type Op = (u8, u8, u8);

fn ops(contents: &[u8]) -> Vec<Op> {
    let mut v = vec![];
    for n in [b'a', b'b'] {
        for c in contents {
            v.push((b'w', n, *c));
        }
        for c in &contents[..2] {
            v.push((b'r', n, *c));
        }
        for o in b"hpdml" {
            v.push((*o, n, 0));
        }
    }
    v.push((b'k', b'a', 0));
    v
}

fn show(h: &[Op]) -> String {
    h.iter().map(|o| format!("{}{}{}", o.0 as char, o.1 as char, o.2)).collect::<Vec<_>>().join(" ")
}

fn read_ops(s: &str) -> Vec<Op> {
    s.split(' ')
        .filter(|w| w.len() >= 3)
        .map(|w| (w.as_bytes()[0], w.as_bytes()[1], w.as_bytes()[2] - b'0'))
        .collect()
}

/// Everything written looks equally old.
fn age(p: &Path) {
    if let Ok(f) = File::options().write(true).open(p) {
        let _ = f.set_modified(SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000));
    }
}

fn apply(dir: &Path, o: Op) {
    let p = dir.join((o.1 as char).to_string());
    let other = dir.join(if o.1 == b'a' { "b" } else { "a" });
    let content = CONTENTS[o.2 as usize % CONTENTS.len()];
    match o.0 {
        // Written in place.
        b'w' => {
            let _ = fs::write(&p, content);
            age(&p);
        }
        // Replaced by another file.
        b'r' => {
            let t = dir.join("tmp");
            let _ = fs::write(&t, content);
            age(&t);
            let _ = fs::rename(&t, &p);
            let _ = fs::remove_file(&t);
        }
        // Cut in half.
        b'h' => {
            if let Ok(f) = File::options().write(true).open(&p) {
                let n = f.metadata().map(|m| m.len()).unwrap_or(0);
                let _ = f.set_len(n / 2);
            }
            age(&p);
        }
        // Appended to.
        b'p' => {
            if let Ok(mut f) = File::options().append(true).open(&p) {
                let _ = std::io::Write::write_all(&mut f, b" field f : T = v");
            }
            age(&p);
        }
        b'd' => {
            if fs::remove_file(&p).is_err() {
                let _ = fs::remove_dir(&p);
            }
        }
        b'm' => {
            let _ = fs::create_dir(&p);
        }
        b'l' => {
            let _ = std::os::unix::fs::symlink(other.file_name().unwrap(), &p);
        }
        // The two names change places.
        _ => {
            let t = dir.join("tmp");
            let _ = fs::rename(&p, &t);
            let _ = fs::rename(&other, &p);
            let _ = fs::rename(&t, &other);
        }
    }
}

fn clear(dir: &Path) {
    for n in ["a", "b", "tmp"] {
        let p = dir.join(n);
        if fs::remove_file(&p).is_err() {
            let _ = fs::remove_dir(&p);
        }
    }
}

/// Applies the operations; both paths are parsed after each, or at the end
/// and once before (`lazy`).
fn history(dir: &Path, h: &[Op], states: &mut HashSet<u64>) -> Result<(), String> {
    clear(dir);
    for (i, o) in h.iter().enumerate() {
        apply(dir, *o);
        let mut key = String::new();
        for n in ["a", "b"] {
            let p = dir.join(n);
            agrees(&format!("{} after step {} of {}", n, i + 1, show(h)), &p)?;
            key.push_str(&match fs::symlink_metadata(&p) {
                Ok(m) => format!("{:?} {:?};", m.file_type(), fs::read(&p).ok()),
                Err(_) => "-".into(),
            });
        }
        states.insert(engine::hash(&key));
    }
    Ok(())
}

// ------------------------------------------------------------------- paths

pub fn path_kinds(s: &Scratch, content: &[u8]) -> Vec<(String, PathBuf)> {
    let mut v: Vec<(String, PathBuf)> = vec![];
    let names = [
        "x.scilla", "x", "x.txt", "a b", "é∀", "-x", "x\ny", ".hidden", "X.SCILLA", "x.scilla.bak", "a.scilla.", "~", "$HOME", "*", "file:x",
        "%41", "\u{feff}x", "CON",
    ];
    for n in names {
        let p = s.at(n);
        let _ = fs::write(&p, content);
        v.push((format!("file {n:?}"), p));
    }
    let raw = s.0.join(std::ffi::OsStr::from_bytes(b"n\xff\xfe"));
    let _ = fs::write(&raw, content);
    v.push(("a file whose name is not UTF-8".into(), raw));
    let file = s.at("x");
    let dir = s.at("dir");
    let _ = fs::create_dir_all(dir.join("sub.scilla"));
    let _ = fs::write(dir.join("sub.scilla/x.scilla"), content);
    v.push(("file in directories".into(), dir.join("sub.scilla/x.scilla")));
    v.push(("dot segments".into(), dir.join("./sub.scilla/.././sub.scilla/x.scilla")));
    v.push(("double slash".into(), PathBuf::from(format!("{}//x", s.0.display()))));
    v.push(("directory".into(), dir.clone()));
    v.push(("directory with extension".into(), dir.join("sub.scilla")));
    v.push(("missing".into(), s.at("missing")));
    v.push(("missing directory".into(), s.at("no/such/x")));
    v.push(("file as directory".into(), file.join("y")));
    v.push(("file with trailing slash".into(), PathBuf::from(format!("{}/", file.display()))));
    v.push(("empty path".into(), PathBuf::new()));
    v.push(("root".into(), PathBuf::from("/")));
    v.push(("device".into(), PathBuf::from("/dev/null")));
    v.push(("read fails".into(), PathBuf::from("/proc/self/mem")));
    v.push(("NUL".into(), PathBuf::from(std::ffi::OsString::from_vec([s.0.as_os_str().as_bytes(), b"/x\0y"].concat()))));
    v.push(("long name".into(), s.at(&"n".repeat(300))));
    v.push(("long path".into(), PathBuf::from(format!("{}/{}", s.0.display(), "d/".repeat(3000)))));
    for (l, t) in [("good", "x"), ("chain", "good"), ("dangling", "missing"), ("self", "self"), ("p1", "p2"), ("p2", "p1"), ("todir", "dir")] {
        let p = s.at(l);
        let _ = std::os::unix::fs::symlink(t, &p);
        v.push((format!("link to {t}"), p));
    }
    let hard = s.at("hard");
    let _ = fs::hard_link(&file, &hard);
    v.push(("hard link".into(), hard));
    // Readable, though it has no name left.
    let gone = s.at("gone");
    if fs::write(&gone, content).is_ok() {
        if let Ok(f) = File::open(&gone) {
            let _ = fs::remove_file(&gone);
            v.push(("a deleted file, through its descriptor".into(), format!("/proc/self/fd/{}", f.as_raw_fd()).into()));
            s.keep(f);
        }
    }
    if let Ok(f) = File::open(&file) {
        v.push(("a file, through its descriptor".into(), format!("/dev/fd/{}", f.as_raw_fd()).into()));
        s.keep(f);
    }
    let other = s.at("moved");
    if fs::create_dir_all(&other).is_ok() && fs::write(other.join("x"), content).is_ok() {
        if let Ok(f) = File::open(&other) {
            let _ = fs::rename(&other, s.at("moved away"));
            v.push(("in a directory that was moved, through its descriptor".into(), format!("/proc/self/fd/{}/x", f.as_raw_fd()).into()));
            s.keep(f);
        }
    }
    if let Ok(cwd) = std::env::current_dir() {
        if let Ok(r) = s.0.strip_prefix(&cwd) {
            v.push(("relative".into(), r.join("x.scilla")));
            v.push(("relative with dot".into(), Path::new(".").join(r).join("x.scilla")));
        }
    }
    v
}

// ---------------------------------------------------------------- contents

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

fn content(s: &Scratch, b: &[u8]) -> Result<(), String> {
    let p = s.at("c.scilla");
    fs::write(&p, b).map_err(|e| e.to_string())?;
    agrees(&format!("{:?}", String::from_utf8_lossy(b).chars().take(200).collect::<String>()), &p)
}

const TEXT: &str = "scilla_version 0 (* c *)\ncontract C (a : T)\r\nfield f : String = \"s\" transition t () end";

/// Byte sequences that are not UTF-8.
const BAD: &[&[u8]] = &[
    b"\xff", b"\x80", b"\xc3", b"\xc0\x80", b"\xe2\x88", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xf0\x9f\x98", b"\xfe\xff", b"\xc3\x28",
];
/// Sequences that are.
const GOOD: &[&str] = &["\u{feff}", "\0", "é", "\r\n", "\r", "\u{2028}", "\u{10ffff}", "\u{1a}", "\n", " ", "(*", "\u{fffd}"];

fn contents(engine: &Engine) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let t = TEXT.as_bytes();
    for i in 0..=t.len() {
        for b in BAD {
            v.push([&t[..i], b, &t[i..]].concat());
            if !engine.quick() && i < t.len() {
                v.push([&t[..i], b, &t[i + 1..]].concat());
            }
        }
        for g in GOOD {
            if engine.quick() && i % 3 != 0 && i > 2 && i < t.len() - 1 {
                continue;
            }
            v.push([&t[..i], g.as_bytes(), &t[i..]].concat());
        }
        v.push(t[..i].to_vec());
    }
    // Something before and behind, around mistakes as well.
    let wrong = [TEXT.to_string(), format!("{TEXT} )"), TEXT.trim_end_matches("end").to_string(), TEXT.replace("a : T", "a : Option")];
    for base in &wrong {
        for a in GOOD.iter().chain([&"\n\n", &" \t", &""]) {
            for b in GOOD.iter().chain([&"\n\n", &" \t", &""]) {
                v.push(format!("{a}{base}{b}").into_bytes());
            }
        }
    }
    for s in ["", " ", "\n", "\u{feff}", "\0", "(*", "\""] {
        v.push(s.as_bytes().to_vec());
    }
    v.push(TEXT.replace('\n', "\r\n").into_bytes());
    v.push(TEXT.replace('\n', "\r").into_bytes());
    v.push(TEXT.encode_utf16().flat_map(|u| u.to_le_bytes()).collect());
    v
}

/// A contract of exactly this many bytes with declarations at its end.
fn sized(n: usize, multi: bool) -> Vec<u8> {
    let head = "scilla_version 0 (*";
    let tail = "*) contract C (a : T) field f : T = v transition t () end";
    let fill = n.saturating_sub(head.len() + tail.len());
    let mut s = String::from(head);
    if multi {
        // Characters of several bytes across every boundary.
        s.push_str(&"x".repeat(fill % 3));
        s.push_str(&"∀".repeat(fill / 3));
    } else {
        s.push_str(&"c\n".repeat(fill / 2));
        s.push_str(&"c".repeat(fill % 2));
    }
    s.push_str(tail);
    s.into_bytes()
}

// ------------------------------------------------------------------ faults

fn fault(s: &Scratch, b: &[u8], plan: Plan) -> Result<(usize, usize), String> {
    let p = s.at("fault.scilla");
    fs::write(&p, b).map_err(|e| e.to_string())?;
    let (got, reads, opens) = under(plan, &p);
    let interrupted = libc::EINTR;
    let failed = (plan.fail_read > 0 && plan.fail_read <= reads && plan.read_errno != interrupted)
        || (plan.open_errno != 0 && plan.open_errno != interrupted && opens > 0);
    let want = if failed { Out::Io } else { of_bytes(b) };
    let what = format!(
        "{:?} with reads of {} bytes, error {} at read {}, error {} on opening",
        String::from_utf8_lossy(b).chars().take(80).collect::<String>(),
        plan.chunk,
        plan.read_errno,
        plan.fail_read,
        plan.open_errno
    );
    compare(&what, &got, &want)?;
    if fs::read(&p).ok().as_deref() != Some(b) {
        return Err(format!("{what}: the file has changed"));
    }
    Ok((reads, opens))
}

fn fault_case(b: &[u8], p: Plan) -> String {
    format!("x:{}:{}:{}:{}:{}:{}", p.chunk, p.fail_read, p.read_errno, p.open_errno, p.open_times, hex(b))
}

/// A named pipe that is written in two parts.
/// A pipe without a name, reached through its descriptor.
fn nameless(b: &[u8]) -> Result<(), String> {
    use std::io::Write;
    use std::os::fd::FromRawFd;
    let mut fds = [0; 2];
    if b.len() > 4096 || unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
        return Ok(());
    }
    let (r, mut w) = unsafe { (File::from_raw_fd(fds[0]), File::from_raw_fd(fds[1])) };
    // Fits into the pipe's buffer.
    let _ = w.write_all(b);
    drop(w);
    let path = PathBuf::from(format!("/proc/self/fd/{}", r.as_raw_fd()));
    let got = out(Contract::parse(&path));
    compare("a pipe without a name", &got, &of_bytes(b))
}

/// Endings that mean something to somebody.
const ENDINGS: &[&str] = &[
    "scilla", "scillib", "scilexp", "scil", "lib", "json", "toml", "yaml", "html", "text", "utf8", "utf16", "orig", "part", "gzip", "zstd", "lalrpop",
    "contract", "library", "test", "tests", "main", "index", "stdin", "stdout", "README", "Makefile", "LICENSE", "scilla_version", "default", "null",
    "import", "cache", "lock", "swap", "backup", "temp", "crdownload", "stdlib", "checker", "md5", "sha256", "7z", "mp3", "0", "1", "000",
];

fn named(s: &Scratch, name: &str, c: usize) -> Result<(), String> {
    let p = s.at(name);
    fs::write(&p, CONTENTS[c]).map_err(|e| e.to_string())?;
    let r = agrees(&format!("file {name:?}"), &p);
    let _ = fs::remove_file(&p);
    r
}

/// Names of files and directories that mean something to shells, other systems
/// or other ways of naming things.
const PARTS: &[&str] = &[
    "~", "~root", "~x", "$HOME", "${HOME}", "%HOME%", "$PWD", "-", "--", "-x", "file:", "file:x", "http:", "@", "#", "#x", "*", "?", "[a]", "{a}", "{a,b}",
    "!x", "a b", " ", "a ", " a", "\\", "a\\b", "C:", "c:x", ".x", "..x", "...", "x.", "con", "nul", "stdin", "dev", "é", "e\u{301}", "A", "a", "%20", "+",
    "a%2Fb", "null", "&", "|", "<", ">", ";", "`x`", "$(x)", "\"a\"", "'a'", "\n", "\t", "~~", "tmp", "proc", "x:y", "x=y", "x,y", "a\u{a0}b", "\u{feff}x",
    "contracts", "tests", "src", "stdlib", ".scilla", "a.scilla", "\u{202e}x", "x?y", "x#y", "x@2", "0", "1", "2",
];

const FORMS: usize = 5;

/// A file in a directory, reached in several ways from the current directory.
fn relative(s: &Scratch, dir: &str, name: &str, form: usize, c: usize) -> Result<(), String> {
    struct Back(PathBuf);
    impl Drop for Back {
        fn drop(&mut self) {
            let _ = std::env::set_current_dir(&self.0);
        }
    }
    let _back = Back(std::env::current_dir().map_err(|e| e.to_string())?);
    std::env::set_current_dir(&s.0).map_err(|e| e.to_string())?;
    let d = Path::new(dir);
    let write = fs::create_dir_all(d).and_then(|_| fs::write(d.join(name), CONTENTS[c]));
    let p = match form {
        0 => d.join(name),
        1 => Path::new(".").join(d).join(name),
        2 => s.0.join(d).join(name),
        3 => d.join("..").join(d).join(".").join(name),
        _ => PathBuf::from(format!("{dir}//{name}")),
    };
    let r = match write {
        Ok(()) => agrees(&format!("path {p:?} from {:?}", s.0), &p),
        Err(_) => Ok(()),
    };
    let _ = fs::remove_file(d.join(name));
    if dir != "." {
        let _ = fs::remove_dir(d);
    }
    r
}

fn pipe(s: &Scratch, b: &[u8], cut: usize, n: usize) -> Result<(), String> {
    let p = s.at(&format!("fifo{n}"));
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).map_err(|e| e.to_string())?;
    if unsafe { libc::mkfifo(c.as_ptr(), 0o600) } != 0 {
        return Ok(());
    }
    let got = std::thread::scope(|t| {
        let p = &p;
        t.spawn(move || {
            use std::io::Write;
            // Opens when the reader does.
            if let Ok(mut f) = File::options().write(true).open(p) {
                let _ = f.write_all(&b[..cut]);
                std::thread::sleep(Duration::from_millis(3));
                let _ = f.write_all(&b[cut..]);
            }
        });
        let r = engine::guard(|| out(Contract::parse(p)));
        // Should nothing have opened the pipe, let the writer go.
        use std::os::unix::fs::OpenOptionsExt;
        let _ = File::options().read(true).custom_flags(libc::O_NONBLOCK).open(p);
        r
    });
    let _ = fs::remove_file(&p);
    let got = got.map_err(|e| format!("panic: {e}"))?;
    compare(&format!("a pipe written in two parts, the first of {cut} bytes"), &got, &of_bytes(b))
}

// --------------------------------------------------------------------- run

fn count(b: &[u8]) {
    if let Ok(s) = std::str::from_utf8(b) {
        if s.len() < 2000 {
            stepped(reflex::tokenize(s).len());
        }
    }
}

pub fn run(engine: &Engine) {
    // All histories of operations on two names.
    let o = ops(&[0, 1, 3, 7]);
    let depth = engine.pick(3, 4);
    let n = o.len();
    let all: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    engine.parallel(n * n, |i| {
        let s = Scratch::new(engine);
        let mut states = HashSet::new();
        let mut runs = 0;
        for rest in 0..n.pow(depth - 2) {
            let mut h = vec![o[i / n], o[i % n]];
            let mut r = rest;
            for _ in 2..depth {
                h.push(o[r % n]);
                r /= n;
            }
            runs += 1;
            let mut new = HashSet::new();
            if !engine.check(&format!("h:{}", show(&h)), || history(&s.0, &h, &mut new)) || engine.stopped() {
                break;
            }
            states.extend(new);
            stepped(h.len());
        }
        let mut all = all.lock().unwrap();
        let before = all.len();
        all.extend(states);
        tally(engine, (all.len() - before) as u64, runs);
    });
    engine.add("histories", n.pow(depth) as u64);
    engine.progress("histories on two names");
    // Longer ones on one name, all contents.
    let o: Vec<Op> = ops(&[0, 1, 2, 3, 4, 5, 6, 7]).into_iter().filter(|o| o.1 == b'a' && o.0 != b'k').collect();
    let n = o.len();
    let depth = engine.pick(3, 4);
    engine.parallel(n * n, |i| {
        let s = Scratch::new(engine);
        let mut runs = 0;
        let mut states = HashSet::new();
        for rest in 0..n.pow(depth - 2) {
            let mut h = vec![o[i / n], o[i % n]];
            let mut r = rest;
            for _ in 2..depth {
                h.push(o[r % n]);
                r /= n;
            }
            runs += 1;
            let mut new = HashSet::new();
            if !engine.check(&format!("h:{}", show(&h)), || history(&s.0, &h, &mut new)) || engine.stopped() {
                break;
            }
            states.extend(new);
            stepped(h.len());
        }
        let mut all = all.lock().unwrap();
        let before = all.len();
        all.extend(states);
        tally(engine, (all.len() - before) as u64, runs);
    });
    engine.add("histories", n.pow(depth) as u64);
    engine.progress("histories on one name");

    // Kinds of paths.
    for (c, b) in CONTENTS.iter().enumerate() {
        let s = Scratch::new(engine);
        let kinds = path_kinds(&s, b);
        engine.parallel(kinds.len(), |i| {
            engine.check(&format!("p:{c}:{i}"), || agrees(&kinds[i].0, &kinds[i].1));
            count(b);
            tally(engine, 1, 1);
        });
        if c == 0 {
            for k in kinds.iter().step_by(9) {
                engine.sample(format!("{}: {:?}", k.0, expected(&k.1)));
            }
        }
    }
    for b in CONTENTS {
        engine.check(&format!("n:{}", hex(b)), || nameless(b));
        tally(engine, 1, 1);
    }
    engine.progress("kinds of paths");

    // Names with every ending of up to three letters, and short names.
    let letters: Vec<String> = ('a'..='z').map(String::from).collect();
    let mut names: Vec<String> = vec![];
    for a in &letters {
        names.push(format!("x.{a}"));
        for b in &letters {
            names.push(format!("x.{a}{b}"));
            names.extend(letters.iter().map(|c| format!("x.{a}{b}{c}")));
        }
    }
    let ascii: Vec<char> = (1..128u8).map(char::from).filter(|c| *c != '/').collect();
    for a in &ascii {
        names.push(a.to_string());
        names.extend(ascii.iter().map(|b| format!("{a}{b}")));
    }
    names.extend(ENDINGS.iter().flat_map(|e| [format!("x.{e}"), format!("x.scilla.{e}"), e.to_string(), format!("{e}.scilla"), e.to_uppercase(), format!("X.{}", e.to_uppercase())]));
    names.retain(|n| !matches!(n.as_str(), "." | ".."));
    engine.note("names", names.len());
    engine.parallel(names.len().div_ceil(64), |i| {
        let s = Scratch::new(engine);
        for (j, n) in names.iter().enumerate().skip(i * 64).take(64) {
            let c = if names.len() - j <= 6 * ENDINGS.len() { 0 } else { 4 };
            engine.check(&format!("e:{c}:{n}"), || named(&s, n, c));
            tally(engine, 1, 1);
        }
    });
    engine.progress("names of files");
    // Relative paths; the current directory belongs to the whole process.
    engine.alone(|| {
        let s = Scratch::new(engine);
        for (i, a) in PARTS.iter().enumerate() {
            for form in 0..FORMS {
                engine.check(&format!("d:0:{form}:.\u{1}{a}"), || relative(&s, ".", a, form, 0));
            }
            for (j, b) in PARTS.iter().enumerate() {
                let forms = if engine.quick() && i != j { (i + j) % FORMS..(i + j) % FORMS + 1 } else { 0..FORMS };
                for form in forms {
                    engine.check(&format!("d:4:{form}:{a}\u{1}{b}"), || relative(&s, a, b, form, 4));
                    tally(engine, 1, 1);
                }
            }
            tally(engine, FORMS as u64, FORMS as u64);
        }
    });
    engine.note("peculiar_names", PARTS.len());
    engine.progress("relative paths");

    // Contents.
    let list = contents(engine);
    engine.parallel(list.len().div_ceil(16), |i| {
        let s = Scratch::new(engine);
        let mut n = 0;
        for b in list.iter().skip(i * 16).take(16) {
            n += 1;
            engine.check(&format!("c:{}", hex(b)), || content(&s, b));
            count(b);
        }
        tally(engine, n, n);
    });
    let mut sizes = vec![];
    for base in [64, 128, 1024, 4096, 8192, 16384, 32768, 65536, 131072, 1 << 20] {
        for d in [-2i64, -1, 0, 1, 2] {
            sizes.push((base + d).max(80) as usize);
        }
    }
    let kinds = if engine.quick() { 1 } else { 2 };
    engine.parallel(sizes.len() * kinds, |i| {
        if engine.quick() && sizes[i] > 200_000 && sizes[i] % 2 == 1 {
            return;
        }
        let multi = if kinds == 2 { i % 2 == 1 } else { i % 3 == 1 };
        let n = sizes[i / kinds];
        let s = Scratch::new(engine);
        engine.check(&format!("z:{n}:{multi}"), || content(&s, &sized(n, multi)));
        tally(engine, 1, 1);
    });
    engine.progress("contents");

    // Every way a system call of one parse can be cut short or fail.
    let texts: Vec<&[u8]> = vec![CONTENTS[0], CONTENTS[2], CONTENTS[3], CONTENTS[5], TEXT.as_bytes(), "contract é".as_bytes(), b""];
    let hits: Mutex<(usize, usize)> = Mutex::new((0, 0));
    engine.parallel(texts.len() * 4, |i| {
        let b = texts[i / 4];
        let s = Scratch::new(engine);
        let mut n = 0;
        let mut go = |plan: Plan| -> usize {
            n += 1;
            let mut r = (0, 0);
            engine.check(&fault_case(b, plan), || {
                r = fault(&s, b, plan)?;
                Ok(())
            });
            let mut h = hits.lock().unwrap();
            h.0 += r.0;
            h.1 += r.1;
            r.0
        };
        match i % 4 {
            // Reads of every length.
            0 => {
                for chunk in 1..=b.len() + 1 {
                    go(Plan {
                        chunk,
                        ..Plan::default()
                    });
                }
            }
            // Every read of every chunked parse fails or is interrupted.
            1 | 2 => {
                let e = if i % 4 == 1 { libc::EIO } else { libc::EINTR };
                for chunk in [0, 1, 2, 3, 7, 16, 31] {
                    let reads = go(Plan {
                        chunk,
                        ..Plan::default()
                    });
                    for k in 1..=reads + 1 {
                        if engine.quick() && k % 3 != 1 && k + 2 < reads && b.len() > 40 {
                            continue;
                        }
                        go(Plan {
                            chunk,
                            fail_read: k,
                            read_errno: e,
                            ..Plan::default()
                        });
                    }
                }
            }
            // Opening and reading fail in every way.
            _ => {
                for e in [libc::EACCES, libc::EPERM, libc::EMFILE, libc::ENFILE, libc::ENOENT, libc::EIO, libc::ELOOP, libc::EISDIR, libc::ETXTBSY, libc::EAGAIN] {
                    go(Plan {
                        open_errno: e,
                        open_times: usize::MAX,
                        ..Plan::default()
                    });
                    go(Plan {
                        fail_read: 1,
                        read_errno: e,
                        ..Plan::default()
                    });
                }
                go(Plan {
                    open_errno: libc::EINTR,
                    open_times: 3,
                    ..Plan::default()
                });
            }
        }
        count(b);
        tally(engine, n, n);
    });
    let h = *hits.lock().unwrap();
    engine.add("reads_under_control", h.0 as u64);
    engine.add("opens_under_control", h.1 as u64);
    engine.progress("failing system calls");

    // Pipes.
    let b = CONTENTS[0];
    engine.parallel(b.len(), |i| {
        let s = Scratch::new(engine);
        engine.check(&format!("f:{i}"), || pipe(&s, b, i, i));
        count(b);
        tally(engine, 1, 1);
    });
    engine.progress("pipes");
}

pub fn replay(engine: &Engine, case: &str) {
    let (tag, rest) = case.split_once(':').unwrap_or((case, ""));
    let s = Scratch::new(engine);
    let nums: Vec<usize> = rest.split(':').filter_map(|w| w.parse().ok()).collect();
    engine.check(case, || match tag {
        "h" => history(&s.0, &read_ops(rest), &mut HashSet::new()),
        "p" => {
            let kinds = path_kinds(&s, CONTENTS[nums[0]]);
            agrees(&kinds[nums[1]].0, &kinds[nums[1]].1)
        }
        "c" => content(&s, &unhex(rest)),
        "n" => nameless(&unhex(rest)),
        "e" => {
            let (c, name) = rest.split_once(':').unwrap_or(("0", rest));
            named(&s, name, c.parse().unwrap_or(0))
        }
        "d" => {
            let mut w = rest.splitn(3, ':');
            let (c, form, names) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
            let (a, b) = names.split_once('\u{1}').unwrap_or((".", names));
            relative(&s, a, b, form.parse().unwrap_or(0), c.parse().unwrap_or(0))
        }
        "z" => content(&s, &sized(nums[0], rest.ends_with("true"))),
        "f" => pipe(&s, CONTENTS[0], nums[0], 0),
        _ => {
            let w: Vec<&str> = rest.split(':').collect();
            let n = |i: usize| w[i].parse::<usize>().unwrap_or(0);
            let plan = Plan {
                on: true,
                chunk: n(0),
                fail_read: n(1),
                read_errno: n(2) as i32,
                open_errno: n(3) as i32,
                open_times: n(4),
            };
            fault(&s, &unhex(w[5]), plan).map(|_| ())
        }
    });
}
