//! C18: what parsing costs when any part of a contract is repeated.
//!
//! The cost is measured at two sizes that differ by a factor of 16: the bytes
//! asked of the heap, which are the same in every run, and the processor time.
//! A cost that grows with the square of the size grows by a factor of 256.

use super::common::*;
use crate::bridge::{end_of, start_of, tok_str};
use mc::engine::Engine;
use mc::grammar::{decode, encode, Grammar, Kinds, Nest};
use mc::terms::{self, K};
use scilla_parser::parser::parser::ProgramParser;
use scilla_parser::simplified_representation::emitter::SrEmitter;
use scilla_parser::Contract;
use std::alloc::Layout;
use std::cell::Cell;
use std::sync::Mutex;

const FACTOR: usize = 16;
const STACK: usize = 1 << 30;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

/// Called by the allocator for every use.
pub fn used(l: Layout, n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + n.saturating_sub(l.size()) as u64));
}

pub fn used_new(n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
}

/// Processor time of this thread, in seconds.
fn now() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Unit {
    Heap,
    Time,
}

/// What `f` costs.
fn cost<R>(f: impl FnOnce() -> R) -> (f64, f64, R) {
    let (b, t) = (BYTES.get(), now());
    let r = f();
    let (t, b) = (now() - t, BYTES.get() - b);
    (b as f64, t, r)
}

fn spelling(k: K, i: usize) -> String {
    match k {
        terms::BYSTRN => format!("ByStr{}", 100 + i),
        terms::NUM => format!("{i}"),
        terms::HEX => format!("0x{i:08x}"),
        terms::STR => format!("\"s{i}\""),
        terms::ID => format!("v{i}"),
        terms::SPID => format!("_s{i}"),
        terms::CID => format!("N{i}"),
        terms::TID => format!("'A{i}"),
        _ => terms::canon(k).s.into(),
    }
}

/// Cost of parser and converter on a pumped token sequence: heap, time.
fn pumped(n: &Nest, distinct: bool, m: usize) -> (f64, f64) {
    let ks = n.kinds(m);
    let mut text = String::new();
    let mut ends = vec![];
    for (i, k) in ks.iter().enumerate() {
        if distinct && terms::has_payload(*k) && !terms::canon(*k).s.starts_with("ByStr") {
            text.push_str(&spelling(*k, i));
        } else {
            text.push_str(terms::canon(*k).s);
        }
        ends.push(text.len());
    }
    let mut at = 0;
    let toks: Vec<_> = ks
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let s = &text[at..ends[i]];
            at = ends[i];
            Ok((start_of(i), tok_str(*k, s), end_of(i)))
        })
        .collect();
    stepped(ks.len());
    let (h, t, ()) = cost(|| {
        let mut errors = vec![];
        let p = ProgramParser::new().parse(&mut errors, toks);
        if let Ok(p) = p {
            if let Ok(c) = SrEmitter::default().emit(&p) {
                print(&c);
            }
        }
    });
    (h, t)
}

/// Prints every type of an interface.
fn print(c: &Contract) {
    let params = c.transitions.iter().flat_map(|t| t.params.iter());
    for f in c.init_params.iter().chain(c.fields.iter()).chain(params) {
        let _ = std::hint::black_box(f.r#type.to_string());
    }
}

/// Cost of the public entry point on a pumped text: heap, time.
fn written(x: &Text, m: usize) -> (f64, f64) {
    let mut s = x.pre.clone();
    for _ in 0..m {
        s.push_str(&x.unit);
    }
    s.push_str(&x.post);
    let (h, t, _) = cost(|| s.parse::<Contract>().is_ok());
    (h, t)
}

struct Text {
    pre: String,
    unit: String,
    post: String,
}

/// Judges a cost that should grow with `m`.
fn judge_growth(unit: Unit, m: usize, f: &dyn Fn(usize) -> (f64, f64)) -> Result<u64, String> {
    match unit {
        Unit::Heap => {
            let a = f(m).0;
            let (b, t) = f(m * FACTOR);
            if t > 1.0 {
                slow(m, t, f)?;
            }
            if b > 3.0 * FACTOR as f64 * a + 4096.0 {
                return Err(format!(
                    "{m} repetitions take {a} bytes of the heap, but {} take {b}",
                    m * FACTOR
                ));
            }
            Ok(2)
        }
        Unit::Time => {
            let b = f(m * FACTOR).1;
            if b < 0.01 {
                return Ok(1);
            }
            let a = f(m).1;
            if b < 4.0 * FACTOR as f64 * a {
                return Ok(2);
            }
            // Look again, further up, where only the growth counts.
            static ONE: Mutex<()> = Mutex::new(());
            let _one = ONE.lock();
            let mut seen = vec![];
            for _ in 0..3 {
                let (b, c) = (f(m * FACTOR).1, f(4 * m * FACTOR).1);
                seen.push(c / b);
                if c < 9.0 * b {
                    return Ok(8);
                }
            }
            Err(format!(
                "{m} repetitions take {a:.4} s, {} take {b:.4} s, and four times as many {seen:.1?} times as long",
                m * FACTOR
            ))
        }
    }
}

/// For a run that takes long: whether that is because the time grows faster
/// than the size. Looks at smaller sizes only.
fn slow(m: usize, t: f64, f: &dyn Fn(usize) -> (f64, f64)) -> Result<(), String> {
    let mut seen = vec![];
    let mut t = t;
    for _ in 0..3 {
        let s = f(m * FACTOR / 4).1;
        seen.push(t / s);
        if t < 9.0 * s {
            return Ok(());
        }
        t = f(m * FACTOR).1;
    }
    Err(format!("{} repetitions take {t:.1} s, {seen:.1?} times as long as a quarter of them", m * FACTOR))
}

fn pump_case(unit: Unit, distinct: bool, m: usize, n: &Nest) -> String {
    let l: Vec<String> = [&n.pre, &n.left, &n.mid, &n.right, &n.post].iter().map(|k| encode(k)).collect();
    format!("{unit:?}|{distinct}|{m}|{}", l.join("|"))
}

fn pump(engine: &Engine, unit: Unit, distinct: bool, m: usize, n: &Nest) {
    engine.check(&pump_case(unit, distinct, m, n), || {
        judge_growth(unit, m, &|m| pumped(n, distinct, m)).map(|runs| tally(engine, 1, runs))
    });
}

fn text_case(unit: Unit, m: usize, x: &Text) -> String {
    format!("x\u{1}{unit:?}\u{1}{m}\u{1}{}\u{1}{}\u{1}{}", x.pre, x.unit, x.post)
}

fn text(engine: &Engine, unit: Unit, m: usize, x: &Text) {
    engine.check(&text_case(unit, m, x), || {
        judge_growth(unit, m, &|m| written(x, m)).map(|runs| tally(engine, 1, runs))
    });
}

fn kinds(s: &str) -> Kinds {
    mc::reflex::tokenize(s).iter().map(|l| l.k).collect()
}

/// Fewer repetitions of what is long.
fn fewer(m: usize, n: &Nest) -> usize {
    (8 * m / (n.left.len() + n.right.len()).max(8)).max(100)
}

/// Places of a contract where something may be repeated.
const SKELETON: [(&str, &str); 17] = [
    ("scilla_version 0 import A", "B"),
    ("", "import B as C"),
    ("library L", "let a = b"),
    ("", "type T"),
    ("type U = | A", "| B of T"),
    ("let f =", "let a = b in"),
    ("c let g = { a : b", "; a : b"),
    ("} let h = match a with", "| B => c"),
    ("| _ => d end contract C ( a : T", ", a : T"),
    (", b : ByStr20 with contract field a : T", ", field a : T"),
    ("end ) with a =>", "field a : T = b"),
    ("field m : Map T T = Emp T T", "transition t ( ) end"),
    ("", "procedure p ( ) end"),
    ("transition t ( a : T", ", a : T"),
    (") a = b", "; a = b"),
    ("; m", "[ a ]"),
    (":= b ; match a with", "| A => accept"),
];

/// Every two places repeated together.
fn places() -> Vec<Nest> {
    let mut out = vec![];
    let n = SKELETON.len();
    for i in 0..n {
        for j in i..n {
            let part = |from: usize, to: usize| kinds(&SKELETON[from..to].iter().map(|s| s.0).collect::<Vec<_>>().join(" "));
            let mut post = part(j + 1, n);
            post.extend(kinds("end end"));
            out.push(Nest {
                name: String::new(),
                pre: part(0, i + 1),
                left: kinds(SKELETON[i].1),
                mid: part(i + 1, j + 1),
                right: if i == j { vec![] } else { kinds(SKELETON[j].1) },
                post,
            });
        }
    }
    out
}

/// Repetitions of the grammar, of one variant or two in turn.
fn loops(g: &Grammar) -> Vec<Nest> {
    let mut out = vec![];
    for (pre, alts, post) in g.loops(g.id("Program")) {
        for (i, a) in alts.iter().enumerate() {
            for b in &alts[i..] {
                let mut left = a.clone();
                left.extend(b);
                out.push(Nest {
                    name: String::new(),
                    pre: pre.clone(),
                    left,
                    mid: vec![],
                    right: vec![],
                    post: post.clone(),
                });
            }
        }
    }
    out
}

const TRIVIA: [&str; 18] = [
    " ", "\n", "\t", "\r\n", "\r", "\u{a0}", "\u{3000}", "(**)", "(*\n*)", "(***)", "(*a*)\n", "(* (* *)", "(*\"*)", "(*\u{e9}*)", " (*x*)", "(*)*)",
    "\u{2028}", "\u{c}",
];

fn texts() -> Vec<Text> {
    let mut out = vec![];
    let mut add = |pre: &str, unit: &str, post: &str| {
        out.push(Text {
            pre: pre.into(),
            unit: unit.into(),
            post: post.into(),
        })
    };
    let whole = ["scilla_version", " ", "0", " ", "contract", " ", "C", "(", "a", ":", "T", ")", " ", "transition", " ", "t", "(", ")", "accept", ";", "accept", " ", "end"];
    // Trivia, in each gap and before each token of many.
    for u in TRIVIA {
        for at in 0..=whole.len() {
            add(&whole[..at].concat(), u, &whole[at..].concat());
        }
        for t in ["accept ;", "accept;", "throw;"] {
            add("scilla_version 0 contract C() transition t()", &format!("{u}{t}"), " accept end");
            add("scilla_version 0 contract C() transition t()", &format!("{t}{u}"), " accept end");
        }
        add("scilla_version 0 contract C() transition t() match a with", &format!(" | _ =>{u}accept"), " end end");
        add("scilla_version 0 contract C(a:", &format!("({u}"), "T)");
        // An unfinished text, or a mistake before or after it.
        add("scilla_version 0 ", u, "");
        add("scilla_version 0 + ", u, "");
        add("scilla_version 0 contract C()", u, "?");
    }
    // The contents of comments, strings and words.
    for u in ["a", " ", "\n", "*", "(", ")", "(*", "* )", "\"", "\\", "\\\"", "0", "_", "\u{e9}", "\u{1f600}", "'", "\t", "\r\n", "-", "x", "A"] {
        add("scilla_version 0 (*", u, "*) contract C()");
        add("scilla_version 0 (*", u, " contract C()");
        add("scilla_version 0 contract C() field f:T=\"", u, "\"");
        add("scilla_version 0 contract C() field f:T=\"", u, "");
        add("scilla_version 0 contract C() field f:T=\"", &format!("\\{u}"), "\"");
        add("scilla_version 0 contract C() field v", u, ":T=a");
        add("scilla_version 0 contract C() field _", u, ":T=a");
        add("scilla_version 0 contract C() field f:T", u, "=a");
        add("scilla_version 0 contract C() field f:ByStr", u, "=a");
        add("scilla_version 0 contract C() field f:'A", u, "=a");
        add("scilla_version 0 contract C() field f:T=0x", u, "");
        add("scilla_version 0 contract C() field f:T=T -1", u, "");
        add("scilla_version 1", u, " contract C()");
        add("", u, "");
        add("scilla_version 0 contract C()", u, "");
    }
    for k in 0..mc::terms::NTERMS as K {
        // A token over and over, with and without a space.
        for s in ["", " ", "\n"] {
            add("", &format!("{}{s}", terms::canon(k).s), "");
            add("scilla_version 0 contract C() ", &format!("{}{s}", terms::canon(k).s), "");
        }
    }
    out
}

pub fn run(engine: &Engine) {
    let g = Grammar::scilla();
    let nests = g.nests(g.id("Program"), engine.pick(7, 9));
    let loops = loops(g);
    let places = places();
    let all: Vec<&Nest> = nests.iter().chain(&loops).chain(&places).collect();
    engine.note("nestings", nests.len());
    engine.note("repetitions", loops.len());
    engine.note("pairs_of_places", places.len());

    for m in engine.pick(vec![16, 100], vec![16, 50, 100, 200]) {
        engine.parallel_on(STACK, 2 * all.len(), |i| pump(engine, Unit::Heap, i % 2 == 1, m, all[i / 2]));
    }
    engine.progress("heap, token sequences");

    let texts = texts();
    engine.note("texts", texts.len());
    for m in engine.pick(vec![1000], vec![1000, 5000]) {
        engine.parallel(texts.len(), |i| text(engine, Unit::Heap, m, &texts[i]));
    }
    engine.progress("heap, texts");

    let m = engine.pick(6000, 30000);
    engine.parallel(texts.len(), |i| text(engine, Unit::Time, m, &texts[i]));
    engine.progress("time, texts");

    let m = engine.pick(2000, 3000);
    let some: Vec<&Nest> = loops.iter().chain(&places).collect();
    engine.parallel(some.len(), |i| pump(engine, Unit::Time, true, fewer(m, some[i]), some[i]));
    engine.progress("time, lists");

    let m = engine.pick(400, 600);
    engine.parallel_on(STACK, nests.len(), |i| pump(engine, Unit::Time, true, fewer(m, &nests[i]), &nests[i]));
    engine.progress("time, nestings");
    engine.sample(texts[0].pre.clone() + &texts[0].unit + &texts[0].post);
}

pub fn replay(engine: &Engine, case: &str) {
    let unit = |s: &str| if s == "Heap" { Unit::Heap } else { Unit::Time };
    if let Some(r) = case.strip_prefix("x\u{1}") {
        let f: Vec<&str> = r.split('\u{1}').collect();
        let x = Text {
            pre: f[2].into(),
            unit: f[3].into(),
            post: f[4].into(),
        };
        text(engine, unit(f[0]), f[1].parse().expect("size"), &x);
        return;
    }
    let f: Vec<&str> = case.split('|').collect();
    let [u, distinct, m, pre, left, mid, right, post] = f[..] else {
        panic!("unknown case");
    };
    let n = Nest {
        name: String::new(),
        pre: decode(pre),
        left: decode(left),
        mid: decode(mid),
        right: decode(right),
        post: decode(post),
    };
    engine.parallel_on(STACK, 1, |_| pump(engine, unit(u), distinct == "true", m.parse().expect("size"), &n));
}
