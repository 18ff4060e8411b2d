//! C15: histories and interleavings of parses.

use super::common::*;
use crate::bridge;
use mc::engine::{self, Engine};
use mc::scilla::Ty;
use scilla_parser::ast::nodes::NodeProgram;
use scilla_parser::parser::lexer::{Lexer, SourcePosition, Token};
use scilla_parser::parser::parser::ProgramParser;
use scilla_parser::simplified_representation::emitter::SrEmitter;
use scilla_parser::Contract;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

/// Texts that collide in length, names, prefixes, outcome.
const DOCS: &[&str] = &[
    "scilla_version 0 contract C (p : T) field f : Uint32 = v transition t (a : Uint32) end",
    // Same length, other type.
    "scilla_version 0 contract C (p : T) field f : Uint64 = v transition t (a : Uint64) end",
    // Same length, other contract name.
    "scilla_version 0 contract D (p : T) field f : Uint32 = v transition t (a : Uint32) end",
    // Same length, syntax error at the end.
    "scilla_version 0 contract C (p : T) field f : Uint32 = v transition t (a : Uint32) in_",
    // Same length, unknown token at the end.
    "scilla_version 0 contract C (p : T) field f : Uint32 = v transition t (a : Uint32) ?  ",
    // Conversion fails after declarations.
    "scilla_version 0 contract C (p : T, q : Pair T) field f : Uint32 = v",
    "scilla_version 0 contract C (p : T) transition t (a : T -> T) end",
    "",
    // Unterminated comment and string.
    "scilla_version 0 contract C (p : T) (* end",
    "scilla_version 0 contract C () field f : String = \"x",
    // Other lines, comment, string with quotes, non-ASCII.
    "(* é *)\nscilla_version 0\ncontract C\n()\nfield g : Map ByStr20 (Option T) = \"\\\"é (*\"",
    // The first one with more behind it.
    "scilla_version 0 contract C (p : T) field f : Uint32 = v transition t (a : Uint32) end transition u () end",
    "scilla_version 0 contract C (p : ByStr20 with contract field a : T end, a : List (Pair T T))",
];

type Outcome = String;

fn whole(text: &str) -> Outcome {
    stepped(text.len() / 4);
    format!("{:?}", text.parse::<Contract>())
}

fn lexed(text: &str) -> Outcome {
    format!("{:?}", bridge::lex(text))
}

fn staged(text: &str) -> Outcome {
    let mut errors = vec![];
    finish(ProgramParser::new().parse(&mut errors, Lexer::new(text)).map_err(|e| format!("{e:?}")))
}

fn finish(p: Result<NodeProgram, String>) -> Outcome {
    format!("{:?}", p.and_then(|p| SrEmitter::default().emit(&p)))
}

/// What a process that does nothing else answers.
struct Alone {
    whole: Vec<Outcome>,
    lexed: Vec<Outcome>,
    staged: Vec<Outcome>,
    tokens: Vec<Vec<TokenOf>>,
}

type TokenOf = <Lexer<'static> as Iterator>::Item;

fn alone(engine: &Engine) -> Alone {
    let get = |what: &str| -> Vec<Outcome> {
        (0..DOCS.len())
            .map(|i| {
                engine::isolated(engine, &format!("base:{what}:{i}"), Duration::from_secs(60))
                    .unwrap_or_else(|| "no answer".into())
            })
            .collect()
    };
    Alone {
        whole: get("w"),
        lexed: get("l"),
        staged: get("s"),
        tokens: DOCS.iter().map(|d| Lexer::new(d).collect()).collect(),
    }
}

fn op_name(o: usize) -> char {
    b"PFLHSN"[o] as char
}

/// Parser and converter on the tokens of a text.
fn again(a: &Alone, i: usize) -> Outcome {
    let mut errors = vec![];
    finish(ProgramParser::new().parse(&mut errors, a.tokens[i].iter().cloned()).map_err(|e| format!("{e:?}")))
}

/// One history: pairs of operation and text.
fn history(a: &Alone, ops: &[(usize, usize)]) -> Result<(), String> {
    let mut buffer = String::with_capacity(512);
    let parser = ProgramParser::new();
    let mut errors = vec![];
    for (n, (op, d)) in ops.iter().enumerate() {
        let text = DOCS[*d];
        let (got, want) = match op {
            // Parsed from one reused buffer.
            0 => {
                buffer.clear();
                buffer.push_str(text);
                (whole(&buffer), &a.whole[*d])
            }
            // Parsed from a fresh one.
            1 => (whole(&text.to_string()), &a.whole[*d]),
            2 => (lexed(text), &a.lexed[*d]),
            // Tokenized halfway and dropped.
            3 => {
                let _ = Lexer::new(text).take(7).count();
                continue;
            }
            // One parser object and error list for all.
            4 => (
                finish(parser.parse(&mut errors, Lexer::new(text)).map_err(|e| format!("{e:?}"))),
                &a.staged[*d],
            ),
            _ => (
                std::thread::scope(|s| s.spawn(|| whole(text)).join()).map_err(|_| "panic")?,
                &a.whole[*d],
            ),
        };
        if got != *want {
            return Err(format!(
                "step {n} ({}{d}) of {}: {text:?} gives {got} instead of {want}",
                op_name(*op),
                show(ops)
            ));
        }
    }
    Ok(())
}

fn show(ops: &[(usize, usize)]) -> String {
    ops.iter().map(|(o, d)| format!("{}{d}", op_name(*o))).collect::<Vec<_>>().join(" ")
}

fn read(s: &str) -> Vec<(usize, usize)> {
    s.split(' ')
        .filter_map(|w| Some(("PFLHSN".find(w.get(..1)?)?, w[1..].parse().ok().filter(|d| *d < DOCS.len())?)))
        .collect()
}

/// Texts that agree in length, characters (in another order), beginning and
/// end, and differ in the middle: number v (of 12) with `pad` bytes of comment
/// or string before, between and behind. What it means is known.
fn twin(v: usize, pad: usize, place: usize) -> (String, Result<(String, String), ()>) {
    let fill = |i: usize| match (place == 3 || place == i, i) {
        (false, _) | (_, 3..) => String::new(),
        _ => format!("(*{}*)", "x ".repeat(pad / 2)),
    };
    let name = ["Cab", "Cba"][v % 2];
    let ty = ["T12", "T21"][v / 2 % 2];
    let list = ["( )", ") (", "() "][v / 4];
    let text = format!("{}scilla_version 0 contract {name} {list} {}field f : {ty} = v{}", fill(0), fill(1), fill(2));
    (text, if v / 4 == 1 { Err(()) } else { Ok((name.into(), ty.into())) })
}

fn twins(pad: usize, place: usize, vs: &[usize], op: usize) -> Result<(), String> {
    let mut buffer = String::with_capacity(3 * pad + 200);
    let parser = ProgramParser::new();
    let mut errors = vec![];
    for (n, v) in vs.iter().enumerate() {
        let (text, want) = twin(*v, pad, place);
        buffer.clear();
        buffer.push_str(&text);
        stepped(24);
        let got = match op {
            0 => buffer.parse::<Contract>().map_err(|_| ()),
            1 => text.parse::<Contract>().map_err(|_| ()),
            2 => parser
                .parse(&mut errors, Lexer::new(&buffer))
                .map_err(|_| ())
                .and_then(|p| SrEmitter::default().emit(&p).map_err(|_| ())),
            _ => std::thread::scope(|s| s.spawn(|| buffer.parse::<Contract>().map_err(|_| ())).join())
                .map_err(|_| "panic")?,
        };
        let got = got.map(|c| {
            (c.name, match &c.fields[..] {
                [f] => f.r#type.to_string(),
                l => format!("{} fields", l.len()),
            })
        });
        if got != want {
            return Err(format!("parse number {n} of {vs:?}: {text:?} gives {got:?} instead of {want:?}"));
        }
    }
    Ok(())
}

/// A text of about n bytes: valid, wrong at its end, or never finished.
fn large(kind: usize, n: usize) -> String {
    let mut s = String::from(if kind < 4 { "scilla_version 0 contract Large (" } else { "" });
    let unit = ["p : T,", "(* comment *)", "\n \t", "p : Option T, ", "\u{e9}", "(* (* *) "][kind];
    while s.len() + unit.len() < n {
        s.push_str(unit);
    }
    s.push_str(["q : T)", ") field large : T = v", "", "q : Option)", "end", "(* "][kind]);
    s
}

/// A text of DOCS after a large one, and again.
fn after(a: &Alone, kind: usize, n: usize, d: usize) -> Result<(), String> {
    let big = large(kind, n);
    let first = whole(&big);
    for _ in 0..2 {
        let got = whole(DOCS[d]);
        if got != a.whole[d] {
            return Err(format!("after a text of {} bytes, {:?} gives {got} instead of {}", big.len(), DOCS[d], a.whole[d]));
        }
    }
    if whole(&big) != first {
        return Err(format!("a text of {} bytes gives another result the second time", big.len()));
    }
    Ok(())
}

fn twin_case(engine: &Engine, pad: usize, place: usize, vs: &[usize], op: usize) -> bool {
    let l: Vec<String> = vs.iter().map(|v| v.to_string()).collect();
    engine.check(&format!("tw:{pad}:{place}:{op}:{}", l.join(",")), || twins(pad, place, vs, op))
}

// ------------------------------------------------ controlled interleavings

/// One thread runs at a time; a thread hands over only when it asks for the
/// next token.
struct Baton {
    state: Mutex<Turn>,
    moved: Condvar,
}

struct Turn {
    turn: usize,
    done: Vec<bool>,
    /// Step numbers at which the next thread is chosen instead.
    switches: Vec<usize>,
    step: usize,
}

impl Baton {
    fn new(parties: usize, switches: &[usize]) -> Baton {
        Baton {
            state: Mutex::new(Turn {
                turn: 0,
                done: vec![false; parties],
                switches: switches.to_vec(),
                step: 0,
            }),
            moved: Condvar::new(),
        }
    }
    fn pass(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        s.step += 1;
        if s.switches.contains(&s.step) {
            s.turn = next(&s.done, me);
            self.moved.notify_all();
        }
        self.mine(s, me);
    }
    fn wait(&self, me: usize) {
        self.mine(self.state.lock().unwrap(), me);
    }
    /// Waits for one's turn. Whoever has it may be blocked by a lock that a
    /// waiting thread holds; then another one goes on.
    fn mine(&self, mut s: MutexGuard<Turn>, me: usize) {
        while s.turn != me {
            let (turn, step) = (s.turn, s.step);
            let (t, late) = self.moved.wait_timeout(s, Duration::from_millis(100)).unwrap();
            s = t;
            if late.timed_out() && (turn, step) == (s.turn, s.step) {
                s.turn = me;
            }
        }
    }
    fn end(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        s.done[me] = true;
        if s.turn == me {
            s.turn = next(&s.done, me);
        }
        self.moved.notify_all();
    }
}

fn next(done: &[bool], me: usize) -> usize {
    (1..=done.len()).map(|i| (me + i) % done.len()).find(|i| !done[*i]).unwrap_or(usize::MAX)
}

struct End<'a>(&'a Baton, usize);

impl Drop for End<'_> {
    fn drop(&mut self) {
        self.0.end(self.1);
    }
}

struct Turns<'a> {
    lexer: Lexer<'a>,
    baton: &'a Baton,
    me: usize,
}

impl<'a> Iterator for Turns<'a> {
    type Item = <Lexer<'a> as Iterator>::Item;
    fn next(&mut self) -> Option<Self::Item> {
        self.baton.pass(self.me);
        self.lexer.next()
    }
}

/// Runs the parses of some texts, each in a thread of its own, switching at
/// the given steps.
fn interleaved(a: &Alone, docs: &[usize], switches: &[usize]) -> Result<usize, String> {
    let baton = Baton::new(docs.len(), switches);
    let results: Vec<Result<Outcome, String>> = std::thread::scope(|s| {
        let handles: Vec<_> = docs
            .iter()
            .enumerate()
            .map(|(me, d)| {
                let baton = &baton;
                s.spawn(move || {
                    baton.wait(me);
                    let _end = End(baton, me);
                    engine::guard(|| {
                        let mut errors = vec![];
                        finish(
                            ProgramParser::new()
                                .parse(
                                    &mut errors,
                                    Turns {
                                        lexer: Lexer::new(DOCS[*d]),
                                        baton,
                                        me,
                                    },
                                )
                                .map_err(|e| format!("{e:?}")),
                        )
                    })
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
    });
    for (d, r) in docs.iter().zip(results) {
        let got = r.map_err(|p| format!("panic: {p}"))?;
        if got != a.staged[*d] {
            return Err(format!(
                "texts {docs:?} parsed in turns, switching at {switches:?}: {:?} gives {got} instead of {}",
                DOCS[*d], a.staged[*d]
            ));
        }
    }
    let steps = baton.state.lock().unwrap().step;
    Ok(steps)
}

thread_local! {
    /// The schedule this thread follows at every use of the heap.
    static HEAP: Cell<Option<(*const Baton, usize)>> = const { Cell::new(None) };
}

/// Hands over at allocations: wherever the code under test uses the heap,
/// another thread may go on.
pub struct Heap;

impl Heap {
    fn point() {
        let _ = HEAP.try_with(|h| {
            if let Some((baton, me)) = h.take() {
                // SAFETY: the baton outlives the parse that set it.
                unsafe { &*baton }.pass(me);
                h.set(Some((baton, me)));
            }
        });
    }
}

// SAFETY: the system's allocator does the work.
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        Heap::point();
        super::c18::used_new(l.size());
        super::c19::took(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        super::c19::took(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        Heap::point();
        super::c18::used(l, n);
        super::c19::took(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        Heap::point();
        super::c18::used_new(l.size());
        super::c19::took(l.size() as i64);
        System.alloc_zeroed(l)
    }
}

/// Runs the parses of some texts, each in a thread of its own, switching at
/// the given uses of the heap. The tokens are taken from the text or, for
/// fewer steps, made before.
fn preempted(a: &Alone, docs: &[usize], lexed: bool, switches: &[usize]) -> Result<usize, String> {
    let baton = Baton::new(docs.len(), switches);
    let results: Vec<Result<Outcome, String>> = std::thread::scope(|s| {
        let handles: Vec<_> = docs
            .iter()
            .enumerate()
            .map(|(me, d)| {
                let baton = &baton;
                s.spawn(move || {
                    let tokens = if lexed { vec![] } else { a.tokens[*d].clone() };
                    baton.wait(me);
                    let _end = End(baton, me);
                    engine::guard(|| {
                        HEAP.set(Some((baton, me)));
                        let _off = Off;
                        if lexed {
                            let r = DOCS[*d].parse::<Contract>();
                            HEAP.set(None);
                            format!("{r:?}")
                        } else {
                            let mut errors = vec![];
                            let p = ProgramParser::new().parse(&mut errors, tokens);
                            let r = p.map_err(|e| format!("{e:?}")).and_then(|p| SrEmitter::default().emit(&p));
                            HEAP.set(None);
                            format!("{r:?}")
                        }
                    })
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
    });
    for (d, r) in docs.iter().zip(results) {
        let got = r.map_err(|p| format!("panic: {p}"))?;
        let want = if lexed { &a.whole[*d] } else { &a.staged[*d] };
        if got != *want {
            return Err(format!(
                "texts {docs:?} parsed at the same time, switching threads at uses of the heap {switches:?}: {:?} gives {got} instead of {want}",
                DOCS[*d]
            ));
        }
    }
    let steps = baton.state.lock().unwrap().step;
    Ok(steps)
}

struct Off;

impl Drop for Off {
    fn drop(&mut self) {
        HEAP.set(None);
    }
}

/// A whole parse of one text between two tokens of another, in one thread.
struct Nested<'a> {
    lexer: Lexer<'a>,
    i: usize,
    at: usize,
    inner: usize,
    got: &'a RefCell<Option<Outcome>>,
}

impl<'a> Iterator for Nested<'a> {
    type Item = <Lexer<'a> as Iterator>::Item;
    fn next(&mut self) -> Option<Self::Item> {
        if self.i == self.at {
            *self.got.borrow_mut() = Some(whole(DOCS[self.inner]));
        }
        self.i += 1;
        self.lexer.next()
    }
}

fn nested(a: &Alone, outer: usize, at: usize, inner: usize) -> Result<(), String> {
    let got = RefCell::new(None);
    let mut errors = vec![];
    let r = finish(
        ProgramParser::new()
            .parse(
                &mut errors,
                Nested {
                    lexer: Lexer::new(DOCS[outer]),
                    i: 0,
                    at,
                    inner,
                    got: &got,
                },
            )
            .map_err(|e| format!("{e:?}")),
    );
    if r != a.staged[outer] {
        return Err(format!(
            "parsing text {inner} before token {at} of text {outer} changes the latter: {r} instead of {}",
            a.staged[outer]
        ));
    }
    match got.into_inner() {
        Some(g) if g != a.whole[inner] => Err(format!(
            "parsing text {inner} before token {at} of text {outer} gives {g} instead of {}",
            a.whole[inner]
        )),
        _ => Ok(()),
    }
}

type LexedTokens<'a> = Vec<(SourcePosition, Token<&'a str>, SourcePosition)>;

/// The steps lex, parse, convert of several texts in a given order.
fn stages(a: &Alone, docs: &[usize], order: &[usize]) -> Result<(), String> {
    let mut toks: Vec<Option<LexedTokens>> = docs.iter().map(|_| None).collect();
    let mut trees: Vec<Option<Result<NodeProgram, String>>> = docs.iter().map(|_| None).collect();
    let mut stage = vec![0; docs.len()];
    for i in order {
        match stage[*i] {
            0 => toks[*i] = Some(Lexer::new(DOCS[docs[*i]]).map(|t| t.expect("token")).collect()),
            1 => {
                let mut errors = vec![];
                trees[*i] = Some(
                    ProgramParser::new()
                        .parse(&mut errors, toks[*i].take().unwrap().into_iter().map(Ok::<_, scilla_parser::parser::lexer::ParseError>))
                        .map_err(|e| format!("{e:?}")),
                );
            }
            _ => {
                let got = finish(trees[*i].take().unwrap());
                if got != a.staged[docs[*i]] {
                    return Err(format!("texts {docs:?}, steps {order:?}: {got} instead of {}", a.staged[docs[*i]]));
                }
            }
        }
        stage[*i] += 1;
    }
    Ok(())
}

/// All orders of `n` steps each of `k` participants.
fn orders(k: usize, n: usize) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<usize>, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|l| *l == 0) {
            out.push(at.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                at.push(i);
                go(left, at, out);
                at.pop();
                left[i] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![n; k], &mut vec![], &mut out);
    out
}

/// Tokens of two texts taken in all interleavings from two lexers in one
/// thread.
fn two_lexers(a: &str, b: &str, engine: &Engine) -> u64 {
    let (la, lb) = (bridge::lex(a), bridge::lex(b));
    let (n, m) = (la.len(), lb.len());
    let mut runs = 0;
    for mask in 0u32..1 << (n + m) {
        if mask.count_ones() as usize != n {
            continue;
        }
        runs += 1;
        engine.check(&format!("z:{mask}\u{1}{a}\u{1}{b}"), || zipped(a, b, mask, &la, &lb));
        if engine.stopped() {
            break;
        }
    }
    runs
}

type Lexed<'a> = Vec<(Token<&'a str>, SourcePosition, SourcePosition)>;

fn zipped(a: &str, b: &str, mask: u32, la: &Lexed, lb: &Lexed) -> Result<(), String> {
    let (mut x, mut y) = (Lexer::new(a), Lexer::new(b));
    let (mut i, mut j) = (0, 0);
    for s in 0..la.len() + lb.len() {
        let (t, want) = if mask >> s & 1 == 1 {
            i += 1;
            (x.next(), &la[i - 1])
        } else {
            j += 1;
            (y.next(), &lb[j - 1])
        };
        let got = t.map(|t| t.map(|(s, t, e)| (t, s, e)));
        if !matches!(&got, Some(Ok(g)) if g == want) {
            return Err(format!("order {mask:b} of {a:?} and {b:?}: {got:?} instead of {want:?}"));
        }
    }
    match (x.next(), y.next()) {
        (None, None) => Ok(()),
        r => Err(format!("order {mask:b} of {a:?} and {b:?}: more tokens, {r:?}")),
    }
}

pub fn run(engine: &Engine) {
    let a = Arc::new(alone(engine));
    for (i, d) in DOCS.iter().enumerate().take(4) {
        engine.sample(format!("{d:?} -> {}", a.whole[i]));
    }
    let check = |ops: &[(usize, usize)]| engine.check(&format!("h:{}", show(ops)), || history(&a, ops));
    let n = DOCS.len();

    // All histories of three parses in one buffer, and of two operations of
    // any kind followed by a parse of each kind of outcome.
    let mut hs: Vec<Vec<(usize, usize)>> = vec![];
    for x in 0..n {
        for y in 0..n {
            for z in 0..n {
                hs.push(vec![(0, x), (0, y), (0, z)]);
            }
            for o in 0..36 {
                hs.push(vec![(o / 6, x), (o % 6, y), (1, x)]);
            }
        }
    }
    if !engine.quick() {
        for i in 0..n * n * n * n {
            hs.push((0..4).map(|k| ((i + k) % 5, i / n.pow(k as u32) % n)).collect());
        }
    }
    engine.parallel(hs.len().div_ceil(16), |b| {
        let list = &hs[b * 16..(b * 16 + 16).min(hs.len())];
        for h in list {
            if !check(h) {
                return;
            }
        }
        tally(engine, list.len() as u64, list.len() as u64);
    });
    engine.add("histories", hs.len() as u64);
    engine.progress("histories");

    // Texts that agree in much.
    let pads = engine.pick(&[0, 60, 300, 1100, 5000, 70_000][..], &[0, 20, 60, 120, 300, 600, 1100, 2100, 5000, 9000, 70_000, 300_000]);
    engine.parallel(pads.len() * 4 * 4, |i| {
        let (pad, place, op) = (pads[i / 16], i % 4, i / 4 % 4);
        let mut n = 0;
        for x in 0..12 {
            for y in 0..12 {
                // And the first one again.
                n += 1;
                if !twin_case(engine, pad, place, &[x, y, x], op) {
                    return;
                }
            }
        }
        tally(engine, n, n);
    });
    engine.add("histories", 144 * 16 * pads.len() as u64);
    engine.progress("texts that agree in much");

    // Small texts after large ones.
    let sizes: Vec<usize> = (6..engine.pick(19, 22)).flat_map(|e| [1usize << e, (1 << e) + (1 << (e - 1))]).collect();
    engine.parallel(sizes.len() * 6, |i| {
        let (kind, size) = (i % 6, sizes[sizes.len() - 1 - i / 6]);
        // Words take long.
        if [0, 3].contains(&kind) && size > engine.pick(1 << 15, 1 << 18) {
            return;
        }
        let docs: Vec<usize> = if size < 1 << 14 { (0..n).collect() } else { vec![0, 3, 7 + i % 6] };
        for d in &docs {
            engine.check(&format!("l:{kind}:{size}:{d}"), || after(&a, kind, size, *d));
        }
        tally(engine, docs.len() as u64, 4 * docs.len() as u64);
    });
    engine.progress("small texts after large ones");

    // Many repetitions of one parse; each text in a thread of its own.
    let times = engine.pick(1100, 70_000);
    engine.parallel(n, |i| {
        let times = if DOCS[i].len() > 60 { times } else { times * 2 };
        for k in 0..times {
            if !engine.check(&format!("r:{i}:{}", k + 1), || match whole(DOCS[i]) {
                g if g == a.whole[i] => Ok(()),
                g => Err(format!("parse number {} of {:?} gives {g}", k + 1, DOCS[i])),
            }) || engine.stopped()
            {
                break;
            }
        }
        tally(engine, 1, times as u64);
    });
    // Parser and converter alone take many more.
    let times = engine.pick(70_000, 1_500_000);
    engine.parallel(n, |i| {
        for k in 0..times {
            if !engine.check(&format!("q:{i}:{}", k + 1), || match again(&a, i) {
                g if g == a.staged[i] => Ok(()),
                g => Err(format!("parse number {} of {:?} gives {g}", k + 1, DOCS[i])),
            }) || engine.stopped()
            {
                break;
            }
        }
        stepped(times * a.tokens[i].len());
        tally(engine, 1, times as u64);
    });
    engine.progress("repetitions");

    // Many different texts, forwards and backwards, against the model.
    let ty = [plain(&Ty::Prim("Int32")), plain(&Ty::Option(Box::new(Ty::Prim("BNum"))))];
    let names: Vec<String> = (0..engine.pick(350, 5000)).map(|i| format!("N{}", i * 7919 % 10007)).collect();
    let doc = |i: usize| Doc {
        name: &names[i],
        params: vec![("a", &ty[i % 2])],
        comps: vec![Comp {
            procedure: false,
            name: &names[i / 2],
            params: vec![("b", &ty[i / 2 % 2])],
        }],
        ..Doc::default()
    };
    engine.alone(|| {
        for i in (0..names.len()).chain((0..names.len()).rev()) {
            let d = doc(i);
            judge(engine, &d.text(), true, Want::Is(&d.contract()));
            if engine.stopped() {
                break;
            }
        }
        tally(engine, names.len() as u64, 2 * names.len() as u64);
    });
    engine.progress("many texts");

    // Steps of several parses in all orders.
    let o2 = orders(2, 3);
    let o3 = orders(3, 3);
    engine.parallel(n * n, |i| {
        for o in &o2 {
            let docs = [i / n, i % n];
            engine.check(&format!("s:{docs:?}:{o:?}"), || stages(&a, &docs, o));
        }
        tally(engine, o2.len() as u64, o2.len() as u64);
    });
    let triples = [[7, 9, 5], [0, 1, 2], [0, 5, 11], [6, 12, 0], [10, 10, 10]];
    let triples = &triples[..engine.pick(2, 5)];
    engine.parallel(triples.len() * 8, |i| {
        let docs = triples[i / 8];
        let mut k = 0;
        for o in o3.iter().skip(i % 8).step_by(8) {
            k += 1;
            engine.check(&format!("s:{docs:?}:{o:?}"), || stages(&a, &docs, o));
        }
        tally(engine, k, k);
    });
    engine.progress("orders of steps");

    // A whole parse between any two tokens of another.
    engine.parallel(n * n, |i| {
        let (outer, inner) = (i / n, i % n);
        let len = bridge::lex(DOCS[outer]).len();
        for at in 0..=len {
            engine.check(&format!("n:{outer}:{at}:{inner}"), || nested(&a, outer, at, inner));
        }
        tally(engine, len as u64 + 1, len as u64 + 1);
    });
    engine.progress("nested parses");

    // Two threads, all schedules with up to two (three) switches; three
    // threads with one.
    let max = engine.pick(2, 3);
    let lens: Vec<usize> = DOCS.iter().map(|d| bridge::lex(d).len() + 1).collect();
    let short: Vec<usize> = (0..n).filter(|i| lens[*i] <= engine.pick(21, 40)).collect();
    let mut jobs: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for x in &short {
        for y in &short {
            let total = lens[*x] + lens[*y];
            for i in 1..=total {
                jobs.push((vec![*x, *y], vec![i]));
                for j in i + 1..=total {
                    jobs.push((vec![*x, *y], vec![i, j]));
                    if max > 2 && total <= 36 {
                        for k in j + 1..=total {
                            jobs.push((vec![*x, *y], vec![i, j, k]));
                        }
                    }
                }
            }
            // A switch at every token.
            jobs.push((vec![*x, *y], (1..=total).collect()));
        }
    }
    for x in 0..n {
        for y in 0..n {
            jobs.push((vec![x, y, (x + y) % n], (1..200).collect()));
            for i in 1..=lens[x] + lens[y] {
                if !engine.quick() {
                    jobs.push((vec![x, y, x], vec![i, i + 5]));
                }
            }
        }
    }
    engine.parallel(jobs.len().div_ceil(8), |b| {
        let list = &jobs[b * 8..(b * 8 + 8).min(jobs.len())];
        let mut steps = 0;
        for (d, s) in list {
            let mut n = 0;
            let ok = engine.check(&format!("t:{d:?}:{s:?}"), || {
                n = interleaved(&a, d, s)?;
                Ok(())
            });
            steps += n;
            if !ok || engine.stopped() {
                return;
            }
        }
        stepped(steps);
        tally(engine, list.len() as u64, list.len() as u64);
    });
    engine.add("schedules", jobs.len() as u64);
    engine.progress("schedules");

    // Two threads, preempted at any use of the heap: up to two (three) times
    // in parser and converter, once in a whole parse.
    let heap = |what: &str, lexed: bool, docs: [usize; 2], switches: Vec<Vec<usize>>| {
        let blocks = switches.len().div_ceil(16);
        engine.parallel(blocks, |b| {
            let list = &switches[b * 16..(b * 16 + 16).min(switches.len())];
            let mut steps = 0;
            for s in list {
                let mut n = 0;
                let ok = engine.check(&format!("{what}:{docs:?}:{s:?}"), || {
                    n = preempted(&a, &docs, lexed, s)?;
                    Ok(())
                });
                steps += n;
                if !ok || engine.stopped() {
                    return;
                }
            }
            stepped(steps);
            tally(engine, list.len() as u64, list.len() as u64);
        });
        engine.add("preempted", switches.len() as u64);
    };
    let steps = |docs: [usize; 2], lexed: bool| engine.case("base:p", || preempted(&a, &docs, lexed, &[]).unwrap_or(0)).unwrap_or(0);
    for i in 0..n * n {
        let docs = [i / n, i % n];
        let len = steps(docs, false);
        let deep = !engine.quick() || [0, 4, 5, 12].iter().filter(|d| docs.contains(d)).count() == 2;
        let mut switches: Vec<Vec<usize>> = (1..=len).map(|x| vec![x]).collect();
        if deep {
            switches.extend((1..=len).flat_map(|x| (x + 1..=len).map(move |y| vec![x, y])));
        }
        if !engine.quick() && [[5, 0], [0, 6], [5, 6]].contains(&docs) {
            switches.extend((1..=len).flat_map(|x| (x + 1..=len).flat_map(move |y| (y + 1..=len).map(move |z| vec![x, y, z]))));
        }
        heap("k", false, docs, switches);
    }
    engine.progress("preempted parsers");
    for i in 0..n * n {
        let docs = [i / n, i % n];
        if engine.quick() && ![[0, 5], [6, 0], [9, 10]].contains(&docs) {
            continue;
        }
        let len = steps([docs[0], 7], true);
        heap("y", true, docs, (1..=len).map(|x| vec![x]).collect());
    }
    engine.progress("preempted parses");

    // Two lexers in one thread, all interleavings.
    let small = ["a 0x1", "\"s\" (*c*)\nb ", "? ->\n- 5", "contract\n\n_x (* ", "'A ByStr20 é"];
    engine.parallel(small.len() * small.len(), |i| {
        let k = two_lexers(small[i / small.len()], small[i % small.len()], engine);
        tally(engine, k, k);
    });
    let pairs = [
        ("scilla_version 0\ncontract C ( )", "library\n\"a\\\"b\" 5 _ ByStr"),
        ("field f : T\n= \"x\n\" end", "(* c\n *) transition t ( ) end"),
    ];
    engine.parallel(engine.pick(1, 2), |i| {
        let k = two_lexers(pairs[i].0, pairs[i].1, engine);
        tally(engine, k, k);
    });
    engine.progress("two lexers");

    // Not part of the exploration: threads running freely.
    engine.parallel(64, |t| {
        for k in 0..engine.pick(40, 1000) {
            let d = (t * 5 + k * 3) % n;
            if !engine.check(&format!("r:{d}:1"), || match whole(DOCS[d]) {
                g if g == a.whole[d] => Ok(()),
                g => Err(format!("{:?} gives {g} while other threads parse", DOCS[d])),
            }) {
                return;
            }
        }
    });
    engine.progress("free threads");
}

pub fn replay(engine: &Engine, case: &str) {
    if replay_judge(engine, case) {
        return;
    }
    let numbers = |s: &str| -> Vec<usize> {
        s.split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect()
    };
    let (tag, rest) = case.split_once(':').unwrap_or((case, ""));
    if tag == "base" {
        let (what, i) = rest.split_once(':').unwrap_or(("w", rest));
        let text = DOCS[i.parse::<usize>().unwrap_or(0) % DOCS.len()];
        let out = match what {
            "w" => whole(text),
            "l" => lexed(text),
            _ => staged(text),
        };
        // The answer is the "violation" the caller reads.
        engine.violation(case, out);
        return;
    }
    if tag == "z" {
        let p: Vec<&str> = rest.split('\u{1}').collect();
        if let [mask, a, b] = p[..] {
            let (la, lb) = (bridge::lex(a), bridge::lex(b));
            engine.check(case, || zipped(a, b, mask.parse().unwrap_or(0), &la, &lb));
        }
        return;
    }
    if tag == "tw" {
        let v = numbers(rest);
        if let [pad, place, op, vs @ ..] = &v[..] {
            twin_case(engine, *pad, *place, vs, *op);
        }
        return;
    }
    let a = alone(engine);
    let parts: Vec<&str> = rest.splitn(2, ':').collect();
    engine.check(case, || match tag {
        "h" => history(&a, &read(rest)),
        "r" | "q" => {
            let v = numbers(rest);
            for k in 0..v[1] {
                let (g, want) = match tag {
                    "r" => (whole(DOCS[v[0]]), &a.whole[v[0]]),
                    _ => (again(&a, v[0]), &a.staged[v[0]]),
                };
                if g != *want {
                    return Err(format!("parse number {} gives {g}", k + 1));
                }
            }
            Ok(())
        }
        "l" => {
            let v = numbers(rest);
            after(&a, v[0] % 6, v[1], v[2] % DOCS.len())
        }
        "s" => stages(&a, &numbers(parts[0]), &numbers(parts[1])),
        "n" => {
            let v = numbers(rest);
            nested(&a, v[0], v[1], v[2])
        }
        "k" | "y" => preempted(&a, &numbers(parts[0]), tag == "y", &numbers(parts[1])).map(|_| ()),
        _ => interleaved(&a, &numbers(parts[0]), &numbers(parts[1])).map(|_| ()),
    });
}
