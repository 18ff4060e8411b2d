//! C13, C14: the traversal, driven by a converter whose answers are scripted
//! and compared with a reference traversal of the same tree.

#[path = "../imp/bridge.rs"]
mod bridge;
#[path = "../imp/reflect.rs"]
mod reflect;

use bridge::{Item, PErr};
use mc::engine::{self, Check, Engine, Spec};
use mc::grammar::{self, decode, encode, Grammar, Kinds, STARTS};
use mc::terms::{self, K};
use reflect::{Reflect, G};
use scilla_parser::ast::converting::AstConverting;
use scilla_parser::ast::nodes::*;
use scilla_parser::ast::visitor::AstVisitor;
use scilla_parser::ast::{TraversalResult, TreeTraversalMode};
use scilla_parser::parser::lexer::SourcePosition;
use scilla_parser::parser::parser;
use std::collections::HashSet;
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Answer {
    Skip,
    Fail(u8),
}

const TEXTS: &[&str] = &["Failure", "", "Continue", "é\n\"{}"];

/// Answers that differ from 'continue': (number of the callback, answer).
type Script = Vec<(usize, Answer)>;

#[derive(Clone, PartialEq, Eq, Debug)]
enum Ev {
    Push(SourcePosition, SourcePosition),
    Pop,
    Enter(&'static str, usize),
    Exit(&'static str, usize),
}

/// The converter given to the code under test.
struct Log<'a> {
    script: &'a [(usize, Answer)],
    calls: usize,
    events: Vec<Ev>,
    /// What the nodes look like, for converters given copies of them.
    contents: Option<Vec<String>>,
}

impl Log<'_> {
    fn call<N: Reflect>(
        &mut self,
        kind: &'static str,
        mode: TreeTraversalMode,
        node: &N,
    ) -> Result<TraversalResult, String> {
        let addr = node as *const N as usize;
        self.events.push(match mode {
            TreeTraversalMode::Enter => Ev::Enter(kind, addr),
            TreeTraversalMode::Exit => Ev::Exit(kind, addr),
        });
        if let Some(c) = &mut self.contents {
            c.push(node.reflect().tokens());
        }
        let i = self.calls;
        self.calls += 1;
        for (at, a) in self.script {
            if *at == i {
                return match a {
                    Answer::Skip => Ok(TraversalResult::SkipChildren),
                    Answer::Fail(t) => Err(TEXTS[*t as usize].to_string()),
                };
            }
        }
        Ok(TraversalResult::Continue)
    }
}

macro_rules! converter {
    ($($method:ident $node:ident,)*) => {
        impl AstConverting for Log<'_> {
            fn push_source_position(&mut self, start: &SourcePosition, end: &SourcePosition) {
                self.events.push(Ev::Push(*start, *end));
            }
            fn pop_source_position(&mut self) {
                self.events.push(Ev::Pop);
            }
            $(
                fn $method(
                    &mut self,
                    mode: TreeTraversalMode,
                    node: &$node,
                ) -> Result<TraversalResult, String> {
                    self.call(stringify!($node), mode, node)
                }
            )*
        }
    };
}

converter!(
            emit_byte_str NodeByteStr,
            emit_type_name_identifier NodeTypeNameIdentifier,
            emit_imported_name NodeImportedName,
            emit_import_declarations NodeImportDeclarations,
            emit_meta_identifier NodeMetaIdentifier,
            emit_variable_identifier NodeVariableIdentifier,
            emit_builtin_arguments NodeBuiltinArguments,
            emit_type_map_key NodeTypeMapKey,
            emit_type_map_value NodeTypeMapValue,
            emit_type_argument NodeTypeArgument,
            emit_scilla_type NodeScillaType,
            emit_type_map_entry NodeTypeMapEntry,
            emit_address_type_field NodeAddressTypeField,
            emit_address_type NodeAddressType,
            emit_full_expression NodeFullExpression,
            emit_message_entry NodeMessageEntry,
            emit_pattern_match_expression_clause NodePatternMatchExpressionClause,
            emit_atomic_expression NodeAtomicExpression,
            emit_contract_type_arguments NodeContractTypeArguments,
            emit_value_literal NodeValueLiteral,
            emit_map_access NodeMapAccess,
            emit_pattern NodePattern,
            emit_argument_pattern NodeArgumentPattern,
            emit_pattern_match_clause NodePatternMatchClause,
            emit_blockchain_fetch_arguments NodeBlockchainFetchArguments,
            emit_statement NodeStatement,
            emit_remote_fetch_statement NodeRemoteFetchStatement,
            emit_component_id NodeComponentId,
            emit_component_parameters NodeComponentParameters,
            emit_parameter_pair NodeParameterPair,
            emit_component_body NodeComponentBody,
            emit_statement_block NodeStatementBlock,
            emit_typed_identifier NodeTypedIdentifier,
            emit_type_annotation NodeTypeAnnotation,
            emit_program NodeProgram,
            emit_library_definition NodeLibraryDefinition,
            emit_library_single_definition NodeLibrarySingleDefinition,
            emit_contract_definition NodeContractDefinition,
            emit_contract_field NodeContractField,
            emit_with_constraint NodeWithConstraint,
            emit_component_definition NodeComponentDefinition,
            emit_procedure_definition NodeProcedureDefinition,
            emit_transition_definition NodeTransitionDefinition,
            emit_type_alternative_clause NodeTypeAlternativeClause,
            emit_type_map_value_arguments NodeTypeMapValueArguments,
            emit_type_map_value_allowing_type_arguments NodeTypeMapValueAllowingTypeArguments,
);

/// The reference traversal.
struct Model<'a> {
    script: &'a [(usize, Answer)],
    calls: usize,
    events: Vec<Ev>,
    contents: Option<Vec<String>>,
    /// Whether each callback was an entry.
    entries: Vec<bool>,
}

impl Model<'_> {
    fn answer(&mut self, g: &G, enter: bool) -> Option<Answer> {
        self.events.push(if enter {
            Ev::Enter(g.kind, g.addr)
        } else {
            Ev::Exit(g.kind, g.addr)
        });
        if let Some(c) = &mut self.contents {
            c.push(g.tokens());
        }
        self.entries.push(enter);
        let i = self.calls;
        self.calls += 1;
        self.script.iter().find(|s| s.0 == i).map(|s| s.1)
    }

    fn walk(&mut self, g: &G) -> Result<(), u8> {
        if let Some((s, e)) = g.span {
            self.events.push(Ev::Push(s, e));
        }
        let r = self.inner(g);
        if g.span.is_some() {
            self.events.push(Ev::Pop);
        }
        r
    }

    fn inner(&mut self, g: &G) -> Result<(), u8> {
        match self.answer(g, true) {
            Some(Answer::Skip) => return Ok(()),
            Some(Answer::Fail(t)) => return Err(t),
            None => (),
        }
        for c in g.children() {
            self.walk(c)?;
        }
        match self.answer(g, false) {
            Some(Answer::Fail(t)) => Err(t),
            _ => Ok(()),
        }
    }
}

struct Feed<'a> {
    ks: &'a [K],
    i: usize,
}

impl Iterator for Feed<'_> {
    type Item = Item;
    fn next(&mut self) -> Option<Item> {
        let i = self.i;
        self.i += 1;
        self.ks.get(i).map(|k| bridge::item(*k, i))
    }
}

type Run<'a> = &'a dyn Fn(&mut dyn AstConverting) -> Result<(), String>;
type With = fn(Feed, &mut dyn FnMut(&G, Run)) -> Result<(), PErr>;

struct Start {
    name: &'static str,
    with: With,
}

macro_rules! table {
    ($($name:ident $parser:ident),* $(,)?) => {
        &[$( Start {
            name: stringify!($name),
            with: |f, cb| {
                let mut errors = vec![];
                let r = parser::$parser::new().parse(&mut errors, f)?;
                let g = r.reflect();
                cb(&g, &|c| r.visit(c).map(|_| ()));
                Ok(())
            },
        } ),*]
    };
}

static TABLE: &[Start] = with_starts!(table);

fn start(name: &str) -> &'static Start {
    TABLE.iter().find(|s| s.name == name).expect("start symbol")
}

fn show(e: Option<&Ev>) -> String {
    match e {
        None => "the end".into(),
        Some(Ev::Push(s, _)) => format!("announce span at token {}", s.position / 10),
        Some(Ev::Pop) => "withdraw span".into(),
        Some(Ev::Enter(k, _)) => format!("enter {k}"),
        Some(Ev::Exit(k, _)) => format!("exit {k}"),
    }
}

/// Runs the traversal and the reference under one script and compares them.
/// Answers the callbacks of the reference.
fn compare(g: &G, run: Run, script: &[(usize, Answer)]) -> Result<Vec<bool>, String> {
    let mut m = Model {
        script,
        calls: 0,
        events: vec![],
        contents: None,
        entries: vec![],
    };
    let want = m.walk(g).map_err(|t| TEXTS[t as usize].to_string());
    let mut log = Log {
        script,
        calls: 0,
        events: Vec::with_capacity(m.events.len()),
        contents: None,
    };
    let got = run(&mut log);
    if got != want {
        return Err(format!(
            "the traversal returns {got:?}, expected {want:?}, {}",
            explain(&m, &log, script)
        ));
    }
    if m.events != log.events && !same_by_content(g, run, script) {
        return Err(explain(&m, &log, script));
    }
    Ok(m.entries)
}

fn explain(m: &Model, log: &Log, script: &[(usize, Answer)]) -> String {
    let i = m
        .events
        .iter()
        .zip(&log.events)
        .take_while(|(a, b)| a == b)
        .count();
    format!(
        "answers {script:?}: event {i} is '{}', expected '{}' after '{}'",
        show(log.events.get(i)),
        show(m.events.get(i)),
        show(if i == 0 { None } else { m.events.get(i - 1) })
    )
}

/// The traversal may hand copies of nodes to the converter.
fn same_by_content(g: &G, run: Run, script: &[(usize, Answer)]) -> bool {
    let mut m = Model {
        script,
        calls: 0,
        events: vec![],
        contents: Some(vec![]),
        entries: vec![],
    };
    let _ = m.walk(g);
    let mut log = Log {
        script,
        calls: 0,
        events: vec![],
        contents: Some(vec![]),
    };
    let _ = run(&mut log);
    let strip = |v: &[Ev]| -> Vec<Ev> {
        v.iter()
            .map(|e| match e {
                Ev::Enter(k, _) => Ev::Enter(k, 0),
                Ev::Exit(k, _) => Ev::Exit(k, 0),
                e => e.clone(),
            })
            .collect()
    };
    strip(&m.events) == strip(&log.events) && m.contents == log.contents
}

/// The structure of the reference's own events, independent of the tree: the
/// span stack, nesting and order that C13 speaks about.
fn well_formed(run: Run) -> Result<(), String> {
    let mut log = Log {
        script: &[],
        calls: 0,
        events: vec![],
        contents: None,
    };
    let _ = run(&mut log);
    let mut stack: Vec<&Ev> = vec![];
    let mut last = 0;
    for (i, e) in log.events.iter().enumerate() {
        match e {
            Ev::Push(s, _) => {
                if s.position < last {
                    return Err(format!("event {i}: a span starts before one announced earlier"));
                }
                last = s.position;
                stack.push(e);
            }
            Ev::Enter(..) => stack.push(e),
            Ev::Pop => match stack.pop() {
                Some(Ev::Push(..)) => (),
                o => return Err(format!("event {i}: a span is withdrawn inside '{}'", show(o))),
            },
            Ev::Exit(k, a) => match stack.pop() {
                Some(Ev::Enter(k2, a2)) if k == k2 && a == a2 => (),
                o => return Err(format!("event {i}: exit of {k} inside '{}'", show(o))),
            },
        }
    }
    if stack.is_empty() {
        Ok(())
    } else {
        Err(format!("at the end, '{}' is still open", show(stack.last().copied())))
    }
}

/// Explores all scripts with up to `deviations` answers other than 'continue'.
/// Returns (traversals, callbacks).
fn scripts(
    g: &G,
    run: Run,
    deviations: usize,
    texts: usize,
    fail: &mut dyn FnMut(&Script, String),
) -> (u64, u64) {
    let (mut runs, mut calls) = (0, 0);
    let mut todo: Vec<Script> = vec![vec![]];
    let mut failures = 0;
    while let Some(s) = todo.pop() {
        runs += 1;
        let entries = match engine::guard(|| compare(g, run, &s)).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
            Ok(e) => e,
            Err(e) => {
                fail(&s, e);
                failures += 1;
                if failures > 3 {
                    break;
                }
                continue;
            }
        };
        calls += entries.len() as u64;
        if s.len() >= deviations || matches!(s.last(), Some((_, Answer::Fail(_)))) {
            continue;
        }
        let from = s.last().map_or(0, |l| l.0 + 1);
        for (i, enter) in entries.iter().enumerate().skip(from) {
            let mut more = |a: Answer| {
                let mut s = s.clone();
                s.push((i, a));
                todo.push(s);
            };
            if *enter {
                more(Answer::Skip);
            }
            for t in 0..texts {
                more(Answer::Fail(t as u8));
            }
        }
    }
    (runs, calls)
}

fn encode_script(s: &Script) -> String {
    s.iter()
        .map(|(i, a)| match a {
            Answer::Skip => format!("{i}s"),
            Answer::Fail(t) => format!("{i}f{t}"),
        })
        .collect::<Vec<_>>()
        .join(",")
}

fn decode_script(s: &str) -> Script {
    s.split(',')
        .filter(|p| !p.is_empty())
        .map(|p| {
            if let Some(i) = p.strip_suffix('s') {
                (i.parse().unwrap_or(0), Answer::Skip)
            } else {
                let (i, t) = p.split_once('f').unwrap_or((p, "0"));
                (i.parse().unwrap_or(0), Answer::Fail(t.parse().unwrap_or(0)))
            }
        })
        .collect()
}

static CHAINS: Mutex<Option<HashSet<u64>>> = Mutex::new(None);

thread_local! {
    static MINE: std::cell::RefCell<HashSet<u64>> = Default::default();
}

/// States of a traversal: the chains of enclosing nodes, by kind.
fn chains(g: &G, above: u64) {
    let here = (above ^ engine::hash(g.kind)).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
    if MINE.with(|m| m.borrow_mut().insert(here)) {
        CHAINS.lock().unwrap().get_or_insert_with(HashSet::new).insert(here);
    }
    for c in g.children() {
        chains(c, here);
    }
}

/// One sentence: all scripts (C14) or the undisturbed traversal (C13).
fn judge(engine: &Engine, name: &'static str, ks: &[K], deviations: usize, texts: usize) -> (u64, u64) {
    let enc = encode(ks);
    let parts: [&[u8]; 5] = [b"v:", name.as_bytes(), b":", b":", enc.as_bytes()];
    engine.announce(&parts);
    let mut count = (0, 0);
    let r = engine::guard(|| {
        let _ = (start(name).with)(Feed { ks, i: 0 }, &mut |g, run| {
            let mut fail = |s: &Script, e: String| {
                engine.violation(
                    format!("v:{name}:{}:{enc}", encode_script(s)),
                    format!("traversing the {name} `{}`: {e}", bridge::show(ks)),
                );
            };
            chains(g, 17);
            if engine.property == "C13" {
                if let Err(e) = well_formed(run) {
                    fail(&vec![], e);
                }
                count = scripts(g, run, 0, 0, &mut fail);
            } else {
                count = scripts(g, run, deviations, texts, &mut fail);
            }
        });
    });
    if let Err(p) = r {
        engine.violation(
            format!("v:{name}::{enc}"),
            format!("traversing the {name} `{}`: panic: {p}", bridge::show(ks)),
        );
    }
    engine.idle();
    count
}

fn tally(engine: &Engine, sentences: u64, c: (u64, u64)) {
    if engine.property != "C13" {
        engine.add("sentences", sentences);
    }
    engine.add("traces_validated_against_impl", c.0);
    engine.add("transitions", c.1);
}

fn batch(engine: &Engine, name: &'static str, list: &[Kinds], deviations: usize, texts: usize) {
    engine.parallel(list.len().div_ceil(16), |c| {
        let mut t = (0, 0);
        let mut n = 0;
        for ks in &list[c * 16..((c + 1) * 16).min(list.len())] {
            let r = judge(engine, name, ks, deviations, texts);
            t = (t.0 + r.0, t.1 + r.1);
            n += 1;
            if engine.stopped() {
                break;
            }
        }
        tally(engine, n, t);
    });
}

/// Sentences reached by the breadth-first search of one construct.
fn explore(engine: &Engine, name: &'static str, w: usize, budget: usize, deviations: usize) {
    let g = Grammar::scilla();
    let mut seen = HashSet::new();
    let mut level = grammar::first_level(g, g.id(name));
    let mut done: HashSet<u64> = HashSet::new();
    let mut total = 0;
    let (mut n, mut t) = (0, (0, 0));
    loop {
        for (ks, st) in level.prefixes.iter().chain(&level.merged) {
            if engine.stopped() {
                break;
            }
            let mut v = ks.clone();
            v.extend(g.complete(st));
            if done.insert(engine::hash(&encode(&v))) {
                let r = judge(engine, name, &v, deviations, 1);
                t = (t.0 + r.0, t.1 + r.1);
                n += 1;
            }
        }
        total += level.prefixes.len();
        if level.prefixes.is_empty() || level.depth > 60 || engine.stopped() {
            break;
        }
        let next = grammar::next_level(g, &level, 2, w, &mut seen);
        if total + next.prefixes.len() > budget {
            break;
        }
        level = next;
    }
    tally(engine, n, t);
}

fn weight(name: &str) -> usize {
    match name {
        "Program" => 4,
        "ContractDefinition" | "FullExpression" | "Statement" | "ScillaType" => 3,
        _ => 1,
    }
}

fn run(engine: &Engine) {
    let g = Grammar::scilla();
    let only = engine.property == "C13";
    let mut starts: Vec<&'static str> = STARTS.to_vec();
    starts.sort_by_key(|s| std::cmp::Reverse(weight(s)));
    let unit = if only { engine.pick(60000, 200000) } else { engine.pick(8000, 60000) };
    engine.parallel(starts.len(), |i| {
        explore(engine, starts[i], 1, unit * weight(starts[i]), 1);
    });
    engine.progress("states, one deviation");
    for name in &starts {
        let mut list = g.covering(g.id(name), engine.pick(2, 3));
        for m in [1, 2, 3, 6] {
            if m <= 3 || *name == "Program" {
                list.extend(g.repeats(g.id(name), m));
            }
        }
        list.sort_by_key(|s| (s.len(), s.clone()));
        list.dedup();
        let cap = if *name == "Program" { usize::MAX } else { engine.pick(1500, 20000) };
        if only {
            batch(engine, name, &list, 0, 0);
            continue;
        }
        list.truncate(cap);
        batch(engine, name, &list, 1, TEXTS.len());
        // Two deviations, and every combination on small trees.
        let two: Vec<Kinds> = g
            .covering(g.id(name), 2)
            .into_iter()
            .take(engine.pick(700, 3000))
            .collect();
        batch(engine, name, &two, 2, 1);
        let small: Vec<Kinds> = list
            .iter()
            .filter(|s| s.len() <= engine.pick(5, 7))
            .take(engine.pick(100, 600))
            .cloned()
            .collect();
        batch(engine, name, &small, engine.pick(6, 9), 1);
        if engine.stopped() {
            return;
        }
    }
    engine.progress("covering sentences");
    for name in &starts {
        let program = *name == "Program";
        let k = if program { engine.pick(4, 6) } else { engine.pick(2, 4) };
        let list = if only {
            g.large(g.id(name), k, engine.pick(&[20, 130, 260], &[20, 70, 130, 260, 520]), engine.pick(&[130, 260, 1030], &[70, 130, 260, 520, 1030, 4100]))
        } else {
            // Every deviation at every depth and place.
            g.large(g.id(name), k, engine.pick(&[12, 40], &[12, 40, 70]), engine.pick(&[12, 40], &[12, 40, 70]))
        };
        batch(engine, name, &list, if only { 0 } else { 1 }, if only { 0 } else { 1 });
        if engine.stopped() {
            return;
        }
    }
    engine.progress("large sentences");
    for s in g.covering(g.id("Program"), 2).iter().step_by(97) {
        engine.sample(bridge::show(s));
    }
    engine.add("states", CHAINS.lock().unwrap().as_ref().map_or(0, |c| c.len()) as u64);
    let _ = terms::NTERMS;
}

fn replay(engine: &Engine, case: &str) {
    let mut p = case.splitn(4, ':').skip(1);
    let name = start(p.next().unwrap_or("")).name;
    let script = decode_script(p.next().unwrap_or(""));
    let ks = decode(p.next().unwrap_or(""));
    engine.check(case, || {
        let mut r = Ok(());
        let _ = (start(name).with)(Feed { ks: &ks, i: 0 }, &mut |g, run| {
            r = compare(g, run, &script).map(|_| ());
            if engine.property == "C13" && r.is_ok() {
                r = well_formed(run);
            }
        });
        r
    });
}

fn main() {
    engine::main(&[
        Check {
            spec: Spec {
                property: "C13",
                rule: "every sentence of the breadth-first search over the states of each construct (prefixes and merged transitions, completed), of the covering sets, repetitions, deep nestings and long lists is parsed, and the real traversal of its tree with a converter that always continues is compared, event by event (entry, exit, span announced, span withdrawn, node), with the reference traversal",
                assumptions: &["nodes are identified by address, or by their content if the traversal hands out copies"],
            },
            run,
            replay,
        },
        Check {
            spec: Spec {
                property: "C14",
                rule: "for every sentence explored, all scripts of converter answers with at most one deviation from 'continue' (skip at every entry, errors with several texts at every callback), on smaller sets all scripts with two, and with any number up to the bound on small trees; every run is compared event by event and in its result with the reference traversal",
                assumptions: &["what 'skip children' means as the answer to an exit callback is unspecified and not explored"],
            },
            run,
            replay,
        },
    ]);
}
