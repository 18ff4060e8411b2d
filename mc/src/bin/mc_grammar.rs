//! C04, C05, C06, C07: the parsers, explored over the reachable states of the
//! reference grammar's pushdown automaton and compared with it.

#[path = "../imp/bridge.rs"]
mod bridge;
#[path = "../imp/reflect.rs"]
mod reflect;

use bridge::{end_of, start_of, Item, PErr, Tok};
use mc::engine::{self, Check, Engine, Spec};
use mc::grammar::{self, decode, encode, terminals, Grammar, Kinds, State, EOF_BIT, STARTS};
use mc::terms::{self, K, NTERMS, T, UNKNOWN};
use reflect::{Matcher, Reflect, Span, G};
use scilla_parser::parser::lexer::{Lexer, SourcePosition, Token};
use scilla_parser::parser::parser;
use std::collections::HashSet;
use std::sync::Mutex;

/// Tokens as given, one by one, or with the positions the tokenizer gives them.
struct Feed<'a> {
    inner: &'a mut dyn FnMut(usize) -> Option<Item>,
    i: usize,
}

impl Iterator for Feed<'_> {
    type Item = Item;
    fn next(&mut self) -> Option<Item> {
        let r = (self.inner)(self.i);
        self.i += 1;
        r
    }
}

type Accept = fn(Feed) -> Result<usize, PErr>;
type Tree = fn(Feed, &mut dyn FnMut(G)) -> Result<usize, PErr>;

struct Start {
    name: &'static str,
    accept: Accept,
    tree: Tree,
}

macro_rules! table {
    ($($name:ident $parser:ident),* $(,)?) => {
        &[$( Start {
            name: stringify!($name),
            accept: |f| {
                let mut errors = vec![];
                parser::$parser::new().parse(&mut errors, f).map(|_| errors.len())
            },
            tree: |f, g| {
                let mut errors = vec![];
                let r = parser::$parser::new().parse(&mut errors, f)?;
                g(r.reflect());
                Ok(errors.len())
            },
        } ),*]
    };
}

static TABLE: &[Start] = with_starts!(table);

fn start(name: &str) -> &'static Start {
    TABLE.iter().find(|s| s.name == name).expect("start symbol")
}

fn accept(s: &Start, ks: &[K], more: Option<K>) -> Result<usize, PErr> {
    let n = ks.len();
    let mut f = |i: usize| {
        if i < n {
            Some(bridge::item(ks[i], i))
        } else if i == n {
            more.map(|k| bridge::item(k, i))
        } else {
            None
        }
    };
    (s.accept)(Feed {
        inner: &mut f,
        i: 0,
    })
}

fn describe(r: &Result<usize, PErr>) -> String {
    match r {
        Ok(_) => "accepted".into(),
        Err(lalrpop_util::ParseError::UnrecognizedToken { token, .. }) => {
            format!("rejected at {:?} {:?}", token.1, token.0)
        }
        Err(lalrpop_util::ParseError::UnrecognizedEof { location, .. }) => {
            format!("rejected at the end of input, {location:?}")
        }
        Err(e) => format!("{e:?}"),
    }
}

fn index_of(p: SourcePosition) -> Option<usize> {
    (p.position % 10 == 1 && start_of(p.position / 10) == p).then_some(p.position / 10)
}

/// C04 for one sequence: `viable` is the number of leading tokens that form a
/// viable prefix, `accepts` whether the sequence is a sentence.
fn c04(r: &Result<usize, PErr>, n: usize, viable: usize, accepts: bool) -> Result<(), String> {
    match r {
        Ok(0) if accepts => Ok(()),
        Ok(0) => Err("accepted, but not derivable".into()),
        Ok(_) => Err("accepted with recovered errors".into()),
        Err(_) if accepts => Err(format!("derivable, but {}", describe(r))),
        Err(lalrpop_util::ParseError::UnrecognizedEof { .. }) if viable < n => Err(format!(
            "token {viable} cannot continue a sentence, but the parser goes on to the end of input"
        )),
        Err(lalrpop_util::ParseError::UnrecognizedToken { token, .. })
            if index_of(token.0).is_some_and(|i| i < viable) =>
        {
            Err(format!(
                "the first {viable} tokens begin a sentence, but the parser stops: {}",
                describe(r)
            ))
        }
        Err(_) => Ok(()),
    }
}

/// Terminal named in a list of expected tokens, if the name is understood.
fn expected_kind(s: &str) -> Option<K> {
    let t = s.strip_prefix('r').unwrap_or(s).trim_matches('#');
    let t = t.strip_prefix('"').and_then(|t| t.strip_suffix('"')).unwrap_or(s);
    for k in 0..NTERMS as K {
        if !terms::has_payload(k) && terms::canon(k).s == t {
            return Some(k);
        }
    }
    let head: String = t.chars().take(5).collect();
    Some(match head.as_str() {
        "ByStr" => terms::BYSTRN,
        "[+-]?" => terms::NUM,
        "0(x|X" => terms::HEX,
        "[a-z]" => terms::ID,
        "[_][a" => terms::SPID,
        "[A-Z]" => terms::CID,
        "['][A" => terms::TID,
        h if h.starts_with('"') => terms::STR,
        _ => return None,
    })
}

fn compare_expected(list: &[String], want: u64) -> Result<(), String> {
    let mut got = 0u64;
    for e in list {
        match expected_kind(e) {
            Some(k) => got |= 1 << k,
            None => return Ok(()), // a terminal under another name
        }
    }
    let want = want & !EOF_BIT;
    if got & !want != 0 {
        let names = |s: u64| terminals(s).map(terms::name).collect::<Vec<_>>().join(" ");
        return Err(format!(
            "listed as expected, but no sentence goes on with: [{}]; possible are [{}]",
            names(got & !want),
            names(want)
        ));
    }
    Ok(())
}

/// C05 for one sequence that is not a sentence.
fn c05(
    r: &Result<usize, PErr>,
    n: usize,
    viable: usize,
    accepts: bool,
    expected: u64,
    at: &dyn Fn(usize) -> (Tok, Span),
) -> Result<(), String> {
    use lalrpop_util::ParseError::*;
    if accepts {
        return Ok(());
    }
    match r {
        Ok(_) => Err("accepted, but not a sentence".into()),
        Err(UnrecognizedEof {
            location,
            expected: e,
        }) => {
            if viable < n {
                return Err(format!(
                    "reported at the end of input; token {viable} ({:?}) is the first that cannot continue",
                    at(viable).0
                ));
            }
            let want = if n == 0 {
                SourcePosition::default()
            } else {
                at(n - 1).1 .1
            };
            if *location != want {
                return Err(format!(
                    "the end of input is reported at {location:?}, the last token ends at {want:?}"
                ));
            }
            compare_expected(e, expected)
        }
        Err(UnrecognizedToken { token, expected: e }) => {
            if viable == n {
                return Err(format!(
                    "every token can continue, but the parser reports {:?} at {:?}",
                    token.1, token.0
                ));
            }
            let (t, (s, e2)) = at(viable);
            if token.0 != s || token.2 != e2 || token.1 != t {
                return Err(format!(
                    "the first token that cannot continue is {t:?} at {s:?}..{e2:?}; reported {:?} at {:?}..{:?}",
                    token.1, token.0, token.2
                ));
            }
            compare_expected(e, expected)
        }
        Err(ExtraToken { token }) => {
            let (t, (s, e2)) = at(viable.min(n.saturating_sub(1)));
            if viable == n || token.0 != s || token.2 != e2 || token.1 != t {
                return Err(format!("reported as extra token: {:?} at {:?}", token.1, token.0));
            }
            if expected & !EOF_BIT != 0 {
                return Err("reported as extra token, but the construct may go on".into());
            }
            Ok(())
        }
        Err(e) => Err(format!("{e:?}")),
    }
}

fn synthetic(ks: &[K], more: Option<K>) -> impl Fn(usize) -> (Tok, Span) + '_ {
    move |i| {
        let k = ks.get(i).copied().or(more).unwrap_or(UNKNOWN);
        (bridge::tok(terms::unique(k, i)), (start_of(i), end_of(i)))
    }
}

/// Runs the recogniser over a sequence: length of the viable prefix, accepted,
/// what was expected at the point of failure (or at the end).
fn recognise(g: &Grammar, s: u16, ks: &[K]) -> (usize, bool, u64) {
    let mut st = g.begin(s);
    for (i, k) in ks.iter().enumerate() {
        if !g.push(&mut st, *k) {
            return (i, false, st.expected());
        }
    }
    (ks.len(), st.accepts(), st.expected())
}

/// Judges one sequence of kinds against the start symbol.
fn judge(engine: &Engine, name: &str, ks: &[K]) -> Result<(), String> {
    let g = Grammar::scilla();
    let (viable, accepts, expected) = recognise(g, g.id(name), ks);
    judge_known(engine, start(name), ks, None, viable, accepts, expected)
}

fn judge_known(
    engine: &Engine,
    s: &Start,
    ks: &[K],
    more: Option<K>,
    viable: usize,
    accepts: bool,
    expected: u64,
) -> Result<(), String> {
    let n = ks.len() + more.is_some() as usize;
    match engine.property.as_str() {
        "C04" => c04(&accept(s, ks, more), n, viable, accepts),
        "C05" => c05(
            &accept(s, ks, more),
            n,
            viable,
            accepts,
            expected,
            &synthetic(ks, more),
        ),
        "C07" if !accepts => Ok(()),
        // Whatever is accepted has to be preserved.
        p => {
            let mut v = ks.to_vec();
            v.extend(more);
            tree(s, &v, p == "C07")
        }
    }
    .map_err(|e| {
        let mut v = ks.to_vec();
        v.extend(more);
        format!("{} of `{}`: {e}", s.name, bridge::show(&v))
    })
}

/// C06 / C07 for one sentence.
fn tree(s: &Start, ks: &[K], spans: bool) -> Result<(), String> {
    let toks: Vec<T> = ks
        .iter()
        .enumerate()
        .map(|(i, k)| terms::unique(*k, i))
        .collect();
    tree_of(s, &toks, spans)
}

fn tree_of(s: &Start, toks: &[T], spans: bool) -> Result<(), String> {
    let n = toks.len();
    let mut f = |i: usize| (i < n).then(|| Ok((start_of(i), bridge::tok(toks[i]), end_of(i))));
    let mut g = None;
    let r = (s.tree)(
        Feed {
            inner: &mut f,
            i: 0,
        },
        &mut |t| g = Some(t),
    );
    let Some(g) = g else {
        // Whether it is accepted is C04's question.
        return match r {
            Err(_) => Ok(()),
            Ok(_) => Err("no tree".into()),
        };
    };
    let (content, span) = Matcher::run(&g, toks, &|i| (start_of(i), end_of(i)));
    match if spans { span } else { content } {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// Same, for a text: positions and payloads from the tokenizer.
fn tree_of_text(text: &'static str, spans: bool) -> Result<(), String> {
    let lexed = bridge::lex(text);
    let toks: Vec<T> = lexed
        .iter()
        .map(|(t, s, e)| T {
            k: bridge::kind(t).unwrap_or(UNKNOWN),
            s: text.get(s.position..e.position).unwrap_or("?"),
        })
        .collect();
    let mut errors = vec![];
    let Ok(p) = parser::ProgramParser::new().parse(&mut errors, Lexer::new(text)) else {
        return Err("the contract is rejected".into());
    };
    let g = p.reflect();
    let (content, span) = Matcher::run(&g, &toks, &|i| (lexed[i].1, lexed[i].2));
    match if spans { span } else { content } {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

struct Tally {
    states: u64,
    transitions: u64,
    sequences: u64,
}

/// Breadth-first search over the states of one start symbol.
fn explore(engine: &Engine, name: &'static str, full: usize, w: usize, budget: usize, max: usize) {
    let g = Grammar::scilla();
    let s = start(name);
    let id = g.id(name);
    let mut seen = HashSet::new();
    let mut level = grammar::first_level(g, id);
    let trees = matches!(engine.property.as_str(), "C06" | "C07");
    let mut total = 0;
    let mut depth;
    let mut t = Tally {
        states: 0,
        transitions: 0,
        sequences: 0,
    };
    let mut sentences: HashSet<u64> = HashSet::new();
    let run = |ks: &[K], more: Option<K>, viable, accepts, expected, t: &mut Tally| {
        t.sequences += 1;
        let enc = encode(ks);
        let m = more.map(|k| encode(&[k])).unwrap_or_default();
        let parts: [&[u8]; 5] = [b"g:", name.as_bytes(), b":", enc.as_bytes(), m.as_bytes()];
        engine.announce(&parts);
        let r = engine::guard(|| judge_known(engine, s, ks, more, viable, accepts, expected));
        let what = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => format!("panic: {p}"),
        };
        engine.violation(format!("g:{name}:{enc}{m}"), what);
    };
    let mut sentence = |ks: &[K], st: &State, run: &mut dyn FnMut(&[K], bool, &mut Tally), t: &mut Tally| {
        let mut v = ks.to_vec();
        v.extend(g.complete(st));
        if sentences.insert(engine::hash(&encode(&v))) {
            run(&v, true, t);
        }
    };
    loop {
        for (ks, st) in &level.prefixes {
            if engine.stopped() {
                break;
            }
            t.states += 1;
            let exp = st.expected();
            if trees {
                if st.accepts() {
                    run(ks, None, ks.len(), true, exp, &mut t);
                }
            } else {
                run(ks, None, ks.len(), st.accepts(), exp, &mut t);
                for k in 0..NTERMS as K {
                    if exp & (1 << k) == 0 {
                        run(ks, Some(k), ks.len(), false, exp, &mut t);
                        t.transitions += 1;
                    }
                }
                run(ks, Some(UNKNOWN), ks.len(), false, exp, &mut t);
            }
            if engine.property != "C05" {
                sentence(
                    ks,
                    st,
                    &mut |v, _, t| run(v, None, v.len(), true, EOF_BIT, t),
                    &mut t,
                );
            }
        }
        // Transitions into known states: what follows must be the same.
        for (ks, st) in &level.merged {
            if engine.stopped() {
                break;
            }
            t.transitions += 1;
            if engine.property == "C05" {
                run(ks, None, ks.len(), st.accepts(), st.expected(), &mut t);
                run(ks, Some(UNKNOWN), ks.len(), false, st.expected(), &mut t);
            } else {
                sentence(
                    ks,
                    st,
                    &mut |v, _, t| run(v, None, v.len(), true, EOF_BIT, t),
                    &mut t,
                );
            }
        }
        t.transitions += level.prefixes.len() as u64;
        depth = level.depth;
        total += level.prefixes.len();
        if level.prefixes.is_empty() || depth >= max || engine.stopped() {
            break;
        }
        let next = grammar::next_level(g, &level, full, w, &mut seen);
        if total + next.prefixes.len() > budget {
            break;
        }
        level = next;
    }
    engine.idle();
    engine.add("states", t.states);
    engine.add("transitions", t.transitions);
    engine.add("evaluations", t.sequences);
    engine.add("traces_validated_against_impl", t.sequences);
    DEPTHS.lock().unwrap().push(format!("{name}:{depth}"));
}

static DEPTHS: Mutex<Vec<String>> = Mutex::new(vec![]);

fn weight(name: &str) -> usize {
    match name {
        "Program" => 4,
        "ContractDefinition" | "FullExpression" | "Statement" | "ScillaType" => 3,
        "ComponentDefinition" | "ComponentBody" | "LibraryDefinition" | "LibrarySingleDefinition"
        | "StatementBlock" | "AddressType" | "Pattern" => 2,
        _ => 1,
    }
}

/// Judges every sequence of a list for one start symbol.
fn batch(engine: &Engine, name: &'static str, list: &[Kinds], what: &str) {
    let chunk = 64;
    engine.parallel(list.len().div_ceil(chunk), |c| {
        let mut n = 0;
        for ks in &list[c * chunk..((c + 1) * chunk).min(list.len())] {
            engine.check(&format!("g:{name}:{}", encode(ks)), || judge(engine, name, ks));
            n += ks.len() as u64;
        }
        engine.add("transitions", n);
    });
    engine.add("evaluations", list.len() as u64);
    engine.add("traces_validated_against_impl", list.len() as u64);
    engine.add(what, list.len() as u64);
}

/// All sequences one edit away from the sentences, each judged.
fn edits(engine: &Engine, name: &'static str, list: &[Kinds]) {
    let g = Grammar::scilla();
    let id = g.id(name);
    engine.parallel(list.len(), |c| {
        let ks = &list[c];
        let mut n = 0u64;
        for at in 0..=ks.len() {
            // The state before the edit; an edit at `at` keeps ks[..at].
            let mut st = g.begin(id);
            for k in &ks[..at] {
                g.push(&mut st, *k);
            }
            for op in 0..3 {
                if op != 1 && at == ks.len() {
                    continue;
                }
                let subst: &[Option<K>] = if op == 0 { &[None] } else { &ALL };
                for t in subst {
                    let mut v = ks[..at].to_vec();
                    let mut s2 = st.clone();
                    let mut viable = at;
                    let mut alive = true;
                    if let Some(t) = t {
                        if op == 2 && *t == ks[at] {
                            continue;
                        }
                        v.push(*t);
                        alive = g.push(&mut s2, *t);
                        viable += alive as usize;
                    }
                    let rest = &ks[at + (op != 1) as usize..];
                    v.extend(rest);
                    for k in rest {
                        alive = alive && g.push(&mut s2, *k);
                        viable += alive as usize;
                    }
                    let accepts = alive && s2.accepts();
                    n += 1;
                    if engine.property == "C07" && !accepts {
                        continue;
                    }
                    let case = format!("g:{name}:{}", encode(&v));
                    engine.check(&case, || {
                        judge_known(engine, start(name), &v, None, viable, accepts, s2.expected())
                    });
                    if engine.stopped() {
                        return;
                    }
                }
            }
        }
        engine.add("edited_sequences", n);
        engine.add("transitions", n);
        engine.add("evaluations", n);
        engine.add("traces_validated_against_impl", n);
    });
}

static ALL: [Option<K>; NTERMS + 1] = {
    let mut a = [Some(UNKNOWN); NTERMS + 1];
    let mut i = 0;
    while i < NTERMS {
        a[i] = Some(i as K);
        i += 1;
    }
    a
};

/// C05 on texts: the error value of parsing a text as a contract.
fn text_error(text: &str) -> Result<(), String> {
    let g = Grammar::scilla();
    let lexed = bridge::lex(text);
    let kinds: Kinds = lexed
        .iter()
        .map(|(t, ..)| bridge::kind(t).unwrap_or(UNKNOWN))
        .collect();
    let (viable, accepts, _) = recognise(g, g.id("Program"), &kinds);
    if accepts {
        return Ok(());
    }
    match text.parse::<scilla_parser::Contract>() {
        Ok(c) => Err(format!("not a contract, but parsed: {c:?}")),
        Err(scilla_parser::Error::ParseError(m)) => {
            let mut want = vec![];
            if viable == kinds.len() {
                let p = lexed.last().map(|l| l.2).unwrap_or_default();
                want.push(p);
            } else {
                want.push(lexed[viable].1);
                want.push(lexed[viable].2);
            }
            for p in want {
                if !has_position(&m, p) {
                    return Err(format!("the message does not carry {p:?}: {m}"));
                }
            }
            Ok(())
        }
        Err(e) => Err(format!("not a parse error: {e:?}")),
    }
}

/// Whether a message contains offset, line and column of a position, in this
/// order and close together, whatever the wording.
fn has_position(m: &str, p: SourcePosition) -> bool {
    if m.contains(&format!("{p:?}")) {
        return true;
    }
    let mut nums: Vec<usize> = vec![];
    for part in m.split(|c: char| !c.is_ascii_digit()) {
        if let Ok(n) = part.parse() {
            nums.push(n);
        }
    }
    let has = |n: usize| nums.contains(&n);
    has(p.position) && has(p.line) && has(p.column)
}

const LAYOUTS: &[&str] = &[" ", "\n", " (* c\n*) ", "\r\n\t"];

fn layout(ks: &[K], l: usize) -> String {
    let mut s = String::from(if l % 2 == 1 { "\n" } else { "" });
    for (i, k) in ks.iter().enumerate() {
        if i > 0 {
            s.push_str(LAYOUTS[l]);
        }
        s.push_str(terms::unique(*k, i).s);
    }
    s.push_str(LAYOUTS[l]);
    s
}

fn texts(engine: &Engine) {
    let g = Grammar::scilla();
    let mut list = g.covering(g.id("Program"), engine.pick(1, 2));
    list.extend(g.repeats(g.id("Program"), 2).into_iter().step_by(engine.pick(9, 2)));
    engine.parallel(list.len(), |c| {
        let ks = &list[c];
        let mut n = 0;
        for l in 0..LAYOUTS.len() {
            if engine.quick() && l != c % LAYOUTS.len() {
                continue;
            }
            for at in 0..=ks.len() {
                for op in 0..3 {
                    if op > 0 && at == ks.len() {
                        continue;
                    }
                    let mut v = ks[..at].to_vec();
                    match op {
                        0 => {
                            v.push(UNKNOWN);
                            v.extend(&ks[at..]);
                        }
                        1 => v.extend(&ks[at + 1..]),
                        _ => (),
                    }
                    let text = layout(&v, l);
                    n += 1;
                    engine.check(&format!("x:{text}"), || text_error(&text));
                }
            }
        }
        engine.add("texts", n);
        engine.add("evaluations", n);
        engine.add("traces_validated_against_impl", n);
    });
    // Tokens of every length, and tokens at far places.
    let stems: [(&str, &str, &str); 7] = [
        ("a", "x", ""),
        ("A", "X", ""),
        ("_", "y", ""),
        ("'T", "z", ""),
        ("\"", "é", "\""),
        ("0x", "ab", ""),
        ("ByStr1", "0", ""),
    ];
    let far = engine.pick(700, 3000);
    let big: Vec<usize> = (7..engine.pick(17, 21)).flat_map(|e| [(1 << e) - 1, 1 << e, (1 << e) + 1]).collect();
    engine.parallel(far + big.len(), |i| {
        let m = if i < far { i } else { big[i - far] };
        let mut n = 0;
        let mut run = |text: String| {
            n += 1;
            engine.check(&format!("x:{text}"), || text_error(&text));
        };
        for (a, b, c) in stems {
            let t = format!("{a}{}{c}", b.repeat(m));
            run(format!("scilla_version {t} contract"));
            run(format!("scilla_version 0 contract C ( ) transition {t} {t}"));
            run(format!("scilla_version 0 contract C ( ) field x : {t}"));
        }
        run(format!("{}end", "\n".repeat(m)));
        run(format!("{}end", " ".repeat(m)));
        run(format!("(*{}*)end\n", "é\r".repeat(m)));
        run(format!("scilla_version{} {}0{}", "\n".repeat(m), " ".repeat(m), " ".repeat(m)));
        engine.add("texts", n);
        engine.add("evaluations", n);
        engine.add("traces_validated_against_impl", n);
    });
    engine.progress("texts");
}

fn tree_texts(engine: &Engine) {
    let g = Grammar::scilla();
    let spans = engine.property == "C07";
    let mut list = g.covering(g.id("Program"), engine.pick(2, 3));
    list.extend(g.repeats(g.id("Program"), 3));
    let list: Vec<_> = list.into_iter().step_by(engine.pick(2, 1)).collect();
    engine.parallel(list.len(), |c| {
        for l in 0..LAYOUTS.len() {
            if engine.quick() && l != c % LAYOUTS.len() {
                continue;
            }
            let text = layout(&list[c], l);
            let text: &'static str = Box::leak(text.into_boxed_str());
            engine.check(&format!("x:{text}"), || tree_of_text(text, spans));
            engine.add("texts", 1);
            engine.add("evaluations", 1);
            engine.add("traces_validated_against_impl", 1);
        }
    });
    let mut files: Vec<_> = std::fs::read_dir("/repo/tests/contracts")
        .map(|d| d.flatten().map(|e| e.path()).collect())
        .unwrap_or_else(|_| Vec::<std::path::PathBuf>::new());
    files.sort();
    engine.parallel(files.len(), |i| {
        let Ok(text) = std::fs::read_to_string(&files[i]) else {
            return;
        };
        let text: &'static str = Box::leak(text.into_boxed_str());
        let kinds: Kinds = bridge::lex(text)
            .iter()
            .map(|(t, ..)| bridge::kind(t).unwrap_or(UNKNOWN))
            .collect();
        if !recognise(g, g.id("Program"), &kinds).1 {
            return;
        }
        engine.check(&format!("x:{text}"), || tree_of_text(text, spans));
        engine.add("contracts", 1);
        engine.add("evaluations", 1);
    });
    engine.progress("texts");
}

/// A sentence with given payloads.
fn spelled(engine: &Engine, name: &str, toks: &[T]) -> Result<(), String> {
    let s = start(name);
    if engine.property != "C04" {
        return tree_of(s, toks, engine.property == "C07");
    }
    let n = toks.len();
    let mut f = |i: usize| (i < n).then(|| Ok((start_of(i), bridge::tok(toks[i]), end_of(i))));
    let r = (s.accept)(Feed { inner: &mut f, i: 0 });
    c04(&r, n, n, true)
}

/// C04 on texts: what is a sentence is parsed as a contract, unless the
/// converter has something to say about its types; what is none is not.
fn text_accepts(text: &str, toks: &[T]) -> Result<(), String> {
    let g = Grammar::scilla();
    let ks: Kinds = toks.iter().map(|t| t.k).collect();
    let accepts = recognise(g, g.id("Program"), &ks).1;
    let got = text.parse::<scilla_parser::Contract>();
    let mut errors = vec![];
    let items = toks.iter().enumerate().map(|(i, t)| Ok((start_of(i), bridge::tok(*t), end_of(i))));
    let want = match parser::ProgramParser::new().parse(&mut errors, items) {
        Ok(p) => scilla_parser::simplified_representation::emitter::SrEmitter::default().emit(&p),
        Err(e) => Err(format!("{e:?}")),
    };
    match (accepts, want, got) {
        (true, Ok(_), Err(e)) => Err(format!("a contract of the documented grammar is rejected: {e:?}")),
        (_, _, Ok(c)) if !accepts => Err(format!("not a contract, but parsed: {c:?}")),
        (true, Err(w), Ok(c)) => Err(format!("parser and converter reject the tokens ({w}), but the text is {c:?}")),
        _ => Ok(()),
    }
}

fn accepted_texts(engine: &Engine) {
    let g = Grammar::scilla();
    let program = g.id("Program");
    let one = g.covering(program, 1);
    let mut list: Vec<Vec<T>> = vec![];
    let word = |k: K, s: &'static str| T { k, s: if terms::is_word(k, s) { s } else { terms::canon(k).s } };
    let mut sentences = g.covering(program, engine.pick(2, 3));
    sentences.extend(g.repeats(program, 2));
    for (i, ks) in sentences.iter().enumerate().step_by(engine.pick(3, 1)) {
        list.push(ks.iter().enumerate().map(|(j, k)| terms::unique(*k, i + j)).collect());
    }
    for (i, ks) in one.iter().enumerate() {
        for r in 0..engine.pick(8, 66) {
            list.push(terms::dress(ks, 4 * r + i).into_iter().map(|(k, s)| word(k, s)).collect());
            let said = |j: usize, k: K| {
                let l = terms::vocabulary(k);
                if l.is_empty() { terms::canon(k).s } else { l[(i * 7 + r * 31 + j) % l.len()] }
            };
            list.push(ks.iter().enumerate().map(|(j, k)| word(*k, said(j, *k))).collect());
        }
        // One token less, more, or another one.
        for j in 0..engine.pick(6, ks.len()) {
            let at = (i + j * 11) % ks.len();
            let toks = || ks.iter().enumerate().map(|(j, k)| terms::unique(*k, j));
            list.push(toks().enumerate().filter(|(x, _)| *x != at).map(|(_, t)| t).collect());
            list.push(toks().enumerate().flat_map(|(x, t)| vec![t; 1 + (x == at) as usize]).collect());
            let other = terms::unique(((i + 13 * j) % NTERMS) as K, 77);
            list.push(toks().enumerate().map(|(x, t)| if x == at { other } else { t }).collect());
        }
    }
    for n in terms::lengths(engine.pick(136, 520)) {
        for v in 0..engine.pick(4, 16) {
            let ks = &one[(n * 5 + v * 17) % one.len()];
            list.push(ks.iter().enumerate().map(|(j, k)| word(*k, terms::sized(*k, n, v + j))).collect());
        }
    }
    engine.note("contracts_as_texts", list.len());
    engine.parallel(list.len(), |i| {
        let toks = &list[i];
        let mut text = String::new();
        for t in toks {
            text.push_str(t.s);
            text.push_str(LAYOUTS[i % LAYOUTS.len()]);
        }
        let ks: Kinds = toks.iter().map(|t| t.k).collect();
        let words: Vec<&str> = toks.iter().map(|t| t.s).collect();
        engine.check(&format!("a:{}\u{1}{}\u{1}{text}", encode(&ks), words.join("\u{2}")), || text_accepts(&text, toks));
        engine.add("evaluations", 1);
        engine.add("traces_validated_against_impl", 1);
        engine.add("transitions", toks.len() as u64);
    });
    engine.progress("contracts as texts");
}

/// Words and literals of every length, and peculiar ones, in every place.
fn payloads(engine: &Engine) {
    let g = Grammar::scilla();
    let list: Vec<(&'static str, Kinds)> = STARTS
        .iter()
        .flat_map(|s| g.covering(g.id(s), 1).into_iter().map(|ks| (*s, ks)))
        .filter(|(_, ks)| ks.iter().any(|k| terms::has_payload(*k)))
        .collect();
    let case = |name: &str, toks: &[T]| {
        let ks: Kinds = toks.iter().map(|t| t.k).collect();
        let words: Vec<&str> = toks.iter().map(|t| t.s).collect();
        format!("w:{name}:{}\u{1}{}", encode(&ks), words.join("\u{2}"))
    };
    let lengths = terms::lengths(engine.pick(136, 520));
    engine.note("lengths of words", lengths.len());
    let done = |n: u64, toks: usize| {
        engine.add("evaluations", n);
        engine.add("traces_validated_against_impl", n);
        engine.add("transitions", toks as u64);
    };
    engine.parallel(lengths.len(), |i| {
        let words: Vec<Vec<&'static str>> = (0..NTERMS)
            .map(|k| (0..3).map(|v| terms::sized(k as K, lengths[i], v)).collect())
            .collect();
        let step = if lengths[i] > 600 { 40 } else { engine.pick(2, 1) };
        let (mut n, mut m) = (0, 0);
        for (j, (name, ks)) in list.iter().enumerate().skip(i % step).step_by(step) {
            let toks: Vec<T> = ks
                .iter()
                .enumerate()
                .map(|(x, k)| T {
                    k: *k,
                    s: words[*k as usize][(x + i + j) % 3],
                })
                .collect();
            n += 1;
            m += toks.len();
            engine.check(&case(name, &toks), || spelled(engine, name, &toks));
            if engine.stopped() {
                return;
            }
        }
        done(n, m);
    });
    let rounds = engine.pick(33, 330);
    engine.parallel(list.len(), |j| {
        let (name, ks) = &list[j];
        let mut m = 0;
        for r in 0..rounds {
            let toks: Vec<T> = terms::dress(ks, r)
                .into_iter()
                .map(|(k, s)| T {
                    k,
                    s: if terms::is_word(k, s) { s } else { terms::canon(k).s },
                })
                .collect();
            m += toks.len();
            engine.check(&case(name, &toks), || spelled(engine, name, &toks));
        }
        done(rounds as u64, m);
    });
    engine.progress("payloads");
}

fn run(engine: &Engine) {
    let g = Grammar::scilla();
    let prop = engine.property.clone();
    let trees = matches!(prop.as_str(), "C06" | "C07");

    // All reachable states of every construct.
    let mut starts: Vec<&'static str> = STARTS.to_vec();
    starts.sort_by_key(|s| std::cmp::Reverse(weight(s)));
    let unit = engine.pick(if trees { 40000 } else { 10000 }, if trees { 120000 } else { 40000 });
    engine.parallel(starts.len(), |i| {
        let name = starts[i];
        let budget = unit * weight(name);
        explore(engine, name, 2, 1, budget, 60);
    });
    engine.progress("states");
    if !engine.quick() {
        // Again, keeping states apart by their last two tokens, and merged
        // entirely but deeper.
        engine.parallel(starts.len() * 2, |i| {
            let name = starts[i / 2];
            explore(engine, name, 3, if i % 2 == 0 { 2 } else { 0 }, unit * weight(name), 200);
        });
        engine.progress("states, other abstractions");
    }

    // Long repetitions and nestings of every construct.
    for name in &starts {
        let mut list = g.covering(g.id(name), engine.pick(2, 3));
        let lengths: &[usize] = if engine.quick() { &[1, 2, 3, 4, 8, 33] } else { &[1, 2, 3, 4, 5, 8, 17, 40, 70] };
        for m in lengths {
            if *name == "Program" || *m <= engine.pick(4, 8) {
                list.extend(g.repeats(g.id(name), *m));
            }
        }
        if engine.quick() && *name != "Program" && list.len() > 20000 {
            list.truncate(20000);
        }
        batch(engine, name, &list, "covering_sentences");
        if engine.stopped() {
            return;
        }
    }
    engine.progress("covering sentences");

    // Large sentences, and the same with a mistake.
    for name in &starts {
        let program = *name == "Program";
        let list = g.large(
            g.id(name),
            if program { engine.pick(4, 6) } else { engine.pick(2, 4) },
            if program { engine.pick(&[20, 130, 260], &[20, 70, 130, 260, 520]) } else { &[70, 260] },
            if program { engine.pick(&[130, 260, 1030], &[70, 130, 260, 520, 1030, 4100]) } else { &[70, 260] },
        );
        batch(engine, name, &list, "large_sentences");
        if !trees {
            let wrong: Vec<Kinds> = list
                .iter()
                .flat_map(|s| {
                    let n = s.len();
                    let mut less = s.clone();
                    less.remove(n / 2);
                    let mut more = s.clone();
                    more.push(s[n - 1]);
                    [s[..n - 1].to_vec(), less, more]
                })
                .collect();
            batch(engine, name, &wrong, "large_sentences");
        }
        if engine.stopped() {
            return;
        }
    }
    engine.progress("large sentences");

    // One edit away from sentences that use every pair of productions.
    let mut list = g.covering(g.id("Program"), engine.pick(1, 2));
    if !engine.quick() {
        list.extend(g.repeats(g.id("Program"), 2));
    } else {
        list.extend(g.covering(g.id("Program"), 2).into_iter().step_by(5));
    }
    list.sort();
    list.dedup();
    edits(engine, "Program", &list);
    engine.progress("edits");

    if prop != "C05" {
        payloads(engine);
    }
    match prop.as_str() {
        "C04" => accepted_texts(engine),
        "C05" => texts(engine),
        "C06" | "C07" => tree_texts(engine),
        _ => (),
    }
    let mut d = DEPTHS.lock().unwrap().clone();
    d.sort();
    engine.note("depths", d.join(" "));
    for s in g.covering(g.id("Program"), 2).iter().step_by(97) {
        engine.sample(bridge::show(s));
    }
}

fn replay(engine: &Engine, case: &str) {
    if let Some(r) = case.strip_prefix("g:") {
        let (name, ks) = r.split_once(':').unwrap_or((r, ""));
        let ks = decode(ks);
        engine.check(case, || judge(engine, name, &ks));
    } else if let Some(r) = case.strip_prefix("w:") {
        let (name, r) = r.split_once(':').unwrap_or((r, ""));
        let (ks, words) = r.split_once('\u{1}').unwrap_or((r, ""));
        let words: &'static str = Box::leak(words.to_string().into_boxed_str());
        let toks: Vec<T> = decode(ks).into_iter().zip(words.split('\u{2}')).map(|(k, s)| T { k, s }).collect();
        engine.check(case, || spelled(engine, name, &toks));
    } else if let Some(r) = case.strip_prefix("a:") {
        let r: &'static str = Box::leak(r.to_string().into_boxed_str());
        let p: Vec<&'static str> = r.splitn(3, '\u{1}').collect();
        if let [ks, words, text] = p[..] {
            let toks: Vec<T> = decode(ks).into_iter().zip(words.split('\u{2}')).map(|(k, s)| T { k, s }).collect();
            engine.check(case, || text_accepts(text, &toks));
        }
    } else if let Some(t) = case.strip_prefix("x:") {
        let t: &'static str = Box::leak(t.to_string().into_boxed_str());
        engine.check(case, || match engine.property.as_str() {
            "C06" => tree_of_text(t, false),
            "C07" => tree_of_text(t, true),
            _ => text_error(t),
        });
    }
}

#[allow(dead_code)]
fn unused(_: Token<&str>) {}

const ASSUME: &[&str] = &[
    "the reference grammar (mc/src/grammar.rs) is the documented grammar; where documentation and implementation disagree DESIGN.md says which reading is taken",
];

fn main() {
    engine::main(&[
        Check {
            spec: Spec {
                property: "C04",
                rule: "breadth-first search over the states of the reference grammar's pushdown automaton for each of the 45 exposed constructs; in every state the real parser must accept exactly if the state accepts, accept the completed prefix, and reject every token the state does not allow; merged transitions are completed and must be accepted; plus all sentences with every chain of productions, repetitions, nestings up to 260 (520) levels, lists up to 1030 (4100) elements, and all sequences one token edit away from them; words of every length up to 136 (520) and peculiar ones in every construct; whole contracts as texts through the public entry point",
                assumptions: ASSUME,
            },
            run,
            replay,
        },
        Check {
            spec: Spec {
                property: "C05",
                rule: "as C04; in every state, end of input and every token not allowed must be reported by the real parser as such, with its position, and every token listed as expected must be possible; plus texts with one token deleted, replaced by an unknown one, or cut off, parsed as contracts",
                assumptions: ASSUME,
            },
            run,
            replay,
        },
        Check {
            spec: Spec {
                property: "C06",
                rule: "every sentence of the breadth-first search (prefixes and merged transitions, completed), of the covering sets, repetitions, deep nestings and long lists is parsed by the real parser with a different payload for each token; writing the tree out again must give the token sequence, also for what the parser accepts among the sequences one token edit away; words of every length up to 136 (520) and peculiar ones in every construct",
                assumptions: &["the syntax tree does not record which of several import keywords an imported name stood under"],
            },
            run,
            replay,
        },
        Check {
            spec: Spec {
                property: "C07",
                rule: "the sentences of C06, with positions that identify each token; the span of every positioned node must be that of its first and last token",
                assumptions: &["the kind word of an address type (contract, library) is only required to lie within the address type"],
            },
            run,
            replay,
        },
    ]);
}
