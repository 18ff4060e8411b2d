//! C01: whatever the text, the tokens or the tree, parsing ends with a value.

use super::common::*;
use crate::bridge;
use crate::with_starts;
use mc::engine::{self, Engine};
use mc::grammar::{self, decode, encode, Grammar, Kinds, Nest};
use mc::scilla::{self, Ty};
use mc::terms::{self, K, NTERMS, UNKNOWN};
use scilla_parser::parser::parser;
use scilla_parser::simplified_representation::emitter::SrEmitter;
use scilla_parser::{Contract, Error, Type};
use std::time::Duration;

const STACK: usize = 8 << 20;

/// What can be done with a result: print it, compare it.
pub fn use_up(r: Result<Contract, Error>) {
    match r {
        Ok(c) => {
            let fields = c.init_params.iter().chain(c.fields.iter());
            let params = c.transitions.iter().flat_map(|t| t.params.iter());
            let mut n = format!("{c:?}").len();
            for f in fields.chain(params) {
                n += f.r#type.to_string().len();
                assert!(f.r#type.clone() == f.r#type);
            }
            assert!(n > 0);
        }
        Err(e) => assert!(!format!("{e} {e:?}").is_empty()),
    }
}

/// The public entry point on any text.
fn text(engine: &Engine, s: &str) {
    engine.announce(&[b"t:", s.as_bytes()]);
    let r = engine::guard(|| {
        stepped(mc::reflex::tokenize(s).len());
        use_up(s.parse::<Contract>())
    });
    engine.idle();
    if let Err(p) = r {
        engine.violation(format!("t:{s}"), format!("{s}\n  panic: {p}"));
    }
}

/// Parser and converter on tokens with given spellings.
fn tokens(toks: &[(K, &'static str)]) {
    stepped(toks.len());
    let mut errors = vec![];
    let r = parser::ProgramParser::new().parse(
        &mut errors,
        toks.iter()
            .enumerate()
            .map(|(i, (k, s))| Ok((bridge::start_of(i), bridge::tok_str(*k, s), bridge::end_of(i)))),
    );
    use_up(match r {
        Ok(p) => SrEmitter::default().emit(&p).map_err(Error::ParseError),
        Err(e) => Err(e.into()),
    });
}

fn spelled(engine: &Engine, toks: &[(K, &'static str)]) {
    let ks: Vec<K> = toks.iter().map(|t| t.0).collect();
    let mut case = format!("k:{}\u{1}", encode(&ks));
    for t in toks {
        case.push_str(t.1);
        case.push('\u{2}');
    }
    engine.case(&case, || tokens(toks));
}

pub type Run = fn(&[K], Option<K>);

macro_rules! table {
    ($($name:ident $parser:ident),* $(,)?) => {
        &[$( (stringify!($name), |ks, more| {
            let mut errors = vec![];
            let r = parser::$parser::new().parse(&mut errors, bridge::Toks::new(ks, more));
            assert!(format!("{:?}", r.map(|_| ())).len() > 1);
        }) ),*]
    };
}

pub static TABLE: &[(&str, Run)] = with_starts!(table);

fn constructs(engine: &Engine, ks: &[K], only: Option<&str>) {
    for (name, run) in TABLE {
        if only.is_some_and(|o| o != *name) {
            continue;
        }
        for more in [None, Some(UNKNOWN)] {
            stepped(ks.len());
            let mut all = ks.to_vec();
            all.extend(more);
            engine.case(&format!("p:{name}:{}", encode(&all)), || run(&all, None));
        }
    }
}

/// All strings of up to `n` characters of an alphabet.
fn strings(engine: &Engine, what: &str, alphabet: &[&str], n: usize, around: (&str, &str)) {
    let k = alphabet.len();
    engine.parallel(k * k, |i| {
        let mut runs = 0;
        let mut count = 1usize;
        for _ in 2..n {
            count *= k;
        }
        let mut s = String::new();
        let mut go = |s: &str| {
            runs += 1;
            text(engine, s);
        };
        if i == 0 {
            go(&format!("{}{}", around.0, around.1));
        }
        if i % k == 0 {
            go(&format!("{}{}{}", around.0, alphabet[i / k], around.1));
        }
        // Suffixes of every length below n - 2 and equal to it.
        let mut lens = vec![1usize];
        for _ in 2..n {
            lens.push(lens.last().unwrap() * k);
        }
        for (len, c) in lens.iter().enumerate() {
            for mut j in 0..*c {
                s.clear();
                s.push_str(around.0);
                s.push_str(alphabet[i / k]);
                s.push_str(alphabet[i % k]);
                for _ in 0..len {
                    s.push_str(alphabet[j % k]);
                    j /= k;
                }
                s.push_str(around.1);
                go(&s);
            }
            if engine.stopped() {
                return;
            }
        }
        let _ = count;
        tally(engine, runs, runs);
    });
    engine.progress(what);
}

/// A character of several bytes at every distance before, in and after the
/// place where a text of some size is wrong.
fn around_errors(engine: &Engine) {
    const HEAD: &str = "scilla_version 0 library L ";
    let mut texts: Vec<Vec<String>> = vec![];
    let far = engine.pick(70, 300);
    for (c, pad, fill) in [
        ("é", 0, "x"),
        ("€", 0, "x"),
        ("€", 60, "x"),
        ("😀", 300, "x"),
        ("€", 60, "\n"),
        ("é", 1100, "\n"),
        ("€", 5000, "x"),
    ] {
        let pad = format!("(*{}*)", " ".repeat(pad));
        for d in 0..=far {
            let f = fill.repeat(d);
            let mut v = vec![];
            for (valid, wrong) in [
                // Too short, too long, a wrong token, an unknown one.
                ("let a = @", ""),
                ("let a = b contract C () (*@*)", "end"),
                ("(*@*)", "in"),
                ("let a = @", "]"),
                ("let a = @", "?"),
                ("let a = (*@*)", "\"y"),
                ("let a = b contract C () field f : (*@*)", "'A = b"),
                ("let a = b contract C (p : (*@*)", "T -> T)"),
                ("", "@ let"),
            ] {
                let wide = if valid.contains("(*") { format!("{c}{f}") } else { format!("\"{c}{f}\"") };
                let (valid, wrong) = (valid.replace('@', &wide), wrong.replace('@', &wide));
                // The same distance from the front, and after the error.
                let turned = if wide.starts_with('"') { format!("\"{f}{c}\"") } else { format!("{f}{c}") };
                v.push(format!("{pad}{HEAD}{valid}{wrong}"));
                v.push(format!("{pad}{HEAD}{wrong} {f}{c}"));
                v.push(format!("{pad}{HEAD}{wrong} \"{f}{c}{f}\""));
                v.push(format!("{pad}{HEAD}{}{wrong}(*{f}*)", valid.replace(&wide, &turned)));
                if valid.ends_with(')') {
                    v.push(format!("{pad}{HEAD}{valid}{wrong}(*{f}{c}*)"));
                }
            }
            texts.push(v);
        }
    }
    engine.parallel(texts.len(), |i| {
        for s in &texts[i] {
            text(engine, s);
        }
        tally(engine, 1, texts[i].len() as u64);
    });
    engine.progress("around errors");
}

pub const ALPHABET: &[&str] = &[
    "\"", "\\", "(", ")", "*", "-", "0", "x", "9", "f", "_", "'", "A", "a", ".", "=", ">", "<", ":", "|", "{", "}", "[", "]", ",",
    ";", "+", "&", "@", " ", "\n", "\t", "\r", "?", "#", "/", "\0", "é", "名", "😀", "\u{300}", "\u{a0}", "\u{2028}", "\u{feff}",
    "²", "ß", "İ", "\u{7f}",
];

pub const WORDS: &[&str] = &[
    "ByStr", "ByStr20", "Map", "let", "end", "0x", "(*", "*)", "\"", "'A", "é", "_", "-", "(", ")", " ", "\n", "a", "1", "=>", "=",
    "<-", ":=", "Emp", "in",
];

/// Contracts that use most of the grammar in little space.
pub fn compact() -> Vec<String> {
    vec![
        "scilla_version 0 import A B as C library L let f : Int32 -> 'A = tfun 'A => fun (x : T) => x type E = | F of T G contract C (a : ByStr20 with contract field b : Map T (Option L.U) end, é : String) with builtin eq a b => field q : (Pair T 'A) = match x with | A (B _) y => Emp T U | _ => {_tag : \"é\\\"\"; n : -5} end transition T (x : T) accept; x <- & a.b; x[y][z] := e; delete x[a]; r <- & BLOCKNUMBER; e = {a : \"z\"}; send e; match x with | A => throw end; y <-& b as ByStr20 with end end procedure P () end".into(),
        "scilla_version 0(*é(**)*)contract C()\n(* x\n *)field s:ByStr1=0x1F transition t()x=\"\n\\\\\"end".into(),
        "scilla_version 0\tcontract C ( a : forall 'A . 'A , b : (Map (ByStr20) (Map T (T))) )".into(),
    ]
}

fn edit(engine: &Engine, what: &str, base: &str, chars: &[&str]) {
    let cuts: Vec<usize> = base.char_indices().map(|(i, _)| i).chain([base.len()]).collect();
    engine.parallel(cuts.len(), |c| {
        let i = cuts[c];
        let (a, b) = base.split_at(i);
        let mut n = 2;
        text(engine, a);
        text(engine, b);
        let mut it = b.chars();
        it.next();
        let rest = it.as_str();
        text(engine, &format!("{a}{rest}"));
        for x in chars {
            text(engine, &format!("{a}{x}{b}"));
            text(engine, &format!("{a}{x}{rest}"));
            text(engine, &format!("{a}{x}"));
            n += 3;
            if engine.stopped() {
                return;
            }
        }
        tally(engine, n, n);
    });
    engine.progress(what);
}

/// Everything between two places removed.
fn segments(engine: &Engine, base: &str) {
    let cuts: Vec<usize> = base.char_indices().map(|(i, _)| i).chain([base.len()]).collect();
    engine.parallel(cuts.len(), |i| {
        let mut n = 0;
        for j in i..cuts.len() {
            n += 1;
            text(engine, &format!("{}{}", &base[..cuts[i]], &base[cuts[j]..]));
        }
        tally(engine, n, n);
    });
}

/// One lexeme of every size, alone and in its place.
fn long(engine: &Engine) {
    let kinds: &[(&str, &str, &str)] = &[
        ("a", "b", ""),
        ("A", "é", ""),
        ("_", "_", ""),
        ("'A", "9", ""),
        ("", "9", ""),
        ("-", "0", ""),
        ("0x", "f", ""),
        ("ByStr", "1", ""),
        ("ByStr", "0", "20"),
        ("\"", "x", "\""),
        ("\"", "\\\"", "\""),
        ("\"", "\\", ""),
        ("\"", "\n", "\""),
        ("\"", "é", "\""),
        ("\"", "x", ""),
        ("(*", "*", ")"),
        ("(*", "(", "*)"),
        ("(*", "(*", "*)"),
        ("(*", "é\n", "*)"),
        ("(*", "x", ""),
        ("", " ", ""),
        ("", "\n", ""),
        ("", "\r\n", ""),
        ("", "\u{a0}", ""),
        ("", "(* *)", ""),
        ("", "?", ""),
        ("", "é", ""),
        ("", "(", ""),
        ("", "-", ""),
        ("", "=", ""),
        ("", "\"", ""),
    ];
    let mut sizes: Vec<usize> = (0..engine.pick(40, 140)).collect();
    for s in [64usize, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 32_768, 65_535, 65_536, 70_000] {
        sizes.push(s);
    }
    engine.parallel(kinds.len() * sizes.len(), |i| {
        let (a, x, b) = kinds[i % kinds.len()];
        let size = sizes[i / kinds.len()];
        // Every ? is a token of its own.
        let word = x.chars().all(|c| c.is_ascii_alphanumeric());
        if !word && a.is_empty() && b.is_empty() && x != "(* *)" && x.trim() != "" && size > 5000 {
            return;
        }
        let s = format!("{a}{}{b}", x.repeat(size));
        text(engine, &s);
        text(engine, &format!("scilla_version {s} contract C (a : {s})"));
        text(engine, &format!("scilla_version 0 contract C (a : {s} {s}) field a : T = {s} end {s}"));
        tally(engine, 3, 3);
    });
    engine.progress("long lexemes");
}

/// Parser and converter on a construct nested `m` times.
fn nested(n: &Nest, m: usize) {
    let ks = n.kinds(m);
    let toks: Vec<(K, &'static str)> = ks.iter().map(|k| (*k, terms::canon(*k).s)).collect();
    tokens(&toks);
}

fn nest_case(n: &Nest, m: usize, stack: usize) -> String {
    let l: Vec<String> = [&n.pre, &n.left, &n.mid, &n.right, &n.post].iter().map(|k| encode(k)).collect();
    format!("n:{stack}|{m}|{}", l.join("|"))
}

fn nest_of(case: &str) -> Option<(usize, usize, Nest)> {
    let f: Vec<&str> = case.strip_prefix("n:")?.split('|').collect();
    let [stack, m, pre, left, mid, right, post] = f[..] else {
        return None;
    };
    Some((
        stack.parse().ok()?,
        m.parse().ok()?,
        Nest {
            name: String::new(),
            pre: decode(pre),
            left: decode(left),
            mid: decode(mid),
            right: decode(right),
            post: decode(post),
        },
    ))
}

fn on_stack(size: usize, f: impl FnOnce() + Send) {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(size).spawn_scoped(s, f).expect("thread");
        if let Err(p) = h.join() {
            std::panic::resume_unwind(p);
        }
    });
}

/// Texts nested far beyond what anyone writes.
fn abyss() -> Vec<(&'static str, fn(usize) -> String)> {
    vec![
        ("types in parentheses", |n| {
            format!("scilla_version 0 contract C (a : {}T{})", "(".repeat(n), ")".repeat(n))
        }),
        ("types as arguments of List", |n| {
            format!("scilla_version 0 contract C (a : {}T{})", "List (".repeat(n), ")".repeat(n))
        }),
        ("let expressions", |n| {
            format!("scilla_version 0 library L let v = {} x contract C ()", "let a = b in ".repeat(n))
        }),
        ("function expressions", |n| {
            format!("scilla_version 0 library L let v = {} x contract C ()", "fun (a : T) =>".repeat(n))
        }),
        ("match statements", |n| {
            format!("scilla_version 0 contract C () transition t () {} {} end", "match x with | _ => ".repeat(n), "end ".repeat(n))
        }),
        ("patterns", |n| {
            format!("scilla_version 0 contract C () transition t () match x with | {} y {} => end end", "A (".repeat(n), ")".repeat(n))
        }),
        ("address types", |n| {
            format!("scilla_version 0 contract C (a : {} T {})", "ByStr20 with contract field f :".repeat(n), "end ".repeat(n))
        }),
    ]
}

const WRAPS: &[(&str, &str)] = &[
    ("Option (", ")"),
    ("List (", ")"),
    ("Map ByStr20 (", ")"),
    ("Pair Bool (", ")"),
    ("Pair (", ") Bool"),
    ("ByStr20 with contract field f : ", " end"),
    ("Option (ByStr20 with contract field f : Bool, field g : ", " end)"),
    ("T (", ")"),
    ("(", ")"),
    ("Bool -> ", ""),
    ("forall 'A. (", ")"),
];

/// A type of m levels, in a parameter, a field and a transition.
fn wrapped(m: usize, a: usize, b: usize) {
    let (mut l, mut r) = (String::new(), String::new());
    let mut ends = vec![];
    for i in 0..m {
        let w = WRAPS[if i % 2 == 0 { a } else { b }];
        l.push_str(w.0);
        ends.push(w.1);
    }
    ends.iter().rev().for_each(|e| r.push_str(e));
    for text in [
        format!("scilla_version 0 contract C (a : {l}Int32{r})"),
        format!("scilla_version 0 contract C () field a : {l}Int32{r} = v"),
        format!("scilla_version 0 contract C () transition t (a : {l}Int32{r}) end"),
    ] {
        stepped(m);
        use_up(fast(&text).map_err(Error::ParseError));
    }
}

fn parse_deep(s: &str) {
    // The tokens come from the reference tokenizer, as tokenizing words is slow.
    match fast(s) {
        Ok(c) => drop(c),
        Err(e) => drop(e),
    }
}

const ABYSS: usize = 400_000;

pub fn run(engine: &Engine) {
    let g = Grammar::scilla();
    let q = engine.quick();

    // Texts.
    strings(engine, "strings of characters", ALPHABET, engine.pick(3, 4), ("", ""));
    strings(engine, "strings of words", WORDS, engine.pick(3, 4), ("", ""));
    strings(engine, "strings in a type", ALPHABET, 2, ("scilla_version 0 contract C (a : ", ")"));
    strings(engine, "strings in an expression", ALPHABET, 2, ("scilla_version 0 contract C () field a : T = ", ""));
    strings(engine, "words after a contract", WORDS, engine.pick(2, 3), ("scilla_version 0 contract C ()", ""));
    let few: &[&str] = &["\"", "(", "*", "-", "é", "0", "'", "\0", ")", "_"];
    for (i, c) in compact().iter().enumerate() {
        if engine.violated() {
            return;
        }
        let chars = match (q, i) {
            (true, 0) => &few[..5],
            (true, _) => few,
            _ => ALPHABET,
        };
        edit(engine, &format!("edits of contract {i}"), c, chars);
    }
    for c in &compact()[1..] {
        segments(engine, c);
    }
    if !q {
        segments(engine, &compact()[0]);
    }
    engine.progress("segments removed");
    long(engine);
    around_errors(engine);
    if engine.violated() {
        return;
    }

    // Characters of every plane and class, at every kind of place.
    let step = engine.pick(97, 1);
    let points: Vec<u32> = (0..0x3000u32).chain((0x3000..0x110000).step_by(step)).collect();
    engine.parallel(points.len().div_ceil(256), |b| {
        let mut n = 0;
        for p in points.iter().skip(b * 256).take(256) {
            let Some(c) = char::from_u32(*p) else { continue };
            for s in [format!("{c}"), format!("a{c}b"), format!("{c}("), format!("\"{c}"), format!("(*{c}"), format!("0x{c}{c}")] {
                n += 1;
                text(engine, &s);
            }
        }
        tally(engine, n, n);
    });
    engine.progress("characters");
    if engine.violated() {
        return;
    }

    // Token sequences: every construct on prefixes and their wrong ends.
    let mut depths = vec![];
    for (name, _) in TABLE {
        let mut seen = Default::default();
        let mut level = grammar::first_level(g, g.id(name));
        let budget = engine.pick(300, 4000) * if *name == "Program" { 10 } else { 1 };
        let mut total = 0;
        while !level.prefixes.is_empty() && level.depth < 60 {
            let l: Vec<&Kinds> = level.prefixes.iter().map(|p| &p.0).collect();
            total += l.len();
            engine.parallel(l.len(), |i| {
                let mut n = 0;
                let mut v = l[i].clone();
                constructs(engine, &v, Some(name));
                for k in 0..NTERMS as K {
                    v.push(k);
                    constructs(engine, &v, Some(name));
                    v.pop();
                    n += 2;
                }
                tally(engine, 1, n + 2);
            });
            let next = grammar::next_level(g, &level, 1, 1, &mut seen);
            if total + next.prefixes.len() > budget {
                break;
            }
            level = next;
        }
        depths.push(format!("{name}:{}", level.depth));
        if engine.violated() {
            return;
        }
    }
    engine.note("depths", depths.join(" "));
    engine.progress("token sequences");

    // Any two (three) tokens at all, for every construct.
    engine.parallel(NTERMS * NTERMS, |i| {
        let v = [(i / NTERMS) as K, (i % NTERMS) as K];
        constructs(engine, &v, None);
        let mut n = 2 * TABLE.len() as u64;
        if !q {
            for k in 0..NTERMS as K {
                constructs(engine, &[v[0], v[1], k], None);
            }
            n *= NTERMS as u64 + 1;
        }
        tally(engine, n, n);
    });
    engine.progress("pairs of tokens");

    // Whole programs with spellings that need care, parsed and converted.
    let mut programs: Vec<Kinds> = g.covering(g.id("Program"), engine.pick(4, 5));
    programs.extend(g.repeats(g.id("Program"), 2));
    let (l, depth) = sentences("Program", 3, 1, engine.pick(60_000, 1_000_000));
    programs.extend(l);
    engine.note("program_depth", depth);
    let turns = engine.pick(7, 31);
    engine.parallel(programs.len().div_ceil(16), |b| {
        let mut n = 0;
        for ks in programs.iter().skip(b * 16).take(16) {
            for i in 0..turns {
                n += 1;
                spelled(engine, &terms::dress(ks, i));
            }
            if engine.stopped() {
                return;
            }
        }
        tally(engine, 16, n);
    });
    engine.progress("programs");

    // Annotations with every name, in every position, with too few and too
    // many arguments.
    let (ann, depth) = sentences("ScillaType", 4, 1, engine.pick(6_000, 60_000));
    engine.note("annotation_depth", depth);
    engine.parallel(ann.len(), |b| {
        let ks = &ann[b];
        let slots: Vec<usize> = (0..ks.len()).filter(|i| !terms::nasty(ks[*i]).is_empty()).collect();
        let mut n = 0;
        // All spellings of each slot, the others following along.
        for s in &slots {
            for (j, w) in terms::nasty(ks[*s]).iter().enumerate() {
                let mut t = terms::dress(ks, j);
                t[*s].1 = w;
                let words: Vec<&str> = t.iter().map(|x| x.1).collect();
                let t = words.join(" ");
                for text in [
                    format!("scilla_version 0 contract C ( a : {t} )"),
                    format!("scilla_version 0 contract C ( ) field a : {t} = x transition t ( a : {t} ) end procedure p ( a : {t} ) end"),
                ] {
                    n += 1;
                    judge(engine, &text, false, Want::Any);
                }
            }
        }
        tally(engine, slots.len() as u64, n);
    });
    engine.progress("annotations");

    // Type values a program can build for itself print and compare.
    let values: Vec<Ty> = scilla::types(2);
    engine.parallel(values.len(), |i| {
        let t: Type = to_type(&values[i]);
        engine.case(&format!("y:{i}"), || {
            assert!(!format!("{t} {t:?}").is_empty());
            assert!(t.clone() == t);
        });
        tally(engine, 1, 1);
    });

    // Nesting, on the stack a program starts with.
    let nests = g.nests(g.id("Program"), engine.pick(7, 9));
    let depths = [1, 2, 3, 10, engine.pick(400, 1000)];
    engine.parallel_on(STACK, nests.len() * depths.len(), |i| {
        let m = depths[i / nests.len()];
        let n = &nests[i % nests.len()];
        engine.case(&nest_case(n, m, STACK), || nested(n, m));
        tally(engine, 1, 1);
    });
    engine.note("nestings", nests.len());
    // Types that the converter looks into, every two of them in turn.
    let n = WRAPS.len();
    engine.parallel_on(STACK, n * n * depths.len(), |i| {
        let (a, b, m) = (i % n, i / n % n, depths[i / n / n]);
        engine.case(&format!("b:{m}:{a}:{b}"), || wrapped(m, a, b));
        tally(engine, 1, 1);
    });
    engine.progress("nesting");

    // Nesting beyond that.
    let known = engine::known_findings(&engine.verif, &engine.property);
    let deep = abyss();
    engine.parallel(deep.len(), |i| {
        let what = deep[i].0;
        let case = format!("a:{ABYSS}:{what}");
        if let Some(how) = engine::isolated(engine, &case, Duration::from_secs(300)) {
            let line = format!("{ABYSS} nested {what} overflow the stack");
            if known.contains(&line) && how.contains("dies") {
                engine.known_finding(line);
            } else {
                engine.violation(case, how);
            }
        }
        tally(engine, 1, 1);
    });
    engine.sample(&compact()[0]);
}

pub fn replay(engine: &Engine, case: &str) {
    if let Some(s) = case.strip_prefix("t:") {
        text(engine, s);
    } else if let Some(r) = case.strip_prefix("k:") {
        let Some((ks, ss)) = r.split_once('\u{1}') else { return };
        let toks: Vec<(K, &'static str)> = decode(ks)
            .into_iter()
            .zip(ss.split('\u{2}'))
            .map(|(k, s)| (k, &*Box::leak(s.to_string().into_boxed_str())))
            .collect();
        tokens(&toks);
    } else if let Some(r) = case.strip_prefix("p:") {
        let Some((name, ks)) = r.split_once(':') else { return };
        let ks = decode(ks);
        let (_, run) = TABLE.iter().find(|t| t.0 == name).expect("construct");
        run(&ks, None);
    } else if let Some(r) = case.strip_prefix("a:") {
        let (n, what) = r.split_once(':').expect("depth");
        let (_, f) = abyss().into_iter().find(|a| a.0 == what).expect("text");
        let s = f(n.parse().expect("depth"));
        on_stack(STACK, || parse_deep(&s));
    } else if let Some(r) = case.strip_prefix("b:") {
        let l: Vec<usize> = r.split(':').filter_map(|n| n.parse().ok()).collect();
        if let [m, a, b] = l[..] {
            on_stack(STACK, || wrapped(m, a, b));
        }
    } else if let Some(i) = case.strip_prefix("y:") {
        let t = to_type(&scilla::types(2)[i.parse::<usize>().unwrap()]);
        assert!(!format!("{t} {t:?}").is_empty() && t.clone() == t);
    } else if let Some((stack, m, n)) = nest_of(case) {
        on_stack(stack, || nested(&n, m));
    } else {
        replay_judge(engine, case);
    }
}
