//! C09: what every type annotation denotes, in every position, and C12: what
//! a type prints as.

use super::common::*;
use mc::engine::Engine;
use mc::grammar::Kinds;
use mc::reflex;
use mc::scilla::{self, denotes, Chooser, Denotes, Ty};
use mc::terms::{self, K};
use std::collections::HashMap;
use scilla_parser::{Contract, Field, FieldList, Transition, TransitionList, Type};

pub const PLACES: usize = 7;

/// A contract with annotation `s` in place `place`, and its interface.
pub fn placed(s: &str, t: &Type, place: usize) -> (String, Contract) {
    let mut c = Contract {
        name: "C".into(),
        ..Contract::default()
    };
    let f = |n: &str, t: &Type| Field::new(n, t.clone());
    let tr = |n: &str, l: Vec<Field>| TransitionList(vec![Transition::new(n, FieldList(l))]);
    let text = match place {
        0 => {
            c.init_params = FieldList(vec![f("p", t)]);
            format!("contract C (p : {s})")
        }
        1 => {
            c.init_params = FieldList(vec![f("p", &Type::BNum), f("q", t), f("r", &Type::Bool)]);
            format!("contract C (p : BNum, q : {s}, r : Bool)")
        }
        2 => {
            c.fields = FieldList(vec![f("f", t)]);
            format!("contract C () field f : {s} = v")
        }
        3 => {
            c.fields = FieldList(vec![f("f", &Type::BNum), f("g", t), f("h", &Type::Bool)]);
            format!("contract C () field f : BNum = v field g : {s} = v field h : Bool = v")
        }
        4 => {
            c.transitions = tr("t", vec![f("p", t)]);
            format!("contract C () transition t (p : {s}) end")
        }
        5 => {
            c.transitions = tr("t", vec![f("p", &Type::BNum), f("q", t), f("r", &Type::Bool)]);
            format!("contract C () transition t (p : BNum, q : {s}, r : Bool) end")
        }
        _ => {
            c.init_params = FieldList(vec![f("p", t)]);
            c.fields = FieldList(vec![f("f", t)]);
            c.transitions = tr("t", vec![f("p", t), f("q", t)]);
            format!("contract C (p : {s}) field f : {s} = v procedure t (p : {s}) end transition t (p : {s}, q : {s}) end")
        }
    };
    (format!("scilla_version 0 {text}"), c)
}

/// All spellings, or the plain and the most parenthesised ones.
fn spellings(t: &Ty, max: usize) -> Vec<String> {
    let mut out = vec![];
    let mut c = Chooser::default();
    loop {
        out.push(t.write(&mut c));
        if !c.advance() {
            break;
        }
        if out.len() >= max {
            // The last one chosen everywhere.
            let mut c = Chooser::all_last();
            out.push(t.write(&mut c));
            break;
        }
    }
    out
}

fn written(engine: &Engine, what: &str, types: &[Ty], places: &[usize], max: usize, use_slow: bool) {
    engine.parallel(types.len().div_ceil(64), |b| {
        let mut runs = 0;
        for t in types.iter().skip(b * 64).take(64) {
            let ty = to_type(t);
            for s in spellings(t, max) {
                for p in places {
                    let (text, c) = placed(&s, &ty, *p);
                    runs += 1;
                    judge(engine, &text, use_slow, Want::Is(&c));
                }
                if engine.stopped() {
                    return;
                }
            }
        }
        tally(engine, types.len().min(64) as u64, runs);
    });
    engine.progress(what);
}

const NAMES: &[&str] = &[
    "Int32", "Option", "Pair", "T", "List", "Uint256", "String", "Bool", "BNum", "Message", "Map_", "Optional",
];

/// Where the type names of a sentence are, and distinct spellings.
fn names(ks: &[K]) -> (Vec<usize>, Vec<&'static str>) {
    let at = (0..ks.len()).filter(|i| ks[*i] == terms::CID).collect();
    let base = ks
        .iter()
        .enumerate()
        .map(|(i, k)| match *k {
            terms::BYSTRN => "ByStr20",
            _ => terms::unique(*k, i).s,
        })
        .collect();
    (at, base)
}

/// Spellings for the type names of a sentence: all combinations of the first
/// few names, and around the assignment that respects the number of arguments,
/// every change of one name.
fn assignments(ks: &[K], full: usize) -> Vec<Vec<&'static str>> {
    let (at, base) = names(ks);
    let mut out = vec![];
    let mut n = 6;
    while n > 2 && n_pow(n, at.len()) > full {
        n -= 1;
    }
    if n_pow(n, at.len()) <= full {
        for mut x in 0..n_pow(n, at.len()) {
            let mut v = base.clone();
            for i in &at {
                v[*i] = NAMES[x % n];
                x /= n;
            }
            out.push(v);
        }
    }
    let good = respecting(&base, &at);
    for i in &at {
        for n in NAMES {
            let mut v = good.clone();
            v[*i] = n;
            out.push(v);
        }
    }
    for (i, k) in ks.iter().enumerate() {
        if *k == terms::BYSTRN {
            for n in ["ByStr1", "ByStr2020", "ByStr0020", "ByStr0"] {
                let mut v = good.clone();
                v[i] = n;
                out.push(v);
            }
        }
    }
    out.push(good);
    out.sort();
    out.dedup();
    out
}

/// Type names that respect the number of arguments.
fn respecting(base: &[&'static str], at: &[usize]) -> Vec<&'static str> {
    let joined = base.join(" ");
    let lex = reflex::tokenize(&joined);
    let apps: HashMap<String, usize> = scilla::applications(&joined, &lex).into_iter().rev().collect();
    let mut good = base.to_vec();
    for (j, i) in at.iter().enumerate() {
        let n = apps.get(base[*i]).copied();
        good[*i] = match n {
            Some(0) => ["Int32", "T", "String"][j % 3],
            Some(1) => ["Option", "List"][j % 2],
            Some(2) => "Pair",
            _ => "T",
        };
    }
    good
}

fn n_pow(n: usize, m: usize) -> usize {
    n.checked_pow(m as u32).unwrap_or(usize::MAX)
}

fn annotation(engine: &Engine, s: &str, places: &[usize], use_slow: bool) -> u64 {
    let toks = reflex::tokenize(s);
    let Some(d) = denotes(s, &toks) else {
        // Every sentence of the grammar is an annotation; the model's own
        // tests check that.
        return 0;
    };
    for p in places {
        match &d {
            Denotes::Ty(t) => {
                let (text, c) = placed(s, &to_type(t), *p);
                judge(engine, &text, use_slow, Want::Is(&c));
            }
            Denotes::Nothing => {
                let (text, _) = placed(s, &Type::Bool, *p);
                judge(engine, &text, use_slow, Want::Fails);
            }
            Denotes::Unspecified => {
                let (text, _) = placed(s, &Type::Bool, *p);
                judge(engine, &text, use_slow, Want::Any);
            }
        }
    }
    places.len() as u64
}

fn all(engine: &Engine, what: &str, list: &[Kinds], full: usize, places: &[usize], use_slow: bool) {
    engine.parallel(list.len().div_ceil(16), |b| {
        let mut runs = 0;
        for ks in list.iter().skip(b * 16).take(16) {
            for v in assignments(ks, full) {
                runs += annotation(engine, &v.join(" "), places, use_slow);
                if engine.stopped() {
                    return;
                }
            }
        }
        tally(engine, 16.min(list.len()) as u64, runs);
    });
    engine.progress(what);
}

/// Annotations with names of about n characters: $C type names, $I
/// identifiers, $S special ones, $B byte strings, $H addresses, $Z byte
/// strings with zeros in front.
const LONG: &[&str] = &[
    "$C",
    "$B",
    "$Z",
    "$C.$C",
    "$H.$C",
    "Option $C",
    "Option ($C.$C)",
    "List $B",
    "Pair $C ($H.$C)",
    "Pair $Z $B",
    "Map $C $C",
    "Map $B $Z",
    "Map $C.$C (List $C.$C)",
    "Map $H.$C Bool",
    "Option (Map $C (Option $C))",
    "ByStr20 with contract field $I : $C end",
    "ByStr20 with contract field $C.$I : $B, field $S : $C.$C end",
    "Option ByStr20 with contract field $B.$I : Map $C ByStr20 with contract field $I : $Z end end",
    "ByStr20 with $S end",
    "$C ($C)",
    "$C.$C $C",
];

/// Names for namespaces and types: those around the annotation, and built in.
const OWN: &[&str] = &["C", "T", "T2", "Option", "Pair", "Int32", "ByStr20", "ByStr7", "Event", "Uint128", "String"];

const QUALIFIED: &[&str] = &[
    "$A.$B",
    "($A.$B)",
    "Option $A.$B",
    "Option ($A.$B)",
    "Map $A.$B $B.$A",
    "Map ByStr20 (List ($A.$B))",
    "Pair ($A.$B) $A.$A",
    "ByStr20 with contract field $A.x : $A.$B, field x : $B.$B end",
    "$A.$B T",
    "$A.$B with contract end",
];

/// Types that are named by one word.
const NAMED: &[&str] = &["$", "$ Int32", "$ (Option T) ByStr20", "List $", "Map $ $", "Pair ($) ($ T)", "$ -> $", "forall 'A. $ 'A", "$ with end"];

fn long(shape: &str, n: usize, v: usize) -> String {
    let mut o = String::new();
    let mut parts = shape.split('$');
    o.push_str(parts.next().unwrap_or(""));
    for (j, p) in parts.enumerate() {
        let w = |k: K| terms::sized(k, n, v + j);
        let zeros = format!("ByStr{}{}", "0".repeat(n), [20, 20, 7, 0, 21][(v + j) % 5]);
        o.push_str(match &p[..1] {
            "C" => w(terms::CID),
            "I" => w(terms::ID),
            "S" => w(terms::SPID),
            "B" => w(terms::BYSTRN),
            "H" => w(terms::HEX),
            _ => &zeros,
        });
        o.push_str(&p[1..]);
    }
    o
}

/// Types that behave differently, for pairs.
fn kinds_of_types() -> Vec<Ty> {
    let mut v = scilla::leaves();
    v.extend(scilla::types(1).into_iter().step_by(2));
    v
}

pub fn run(engine: &Engine) {
    let every: Vec<usize> = (0..PLACES).collect();
    // Leaves in every context one constructor deep.
    let mut small = scilla::leaves();
    small.extend(scilla::grow(&scilla::leaves(), &scilla::leaves()[10..24], &[Ty::Prim("Int32")]));
    for k in scilla::leaves() {
        small.push(Ty::Map(Box::new(k), Box::new(Ty::Prim("Bool"))));
    }
    small.extend(scilla::types(1));
    written(engine, "leaves and depth 1", &small, &every, usize::MAX, false);
    written(engine, "depth 2", &scilla::types(2), &[0, 3, 5], engine.pick(96, usize::MAX), false);
    let d3 = scilla::types(3);
    written(engine, "depth 3", &d3, &[6], engine.pick(1, 24), false);

    // Every pair of types in every pair of places: what one conversion leaves
    // behind for the next.
    let ts: Vec<Spelled> = kinds_of_types().iter().map(plain).collect();
    engine.parallel(ts.len(), |i| {
        let mut runs = 0;
        for b in &ts {
            let a = &ts[i];
            let d = Doc {
                params: vec![("p", a), ("q", b), ("r", a)],
                fields: vec![("f", b), ("g", a)],
                comps: vec![
                    Comp {
                        procedure: false,
                        name: "t",
                        params: vec![("x", b), ("y", a), ("z", b)],
                    },
                    Comp {
                        procedure: true,
                        name: "u",
                        params: vec![("x", a)],
                    },
                    Comp {
                        procedure: false,
                        name: "w",
                        params: vec![("x", a), ("y", b)],
                    },
                ],
                ..Doc::default()
            };
            runs += 1;
            judge(engine, &d.text(), false, Want::Is(&d.contract()));
        }
        tally(engine, runs, runs);
    });
    engine.progress("pairs of types");

    // Every annotation the grammar allows.
    let (list, depth) = sentences("ScillaType", 3, 1, engine.pick(40_000, 400_000));
    engine.note("annotation_search_depth", depth);
    all(engine, "annotations", &list, engine.pick(64, 729), &[0, 5], false);
    all(engine, "annotations as fields", &list[..list.len() / 4], 64, &[2], false);
    let deep = mc::grammar::Grammar::scilla();
    let list = deep.covering(deep.id("ScillaType"), engine.pick(4, 6));
    all(engine, "annotations by productions", &list, engine.pick(64, 216), &[3, 4], false);

    // Names of every length.
    let lengths = terms::lengths(engine.pick(136, 520));
    engine.note("lengths of names", lengths.len());
    engine.parallel(lengths.len(), |i| {
        let mut runs = 0;
        for (j, shape) in LONG.iter().enumerate() {
            for v in 0..engine.pick(6, 15) {
                let s = long(shape, lengths[i], v);
                runs += annotation(engine, &s, &[(i + j + v) % PLACES, 6], v == 0 && lengths[i] < 5000);
            }
        }
        tally(engine, LONG.len() as u64, runs);
    });
    engine.progress("names of every length");

    // Every namespace with every name.
    engine.parallel(OWN.len() * OWN.len(), |i| {
        let (a, b) = (OWN[i % OWN.len()], OWN[i / OWN.len()]);
        let mut runs = 0;
        for shape in QUALIFIED {
            runs += annotation(engine, &shape.replace("$A", a).replace("$B", b), &every, true);
        }
        tally(engine, runs, runs);
    });
    let words = terms::vocabulary(terms::CID);
    engine.parallel(words.len(), |i| {
        let mut runs = 0;
        for shape in QUALIFIED {
            for (a, b) in [(words[i], "T"), ("C", words[i]), (words[i], words[(i + 1) % words.len()])] {
                runs += annotation(engine, &shape.replace("$A", a).replace("$B", b), &every, true);
            }
        }
        for shape in NAMED {
            runs += annotation(engine, &shape.replace('$', words[i]), &every, true);
        }
        tally(engine, runs, runs);
    });
    for word in terms::vocabulary(terms::ID) {
        let runs = annotation(engine, &format!("ByStr20 with contract field {word} : Bool, field a : Int32, field {word} : T end"), &every, true);
        tally(engine, runs, runs);
    }
    engine.progress("namespaces");

    // Deep and wide annotations.
    let towers = scilla::towers(
        engine.pick(&[4, 5, 9, 40, 130, 260], &[4, 5, 6, 7, 8, 9, 17, 33, 40, 65, 70, 127, 128, 129, 130, 200, 255, 256, 257, 260, 513]),
        engine.pick(&[9, 40, 130, 260, 1030], &[5, 9, 17, 33, 65, 127, 128, 129, 255, 256, 257, 1030, 4100]),
    );
    written(engine, "towers", &towers, engine.pick(&[0, 5], &every), 1, false);
    let list = deep.large(
        deep.id("ScillaType"),
        engine.pick(3, 4),
        engine.pick(&[9, 130, 260], &[9, 40, 70, 130, 260, 520]),
        engine.pick(&[9, 130, 260, 1030], &[9, 40, 70, 130, 260, 520, 1030, 2000]),
    );
    let named = list.iter().map(|ks| ks.iter().map(|k| if *k == terms::BYSTRN { terms::CID } else { *k }).collect());
    let list: Vec<Kinds> = list.iter().cloned().chain(named).collect();
    engine.parallel(list.len(), |i| {
        let (at, base) = names(&list[i]);
        let mut runs = 0;
        for v in [respecting(&base, &at), base] {
            runs += annotation(engine, &v.join(" "), &[0, 3], false);
        }
        tally(engine, 1, runs);
    });
    engine.progress("large annotations");

    // The public entry point.
    written(engine, "public entry point", &scilla::leaves(), &every[..], 4, true);
    let d1 = scilla::types(1);
    written(engine, "public entry point, depth 1", &d1, &[1, 6], engine.pick(4, 64), true);
    let list = deep.covering(deep.id("ScillaType"), engine.pick(2, 3));
    all(engine, "public entry point, annotations", &list, 1, &[3], true);
    for t in d3.iter().step_by(40_000) {
        engine.sample(t.write(&mut Chooser::default()));
    }
}

pub fn replay(engine: &Engine, case: &str) {
    replay_judge(engine, case);
}

// ---------------------------------------------------------------- C12

/// Contexts a type that stands for an argument may appear in; `{}` is the
/// printed type.
const AROUND: &[&str] = &[
    "{}",
    "({})",
    "Option ({})",
    "List ({})",
    "Pair ({}) ({})",
    "Map ByStr20 ({})",
    "Option (Map T ({}))",
    "Map T (Pair ({}) Bool)",
    "ByStr20 with contract field x : {}, field y : ({}) end",
    "T2 ({})",
];

fn around(i: usize, t: &Type) -> Type {
    let b = || Box::new(t.clone());
    let other = |s: &str| Box::new(Type::Other(s.into()));
    match i {
        0 | 1 => t.clone(),
        2 => Type::Option(b()),
        3 => Type::List(b()),
        4 => Type::Pair(b(), b()),
        5 => Type::Map(Box::new(Type::ByStr20), b()),
        6 => Type::Option(Box::new(Type::Map(other("T"), b()))),
        7 => Type::Map(other("T"), Box::new(Type::Pair(b(), Box::new(Type::Bool)))),
        8 => Type::ByStr20With {
            type_name: "contract".into(),
            fields: FieldList(vec![Field::new("x", t.clone()), Field::new("y", t.clone())]),
        },
        _ => Type::Other("T2".into()),
    }
}

fn printed(engine: &Engine, what: &str, types: &[Ty], contexts: &[usize], places: &[usize], use_slow: bool) {
    engine.parallel(types.len().div_ceil(64), |b| {
        let mut runs = 0;
        for t in types.iter().skip(b * 64).take(64) {
            let ty = to_type(t);
            let Some(s) = engine.case(&format!("p:{}", t.write(&mut Chooser::default())), || ty.to_string()) else {
                return;
            };
            for c in contexts {
                let text = AROUND[*c].replace("{}", &s);
                let want = around(*c, &ty);
                for p in places {
                    let (text, c) = placed(&text, &want, *p);
                    runs += 1;
                    judge(engine, &text, use_slow, Want::Is(&c));
                }
            }
            // As a key, where the language has such keys.
            if matches!(t, Ty::Prim(_) | Ty::ByStrN(_) | Ty::Other(_) | Ty::Addr(..)) {
                for key in ["Map {} Bool", "Map ({}) Bool"] {
                    let want = Type::Map(Box::new(ty.clone()), Box::new(Type::Bool));
                    let (text, c) = placed(&key.replace("{}", &s), &want, places[0]);
                    runs += 1;
                    judge(engine, &text, use_slow, Want::Is(&c));
                }
            }
            if engine.stopped() {
                return;
            }
        }
        tally(engine, types.len().min(64) as u64, runs);
    });
    engine.progress(what);
}

/// What is reported for an annotation must print as an annotation that reports
/// the same.
fn again(s: &str) -> Result<(), String> {
    let report = |s: &str| fast(&placed(s, &Type::Bool, 2).0).map(|c| c.fields.0.into_iter().map(|f| f.r#type).collect::<Vec<_>>());
    let Ok(got) = report(s) else { return Ok(()) };
    let Some(t) = got.first() else { return Ok(()) };
    let p = t.to_string();
    match report(&p) {
        Ok(l) if l.first() == Some(t) => Ok(()),
        r => Err(format!("`{s}` is reported as {t:?}, which prints as `{p}`, which is reported as {r:?}")),
    }
}

/// Every annotation that denotes a type.
fn reported(engine: &Engine, what: &str, list: &[String]) {
    engine.parallel(list.len().div_ceil(64), |b| {
        let mut n = 0;
        for s in list.iter().skip(b * 64).take(64) {
            if let Some(Denotes::Ty(_)) = denotes(s, &reflex::tokenize(s)) {
                n += 1;
                engine.check(&format!("a:{s}"), || again(s));
            }
        }
        tally(engine, n, 2 * n);
    });
    engine.progress(what);
}

pub fn run12(engine: &Engine) {
    let every: Vec<usize> = (0..PLACES).collect();
    let contexts: Vec<usize> = (0..AROUND.len()).collect();
    let mut small = scilla::leaves();
    small.extend(scilla::types(1));
    small.extend(scilla::grow(&scilla::leaves(), &scilla::leaves()[10..24], &[Ty::Prim("Int32")]));
    for n in (0..200).chain([usize::MAX, 1 << 32, 1 << 31, 65535, 65536]) {
        small.push(Ty::ByStrN(n));
    }
    // Addresses of every kind with no, one, two and three fields, with every
    // kind of field name.
    let names = ["f", "_this", "Lib.x", "ByStr20.x", "Event.x", "with_", "fieldx"];
    for k in ["contract"] {
        for a in names {
            for b in names {
                for c in ["z", "z1"] {
                    let f = |n: &str, t: Ty| (n.to_string(), t);
                    let inner = Ty::Addr(k.into(), vec![f(b, Ty::Prim("Bool")), f(c, Ty::Addr("".into(), vec![]))]);
                    small.push(Ty::Addr(k.into(), vec![f(a, inner.clone()), f(b, Ty::Option(Box::new(inner))), f(c, Ty::ByStrN(7))]));
                }
            }
        }
    }
    printed(engine, "leaves and depth 1", &small, &contexts, &every, false);
    let d2 = scilla::types(2);
    printed(engine, "depth 2", &d2, &contexts, &[0, 2, 5], false);
    let d3 = scilla::types(3);
    printed(engine, "depth 3", &d3, &[0, engine.pick(1, 2), engine.pick(5, 7)], &engine.pick(vec![6], vec![0, 2, 5]), false);
    let towers = scilla::towers(
        engine.pick(&[4, 5, 9, 40, 130, 260], &[4, 5, 6, 7, 8, 9, 17, 33, 40, 65, 70, 127, 128, 129, 130, 200, 255, 256, 257, 260, 513]),
        engine.pick(&[9, 40, 130, 260, 1030], &[5, 9, 17, 33, 65, 127, 128, 129, 255, 256, 257, 1030, 4100]),
    );
    printed(engine, "towers", &towers, &[0, 2, 8], engine.pick(&[6], &every), false);
    // What is reported, whatever it is, prints as itself.
    let (list, _) = sentences("ScillaType", 3, 1, engine.pick(10_000, 200_000));
    let g = mc::grammar::Grammar::scilla();
    let more = g.covering(g.id("ScillaType"), engine.pick(3, 5));
    let spelled: Vec<String> = list.iter().chain(&more).flat_map(|ks| assignments(ks, engine.pick(16, 216))).map(|v| v.join(" ")).collect();
    reported(engine, "reported types", &spelled);
    let mut spelled = vec![];
    for n in terms::lengths(engine.pick(136, 520)) {
        for shape in LONG {
            for v in 0..engine.pick(4, 15) {
                spelled.push(long(shape, n, v));
            }
        }
    }
    reported(engine, "names of every length", &spelled);
    // Types print differently from each other.
    let mut prints: Vec<(String, &Ty)> = d3.iter().map(|t| (to_type(t).to_string(), t)).collect();
    prints.sort_by(|a, b| a.0.cmp(&b.0));
    for w in prints.windows(2) {
        if w[0].0 == w[1].0 && to_type(w[0].1) != to_type(w[1].1) {
            engine.violation(format!("d:{}", w[0].0), format!("{:?} and {:?} both print as {}", w[0].1, w[1].1, w[0].0));
        }
    }
    tally(engine, 0, prints.len() as u64);
    engine.progress("distinct");
    printed(engine, "public entry point", &small[..150], &engine.pick(vec![0, 7], contexts.clone()), &[6], true);
    let some: Vec<Ty> = d2.iter().step_by(engine.pick(29, 3)).cloned().collect();
    printed(engine, "public entry point, depth 2", &some, &[0], &[1], true);
    for (s, _) in prints.iter().step_by(40_000) {
        engine.sample(s);
    }
}

pub fn replay12(engine: &Engine, case: &str) {
    if replay_judge(engine, case) {
        return;
    }
    if let Some(s) = case.strip_prefix("p:") {
        if let Some(Denotes::Ty(t)) = denotes(s, &reflex::tokenize(s)) {
            engine.check(case, || {
                let _ = to_type(&t).to_string();
                Ok(())
            });
        }
    } else if let Some(s) = case.strip_prefix("a:") {
        engine.check(case, || again(s));
    } else if let Some(s) = case.strip_prefix("d:") {
        engine.check(case, || {
            let d3 = scilla::types(3);
            let hits: Vec<Type> = d3.iter().map(to_type).filter(|t| t.to_string() == s).collect();
            match hits.iter().any(|t| *t != hits[0]) {
                true => Err(format!("{hits:?} print alike")),
                false => Ok(()),
            }
        });
    }
}
