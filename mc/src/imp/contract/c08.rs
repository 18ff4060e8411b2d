//! C08: every contract made of few declarations, and long lists of them.

use super::common::*;
use mc::engine::Engine;
use mc::scilla::Ty;
use mc::terms;
use std::collections::HashSet;
use std::sync::Mutex;

static SEEN: Mutex<Option<HashSet<u64>>> = Mutex::new(None);

/// Counts runs, and the interfaces not seen before as states.
fn count(engine: &Engine, keys: &[u64]) {
    let mut seen = SEEN.lock().unwrap();
    let seen = seen.get_or_insert_with(HashSet::new);
    let before = seen.len();
    seen.extend(keys);
    tally(engine, (seen.len() - before) as u64, keys.len() as u64);
}

fn types() -> Vec<Spelled> {
    [
        Ty::Prim("Uint128"),
        Ty::Map(
            Box::new(Ty::ByStrN(20)),
            Box::new(Ty::Option(Box::new(Ty::Other("Lib.T".into())))),
        ),
        Ty::Addr("contract".into(), vec![("a".into(), Ty::Prim("Bool")), ("b".into(), Ty::Prim("String"))]),
        Ty::Pair(Box::new(Ty::Prim("Int32")), Box::new(Ty::Prim("ByStr"))),
    ]
    .iter()
    .map(plain)
    .collect()
}

const HEADS: [&str; 4] = [
    "scilla_version 0",
    "scilla_version 1 import A B as C import ByStr20 as Event",
    "scilla_version 33 library C",
    "scilla_version 0 import L library Lib let a = fun (a : Uint128) => let b = a in b type T = | A of Uint128 (Map ByStr20 T) | B type C",
];

fn product(engine: &Engine, what: &str, params: &[Vec<Decl>], fields: &[Vec<Decl>], comps: &[Vec<Comp>], constraints: &[&str], use_slow: bool) {
    let n = params.len() * fields.len();
    let chunks = comps.len().div_ceil(256);
    engine.parallel(n * chunks, |i| {
        let (i, from) = (i / chunks, i % chunks * 256);
        let (p, f) = (&params[i / fields.len()], &fields[i % fields.len()]);
        let mut keys = vec![];
        let mut d = Doc {
            params: p.clone(),
            fields: f.clone(),
            ..Doc::default()
        };
        for (j, c) in comps.iter().enumerate().skip(from).take(256) {
            d.comps = c.clone();
            for (k, w) in constraints.iter().enumerate() {
                d.constraint = w;
                d.head = HEADS[(i + j + k) % 4];
                d.init = ["v", "Emp ByStr20 T", "let a = b in c", "{ a : b }"][(i + j) % 4];
                d.body = ["end", "a := b; accept end", "b <- a; match x with | A b => throw | _ => end end"][(j + k) % 3];
                keys.push(d.key());
                if !judge(engine, &d.text(), use_slow, Want::Is(&d.contract())) || engine.stopped() {
                    return;
                }
            }
        }
        count(engine, &keys);
    });
    engine.progress(what);
}

fn components<'a>(names: &[&'a str], params: &[Vec<Decl<'a>>]) -> Vec<Comp<'a>> {
    let mut v = vec![];
    for procedure in [false, true] {
        for name in names {
            for p in params {
                v.push(Comp {
                    procedure,
                    name,
                    params: p.clone(),
                });
            }
        }
    }
    v
}

fn decls<'a>(names: &[&'a str], types: &'a [Spelled]) -> Vec<Decl<'a>> {
    names.iter().flat_map(|n| types.iter().map(move |t| (*n, t))).collect()
}

pub fn run(engine: &Engine) {
    let ty = types();
    let two = decls(&["a", "b"], &ty[..2]);
    let no = [""];
    let both = ["", "with builtin eq a b =>"];

    // Parameters and fields up to 3 of each, one component.
    let p3 = lists(&two, 3);
    let c1 = lists(&components(&["a", "C"], &lists(&two[..3], 1)), 1);
    product(engine, "parameters and fields", &p3, &p3, &c1, &both, false);
    // Up to two components with up to two parameters.
    let p1 = lists(&two, 1);
    let c2 = lists(&components(&["a", "b"], &lists(&two, 2)), 2);
    product(engine, "components", &p1, &p1, &c2, &both, false);
    // Up to four components with up to one parameter.
    let d3 = decls(&["a", "b"], &ty[1..2]);
    let c4 = lists(&components(&["a", "T"], &lists(&d3, 1)), engine.pick(5, 6));
    product(engine, "sequences of components", &lists(&d3, 0), &lists(&d3[..1], 1), &c4, &no, false);
    // One component with up to 4 parameters, of any kind of name.
    let names = ["a", "end_", "transition1", "field_", "contracts", "a0_B"];
    let many = decls(&names, &ty[..1]);
    let cs = components(&["transferFrom", "Event", "ByStr20", "ByStr7", "Some", "a"], &lists(&many, engine.pick(2, 3)));
    let cs: Vec<Vec<Comp>> = cs.into_iter().map(|c| vec![c]).collect();
    product(engine, "names", &lists(&many[..2], 1), &lists(&many[4..5], 1), &cs, &both, false);
    // All orders of transitions and procedures.
    let max = engine.pick(12, 16);
    let ids: Vec<&str> = (0..64).map(|i| &*Box::leak(format!("t{i}").into_boxed_str())).collect();
    engine.parallel((1 << (max + 1)) - 1, |i| {
        // i + 1 in binary: a leading one, then the order.
        let bits = (i + 1).ilog2() as usize;
        let d = Doc {
            comps: (0..bits)
                .map(|b| Comp {
                    procedure: (i + 1) >> b & 1 == 1,
                    name: ids[b],
                    params: vec![("a", &ty[b % 4]); b % 3],
                })
                .collect(),
            fields: vec![("f", &ty[0])],
            ..Doc::default()
        };
        judge(engine, &d.text(), false, Want::Is(&d.contract()));
        count(engine, &[d.key()]);
    });
    engine.progress("orders of components");
    // Contract names.
    for name in ["C", "Event", "ByStr20", "ByStr1", "Contract", "Lib", "A_b0"] {
        for head in HEADS {
            let d = Doc { name, head, ..Doc::default() };
            judge(engine, &d.text(), true, Want::Is(&d.contract()));
            count(engine, &[d.key()]);
        }
    }
    // Names of every length, in each place alone and in all of them.
    let lengths = terms::lengths(engine.pick(136, 520));
    engine.note("lengths of names", lengths.len());
    engine.parallel(lengths.len(), |i| {
        let n = lengths[i];
        let mut keys = vec![];
        for v in 0..9 {
            let id = |j: usize| terms::sized(terms::ID, n, v + j);
            let other = |j: usize| [terms::sized(terms::CID, n, v + j), terms::sized(terms::BYSTRN, n, v + j), id(j)][(v + j) % 3];
            for place in 0..7 {
                let at = |p: usize| place == p || place == 6;
                let d = Doc {
                    name: if at(0) { terms::sized(terms::CID, n, v) } else { "C" },
                    params: vec![("a", &ty[0]), (if at(1) { id(1) } else { "b" }, &ty[1])],
                    fields: vec![(if at(2) { id(0) } else { "c" }, &ty[2]), (if at(3) { id(2) } else { "d" }, &ty[3])],
                    comps: vec![
                        Comp {
                            procedure: false,
                            name: if at(4) { other(0) } else { "e" },
                            params: vec![(if at(5) { id(0) } else { "f" }, &ty[0]), ("g", &ty[1])],
                        },
                        Comp {
                            procedure: true,
                            name: if at(4) { other(1) } else { "h" },
                            params: vec![(if at(5) { id(1) } else { "i" }, &ty[2])],
                        },
                        Comp {
                            procedure: false,
                            name: if at(4) { other(2) } else { "j" },
                            params: vec![("k", &ty[3]), (if at(5) { id(2) } else { "l" }, &ty[1])],
                        },
                    ],
                    ..Doc::default()
                };
                keys.push(d.key());
                judge(engine, &d.text(), v < 3, Want::Is(&d.contract()));
            }
        }
        count(engine, &keys);
    });
    engine.progress("names of every length");
    // Words that mean something elsewhere, in any two places.
    let words = |k: terms::K| -> Vec<&'static str> {
        let l = [terms::vocabulary(k), terms::nasty(k)].concat();
        l.into_iter().filter(|w| terms::is_word(k, w)).collect()
    };
    let (ids, mut cids) = (words(terms::ID), words(terms::CID));
    cids.extend(["Event", "ByStr20", "ByStr1"]);
    let n = ids.len().max(cids.len());
    engine.note("words that mean something", ids.len() + cids.len());
    engine.parallel(n * n, |i| {
        let (a, b) = (i % n, i / n);
        let mut keys = vec![];
        for p in 0..7 {
            // A word with itself once, and in each pair of places, in turn.
            let q = if a == b { p } else { (p + 1 + (a + b) % 6) % 7 };
            let word = |place: usize, own: &'static str, c: bool| {
                let l = if c { &cids } else { &ids };
                match place {
                    _ if place == p => l[a % l.len()],
                    _ if place == q => l[b % l.len()],
                    _ => own,
                }
            };
            let d = Doc {
                name: word(0, "C", true),
                params: vec![("a", &ty[0]), (word(1, "b", false), &ty[1])],
                fields: vec![(word(2, "c", false), &ty[2]), (word(3, "d", false), &ty[3])],
                comps: vec![
                    Comp { procedure: false, name: word(4, "e", a % 2 == 1), params: vec![(word(5, "f", false), &ty[0]), ("g", &ty[1])] },
                    Comp { procedure: true, name: "h", params: vec![("i", &ty[2])] },
                    Comp { procedure: false, name: word(6, "j", b % 2 == 1), params: vec![("k", &ty[3]), (word(5, "l", false), &ty[1])] },
                ],
                ..Doc::default()
            };
            keys.push(d.key());
            if !judge(engine, &d.text(), a == b || p == (a + b) % 7 && (a + 2 * b) % 4 == 0, Want::Is(&d.contract())) || engine.stopped() {
                return;
            }
        }
        count(engine, &keys);
    });
    engine.progress("words that mean something");
    // Long lists, with distinct, equal and alternating names.
    let max = engine.pick(130, 600);
    let top = engine.pick(17, 18);
    let mut lengths: Vec<usize> = (0..max).chain((8..top).flat_map(|e| [(1 << e) - 1, 1 << e, (1 << e) + 1])).collect();
    lengths.extend([100, 1000, 10_000].map(|n| n + 1));
    lengths.sort();
    lengths.reverse();
    lengths.dedup();
    engine.parallel(lengths.len() * 5, |i| {
        let n = lengths[i / 5];
        let names: [&dyn Fn(usize) -> String; 3] = [&|j| format!("n{j}"), &|_| "n".into(), &|j| format!("n{}", j % 2)];
        let styles = if n > 10_001 { engine.pick(1, 3) } else { 3 };
        for (m, name) in names.iter().enumerate().take(styles) {
            let names: Vec<String> = (0..n).map(name).collect();
            let list: Vec<Decl> = (0..n).map(|j| (names[j].as_str(), &ty[(j + j / 7) % 4])).collect();
            let mut d = Doc::default();
            match i % 5 {
                0 => d.params = list,
                1 => d.fields = list,
                2 => {
                    d.comps = (0..n)
                        .map(|j| Comp {
                            procedure: false,
                            name: list[j].0,
                            params: vec![list[j]],
                        })
                        .collect()
                }
                3 => {
                    d.comps = vec![Comp {
                        procedure: false,
                        name: "t",
                        params: list,
                    }]
                }
                _ => {
                    d.params = list.clone();
                    d.fields = list.clone();
                    d.comps = (0..n)
                        .map(|j| Comp {
                            procedure: j % 2 == 0,
                            name: list[j].0,
                            params: list[..j.min(2)].to_vec(),
                        })
                        .collect()
                }
            }
            let slow = m == 0 && i % 5 == 4 && [0, 1, 2, 3, 7, 16, 32, 64].contains(&n);
            judge(engine, &d.text(), slow, Want::Is(&d.contract()));
            count(engine, &[d.key()]);
        }
    });
    engine.progress("long lists");
    // The public entry point itself.
    let slow_p = lists(&two[..engine.pick(3, 4)], 2);
    let slow_c = lists(&components(&["a", "C"], &lists(&two[1..3], 1)), engine.pick(1, 2));
    product(engine, "public entry point", &slow_p, &slow_p, &slow_c, &both, true);
    let slow_c = lists(&components(&["a"], &lists(&two[1..2], 2)), 3);
    product(engine, "public entry point, components", &slow_p[..2], &slow_p[..2], &slow_c, &no, true);
    for d in [Doc {
        params: p3[40].clone(),
        fields: p3[60].clone(),
        comps: c2[900].clone(),
        ..Doc::default()
    }] {
        engine.sample(d.text());
    }
}

pub fn replay(engine: &Engine, case: &str) {
    replay_judge(engine, case);
}
