//! C10: every sentence in every code position leaves the interface alone.

use super::common::*;
use mc::engine::Engine;
use mc::grammar::{Grammar, Kinds};
use mc::scilla::Ty;
use mc::terms::{self, K};
use scilla_parser::Contract;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Slot {
    Imports,
    Library,
    Constraint,
    Init(usize),
    Body(usize),
    Procedure(usize),
    /// Parameters of a procedure.
    Params,
    /// Type of a library value or of a local binder.
    LibType,
}

struct Base {
    types: Vec<Spelled>,
    params: usize,
    fields: usize,
    transitions: usize,
}

impl Base {
    fn new(params: usize, fields: usize, transitions: usize) -> Base {
        let types = [
            Ty::Map(Box::new(Ty::ByStrN(20)), Box::new(Ty::Option(Box::new(Ty::Prim("Uint128"))))),
            // With names that imports and libraries collide with.
            Ty::Other("C.T".into()),
            Ty::Addr("contract".into(), vec![("f".into(), Ty::Other("T".into()))]),
            Ty::Other("T".into()),
            Ty::Pair(Box::new(Ty::Prim("String")), Box::new(Ty::ByStrN(33))),
            Ty::Prim("BNum"),
        ]
        .iter()
        .map(plain)
        .collect();
        Base {
            types,
            params,
            fields,
            transitions,
        }
    }

    fn ty(&self, i: usize) -> &Spelled {
        &self.types[i % self.types.len()]
    }

    fn contract(&self) -> Contract {
        let d = Doc {
            params: (0..self.params).map(|i| (["p", "a"][i % 2], self.ty(i))).collect(),
            fields: (0..self.fields).map(|i| (["f", "a"][i % 2], self.ty(i + 1))).collect(),
            comps: (0..self.transitions)
                .map(|i| Comp {
                    procedure: false,
                    name: ["t", "T"][i % 2],
                    params: (0..=i).map(|j| (["x", "f"][j % 2], self.ty(i + j + 2))).collect(),
                })
                .collect(),
            ..Doc::default()
        };
        d.contract()
    }

    fn text(&self, slots: &[(Slot, &str)]) -> String {
        let get = |s: Slot, default: &'static str| -> &str {
            slots.iter().find(|x| x.0 == s).map_or(default, |x| x.1)
        };
        let mut o = String::with_capacity(300);
        let mut put = |parts: &[&str]| {
            for p in parts {
                o.push_str(p);
                o.push(' ');
            }
        };
        put(&["scilla_version 0", get(Slot::Imports, ""), get(Slot::Library, "")]);
        if let Some((_, t)) = slots.iter().find(|s| s.0 == Slot::LibType) {
            put(&["library L let v :", t, "= fun (x :", t, ") => let y :", t, "= @ q (", t, ") in builtin z { (", t, ") } y type A = | B of (", t, ") type D"]);
        }
        put(&["contract C ("]);
        for i in 0..self.params {
            put(&[if i > 0 { "," } else { "" }, ["p", "a"][i % 2], ":", &self.ty(i).text]);
        }
        put(&[")", get(Slot::Constraint, "")]);
        for i in 0..self.fields {
            put(&["field", ["f", "a"][i % 2], ":", &self.ty(i + 1).text, "=", get(Slot::Init(i), "v")]);
        }
        for i in 0..=self.transitions {
            put(&[get(Slot::Procedure(i), "")]);
            if let Some((_, t)) = slots.iter().find(|s| s.0 == Slot::Params) {
                put(&["procedure proc", t, "end"]);
            }
            if i == self.transitions {
                break;
            }
            put(&["transition", ["t", "T"][i % 2], "("]);
            for j in 0..=i {
                put(&[if j > 0 { "," } else { "" }, ["x", "f"][j % 2], ":", &self.ty(i + j + 2).text]);
            }
            put(&[")", get(Slot::Body(i), "end")]);
        }
        o
    }
}

/// Spellings that collide with names of the interface and of built-in types.
fn colliding(k: K, i: usize) -> &'static str {
    match k {
        terms::ID => ["f", "p", "a", "x", "t"][i % 5],
        terms::CID => ["C", "Option", "T", "Pair", "Map_", "Uint128"][i % 6],
        terms::BYSTRN => ["ByStr20", "ByStr33"][i % 2],
        terms::NUM => "0",
        terms::HEX => "0x12",
        terms::STR => ["\"transition T (x : T) end\"", "\"\"", "\"field f : T = \\\" (*\""][i % 3],
        terms::SPID => "_this_address",
        terms::TID => "'A",
        _ => terms::unique(k, i).s,
    }
}

const STYLES: &[fn(K, usize) -> &'static str] = &[unique, colliding, |k, i| colliding(k, i + 1)];

fn fill(engine: &Engine, what: &str, bases: &[Base], slots: &[Slot], list: &[Kinds], styles: usize, use_slow: bool) {
    let contracts: Vec<Contract> = bases.iter().map(|b| b.contract()).collect();
    engine.parallel(list.len().div_ceil(32), |b| {
        let mut runs = 0;
        for ks in list.iter().skip(b * 32).take(32) {
            for style in &STYLES[..styles] {
                let s = spell(ks, style);
                for (base, c) in bases.iter().zip(&contracts) {
                    for slot in slots {
                        match slot {
                            Slot::Init(i) if *i >= base.fields => continue,
                            Slot::Body(i) if *i >= base.transitions => continue,
                            Slot::Procedure(i) if *i > base.transitions => continue,
                            _ => (),
                        }
                        runs += 1;
                        judge(engine, &base.text(&[(*slot, &s)]), use_slow, Want::Is(c));
                    }
                }
            }
            if engine.stopped() {
                return;
            }
        }
        tally(engine, 32.min(list.len()) as u64, runs);
    });
    engine.progress(what);
}

pub fn run(engine: &Engine) {
    let g = Grammar::scilla();
    let q = engine.quick();
    let full = [Base::new(2, 2, 2)];
    let bases = [Base::new(2, 2, 2), Base::new(0, 0, 0), Base::new(1, 1, 1)];
    let edge = [Base::new(0, 1, 0), Base::new(0, 0, 1), Base::new(2, 2, 2)];

    // (construct, slots)
    let inits = [Slot::Init(0), Slot::Init(1)];
    let bodies = [Slot::Body(0), Slot::Body(1)];
    let procs = [Slot::Procedure(0), Slot::Procedure(1), Slot::Procedure(2)];
    let families: &[(&str, &[Slot], usize)] = &[
        ("ImportDeclarations", &[Slot::Imports], 20_000),
        ("LibraryDefinition", &[Slot::Library], 40_000),
        ("WithConstraint", &[Slot::Constraint], 40_000),
        ("FullExpression", &inits, 60_000),
        ("ComponentBody", &bodies, 60_000),
        ("ProcedureDefinition", &procs, 30_000),
        ("ComponentParameters", &[Slot::Params], 40_000),
        ("ScillaType", &[Slot::LibType], 40_000),
    ];
    let mut depths = vec![];
    for (name, slots, budget) in families {
        let (list, depth) = sentences(name, 2, 1, engine.pick(budget * 3, budget * 20));
        depths.push(format!("{name}:{depth}"));
        fill(engine, name, &bases, slots, &list, 3, false);
        let mut cov = g.covering(g.id(name), engine.pick(3, 4));
        for m in [1, 2, 3, 9, 40] {
            cov.extend(g.repeats(g.id(name), m));
        }
        if !q {
            cov.extend(g.covering(g.id(name), 5).into_iter().take(400_000));
        }
        fill(engine, &format!("{name}, by productions"), &edge, slots, &cov, 3, false);
        if engine.violated() {
            return;
        }
    }
    engine.note("depths", depths.join(" "));

    // Deep and long code.
    for (name, slots, _) in families {
        let l = g.large(
            g.id(name),
            engine.pick(3, 4),
            engine.pick(&[12, 130, 260], &[12, 40, 70, 130, 260, 520]),
            engine.pick(&[12, 130, 260, 1030], &[12, 40, 70, 130, 260, 520, 1030, 4100]),
        );
        fill(engine, &format!("{name}, large"), &full, slots, &l, engine.pick(2, 3), false);
        // Some of the longest through the public entry point.
        let longest: Vec<Kinds> = l.iter().rev().filter(|ks| ks.len() > 1000).cloned().collect();
        let some: Vec<Kinds> = longest.iter().step_by((longest.len() / engine.pick(12, 60)).max(1)).cloned().collect();
        engine.parallel(some.len(), |i| {
            let s = spell(&some[i], STYLES[0]);
            judge(engine, &full[0].text(&[(slots[0], &s)]), true, Want::Is(&full[0].contract()));
            tally(engine, 1, 1);
        });
        if engine.violated() {
            return;
        }
    }

    // Two code positions at once.
    let pieces: Vec<(Slot, String)> = families
        .iter()
        .flat_map(|(name, slots, _)| {
            let mut l = g.covering(g.id(name), 2);
            l.extend(g.repeats(g.id(name), 2));
            let step = (l.len() / engine.pick(12, 60)).max(1);
            let l: Vec<Kinds> = l.into_iter().step_by(step).collect();
            slots
                .iter()
                .flat_map(move |s| l.iter().map(|ks| (*s, spell(ks, colliding))).collect::<Vec<_>>())
                .collect::<Vec<_>>()
        })
        .collect();
    let want = full[0].contract();
    engine.parallel(pieces.len(), |i| {
        let mut runs = 0;
        for (j, b) in pieces.iter().enumerate() {
            let a = &pieces[i];
            if j < i || a.0 == b.0 || (a.0 == Slot::Library && b.0 == Slot::LibType) {
                continue;
            }
            runs += 1;
            judge(engine, &full[0].text(&[(a.0, &a.1), (b.0, &b.1)]), false, Want::Is(&want));
        }
        tally(engine, runs, runs);
    });
    engine.progress("two positions at once");

    // Everything at once, each position with its own sentences.
    let lists: Vec<(Slot, Vec<Kinds>)> = families
        .iter()
        .filter(|f| f.0 != "ScillaType")
        .flat_map(|(name, slots, _)| slots.iter().map(|s| (*s, g.covering(g.id(name), 3))))
        .collect();
    let n = engine.pick(4000, 40_000);
    engine.parallel(n, |i| {
        let parts: Vec<(Slot, String)> = lists
            .iter()
            .enumerate()
            .map(|(j, (s, l))| (*s, spell(&l[(i * (2 * j + 1) + j) % l.len()], STYLES[i % 3])))
            .collect();
        let parts: Vec<(Slot, &str)> = parts.iter().map(|(s, t)| (*s, t.as_str())).collect();
        let text = full[0].text(&parts);
        judge(engine, &text, i % engine.pick(16, 4) == 0, Want::Is(&want));
        if i % 3999 == 1 {
            engine.sample(&text);
        }
        tally(engine, 1, 1);
    });
    engine.progress("all positions at once");

    // Words and literals of every length, and peculiar ones, in every position.
    let lengths = terms::lengths(engine.pick(136, 520));
    let rounds = engine.pick(120, 600);
    let longest = lists.iter().map(|l| l.1.len()).max().unwrap_or(1);
    engine.note("lengths of words", lengths.len());
    engine.parallel(lengths.len() * 2, |i| {
        let n = lengths[i / 2];
        let words: Vec<Vec<&'static str>> = (0..terms::NTERMS)
            .map(|k| (0..3).map(|v| terms::sized(k as K, n, v)).collect())
            .collect();
        let rounds = if n > 600 { 6 } else { rounds };
        for r in 0..rounds {
            let r = r * 2 + i % 2;
            let parts: Vec<(Slot, String)> = lists
                .iter()
                .enumerate()
                .map(|(j, (s, l))| {
                    let at = (r * (longest / rounds / 2).max(1) * (j + 1) + i + j) % l.len();
                    (*s, spell(&l[at], |k, x| words[k as usize][(x + r) % 3]))
                })
                .collect();
            let parts: Vec<(Slot, &str)> = parts.iter().map(|(s, t)| (*s, t.as_str())).collect();
            judge(engine, &full[0].text(&parts), r % 16 < 2, Want::Is(&want));
            if engine.stopped() {
                return;
            }
        }
        tally(engine, rounds as u64, rounds as u64);
    });
    engine.progress("words of every length");
    let n = engine.pick(30_000, 400_000);
    engine.parallel(n, |i| {
        let parts: Vec<(Slot, String)> = lists
            .iter()
            .enumerate()
            .map(|(j, (s, l))| {
                let ks = &l[(i * (2 * j + 1) + j) % l.len()];
                let words = terms::dress(ks, i / 7 + j);
                let mut at = 3 * i + j;
                let mut one = |k: K, t: &'static str| {
                    let l = terms::vocabulary(k);
                    at += 1;
                    if !l.is_empty() && (i + at) % 2 == 0 {
                        l[at / 2 % l.len()]
                    } else if terms::is_word(k, t) {
                        t
                    } else {
                        terms::canon(k).s
                    }
                };
                (*s, words.iter().map(|(k, t)| one(*k, t)).collect::<Vec<_>>().join(" "))
            })
            .collect();
        let parts: Vec<(Slot, &str)> = parts.iter().map(|(s, t)| (*s, t.as_str())).collect();
        judge(engine, &full[0].text(&parts), false, Want::Is(&want));
        tally(engine, 1, 1);
    });
    engine.progress("peculiar words");

    // The public entry point; interfaces that have a mistake stay mistakes.
    for (name, slots, _) in families {
        let l = g.covering(g.id(name), engine.pick(1, 2));
        fill(engine, &format!("{name}, public entry point"), &bases[2..], &slots[..1], &l, engine.pick(1, 2), true);
    }
    for (name, slots, _) in families {
        let l = g.covering(g.id(name), 1);
        engine.parallel(l.len(), |i| {
            let s = spell(&l[i], colliding);
            let text = full[0].text(&[(slots[0], &s)]).replace("contract C (", "contract C ( bad : Option ,");
            assert!(text.contains("bad"), "{text}");
            judge(engine, &text, false, Want::Fails);
            tally(engine, 1, 1);
        });
    }
}

pub fn replay(engine: &Engine, case: &str) {
    replay_judge(engine, case);
}
