//! Contracts as a reference model, and the two ways of running the code under
//! test on a text: `slow` is the public entry point, `fast` takes the tokens
//! from the reference tokenizer and runs parser and converter only.

use crate::bridge;
use mc::engine::{self, Engine};
use mc::grammar::{self, Grammar, Kinds};
use mc::reflex;
use mc::scilla::Ty;
use mc::terms::{self, K, T};
use scilla_parser::parser::lexer::{self, SourcePosition, Token};
use scilla_parser::parser::parser::ProgramParser;
use scilla_parser::simplified_representation::emitter::SrEmitter;
use scilla_parser::{Contract, Error, Field, FieldList, Transition, TransitionList, Type};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};

pub fn to_type(t: &Ty) -> Type {
    let b = |t: &Ty| Box::new(to_type(t));
    match t {
        Ty::Prim(p) => match *p {
            "Int32" => Type::Int32,
            "Int64" => Type::Int64,
            "Int128" => Type::Int128,
            "Int256" => Type::Int256,
            "Uint32" => Type::Uint32,
            "Uint64" => Type::Uint64,
            "Uint128" => Type::Uint128,
            "Uint256" => Type::Uint256,
            "String" => Type::String,
            "BNum" => Type::BNum,
            "Bool" => Type::Bool,
            "ByStr" => Type::ByStr,
            _ => unreachable!(),
        },
        Ty::ByStrN(20) => Type::ByStr20,
        Ty::ByStrN(n) => Type::ByStrX(*n),
        Ty::Map(k, v) => Type::Map(b(k), b(v)),
        Ty::Option(t) => Type::Option(b(t)),
        Ty::List(t) => Type::List(b(t)),
        Ty::Pair(x, y) => Type::Pair(b(x), b(y)),
        Ty::Addr(kind, fields) => Type::ByStr20With {
            type_name: kind.clone(),
            fields: FieldList(fields.iter().map(|(n, t)| Field::new(n, to_type(t))).collect()),
        },
        Ty::Other(s) => Type::Other(s.clone()),
    }
}

/// A type with one of its spellings.
#[derive(Clone, Debug)]
pub struct Spelled {
    pub text: String,
    pub ty: Type,
}

pub fn plain(t: &Ty) -> Spelled {
    Spelled {
        text: t.write(&mut Default::default()),
        ty: to_type(t),
    }
}

pub type Decl<'a> = (&'a str, &'a Spelled);

#[derive(Clone, Debug, Default)]
pub struct Comp<'a> {
    pub procedure: bool,
    pub name: &'a str,
    pub params: Vec<Decl<'a>>,
}

/// A contract: its interface and the code around it.
#[derive(Clone, Debug)]
pub struct Doc<'a> {
    /// What stands before the keyword `contract`.
    pub head: &'a str,
    pub name: &'a str,
    pub params: Vec<Decl<'a>>,
    pub constraint: &'a str,
    pub fields: Vec<Decl<'a>>,
    pub init: &'a str,
    pub comps: Vec<Comp<'a>>,
    pub body: &'a str,
}

impl Default for Doc<'_> {
    fn default() -> Self {
        Doc {
            head: "scilla_version 0",
            name: "C",
            params: vec![],
            constraint: "",
            fields: vec![],
            init: "v",
            comps: vec![],
            body: "end",
        }
    }
}

fn write_params(o: &mut String, p: &[Decl]) {
    o.push_str(" (");
    for (i, (n, t)) in p.iter().enumerate() {
        if i > 0 {
            o.push_str(", ");
        }
        o.push_str(n);
        o.push_str(" : ");
        o.push_str(&t.text);
    }
    o.push_str(") ");
}

pub fn list(p: &[Decl]) -> FieldList {
    FieldList(p.iter().map(|(n, t)| Field::new(n, t.ty.clone())).collect())
}

impl Doc<'_> {
    pub fn text(&self) -> String {
        let mut o = String::with_capacity(256);
        o.push_str(self.head);
        o.push_str(" contract ");
        o.push_str(self.name);
        write_params(&mut o, &self.params);
        o.push_str(self.constraint);
        for (n, t) in &self.fields {
            o.push_str(" field ");
            o.push_str(n);
            o.push_str(" : ");
            o.push_str(&t.text);
            o.push_str(" = ");
            o.push_str(self.init);
        }
        for c in &self.comps {
            o.push_str(if c.procedure { " procedure " } else { " transition " });
            o.push_str(c.name);
            write_params(&mut o, &c.params);
            o.push_str(self.body);
        }
        o
    }

    /// Identifies the interface.
    pub fn key(&self) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.name.hash(&mut h);
        let params = |p: &[Decl], h: &mut std::collections::hash_map::DefaultHasher| {
            for (n, t) in p {
                n.hash(h);
                t.text.hash(h);
            }
            0xffu8.hash(h);
        };
        params(&self.params, &mut h);
        params(&self.fields, &mut h);
        for c in self.comps.iter().filter(|c| !c.procedure) {
            c.name.hash(&mut h);
            params(&c.params, &mut h);
        }
        h.finish()
    }

    pub fn contract(&self) -> Contract {
        Contract {
            name: self.name.into(),
            init_params: list(&self.params),
            fields: list(&self.fields),
            transitions: TransitionList(
                self.comps
                    .iter()
                    .filter(|c| !c.procedure)
                    .map(|c| Transition::new(c.name, list(&c.params)))
                    .collect(),
            ),
        }
    }
}

/// The public entry point.
pub fn slow(text: &str) -> Result<Contract, String> {
    stepped(reflex::tokenize(text).len());
    text.parse::<Contract>().map_err(|e| match e {
        Error::ParseError(m) => m,
        e => format!("not a parse error: {e:?}"),
    })
}

type Spanned<'a> = Result<(SourcePosition, Token<&'a str>, SourcePosition), lexer::ParseError>;

pub fn reference_tokens(text: &str) -> impl Iterator<Item = Spanned<'_>> {
    let toks = reflex::tokenize(text);
    stepped(toks.len());
    toks.into_iter().map(move |l| {
        let at = |position| SourcePosition {
            position,
            line: 0,
            column: position,
        };
        Ok((at(l.start), bridge::tok_str(l.k, &text[l.start..l.end]), at(l.end)))
    })
}

/// Parser and converter on the tokens of the reference tokenizer.
pub fn fast(text: &str) -> Result<Contract, String> {
    let mut errors = vec![];
    let p = ProgramParser::new()
        .parse(&mut errors, reference_tokens(text))
        .map_err(|e| format!("{e:?}"))?;
    if !errors.is_empty() {
        return Err("recovered errors".into());
    }
    SrEmitter::default().emit(&p)
}

pub enum Want<'a> {
    Is(&'a Contract),
    Fails,
    /// Anything but a crash.
    Any,
}

fn verdict(want: &Want, got: &Result<Contract, String>) -> Result<(), String> {
    match (want, got) {
        (Want::Is(c), Ok(d)) if *c == d => Ok(()),
        (Want::Is(c), Ok(d)) => Err(format!("expected {c:?}\n  but got {d:?}")),
        (Want::Is(c), Err(e)) => Err(format!("expected {c:?}\n  but got the error {e}")),
        (Want::Fails, Ok(d)) => Err(format!("expected an error, but got {d:?}")),
        (_, Err(e)) if e.starts_with("not a parse error") => Err(e.clone()),
        _ => Ok(()),
    }
}

/// Of the texts given to parser and converter as tokens, this part also goes
/// through the public entry point.
pub const PUBLIC_SHARE: u64 = 256;

fn hash(text: &str) -> u64 {
    let h = text.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x0100_0000_01b3));
    (h ^ h >> 32) >> 7
}

/// Runs the code under test on a text and compares.
pub fn judge(engine: &Engine, text: &str, use_slow: bool, want: Want) -> bool {
    let tag: &[u8] = if use_slow { b"s:" } else { b"f:" };
    engine.announce(&[tag, text.as_bytes()]);
    let got = engine::guard(|| if use_slow { slow(text) } else { fast(text) });
    let what = match &got {
        Ok(g) => verdict(&want, g).err(),
        Err(p) => Some(format!("panic: {p}")),
    };
    engine.idle();
    let Some(what) = what else {
        // Every so often also the way every user takes.
        return use_slow || hash(text) % PUBLIC_SHARE != 0 || judge(engine, text, true, want);
    };
    let w = match want {
        Want::Is(c) => format!("{c:?}"),
        Want::Fails => "fails".into(),
        Want::Any => "any".into(),
    };
    engine.violation(
        format!("e{}{w}\u{1}{text}", if use_slow { 's' } else { 'f' }),
        format!("{text}\n  {what}"),
    );
    false
}

/// Replays the cases of `judge`; false if the case is of another kind.
pub fn replay_judge(engine: &Engine, case: &str) -> bool {
    let (tag, rest) = match case.get(..2) {
        Some(t) => (t, &case[2..]),
        None => return false,
    };
    match tag {
        "s:" => {
            engine.check(case, || {
                let _ = slow(rest);
                Ok(())
            });
        }
        "f:" => {
            engine.check(case, || {
                let _ = fast(rest);
                Ok(())
            });
        }
        "es" | "ef" => {
            let Some((want, text)) = rest.split_once('\u{1}') else {
                return false;
            };
            engine.check(case, || {
                let got = if tag == "es" { slow(text) } else { fast(text) };
                match (want, &got) {
                    ("any", Err(e)) if e.starts_with("not a parse error") => Err(e.clone()),
                    ("any", _) | ("fails", Err(_)) => Ok(()),
                    ("fails", Ok(d)) => Err(format!("expected an error, but got {d:?}")),
                    (w, Ok(d)) if w == format!("{d:?}") => Ok(()),
                    (w, g) => Err(format!("expected {w}, but got {g:?}")),
                }
            });
        }
        _ => return false,
    }
    true
}

/// Tokens given to the parser.
static STEPS: AtomicU64 = AtomicU64::new(0);

pub fn stepped(n: usize) {
    STEPS.fetch_add(n as u64, Ordering::Relaxed);
}

/// `states` are states of the model (types, sentences, interfaces, gaps); the
/// transitions are the tokens the parser took.
pub fn tally(engine: &Engine, states: u64, runs: u64) {
    engine.add("states", states);
    engine.add("transitions", STEPS.swap(0, Ordering::Relaxed));
    engine.add("traces_validated_against_impl", runs);
}

/// All lists up to a length over some elements.
pub fn lists<A: Clone>(items: &[A], max: usize) -> Vec<Vec<A>> {
    let mut out = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for i in from..to {
            for x in items {
                let mut v = out[i].clone();
                v.push(x.clone());
                out.push(v);
            }
        }
        from = to;
    }
    out
}

/// Sentences of a construct: breadth-first search over the grammar's states,
/// every prefix and every merged transition completed, up to a budget.
/// Returns them with the depth reached.
pub fn sentences(name: &str, full: usize, w: usize, budget: usize) -> (Vec<Kinds>, usize) {
    let g = Grammar::scilla();
    let mut seen = HashSet::new();
    let mut out = vec![];
    let mut dedup = HashSet::new();
    let mut level = grammar::first_level(g, g.id(name));
    loop {
        for (ks, st) in level.prefixes.iter().chain(&level.merged) {
            let mut v = ks.clone();
            v.extend(g.complete(st));
            if dedup.insert(v.clone()) {
                out.push(v);
            }
        }
        if level.prefixes.is_empty() || level.depth >= 40 {
            break;
        }
        let next = grammar::next_level(g, &level, full, w, &mut seen);
        if out.len() + next.prefixes.len() + next.merged.len() > budget {
            break;
        }
        level = next;
    }
    (out, level.depth)
}

pub fn spell(ks: &[K], f: impl Fn(K, usize) -> &'static str) -> String {
    let mut s = String::with_capacity(ks.len() * 6);
    for (i, k) in ks.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(f(*k, i));
    }
    s
}

pub fn unique(k: K, i: usize) -> &'static str {
    terms::unique(k, i).s
}

#[allow(dead_code)]
pub fn text_of(toks: &[T]) -> String {
    terms::text(toks)
}
