//! C20: what results say about themselves: equality, order, copies, printing.
//!
//! Every value is also read field by field (the tree by `reflect`); two values
//! must be equal exactly when they read the same. All pairs are compared.

use super::common::*;
use crate::bridge::{self, end_of, start_of};
use crate::reflect::{Item as Part, Reflect, G};
use crate::with_starts;
use mc::engine::Engine;
use mc::grammar::{decode, encode, Grammar, Kinds};
use mc::scilla::{self, Ty};
use mc::terms::{self, K, NTERMS};
use scilla_parser::parser::lexer::{SourcePosition, Token};
use scilla_parser::parser::{parser, ParserError};
use scilla_parser::{Contract, Error, Field, FieldList, Transition, TransitionList, Type};
use std::cmp::Ordering::{self, Equal};
use std::fmt::Debug;
use std::fmt::Write;

// ------------------------------------------------------------------ reading

fn read_type(t: &Type, o: &mut String) {
    let mut of = |name: &str, subs: &[&Type]| {
        o.push_str(name);
        o.push('<');
        for s in subs {
            read_type(s, o);
            o.push(';');
        }
        o.push('>');
    };
    match t {
        Type::Int32 => of("i32", &[]),
        Type::Int64 => of("i64", &[]),
        Type::Int128 => of("i128", &[]),
        Type::Int256 => of("i256", &[]),
        Type::Uint32 => of("u32", &[]),
        Type::Uint64 => of("u64", &[]),
        Type::Uint128 => of("u128", &[]),
        Type::Uint256 => of("u256", &[]),
        Type::String => of("string", &[]),
        Type::BNum => of("bnum", &[]),
        Type::Bool => of("bool", &[]),
        Type::ByStr => of("bystr", &[]),
        Type::ByStr20 => of("bystr20", &[]),
        Type::ByStrX(n) => of(&format!("bystr#{n}"), &[]),
        Type::Map(a, b) => of("map", &[a, b]),
        Type::Pair(a, b) => of("pair", &[a, b]),
        Type::Option(a) => of("option", &[a]),
        Type::List(a) => of("list", &[a]),
        Type::Other(s) => of(&format!("other {s:?}"), &[]),
        Type::ByStr20With { type_name, fields } => {
            let _ = write!(o, "with {type_name:?}");
            read_fields(&fields.0, o);
        }
    }
}

fn read_fields(v: &[Field], o: &mut String) {
    o.push('[');
    for f in v {
        read_field(f, o);
    }
    o.push(']');
}

fn read_field(f: &Field, o: &mut String) {
    let _ = write!(o, "{:?}:", f.name);
    read_type(&f.r#type, o);
    o.push(',');
}

fn read_transition(t: &Transition, o: &mut String) {
    let _ = write!(o, "{:?}", t.name);
    read_fields(&t.params.0, o);
}

fn read_contract(c: &Contract, o: &mut String) {
    let _ = write!(o, "{:?}", c.name);
    read_fields(&c.init_params.0, o);
    read_fields(&c.fields.0, o);
    for t in &c.transitions.0 {
        read_transition(t, o);
    }
}

fn read_tree(g: &G, o: &mut String) {
    let _ = write!(o, "{} {:?} {:?}(", g.kind, g.span.as_ref().map(|s| (at(&s.0), at(&s.1))), g.display);
    for i in &g.items {
        match i {
            Part::Fixed(k) => {
                let _ = write!(o, "{k} ");
            }
            Part::Maybe(_) => (),
            Part::Leaf { k, text, span, .. } => {
                let _ = write!(o, "{k}{text:?}{:?}{:?}", at(&span.0), at(&span.1));
            }
            Part::Node(g) => read_tree(g, o),
            Part::Bad(b) => o.push_str(b),
        }
    }
    o.push(')');
}

fn at(p: &SourcePosition) -> (usize, usize, usize) {
    (p.position, p.line, p.column)
}

fn read<T>(t: &T, f: impl Fn(&T, &mut String)) -> String {
    let mut o = String::new();
    f(t, &mut o);
    o
}

// ----------------------------------------------------------------- comparing

#[allow(clippy::double_comparisons, clippy::nonminimal_bool)]
fn equality<T: PartialEq>(a: &T, b: &T, same: bool) -> Result<(), String> {
    if (a == b) != same || (b == a) != same {
        return Err(format!("compare as {}", if same { "different" } else { "equal" }));
    }
    if (a != b) == same {
        return Err("== and != contradict each other".into());
    }
    Ok(())
}

fn ordering<T: PartialOrd>(a: &T, b: &T, same: bool) -> Result<Option<Ordering>, String> {
    let (x, y) = (a.partial_cmp(b), b.partial_cmp(a));
    if x != y.map(|o| o.reverse()) {
        return Err(format!("are ordered {x:?} and the other way round {y:?}"));
    }
    if (x == Some(Equal)) != same {
        return Err(format!("are ordered {x:?}"));
    }
    let ops = (a < b, a <= b, a > b, a >= b);
    let want = (
        x == Some(Ordering::Less),
        matches!(x, Some(Ordering::Less | Equal)),
        x == Some(Ordering::Greater),
        matches!(x, Some(Ordering::Greater | Equal)),
    );
    if ops != want {
        return Err(format!("are ordered {x:?}, but <, <=, >, >= are {ops:?}"));
    }
    Ok(x)
}

fn copied<T: Clone + Debug + PartialEq>(a: &T, f: impl Fn(&T, &mut String)) -> Result<(), String> {
    let c = a.clone();
    if read(&c, &f) != read(a, &f) {
        return Err(format!("a copy of {a:?} is {c:?}"));
    }
    if format!("{c:?}") != format!("{a:?}") {
        return Err(format!("a copy of {a:?} prints as {c:?}"));
    }
    equality(a, &c, true).map_err(|e| format!("{a:?} and its copy {e}"))
}

/// All pairs of a list; equal exactly when they read the same.
fn pairs<T: PartialEq + Debug + Sync>(engine: &Engine, tag: &str, list: &[T], f: impl Fn(&T, &mut String) + Sync) {
    let reads: Vec<String> = list.iter().map(|t| read(t, &f)).collect();
    engine.note(&format!("{tag}_values"), list.len());
    engine.parallel(list.len(), |i| {
        engine.case(&format!("{tag}:{i}"), || {
            for j in i..list.len() {
                let same = reads[i] == reads[j];
                if let Err(e) = equality(&list[i], &list[j], same) {
                    engine.violation(format!("{tag}:{i}:{j}"), format!("{:?} and {:?} {e}", list[i], list[j]));
                    return;
                }
            }
        });
        tally(engine, 1, (list.len() - i) as u64);
        engine.add("evaluations", (list.len() - i) as u64);
    });
}

// ------------------------------------------------------------------- tokens

fn tokens() -> Vec<(String, Token<&'static str>)> {
    let mut v = vec![];
    for k in 0..NTERMS as K {
        if terms::has_payload(k) {
            for s in ["", "a", "A", "aa", "ab", "b", "0", "end"] {
                v.push((format!("{k} {s}"), bridge::tok_str(k, s)));
            }
        } else {
            v.push((format!("{k}"), bridge::tok_str(k, "")));
        }
    }
    for s in ["", "a", "end"] {
        v.push((format!("comment {s}"), Token::Comment(s)));
        v.push((format!("type name {s}"), Token::TypeName(s)));
    }
    v.push(("whitespace".into(), Token::Whitespace));
    v.push(("unknown".into(), Token::Unknown));
    v
}

fn all_tokens(engine: &Engine) {
    let v = tokens();
    let mut n = 0;
    for (i, (x, a)) in v.iter().enumerate() {
        for (y, b) in &v[i..] {
            n += 1;
            // The spelling is somewhere else in memory.
            let other = Token::<String>::clone(&own(b));
            engine.check("T", || {
                equality(a, b, x == y)
                    .and_then(|_| equality(&own(a), &other, x == y))
                    .map_err(|e| format!("{a:?} and {b:?} {e}"))
            });
        }
        engine.check("T", || copied(a, |t, o| *o = format!("{:?} {:?}", bridge::kind(t), bridge::payload(t))));
    }
    tally(engine, v.len() as u64, n);
    engine.add("evaluations", n);
}

fn own(t: &Token<&str>) -> Token<String> {
    match t {
        Token::ByStrWithSize(s) => Token::ByStrWithSize(s.to_string()),
        Token::Comment(s) => Token::Comment(s.to_string()),
        Token::Number(s) => Token::Number(s.to_string()),
        Token::HexNumber(s) => Token::HexNumber(s.to_string()),
        Token::Identifier(s) => Token::Identifier(s.to_string()),
        Token::TemplateIdentifier(s) => Token::TemplateIdentifier(s.to_string()),
        Token::CustomIdentifier(s) => Token::CustomIdentifier(s.to_string()),
        Token::SpecialIdentifier(s) => Token::SpecialIdentifier(s.to_string()),
        Token::TypeName(s) => Token::TypeName(s.to_string()),
        Token::StringLiteral(s) => Token::StringLiteral(s.to_string()),
        Token::Unknown => Token::Unknown,
        Token::Whitespace => Token::Whitespace,
        t => {
            let mut l = terms::TERMS.iter().enumerate();
            let k = bridge::kind(t).expect("kind");
            match l.find(|(i, _)| *i == k as usize) {
                Some(_) => fixed(k),
                None => unreachable!(),
            }
        }
    }
}

/// A token without payload, whatever its type of payload.
fn fixed(k: K) -> Token<String> {
    macro_rules! each {
        ($($v:ident)*) => {
            match bridge::tok_str(k, "") {
                $(Token::$v => Token::$v,)*
                _ => unreachable!(),
            }
        };
    }
    each!(Plus Asterisk Semicolon Colon Dot Pipe OpenBracket CloseBracket OpenParen CloseParen OpenBrace CloseBrace Comma
        DoubleArrow Arrow Equals Ampersand LeftArrow ColonEquals At Minus Underscore Forall Builtin Library Import Let In
        Match With End Fun Tfun Contract Transition Send Field Accept Exists Delete Throw Map ScillaVersion Type Of As
        Procedure Emp Event EventType ByStr)
}

// ---------------------------------------------------------------- positions

fn all_positions(engine: &Engine) {
    let ns = [0, 1, 2, 9, 10, 255, 256, 1 << 31, 1 << 32, (1 << 53) + 1, 1 << 53, (usize::MAX >> 1) - 1, usize::MAX >> 1, usize::MAX - 1, usize::MAX];
    let mut v = vec![];
    for position in ns {
        for line in ns {
            for column in ns {
                v.push(SourcePosition { position, line, column });
            }
        }
    }
    engine.note("positions", v.len());
    engine.parallel(v.len(), |i| {
        let a = &v[i];
        engine.check(&format!("P:{i}"), || {
            for (j, b) in v.iter().enumerate().skip(i) {
                let order = equality(a, b, i == j).and_then(|_| ordering(a, b, i == j)).map_err(|e| format!("{a:?} and {b:?} {e}"))?;
                // In a text, a later position has the larger offset.
                if a.position != b.position && order != Some(a.position.cmp(&b.position)) {
                    return Err(format!("{a:?} and {b:?} are ordered {order:?}"));
                }
            }
            let copy = *a;
            equality(a, &copy, true)?;
            if a.is_valid() != (a.position < usize::MAX >> 1) {
                return Err(format!("{a:?} is taken for {}", if a.is_valid() { "valid" } else { "invalid" }));
            }
            Ok(())
        });
        tally(engine, 1, (v.len() - i) as u64);
        engine.add("evaluations", (v.len() - i) as u64);
    });
    engine.check("P", || {
        let (s, i, d) = (SourcePosition::start_position(), SourcePosition::invalid_position(), SourcePosition::default());
        if at(&s) != (0, 0, 0) || at(&d) != (0, 0, 0) || !s.is_valid() || i.is_valid() {
            return Err(format!("{s:?}, {d:?}, {i:?}"));
        }
        Ok(())
    });
}

// ------------------------------------------------------------ types and lists

fn some_types(engine: &Engine) -> Vec<Type> {
    let mut v: Vec<Ty> = scilla::leaves();
    // Names that are nearly others.
    for s in ["t", "T ", "", "Int32", "ByStr20", "ByStr", "Map", "(Option T)", "t_", "TT"] {
        v.push(Ty::Other(s.into()));
    }
    v.extend(scilla::types(engine.pick(2, 3)).into_iter().step_by(engine.pick(1, 7)));
    let a = |k: &str, f: &[(&str, &str)]| {
        Ty::Addr(k.into(), f.iter().map(|(n, t)| (n.to_string(), Ty::Other(t.to_string()))).collect())
    };
    for k in ["", "contract", "library", "Contract"] {
        for f in lists(&[("a", "T"), ("b", "T"), ("a", "U"), ("A", "T")], engine.pick(2, 3)) {
            v.push(a(k, &f));
        }
    }
    v.sort_by_cached_key(|t| format!("{t:?}"));
    v.dedup();
    v.iter().map(to_type).collect()
}

fn some_fields() -> Vec<FieldList> {
    let f = |n: &str, t: Type| Field::new(n, t);
    let all = [
        f("a", Type::Bool),
        f("b", Type::Bool),
        f("a", Type::BNum),
        f("A", Type::Bool),
        f("", Type::Other(String::new())),
    ];
    lists(&all, 3).into_iter().map(FieldList).collect()
}

/// Few lists: nothing, one, the same twice, two orders.
fn few_fields() -> Vec<FieldList> {
    let a = Field::new("a", Type::Bool);
    let b = Field::new("b", Type::Option(Box::new(Type::Int32)));
    let c = Field::new("a", Type::List(Box::new(Type::Int32)));
    [vec![], vec![&a], vec![&b], vec![&c], vec![&a, &a], vec![&a, &b], vec![&b, &a], vec![&a, &c], vec![&a, &b, &a]]
        .into_iter()
        .map(|v| FieldList(v.into_iter().cloned().collect()))
        .collect()
}

fn some_contracts(engine: &Engine) -> Vec<Contract> {
    let few = few_fields();
    let transitions: Vec<(&str, usize)> = vec![("t", 0), ("t", 1), ("t", 5), ("u", 0), ("T", 1)];
    let ts = lists(&transitions, engine.pick(2, 3));
    let mut v = vec![];
    for (n, name) in ["C", "c", "", "CC"].iter().enumerate() {
        for (i, p) in few.iter().enumerate() {
            for (j, f) in few.iter().enumerate() {
                for (k, t) in ts.iter().enumerate() {
                    // All pairs of three parts, and the first of the fourth.
                    if n > 0 && (i > 2 || j > 2 || k > 3) || i > 2 && j > 2 && k > 5 {
                        continue;
                    }
                    v.push(Contract {
                        name: name.to_string(),
                        init_params: p.clone(),
                        fields: f.clone(),
                        transitions: TransitionList(t.iter().map(|(n, q)| Transition::new(n, few[*q].clone())).collect()),
                    });
                }
            }
        }
    }
    v
}

/// Lists hand out what they are made of.
fn list_access(engine: &Engine, fl: &FieldList) {
    engine.check("L", || {
        let (mut a, mut b) = (String::new(), String::new());
        read_fields(&fl.0, &mut a);
        read_fields(fl, &mut b);
        let mut built = FieldList::default();
        for f in fl.iter() {
            built.push(f.clone());
        }
        if a != b || read(&built.0, |v, o| read_fields(v, o)) != a || fl.len() != fl.0.len() {
            return Err(format!("{fl:?} hands out other entries"));
        }
        let t = Transition::new("t", fl.clone());
        if t.name != "t" || read(&t.params.0, |v, o| read_fields(v, o)) != a {
            return Err(format!("a transition made with {fl:?} is {t:?}"));
        }
        if fl.is_empty() {
            equality(&t, &Transition::new_without_param("t"), true)?;
        }
        for f in fl.iter() {
            let g = Field::new(&f.name, f.r#type.clone());
            if read(&g, read_field) != read(f, read_field) {
                return Err(format!("a field made like {f:?} is {g:?}"));
            }
        }
        let mut tl = TransitionList::default();
        tl.push(Transition::new("a", fl.clone()));
        tl.push(Transition::new("b", FieldList::default()));
        tl.push(Transition::new("a", fl.clone()));
        let names: Vec<&str> = tl.iter().map(|t| &*t.name).collect();
        if names != ["a", "b", "a"] || tl.0.len() != 3 {
            return Err(format!("{tl:?} hands out other entries"));
        }
        Ok(())
    });
}

// ---------------------------------------------------- histories, long values

/// All sequences of operations on lists, against a plain vector of names.
fn histories(engine: &Engine) {
    let depth = engine.pick(5, 7);
    let names = ["a", "b", "a ", ""];
    let field = |n: &str| Field::new(n, Type::Other(n.to_string()));
    let made = |n: &str| Transition::new(n, FieldList(vec![field(n)]));
    // Push one of four, give away a copy, remove the last, exchange, turn round,
    // put in front, move to a list of its own.
    const OPS: usize = 9;
    let total = OPS.pow(depth as u32);
    engine.note("histories_of_lists", total);
    engine.parallel(OPS * OPS, |first| {
        let rest = total / OPS / OPS;
        for r in 0..rest {
            let number = first * rest + r;
            let mut n = number;
            let ops: Vec<usize> = (0..depth).map(|_| { let o = n % OPS; n /= OPS; o }).collect();
            engine.check(&format!("h:{number}"), || {
                let (mut fl, mut tl, mut model) = (FieldList::default(), TransitionList::default(), Vec::<&str>::new());
                for op in &ops {
                    match op {
                        0..=3 => {
                            fl.push(field(names[*op]));
                            tl.push(made(names[*op]));
                            model.push(names[*op]);
                        }
                        4 => {
                            // What happens to a copy does not happen to the original.
                            let mut copy = fl.clone();
                            copy.push(field("copy"));
                            let last = copy.len() - 1;
                            copy.0.swap(0, last);
                            fl.push(field("b"));
                            tl.push(made("b"));
                            model.push("b");
                        }
                        5 => {
                            fl.0.pop();
                            tl.pop();
                            model.pop();
                        }
                        6 => {
                            fl.0.reverse();
                            tl.reverse();
                            model.reverse();
                        }
                        7 => {
                            fl.0.insert(0, field("f"));
                            tl.insert(0, made("f"));
                            model.insert(0, "f");
                        }
                        _ => {
                            let moved = std::mem::take(&mut tl.0);
                            tl = TransitionList(moved);
                            fl = FieldList(fl.iter().cloned().collect());
                        }
                    }
                    let want: Vec<Field> = model.iter().map(|n| field(n)).collect();
                    let (x, y) = (read(&fl.0, |v, o| read_fields(v, o)), read(&want, |v, o| read_fields(v, o)));
                    if x != y || fl.len() != model.len() || fl.first().map(|f| &*f.name) != model.first().copied() {
                        return Err(format!("{fl:?} after {ops:?}, which makes {model:?}"));
                    }
                    let names: Vec<&str> = tl.iter().map(|t| &*t.name).collect();
                    if names != model || tl.iter().any(|t| t.params.len() != 1 || t.params[0].name != t.name) {
                        return Err(format!("{tl:?} after {ops:?}, which makes {model:?}"));
                    }
                }
                Ok(())
            });
            stepped(depth);
        }
        tally(engine, rest as u64, rest as u64);
        engine.add("evaluations", rest as u64);
    });
}

/// Names of every length, lists of every length, types of every depth, which
/// differ in one place.
fn long_values(engine: &Engine) {
    let mut sizes = terms::lengths(engine.pick(136, 520));
    sizes.retain(|n| *n <= 4096);
    sizes.extend([65_535, 65_536, 65_537]);
    engine.parallel(sizes.len(), |i| {
        let n = sizes[i];
        let step = (n / 64).max(1);
        engine.check(&format!("N:{n}"), || {
            for c in ["x", "é", " ", "\u{1F980}", "\n", "\\"] {
                let name = c.repeat(n);
                let f = Field::new(&name, Type::Other(name.clone()));
                if f.name != name || !matches!(&f.r#type, Type::Other(t) if *t == name) || f.r#type.to_string() != name {
                    return Err(format!("a field of a name of {n} times {c:?} has another one"));
                }
                let t = Transition::new(&name, FieldList(vec![f.clone()]));
                if t.name != name || Transition::new_without_param(&name).name != name {
                    return Err(format!("a transition of a name of {n} times {c:?} has another one"));
                }
                copied(&f, read_field)?;
                // Another character in one place, one more, one less.
                let mut others: Vec<String> = (0..n).step_by(step).chain([n - 1]).map(|j| [&c.repeat(j), "y", &c.repeat(n - j - 1)].concat()).collect();
                others.push(c.repeat(n - 1));
                others.push(c.repeat(n + 1));
                for o in &others {
                    let g = Field::new(o, f.r#type.clone());
                    equality(&f, &g, false).map_err(|e| format!("names of {n} times {c:?} with one difference {e}"))?;
                    equality(&f.r#type, &Type::Other(o.clone()), false).map_err(|e| format!("types of {n} times {c:?} with one difference {e}"))?;
                    equality(&t, &Transition::new(o, t.params.clone()), false)
                        .map_err(|e| format!("transitions of {n} times {c:?} with one difference {e}"))?;
                    let (a, b) = (own_id(&name), own_id(o));
                    equality(&a, &b, false).map_err(|e| format!("tokens of {n} times {c:?} with one difference {e}"))?;
                }
            }
            Ok(())
        });
        engine.check(&format!("F:{n}"), || {
            let mut fl = FieldList::default();
            let mut tl = TransitionList::default();
            for j in 0..n {
                fl.push(Field::new(&format!("f{j}"), Type::ByStrX(j)));
                tl.push(Transition::new(&format!("t{j}"), FieldList(vec![Field::new("p", Type::ByStrX(j))])));
            }
            if fl.len() != n || fl.iter().enumerate().any(|(j, f)| f.name != format!("f{j}") || !matches!(f.r#type, Type::ByStrX(m) if m == j)) {
                return Err(format!("a list of {n} fields has {}, or other ones", fl.len()));
            }
            if tl.len() != n || tl.iter().enumerate().any(|(j, t)| t.name != format!("t{j}") || t.params.len() != 1) {
                return Err(format!("a list of {n} transitions has {}, or other ones", tl.len()));
            }
            copied(&fl, |l, o| read_fields(&l.0, o))?;
            let mut other = fl.clone();
            for j in (0..n).step_by(step).chain([n - 1]) {
                other.0[j].r#type = Type::ByStr;
                equality(&fl, &other, false).map_err(|e| format!("lists of {n} fields that differ in number {j} {e}"))?;
                other.0[j].r#type = Type::ByStrX(j);
                tl[j].params.0[0].name.push('q');
                let mut same = TransitionList::default();
                for t in tl.iter() {
                    same.push(Transition::new(&t.name, t.params.clone()));
                }
                equality(&tl, &same, true).map_err(|e| format!("equal lists of {n} transitions {e}"))?;
                same[j].params.0[0].name.pop();
                equality(&tl, &same, false).map_err(|e| format!("lists of {n} transitions that differ in number {j} {e}"))?;
                tl[j].params.0[0].name.pop();
                if n > 5000 && j > 0 {
                    break;
                }
            }
            equality(&fl, &other, true)
        });
        // Messages of every length, which say something at their end.
        engine.check(&format!("M:{n}"), || {
            for c in ["m", "é", "{}", "\n", "%"] {
                let m = format!("{}end", c.repeat(n));
                let (a, b) = (Error::ParseError(m.clone()), Error::AstVisitError(m.clone()));
                if !a.to_string().contains(&m) || !b.to_string().contains(&m) {
                    return Err(format!("an error with a message of {n} times {c:?} prints as {a} and {b}"));
                }
                let e = ParserError { message: m.clone(), line: n, column: n + 1 };
                if e.to_string() != format!("{m} (line {n}, column {})", n + 1) {
                    return Err(format!("an error with a message of {n} times {c:?} prints as {e}"));
                }
                let e: Error = std::io::Error::other(m.clone()).into();
                if e.to_string() != m {
                    return Err(format!("an error with a message of {n} times {c:?} prints as {e}"));
                }
            }
            Ok(())
        });
        // Types: one constructor over and over, and the innermost differs.
        engine.check(&format!("D:{n}"), || {
            if n > 600 {
                return Ok(());
            }
            for kind in 0..6 {
                let tower = |inner: Type| (0..n).fold(inner, |t, _| match kind {
                    0 => Type::Option(Box::new(t)),
                    1 => Type::List(Box::new(t)),
                    2 => Type::Pair(Box::new(t), Box::new(Type::Bool)),
                    3 => Type::Pair(Box::new(Type::Bool), Box::new(t)),
                    4 => Type::Map(Box::new(Type::Bool), Box::new(t)),
                    _ => Type::ByStr20With { type_name: "contract".into(), fields: FieldList(vec![Field::new("f", t)]) },
                });
                let (a, b) = (tower(Type::Int32), tower(Type::Uint32));
                equality(&a, &b, false).map_err(|e| format!("types of {n} levels that differ within {e}"))?;
                equality(&a, &tower(Type::Int32), true).map_err(|e| format!("equal types of {n} levels {e}"))?;
                copied(&a, read_type)?;
            }
            Ok(())
        });
        stepped(n);
        tally(engine, 4, 4);
        engine.add("evaluations", 4);
    });
}

fn own_id(s: &str) -> Token<String> {
    own(&Token::Identifier(s))
}

// -------------------------------------------------------------------- trees

/// A token sequence with what is to be changed about it.
#[derive(Clone)]
struct Sentence {
    ks: Kinds,
    /// Token that has another spelling.
    word: Option<usize>,
    /// Token from which on everything starts, or starts and ends, later.
    shift: Option<(usize, bool)>,
}

impl Sentence {
    fn case(&self) -> String {
        let n = |o: Option<usize>| o.map(|i| i.to_string()).unwrap_or_default();
        format!("{}/{}/{}/{}", encode(&self.ks), n(self.word), n(self.shift.map(|s| s.0)), n(self.shift.map(|s| s.1 as usize)))
    }

    fn of(s: &str) -> Option<Sentence> {
        let p: Vec<&str> = s.split('/').collect();
        let [ks, w, i, b] = p[..] else { return None };
        Some(Sentence {
            ks: decode(ks),
            word: w.parse().ok(),
            shift: i.parse().ok().map(|i| (i, b == "1")),
        })
    }

    fn items(&self) -> impl Iterator<Item = bridge::Item> + '_ {
        self.ks.iter().enumerate().map(|(i, k)| {
            // The same spelling for the same kind: trees differ only where they must.
            let mut text = terms::canon(*k).s;
            if self.word == Some(i) {
                text = terms::unique(*k, i + 1).s;
            }
            let later = |mut p: SourcePosition, s: bool| {
                if let Some((from, start)) = self.shift {
                    if i > from || i == from && (s == start || !s) {
                        p.column += 1;
                        p.position += 1;
                    }
                }
                p
            };
            Ok((later(start_of(i), true), bridge::tok_str(*k, text), later(end_of(i), false)))
        })
    }
}

type Compare = fn(&Engine, &str, &[Sentence]);

fn trees<T, F>(engine: &Engine, name: &str, list: &[Sentence], parse: F)
where
    T: Reflect + PartialEq + PartialOrd + Clone + Debug,
    F: Fn(&Sentence) -> Option<T>,
{
    let all: Vec<(&Sentence, T, String)> = list
        .iter()
        .filter_map(|s| {
            let t = parse(s)?;
            let mut o = String::new();
            read_tree(&t.reflect(), &mut o);
            Some((s, t, o))
        })
        .collect();
    for (i, (s, a, x)) in all.iter().enumerate() {
        engine.check(&format!("p:{name}\u{1}{}", s.case()), || {
            copied(a, |t, o| read_tree(&t.reflect(), o))?;
            let again = parse(s).ok_or("parsed once, but not twice")?;
            equality(a, &again, true).map_err(|e| format!("two trees of the same tokens {e}"))
        });
        for (r, b, y) in &all[i + 1..] {
            if let Err(e) = equality(a, b, x == y).and_then(|_| ordering(a, b, x == y).map(|_| ())) {
                engine.violation(format!("p:{name}\u{1}{}\u{1}{}", s.case(), r.case()), format!("{a:?} and {b:?} {e}"));
                return;
            }
        }
    }
    let n = (all.len() * (all.len() + 1) / 2) as u64;
    tally(engine, all.len() as u64, n);
    engine.add("evaluations", n);
}

macro_rules! compare {
    ($($name:ident $parser:ident),* $(,)?) => {
        &[$( (stringify!($name), |engine, name, list| {
            trees(engine, name, list, |s| {
                let mut errors = vec![];
                parser::$parser::new().parse(&mut errors, s.items()).ok()
            });
        }) ),*]
    };
}

static TABLE: &[(&str, Compare)] = with_starts!(compare);

/// Everything that differs from a sentence in one place.
fn variants(g: &Grammar, name: &str, ks: &Kinds, kinds: bool) -> Vec<Sentence> {
    let base = Sentence { ks: ks.clone(), word: None, shift: None };
    let mut v = vec![base.clone()];
    for i in 0..ks.len() {
        v.push(Sentence { shift: Some((i, true)), ..base.clone() });
        v.push(Sentence { shift: Some((i, false)), ..base.clone() });
        if terms::has_payload(ks[i]) {
            v.push(Sentence { word: Some(i), ..base.clone() });
        }
        if kinds {
            for k in 0..NTERMS as K {
                let mut other = ks.clone();
                other[i] = k;
                if k != ks[i] && sentence(g, name, &other) {
                    v.push(Sentence { ks: other, ..base.clone() });
                }
            }
        }
    }
    v
}

fn sentence(g: &Grammar, name: &str, ks: &[K]) -> bool {
    let mut s = g.begin(g.id(name));
    ks.iter().all(|k| g.push(&mut s, *k)) && s.accepts()
}

// ------------------------------------------------------------------- errors

fn errors(engine: &Engine) {
    for m in ["", "x", "two\nlines", "é \"quoted\" {} {0}", "InvalidToken"] {
        engine.check("E", || {
            let e = Error::ParseError(m.into());
            if !e.to_string().contains(m) || !matches!(&e, Error::ParseError(s) if s == m) {
                return Err(format!("{e:?} prints as {e}"));
            }
            let e = Error::AstVisitError(m.into());
            if !e.to_string().contains(m) {
                return Err(format!("{e:?} prints as {e}"));
            }
            for (line, column) in [(0, 0), (1, 2), (usize::MAX, 7), (3, usize::MAX)] {
                let e = ParserError { message: m.into(), line, column };
                if e.to_string() != format!("{m} (line {line}, column {column})") {
                    return Err(format!("{e:?} prints as {e}"));
                }
            }
            Ok(())
        });
        engine.add("evaluations", 6);
    }
    engine.check("E", || {
        let e: Error = String::from_utf8(vec![b'a', 0xff]).unwrap_err().into();
        let want = String::from_utf8(vec![b'a', 0xff]).unwrap_err().to_string();
        if e.to_string() != want || !matches!(e, Error::FromUtf8Error(_)) {
            return Err(format!("{e:?} prints as {e}"));
        }
        for kind in [std::io::ErrorKind::NotFound, std::io::ErrorKind::InvalidData, std::io::ErrorKind::PermissionDenied] {
            let e: Error = std::io::Error::new(kind, "why").into();
            if e.to_string() != "why" || !matches!(&e, Error::IoError(i) if i.kind() == kind) {
                return Err(format!("{e:?} prints as {e}"));
            }
        }
        Ok(())
    });
    tally(engine, 9, 9);
}

// ---------------------------------------------------------------------- run

pub fn run(engine: &Engine) {
    engine.alone(|| {
        all_tokens(engine);
        errors(engine);
        for f in some_fields() {
            list_access(engine, &f);
        }
    });
    all_positions(engine);
    histories(engine);
    long_values(engine);
    engine.progress("tokens and positions");

    let ts = some_types(engine);
    pairs(engine, "y", &ts, read_type);
    engine.parallel(ts.len(), |i| {
        engine.check(&format!("y:{i}"), || {
            copied(&ts[i], read_type)?;
            copied(&Field::new("f", ts[i].clone()), read_field)?;
            // What a contract reports equals what is built by hand.
            Ok(())
        });
        tally(engine, 1, 2);
    });
    engine.progress("types");
    let fs = some_fields();
    pairs(engine, "l", &fs, |l, o| read_fields(&l.0, o));
    let single: Vec<Field> = fs.iter().flat_map(|l| l.0.iter().cloned()).take(500).collect();
    pairs(engine, "f", &single, read_field);
    let transitions: Vec<Transition> =
        ["t", "u", "", "T"].iter().flat_map(|n| fs.iter().map(|l| Transition::new(n, l.clone())).collect::<Vec<_>>()).collect();
    pairs(engine, "t", &transitions, read_transition);
    let cs = some_contracts(engine);
    pairs(engine, "c", &cs, read_contract);
    let lists: Vec<TransitionList> = some_contracts(engine).into_iter().take(300).map(|c| c.transitions).collect();
    pairs(engine, "s", &lists, |l, o| l.0.iter().for_each(|t| read_transition(t, o)));
    engine.progress("contracts");

    // Trees: each sentence against everything that differs in one place, and
    // all sentences against each other.
    let g = Grammar::scilla();
    for (name, compare) in TABLE {
        let list = g.covering(g.id(name), engine.pick(2, 3));
        engine.parallel(list.len(), |i| {
            stepped(list[i].len());
            let v = variants(g, name, &list[i], list[i].len() <= engine.pick(20, 40));
            engine.case(&format!("v:{name}:{}", encode(&list[i])), || compare(engine, name, &v));
        });
        let all: Vec<Sentence> = g
            .covering(g.id(name), 2)
            .into_iter()
            .chain(g.repeats(g.id(name), 2))
            .take(engine.pick(1500, 6000))
            .map(|ks| Sentence { ks, word: None, shift: None })
            .collect();
        let chunk = 60;
        let n = all.len().div_ceil(chunk);
        // Chunks against chunks, so that the work can be shared.
        engine.parallel(n * n, |i| {
            let (a, b) = (i / n, i % n);
            if a < b {
                let mut v: Vec<Sentence> = all.iter().skip(a * chunk).take(chunk).cloned().collect();
                v.extend(all.iter().skip(b * chunk).take(chunk).cloned());
                engine.case(&format!("c:{name}"), || compare(engine, name, &v));
            } else if n == 1 {
                engine.case(&format!("c:{name}"), || compare(engine, name, &all));
            }
        });
    }
    engine.sample(bridge::show(&g.covering(g.id("Statement"), 1)[0]));
    engine.progress("trees");
}

pub fn replay(engine: &Engine, case: &str) {
    let Some((tag, r)) = case.split_once(':') else { return run(engine) };
    let p: Vec<&str> = r.split('\u{1}').collect();
    match (tag, &p[..]) {
        ("p", [name, sentences @ ..]) => {
            if let Some((_, compare)) = TABLE.iter().find(|t| t.0 == *name) {
                let v: Vec<Sentence> = sentences.iter().filter_map(|s| Sentence::of(s)).collect();
                compare(engine, name, &v);
            }
        }
        _ => run(engine),
    }
}
