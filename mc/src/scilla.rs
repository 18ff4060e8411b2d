//! Reference model of contract interfaces: types, what an annotation denotes,
//! the ways of writing a type, and contracts with their interface.

use crate::reflex::Lexeme;
use crate::terms;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    /// Int32 ... Uint256, String, BNum, Bool, ByStr
    Prim(&'static str),
    ByStrN(usize),
    Map(Box<Ty>, Box<Ty>),
    Option(Box<Ty>),
    List(Box<Ty>),
    Pair(Box<Ty>, Box<Ty>),
    Addr(String, Vec<(String, Ty)>),
    Other(String),
}

pub const PRIMS: &[&str] = &[
    "Int32", "Int64", "Int128", "Int256", "Uint32", "Uint64", "Uint128", "Uint256", "String", "BNum", "Bool",
    "ByStr",
];

/// What an annotation denotes.
#[derive(Clone, PartialEq, Debug)]
pub enum Denotes {
    Ty(Ty),
    /// No storable type.
    Nothing,
    /// The language does not say.
    Unspecified,
}

#[derive(Debug)]
enum Raw {
    Name(String, Vec<Raw>),
    Map(Box<Raw>, Box<Raw>),
    Addr(String, String, Vec<(String, Raw)>),
    NotStorable,
}

struct P<'a> {
    text: &'a str,
    toks: &'a [Lexeme],
    i: usize,
}

impl P<'_> {
    fn k(&self, d: usize) -> Option<&'static str> {
        self.toks.get(self.i + d).map(|t| terms::name(t.k))
    }
    fn s(&self) -> &str {
        let t = &self.toks[self.i];
        &self.text[t.start..t.end]
    }
    fn eat(&mut self, k: &str) -> Option<()> {
        if self.k(0) == Some(k) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn is_type_name(&self, d: usize) -> bool {
        matches!(self.k(d), Some("BYSTRN" | "Event" | "CID"))
    }
    fn take(&mut self) -> String {
        let s = self.s().to_string();
        self.i += 1;
        s
    }
    fn starts_meta(&self) -> bool {
        self.is_type_name(0) || matches!(self.k(0), Some("HEX" | "ByStr"))
    }
    fn starts_address(&self) -> bool {
        self.is_type_name(0) && self.k(1) == Some("with")
    }
    fn meta(&mut self) -> Option<String> {
        if self.eat("ByStr").is_some() {
            return Some("ByStr".into());
        }
        if !self.starts_meta() {
            return None;
        }
        let hex = self.k(0) == Some("HEX");
        let mut s = self.take();
        if self.k(0) == Some(".") {
            self.i += 1;
            if !self.is_type_name(0) {
                return None;
            }
            s = format!("{s}.{}", self.take());
        } else if hex {
            return None;
        }
        Some(s)
    }
    fn variable(&mut self) -> Option<String> {
        if matches!(self.k(0), Some("ID" | "SPID")) {
            return Some(self.take());
        }
        if self.is_type_name(0) {
            let a = self.take();
            self.eat(".")?;
            if self.k(0) != Some("ID") {
                return None;
            }
            return Some(format!("{a}.{}", self.take()));
        }
        None
    }
    fn ty(&mut self) -> Option<Raw> {
        let t = self.simple()?;
        if self.k(0) == Some("->") {
            while self.eat("->").is_some() {
                self.simple()?;
            }
            return Some(Raw::NotStorable);
        }
        Some(t)
    }
    fn simple(&mut self) -> Option<Raw> {
        match self.k(0)? {
            "Map" => self.map(),
            "(" => {
                self.i += 1;
                let t = self.ty()?;
                self.eat(")")?;
                Some(t)
            }
            "forall" => {
                self.i += 1;
                self.eat("TID")?;
                self.eat(".")?;
                self.simple()?;
                Some(Raw::NotStorable)
            }
            "TID" => {
                self.i += 1;
                Some(Raw::NotStorable)
            }
            _ if self.starts_address() => self.address(),
            _ => {
                let n = self.meta()?;
                let mut args = vec![];
                loop {
                    args.push(match self.k(0) {
                        Some("(") => {
                            self.i += 1;
                            let t = self.ty()?;
                            self.eat(")")?;
                            t
                        }
                        Some("TID") => {
                            self.i += 1;
                            Raw::NotStorable
                        }
                        Some("Map") => self.map()?,
                        Some(_) if self.starts_address() => self.address()?,
                        Some(_) if self.starts_meta() => Raw::Name(self.meta()?, vec![]),
                        _ => break,
                    });
                }
                Some(Raw::Name(n, args))
            }
        }
    }
    fn map(&mut self) -> Option<Raw> {
        self.eat("Map")?;
        let k = self.key()?;
        let v = self.value()?;
        Some(Raw::Map(Box::new(k), Box::new(v)))
    }
    fn key(&mut self) -> Option<Raw> {
        if self.eat("(").is_some() {
            let t = self.bare_key()?;
            self.eat(")")?;
            return Some(t);
        }
        self.bare_key()
    }
    fn bare_key(&mut self) -> Option<Raw> {
        if self.starts_address() {
            self.address()
        } else {
            Some(Raw::Name(self.meta()?, vec![]))
        }
    }
    fn value(&mut self) -> Option<Raw> {
        match self.k(0)? {
            "Map" => self.map(),
            "(" => {
                self.i += 1;
                let t = self.value_with_args()?;
                self.eat(")")?;
                Some(t)
            }
            _ => self.bare_key(),
        }
    }
    fn value_with_args(&mut self) -> Option<Raw> {
        if !self.starts_meta() || self.starts_address() {
            return self.value();
        }
        let n = self.meta()?;
        let mut args = vec![];
        loop {
            args.push(match self.k(0) {
                Some("(") => {
                    self.i += 1;
                    let t = self.value_with_args()?;
                    self.eat(")")?;
                    t
                }
                Some("Map") => self.map()?,
                Some(_) if self.starts_meta() && !self.starts_address() => Raw::Name(self.meta()?, vec![]),
                _ => break,
            });
        }
        Some(Raw::Name(n, args))
    }
    fn address(&mut self) -> Option<Raw> {
        let base = self.take();
        self.eat("with")?;
        let mut kind = String::new();
        let mut fields = vec![];
        match self.k(0)? {
            "contract" => {
                kind = self.take();
                while self.k(0) == Some("field") {
                    self.i += 1;
                    let n = self.variable()?;
                    self.eat(":")?;
                    fields.push((n, self.ty()?));
                    if self.eat(",").is_none() {
                        break;
                    }
                }
            }
            "library" | "SPID" => kind = self.take(),
            _ => (),
        }
        self.eat("end")?;
        Some(Raw::Addr(base, kind, fields))
    }
}

fn denote(r: &Raw) -> Denotes {
    use Denotes::*;
    macro_rules! get {
        ($e:expr) => {
            match denote($e) {
                Ty(t) => t,
                d => return d,
            }
        };
    }
    match r {
        Raw::NotStorable => Nothing,
        Raw::Map(k, v) => Ty(self::Ty::Map(Box::new(get!(k)), Box::new(get!(v)))),
        Raw::Addr(base, kind, fields) => {
            if base != "ByStr20" {
                let digits = base.strip_prefix("ByStr").unwrap_or("");
                return if digits.parse() == Ok(20) { Unspecified } else { Nothing };
            }
            let mut f = vec![];
            for (n, t) in fields {
                f.push((n.clone(), get!(t)));
            }
            Ty(self::Ty::Addr(kind.clone(), f))
        }
        Raw::Name(n, args) => {
            let mut a = vec![];
            let mut unspecified = false;
            for x in args {
                match denote(x) {
                    Ty(t) => a.push(t),
                    Nothing => return Nothing,
                    Unspecified => unspecified = true,
                }
            }
            let arity = match n.as_str() {
                "Option" | "List" => Some(1),
                "Pair" => Some(2),
                n if PRIMS.contains(&n) => Some(0),
                n => n
                    .strip_prefix("ByStr")
                    .filter(|d| d.bytes().all(|b| b.is_ascii_digit()))
                    .map(|_| 0),
            };
            if arity.is_some_and(|m| m != args.len()) {
                return Nothing;
            }
            if unspecified {
                return Unspecified;
            }
            let mut a = a.into_iter().map(Box::new);
            let mut next = || a.next().unwrap();
            Ty(match n.as_str() {
                "Option" => self::Ty::Option(next()),
                "List" => self::Ty::List(next()),
                "Pair" => self::Ty::Pair(next(), next()),
                _ => match PRIMS.iter().find(|p| *p == n) {
                    Some(p) => self::Ty::Prim(p),
                    None if arity == Some(0) => match n[5..].parse() {
                        Ok(x) => self::Ty::ByStrN(x),
                        Err(_) => return Unspecified,
                    },
                    None => self::Ty::Other(n.clone()),
                },
            })
        }
    }
}

/// What the annotation `text[toks]` denotes; None if it is no annotation.
pub fn denotes(text: &str, toks: &[Lexeme]) -> Option<Denotes> {
    let mut p = P { text, toks, i: 0 };
    let r = p.ty()?;
    if p.i != toks.len() {
        return None;
    }
    Some(denote(&r))
}

/// Depth-first enumeration of all sequences of choices.
#[derive(Default)]
pub struct Chooser {
    path: Vec<(u32, u32)>,
    at: usize,
    last: bool,
}

impl Chooser {
    /// Chooses the last alternative everywhere.
    pub fn all_last() -> Chooser {
        Chooser {
            last: true,
            ..Chooser::default()
        }
    }
    pub fn choose(&mut self, n: u32) -> u32 {
        if self.last {
            return n - 1;
        }
        if self.at == self.path.len() {
            self.path.push((0, n));
        }
        let c = self.path[self.at].0;
        self.at += 1;
        c
    }
    /// Next sequence, if any.
    pub fn advance(&mut self) -> bool {
        self.at = 0;
        while let Some((c, n)) = self.path.pop() {
            if c + 1 < n {
                self.path.push((c + 1, n));
                return true;
            }
        }
        false
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Ctx {
    /// A whole annotation, or the inside of parentheses there.
    Top,
    Arg,
    Key,
    Val,
    /// Inside parentheses of a map value.
    ValTop,
    ValArg,
}

impl Ty {
    /// Writes the type with the parentheses chosen.
    pub fn write(&self, c: &mut Chooser) -> String {
        self.emit(Ctx::Top, c, 1)
    }

    fn emit(&self, ctx: Ctx, c: &mut Chooser, extra: u32) -> String {
        let applied = matches!(self, Ty::Option(_) | Ty::List(_) | Ty::Pair(..));
        let addr = matches!(self, Ty::Addr(..));
        let must = match ctx {
            Ctx::Top | Ctx::ValTop => false,
            Ctx::Arg | Ctx::Key | Ctx::Val => applied,
            Ctx::ValArg => applied || addr,
        };
        let paren = must || (extra > 0 && c.choose(2) == 1);
        if paren {
            let inner = match ctx {
                Ctx::Top | Ctx::Arg => Ctx::Top,
                Ctx::Key => return format!("({})", self.body(Ctx::Key, c)),
                _ => Ctx::ValTop,
            };
            return format!("({})", self.emit(inner, c, 0));
        }
        self.body(ctx, c)
    }

    fn body(&self, ctx: Ctx, c: &mut Chooser) -> String {
        // Inside a map value, arguments have a narrower syntax.
        let arg = match ctx {
            Ctx::Val | Ctx::ValTop | Ctx::ValArg => Ctx::ValArg,
            _ => Ctx::Arg,
        };
        match self {
            Ty::Prim(s) => s.to_string(),
            Ty::ByStrN(n) => format!("ByStr{n}"),
            Ty::Other(s) => s.clone(),
            Ty::Option(t) => format!("Option {}", t.emit(arg, c, 1)),
            Ty::List(t) => format!("List {}", t.emit(arg, c, 1)),
            Ty::Pair(a, b) => format!("Pair {} {}", a.emit(arg, c, 1), b.emit(arg, c, 1)),
            Ty::Map(k, v) => format!("Map {} {}", k.emit(Ctx::Key, c, 1), v.emit(Ctx::Val, c, 1)),
            Ty::Addr(kind, fields) => {
                let f: Vec<String> = fields
                    .iter()
                    .map(|(n, t)| format!("field {n} : {}", t.emit(Ctx::Top, c, 1)))
                    .collect();
                format!("ByStr20 with {kind} {} end", f.join(", "))
            }
        }
    }

    pub fn depth(&self) -> usize {
        match self {
            Ty::Prim(_) | Ty::ByStrN(_) | Ty::Other(_) => 0,
            Ty::Option(t) | Ty::List(t) => 1 + t.depth(),
            Ty::Pair(a, b) | Ty::Map(a, b) => 1 + a.depth().max(b.depth()),
            Ty::Addr(_, f) => 1 + f.iter().map(|(_, t)| t.depth()).max().unwrap_or(0),
        }
    }
}

fn b(t: &Ty) -> Box<Ty> {
    Box::new(t.clone())
}

/// Every leaf type that behaves differently.
pub fn leaves() -> Vec<Ty> {
    let mut v: Vec<Ty> = PRIMS.iter().map(|p| Ty::Prim(p)).collect();
    for n in [20, 0, 1, 2, 19, 21, 32, 64, 200, 2020, 4294967296] {
        v.push(Ty::ByStrN(n));
    }
    for n in [
        "Event", "T", "Unit", "Nat", "Optional", "Lists", "Pairs", "Mapp", "Int", "Int33", "Uint", "Strings", "Boolean",
        "BNumber", "ByStrX", "ByStr_1", "ByStr20_", "Lib.T", "Lib.Option", "Lib.Int32", "Lib.ByStr20", "ByStr20.T", "Event.Event", "0x12.T", "0xABcd.ByStr20", "A0_b",
        "Int32.Bool", "Message", "Contract", "Type",
    ] {
        v.push(Ty::Other(n.into()));
    }
    v
}

/// Types one constructor above the given ones; map keys from `keys`.
pub fn grow(subs: &[Ty], keys: &[Ty], pairs: &[Ty]) -> Vec<Ty> {
    let mut v = vec![];
    for t in subs {
        v.push(Ty::Option(b(t)));
        v.push(Ty::List(b(t)));
        for u in pairs {
            v.push(Ty::Pair(b(t), b(u)));
            if t != u {
                v.push(Ty::Pair(b(u), b(t)));
            }
        }
        for k in keys {
            v.push(Ty::Map(b(k), b(t)));
        }
        v.push(Ty::Addr("contract".into(), vec![("f".into(), t.clone())]));
        v.push(Ty::Addr(
            "contract".into(),
            vec![("f".into(), t.clone()), ("_this".into(), pairs[0].clone())],
        ));
        v.push(Ty::Addr(
            "contract".into(),
            vec![("Lib.x".into(), pairs[0].clone()), ("f".into(), t.clone())],
        ));
    }
    v.sort_by_cached_key(|t| format!("{t:?}"));
    v.dedup();
    v
}

pub fn addresses() -> Vec<Ty> {
    let mut v = vec![];
    for k in ["", "contract", "library", "_codehash", "_x"] {
        v.push(Ty::Addr(k.into(), vec![]));
    }
    v
}

/// All types up to a depth over a few leaves.
pub fn types(depth: usize) -> Vec<Ty> {
    let few = vec![
        Ty::Prim("Uint128"),
        Ty::ByStrN(20),
        Ty::Other("T".into()),
    ];
    let keys = |subs: &[Ty]| -> Vec<Ty> {
        let mut k = vec![Ty::ByStrN(20), Ty::Other("Lib.T".into())];
        k.extend(addresses().into_iter().take(2));
        k.extend(
            subs.iter()
                .filter(|t| matches!(t, Ty::Addr(_, f) if f.len() == 1))
                .take(3)
                .cloned(),
        );
        k
    };
    let mut all = few.clone();
    all.extend(addresses());
    let d1 = grow(&all.clone(), &keys(&[]), &few);
    all.extend(d1);
    if depth >= 2 {
        let base = all.clone();
        let d2 = grow(&base, &keys(&base), &base);
        all.extend(d2);
    }
    if depth >= 3 {
        let base = all.clone();
        let d3 = grow(&base, &keys(&base), &few);
        all.extend(d3);
    }
    all.sort_by_cached_key(|t| (t.depth(), format!("{t:?}")));
    all.dedup();
    all
}

/// Names of an annotation with the number of arguments each is given, in
/// source order of the names.
pub fn applications(text: &str, toks: &[Lexeme]) -> Vec<(String, usize)> {
    fn walk(r: &Raw, out: &mut Vec<(String, usize)>) {
        match r {
            Raw::NotStorable => (),
            Raw::Name(n, a) => {
                out.push((n.clone(), a.len()));
                a.iter().for_each(|x| walk(x, out));
            }
            Raw::Map(k, v) => {
                walk(k, out);
                walk(v, out);
            }
            Raw::Addr(b, _, f) => {
                out.push((b.clone(), usize::MAX));
                f.iter().for_each(|(_, t)| walk(t, out));
            }
        }
    }
    let mut p = P { text, toks, i: 0 };
    let mut out = vec![];
    if let Some(r) = p.ty() {
        walk(&r, &mut out);
    }
    out
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::grammar::Grammar;
    use crate::reflex::tokenize;

    #[test]
    fn written_types_denote_themselves() {
        let g = Grammar::scilla();
        let mut n = 0;
        let mut ts = leaves();
        ts.extend(types(2));
        println!("{} types, depth 3: {}", ts.len(), types(3).len());
        for t in ts {
            let mut c = Chooser::default();
            loop {
                let s = t.write(&mut c);
                let toks = tokenize(&s);
                assert_eq!(denotes(&s, &toks), Some(Denotes::Ty(t.clone())), "{s}");
                let mut st = g.begin(g.id("ScillaType"));
                for l in &toks {
                    assert!(g.push(&mut st, l.k), "{s}");
                }
                assert!(st.accepts(), "{s}");
                n += 1;
                if !c.advance() {
                    break;
                }
            }
        }
        println!("{n} spellings");
    }

    #[test]
    fn reference_type_parser_is_the_grammar() {
        // Every sentence of the search denotes something.
        let g = Grammar::scilla();
        let mut seen = std::collections::HashSet::new();
        let mut l = crate::grammar::first_level(g, g.id("ScillaType"));
        let mut n = 0;
        for _ in 0..8 {
            for (ks, st) in l.prefixes.iter().chain(&l.merged) {
                let mut v = ks.clone();
                v.extend(g.complete(st));
                let text = terms::text(&v.iter().enumerate().map(|(i, k)| terms::unique(*k, i)).collect::<Vec<_>>());
                assert!(denotes(&text, &tokenize(&text)).is_some(), "{text}");
                n += 1;
                if !st.accepts() && !ks.is_empty() {
                    let text = terms::text(&ks.iter().enumerate().map(|(i, k)| terms::unique(*k, i)).collect::<Vec<_>>());
                    assert!(denotes(&text, &tokenize(&text)).is_none(), "{text}");
                }
            }
            l = crate::grammar::next_level(g, &l, 0, 1, &mut seen);
        }
        println!("{n} sentences");
    }
}

/// Towers of types: every pair of constructors alternating, at each of the
/// depths, and addresses of each of the lengths.
pub fn towers(depths: &[usize], lengths: &[usize]) -> Vec<Ty> {
    let shapes: &[fn(Ty) -> Ty] = &[
        |t| Ty::Option(Box::new(t)),
        |t| Ty::List(Box::new(t)),
        |t| Ty::Pair(Box::new(t), Box::new(Ty::Prim("Int32"))),
        |t| Ty::Pair(Box::new(Ty::Prim("Bool")), Box::new(t)),
        |t| Ty::Map(Box::new(Ty::ByStrN(20)), Box::new(t)),
        |t| Ty::Map(Box::new(Ty::Addr("contract".into(), vec![("k".into(), t)])), Box::new(Ty::Prim("Bool"))),
        |t| Ty::Addr("contract".into(), vec![("f".into(), t)]),
        |t| {
            let f = |n: &str, t| (n.to_string(), t);
            Ty::Addr("contract".into(), vec![f("f", Ty::Prim("BNum")), f("g", t), f("h", Ty::ByStrN(7))])
        },
    ];
    let mut out = vec![];
    for d in depths {
        for a in shapes {
            for b in shapes {
                let mut t = Ty::Other("T".into());
                for i in 0..*d {
                    t = if i % 2 == 0 { a(t) } else { b(t) };
                }
                out.push(t);
            }
        }
    }
    for n in lengths {
        let elements = [Ty::Prim("Bool"), Ty::Option(Box::new(Ty::ByStrN(20))), Ty::Addr("".into(), vec![]), Ty::Other("T".into())];
        let fields = (0..*n).map(|i| (format!("f{i}"), elements[i % 4].clone())).collect();
        out.push(Ty::Addr("contract".into(), fields));
    }
    out
}
