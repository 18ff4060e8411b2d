//! The reference grammar (the documented EBNF of the language), turned into an
//! epsilon-free BNF, an incremental recogniser (Earley, kernel items only) and
//! exhaustive generators.
//!
//! A state of the recogniser after a prefix is its set of unfinished kernel
//! items, each with the state it started in: the stack of a pushdown
//! automaton. Two prefixes with equal signatures have the same continuations.

use crate::terms::{self, K, NTERMS};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

pub const EBNF: &str = r#"
ByteString = BYSTRN
TypeNameIdentifier = ByteString | 'Event' | CID
ImportedName = TypeNameIdentifier ('as' TypeNameIdentifier)?
ImportDeclarations = 'import' ImportedName+ ('import' ImportedName)*
MetaIdentifier = TypeNameIdentifier | TypeNameIdentifier '.' TypeNameIdentifier | HEX '.' TypeNameIdentifier | 'ByStr'
VariableIdentifier = ID | SPID | TypeNameIdentifier '.' ID
BuiltinArguments = VariableIdentifier+ | '(' ')'
ScillaType = SimpleType ('->' SimpleType)*
SimpleType_ = MetaIdentifier TypeArgument* | 'Map' TypeMapKey TypeMapValue | '(' ScillaType ')' | AddressType | 'forall' TID '.' SimpleType | TID
SimpleType = SimpleType_
TypeArgument = '(' ScillaType ')' | MetaIdentifier | TID | AddressType | 'Map' TypeMapKey TypeMapValue
AddressType = TypeNameIdentifier 'with' ('contract' (AddressTypeField (',' AddressTypeField)*)? | 'library' | SPID)? 'end'
AddressTypeField = 'field' VariableIdentifier ':' ScillaType
TypeMapKey = MetaIdentifier | '(' MetaIdentifier ')' | '(' AddressType ')' | AddressType
TypeMapValue = MetaIdentifier | 'Map' TypeMapKey TypeMapValue | '(' TypeMapValueAllowingTypeArguments ')' | AddressType
TypeMapValueArguments = '(' TypeMapValueAllowingTypeArguments ')' | MetaIdentifier | 'Map' TypeMapKey TypeMapValue
TypeMapValueAllowingTypeArguments = MetaIdentifier TypeMapValueArguments+ | TypeMapValue
Program = 'scilla_version' NUM ImportDeclarations? LibraryDefinition? ContractDefinition
LibraryDefinition = 'library' TypeNameIdentifier LibrarySingleDefinition*
LibrarySingleDefinition = 'let' ID TypeAnnotation? '=' FullExpression | 'type' TypeNameIdentifier ('=' TypeAlternativeClause+)?
TypedIdentifier = ID TypeAnnotation
TypeAnnotation = ':' ScillaType
TypeAlternativeClause = '|' TypeNameIdentifier ('of' TypeArgument+)?
ContractTypeArguments = '{' TypeArgument* '}'
FullExpression = 'let' ID TypeAnnotation? '=' FullExpression 'in' FullExpression | 'fun' '(' ID TypeAnnotation ')' '=>' FullExpression | VariableIdentifier VariableIdentifier+ | AtomicExpression | 'builtin' ID ContractTypeArguments? BuiltinArguments | '{' MessageEntry (';' MessageEntry)* '}' | 'match' VariableIdentifier 'with' PatternMatchExpressionClause+ 'end' | MetaIdentifier ContractTypeArguments? VariableIdentifier* | 'tfun' TID '=>' FullExpression | '@' VariableIdentifier TypeArgument+
PatternMatchExpressionClause = '|' Pattern '=>' FullExpression
Pattern = '_' | ID | MetaIdentifier ArgumentPattern*
ArgumentPattern = '_' | ID | MetaIdentifier | '(' Pattern ')'
MessageEntry = VariableIdentifier ':' (ValueLiteral | VariableIdentifier)
AtomicExpression = VariableIdentifier | ValueLiteral
ValueLiteral = TypeNameIdentifier NUM | HEX | STR | 'Emp' TypeMapKey TypeMapValue
Statement = ID '<-' VariableIdentifier | RemoteFetchStatement | ID ':=' VariableIdentifier | ID '=' FullExpression | ID '<-' '&' TypeNameIdentifier BlockchainFetchArguments? | ID '<-' ID MapAccess+ | ID '<-' 'exists' ID MapAccess+ | ID MapAccess+ ':=' VariableIdentifier | 'delete' ID MapAccess+ | 'accept' | 'send' VariableIdentifier | 'event' VariableIdentifier | 'throw' VariableIdentifier? | 'match' VariableIdentifier 'with' PatternMatchClause+ 'end' | ComponentId VariableIdentifier* | 'forall' VariableIdentifier ComponentId
StatementBlock = Statement (';' Statement)*
BlockchainFetchArguments = '(' VariableIdentifier+ ')'
ComponentId = TypeNameIdentifier | ID
PatternMatchClause = '|' Pattern '=>' StatementBlock?
RemoteFetchStatement = ID '<-' '&' ID '.' VariableIdentifier | ID '<-' '&' SPID '.' SPID | ID '<-' '&' ID '.' ID MapAccess+ | ID '<-' '&' 'exists' ID '.' ID MapAccess+ | ID '<-' '&' VariableIdentifier 'as' AddressType
MapAccess = '[' VariableIdentifier ']'
ParameterPair = TypedIdentifier
ComponentParameters = '(' (ParameterPair (',' ParameterPair)*)? ')'
ComponentDefinition = TransitionDefinition | ProcedureDefinition
TransitionDefinition = 'transition' ComponentId ComponentParameters ComponentBody
ProcedureDefinition = 'procedure' ComponentId ComponentParameters ComponentBody
ComponentBody = StatementBlock? 'end'
ContractDefinition = 'contract' TypeNameIdentifier ComponentParameters WithConstraint? ContractField* ComponentDefinition*
ContractField = 'field' TypedIdentifier '=' FullExpression
WithConstraint = 'with' FullExpression '=>'
"#;

/// Constructs the crate exposes a parser for.
pub const STARTS: &[&str] = &[
    "ByteString",
    "TypeNameIdentifier",
    "ImportedName",
    "ImportDeclarations",
    "MetaIdentifier",
    "VariableIdentifier",
    "BuiltinArguments",
    "ScillaType",
    "TypeArgument",
    "AddressType",
    "AddressTypeField",
    "TypeMapKey",
    "TypeMapValue",
    "TypeMapValueArguments",
    "TypeMapValueAllowingTypeArguments",
    "Program",
    "LibraryDefinition",
    "LibrarySingleDefinition",
    "TypedIdentifier",
    "TypeAnnotation",
    "TypeAlternativeClause",
    "ContractTypeArguments",
    "FullExpression",
    "PatternMatchExpressionClause",
    "Pattern",
    "ArgumentPattern",
    "MessageEntry",
    "AtomicExpression",
    "ValueLiteral",
    "Statement",
    "StatementBlock",
    "BlockchainFetchArguments",
    "ComponentId",
    "PatternMatchClause",
    "RemoteFetchStatement",
    "MapAccess",
    "ParameterPair",
    "ComponentParameters",
    "ComponentDefinition",
    "TransitionDefinition",
    "ProcedureDefinition",
    "ComponentBody",
    "ContractDefinition",
    "ContractField",
    "WithConstraint",
];

/// Bit of the set of expected terminals that stands for "may end here".
pub const EOF_BIT: u64 = 1 << 62;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Sym {
    T(K),
    N(u16),
}

#[derive(Clone, Debug)]
enum Ex {
    Alt(Vec<Ex>),
    Seq(Vec<Ex>),
    Opt(Box<Ex>),
    Star(Box<Ex>),
    Plus(Box<Ex>),
    Sym(Sym),
}

pub struct Grammar {
    /// Names; helper nonterminals of repetitions have names with a '#'.
    pub names: Vec<String>,
    pub rules: Vec<(u16, Vec<Sym>)>,
    pub of: Vec<Vec<usize>>,
    /// Shortest sentence of each nonterminal.
    pub short: Vec<Vec<K>>,
    short_rule: Vec<usize>,
    first: Vec<u64>,
    /// Nonterminals predicted when one is expected.
    predicts: Vec<u128>,
    /// Item number of each rule's dot 0; item = base + dot.
    base: Vec<u16>,
    item_rule: Vec<u16>,
    /// Rules that start with a symbol, by symbol.
    starts_t: Vec<Vec<u16>>,
    starts_n: Vec<Vec<u16>>,
}

struct P<'a> {
    toks: Vec<&'a str>,
    i: usize,
    ids: &'a HashMap<String, u16>,
}

impl P<'_> {
    fn peek(&self) -> &str {
        self.toks.get(self.i).copied().unwrap_or("")
    }
    fn alt(&mut self) -> Ex {
        let mut v = vec![self.seq()];
        while self.peek() == "|" {
            self.i += 1;
            v.push(self.seq());
        }
        if v.len() == 1 {
            v.pop().unwrap()
        } else {
            Ex::Alt(v)
        }
    }
    fn seq(&mut self) -> Ex {
        let mut v = vec![];
        while !matches!(self.peek(), "" | "|" | ")") {
            let mut e = if self.peek() == "(" {
                self.i += 1;
                let e = self.alt();
                assert_eq!(self.peek(), ")");
                self.i += 1;
                e
            } else {
                let t = self.toks[self.i];
                self.i += 1;
                if let Some(q) = t.strip_prefix('\'') {
                    Ex::Sym(Sym::T(terms::kind_of(q.trim_end_matches('\''))))
                } else if let Some(n) = self.ids.get(t) {
                    Ex::Sym(Sym::N(*n))
                } else {
                    Ex::Sym(Sym::T(terms::kind_of(t)))
                }
            };
            loop {
                e = match self.peek() {
                    "?" => Ex::Opt(Box::new(e)),
                    "*" => Ex::Star(Box::new(e)),
                    "+" => Ex::Plus(Box::new(e)),
                    _ => break,
                };
                self.i += 1;
            }
            v.push(e);
        }
        Ex::Seq(v)
    }
}

fn split(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b' ' => i += 1,
            b'\'' => {
                let j = i + 1 + s[i + 1..].find('\'').unwrap();
                v.push(&s[i..=j]);
                i = j + 1;
            }
            c if c.is_ascii_alphanumeric() || c == b'_' => {
                let j = s[i..]
                    .find(|c: char| !c.is_ascii_alphanumeric() && c != '_')
                    .map_or(s.len(), |n| i + n);
                v.push(&s[i..j]);
                i = j;
            }
            _ => {
                v.push(&s[i..i + 1]);
                i += 1;
            }
        }
    }
    v
}

impl Grammar {
    pub fn scilla() -> &'static Grammar {
        static G: std::sync::OnceLock<Grammar> = std::sync::OnceLock::new();
        G.get_or_init(|| Grammar::parse(EBNF))
    }

    pub fn id(&self, name: &str) -> u16 {
        self.names.iter().position(|n| n == name).expect(name) as u16
    }

    fn parse(text: &str) -> Grammar {
        let lines: Vec<(&str, &str)> = text
            .lines()
            .filter(|l| !l.trim().is_empty())
            .map(|l| l.split_once(" = ").unwrap())
            .collect();
        let mut names: Vec<String> = lines.iter().map(|l| l.0.trim().to_string()).collect();
        let ids: HashMap<String, u16> = names
            .iter()
            .enumerate()
            .map(|(i, n)| (n.clone(), i as u16))
            .collect();
        let mut rules: Vec<(u16, Vec<Sym>)> = vec![];
        for (i, (_, rhs)) in lines.iter().enumerate() {
            let mut p = P {
                toks: split(rhs),
                i: 0,
                ids: &ids,
            };
            let e = p.alt();
            assert_eq!(p.i, p.toks.len(), "{rhs}");
            for alt in Self::expand(&e, &mut names, &mut rules) {
                assert!(!alt.is_empty(), "nullable {rhs}");
                rules.push((i as u16, alt));
            }
        }
        let mut uniq = HashSet::new();
        rules.retain(|r| uniq.insert(r.clone()));
        Self::build(names, rules)
    }

    /// All epsilon-free sequences of symbols an expression stands for.
    fn expand(e: &Ex, names: &mut Vec<String>, rules: &mut Vec<(u16, Vec<Sym>)>) -> Vec<Vec<Sym>> {
        match e {
            Ex::Sym(s) => vec![vec![*s]],
            Ex::Alt(v) => v
                .iter()
                .flat_map(|e| Self::expand(e, names, rules))
                .collect(),
            Ex::Seq(v) => {
                let mut out = vec![vec![]];
                for e in v {
                    let parts = Self::expand(e, names, rules);
                    out = out
                        .iter()
                        .flat_map(|o: &Vec<Sym>| {
                            parts.iter().map(move |p| {
                                let mut o = o.clone();
                                o.extend(p);
                                o
                            })
                        })
                        .collect();
                }
                out
            }
            Ex::Opt(e) => {
                let mut v = vec![vec![]];
                v.extend(Self::expand(e, names, rules));
                v
            }
            Ex::Star(e) => {
                let mut v = vec![vec![]];
                v.extend(Self::expand(&Ex::Plus(e.clone()), names, rules));
                v
            }
            Ex::Plus(e) => {
                let alts = Self::expand(e, names, rules);
                let id = names.len() as u16;
                names.push(format!("#{id}"));
                for a in alts {
                    assert!(!a.is_empty());
                    rules.push((id, a.clone()));
                    let mut r = vec![Sym::N(id)];
                    r.extend(a);
                    rules.push((id, r));
                }
                vec![vec![Sym::N(id)]]
            }
        }
    }

    fn build(names: Vec<String>, rules: Vec<(u16, Vec<Sym>)>) -> Grammar {
        let n = names.len();
        assert!(n <= 128);
        let mut of = vec![vec![]; n];
        let mut base = vec![];
        let mut item_rule = vec![];
        let mut starts_t = vec![vec![]; NTERMS];
        let mut starts_n = vec![vec![]; n];
        for (i, (l, r)) in rules.iter().enumerate() {
            of[*l as usize].push(i);
            base.push(item_rule.len() as u16);
            item_rule.extend(std::iter::repeat(i as u16).take(r.len() + 1));
            match r[0] {
                Sym::T(t) => starts_t[t as usize].push(i as u16),
                Sym::N(m) => starts_n[m as usize].push(i as u16),
            }
        }
        let mut first = vec![0u64; n];
        let mut predicts: Vec<u128> = (0..n).map(|i| 1u128 << i).collect();
        loop {
            let mut changed = false;
            for (l, r) in &rules {
                let l = *l as usize;
                let (f, p) = match r[0] {
                    Sym::T(t) => (1u64 << t, 0),
                    Sym::N(m) => (first[m as usize], predicts[m as usize]),
                };
                if first[l] | f != first[l] || predicts[l] | p != predicts[l] {
                    first[l] |= f;
                    predicts[l] |= p;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        // Shortest sentences, by value iteration; ties go to the earlier rule.
        let mut len = vec![usize::MAX; n];
        let mut short_rule = vec![usize::MAX; n];
        loop {
            let mut changed = false;
            for (i, (l, r)) in rules.iter().enumerate() {
                let mut s = 0usize;
                for x in r {
                    s = s.saturating_add(match x {
                        Sym::T(_) => 1,
                        Sym::N(m) => len[*m as usize],
                    });
                }
                if s < len[*l as usize] {
                    len[*l as usize] = s;
                    short_rule[*l as usize] = i;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let mut g = Grammar {
            names,
            rules,
            of,
            short: vec![],
            short_rule,
            first,
            predicts,
            base,
            item_rule,
            starts_t,
            starts_n,
        };
        g.short = (0..n)
            .map(|i| {
                let mut v = vec![];
                g.shortest(Sym::N(i as u16), &mut v);
                v
            })
            .collect();
        g
    }

    fn shortest(&self, s: Sym, out: &mut Vec<K>) {
        match s {
            Sym::T(t) => out.push(t),
            Sym::N(n) => {
                for x in &self.rules[self.short_rule[n as usize]].1 {
                    self.shortest(*x, out);
                }
            }
        }
    }

    fn next(&self, item: u16) -> Option<Sym> {
        let r = self.item_rule[item as usize];
        let dot = item - self.base[r as usize];
        self.rules[r as usize].1.get(dot as usize).copied()
    }

    pub fn first(&self, n: u16) -> u64 {
        self.first[n as usize]
    }

    /// Minimal context of every nonterminal: tokens before and after.
    pub fn contexts(&self, start: u16) -> Vec<Option<(Vec<K>, Vec<K>)>> {
        let n = self.names.len();
        let mut ctx: Vec<Option<(Vec<K>, Vec<K>)>> = vec![None; n];
        ctx[start as usize] = Some((vec![], vec![]));
        loop {
            let mut changed = false;
            for (l, r) in &self.rules {
                let Some((pre, post)) = ctx[*l as usize].clone() else {
                    continue;
                };
                for (i, x) in r.iter().enumerate() {
                    let Sym::N(m) = x else { continue };
                    let mut a = pre.clone();
                    for y in &r[..i] {
                        self.shortest(*y, &mut a);
                    }
                    let mut b = vec![];
                    for y in &r[i + 1..] {
                        self.shortest(*y, &mut b);
                    }
                    b.extend(&post);
                    let better = match &ctx[*m as usize] {
                        None => true,
                        Some((c, d)) => a.len() + b.len() < c.len() + d.len(),
                    };
                    if better {
                        ctx[*m as usize] = Some((a, b));
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        ctx
    }

    /// Every repetition of the grammar, in minimal context: what stands
    /// before and after, and the variants of the repeated part (every
    /// production of each of its parts).
    pub fn loops(&self, start: u16) -> Vec<(Kinds, Vec<Kinds>, Kinds)> {
        let ctx = self.contexts(start);
        let mut out = vec![];
        for n in 0..self.names.len() {
            if !self.names[n].starts_with('#') {
                continue;
            }
            let Some((pre, post)) = &ctx[n] else { continue };
            let mut alts: Vec<Kinds> = vec![];
            for r in &self.of[n] {
                let r = &self.rules[*r].1;
                if r[0] == Sym::N(n as u16) {
                    continue;
                }
                // Variants of the element: every production of its parts.
                let mut plain = vec![];
                for x in r {
                    self.shortest(*x, &mut plain);
                }
                alts.push(plain);
                for (i, x) in r.iter().enumerate() {
                    let Sym::N(e) = x else { continue };
                    for q in &self.of[*e as usize] {
                        let mut y = vec![];
                        for z in &r[..i] {
                            self.shortest(*z, &mut y);
                        }
                        for z in &self.rules[*q].1 {
                            self.shortest(*z, &mut y);
                        }
                        for z in &r[i + 1..] {
                            self.shortest(*z, &mut y);
                        }
                        alts.push(y);
                    }
                }
            }
            alts.sort();
            alts.dedup();
            out.push((pre.clone(), alts, post.clone()));
        }
        out
    }

    /// Sentences in which a repeated part occurs `m` times, for every
    /// repetition of the grammar and all pairs of its alternatives.
    pub fn repeats(&self, start: u16, m: usize) -> Vec<Vec<K>> {
        let mut out = vec![];
        for (pre, alts, post) in self.loops(start) {
            for a in &alts {
                for b in &alts {
                    let mut s = pre.clone();
                    for i in 0..m {
                        s.extend(if i % 2 == 0 { a } else { b });
                    }
                    s.extend(&post);
                    out.push(s);
                    if m == 1 {
                        break;
                    }
                }
            }
        }
        out.sort();
        out.dedup();
        out
    }

    /// Large sentences: every nesting through at most `k` productions to each
    /// of the depths, every variant of every list at each of the lengths.
    pub fn large(&self, start: u16, k: usize, depths: &[usize], lengths: &[usize]) -> Vec<Kinds> {
        let mut out = vec![];
        for n in self.nests(start, k) {
            out.extend(depths.iter().map(|m| n.kinds(*m)));
        }
        for (pre, alts, post) in self.loops(start) {
            for a in &alts {
                for m in lengths {
                    let mut s = pre.clone();
                    for _ in 0..*m {
                        s.extend(a);
                    }
                    s.extend(&post);
                    out.push(s);
                }
            }
        }
        out.sort_by_key(|s| (s.len(), s.clone()));
        out.dedup();
        out
    }

    /// Every way a construct may contain itself through at most `k`
    /// productions, each part minimal: what stands before and after the
    /// inner occurrence, the shortest such construct, and its context.
    pub fn nests(&self, start: u16, k: usize) -> Vec<Nest> {
        let ctx = self.contexts(start);
        let mut out = vec![];
        let mut seen = HashSet::new();
        for n in 0..self.names.len() as u16 {
            let Some((pre, post)) = &ctx[n as usize] else { continue };
            let mut mid = vec![];
            self.shortest(Sym::N(n), &mut mid);
            // Symbols on the way are distinct.
            let mut todo: Vec<(u16, Kinds, Kinds, Vec<u16>)> = vec![(n, vec![], vec![], vec![n])];
            while let Some((at, a, b, path)) = todo.pop() {
                for r in &self.of[at as usize] {
                    let r = &self.rules[*r].1;
                    for (i, x) in r.iter().enumerate() {
                        let Sym::N(m) = x else { continue };
                        let mut l = a.clone();
                        for y in &r[..i] {
                            self.shortest(*y, &mut l);
                        }
                        let mut t = vec![];
                        for y in &r[i + 1..] {
                            self.shortest(*y, &mut t);
                        }
                        t.extend(&b);
                        if *m == n {
                            if l.len() + t.len() > 0 && seen.insert((pre.clone(), l.clone(), t.clone())) {
                                out.push(Nest {
                                    name: self.names[n as usize].clone(),
                                    pre: pre.clone(),
                                    left: l,
                                    mid: mid.clone(),
                                    right: t,
                                    post: post.clone(),
                                });
                            }
                        } else if !path.contains(m) && path.len() < k {
                            let mut p = path.clone();
                            p.push(*m);
                            todo.push((*m, l, t, p));
                        }
                    }
                }
            }
        }
        out
    }

    /// The set of sentences that contain every chain of `k` productions
    /// (each expanding a symbol of the one before), in minimal context from
    /// `start` and with minimal remaining parts.
    pub fn covering(&self, start: u16, k: usize) -> Vec<Vec<K>> {
        let ctx = self.contexts(start);
        let mut seen = HashSet::new();
        let mut out = vec![];
        for (i, (l, _)) in self.rules.iter().enumerate() {
            let Some((pre, post)) = &ctx[*l as usize] else {
                continue;
            };
            let mut yields = vec![];
            self.chains(i, k, &mut yields);
            for y in yields {
                let mut s = pre.clone();
                s.extend(&y);
                s.extend(post);
                if seen.insert(s.clone()) {
                    out.push(s);
                }
            }
        }
        out.sort_by_key(|s| (s.len(), s.clone()));
        out
    }

    fn chains(&self, rule: usize, k: usize, out: &mut Vec<Vec<K>>) {
        let r = &self.rules[rule].1;
        let mut plain = vec![];
        for x in r {
            self.shortest(*x, &mut plain);
        }
        out.push(plain);
        if k <= 1 {
            return;
        }
        for (i, x) in r.iter().enumerate() {
            let Sym::N(m) = x else { continue };
            for q in &self.of[*m as usize] {
                let mut subs = vec![];
                self.chains(*q, k - 1, &mut subs);
                for s in subs {
                    let mut y = vec![];
                    for z in &r[..i] {
                        self.shortest(*z, &mut y);
                    }
                    y.extend(s);
                    for z in &r[i + 1..] {
                        self.shortest(*z, &mut y);
                    }
                    out.push(y);
                }
            }
        }
    }
}

/// A construct within itself.
#[derive(Clone, Debug)]
pub struct Nest {
    pub name: String,
    pub pre: Kinds,
    pub left: Kinds,
    pub mid: Kinds,
    pub right: Kinds,
    pub post: Kinds,
}

impl Nest {
    pub fn kinds(&self, m: usize) -> Kinds {
        let mut s = self.pre.clone();
        for _ in 0..m {
            s.extend(&self.left);
        }
        s.extend(&self.mid);
        for _ in 0..m {
            s.extend(&self.right);
        }
        s.extend(&self.post);
        s
    }
}

/// One column of the recogniser.
pub struct Col {
    /// (item, origin column), unfinished items only.
    kernels: Vec<(u16, u16)>,
    predicted: u128,
    /// Terminals that may come next, and EOF_BIT.
    pub expected: u64,
    /// Equal signatures have equal continuations.
    pub sig: u128,
    /// Waiting items (kernels and predicted) by nonterminal are recomputed.
    _p: (),
}

/// A prefix and its recogniser state.
#[derive(Clone)]
pub struct State {
    pub start: u16,
    pub cols: Vec<Arc<Col>>,
}

fn mix(a: u128, b: u128) -> u128 {
    let mut x = a ^ b.wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    x ^= x >> 61;
    x = x.wrapping_mul(0xD6E8FEB86659FD93A5A5A5A5C3C3C3C5);
    x ^= x >> 67;
    x.wrapping_mul(0xA0761D6478BD642FE7037ED1A0B428DB)
}

impl Grammar {
    pub fn begin(&self, start: u16) -> State {
        let col = Col {
            kernels: vec![],
            predicted: self.predicts[start as usize],
            expected: self.first[start as usize],
            sig: mix(0x1234567, start as u128),
            _p: (),
        };
        State {
            start,
            cols: vec![Arc::new(col)],
        }
    }

    /// The state after one more token, if the token may come next.
    pub fn step(&self, s: &State, t: K) -> Option<State> {
        let col = self.next_col(s, t)?;
        let mut cols = Vec::with_capacity(s.cols.len() + 1);
        cols.extend(s.cols.iter().cloned());
        cols.push(Arc::new(col));
        Some(State {
            start: s.start,
            cols,
        })
    }

    pub fn push(&self, s: &mut State, t: K) -> bool {
        match self.next_col(s, t) {
            Some(c) => {
                s.cols.push(Arc::new(c));
                true
            }
            None => false,
        }
    }

    /// A shortest sequence of tokens that turns the prefix into a sentence.
    pub fn complete(&self, s: &State) -> Vec<K> {
        if s.accepts() {
            return vec![];
        }
        let here = s.cols.len() - 1;
        if here == 0 {
            return self.short[s.start as usize].clone();
        }
        // Dijkstra over (item, origin); a node is an item whose rest is still
        // to be written.
        type Node = (u16, u16);
        let mut best: HashMap<Node, (usize, Option<Node>)> = HashMap::new();
        let mut heap = std::collections::BinaryHeap::new();
        for (k, o) in &s.cols[here].kernels {
            best.insert((*k, *o), (0, None));
            heap.push((std::cmp::Reverse(0usize), (*k, *o)));
        }
        let mut last = None;
        while let Some((std::cmp::Reverse(c), node)) = heap.pop() {
            if best[&node].0 < c {
                continue;
            }
            let (item, org) = node;
            let r = self.item_rule[item as usize];
            let dot = (item - self.base[r as usize]) as usize;
            let rest: usize = self.rules[r as usize].1[dot..]
                .iter()
                .map(|x| match x {
                    Sym::T(_) => 1,
                    Sym::N(n) => self.short[*n as usize].len(),
                })
                .sum();
            let l = self.rules[r as usize].0;
            if org == 0 && l == s.start {
                // Finishing the start symbol; nothing cheaper is left only if
                // its rest is counted, so put it back with its full cost.
                if rest == 0 {
                    last = Some(node);
                    break;
                }
            }
            let cost = c + rest;
            let mut relax = |n: Node, heap: &mut std::collections::BinaryHeap<_>| {
                if best.get(&n).map_or(true, |b| cost < b.0) {
                    best.insert(n, (cost, Some(node)));
                    heap.push((std::cmp::Reverse(cost), n));
                }
            };
            if org == 0 && l == s.start {
                // Pseudo node: the finished item itself.
                relax((self.base[r as usize] + self.rules[r as usize].1.len() as u16, 0), &mut heap);
            }
            let oc = &s.cols[org as usize];
            for (k, ko) in &oc.kernels {
                if self.next(*k) == Some(Sym::N(l)) {
                    relax((k + 1, *ko), &mut heap);
                }
            }
            for q in &self.starts_n[l as usize] {
                let ll = self.rules[*q as usize].0;
                if oc.predicted & (1 << ll) != 0 {
                    relax((self.base[*q as usize] + 1, org), &mut heap);
                }
            }
        }
        let mut chain = vec![];
        let mut at = last;
        while let Some(n) = at {
            chain.push(n);
            at = best[&n].1;
        }
        chain.reverse();
        let mut out = vec![];
        for (item, _) in chain {
            let r = self.item_rule[item as usize];
            let dot = (item - self.base[r as usize]) as usize;
            for x in &self.rules[r as usize].1[dot..] {
                self.shortest(*x, &mut out);
            }
        }
        out
    }

    fn next_col(&self, s: &State, t: K) -> Option<Col> {
        let here = s.cols.last().unwrap();
        if (t as usize) >= NTERMS || here.expected & (1 << t) == 0 {
            return None;
        }
        let at = (s.cols.len() - 1) as u16;
        let mut items: Vec<(u16, u16)> = vec![];
        let add = |items: &mut Vec<(u16, u16)>, it: (u16, u16)| {
            if !items.contains(&it) {
                items.push(it);
            }
        };
        for (item, org) in &here.kernels {
            if self.next(*item) == Some(Sym::T(t)) {
                add(&mut items, (item + 1, *org));
            }
        }
        for r in &self.starts_t[t as usize] {
            let l = self.rules[*r as usize].0;
            if here.predicted & (1 << l) != 0 {
                add(&mut items, (self.base[*r as usize] + 1, at));
            }
        }
        let mut accept = false;
        let mut i = 0;
        let mut kernels = vec![];
        while i < items.len() {
            let (item, org) = items[i];
            i += 1;
            if self.next(item).is_some() {
                kernels.push((item, org));
                continue;
            }
            let l = self.rules[self.item_rule[item as usize] as usize].0;
            if org == 0 && l == s.start {
                accept = true;
            }
            let oc = &s.cols[org as usize];
            for (k, ko) in &oc.kernels {
                if self.next(*k) == Some(Sym::N(l)) {
                    add(&mut items, (k + 1, *ko));
                }
            }
            for r in &self.starts_n[l as usize] {
                let ll = self.rules[*r as usize].0;
                if oc.predicted & (1 << ll) != 0 {
                    add(&mut items, (self.base[*r as usize] + 1, org));
                }
            }
        }
        let mut expected = 0;
        let mut predicted = 0;
        let mut parts: Vec<u128> = Vec::with_capacity(kernels.len());
        for (k, o) in &kernels {
            match self.next(*k).unwrap() {
                Sym::T(t) => expected |= 1u64 << t,
                Sym::N(n) => {
                    expected |= self.first[n as usize];
                    predicted |= self.predicts[n as usize];
                }
            }
            parts.push(mix(*k as u128 + 1, s.cols[*o as usize].sig));
        }
        parts.sort_unstable();
        let mut sig = mix(0x55, accept as u128);
        for p in parts {
            sig = mix(sig, p);
        }
        if accept {
            expected |= EOF_BIT;
        }
        Some(Col {
            kernels,
            predicted,
            expected,
            sig,
            _p: (),
        })
    }
}

impl State {
    pub fn expected(&self) -> u64 {
        self.cols.last().unwrap().expected
    }
    pub fn accepts(&self) -> bool {
        self.expected() & EOF_BIT != 0
    }
    pub fn sig(&self) -> u128 {
        self.cols.last().unwrap().sig
    }
    pub fn pop(&mut self) {
        self.cols.pop();
    }
    pub fn len(&self) -> usize {
        self.cols.len() - 1
    }
    pub fn is_empty(&self) -> bool {
        self.cols.len() == 1
    }
}

/// Terminals of a set, in order.
pub fn terminals(set: u64) -> impl Iterator<Item = K> {
    (0..NTERMS as u8).filter(move |t| set & (1 << t) != 0)
}

/// A prefix kept as its kinds.
pub type Kinds = Vec<K>;

/// Compact printable spelling of a sequence of kinds.
pub fn encode(ks: &[K]) -> String {
    ks.iter().map(|k| (b'0' + k) as char).collect()
}

pub fn decode(s: &str) -> Kinds {
    s.bytes().map(|b| b.wrapping_sub(b'0')).collect()
}

/// Breadth-first search over the recogniser's states. Prefixes up to `full`
/// tokens are all kept; longer ones are kept once per (signature, last `w`
/// kinds). Stops when `budget` prefixes of a level are exceeded or `depth` is
/// reached; only complete levels count as covered.
pub struct Level {
    pub prefixes: Vec<(Kinds, State)>,
    pub depth: usize,
    /// Transitions from the level before into known states.
    pub merged: Vec<(Kinds, State)>,
}

pub fn first_level(g: &Grammar, start: u16) -> Level {
    Level {
        prefixes: vec![(vec![], g.begin(start))],
        depth: 0,
        merged: vec![],
    }
}

/// Next level of the search.
pub fn next_level(
    g: &Grammar,
    level: &Level,
    full: usize,
    w: usize,
    seen: &mut HashSet<(u128, u64)>,
) -> Level {
    let depth = level.depth + 1;
    let mut prefixes = vec![];
    let mut merged = vec![];
    for (ks, st) in &level.prefixes {
        for t in terminals(st.expected()) {
            let n = g.step(st, t).expect("expected terminal");
            let mut last = t as u64 + 1;
            for (i, k) in ks.iter().rev().take(w.saturating_sub(1)).enumerate() {
                last |= (*k as u64 + 1) << (8 * (i + 1));
            }
            if w == 0 {
                last = 0;
            }
            let fresh = seen.insert((n.sig(), last));
            let mut v = ks.clone();
            v.push(t);
            if depth > full && !fresh {
                merged.push((v, n));
            } else {
                prefixes.push((v, n));
            }
        }
    }
    Level {
        prefixes,
        depth,
        merged,
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::terms::kind_of;

    #[test]
    fn recognises() {
        let g = Grammar::scilla();
        let mut s = g.begin(g.id("ScillaType"));
        for t in ["Map", "CID", "(", "CID", "CID", ")", "->", "TID"] {
            assert!(g.push(&mut s, kind_of(t)), "{t}");
        }
        assert!(s.accepts());
        for l in [1, 2, 3] {
            println!("covering {l}: {}", g.covering(g.id("Program"), l).len());
        }
        println!("repeats {}", g.repeats(g.id("Program"), 3).len());
        for start in STARTS {
            let mut seen = HashSet::new();
            let mut l = first_level(g, g.id(start));
            for _ in 0..7 {
                for (ks, st) in &l.prefixes {
                    let mut s = st.clone();
                    for t in g.complete(st) {
                        assert!(g.push(&mut s, t), "{start} {}", encode(ks));
                    }
                    assert!(s.accepts());
                }
                l = next_level(g, &l, 0, 0, &mut seen);
            }
        }
        for s in g.covering(g.id("Program"), 3).iter().chain(&g.repeats(g.id("Program"), 3)) {
            let mut st = g.begin(g.id("Program"));
            for t in s {
                assert!(g.push(&mut st, *t));
            }
            assert!(st.accepts());
        }
        println!("rules {} names {}", g.rules.len(), g.names.len());
        for start in ["Program", "FullExpression", "Statement", "ScillaType", "ContractDefinition"] {
            let mut seen = HashSet::new();
            let mut l = first_level(g, g.id(start));
            for _ in 0..14 {
                let t = std::time::Instant::now();
                l = next_level(g, &l, 0, 1, &mut seen);
                println!("{start} {} prefixes {} merged {} {:?}", l.depth, l.prefixes.len(), l.merged.len(), t.elapsed());
                if l.prefixes.len() > 200000 {
                    break;
                }
            }
        }
    }
}
