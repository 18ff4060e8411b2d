//! C11: trivia at every token boundary.

use super::common::*;
use crate::bridge;
use crate::reflect::{Item, Reflect, G};
use mc::engine::Engine;
use mc::grammar::{Grammar, Kinds};
use mc::reflex;
use mc::terms::{self, K};
use scilla_parser::parser::parser::ProgramParser;
use scilla_parser::Contract;

const TRIVIA: &[&str] = &[
    " ",
    "\n",
    "\t",
    "\r\n",
    "\r",
    "  \n\n\t ",
    "(**)",
    "(* c *)",
    "(***)",
    "(* \" *)",
    "(* contract X (p : Uint32) field f : T = v *)",
    "(* (* *)",
    "(*)*)",
    "(* end transition\nt () end *)\n(* field *)",
    "(* é∀\u{a0} *)",
    "(* * ) ( *)",
    "(*(*(***)",
    "\u{b}",
    "\u{c}",
    "\u{a0}",
    "\u{2003}\u{85}",
    "(* \\*)",
    "(* 'a *) ",
    " (* ;; scilla_version 0 library *)",
    "(*\r\n*)",
];

/// What a tree says apart from positions.
fn shape(g: &G, o: &mut String) {
    o.push('(');
    o.push_str(g.kind);
    for i in &g.items {
        o.push(' ');
        match i {
            Item::Fixed(k) => o.push_str(terms::canon(*k).s),
            Item::Maybe(k) => {
                o.push('?');
                o.push_str(terms::canon(*k).s);
            }
            Item::Leaf { text, .. } => o.push_str(text),
            Item::Node(g) => shape(g, o),
            Item::Bad(b) => o.push_str(b),
        }
    }
    if let Some(d) = &g.display {
        o.push_str(" = ");
        o.push_str(d);
    }
    o.push(')');
}

type Tokens = Vec<(K, String)>;

struct Meaning {
    tokens: Tokens,
    tree: Option<String>,
    contract: Option<Contract>,
}

fn meaning(text: &str) -> Meaning {
    let lexed = bridge::lex(text);
    stepped(lexed.len());
    let tokens = lexed
        .iter()
        .map(|(t, ..)| (bridge::kind(t).unwrap_or(terms::UNKNOWN), bridge::payload(t).unwrap_or("").to_string()))
        .collect();
    let mut errors = vec![];
    let tree = ProgramParser::new()
        .parse(&mut errors, lexed.iter().map(|(t, s, e)| Ok((*s, t.clone(), *e))))
        .ok()
        .map(|p| {
            let mut o = String::new();
            shape(&p.reflect(), &mut o);
            o
        });
    Meaning {
        tokens,
        tree,
        contract: slow(text).ok(),
    }
}

fn same(want: &Meaning, text: &str) -> Result<(), String> {
    let m = meaning(text);
    if m.tokens != want.tokens {
        return Err(format!("the tokens are {:?} instead of {:?}", m.tokens, want.tokens));
    }
    if m.tree != want.tree {
        return Err(format!("the syntax tree is {:?} instead of {:?}", m.tree, want.tree));
    }
    if m.contract != want.contract {
        return Err(format!("the contract is {:?} instead of {:?}", m.contract, want.contract));
    }
    Ok(())
}

/// A text as its tokens; the plain layout is the reference point.
struct Base {
    words: Vec<String>,
    plain: String,
    want: Meaning,
    /// No separator is needed between words i and i+1.
    glue: Vec<bool>,
}

impl Base {
    fn new(words: Vec<String>) -> Result<Base, String> {
        let plain = words.join(" ");
        let reference = reflex::tokenize(&plain);
        let want = meaning(&plain);
        let expect: Tokens = reference
            .iter()
            .map(|l| {
                let p = if terms::has_payload(l.k) { &plain[l.start..l.end] } else { "" };
                (l.k, p.to_string())
            })
            .collect();
        if expect.len() != words.len() {
            return Err(format!("not a list of words: {plain}"));
        }
        if want.tokens != expect {
            return Err(format!("the tokens are {:?} instead of {expect:?}", want.tokens));
        }
        let glue = words
            .windows(2)
            .map(|w| {
                let t = reflex::tokenize(&format!("{}{}", w[0], w[1]));
                t.len() == 2 && t[0].end == w[0].len() && t.iter().all(|l| l.k != terms::UNKNOWN)
            })
            .collect();
        Ok(Base {
            words,
            plain,
            want,
            glue,
        })
    }

    /// Gap i is before word i.
    fn with(&self, gap: impl Fn(usize) -> &'static str) -> String {
        let mut s = String::with_capacity(self.plain.len() * 2);
        for (i, w) in self.words.iter().enumerate() {
            s.push_str(gap(i));
            s.push_str(w);
        }
        s.push_str(gap(self.words.len()));
        s
    }

    fn blank(&self, i: usize) -> &'static str {
        if i == 0 || i == self.words.len() {
            ""
        } else {
            " "
        }
    }

    /// Nothing, where that keeps the neighbours apart.
    fn tight(&self, i: usize) -> &'static str {
        if i == 0 || i == self.words.len() || self.glue[i - 1] {
            ""
        } else {
            " "
        }
    }
}

fn check(engine: &Engine, b: &Base, text: String) -> bool {
    engine.check(&format!("v:{}\u{1}{text}", b.plain), || {
        same(&b.want, &text).map_err(|e| format!("{text:?}\n  {e}"))
    })
}

/// A text of some tokens and a comment without an end.
fn unended(engine: &Engine, tokens: usize, text: &str) {
    engine.check(&format!("u:{tokens}\u{1}{text}"), || {
        let m = meaning(text);
        if m.tree.is_some() || m.contract.is_some() {
            return Err(format!("{text:?}\n  the comment without an end is accepted"));
        }
        match m.tokens.len().checked_sub(tokens) {
            Some(1) if m.tokens[tokens].0 == terms::UNKNOWN => Ok(()),
            _ => Err(format!("{text:?}\n  the tokens are {:?}", m.tokens)),
        }
    });
}

fn base(engine: &Engine, words: Vec<String>) -> Option<Base> {
    let text = words.join(" ");
    match engine.case(&format!("b:{text}"), || Base::new(words))? {
        Ok(b) => Some(b),
        Err(e) => {
            engine.violation(format!("b:{text}"), e);
            None
        }
    }
}

fn words(ks: &[K]) -> Vec<String> {
    ks.iter().enumerate().map(|(i, k)| unique(*k, i).to_string()).collect()
}

/// Every trivia in every gap of one text, the other gaps plain or tight.
fn gaps(engine: &Engine, b: &Base, trivia: &[&'static str], tight: bool) -> u64 {
    let mut n = 0;
    for at in 0..=b.words.len() {
        for t in trivia {
            let text = b.with(|i| match i {
                i if i == at => t,
                i if tight => b.tight(i),
                i => b.blank(i),
            });
            n += 1;
            if !check(engine, b, text) || engine.stopped() {
                return n;
            }
        }
    }
    n
}

fn word_list(s: &str) -> Vec<String> {
    reflex::tokenize(s).iter().map(|l| s[l.start..l.end].to_string()).collect()
}

const CONTRACTS: &[&str] = &[
    "scilla_version 0 contract C ( p : ByStr20 ) field f : Map ByStr20 ( Option Uint128 ) = Emp ByStr20 T transition t ( a : String ) f [ a ] := p ; accept end",
    "scilla_version 0 import A B as D library L let x = \"(* no comment *)\" type T = | A of ( Map T T ) contract C ( ) with { _eventname : \"end transition\" ; a : Int32 -5 } => procedure p ( ) end",
    "scilla_version 0 contract C ( ) transition t ( ) x <- & a . b ; x = builtin add a b ; x <- - end",
    "scilla_version 0 contract C ( a : ByStr20 with contract field f : List Int32 , field _g : 0x12 . T end ) transition T ( ) match x with | A _ ( B c ) => throw | _ => y <- exists m [ k ] end end",
];

const STRINGS: &[&str] = &[
    "\"\"",
    "\"(*\"",
    "\"*)\"",
    "\"(* c *)\"",
    "\"transition T () end\"",
    "\"contract X (p : T)\"",
    "\" \n \"",
    "\"\\\"\"",
    "\"\\\\\"",
    "\"a\\\\\\\"(*\"",
    "\"é(*∀\"",
    "\"\t\r\"",
    "\"field f : T = v\"",
    "\"//\"",
];

pub fn run(engine: &Engine) {
    let g = Grammar::scilla();
    let program = g.id("Program");

    // Every trivia in every gap of sentences with every production.
    let all = g.covering(program, 1);
    let bases: Vec<Base> = all.iter().filter_map(|ks| base(engine, words(ks))).collect();
    engine.parallel(bases.len() * 2, |i| {
        let b = &bases[i / 2];
        let some: Vec<&'static str> = TRIVIA
            .iter()
            .enumerate()
            .filter(|(j, _)| !engine.quick() || j % 2 == i % 2 || b.words.len() < 10)
            .map(|t| *t.1)
            .collect();
        let n = gaps(engine, b, &some, i % 2 == 1);
        tally(engine, b.words.len() as u64 + 1, n);
    });
    engine.progress("every trivia in every gap");

    // Sentences with all pairs of productions, in layouts that put the same
    // trivia in all gaps, and tight.
    let mut more = g.covering(program, engine.pick(2, 3));
    more.extend(g.repeats(program, 3).into_iter().step_by(engine.pick(3, 1)));
    engine.parallel(more.len(), |i| {
        let Some(b) = base(engine, words(&more[i])) else { return };
        let mut n = 1;
        check(engine, &b, b.with(|j| b.tight(j)));
        for (j, t) in TRIVIA.iter().enumerate() {
            if engine.quick() && j % 5 != i % 5 {
                continue;
            }
            n += 1;
            check(engine, &b, b.with(|_| t));
            // A different one in each gap.
            n += 1;
            check(engine, &b, b.with(|k| TRIVIA[(k * (2 * i + 1) + j) % TRIVIA.len()]));
        }
        tally(engine, b.words.len() as u64 + 1, n);
    });
    engine.progress("every layout");

    // Two gaps at once.
    let few: Vec<&Base> = bases.iter().filter(|b| b.words.len() <= engine.pick(9, 16)).collect();
    let pairs = &TRIVIA[..engine.pick(15, 25)];
    engine.parallel(few.len() * pairs.len(), |i| {
        let (b, t) = (few[i / pairs.len()], pairs[i % pairs.len()]);
        let mut n = 0;
        for x in 0..=b.words.len() {
            for y in x + 1..=b.words.len() {
                for u in pairs {
                    if engine.quick() && (x + y + u.len()) % 4 != 0 {
                        continue;
                    }
                    n += 1;
                    check(engine, b, b.with(|k| if k == x { t } else if k == y { u } else { b.blank(k) }));
                }
            }
            if engine.stopped() {
                return;
            }
        }
        tally(engine, n, n);
    });
    engine.progress("two gaps at once");

    // Whole contracts; all sequences of up to 3 (4) trivia in a gap.
    let real: Vec<Base> = CONTRACTS.iter().filter_map(|s| base(engine, word_list(s))).collect();
    for b in real.iter().take(3) {
        engine.sample(b.with(|k| TRIVIA[k % TRIVIA.len()]));
    }
    engine.parallel(real.len() * 2, |i| {
        let b = &real[i / 2];
        let n = gaps(engine, b, TRIVIA, i % 2 == 1);
        tally(engine, n, n);
    });
    let seqs: Vec<String> = lists(&["(*c*)", "(**)", "\n", " ", "(*\"*)", "(*(*)*)"], engine.pick(3, 4)).iter().map(|l| l.concat()).collect();
    let small = ["scilla_version 0 contract C ( p : T )", "scilla_version 0 contract C ( ) field f : T = \"(*\""];
    for s in small {
        let Some(b) = base(engine, word_list(s)) else { return };
        engine.parallel(seqs.len(), |i| {
            if seqs[i].is_empty() || !reflex::tokenize(&seqs[i]).is_empty() {
                return;
            }
            let t: &'static str = Box::leak(seqs[i].clone().into_boxed_str());
            let n = gaps(engine, &b, &[t], false);
            tally(engine, n, n);
        });
    }
    engine.progress("contracts");

    // Every character that is a space, in every gap; every other one in comments.
    let spaces: Vec<&'static str> = (0..=0x10ffffu32)
        .filter_map(char::from_u32)
        .filter(|c| c.is_whitespace())
        .flat_map(|c| {
            let all = [format!("{c}"), format!("{c}(*{c}*){c}"), format!(" {c}"), format!("{c}{c}"), format!("(*c*){c}")];
            all.into_iter().take(engine.pick(2, 5))
        })
        .map(|s| -> &'static str { Box::leak(s.into_boxed_str()) })
        .collect();
    engine.note("spaces", spaces.len() / engine.pick(2, 5));
    let per = spaces.len().div_ceil(16);
    engine.parallel(real.len() * 16, |i| {
        let b = &real[i / 16];
        let mut n = 0;
        for t in spaces.iter().skip(i % 16 * per).take(per) {
            n += gaps(engine, b, &[t], false);
            n += 2;
            check(engine, b, b.with(|_| t));
            check(engine, b, b.with(|k| if k % 2 == 0 { t } else { b.tight(k) }));
            if engine.stopped() {
                return;
            }
        }
        tally(engine, n, n);
    });
    let Some(b) = base(engine, word_list("scilla_version 0 contract C ( )")) else { return };
    let last = engine.pick(0xffff, 0x10ffff);
    engine.parallel((last + 1) / 256, |i| {
        let chars = (0..256).filter_map(|j| char::from_u32((i * 256 + j) as u32));
        let all: String = chars.clone().collect();
        // One comment with all of them, and one with each.
        let c = format!("(*{all}*){}", chars.map(|c| format!("(*{c}*)")).collect::<String>());
        if !reflex::tokenize(&c).is_empty() {
            return;
        }
        let t: &'static str = Box::leak(c.into_boxed_str());
        for at in 0..=b.words.len() {
            check(engine, &b, b.with(|k| if k == at { t } else { b.blank(k) }));
        }
        tally(engine, 256, b.words.len() as u64 + 1);
    });
    engine.progress("every character");

    // All sequences of spaces and empty comments, in one gap and in all.
    let seqs = lists(&["\t", " ", "\n", "\r", "\u{b}", "\u{c}", "\u{a0}", "\u{2003}", "\u{85}", "\u{2028}", "(**)", "(* *)"], engine.pick(3, 4));
    let seqs: Vec<&'static str> =
        seqs.into_iter().filter(|l| !l.is_empty()).map(|l| -> &'static str { Box::leak(l.concat().into_boxed_str()) }).collect();
    engine.note("sequences_of_spaces", seqs.len());
    engine.parallel(seqs.len(), |i| {
        let t = seqs[i];
        if reflex::tokenize(t).is_empty() {
            let one = i % (b.words.len() + 1);
            check(engine, &b, b.with(|_| t));
            check(engine, &b, b.with(|k| if k == one { t } else { b.blank(k) }));
            tally(engine, 1, 2);
        }
    });
    // Long ones of one kind, and of two in turn.
    let units = ["\t", " ", "\n", "\r\n", "\u{c}", "\u{a0}", "\u{2003}", "(**)", "\n ", "\t\n"];
    let lengths = terms::lengths(engine.pick(70, 520));
    engine.parallel(lengths.len() * units.len(), |i| {
        let t: &'static str = Box::leak(units[i % units.len()].repeat(lengths[i / units.len()]).into_boxed_str());
        let one = i % (b.words.len() + 1);
        check(engine, &b, b.with(|k| if k == one { t } else { b.blank(k) }));
        tally(engine, 1, 1);
    });
    engine.progress("sequences of spaces");

    // Comments with every content of up to 3 (4) of these characters.
    let contents = lists(&["*", "(", ")", "\"", "\\", "\n", "a", "é"], engine.pick(3, 5));
    let Some(b) = base(engine, word_list("scilla_version 0 contract C ( )")) else { return };
    engine.parallel(contents.len(), |i| {
        let c = format!("(*{}*)", contents[i].concat());
        if !reflex::tokenize(&c).is_empty() {
            return;
        }
        let t: &'static str = Box::leak(c.into_boxed_str());
        let n = b.words.len();
        let mut runs = 0;
        for at in [0, 2, n - 1, n] {
            runs += 1;
            check(engine, &b, b.with(|k| if k == at { t } else { b.blank(k) }));
        }
        tally(engine, 1, runs);
    });
    engine.progress("contents of comments");
    // Long trivia.
    engine.parallel(16, |i| {
        let n = [10, 127, 255, 256, 1000, 4096, 65536, 100_000][i / 2];
        let t = match i % 2 {
            0 => format!("(*{}*)", "c*\n".repeat(n / 3)),
            _ => " \n".repeat(n / 2),
        };
        let t: &'static str = Box::leak(t.into_boxed_str());
        for at in 0..=b.words.len() {
            check(engine, &b, b.with(|k| if k == at { t } else { b.blank(k) }));
        }
        tally(engine, 1, b.words.len() as u64);
    });

    // Strings that look like code or comments.
    engine.parallel(STRINGS.len(), |i| {
        for s in STRINGS {
            let text = format!("scilla_version 0 contract C ( ) field f : String = {} transition t ( ) s = {s} end", STRINGS[i]);
            let Some(b) = base(engine, word_list(&text)) else { return };
            let mut n = 0;
            for t in ["(* c *)", "(*\"*)", "\n", "(*(*)"] {
                n += 1;
                check(engine, &b, b.with(|_| t));
            }
            check(engine, &b, b.with(|k| b.tight(k)));
            match &b.want.contract {
                Some(c) if c.transitions.len() == 1 && c.fields.len() == 1 => (),
                c => engine.violation(format!("b:{}", b.plain), format!("{} is read as {c:?}", b.plain)),
            }
            tally(engine, 1, n + 1);
        }
    });
    engine.progress("strings");

    // What is no contract does not become one.
    let list: Vec<Kinds> = all
        .iter()
        .flat_map(|ks| {
            (0..ks.len()).map(|i| {
                let mut v = ks.clone();
                v.remove(i);
                v
            })
        })
        .collect();
    engine.parallel(list.len(), |i| {
        if engine.quick() && i % 3 != 0 {
            return;
        }
        let Some(b) = base(engine, words(&list[i])) else { return };
        let mut n = 0;
        for t in [i, i + 7, i + 13] {
            n += 1;
            check(engine, &b, b.with(|k| TRIVIA[(k + t) % TRIVIA.len()]));
        }
        tally(engine, 1, n);
    });
    engine.progress("rejected texts");

    // A comment without an end is no comment: what follows it is not skipped.
    let open = ["(*", "(* ", "(*)", "(* (* *", "(*\n", "(* c * )", "(*\"*", "(*é"];
    let list: Vec<&Base> = real.iter().chain(&bases).collect();
    engine.parallel(list.len(), |i| {
        let b = list[i];
        let mut n = 0;
        for at in 0..=b.words.len() {
            for o in open {
                let mut text = b.words[..at].join(" ");
                text.push_str([" ", "\n"][at % 2]);
                text.push_str(o);
                // What follows is inside the comment, and must not end it.
                if !b.words[at..].iter().any(|w| w.contains("*)")) && (n as usize + at) % 2 == 0 {
                    text.push(' ');
                    text.push_str(&b.words[at..].join(" "));
                }
                n += 1;
                unended(engine, at, &text);
            }
        }
        tally(engine, n, n);
    });
    engine.progress("comments without an end");

    // The test contracts of the repository, with trivia before every token.
    let mut files: Vec<_> = std::fs::read_dir("/repo/tests/contracts")
        .map(|d| d.flatten().map(|e| e.path()).collect())
        .unwrap_or_else(|_| Vec::<std::path::PathBuf>::new());
    files.sort();
    engine.parallel(files.len(), |i| {
        let Ok(text) = std::fs::read_to_string(&files[i]) else { return };
        if text.len() > engine.pick(6_000, 40_000) {
            return;
        }
        let Some(b) = base(engine, word_list(&text)) else { return };
        check(engine, &b, text.clone());
        check(engine, &b, text.replace('\n', "\r\n"));
        check(engine, &b, b.with(|k| b.tight(k)));
        check(engine, &b, b.with(|k| TRIVIA[(k + i) % TRIVIA.len()]));
        tally(engine, 1, 3);
    });
    engine.progress("contracts of the repository");
}

pub fn replay(engine: &Engine, case: &str) {
    if let Some(s) = case.strip_prefix("b:") {
        engine.check(case, || Base::new(word_list(s)).map(|_| ()));
    } else if let Some((p, v)) = case.strip_prefix("v:").and_then(|r| r.split_once('\u{1}')) {
        engine.check(case, || same(&meaning(p), v));
    } else if let Some((n, t)) = case.strip_prefix("u:").and_then(|r| r.split_once('\u{1}')) {
        unended(engine, n.parse().unwrap_or(0), t);
    }
}
