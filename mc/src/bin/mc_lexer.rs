//! C02, C03, C17: the tokenizer, explored over complete sets of texts and
//! compared with the reference tokenizer.

#[path = "../imp/bridge.rs"]
mod bridge;

use bridge::{kind, payload, tok_str};
use mc::engine::{self, Check, Engine, Spec};
use mc::reflex::{self, Lexeme, Lines};
use mc::terms::{self, K, NTERMS, TERMS, UNKNOWN};
use scilla_parser::parser::lexer::{Lexer, SourcePosition, Token};
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

type Out<'a> = Vec<(Token<&'a str>, SourcePosition, SourcePosition)>;

fn lex(text: &str) -> Result<Out<'_>, String> {
    let mut v = vec![];
    for r in Lexer::new(text) {
        match r {
            Ok((s, t, e)) => v.push((t, s, e)),
            Err(e) => return Err(format!("the tokenizer returns the error {e:?}")),
        }
        if v.len() > text.len() {
            return Err("more tokens than bytes".into());
        }
    }
    Ok(v)
}

fn show(k: Option<K>, s: &str) -> String {
    match k {
        Some(k) => format!("{} {:?}", terms::name(k), s),
        None => format!("a kind no text has {s:?}"),
    }
}

fn c02(text: &str, out: &Out, want: &[Lexeme]) -> Result<(), String> {
    for (i, w) in want.iter().enumerate() {
        let ws = &text[w.start..w.end];
        let Some((t, s, e)) = out.get(i) else {
            return Err(format!(
                "token {i} at {}..{} ({}) is missing",
                w.start,
                w.end,
                show(Some(w.k), ws)
            ));
        };
        let got = kind(t);
        let extent = match payload(t) {
            // The payload is a slice of the text.
            Some(p) => {
                let a = (p.as_ptr() as usize).wrapping_sub(text.as_ptr() as usize);
                if a > text.len() {
                    return Err(format!("payload {p:?} is no part of the text"));
                }
                (a, a + p.len())
            }
            None => (s.position, e.position),
        };
        let same_kind = got == Some(w.k) || (w.loose && got.is_some());
        if !same_kind || extent != (w.start, w.end) || (s.position, e.position) != extent {
            return Err(format!(
                "token {i}: expected {} at {}..{}, the tokenizer gives {} at {}..{}",
                show(Some(w.k), ws),
                w.start,
                w.end,
                show(got, payload(t).unwrap_or("")),
                s.position,
                e.position
            ));
        }
    }
    if out.len() > want.len() {
        let (t, s, _) = &out[want.len()];
        return Err(format!(
            "an additional token {} at {}",
            show(kind(t), payload(t).unwrap_or("")),
            s.position
        ));
    }
    Ok(())
}

fn c03(text: &str, out: &Out) -> Result<(), String> {
    let lines = Lines::new(text);
    let mut last = 0;
    for (i, (t, s, e)) in out.iter().enumerate() {
        let Some(k) = kind(t) else { continue };
        for (what, p) in [("starts", s), ("ends", e)] {
            if p.position > text.len() {
                return Err(format!("token {i} {what} at {p:?}, outside the text"));
            }
            let (l, c) = lines.at(p.position);
            if (p.line, p.column) != (l, c) {
                return Err(format!(
                    "token {i} ({}) {what} at offset {}, line {l}, column {c}; reported {p:?}",
                    show(Some(k), payload(t).unwrap_or("")),
                    p.position
                ));
            }
        }
        let Some(span) = text.get(s.position..e.position) else {
            return Err(format!("token {i} has the span {s:?}..{e:?}"));
        };
        if s.position < last {
            return Err(format!("token {i} starts before the previous one ends"));
        }
        last = e.position;
        let ok = if let Some(p) = payload(t) {
            p.as_ptr() == span.as_ptr() && p.len() == span.len()
        } else if k == UNKNOWN {
            span.chars().count() == 1
                || (span.starts_with("(*") && e.position == text.len())
        } else {
            span == terms::canon(k).s
        };
        if !ok {
            return Err(format!(
                "token {i} ({}) is reported at {}..{}, which is {span:?}",
                show(Some(k), payload(t).unwrap_or("")),
                s.position,
                e.position
            ));
        }
    }
    Ok(())
}

thread_local! {
    static SPELLED: RefCell<HashSet<String>> = RefCell::new(HashSet::new());
}

fn same(a: &Token<&str>, b: &Token<&str>) -> bool {
    kind(a) == kind(b) && payload(a) == payload(b)
}

fn c17(engine: &Engine, text: &str, out: &Out) -> Result<(), String> {
    let mut joined = String::new();
    for (t, s, e) in out {
        let Some(k) = kind(t) else {
            return Err("a token of a kind no text has".into());
        };
        let spelling = String::from(t.clone());
        let source = text.get(s.position..e.position).unwrap_or("");
        let glued = text
            .get(e.position..)
            .and_then(|r| r.chars().next())
            .is_some_and(|c| !c.is_ascii());
        if !joined.is_empty() {
            joined.push(' ');
        }
        joined.push_str(&spelling);
        if k == UNKNOWN {
            continue;
        }
        if spelling != source {
            return Err(format!(
                "the token {source:?} at {} converts into {spelling:?}",
                s.position
            ));
        }
        // The owned form converts alike.
        let key = format!("{k} {spelling}");
        if glued || SPELLED.with(|m| m.borrow().contains(&key)) {
            continue;
        }
        let owned: String = tok_owned(t).into();
        if owned != spelling {
            return Err(format!("the owned token {spelling:?} converts into {owned:?}"));
        }
        engine.add("spellings_tokenized", 1);
        let again = lex(&spelling)?;
        if again.len() != 1 || !same(&again[0].0, t) {
            return Err(format!(
                "the spelling {spelling:?} of {} tokenizes to {:?}",
                show(Some(k), ""),
                again.iter().map(|x| &x.0).collect::<Vec<_>>()
            ));
        }
        SPELLED.with(|m| m.borrow_mut().insert(key));
    }
    // A word glued to a non-ASCII character is a word of its own when joined.
    if !text.is_ascii() {
        return Ok(());
    }
    if text.contains("(*") && out.last().is_some_and(|(t, s, e)| kind(t) == Some(UNKNOWN) && e.position - s.position > 1) {
        return Ok(());
    }
    let again = lex(&joined)?;
    if again.len() != out.len() || again.iter().zip(out).any(|(a, b)| !same(&a.0, &b.0)) {
        // A lone quote character pairs up with a later one.
        let stray = out
            .iter()
            .any(|(t, s, _)| kind(t) == Some(UNKNOWN) && text[s.position..].starts_with('"'));
        if stray {
            return Ok(());
        }
        return Err(format!(
            "the spellings joined by spaces, {joined:?}, tokenize to {:?}",
            again.iter().map(|x| &x.0).collect::<Vec<_>>()
        ));
    }
    Ok(())
}

fn tok_owned(t: &Token<&str>) -> Token<String> {
    let k = kind(t).unwrap_or(UNKNOWN);
    match payload(t) {
        None => match tok_str(k, "") {
            // The token has no payload: same variant, other payload type.
            t => map_fixed(t),
        },
        Some(p) => {
            let p = p.to_string();
            match t {
                Token::ByStrWithSize(_) => Token::ByStrWithSize(p),
                Token::Number(_) => Token::Number(p),
                Token::HexNumber(_) => Token::HexNumber(p),
                Token::StringLiteral(_) => Token::StringLiteral(p),
                Token::Identifier(_) => Token::Identifier(p),
                Token::SpecialIdentifier(_) => Token::SpecialIdentifier(p),
                Token::CustomIdentifier(_) => Token::CustomIdentifier(p),
                Token::TemplateIdentifier(_) => Token::TemplateIdentifier(p),
                _ => Token::Unknown,
            }
        }
    }
}

fn map_fixed(t: Token<&str>) -> Token<String> {
    macro_rules! fixed {
        ($($n:ident),*) => {
            match t { $(Token::$n => Token::$n,)* _ => Token::Unknown }
        };
    }
    fixed!(
        Plus, Asterisk, Semicolon, Colon, Dot, Pipe, OpenBracket, CloseBracket, OpenParen,
        CloseParen, OpenBrace, CloseBrace, Comma, DoubleArrow, Arrow, Equals, Ampersand,
        LeftArrow, ColonEquals, At, Minus, Underscore, Forall, Builtin, Library, Import, Let, In,
        Match, With, End, Fun, Tfun, Contract, Transition, Send, Field, Accept, Exists, Delete,
        Throw, Map, ScillaVersion, Type, Of, As, Procedure, Emp, Event, EventType, ByStr
    )
}

/// One execution: a text.
fn judge(engine: &Engine, text: &str) -> Result<u64, String> {
    let out = lex(text)?;
    match engine.property.as_str() {
        "C02" => c02(text, &out, &reflex::tokenize(text))?,
        "C03" => c03(text, &out)?,
        _ => c17(engine, text, &out)?,
    }
    Ok(out.len() as u64 + 1)
}

struct Family {
    name: &'static str,
    n: usize,
    make: Box<dyn Fn(usize, &mut String) + Sync>,
    /// Too long for a case string: named by its number.
    large: bool,
}

fn family(
    name: &'static str,
    n: usize,
    make: impl Fn(usize, &mut String) + Sync + 'static,
) -> Family {
    Family {
        name,
        n,
        make: Box::new(make),
        large: false,
    }
}

/// All strings of exactly `len` elements of `alphabet`, between `pre` and `post`.
fn strings(
    name: &'static str,
    alphabet: &[&'static str],
    len: usize,
    pre: &'static str,
    post: &'static str,
) -> Family {
    let a = alphabet.to_vec();
    family(name, a.len().pow(len as u32), move |mut i, s| {
        s.push_str(pre);
        for _ in 0..len {
            s.push_str(a[i % a.len()]);
            i /= a.len();
        }
        s.push_str(post);
    })
}

const CHARS: &[&str] = &[
    "(", "*", ")", "\"", "\\", "\n", " ", "-", ">", "=", "<", ":", "_", "0", "x", "a", "A", "1", "'", "+",
    ";", ".", "|", "[", "]", "{", "}", ",", "&", "@", "\t", "\r", "é", "漢", "f", "X", "Z", "z", "9", "F", "B", "S", "t", "r",
    "y", "n", "e", "i", "#", "/", "?", "!", "$", "^", "~", "`", "%", "٣", "½", "\u{a0}", "\u{2003}",
    "\u{feff}", "\u{0}", "😀", "g", "G",
];

const LEXEMES: &[&str] = &[
    "+", "*", ";", ":", ".", "|", "[", "]", "(", ")", "{", "}", ",", "=>", "->", "=", "&", "<-", ":=", "@",
    "-", "_", "forall", "builtin", "library", "import", "let", "in", "match", "with", "end", "fun", "tfun",
    "contract", "transition", "send", "event", "Event", "field", "accept", "exists", "delete", "throw",
    "Map", "scilla_version", "type", "of", "as", "procedure", "Emp", "ByStr", "ByStr20", "ByStr007", "ByStr1_",
    "0", "12", "-3", "-", "0x", "0x1", "0xAb", "0X1f", "0xabcdef0123", "0y", "00x11", "\"\"", "\"a b\"", "\"\\\"\"",
    "\"\\\\\"", "\"(*\"", "\"*)\"", "\"\n\"", "\"é漢\"", "\"contract\"", "\"", "a", "ab1_", "a0x1", "ends", "en", "End", "END",
    "_a", "__", "_1", "_0x", "_end", "T", "MapX", "Ma", "Emp1", "EventX", "ByStrX", "ByStr_", "ByStr_1", "XByStr",
    "'A", "'Ab_1", "'", "'a", "'_", "''A", "#", "é", "漢", "<", ">", "!", "(*c*)", "(**)", "(***)", "(*(*)", "(*\n*)", "(*\"*)",
    "(*é*)", "(*", "*)", "(*)", "\\", "/", "lib", "libraryx", "type1", "as_", "scilla_versio", "scilla_version0",
];

const SEPS: &[&str] = &[
    "", " ", "\n", "\t", "\r\n", "(**)", "(* a\n b *)", "  ", "\n\n", "\u{a0}", "(*é*)", "\u{2028}", " \n",
];

fn families(engine: &Engine) -> Vec<Family> {
    let mut v = vec![];
    for l in 0..=2 {
        v.push(strings("short strings", CHARS, l, "", ""));
    }
    // Most words are slow to tokenize: the wide alphabet to length 3, a
    // narrower one beyond.
    v.push(strings("strings of 3", &CHARS[..engine.pick(48, CHARS.len())], 3, "", ""));
    let narrow: &[&str] = &CHARS[..engine.pick(16, 34)];
    v.push(strings("strings of 4", narrow, 4, "", ""));
    if !engine.quick() {
        v.push(strings("strings of 5", &CHARS[..20], 5, "", ""));
    }
    let operators = ["(", "*", ")", "\"", "\n", "-", ">", "=", "\\", "é", " ", "<", ":", "_"];
    v.push(strings("strings of 5, operators", &operators[..engine.pick(9, 14)], 5, "", ""));
    // The inside of comments, strings, words and numbers.
    let inside: &[&str] = &["*", "(", ")", "\"", "\n", "a", "é", "\\", " "];
    for l in 0..=engine.pick(4, 6) {
        v.push(strings("inside a comment", inside, l, "a (*", "*) b"));
        v.push(strings("unterminated comment", inside, l, "x\n(*", ""));
        v.push(strings("inside a string", inside, l, "a \"", "\" b"));
        v.push(strings("unterminated string", inside, l, "x\n \"", ""));
        v.push(strings("after a string with a line feed", inside, l, "\"\n\"", " b"));
    }
    for l in 0..=engine.pick(5, 7) {
        v.push(strings("before a token", &[" ", "\n", "\t", "\r", "(*\n*)", "(*é*)"], l, "a", "contract"));
        v.push(strings("hex numbers", &["0", "a", "F", "g", "x", "_"], l, "0x", ""));
        v.push(strings("sizes", &["0", "1", "9", "_", "a"], l, "ByStr", " ByStr20"));
        v.push(strings("numbers", &["-", "0", "7", "a", "+"], l, "", ""));
        v.push(strings("words", &["_", "a", "Z", "0", "'"], l, "", " end"));
    }
    // Pairs and triples of lexemes.
    let n = LEXEMES.len();
    let m = SEPS.len();
    v.push(family("pairs of lexemes", n * n * m, move |i, s| {
        s.push_str(LEXEMES[i % n]);
        s.push_str(SEPS[i / n / n]);
        s.push_str(LEXEMES[i / n % n]);
    }));
    let some: Vec<&'static str> = LEXEMES.iter().copied().step_by(engine.pick(7, 2)).collect();
    let seps: &'static [&'static str] = &["", " ", "\n", "(* a\n b *)"];
    let c = some.len();
    v.push(family("triples of lexemes", c * c * c * 16, move |mut i, s| {
        for j in 0..3 {
            s.push_str(some[i % c]);
            i /= c;
            if j < 2 {
                s.push_str(seps[i % 4]);
                i /= 4;
            }
        }
    }));
    // Every keyword with every change of one character, and prefixes.
    let words: Vec<String> = {
        let mut w = vec![];
        for t in TERMS.iter().take(NTERMS) {
            let t = t.1;
            for cut in 0..=t.len() {
                if !t.is_char_boundary(cut) {
                    continue;
                }
                w.push(t[..cut].to_string());
                for c in ["_", "a", "Z", "0", "'", "é", "-", "\"", "(*x*)", "\n"] {
                    w.push(format!("{}{}{}", &t[..cut], c, &t[cut..]));
                    w.push(format!("{c} {}{} {}", &t[..cut], c, &t[cut..]));
                    if cut < t.len() {
                        w.push(format!("{}{}{}", &t[..cut], c, &t[cut + 1..]));
                    }
                }
                if cut < t.len() {
                    w.push(format!("{}{}", &t[..cut], &t[cut + 1..]));
                    w.push(format!("{}{}{}", &t[..cut], t[cut..cut + 1].to_uppercase(), &t[cut + 1..]));
                    w.push(format!("{}{}{}", &t[..cut], t[cut..cut + 1].to_lowercase(), &t[cut + 1..]));
                }
            }
            w.push(t.to_uppercase());
            w.push(format!("{t}{t}"));
            w.push(format!("{t} {t}"));
        }
        w.sort();
        w.dedup();
        w
    };
    v.push(family("changed keywords", words.len(), move |i, s| s.push_str(&words[i])));
    // Every character, in every surrounding.
    let around: &'static [(&'static str, &'static str)] = &[
        (";", ";"),
        ("a", " ;"),
        ("\"", "\";"),
        ("(*", "*);"),
        ("; ", "end"),
        ("-", ";"),
        ("0x1", ";"),
        ("3", ";"),
        ("'A", ";"),
        ("_", "_ ;"),
        ("ByStr", "2"),
        ("'", "A"),
        ("=", ">"),
        ("(", "*c"),
        ("\"\\", "\";"),
        (";\n", ""),
    ];
    // The other checks see the same texts; it is the tokenizer's choices that
    // depend on the character.
    let (narrow, wide) = match (engine.quick(), engine.property == "C02") {
        (true, true) => (0x2100, 0xffff),
        (true, false) => (0x600, 0x2100),
        (false, true) => (0x30000, 0x10ffff),
        (false, false) => (0x3000, 0xffff),
    };
    let all = |last: u32, around: &'static [(&'static str, &'static str)]| {
        let chars: Vec<char> = (0..=last).filter_map(char::from_u32).collect();
        family("every character", chars.len() * around.len(), move |i, s| {
            let (a, b) = around[i % around.len()];
            s.push_str(a);
            s.push(chars[i / around.len()]);
            s.push_str(b);
        })
    };
    v.push(all(narrow, around));
    v.push(all(wide, &around[..2]));
    // Lengths.
    let heads: &'static [(&'static str, &'static str, &'static str)] = &[
        ("", "a", ""),
        ("_", "a", ""),
        ("T", "x", ""),
        ("'T", "x", ""),
        ("", "7", ""),
        ("-", "0", ""),
        ("0x", "ab", ""),
        ("0x", "a", ""),
        ("ByStr", "1", ""),
        ("\"", "s", "\""),
        ("\"", "\\\"", "\""),
        ("\"", "é", "\""),
        ("\"", "\n", "\""),
        ("(*", "c", "*)"),
        ("(*", "\n", "*)"),
        ("(*", "漢", "*)"),
        ("(", "*", ")"),
        ("", "(", ""),
        ("", "\n", "a"),
        ("", " ", "a"),
        ("", "\r\n", "a"),
        ("", "\t", "a"),
        ("", "é", "a"),
        ("", "a;", ""),
        ("", "a\n", ""),
    ];
    let longest = engine.pick(130, 700);
    v.push(family("lengths", heads.len() * longest, move |i, s| {
        let (a, b, c) = heads[i % heads.len()];
        s.push_str("x ");
        s.push_str(a);
        for _ in 0..i / heads.len() {
            s.push_str(b);
        }
        s.push_str(c);
        s.push_str(" y\nz");
    }));
    let sizes: &'static [usize] = &[255, 256, 257, 1000, 4096, 65535, 65536, 65537, 70001];
    let mut f = family("large texts", heads.len() * sizes.len(), move |i, s| {
        let (a, b, c) = heads[i % heads.len()];
        let mut n = sizes[i / heads.len()];
        if b.contains('a') && n > 5000 && b != "a" {
            n /= 16; // many words
        }
        if b == "é" && a.is_empty() {
            n /= 16;
        }
        s.push_str("x ");
        s.push_str(a);
        for _ in 0..n {
            s.push_str(b);
        }
        s.push_str(c);
        s.push_str(" y\nz contract");
    });
    f.large = true;
    v.push(f);
    let corpus = corpus();
    let mut f = family("contracts", corpus.len() * 3, move |i, s| {
        let t = &corpus[i / 3];
        match i % 3 {
            0 => s.push_str(t),
            1 => s.push_str(&t.replace('\n', "\r\n")),
            _ => s.push_str(&t.replace("  ", "\t").replace("(*", "(* é\n")),
        }
    });
    f.large = true;
    v.push(f);
    v
}

/// The contracts of the test suite, as additional texts.
fn corpus() -> Vec<String> {
    let mut v: Vec<_> = std::fs::read_dir("/repo/tests/contracts")
        .map(|d| d.flatten().map(|e| e.path()).collect())
        .unwrap_or_else(|_| Vec::<std::path::PathBuf>::new());
    v.sort();
    v.iter()
        .filter(|p| p.extension().is_some_and(|e| e == "scilla"))
        .filter_map(|p| std::fs::read_to_string(p).ok())
        .collect()
}

fn run(engine: &Engine) {
    if engine.property == "C17" {
        fixed_tokens(engine);
    }
    let families = families(engine);
    // States: the sequences of token classes reached.
    let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    for (fi, f) in families.iter().enumerate() {
        if engine.stopped() {
            break;
        }
        let chunk = if f.large { 1 } else { 512 };
        engine.parallel(f.n.div_ceil(chunk), |c| {
            let mut text = String::new();
            let (mut texts, mut steps) = (0, 0);
            let mut kinds = vec![];
            for i in c * chunk..((c + 1) * chunk).min(f.n) {
                text.clear();
                (f.make)(i, &mut text);
                let case = if f.large {
                    format!("f:{fi}:{i}")
                } else {
                    format!("x:{text}")
                };
                let mut n = 0;
                engine.check(&case, || {
                    n = judge(engine, &text)?;
                    Ok(())
                });
                texts += 1;
                steps += n;
                kinds.push(sequence(&text));
            }
            let mut seen = seen.lock().unwrap();
            let before = seen.len();
            seen.extend(kinds);
            engine.add("states", (seen.len() - before) as u64);
            engine.add("traces_validated_against_impl", texts);
            engine.add("transitions", steps);
        });
        if f.n > 1 {
            let mut s = String::new();
            (f.make)(f.n / 2, &mut s);
            engine.sample(format!("{}: {s:?}", f.name));
        }
        engine.progress(&format!("{} ({})", f.name, f.n));
    }
    engine.note("families", families.iter().map(|f| f.name).collect::<HashSet<_>>().len());
}

fn sequence(text: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for l in reflex::tokenize(text) {
        (l.k, l.loose).hash(&mut h);
    }
    h.finish()
}

fn fixed_tokens(engine: &Engine) {
    let mut seen: Vec<(String, K)> = vec![];
    for k in 0..NTERMS as K {
        if terms::has_payload(k) {
            continue;
        }
        engine.check(&format!("k:{k}"), || {
            let s = String::from(tok_str(k, ""));
            if s != terms::canon(k).s {
                return Err(format!("the token {} converts into {s:?}", terms::name(k)));
            }
            if let Some(o) = seen.iter().find(|o| o.0 == s) {
                return Err(format!("{} and {} are both spelled {s:?}", terms::name(k), terms::name(o.1)));
            }
            seen.push((s, k));
            Ok(())
        });
    }
    engine.add("fixed_tokens", seen.len() as u64);
}

fn replay(engine: &Engine, case: &str) {
    if let Some(t) = case.strip_prefix("x:") {
        engine.check(case, || judge(engine, t).map(|_| ()));
    } else if let Some(r) = case.strip_prefix("f:") {
        let (f, i) = r.split_once(':').unwrap_or(("0", "0"));
        let (f, i): (usize, usize) = (f.parse().unwrap_or(0), i.parse().unwrap_or(0));
        let fs = families(engine);
        let mut s = String::new();
        (fs[f].make)(i, &mut s);
        engine.check(case, || judge(engine, &s).map(|_| ()));
    } else {
        fixed_tokens(engine);
    }
}

const ASSUME: &[&str] = &[
    "the class of a word directly followed by a non-ASCII character is not judged, its extent is",
    "the reference tokenizer (mc/src/reflex.rs) states Scilla's lexical rules as documented in DESIGN.md",
];

fn main() {
    engine::main(&[
        Check {
            spec: Spec {
                property: "C02",
                rule: "every text of every family is tokenized by the real Lexer and compared token by token with the reference tokenizer: all strings up to the stated lengths over the stated alphabets, all pairs and triples of lexemes with all separators, all one-character changes of keywords, insides of comments and strings, every character up to U+2100 (U+30000) in 16 surroundings and up to U+FFFF (every one) in two, lengths and large texts",
                assumptions: ASSUME,
            },
            run,
            replay,
        },
        Check {
            spec: Spec {
                property: "C03",
                rule: "every text of every family is tokenized by the real Lexer; start and end of every token are compared with line and column counted in the text, and the text under them with the token",
                assumptions: ASSUME,
            },
            run,
            replay,
        },
        Check {
            spec: Spec {
                property: "C17",
                rule: "every text of every family is tokenized by the real Lexer; every token is converted into a string, compared with the source, tokenized again alone and joined with the others",
                assumptions: &[
                    "unknown tokens have no spelling; words glued to a non-ASCII character, and texts with a quote that is never closed, are not joined",
                ],
            },
            run,
            replay,
        },
    ]);
}
