//! The reference tokenizer: Scilla's lexical rules written down directly, one
//! character at a time, with no regular expressions.

use crate::terms::{self, K, NTERMS, TERMS, UNKNOWN};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Lexeme {
    pub start: usize,
    pub end: usize,
    pub k: K,
    /// The class is unspecified: a word glued to a non-ASCII character.
    pub loose: bool,
}

fn word(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_'
}

/// Kind of a whole word, for a word that starts with a letter.
fn word_kind(w: &str) -> K {
    if let Some(rest) = w.strip_prefix("ByStr") {
        if !rest.is_empty() && rest.bytes().all(|b| b.is_ascii_digit()) {
            return terms::BYSTRN;
        }
    }
    for k in 0..NTERMS {
        if !TERMS[k].2 && TERMS[k].1 == w {
            return k as K;
        }
    }
    if w.as_bytes()[0].is_ascii_lowercase() {
        terms::ID
    } else {
        terms::CID
    }
}

pub fn tokenize(text: &str) -> Vec<Lexeme> {
    let b = text.as_bytes();
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let ch = text[i..].chars().next().unwrap();
        if ch.is_whitespace() {
            i += ch.len_utf8();
            continue;
        }
        let start = i;
        let mut loose = false;
        let two = |x: &str| terms::kind_of(x);
        let k = if c == b'(' && at(i + 1) == b'*' {
            let mut j = i + 2;
            while j + 1 < b.len() && !(b[j] == b'*' && b[j + 1] == b')') {
                j += 1;
            }
            if j + 1 < b.len() {
                i = j + 2;
                continue;
            }
            i = b.len();
            UNKNOWN
        } else if c == b'=' && at(i + 1) == b'>' {
            i += 2;
            two("=>")
        } else if c == b'-' && at(i + 1) == b'>' {
            i += 2;
            two("->")
        } else if c == b'<' && at(i + 1) == b'-' {
            i += 2;
            two("<-")
        } else if c == b':' && at(i + 1) == b'=' {
            i += 2;
            two(":=")
        } else if c.is_ascii_digit() || (c == b'-' && at(i + 1).is_ascii_digit()) {
            if c == b'0' && (at(i + 1) == b'x' || at(i + 1) == b'X') {
                i += 2;
                while at(i).is_ascii_hexdigit() && at(i + 1).is_ascii_hexdigit() {
                    i += 2;
                }
                terms::HEX
            } else {
                i += 1;
                while at(i).is_ascii_digit() {
                    i += 1;
                }
                terms::NUM
            }
        } else if c.is_ascii_alphabetic() {
            while word(at(i)) {
                i += 1;
            }
            loose = at(i) >= 0x80;
            word_kind(&text[start..i])
        } else if c == b'_' {
            i += 1;
            while word(at(i)) {
                i += 1;
            }
            loose = at(i) >= 0x80;
            if i == start + 1 {
                terms::kind_of("_")
            } else {
                terms::SPID
            }
        } else if c == b'\'' && at(i + 1).is_ascii_uppercase() {
            i += 2;
            while word(at(i)) {
                i += 1;
            }
            loose = at(i) >= 0x80;
            terms::TID
        } else if c == b'"' {
            let mut j = i + 1;
            while j < b.len() && b[j] != b'"' {
                j += if b[j] == b'\\' { 2 } else { 1 };
            }
            if j < b.len() {
                i = j + 1;
                terms::STR
            } else {
                i += 1;
                UNKNOWN
            }
        } else {
            i += ch.len_utf8();
            let s = &text[start..i];
            let mut k = UNKNOWN;
            for (n, t) in TERMS.iter().enumerate() {
                if !t.2 && t.1 == s {
                    k = n as K;
                }
            }
            // A minus sign before a digit of another script.
            loose = c == b'-' && at(i) >= 0x80;
            k
        };
        out.push(Lexeme {
            start,
            end: i,
            k,
            loose,
        });
    }
    out
}

/// Line and column of every byte offset of a text, both counted from zero, the
/// column in bytes.
pub struct Lines {
    starts: Vec<usize>,
}

impl Lines {
    pub fn new(text: &str) -> Lines {
        let mut starts = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                starts.push(i + 1);
            }
        }
        Lines { starts }
    }
    pub fn at(&self, offset: usize) -> (usize, usize) {
        let l = self.starts.partition_point(|s| *s <= offset) - 1;
        (l, offset - self.starts[l])
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    fn show(t: &str) -> String {
        tokenize(t)
            .iter()
            .map(|l| format!("{}:{}", terms::name(l.k), &t[l.start..l.end]))
            .collect::<Vec<_>>()
            .join(" ")
    }

    #[test]
    fn examples() {
        assert_eq!(show("a(*)b"), "ID:a ?:(*)b");
        assert_eq!(show("a(* *) (***)b"), "ID:a ID:b");
        assert_eq!(show("0xabc -1->-a"), "HEX:0xab ID:c NUM:-1 ->:-> -:- ID:a");
        assert_eq!(show(r#""a\"b" "c"#), r#"STR:"a\"b" ?:" ID:c"#);
        assert_eq!(show("ByStr ByStr2 ByStr2_ By Map _ _a"), "ByStr:ByStr BYSTRN:ByStr2 CID:ByStr2_ CID:By Map:Map _:_ SPID:_a");
        assert_eq!(show("'A ' 'a é"), "TID:'A ?:' ?:' ID:a ?:é");
        assert_eq!(Lines::new("a\nbc").at(3), (1, 1));
    }
}
