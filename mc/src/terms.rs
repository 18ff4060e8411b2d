//! Terminals of the reference grammar, and tokens with payloads.

/// Kind of a terminal: index into `TERMS`.
pub type K = u8;

/// (name in the reference grammar, canonical spelling, carries a payload)
pub const TERMS: &[(&str, &str, bool)] = &[
    ("+", "+", false),
    ("*", "*", false),
    (";", ";", false),
    (":", ":", false),
    (".", ".", false),
    ("|", "|", false),
    ("[", "[", false),
    ("]", "]", false),
    ("(", "(", false),
    (")", ")", false),
    ("{", "{", false),
    ("}", "}", false),
    (",", ",", false),
    ("=>", "=>", false),
    ("->", "->", false),
    ("=", "=", false),
    ("&", "&", false),
    ("<-", "<-", false),
    (":=", ":=", false),
    ("@", "@", false),
    ("-", "-", false),
    ("_", "_", false),
    ("forall", "forall", false),
    ("builtin", "builtin", false),
    ("library", "library", false),
    ("import", "import", false),
    ("let", "let", false),
    ("in", "in", false),
    ("match", "match", false),
    ("with", "with", false),
    ("end", "end", false),
    ("fun", "fun", false),
    ("tfun", "tfun", false),
    ("contract", "contract", false),
    ("transition", "transition", false),
    ("send", "send", false),
    ("event", "event", false),
    ("Event", "Event", false),
    ("field", "field", false),
    ("accept", "accept", false),
    ("exists", "exists", false),
    ("delete", "delete", false),
    ("throw", "throw", false),
    ("Map", "Map", false),
    ("scilla_version", "scilla_version", false),
    ("type", "type", false),
    ("of", "of", false),
    ("as", "as", false),
    ("procedure", "procedure", false),
    ("Emp", "Emp", false),
    ("ByStr", "ByStr", false),
    ("BYSTRN", "ByStr20", true),
    ("NUM", "0", true),
    ("HEX", "0x12", true),
    ("STR", "\"s\"", true),
    ("ID", "a", true),
    ("SPID", "_a", true),
    ("CID", "T", true),
    ("TID", "'A", true),
];

pub const NTERMS: usize = TERMS.len();
/// Not a terminal of the grammar: the tokenizer's answer to garbage.
pub const UNKNOWN: K = 63;

pub const fn kind_of(name: &str) -> K {
    let mut i = 0;
    while i < TERMS.len() {
        if const_eq(TERMS[i].0, name) {
            return i as K;
        }
        i += 1;
    }
    panic!("no such terminal")
}

const fn const_eq(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

pub const BYSTRN: K = kind_of("BYSTRN");
pub const NUM: K = kind_of("NUM");
pub const HEX: K = kind_of("HEX");
pub const STR: K = kind_of("STR");
pub const ID: K = kind_of("ID");
pub const SPID: K = kind_of("SPID");
pub const CID: K = kind_of("CID");
pub const TID: K = kind_of("TID");
pub const BYSTR: K = kind_of("ByStr");
pub const EVENT_TYPE: K = kind_of("Event");

pub fn name(k: K) -> &'static str {
    if k == UNKNOWN {
        "?"
    } else {
        TERMS[k as usize].0
    }
}

pub fn has_payload(k: K) -> bool {
    (k as usize) < NTERMS && TERMS[k as usize].2
}

/// A token: its kind and its spelling.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct T {
    pub k: K,
    pub s: &'static str,
}

/// Token with the canonical spelling of its kind.
pub fn canon(k: K) -> T {
    if k == UNKNOWN {
        return T { k, s: "?" };
    }
    T {
        k,
        s: TERMS[k as usize].1,
    }
}

/// Token whose spelling is unique to position `i` when the kind has a payload.
pub fn unique(k: K, i: usize) -> T {
    if !has_payload(k) {
        return canon(k);
    }
    use std::sync::OnceLock;
    static CACHE: OnceLock<Vec<Vec<&'static str>>> = OnceLock::new();
    let make = |k: K, i: usize| -> String {
        match k {
            BYSTRN => format!("ByStr{}", 100 + i),
            NUM => {
                if i % 2 == 1 {
                    format!("-{}", 1000 + i)
                } else {
                    format!("{}", 1000 + i)
                }
            }
            HEX => format!("0x{:04x}", 0xab00 + i),
            STR => format!("\"s{} (* \\\" *)\"", i),
            ID => format!("v{}", i),
            SPID => format!("_s{}", i),
            CID => format!("N{}", i),
            TID => format!("'A{}", i),
            _ => unreachable!(),
        }
    };
    let cache = CACHE.get_or_init(|| {
        (0..NTERMS)
            .map(|k| {
                if !has_payload(k as K) {
                    return vec![];
                }
                (0..2048)
                    .map(|i| &*Box::leak(make(k as K, i).into_boxed_str()))
                    .collect()
            })
            .collect()
    });
    T {
        k,
        s: match cache[k as usize].get(i) {
            Some(s) => s,
            None => Box::leak(make(k, i).into_boxed_str()),
        },
    }
}

/// Text of a token sequence, separated by single spaces.
pub fn text(toks: &[T]) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(t.s);
    }
    s
}

/// A word or literal of kind k that is about n characters long.
pub fn sized(k: K, n: usize, variant: usize) -> &'static str {
    let of = |head: &str, body: &[&str], tail: &str| -> &'static str {
        let b = body[variant % body.len()];
        let left = n.saturating_sub(head.len() + tail.len());
        let s = format!("{head}{}{tail}", b.repeat(left.div_ceil(b.len())));
        Box::leak(s.into_boxed_str())
    };
    match k {
        ID => of(["v", "end", "x"][variant % 3], &["a", "_", "0"], "_"),
        CID => of(["T", "Uint128", "Option"][variant % 3], &["x", "A", "_"], "_"),
        BYSTRN => of("ByStr1", &["0", "9", "12"], ""),
        NUM => of(["1", "-", "0"][variant % 3], &["0", "9", "42"], "7"),
        HEX => of("0x", &["00", "fF", "A1"], "aB"),
        STR => of("\"", &["s", "\\\"", "(*"], "\""),
        SPID => of("_", &["x", "_", "9"], "a"),
        TID => of("'A", &["A", "_", "9"], ""),
        _ => canon(k).s,
    }
}

/// Names that mean something to Scilla or to its libraries, or nearly do; none
/// of them means anything to the grammar.
pub fn vocabulary(k: K) -> &'static [&'static str] {
    match k {
        ID => &[
            "add", "sub", "mul", "div", "rem", "pow", "isqrt", "eq", "lt", "blt", "badd", "bsub", "put", "get", "contains",
            "remove", "size", "concat", "substr", "strlen", "strrev", "to_string", "to_ascii", "to_list", "to_nat", "to_uint32",
            "to_uint128", "to_int64", "to_bystr", "to_bystr20", "to_bystrx", "sha256hash", "keccak256hash", "ripemd160hash",
            "schnorr_verify", "ecdsa_verify", "bech32_to_bystr20", "alt_bn128_G1_add", "negb", "andb", "orb", "fst", "snd",
            "list_map", "list_foldl", "one_msg", "nil_msg", "owner", "sender", "amount", "origin", "balance", "this", "self",
            "main", "init", "constructor", "fallback", "balances", "total_supply", "init_supply", "name", "symbol", "decimals",
            "message", "msg", "msgs", "event_", "int32", "uint128", "string", "bool", "bystr20", "map_", "option", "list", "pair",
            "bnum", "true", "false", "none", "some", "nil", "new", "var", "const", "if", "else", "then", "do", "return", "for",
            "while", "struct", "r", "x", "test", "deprecated", "tmp", "i", "o", "eventname", "r_", "scilla", "fields",
            "params", "transitions", "procedures", "get_balance", "set_owner", "on_receive", "r1",
        ],
        CID => &[
            "Zero", "Succ", "And", "Or", "EQ", "LT", "GT", "Fst", "Snd", "ListUtils", "BoolUtils", "PairUtils", "IntUtils",
            "NatUtils", "Conversions", "Polynetwork", "CryptoUtils", "Cryptolib", "Exception", "Error", "Message", "Address",
            "Lib", "Library", "Contract", "Transition", "Procedure", "Field", "With", "End", "Type", "Import", "Main", "Init",
            "ZRC2", "ZRC6", "FungibleToken", "HelloWorld", "Int", "Int8", "Int16", "Uint8", "Uint16", "Uint64T", "Str", "Boolean",
            "Unit", "Nat", "Either", "Left", "Right", "Result", "Ok", "Err", "Tuple", "Set", "Array", "Vec", "Maybe", "Just",
            "Nothing", "Bytes", "Byte", "Hash", "Void", "Any", "Self", "Closure", "TypeVar", "PolyFun", "BlockNumber", "Char",
        ],
        SPID => &[
            "_sender", "_amount", "_origin", "_tag", "_recipient", "_this_address", "_creation_block", "_scilla_version",
            "_balance", "_nonce", "_codehash", "_eventname", "_exception", "_extlibs", "_code", "_library", "_hash", "__init__",
            "_main", "_0x00", "_BLOCKNUMBER", "_depth",
        ],
        _ => &[],
    }
}

/// Spellings that need care, by kind.
pub fn nasty(k: K) -> &'static [&'static str] {
    match k {
        BYSTRN => &[
            "ByStr0", "ByStr1", "ByStr20", "ByStr020", "ByStr00000000000000000000000000000020", "ByStr21", "ByStr2",
            "ByStr18446744073709551615", "ByStr18446744073709551616", "ByStr99999999999999999999999999999999999",
            "ByStr4294967296",
        ],
        NUM => &[
            "0", "-0", "-1", "00", "340282366920938463463374607431768211456", "-99999999999999999999", "18446744073709551616",
            "7", "1", "2147483648", "-00000000000000000000000000000000000000001",
        ],
        HEX => &["0x", "0x00", "0xffffffffffffffffffffffffffffffffffffffffffffffff", "0xAb"],
        STR => &["\"\"", "\" \"", "\"\\\"\"", "\"\\\\\"", "\"\n\"", "\"é\"", "\"(*\"", "\"*)\"", "\"end\""],
        ID => &["a", "x1", "f_", "a'", "ends", "string", "uint32", "é1"],
        CID => &[
            "Option", "List", "Pair", "Int32", "Int64", "Int128", "Int256", "Uint32", "Uint64", "Uint128", "Uint256", "String",
            "BNum", "Bool", "True", "False", "Nil", "Cons", "Some", "None", "T", "Message", "ByStrX", "ByStr20x", "Byte", "Maps",
            "Nat", "Unit", "Int512", "Uint", "É",
        ],
        SPID => &["_sender", "__", "_0", "_a'", "_é"],
        TID => &["'A", "'Zz_9", "'É"],
        _ => &[],
    }
}

pub fn dress(ks: &[K], i: usize) -> Vec<(K, &'static str)> {
    ks.iter()
        .enumerate()
        .map(|(j, k)| {
            let l = nasty(*k);
            (*k, if l.is_empty() { canon(*k).s } else { l[(i + j * 5) % l.len()] })
        })
        .collect()
}

/// Whether a word is, on its own, one token of the kind.
pub fn is_word(k: K, s: &str) -> bool {
    let l = crate::reflex::tokenize(s);
    l.len() == 1 && l[0].k == k && !l[0].loose
}

/// Lengths of words to try: all small ones and those around powers of two.
pub fn lengths(small: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=small).collect();
    v.extend([255, 256, 257, 511, 512, 513, 1000, 1024, 4096, 65_536]);
    v.sort();
    v.dedup();
    v
}
