//! Bridge to the code under test: tokens and parsers.
#![allow(dead_code)]

use lalrpop_util::ParseError;
use mc::terms::{self, K, T};
use scilla_parser::parser::lexer::{self, Lexer, SourcePosition, Token};

pub type Tok = Token<&'static str>;
pub type PErr = ParseError<SourcePosition, Tok, lexer::ParseError>;
pub type Item = Result<(SourcePosition, Tok, SourcePosition), lexer::ParseError>;

pub fn tok(t: T) -> Tok {
    tok_str(t.k, t.s)
}

pub fn tok_str(k: K, s: &str) -> Token<&str> {
    match terms::name(k) {
        "+" => Token::Plus,
        "*" => Token::Asterisk,
        ";" => Token::Semicolon,
        ":" => Token::Colon,
        "." => Token::Dot,
        "|" => Token::Pipe,
        "[" => Token::OpenBracket,
        "]" => Token::CloseBracket,
        "(" => Token::OpenParen,
        ")" => Token::CloseParen,
        "{" => Token::OpenBrace,
        "}" => Token::CloseBrace,
        "," => Token::Comma,
        "=>" => Token::DoubleArrow,
        "->" => Token::Arrow,
        "=" => Token::Equals,
        "&" => Token::Ampersand,
        "<-" => Token::LeftArrow,
        ":=" => Token::ColonEquals,
        "@" => Token::At,
        "-" => Token::Minus,
        "_" => Token::Underscore,
        "forall" => Token::Forall,
        "builtin" => Token::Builtin,
        "library" => Token::Library,
        "import" => Token::Import,
        "let" => Token::Let,
        "in" => Token::In,
        "match" => Token::Match,
        "with" => Token::With,
        "end" => Token::End,
        "fun" => Token::Fun,
        "tfun" => Token::Tfun,
        "contract" => Token::Contract,
        "transition" => Token::Transition,
        "send" => Token::Send,
        "event" => Token::Event,
        "Event" => Token::EventType,
        "field" => Token::Field,
        "accept" => Token::Accept,
        "exists" => Token::Exists,
        "delete" => Token::Delete,
        "throw" => Token::Throw,
        "Map" => Token::Map,
        "scilla_version" => Token::ScillaVersion,
        "type" => Token::Type,
        "of" => Token::Of,
        "as" => Token::As,
        "procedure" => Token::Procedure,
        "Emp" => Token::Emp,
        "ByStr" => Token::ByStr,
        "BYSTRN" => Token::ByStrWithSize(s),
        "NUM" => Token::Number(s),
        "HEX" => Token::HexNumber(s),
        "STR" => Token::StringLiteral(s),
        "ID" => Token::Identifier(s),
        "SPID" => Token::SpecialIdentifier(s),
        "CID" => Token::CustomIdentifier(s),
        "TID" => Token::TemplateIdentifier(s),
        _ => Token::Unknown,
    }
}

/// Kind of a token of the code under test; None for a kind the tokenizer
/// never produces from a text.
pub fn kind<S>(t: &Token<S>) -> Option<K> {
    let n = match t {
        Token::Plus => "+",
        Token::Asterisk => "*",
        Token::Semicolon => ";",
        Token::Colon => ":",
        Token::Dot => ".",
        Token::Pipe => "|",
        Token::OpenBracket => "[",
        Token::CloseBracket => "]",
        Token::OpenParen => "(",
        Token::CloseParen => ")",
        Token::OpenBrace => "{",
        Token::CloseBrace => "}",
        Token::Comma => ",",
        Token::DoubleArrow => "=>",
        Token::Arrow => "->",
        Token::Equals => "=",
        Token::Ampersand => "&",
        Token::LeftArrow => "<-",
        Token::ColonEquals => ":=",
        Token::At => "@",
        Token::Minus => "-",
        Token::Underscore => "_",
        Token::Forall => "forall",
        Token::Builtin => "builtin",
        Token::Library => "library",
        Token::Import => "import",
        Token::Let => "let",
        Token::In => "in",
        Token::Match => "match",
        Token::With => "with",
        Token::End => "end",
        Token::Fun => "fun",
        Token::Tfun => "tfun",
        Token::Contract => "contract",
        Token::Transition => "transition",
        Token::Send => "send",
        Token::Event => "event",
        Token::EventType => "Event",
        Token::Field => "field",
        Token::Accept => "accept",
        Token::Exists => "exists",
        Token::Delete => "delete",
        Token::Throw => "throw",
        Token::Map => "Map",
        Token::ScillaVersion => "scilla_version",
        Token::Type => "type",
        Token::Of => "of",
        Token::As => "as",
        Token::Procedure => "procedure",
        Token::Emp => "Emp",
        Token::ByStr => "ByStr",
        Token::ByStrWithSize(_) => "BYSTRN",
        Token::Number(_) => "NUM",
        Token::HexNumber(_) => "HEX",
        Token::StringLiteral(_) => "STR",
        Token::Identifier(_) => "ID",
        Token::SpecialIdentifier(_) => "SPID",
        Token::CustomIdentifier(_) => "CID",
        Token::TemplateIdentifier(_) => "TID",
        Token::Unknown => return Some(terms::UNKNOWN),
        _ => return None,
    };
    Some(terms::kind_of(n))
}

pub fn payload<'a>(t: &Token<&'a str>) -> Option<&'a str> {
    match t {
        Token::ByStrWithSize(s)
        | Token::Number(s)
        | Token::HexNumber(s)
        | Token::StringLiteral(s)
        | Token::Identifier(s)
        | Token::SpecialIdentifier(s)
        | Token::CustomIdentifier(s)
        | Token::TemplateIdentifier(s)
        | Token::TypeName(s)
        | Token::Comment(s) => Some(s),
        _ => None,
    }
}

/// Positions of the i-th token of a synthetic sequence: all distinct, with
/// gaps between tokens.
pub fn start_of(i: usize) -> SourcePosition {
    SourcePosition {
        position: 10 * i + 1,
        line: 2 * i + 1,
        column: i + 3,
    }
}

pub fn end_of(i: usize) -> SourcePosition {
    SourcePosition {
        position: 10 * i + 6,
        line: 2 * i + 2,
        column: i + 5,
    }
}

/// The i-th token of a sequence of kinds, with a payload of its own.
pub fn item(k: K, i: usize) -> Item {
    Ok((start_of(i), tok(terms::unique(k, i)), end_of(i)))
}

/// The token iterator given to the parsers: kinds, and possibly one more.
pub struct Toks<'a> {
    ks: &'a [K],
    more: Option<K>,
    i: usize,
}

impl<'a> Toks<'a> {
    pub fn new(ks: &'a [K], more: Option<K>) -> Self {
        Toks { ks, more, i: 0 }
    }
}

impl Iterator for Toks<'_> {
    type Item = Item;
    fn next(&mut self) -> Option<Item> {
        let i = self.i;
        self.i += 1;
        if i < self.ks.len() {
            Some(item(self.ks[i], i))
        } else if i == self.ks.len() {
            self.more.map(|k| item(k, i))
        } else {
            None
        }
    }
}

pub fn lex(text: &str) -> Vec<(Token<&str>, SourcePosition, SourcePosition)> {
    Lexer::new(text)
        .map(|r| match r {
            Ok((s, t, e)) => (t, s, e),
            Err(_) => unreachable!(),
        })
        .collect()
}

/// Short text of a sequence of kinds.
pub fn show(ks: &[K]) -> String {
    let v: Vec<&str> = ks
        .iter()
        .enumerate()
        .map(|(i, k)| {
            if *k == terms::UNKNOWN {
                "?"
            } else {
                terms::unique(*k, i).s
            }
        })
        .collect();
    v.join(" ")
}

/// Expands `$m!(Name Parser, ...)` with every exposed construct.
#[macro_export]
macro_rules! with_starts {
    ($m:ident) => {
        $m!(
            ByteString ByteStringParser,
            TypeNameIdentifier TypeNameIdentifierParser,
            ImportedName ImportedNameParser,
            ImportDeclarations ImportDeclarationsParser,
            MetaIdentifier MetaIdentifierParser,
            VariableIdentifier VariableIdentifierParser,
            BuiltinArguments BuiltinArgumentsParser,
            ScillaType ScillaTypeParser,
            TypeArgument TypeArgumentParser,
            AddressType AddressTypeParser,
            AddressTypeField AddressTypeFieldParser,
            TypeMapKey TypeMapKeyParser,
            TypeMapValue TypeMapValueParser,
            TypeMapValueArguments TypeMapValueArgumentsParser,
            TypeMapValueAllowingTypeArguments TypeMapValueAllowingTypeArgumentsParser,
            Program ProgramParser,
            LibraryDefinition LibraryDefinitionParser,
            LibrarySingleDefinition LibrarySingleDefinitionParser,
            TypedIdentifier TypedIdentifierParser,
            TypeAnnotation TypeAnnotationParser,
            TypeAlternativeClause TypeAlternativeClauseParser,
            ContractTypeArguments ContractTypeArgumentsParser,
            FullExpression FullExpressionParser,
            PatternMatchExpressionClause PatternMatchExpressionClauseParser,
            Pattern PatternParser,
            ArgumentPattern ArgumentPatternParser,
            MessageEntry MessageEntryParser,
            AtomicExpression AtomicExpressionParser,
            ValueLiteral ValueLiteralParser,
            Statement StatementParser,
            StatementBlock StatementBlockParser,
            BlockchainFetchArguments BlockchainFetchArgumentsParser,
            ComponentId ComponentIdParser,
            PatternMatchClause PatternMatchClauseParser,
            RemoteFetchStatement RemoteFetchStatementParser,
            MapAccess MapAccessParser,
            ParameterPair ParameterPairParser,
            ComponentParameters ComponentParametersParser,
            ComponentDefinition ComponentDefinitionParser,
            TransitionDefinition TransitionDefinitionParser,
            ProcedureDefinition ProcedureDefinitionParser,
            ComponentBody ComponentBodyParser,
            ContractDefinition ContractDefinitionParser,
            ContractField ContractFieldParser,
            WithConstraint WithConstraintParser
        )
    };
}
