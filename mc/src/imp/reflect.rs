//! A generic view of the syntax tree: every node with its kind, its span, its
//! address, and in source order the tokens and child nodes it is made of.
#![allow(dead_code)]

use mc::terms::{self, K, T};
use scilla_parser::ast::nodes::*;
use scilla_parser::parser::lexer::SourcePosition;

pub type Span = (SourcePosition, SourcePosition);

#[derive(Debug)]
pub enum Item {
    /// A token that the tree implies.
    Fixed(K),
    /// A token the source may have here, not recorded in the tree.
    Maybe(K),
    /// A token with its spelling and span; `exact` if the span is its own.
    Leaf {
        k: K,
        text: String,
        span: Span,
        exact: bool,
    },
    Node(G),
    /// The tree has a shape no source denotes.
    Bad(&'static str),
}

#[derive(Debug)]
pub struct G {
    pub kind: &'static str,
    pub addr: usize,
    pub span: Option<Span>,
    pub items: Vec<Item>,
    /// What printing the node gives, for nodes that are names.
    pub display: Option<String>,
}

impl G {
    pub fn children(&self) -> impl Iterator<Item = &G> {
        self.items.iter().filter_map(|i| match i {
            Item::Node(g) => Some(g),
            _ => None,
        })
    }
    pub fn count(&self) -> usize {
        1 + self.children().map(|c| c.count()).sum::<usize>()
    }
    /// Leftmost source position known under this node.
    pub fn tokens(&self) -> String {
        let mut s = String::new();
        for i in &self.items {
            match i {
                Item::Fixed(k) => s.push_str(terms::canon(*k).s),
                Item::Maybe(_) => (),
                Item::Leaf { text, .. } => s.push_str(text),
                Item::Node(g) => s.push_str(&g.tokens()),
                Item::Bad(b) => s.push_str(b),
            }
            s.push(' ');
        }
        s
    }
}

pub trait Reflect {
    fn reflect(&self) -> G;
}

fn k(name: &str) -> K {
    terms::kind_of(name)
}

fn f(name: &str) -> Item {
    Item::Fixed(k(name))
}

fn leaf(kind: K, w: &WithMetaData<String>) -> Item {
    Item::Leaf {
        k: kind,
        text: w.node.clone(),
        span: (w.start, w.end),
        exact: true,
    }
}

fn id(w: &WithMetaData<String>) -> Item {
    leaf(terms::ID, w)
}

fn n<R: Reflect>(r: &R) -> Item {
    Item::Node(r.reflect())
}

fn seq<R: Reflect>(v: &[R]) -> Vec<Item> {
    v.iter().map(n).collect()
}

fn sep<R: Reflect>(v: &[R], s: &str) -> Vec<Item> {
    let mut o = vec![];
    for (i, r) in v.iter().enumerate() {
        if i > 0 {
            o.push(f(s));
        }
        o.push(n(r));
    }
    o
}

fn opt<R: Reflect>(o: &Option<R>) -> Vec<Item> {
    o.iter().map(n).collect()
}

fn some<R: Reflect>(v: &[R], what: &'static str) -> Vec<Item> {
    if v.is_empty() {
        vec![Item::Bad(what)]
    } else {
        seq(v)
    }
}

fn g<N>(kind: &'static str, node: &N, items: Vec<Item>) -> G {
    G {
        kind,
        addr: node as *const N as usize,
        span: None,
        items,
        display: None,
    }
}

macro_rules! items {
    ($($e:expr),* $(,)?) => {{
        let mut v: Vec<Item> = vec![];
        $( v.extend(IntoItems::into_items($e)); )*
        v
    }};
}

trait IntoItems {
    fn into_items(self) -> Vec<Item>;
}
impl IntoItems for Item {
    fn into_items(self) -> Vec<Item> {
        vec![self]
    }
}
impl IntoItems for Vec<Item> {
    fn into_items(self) -> Vec<Item> {
        self
    }
}

impl<T: Reflect> Reflect for WithMetaData<T> {
    fn reflect(&self) -> G {
        let mut g = self.node.reflect();
        g.span = Some((self.start, self.end));
        g
    }
}

impl<T: Reflect> Reflect for Box<T> {
    fn reflect(&self) -> G {
        (**self).reflect()
    }
}

impl Reflect for NodeByteStr {
    fn reflect(&self) -> G {
        let i = match self {
            NodeByteStr::Constant(_) => items![Item::Bad("byte string constant")],
            NodeByteStr::Type(w) => items![leaf(terms::BYSTRN, w)],
        };
        let mut g = g("NodeByteStr", self, i);
        g.display = Some(self.to_string());
        g
    }
}

impl Reflect for NodeTypeNameIdentifier {
    fn reflect(&self) -> G {
        let i = match self {
            NodeTypeNameIdentifier::ByteStringType(b) => items![n(b)],
            NodeTypeNameIdentifier::EventType => items![f("Event")],
            NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(w) => items![leaf(terms::CID, w)],
        };
        let mut g = g("NodeTypeNameIdentifier", self, i);
        g.display = Some(self.to_string());
        g
    }
}

impl Reflect for NodeImportedName {
    fn reflect(&self) -> G {
        let i = match self {
            NodeImportedName::RegularImport(a) => items![n(a)],
            NodeImportedName::AliasedImport(a, b) => items![n(a), f("as"), n(b)],
        };
        g("NodeImportedName", self, i)
    }
}

impl Reflect for NodeImportDeclarations {
    fn reflect(&self) -> G {
        let mut i = items![f("import")];
        for (x, name) in self.import_list.iter().enumerate() {
            if x > 0 {
                i.push(Item::Maybe(k("import")));
            }
            i.push(n(name));
        }
        g("NodeImportDeclarations", self, i)
    }
}

impl Reflect for NodeMetaIdentifier {
    fn reflect(&self) -> G {
        let i = match self {
            NodeMetaIdentifier::MetaName(a) => items![n(a)],
            NodeMetaIdentifier::MetaNameInNamespace(a, b) => items![n(a), f("."), n(b)],
            NodeMetaIdentifier::MetaNameInHexspace(a, b) => {
                items![leaf(terms::HEX, a), f("."), n(b)]
            }
            NodeMetaIdentifier::ByteString => items![f("ByStr")],
        };
        let mut g = g("NodeMetaIdentifier", self, i);
        g.display = Some(self.to_string());
        g
    }
}

impl Reflect for NodeVariableIdentifier {
    fn reflect(&self) -> G {
        let i = match self {
            NodeVariableIdentifier::VariableName(a) => items![id(a)],
            NodeVariableIdentifier::SpecialIdentifier(a) => items![leaf(terms::SPID, a)],
            NodeVariableIdentifier::VariableInNamespace(a, b) => items![n(a), f("."), id(b)],
        };
        let mut g = g("NodeVariableIdentifier", self, i);
        g.display = Some(self.to_string());
        g
    }
}

impl Reflect for NodeBuiltinArguments {
    fn reflect(&self) -> G {
        let i = if self.arguments.is_empty() {
            items![f("("), f(")")]
        } else {
            seq(&self.arguments)
        };
        g("NodeBuiltinArguments", self, i)
    }
}

impl Reflect for NodeTypeMapKey {
    fn reflect(&self) -> G {
        let i = match self {
            NodeTypeMapKey::GenericMapKey(a) => items![n(a)],
            NodeTypeMapKey::EnclosedGenericId(a) => items![f("("), n(a), f(")")],
            NodeTypeMapKey::EnclosedAddressMapKeyType(a) => items![f("("), n(a), f(")")],
            NodeTypeMapKey::AddressMapKeyType(a) => items![n(a)],
        };
        g("NodeTypeMapKey", self, i)
    }
}

impl Reflect for NodeTypeMapValue {
    fn reflect(&self) -> G {
        let i = match self {
            NodeTypeMapValue::MapValueTypeOrEnumLikeIdentifier(a) => items![n(a)],
            NodeTypeMapValue::MapKeyValue(e) => items![n(e)],
            NodeTypeMapValue::MapValueParenthesizedType(a) => items![f("("), n(a), f(")")],
            NodeTypeMapValue::MapValueAddressType(a) => items![n(a)],
        };
        g("NodeTypeMapValue", self, i)
    }
}

impl Reflect for NodeTypeArgument {
    fn reflect(&self) -> G {
        let i = match self {
            NodeTypeArgument::EnclosedTypeArgument(a) => items![f("("), n(a), f(")")],
            NodeTypeArgument::GenericTypeArgument(a) => items![n(a)],
            NodeTypeArgument::TemplateTypeArgument(a) => items![leaf(terms::TID, a)],
            NodeTypeArgument::AddressTypeArgument(a) => items![n(a)],
            NodeTypeArgument::MapTypeArgument(a, b) => items![f("Map"), n(a), n(b)],
        };
        g("NodeTypeArgument", self, i)
    }
}

impl Reflect for NodeScillaType {
    fn reflect(&self) -> G {
        let i = match self {
            NodeScillaType::GenericTypeWithArgs(a, v) => items![n(a), seq(v)],
            NodeScillaType::MapType(a, b) => items![f("Map"), n(a), n(b)],
            NodeScillaType::FunctionType(a, b) => {
                if matches!(a.node, NodeScillaType::FunctionType(..)) {
                    items![Item::Bad("arrow associates to the left")]
                } else {
                    items![n(a), f("->"), n(b)]
                }
            }
            NodeScillaType::EnclosedType(a) => items![f("("), n(a), f(")")],
            NodeScillaType::ScillaAddresseType(a) => items![n(a)],
            NodeScillaType::PolyFunctionType(a, b) => {
                items![f("forall"), leaf(terms::TID, a), f("."), n(b)]
            }
            NodeScillaType::TypeVarType(a) => items![leaf(terms::TID, a)],
        };
        g("NodeScillaType", self, i)
    }
}

impl Reflect for NodeTypeMapEntry {
    fn reflect(&self) -> G {
        g(
            "NodeTypeMapEntry",
            self,
            items![f("Map"), n(&self.key), n(&self.value)],
        )
    }
}

impl Reflect for NodeAddressTypeField {
    fn reflect(&self) -> G {
        g(
            "NodeAddressTypeField",
            self,
            items![f("field"), n(&self.identifier), f(":"), n(&self.type_name)],
        )
    }
}

impl Reflect for NodeAddressType {
    fn reflect(&self) -> G {
        let t = &self.type_name;
        let kind = match t.node.as_str() {
            "" => vec![],
            // The tree records the keyword under the span of the whole type.
            "contract" | "library" => vec![Item::Leaf {
                k: k(&t.node),
                text: t.node.clone(),
                span: (t.start, t.end),
                exact: false,
            }],
            _ => vec![leaf(terms::SPID, t)],
        };
        g(
            "NodeAddressType",
            self,
            items![
                n(&self.identifier),
                f("with"),
                kind,
                sep(&self.address_fields, ","),
                f("end")
            ],
        )
    }
}

impl Reflect for NodeFullExpression {
    fn reflect(&self) -> G {
        use NodeFullExpression::*;
        let i = match self {
            LocalVariableDeclaration {
                identifier_name,
                expression,
                type_annotation,
                containing_expression,
            } => items![
                f("let"),
                id(identifier_name),
                opt(type_annotation),
                f("="),
                n(expression),
                f("in"),
                n(containing_expression)
            ],
            FunctionDeclaration {
                identier_value,
                type_annotation,
                expression,
            } => items![
                f("fun"),
                f("("),
                id(identier_value),
                n(type_annotation),
                f(")"),
                f("=>"),
                n(expression)
            ],
            FunctionCall {
                function_name,
                argument_list,
            } => items![n(function_name), some(argument_list, "call of nothing")],
            ExpressionAtomic(a) => items![n(a)],
            ExpressionBuiltin { b, targs, xs } => {
                items![f("builtin"), id(b), opt(targs), n(xs)]
            }
            Message(v) => items![f("{"), sep(v, ";"), f("}")],
            Match {
                match_expression,
                clauses,
            } => items![
                f("match"),
                n(match_expression),
                f("with"),
                seq(clauses),
                f("end")
            ],
            ConstructorCall {
                identifier_name,
                contract_type_arguments,
                argument_list,
            } => items![
                n(identifier_name),
                opt(contract_type_arguments),
                seq(argument_list)
            ],
            TemplateFunction {
                identifier_name,
                expression,
            } => items![
                f("tfun"),
                leaf(terms::TID, identifier_name),
                f("=>"),
                n(expression)
            ],
            TApp {
                identifier_name,
                type_arguments,
            } => items![f("@"), n(identifier_name), seq(type_arguments)],
        };
        g("NodeFullExpression", self, i)
    }
}

impl Reflect for NodeMessageEntry {
    fn reflect(&self) -> G {
        let i = match self {
            NodeMessageEntry::MessageLiteral(a, b) => items![n(a), f(":"), n(b)],
            NodeMessageEntry::MessageVariable(a, b) => items![n(a), f(":"), n(b)],
        };
        g("NodeMessageEntry", self, i)
    }
}

impl Reflect for NodePatternMatchExpressionClause {
    fn reflect(&self) -> G {
        g(
            "NodePatternMatchExpressionClause",
            self,
            items![f("|"), n(&self.pattern), f("=>"), n(&self.expression)],
        )
    }
}

impl Reflect for NodeAtomicExpression {
    fn reflect(&self) -> G {
        let i = match self {
            NodeAtomicExpression::AtomicSid(a) => items![n(a)],
            NodeAtomicExpression::AtomicLit(a) => items![n(a)],
        };
        g("NodeAtomicExpression", self, i)
    }
}

impl Reflect for NodeContractTypeArguments {
    fn reflect(&self) -> G {
        g(
            "NodeContractTypeArguments",
            self,
            items![f("{"), seq(&self.type_arguments), f("}")],
        )
    }
}

impl Reflect for NodeValueLiteral {
    fn reflect(&self) -> G {
        let i = match self {
            NodeValueLiteral::LiteralInt(a, b) => items![n(a), leaf(terms::NUM, b)],
            NodeValueLiteral::LiteralHex(a) => items![leaf(terms::HEX, a)],
            NodeValueLiteral::LiteralString(a) => items![leaf(terms::STR, a)],
            NodeValueLiteral::LiteralEmptyMap(a, b) => items![f("Emp"), n(a), n(b)],
        };
        g("NodeValueLiteral", self, i)
    }
}

impl Reflect for NodeMapAccess {
    fn reflect(&self) -> G {
        g(
            "NodeMapAccess",
            self,
            items![f("["), n(&self.identifier_name), f("]")],
        )
    }
}

impl Reflect for NodePattern {
    fn reflect(&self) -> G {
        let i = match self {
            NodePattern::Wildcard => items![f("_")],
            NodePattern::Binder(a) => items![id(a)],
            NodePattern::Constructor(a, v) => items![n(a), seq(v)],
        };
        g("NodePattern", self, i)
    }
}

impl Reflect for NodeArgumentPattern {
    fn reflect(&self) -> G {
        let i = match self {
            NodeArgumentPattern::WildcardArgument => items![f("_")],
            NodeArgumentPattern::BinderArgument(a) => items![id(a)],
            NodeArgumentPattern::ConstructorArgument(a) => items![n(a)],
            NodeArgumentPattern::PatternArgument(a) => items![f("("), n(a), f(")")],
        };
        g("NodeArgumentPattern", self, i)
    }
}

impl Reflect for NodePatternMatchClause {
    fn reflect(&self) -> G {
        g(
            "NodePatternMatchClause",
            self,
            items![
                f("|"),
                n(&self.pattern_expression),
                f("=>"),
                opt(&self.statement_block)
            ],
        )
    }
}

impl Reflect for NodeBlockchainFetchArguments {
    fn reflect(&self) -> G {
        g(
            "NodeBlockchainFetchArguments",
            self,
            items![f("("), seq(&self.arguments), f(")")],
        )
    }
}

impl Reflect for NodeStatement {
    fn reflect(&self) -> G {
        use NodeStatement::*;
        const NO_KEYS: &str = "map access without keys";
        let i = match self {
            Load {
                left_hand_side,
                right_hand_side,
            } => items![id(left_hand_side), f("<-"), n(right_hand_side)],
            RemoteFetch(r) => items![n(r)],
            Store {
                left_hand_side,
                right_hand_side,
            } => items![id(left_hand_side), f(":="), n(right_hand_side)],
            Bind {
                left_hand_side,
                right_hand_side,
            } => items![id(left_hand_side), f("="), n(right_hand_side)],
            ReadFromBC {
                left_hand_side,
                type_name,
                arguments,
            } => items![
                id(left_hand_side),
                f("<-"),
                f("&"),
                n(type_name),
                opt(arguments)
            ],
            MapGet {
                left_hand_side,
                keys,
                right_hand_side,
            } => items![
                id(left_hand_side),
                f("<-"),
                id(right_hand_side),
                some(keys, NO_KEYS)
            ],
            MapGetExists {
                left_hand_side,
                keys,
                right_hand_side,
            } => items![
                id(left_hand_side),
                f("<-"),
                f("exists"),
                id(right_hand_side),
                some(keys, NO_KEYS)
            ],
            MapUpdate {
                left_hand_side,
                keys,
                right_hand_side,
            } => items![
                id(left_hand_side),
                some(keys, NO_KEYS),
                f(":="),
                n(right_hand_side)
            ],
            MapUpdateDelete {
                left_hand_side,
                keys,
            } => items![f("delete"), id(left_hand_side), some(keys, NO_KEYS)],
            Accept => items![f("accept")],
            Send { identifier_name } => items![f("send"), n(identifier_name)],
            CreateEvnt { identifier_name } => items![f("event"), n(identifier_name)],
            Throw { error_variable } => items![f("throw"), opt(error_variable)],
            MatchStmt { variable, clauses } => items![
                f("match"),
                n(variable),
                f("with"),
                seq(clauses),
                f("end")
            ],
            CallProc {
                component_id,
                arguments,
            } => items![n(component_id), seq(arguments)],
            Iterate {
                identifier_name,
                component_id,
            } => items![f("forall"), n(identifier_name), n(component_id)],
        };
        g("NodeStatement", self, i)
    }
}

impl Reflect for NodeRemoteFetchStatement {
    fn reflect(&self) -> G {
        use NodeRemoteFetchStatement::*;
        const NO_KEYS: &str = "map access without keys";
        let i = match self {
            ReadStateMutable(a, b, c) => items![id(a), f("<-"), f("&"), id(b), f("."), n(c)],
            ReadStateMutableSpecialId(a, b, c) => items![
                id(a),
                f("<-"),
                f("&"),
                leaf(terms::SPID, b),
                f("."),
                leaf(terms::SPID, c)
            ],
            ReadStateMutableMapAccess(a, b, c, v) => items![
                id(a),
                f("<-"),
                f("&"),
                id(b),
                f("."),
                id(c),
                some(v, NO_KEYS)
            ],
            ReadStateMutableMapAccessExists(a, b, c, v) => items![
                id(a),
                f("<-"),
                f("&"),
                f("exists"),
                id(b),
                f("."),
                id(c),
                some(v, NO_KEYS)
            ],
            ReadStateMutableCastAddress(a, b, c) => {
                items![id(a), f("<-"), f("&"), n(b), f("as"), n(c)]
            }
        };
        g("NodeRemoteFetchStatement", self, i)
    }
}

impl Reflect for NodeComponentId {
    fn reflect(&self) -> G {
        let i = match self {
            NodeComponentId::WithTypeLikeName(a) => items![n(a)],
            NodeComponentId::WithRegularId(a) => items![id(a)],
        };
        g("NodeComponentId", self, i)
    }
}

impl Reflect for NodeComponentParameters {
    fn reflect(&self) -> G {
        g(
            "NodeComponentParameters",
            self,
            items![f("("), sep(&self.parameters, ","), f(")")],
        )
    }
}

impl Reflect for NodeParameterPair {
    fn reflect(&self) -> G {
        g(
            "NodeParameterPair",
            self,
            items![n(&self.identifier_with_type)],
        )
    }
}

impl Reflect for NodeComponentBody {
    fn reflect(&self) -> G {
        g(
            "NodeComponentBody",
            self,
            items![opt(&self.statement_block), f("end")],
        )
    }
}

impl Reflect for NodeStatementBlock {
    fn reflect(&self) -> G {
        g(
            "NodeStatementBlock",
            self,
            items![sep(&self.statements, ";")],
        )
    }
}

impl Reflect for NodeTypedIdentifier {
    fn reflect(&self) -> G {
        g(
            "NodeTypedIdentifier",
            self,
            items![id(&self.identifier_name), n(&self.annotation)],
        )
    }
}

impl Reflect for NodeTypeAnnotation {
    fn reflect(&self) -> G {
        g(
            "NodeTypeAnnotation",
            self,
            items![f(":"), n(&self.type_name)],
        )
    }
}

impl Reflect for NodeProgram {
    fn reflect(&self) -> G {
        g(
            "NodeProgram",
            self,
            items![
                f("scilla_version"),
                leaf(terms::NUM, &self.version),
                opt(&self.import_declarations),
                opt(&self.library_definition),
                n(&self.contract_definition)
            ],
        )
    }
}

impl Reflect for NodeLibraryDefinition {
    fn reflect(&self) -> G {
        g(
            "NodeLibraryDefinition",
            self,
            items![f("library"), n(&self.name), seq(&self.definitions)],
        )
    }
}

impl Reflect for NodeLibrarySingleDefinition {
    fn reflect(&self) -> G {
        let i = match self {
            NodeLibrarySingleDefinition::LetDefinition {
                variable_name,
                type_annotation,
                expression,
            } => items![
                f("let"),
                id(variable_name),
                opt(type_annotation),
                f("="),
                n(expression)
            ],
            NodeLibrarySingleDefinition::TypeDefinition(a, None) => items![f("type"), n(a)],
            NodeLibrarySingleDefinition::TypeDefinition(a, Some(v)) => {
                items![f("type"), n(a), f("="), some(v, "type without alternatives")]
            }
        };
        g("NodeLibrarySingleDefinition", self, i)
    }
}

impl Reflect for NodeContractDefinition {
    fn reflect(&self) -> G {
        g(
            "NodeContractDefinition",
            self,
            items![
                f("contract"),
                n(&self.contract_name),
                n(&self.parameters),
                opt(&self.constraint),
                seq(&self.fields),
                seq(&self.components)
            ],
        )
    }
}

impl Reflect for NodeContractField {
    fn reflect(&self) -> G {
        g(
            "NodeContractField",
            self,
            items![
                f("field"),
                n(&self.typed_identifier),
                f("="),
                n(&self.right_hand_side)
            ],
        )
    }
}

impl Reflect for NodeWithConstraint {
    fn reflect(&self) -> G {
        g(
            "NodeWithConstraint",
            self,
            items![f("with"), n(&self.expression), f("=>")],
        )
    }
}

impl Reflect for NodeComponentDefinition {
    fn reflect(&self) -> G {
        let i = match self {
            NodeComponentDefinition::TransitionComponent(a) => items![n(a)],
            NodeComponentDefinition::ProcedureComponent(a) => items![n(a)],
        };
        g("NodeComponentDefinition", self, i)
    }
}

impl Reflect for NodeProcedureDefinition {
    fn reflect(&self) -> G {
        g(
            "NodeProcedureDefinition",
            self,
            items![
                f("procedure"),
                n(&self.name),
                n(&self.parameters),
                n(&self.body)
            ],
        )
    }
}

impl Reflect for NodeTransitionDefinition {
    fn reflect(&self) -> G {
        g(
            "NodeTransitionDefinition",
            self,
            items![
                f("transition"),
                n(&self.name),
                n(&self.parameters),
                n(&self.body)
            ],
        )
    }
}

impl Reflect for NodeTypeAlternativeClause {
    fn reflect(&self) -> G {
        let i = match self {
            NodeTypeAlternativeClause::ClauseType(a) => items![f("|"), n(a)],
            NodeTypeAlternativeClause::ClauseTypeWithArgs(a, v) => {
                items![f("|"), n(a), f("of"), seq(v)]
            }
        };
        g("NodeTypeAlternativeClause", self, i)
    }
}

impl Reflect for NodeTypeMapValueArguments {
    fn reflect(&self) -> G {
        let i = match self {
            NodeTypeMapValueArguments::EnclosedTypeMapValue(a) => items![f("("), n(a), f(")")],
            NodeTypeMapValueArguments::GenericMapValueArgument(a) => items![n(a)],
            NodeTypeMapValueArguments::MapKeyValueType(a, b) => items![f("Map"), n(a), n(b)],
        };
        g("NodeTypeMapValueArguments", self, i)
    }
}

impl Reflect for NodeTypeMapValueAllowingTypeArguments {
    fn reflect(&self) -> G {
        let i = match self {
            NodeTypeMapValueAllowingTypeArguments::TypeMapValueNoArgs(a) => items![n(a)],
            NodeTypeMapValueAllowingTypeArguments::TypeMapValueWithArgs(a, v) => {
                items![n(a), some(v, "type arguments without any")]
            }
        };
        g("NodeTypeMapValueAllowingTypeArguments", self, i)
    }
}

/// Which obligation a tree fails.
#[derive(Debug)]
pub enum Wrong {
    Content(String),
    Span(String),
}

/// Compares a tree with the tokens it was built from: `tokens[i]` with its
/// span. The first content mismatch and the first span mismatch are reported
/// separately.
pub struct Matcher<'a> {
    pub toks: &'a [T],
    pub spans: &'a dyn Fn(usize) -> Span,
    i: usize,
    pub content: Option<String>,
    pub span: Option<String>,
}

impl<'a> Matcher<'a> {
    pub fn run(g: &G, toks: &'a [T], spans: &'a dyn Fn(usize) -> Span) -> (Option<String>, Option<String>) {
        let mut m = Matcher {
            toks,
            spans,
            i: 0,
            content: None,
            span: None,
        };
        m.node(g);
        if m.content.is_none() && m.i != toks.len() {
            m.content = Some(format!(
                "the tree ends before token {} ({})",
                m.i, toks[m.i].s
            ));
        }
        (m.content, m.span)
    }

    fn bad(&mut self, what: String) {
        if self.content.is_none() {
            self.content = Some(what);
        }
    }

    fn bad_span(&mut self, what: String) {
        if self.content.is_none() && self.span.is_none() {
            self.span = Some(what);
        }
    }

    fn token(&mut self, k: K, text: &str, node: &str) {
        match self.toks.get(self.i) {
            Some(t) if t.k == k && t.s == text => (),
            Some(t) => {
                let t = *t;
                self.bad(format!(
                    "in {node}: the tree says {text:?} ({}) where the source has {:?} ({}), token {}",
                    terms::name(k),
                    t.s,
                    terms::name(t.k),
                    self.i
                ))
            }
            None => self.bad(format!(
                "in {node}: the tree has {text:?} after the end of the source"
            )),
        }
        self.i += 1;
    }

    fn node(&mut self, g: &G) {
        if self.content.is_some() {
            return;
        }
        let from = self.i;
        let mut last: Option<SourcePosition> = None;
        for i in &g.items {
            if self.content.is_some() {
                return;
            }
            match i {
                Item::Fixed(k) => self.token(*k, terms::canon(*k).s, g.kind),
                Item::Maybe(k) => {
                    if self.toks.get(self.i).map(|t| t.k) == Some(*k) {
                        self.i += 1;
                    }
                }
                Item::Leaf {
                    k,
                    text,
                    span,
                    exact,
                } => {
                    let at = self.i;
                    self.token(*k, text, g.kind);
                    if self.content.is_some() {
                        return;
                    }
                    if *exact {
                        let want = (self.spans)(at);
                        if *span != want {
                            self.bad_span(format!(
                                "the {} {text:?} in {} has span {:?}, its text has {:?}",
                                terms::name(*k),
                                g.kind,
                                span,
                                want
                            ));
                        }
                    } else if let Some((s, e)) = g.span {
                        if span.0.position < s.position || span.1.position > e.position {
                            self.bad_span(format!(
                                "the {text:?} in {} has span {:?} outside the node",
                                g.kind, span
                            ));
                        }
                    }
                }
                Item::Node(c) => {
                    self.node(c);
                    if let Some((s, e)) = c.span {
                        if last.is_some_and(|l| s.position < l.position) {
                            self.bad_span(format!("{} starts before its elder sibling ends", c.kind));
                        }
                        last = Some(e);
                    }
                }
                Item::Bad(b) => self.bad(format!("{}: {b}", g.kind)),
            }
        }
        if self.content.is_some() {
            return;
        }
        if self.i == from {
            self.bad(format!("{} stands for no token", g.kind));
            return;
        }
        if let Some(d) = &g.display {
            let written: String = self.toks[from..self.i].iter().map(|t| t.s).collect();
            if *d != written {
                self.bad(format!("{} prints as {d:?}, written {written:?}", g.kind));
            }
        }
        if let Some(span) = g.span {
            let want = ((self.spans)(from).0, (self.spans)(self.i - 1).1);
            if span != want {
                self.bad_span(format!(
                    "{} over {:?} has span {:?}, its tokens have {:?}",
                    g.kind,
                    terms::text(&self.toks[from..self.i]),
                    span,
                    want
                ));
            }
        }
    }
}
