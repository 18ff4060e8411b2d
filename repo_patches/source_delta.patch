From fbd38c526d4d8566e8205d220daf7e68b130b3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 01/25] fix: index keywords and string literals by byte, not by
 character, in the lexer

---
 src/parser/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index e019b86..631057c 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -385,8 +385,7 @@ impl<'input> Iterator for Lexer<'input> {
                         _ => {
                             let token_str: &str = &self.document[start..];
                             let mut index = 0;
-                            let token_str_chars = token_str.chars();
-                            for (i, c) in token_str_chars.enumerate() {
+                            for (i, c) in token_str.char_indices() {
                                 if !c.is_alphanumeric() && c != '_' {
                                     index = i;
                                     break;
@@ -656,7 +655,8 @@ impl<'input> Iterator for Lexer<'input> {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
                                             if mat.end() > 1 {
-                                                self.chars.nth(end - start - 2);
+                                                // A string may contain multi-byte characters
+                                                self.chars.nth(s.chars().count() - 2);
                                                 // -2, because we already consumed the first char
                                             }
 
-- 
2.43.0


From 5677e71570d1f2d3c485867e630050472bdbb6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 02/25] fix: recognise ByStr and ByStr<n> only as whole words

---
 src/parser/lexer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 631057c..06205d3 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -602,7 +602,7 @@ impl<'input> Iterator for Lexer<'input> {
                                     }
                                     _ => {
                                         // Handle other cases here
-                                        let bystr_with_size = Regex::new(r"^ByStr[0-9]+").unwrap();
+                                        let bystr_with_size = Regex::new(r"^ByStr[0-9]+$").unwrap();
 
                                         let signed_integer = Regex::new(r"^[+-]?[0-9]+").unwrap();
                                         let hex_number =
@@ -618,7 +618,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             Regex::new(r"^[A-Z][a-zA-Z0-9_]*").unwrap();
                                         let special_id = Regex::new(r"^[_][a-zA-Z0-9_]*").unwrap();
 
-                                        if let Some(mat) = bystr_with_size.find(token_str) {
+                                        if let Some(mat) = bystr_with_size.find(keyword_token) {
                                             let end = start + mat.end();
                                             let s = &self.document[start..end];
                                             if mat.end() > 1 {
@@ -627,7 +627,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             }
 
                                             (Token::ByStrWithSize(s), source_position.with_end(end))
-                                        } else if token_str.starts_with(KEYWORD_BYSTR) {
+                                        } else if keyword_token == KEYWORD_BYSTR {
                                             self.chars.nth(KEYWORD_BYSTR.len() - 2);
                                             (
                                                 Token::ByStr,
-- 
2.43.0


From 7242a8ee47f2dccb8969de6708c26084b02c1618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 03/25] fix: report an unterminated comment instead of ignoring
 the rest of the text

---
 src/parser/lexer.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 06205d3..486f2e6 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -311,18 +311,27 @@ impl<'input> Iterator for Lexer<'input> {
 
                     self.chars.next(); // Consume '*'
                     let mut comment = String::new();
+                    let mut terminated = false;
 
                     while let Some((_, ch)) = self.chars.next() {
                         if ch == '*' && self.chars.peek().map(|(_, next_ch)| *next_ch) == Some(')')
                         {
                             self.chars.next();
+                            terminated = true;
                             break;
                         } else {
                             comment.push(ch);
                         }
                     }
 
-                    continue;
+                    if terminated {
+                        continue;
+                    }
+                    // An unterminated comment must not silently swallow the rest of the document
+                    (
+                        Token::Unknown,
+                        source_position.with_end(self.document.len()),
+                    )
                     // TODO: Hack to avoid emitting comment. However, ideally these should be part of the AST or at least the token stream
                     // let len = comment.len();
                     // let end = start + len + 2 + 1; // +2: `*)`, +1: move to char beyond last
-- 
2.43.0


From de7317b4307f2ff89819bc4b9efcddd2c92ab679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 04/25] fix: do not end a string literal at an escaped quote

---
 src/parser/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 486f2e6..f88eb6a 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -618,7 +618,7 @@ impl<'input> Iterator for Lexer<'input> {
                                             Regex::new(r"^0(x|X)([a-fA-F0-9][a-fA-F0-9])*")
                                                 .unwrap();
                                         let string_literal =
-                                            Regex::new(r#"^"(?:\\.|[^"])*""#).unwrap();
+                                            Regex::new(r#"^"(?s:\\.|[^"\\])*""#).unwrap();
                                         let regular_id =
                                             Regex::new(r"^[a-z][a-zA-Z0-9_]*").unwrap();
                                         let template_type_id =
-- 
2.43.0


From 144f352ce7305cf231b9d29fd5f7c77161a4559a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 05/25] fix: report true line and column of every token

---
 src/parser/lexer.rs | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index f88eb6a..408da27 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -207,6 +207,25 @@ impl<'input> Lexer<'input> {
             last_position: 0,
         }
     }
+
+    /// Source position of a byte offset. Offsets must not decrease from call to call.
+    fn position_at(&mut self, position: usize) -> SourcePosition {
+        for byte in &self.document.as_bytes()[self.last_position..position] {
+            if *byte == b'\n' {
+                self.line += 1;
+                self.character = 0;
+            } else {
+                self.character += 1;
+            }
+        }
+        self.last_position = position;
+
+        SourcePosition {
+            position,
+            line: self.line,
+            column: self.character,
+        }
+    }
 }
 
 #[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq, Default)]
@@ -249,16 +268,10 @@ impl<'input> Iterator for Lexer<'input> {
 
     fn next(&mut self) -> Option<Self::Item> {
         while let Some((start, ch)) = self.chars.next() {
-            let source_position = SourcePosition {
-                position: start,
-                line: self.line,
-                column: self.character,
-            };
+            let source_position = self.position_at(start);
 
             let (token, end): (Token<&'input str>, SourcePosition) = {
                 let look_ahead = self.chars.peek().map(|(_, next_ch)| *next_ch);
-                self.character += start - self.last_position;
-                self.last_position = start;
 
                 let next_is_alpha_num_under = look_ahead
                     .map(|c| c.is_alphanumeric() || c == '_')
@@ -267,10 +280,6 @@ impl<'input> Iterator for Lexer<'input> {
 
                 // Handle more complex tokens, whitespace, and comments
                 if ch.is_whitespace() {
-                    if ch == '\n' {
-                        self.character = 0;
-                        self.line += 1;
-                    }
                     continue;
                 } else if ch == '=' && look_ahead == Some('>') {
                     self.chars.next();
@@ -714,7 +723,10 @@ impl<'input> Iterator for Lexer<'input> {
                                                 source_position.with_end(end),
                                             )
                                         } else {
-                                            (Token::Unknown, source_position.with_end(start))
+                                            (
+                                                Token::Unknown,
+                                                source_position.with_end(start + ch.len_utf8()),
+                                            )
                                         }
                                     }
                                 };
@@ -726,6 +738,9 @@ impl<'input> Iterator for Lexer<'input> {
                 }
             };
 
+            // A token may span several lines
+            let end = self.position_at(end.position);
+
             return Some(Ok((source_position, token, end)));
         }
 
-- 
2.43.0


From f54d932792d16dc2e72716087a127634fa5df53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 06/25] fix: report a declaration of type Event under its own
 type

---
 src/simplified_representation/emitter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index ef4310e..a22c7cc 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -103,7 +103,11 @@ impl AstConverting for SrEmitter {
 
                     self.stack.push(StackObject::IrIdentifier(symbol));
                 }
-                NodeTypeNameIdentifier::EventType => {}
+                NodeTypeNameIdentifier::EventType => {
+                    let symbol = SrIdentifier::new(node.to_string(), SrIdentifierKind::Unknown);
+
+                    self.stack.push(StackObject::IrIdentifier(symbol));
+                }
                 NodeTypeNameIdentifier::TypeOrEnumLikeIdentifier(name) => {
                     let symbol = SrIdentifier::new(name.to_string(), SrIdentifierKind::Unknown);
 
-- 
2.43.0


From 7aef0eb02d9f4f9572efeb687bbb9bc01d989660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 07/25] fix: keep the namespace of a qualified type name

---
 src/simplified_representation/emitter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index a22c7cc..377f3ae 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -143,7 +143,13 @@ impl AstConverting for SrEmitter {
                 self.stack.push(StackObject::IrIdentifier(symbol));
                 Ok(TraversalResult::SkipChildren)
             }
-            _ => Ok(TraversalResult::Continue),
+            NodeMetaIdentifier::MetaNameInNamespace(_, _)
+            | NodeMetaIdentifier::MetaNameInHexspace(_, _) => {
+                let symbol = SrIdentifier::new(node.to_string(), SrIdentifierKind::Unknown);
+                self.stack.push(StackObject::IrIdentifier(symbol));
+                Ok(TraversalResult::SkipChildren)
+            }
+            NodeMetaIdentifier::MetaName(_) => Ok(TraversalResult::Continue),
         }
     }
     fn emit_variable_identifier(
-- 
2.43.0


From 0638b90ea62e3e4474b26af5d12d9680e9ff6307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 08/25] fix: accept an address type as the key of a map

---
 src/simplified_representation/emitter.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 377f3ae..0eccc87 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -172,14 +172,18 @@ impl AstConverting for SrEmitter {
         node: &NodeTypeMapKey,
     ) -> Result<TraversalResult, String> {
         match node {
-            NodeTypeMapKey::GenericMapKey(key) => key.visit(self)?,
-            NodeTypeMapKey::EnclosedGenericId(key) => key.visit(self)?,
-            NodeTypeMapKey::EnclosedAddressMapKeyType(key) => key.visit(self)?,
-            NodeTypeMapKey::AddressMapKeyType(key) => key.visit(self)?,
+            NodeTypeMapKey::GenericMapKey(key) | NodeTypeMapKey::EnclosedGenericId(key) => {
+                key.visit(self)?;
+                let identifier = self.pop_ir_identifier()?;
+                self.stack
+                    .push(StackObject::TypeDefinition(identifier.into()));
+            }
+            // An address type is already a type definition
+            NodeTypeMapKey::EnclosedAddressMapKeyType(key)
+            | NodeTypeMapKey::AddressMapKeyType(key) => {
+                key.visit(self)?;
+            }
         };
-        let identifier = self.pop_ir_identifier()?;
-        self.stack
-            .push(StackObject::TypeDefinition(identifier.into()));
         Ok(TraversalResult::SkipChildren)
     }
     fn emit_type_map_value(
-- 
2.43.0


From 5e0afec9acd06f71d74afe5ec1d55b3379a62bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 09/25] fix: keep address type fields with special or qualified
 names

---
 src/simplified_representation/emitter.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 0eccc87..3367b7f 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -326,12 +326,11 @@ impl AstConverting for SrEmitter {
     ) -> Result<TraversalResult, String> {
         match mode {
             TreeTraversalMode::Enter => {
-                if let NodeVariableIdentifier::VariableName(n) = &node.identifier.node {
-                    node.type_name.visit(self)?;
-                    let typename = self.pop_type_definition()?;
-                    let s = StackObject::VariableDeclaration(Field::new(&n.node, typename.into()));
-                    self.stack.push(s);
-                }
+                node.type_name.visit(self)?;
+                let typename = self.pop_type_definition()?;
+                let name = node.identifier.to_string();
+                let s = StackObject::VariableDeclaration(Field::new(&name, typename.into()));
+                self.stack.push(s);
             }
             TreeTraversalMode::Exit => (),
         }
-- 
2.43.0


From b04100f32d5ea21efe0f3e62ea229fadc9a0854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 10/25] fix: convert an unparenthesised map among the arguments
 of a map value type

---
 src/simplified_representation/emitter.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 3367b7f..47f4a26 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -695,7 +695,18 @@ impl AstConverting for SrEmitter {
                         self.stack
                             .push(StackObject::TypeDefinition(identifier.into()));
                     }
-                    NodeTypeMapValueArguments::MapKeyValueType(_, _) => todo!(),
+                    NodeTypeMapValueArguments::MapKeyValueType(key, value) => {
+                        key.visit(self)?;
+                        value.visit(self)?;
+                        let value = self.pop_type_definition()?;
+                        let key = self.pop_type_definition()?;
+                        let map = SrType {
+                            main_type: "Map".to_string(),
+                            sub_types: vec![key, value],
+                            address_type: None,
+                        };
+                        self.stack.push(StackObject::TypeDefinition(map));
+                    }
                 };
             }
             TreeTraversalMode::Exit => (),
-- 
2.43.0


From 2da7d816eb7cd8a097001e162bc8910318209764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 11/25] fix: return an error for function types and type
 variables instead of panicking

---
 src/simplified_representation/emitter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 47f4a26..7ea9fe8 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -238,8 +238,8 @@ impl AstConverting for SrEmitter {
                 self.stack
                     .push(StackObject::TypeDefinition(identifier.into()));
             }
-            NodeTypeArgument::TemplateTypeArgument(_) => {
-                unimplemented!();
+            NodeTypeArgument::TemplateTypeArgument(name) => {
+                return Err(format!("Type variable {} is not supported here.", name));
             }
             NodeTypeArgument::AddressTypeArgument(n) => {
                 n.visit(self)?;
@@ -293,11 +293,11 @@ impl AstConverting for SrEmitter {
                 self.stack.push(StackObject::TypeDefinition(map));
             }
             NodeScillaType::FunctionType(_a, _b) => {
-                unimplemented!()
+                return Err("Function types are not supported here.".to_string());
             }
 
             NodeScillaType::PolyFunctionType(_name, _a) => {
-                unimplemented!()
+                return Err("Polymorphic function types are not supported here.".to_string());
             }
             NodeScillaType::EnclosedType(a) => {
                 let _ = (*a).visit(self)?;
@@ -305,8 +305,8 @@ impl AstConverting for SrEmitter {
             NodeScillaType::ScillaAddresseType(a) => {
                 let _ = (*a).visit(self)?;
             }
-            NodeScillaType::TypeVarType(_name) => {
-                unimplemented!()
+            NodeScillaType::TypeVarType(name) => {
+                return Err(format!("Type variable {} is not supported here.", name));
             }
         };
         Ok(TraversalResult::SkipChildren)
-- 
2.43.0


From 99b9552db88763da6928b098af5c43c36135ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 12/25] fix: return an error for a built-in type with the wrong
 number of arguments

---
 src/simplified_representation/emitter.rs    |  2 ++
 src/simplified_representation/primitives.rs | 23 +++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index 7ea9fe8..a6bfddd 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -328,6 +328,7 @@ impl AstConverting for SrEmitter {
             TreeTraversalMode::Enter => {
                 node.type_name.visit(self)?;
                 let typename = self.pop_type_definition()?;
+                typename.check_arguments()?;
                 let name = node.identifier.to_string();
                 let s = StackObject::VariableDeclaration(Field::new(&name, typename.into()));
                 self.stack.push(s);
@@ -539,6 +540,7 @@ impl AstConverting for SrEmitter {
         let _ = node.annotation.visit(self)?;
 
         let typename = self.pop_type_definition()?;
+        typename.check_arguments()?;
 
         let s = StackObject::VariableDeclaration(Field::new(&name.node, typename.into()));
         self.stack.push(s);
diff --git a/src/simplified_representation/primitives.rs b/src/simplified_representation/primitives.rs
index 0aa1620..89cc64a 100644
--- a/src/simplified_representation/primitives.rs
+++ b/src/simplified_representation/primitives.rs
@@ -55,6 +55,29 @@ impl SrType {
     pub fn push_sub_type(&mut self, sub_type: SrType) {
         self.sub_types.push(sub_type);
     }
+
+    /// Checks that every built-in type has the number of arguments it takes.
+    pub fn check_arguments(&self) -> Result<(), String> {
+        let expected = match self.main_type.as_str() {
+            "Int32" | "Int64" | "Int128" | "Int256" | "Uint32" | "Uint64" | "Uint128"
+            | "Uint256" | "String" | "BNum" | "Bool" | "ByStr" => Some(0),
+            "Option" | "List" => Some(1),
+            "Pair" | "Map" => Some(2),
+            t => t
+                .strip_prefix("ByStr")
+                .filter(|size| size.bytes().all(|b| b.is_ascii_digit()))
+                .map(|_| 0),
+        };
+        match expected {
+            Some(n) if n != self.sub_types.len() => Err(format!(
+                "Type {} takes {} argument(s), but found {}.",
+                self.main_type,
+                n,
+                self.sub_types.len()
+            )),
+            _ => self.sub_types.iter().try_for_each(Self::check_arguments),
+        }
+    }
 }
 
 impl From<SrIdentifier> for SrType {
-- 
2.43.0


From d4360309e87b10935d61bd8d92fa5aad8c3ae2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 13/25] fix: return an error for an address type that is not
 based on ByStr20

---
 src/simplified_representation/emitter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simplified_representation/emitter.rs b/src/simplified_representation/emitter.rs
index a6bfddd..d365698 100644
--- a/src/simplified_representation/emitter.rs
+++ b/src/simplified_representation/emitter.rs
@@ -346,6 +346,12 @@ impl AstConverting for SrEmitter {
             TreeTraversalMode::Enter => {
                 node.identifier.visit(self)?;
                 let identifier = self.pop_ir_identifier()?;
+                if identifier.unresolved != "ByStr20" {
+                    return Err(format!(
+                        "Expected ByStr20 in an address type, but found {}.",
+                        identifier.unresolved
+                    ));
+                }
                 self.stack
                     .push(StackObject::TypeDefinition(identifier.into()));
                 let mut main_type = self.pop_type_definition()?;
-- 
2.43.0


From 285a65a0b434d66d1b8c5ef87f2eb014c63cd52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 14/25] fix: report ByStr20 written with leading zeros as
 ByStr20

---
 src/type.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/type.rs b/src/type.rs
index 79d2f6d..2e475c1 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -111,7 +111,12 @@ impl From<SrType> for Type {
                     .strip_prefix("ByStr")
                     .and_then(|s| s.parse::<usize>().ok())
                 {
-                    Type::ByStrX(number)
+                    // Leading zeros are not significant
+                    if number == 20 {
+                        Type::ByStr20
+                    } else {
+                        Type::ByStrX(number)
+                    }
                 } else {
                     Type::Other(type_definition.main_type)
                 }
-- 
2.43.0


From 548740824d81fa4aade7925ab4b06571f659716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 15/25] fix: let import declarations and integer literals span
 exactly their own text

---
 src/parser/parser.lalrpop | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 252dd22..bcb1089 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -167,8 +167,8 @@ pub ImportedName: WithMetaData<NodeImportedName> = {
 // @return A list of one or more imported names.
 //
 pub ImportDeclarations: WithMetaData<NodeImportDeclarations> = {
-	<prev:ImportDeclarations>
-	<start:@L> "import" <n:ImportedName> <end:@R> => 
+	<start:@L> <prev:ImportDeclarations>
+	"import" <n:ImportedName> <end:@R> => 
         WithMetaData::<NodeImportDeclarations> {
             node: {
     		let mut ret = NodeImportDeclarations {
@@ -1178,7 +1178,7 @@ pub AtomicExpression: WithMetaData<NodeAtomicExpression> = {
 // @syntax valueLiteral
 // @return A value literal as a signed or unsigned integer, a hexadecimal value, a string, or an empty map.
 pub ValueLiteral: WithMetaData<NodeValueLiteral> = {
-	<start:@L> <n: TypeNameIdentifier> <v: SignedInteger> <end:@L> => 
+	<start:@L> <n: TypeNameIdentifier> <v: SignedInteger> <end:@R> => 
     WithMetaData::<NodeValueLiteral> { 
         node: NodeValueLiteral::LiteralInt(n, v),
         start,
-- 
2.43.0


From 07eb5f958053e4c4b881eeddcdd58dcf5fab8de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 16/25] fix: do not announce source positions that are never
 withdrawn

---
 src/ast/visitor.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 8482719..63a669f 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -433,7 +433,6 @@ impl AstVisitor for NodeMessageEntry {
                 }
                 NodeMessageEntry::MessageVariable(var_identifier1, var_identifier2) => {
                     var_identifier1.visit(emitter)?;
-                    emitter.push_source_position(&var_identifier2.start, &var_identifier2.end);
                     var_identifier2.visit(emitter)
                 }
             }
@@ -519,7 +518,6 @@ impl AstVisitor for NodeValueLiteral {
                 NodeValueLiteral::LiteralInt(type_name, _) => type_name.visit(emitter),
                 NodeValueLiteral::LiteralEmptyMap(type_map_key, type_map_value) => {
                     type_map_key.visit(emitter)?;
-                    emitter.push_source_position(&type_map_value.start, &type_map_value.end);
                     type_map_value.visit(emitter)
                 }
                 _ => Ok(TraversalResult::Continue),
@@ -602,8 +600,6 @@ impl AstVisitor for NodePatternMatchClause {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_pattern_match_clause(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
-            emitter
-                .push_source_position(&self.pattern_expression.start, &self.pattern_expression.end);
             match self.pattern_expression.visit(emitter) {
                 Err(msg) => Err(msg),
                 _ => match &self.statement_block {
-- 
2.43.0


From 165e0c4873cbed1e90a52c0a82cbaf5bd2fddb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 17/25] fix: pass on every converter error and skip answer of
 the traversal

---
 src/ast/visitor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 63a669f..871425a 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -157,7 +157,7 @@ impl AstVisitor for NodeBuiltinArguments {
             self.arguments
                 .iter()
                 .map(|argument| argument.visit(emitter))
-                .find(|r| *r == Err(String::from("Failure")))
+                .find(|r| r.is_err())
                 .unwrap_or(Ok(TraversalResult::Continue))
         } else {
             ret
@@ -327,7 +327,7 @@ impl AstVisitor for NodeAddressType {
             }
             ret
         } else {
-            Ok(TraversalResult::Continue)
+            ret
         }?;
         match children_ret {
             TraversalResult::Continue => emitter.emit_address_type(TreeTraversalMode::Exit, self),
@@ -496,7 +496,7 @@ impl AstVisitor for NodeContractTypeArguments {
             self.type_arguments
                 .iter()
                 .map(|child| child.visit(emitter))
-                .find(|result| *result == Err("".into()))
+                .find(|result| result.is_err())
                 .unwrap_or(Ok(TraversalResult::Continue))
         } else {
             ret
-- 
2.43.0


From 60f0a0e73f089a7236322fe10f34712bfbbf11da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 18/25] fix: traverse let definitions of a library instead of
 panicking

---
 src/ast/visitor.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 871425a..397d50a 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -988,9 +988,7 @@ impl AstVisitor for NodeLibrarySingleDefinition {
                     expression,
                 } => {
                     // TODO: Unused variables aboce
-                    let _ = expression.visit(emitter)?;
-
-                    unimplemented!()
+                    expression.visit(emitter)
                 }
                 NodeLibrarySingleDefinition::TypeDefinition(name, option_clause) => {
                     let result = name.visit(emitter);
-- 
2.43.0


From a6df882fac7a6ee6afe95e144d661e1473bfe652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 19/25] fix: visit every child node during a traversal

---
 src/ast/visitor.rs | 51 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/ast/visitor.rs b/src/ast/visitor.rs
index 397d50a..dc1aac3 100644
--- a/src/ast/visitor.rs
+++ b/src/ast/visitor.rs
@@ -342,14 +342,23 @@ impl AstVisitor for NodeFullExpression {
         let children_ret = if ret == Ok(TraversalResult::Continue) {
             match self {
                 NodeFullExpression::LocalVariableDeclaration {
+                    type_annotation,
                     expression,
                     containing_expression,
                     ..
                 } => {
+                    if let Some(annotation) = type_annotation {
+                        annotation.visit(emitter)?;
+                    }
                     expression.visit(emitter)?;
                     containing_expression.visit(emitter)
                 }
-                NodeFullExpression::FunctionDeclaration { expression, .. } => {
+                NodeFullExpression::FunctionDeclaration {
+                    type_annotation,
+                    expression,
+                    ..
+                } => {
+                    type_annotation.visit(emitter)?;
                     expression.visit(emitter)
                 }
                 NodeFullExpression::FunctionCall {
@@ -364,7 +373,12 @@ impl AstVisitor for NodeFullExpression {
                     Ok(TraversalResult::Continue)
                 }
                 NodeFullExpression::ExpressionAtomic(atom_expr) => atom_expr.visit(emitter),
-                NodeFullExpression::ExpressionBuiltin { xs, .. } => xs.visit(emitter),
+                NodeFullExpression::ExpressionBuiltin { targs, xs, .. } => {
+                    if let Some(targs) = targs {
+                        targs.visit(emitter)?;
+                    }
+                    xs.visit(emitter)
+                }
                 NodeFullExpression::Message(message_entries) => {
                     for entry in message_entries {
                         entry.visit(emitter)?;
@@ -386,10 +400,13 @@ impl AstVisitor for NodeFullExpression {
                 }
                 NodeFullExpression::ConstructorCall {
                     identifier_name,
+                    contract_type_arguments,
                     argument_list,
-                    ..
                 } => {
                     identifier_name.visit(emitter)?;
+                    if let Some(targs) = contract_type_arguments {
+                        targs.visit(emitter)?;
+                    }
                     for arg in argument_list {
                         arg.visit(emitter)?;
                     }
@@ -652,15 +669,30 @@ impl AstVisitor for NodeStatement {
                 NodeStatement::Bind {
                     right_hand_side, ..
                 } => right_hand_side.visit(emitter),
-                NodeStatement::ReadFromBC { arguments, .. } => {
+                NodeStatement::ReadFromBC {
+                    type_name,
+                    arguments,
+                    ..
+                } => {
+                    type_name.visit(emitter)?;
                     if let Some(arg) = arguments {
                         arg.visit(emitter)
                     } else {
                         Ok(TraversalResult::Continue)
                     }
                 }
+                NodeStatement::MapUpdate {
+                    keys,
+                    right_hand_side,
+                    ..
+                } => {
+                    for key in keys {
+                        key.visit(emitter)?;
+                    }
+
+                    right_hand_side.visit(emitter)
+                }
                 NodeStatement::MapGet { keys, .. }
-                | NodeStatement::MapUpdate { keys, .. }
                 | NodeStatement::MapGetExists { keys, .. }
                 | NodeStatement::MapUpdateDelete { keys, .. } => {
                     for key in keys {
@@ -957,6 +989,8 @@ impl AstVisitor for NodeLibraryDefinition {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_library_definition(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
+            self.name.visit(emitter)?;
+
             for definition in &self.definitions {
                 let result = definition.visit(emitter);
 
@@ -984,10 +1018,12 @@ impl AstVisitor for NodeLibrarySingleDefinition {
             match self {
                 NodeLibrarySingleDefinition::LetDefinition {
                     variable_name: _,
-                    type_annotation: _,
+                    type_annotation,
                     expression,
                 } => {
-                    // TODO: Unused variables aboce
+                    if let Some(annotation) = type_annotation {
+                        annotation.visit(emitter)?;
+                    }
                     expression.visit(emitter)
                 }
                 NodeLibrarySingleDefinition::TypeDefinition(name, option_clause) => {
@@ -1022,6 +1058,7 @@ impl AstVisitor for NodeContractDefinition {
     fn visit(&self, emitter: &mut dyn AstConverting) -> Result<TraversalResult, String> {
         let ret = emitter.emit_contract_definition(TreeTraversalMode::Enter, self);
         let children_ret = if ret == Ok(TraversalResult::Continue) {
+            self.contract_name.visit(emitter)?;
             self.parameters.visit(emitter)?;
 
             if let Some(constraint) = &self.constraint {
-- 
2.43.0


From 851aacc6db48cce2b7bcd3b9ae6215fdfc083b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 20/25] fix: print map and address types in Scilla syntax

---
 src/type.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/type.rs b/src/type.rs
index 2e475c1..d699b90 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -38,6 +38,16 @@ pub enum Type {
     Other(String),
 }
 
+impl Type {
+    /// Formats this type as an argument of another type.
+    fn as_argument(&self) -> String {
+        match self {
+            Type::ByStr20With { .. } => format!("({})", self),
+            _ => self.to_string(),
+        }
+    }
+}
+
 impl Display for Type {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
@@ -52,10 +62,14 @@ impl Display for Type {
             Type::String => write!(f, "String"),
             Type::BNum => write!(f, "BNum"),
             Type::Bool => write!(f, "Bool"),
-            Type::Map(ref k, ref v) => write!(f, "(Map {}, {})", k, v),
-            Type::Option(ref k) => write!(f, "(Option {})", k),
-            Type::List(ref k) => write!(f, "(List {})", k),
-            Type::Pair(ref k, ref v) => write!(f, "(Pair {} {})", k, v),
+            Type::Map(ref k, ref v) => {
+                write!(f, "(Map {} {})", k.as_argument(), v.as_argument())
+            }
+            Type::Option(ref k) => write!(f, "(Option {})", k.as_argument()),
+            Type::List(ref k) => write!(f, "(List {})", k.as_argument()),
+            Type::Pair(ref k, ref v) => {
+                write!(f, "(Pair {} {})", k.as_argument(), v.as_argument())
+            }
             Type::ByStr => write!(f, "ByStr"),
             Type::ByStrX(n) => write!(f, "ByStr{}", n),
             Type::ByStr20 => write!(f, "ByStr20"),
@@ -65,7 +79,16 @@ impl Display for Type {
                     .map(|field| format!("field {}: {}", field.name, field.r#type))
                     .collect::<Vec<String>>()
                     .join(", ");
-                write!(f, "ByStr20 with {type_name}{fields} end")
+                let contents = [type_name.as_str(), fields.as_str()]
+                    .into_iter()
+                    .filter(|part| !part.is_empty())
+                    .collect::<Vec<&str>>()
+                    .join(" ");
+                if contents.is_empty() {
+                    write!(f, "ByStr20 with end")
+                } else {
+                    write!(f, "ByStr20 with {contents} end")
+                }
             }
             Type::Other(ref s) => write!(f, "{}", s),
         }
-- 
2.43.0


From 7a1068b5be6bde6991c9f243316e8dab2c6d23b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 21/25] fix: do not accept arguments after the empty argument
 list of a builtin

---
 src/parser/parser.lalrpop | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index bcb1089..c3f8d4c 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -278,22 +278,9 @@ pub VariableIdentifier : WithMetaData<NodeVariableIdentifier> = {
 // @syntax builtinArguments
 // @return The arguments for a built-in function as either variable identifiers or an empty set of parentheses. 
 pub BuiltinArguments: WithMetaData<NodeBuiltinArguments> = {
-	<start:@L> <prev:BuiltinArguments>
-	<n:VariableIdentifier> <end:@R> => 
-    WithMetaData::<NodeBuiltinArguments> {
-        node: {
-    		let mut ret = NodeBuiltinArguments {
-    			arguments: prev.node.arguments.clone()
-    		};
-    		ret.arguments.push(n);
-    		ret
-    	},
-        start,
-        end
-    },
-	<start:@L> <n:VariableIdentifier> <end:@R> =>     WithMetaData::<NodeBuiltinArguments> {
+	<start:@L> <arguments:VariableIdentifier+> <end:@R> => WithMetaData::<NodeBuiltinArguments> {
         node: NodeBuiltinArguments {
-    		arguments: vec![n]
+    		arguments
 	    },
         start,
         end
-- 
2.43.0


From 8c362ad15c7645f5103ea2c6d4d1928c766a6a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 22/25] fix: do not accept a parameter list that starts with a
 comma

---
 src/parser/parser.lalrpop | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index c3f8d4c..7e17c6e 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -1529,17 +1529,17 @@ pub NextParameterPair: WithMetaData<NodeParameterPair> = {
 // @return Scilla component parameters with zero or more parameter pairs.
 pub ComponentParameters : WithMetaData<NodeComponentParameters> = {
    <start:@L> "(" 
-   <p:ParameterPair?> <next_params:NextParameterPair*>
+   <params:(<ParameterPair> <NextParameterPair*>)?>
    ")" <end:@R>
    => WithMetaData::<NodeComponentParameters> {
        node: {
            let mut parameters: Vec<WithMetaData<NodeParameterPair>> = Vec::new();
-           if let Some(pair) = p {
+           if let Some((pair, next_params)) = params {
     	        parameters.push(pair);
-           }
 
-           for p in next_params {
-               parameters.push(p);
+               for p in next_params {
+                   parameters.push(p);
+               }
            }
 
            NodeComponentParameters { parameters }
-- 
2.43.0


From 5d00dc92eb44c31b84f420e0fb868166c0dcf807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:44 +0000
Subject: [PATCH 23/25] fix: do not copy the fields of an address type at every
 level of nesting

---
 src/parser/parser.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index 7e17c6e..c927130 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -499,7 +499,7 @@ pub AddressType: WithMetaData<NodeAddressType> = {
 pub AddressTypeFieldList: Vec<WithMetaData<NodeAddressTypeField>> = {
 	<first:AddressTypeField> <remaining:NextAddressTypeField*> =>
 	{
-		let mut ret: Vec<WithMetaData<NodeAddressTypeField>> = [first].to_vec();
+		let mut ret: Vec<WithMetaData<NodeAddressTypeField>> = vec![first];
 		for x in remaining {
 			ret.push(x);
 		}
-- 
2.43.0


From 5582ad7f2f64da47ea3377de57f38860ecd51b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:44 +0000
Subject: [PATCH 24/25] fix: do not copy all earlier imports for each import
 keyword

---
 src/parser/parser.lalrpop | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parser/parser.lalrpop b/src/parser/parser.lalrpop
index c927130..15b5490 100644
--- a/src/parser/parser.lalrpop
+++ b/src/parser/parser.lalrpop
@@ -171,9 +171,7 @@ pub ImportDeclarations: WithMetaData<NodeImportDeclarations> = {
 	"import" <n:ImportedName> <end:@R> => 
         WithMetaData::<NodeImportDeclarations> {
             node: {
-    		let mut ret = NodeImportDeclarations {
-    			import_list: prev.node.import_list.clone()
-    		};
+    		let mut ret = prev.node;
     		ret.import_list.push(n);
     		ret
     	},
-- 
2.43.0


From 3b2e2f98206a1cb6ab4914fabd66e6f66b31d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:05 +0000
Subject: [PATCH 25/25] fix: print nested types without copying their arguments
 at every level

---
 src/type.rs | 44 ++++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/type.rs b/src/type.rs
index d699b90..91de575 100644
--- a/src/type.rs
+++ b/src/type.rs
@@ -38,12 +38,14 @@ pub enum Type {
     Other(String),
 }
 
-impl Type {
-    /// Formats this type as an argument of another type.
-    fn as_argument(&self) -> String {
-        match self {
-            Type::ByStr20With { .. } => format!("({})", self),
-            _ => self.to_string(),
+/// Formats a type as an argument of another type.
+struct Argument<'a>(&'a Type);
+
+impl Display for Argument<'_> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        match self.0 {
+            Type::ByStr20With { .. } => write!(f, "({})", self.0),
+            _ => write!(f, "{}", self.0),
         }
     }
 }
@@ -63,32 +65,26 @@ impl Display for Type {
             Type::BNum => write!(f, "BNum"),
             Type::Bool => write!(f, "Bool"),
             Type::Map(ref k, ref v) => {
-                write!(f, "(Map {} {})", k.as_argument(), v.as_argument())
+                write!(f, "(Map {} {})", Argument(k), Argument(v))
             }
-            Type::Option(ref k) => write!(f, "(Option {})", k.as_argument()),
-            Type::List(ref k) => write!(f, "(List {})", k.as_argument()),
+            Type::Option(ref k) => write!(f, "(Option {})", Argument(k)),
+            Type::List(ref k) => write!(f, "(List {})", Argument(k)),
             Type::Pair(ref k, ref v) => {
-                write!(f, "(Pair {} {})", k.as_argument(), v.as_argument())
+                write!(f, "(Pair {} {})", Argument(k), Argument(v))
             }
             Type::ByStr => write!(f, "ByStr"),
             Type::ByStrX(n) => write!(f, "ByStr{}", n),
             Type::ByStr20 => write!(f, "ByStr20"),
             Type::ByStr20With { type_name, fields } => {
-                let fields = fields
-                    .iter()
-                    .map(|field| format!("field {}: {}", field.name, field.r#type))
-                    .collect::<Vec<String>>()
-                    .join(", ");
-                let contents = [type_name.as_str(), fields.as_str()]
-                    .into_iter()
-                    .filter(|part| !part.is_empty())
-                    .collect::<Vec<&str>>()
-                    .join(" ");
-                if contents.is_empty() {
-                    write!(f, "ByStr20 with end")
-                } else {
-                    write!(f, "ByStr20 with {contents} end")
+                write!(f, "ByStr20 with ")?;
+                if !type_name.is_empty() {
+                    write!(f, "{type_name} ")?;
+                }
+                for (i, field) in fields.iter().enumerate() {
+                    let separator = if i + 1 < fields.len() { ", " } else { " " };
+                    write!(f, "field {}: {}{separator}", field.name, field.r#type)?;
                 }
+                write!(f, "end")
             }
             Type::Other(ref s) => write!(f, "{}", s),
         }
-- 
2.43.0

