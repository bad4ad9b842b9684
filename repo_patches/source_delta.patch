From beb461c0d213b6ad9522a831662bf015bb7061a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:23 +0000
Subject: [PATCH 01/22] fix: do not panic on \\:hhhh and \\|hhhhhh escapes that
 name a surrogate

---
 .../wolfram-parser/src/read/character_decoder.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/read/character_decoder.rs b/crates/wolfram-parser/src/read/character_decoder.rs
index 0752264..e7da9a1 100644
--- a/crates/wolfram-parser/src/read/character_decoder.rs
+++ b/crates/wolfram-parser/src/read/character_decoder.rs
@@ -641,7 +641,13 @@ fn CharacterDecoder_handle4Hex(
     let d1 = u32::from(utils::toDigit(hexStartBuf[2]));
     let d0 = u32::from(utils::toDigit(hexStartBuf[3]));
     let point: u32 = d3 << 12 | d2 << 8 | d1 << 4 | d0;
-    let mut point = CodePoint::from_u32(point).unwrap();
+
+    // A surrogate (\:d800 .. \:dfff) is not a character.
+    let Some(mut point) = CodePoint::from_u32(point) else {
+        session.seek(colon);
+
+        return WLCharacter::new('\\');
+    };
 
     match point {
         CodePoint::Char(CODEPOINT_ACTUAL_DOUBLEQUOTE) => {
@@ -959,14 +965,12 @@ fn CharacterDecoder_handle6Hex(
         u32::from_be_bytes([0, d5 << 4 | d4, d3 << 4 | d2, d1 << 4 | d0]);
 
     // TODO: Is this logic here correct? Why always return a \ if point is out
-    //       of range?
-    if point > 0x10ffff {
+    //       of range (or is a surrogate)?
+    let Some(mut point) = CodePoint::from_u32(point) else {
         session.seek(bar);
 
         return WLCharacter::new('\\');
-    }
-
-    let mut point = CodePoint::from_u32(point).unwrap();
+    };
 
     //
     // Success!
-- 
2.43.0


From 692a04b8e326e9b1479e325047bf5fdf0813bd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:23 +0000
Subject: [PATCH 02/22] fix: abstract <<, >> and >>> whose file name is missing

---
 crates/wolfram-parser/src/abstract_cst.rs | 25 +++++++++--------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index a31d31c..98db7d0 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -500,7 +500,8 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                         )],
                         data,
                     ),
-                    _ => unhandled(),
+                    // e.g. an Error_ExpectedFile token
+                    rand => Ast::call(st::Get, vec![abstract_(rand)], data),
                 }
             },
 
@@ -620,27 +621,21 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                     data,
                 ),
                 BinaryOperator::Put | BinaryOperator::PutAppend => {
-                    let (str, data1) = match right {
+                    let file = match right {
                         // {left_, _, LeafNode[String, str_, data1_]}
                         Cst::Token(Token {
                             tok: TokenKind::String,
                             ref input,
                             src: data1,
-                        }) => (input.as_str(), data1),
-                        _ => unhandled(),
+                        }) => Ast::string(
+                            escapeString_of_abstractFileString(input.as_str()),
+                            data1,
+                        ),
+                        // e.g. an Error_ExpectedFile token
+                        right => abstract_(right),
                     };
 
-                    Ast::call(
-                        op.to_symbol(),
-                        vec![
-                            abstract_(left),
-                            Ast::string(
-                                escapeString_of_abstractFileString(str),
-                                data1,
-                            ),
-                        ],
-                        data,
-                    )
+                    Ast::call(op.to_symbol(), vec![abstract_(left), file], data)
                 },
 
                 BinaryOperator::Pattern => Ast::call(
-- 
2.43.0


From 458cf9c25114590207f71ede0cda8ce10592fa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:23 +0000
Subject: [PATCH 03/22] fix: abstract groups that contain several nodes because
 of a stray closer

---
 crates/wolfram-parser/src/abstract_cst.rs     | 60 +++++++++++++++----
 .../src/abstract_cst/abstract_call_node.rs    | 15 +++--
 2 files changed, 59 insertions(+), 16 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 98db7d0..7bd798a 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1026,7 +1026,18 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![],
                             data,
                         ),
-                        _ => unhandled(),
+                        _ => {
+                            let NodeSeq(children) = children;
+                            let children =
+                                part_span_drop_first_and_last(children);
+                            let children = abstract_cst_seq(NodeSeq(children));
+
+                            Ast::abstract_syntax_error(
+                                AbstractSyntaxError::OpenSquare,
+                                children,
+                                data,
+                            )
+                        },
                     }
                 },
 
@@ -1064,7 +1075,18 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![],
                             data,
                         ),
-                        _ => unhandled(),
+                        _ => {
+                            let NodeSeq(children) = children;
+                            let children =
+                                part_span_drop_first_and_last(children);
+                            let children = abstract_cst_seq(NodeSeq(children));
+
+                            Ast::abstract_syntax_error(
+                                AbstractSyntaxError::ColonColonOpenSquare,
+                                children,
+                                data,
+                            )
+                        },
                     }
                 },
 
@@ -1102,7 +1124,18 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![],
                             data,
                         ),
-                        _ => unhandled(),
+                        _ => {
+                            let NodeSeq(children) = children;
+                            let children =
+                                part_span_drop_first_and_last(children);
+                            let children = abstract_cst_seq(NodeSeq(children));
+
+                            Ast::abstract_syntax_error(
+                                AbstractSyntaxError::LeftDoubleBracket,
+                                children,
+                                data,
+                            )
+                        },
                     }
                 },
 
@@ -1572,12 +1605,12 @@ fn parenthesizedIntegerOrRealQ<I: Debug, S: Debug>(node: &Cst<I, S>) -> bool {
             op: GroupOperator::CodeParser_GroupParen,
             children,
         })) => {
-            let [_, child, _]: &[_; 3] =
-                children.0.as_slice().try_into().expect(
-                    "GroupParen Group node has unexpected number of children",
-                );
-
-            parenthesizedIntegerOrRealQ(child)
+            // A malformed group, e.g. () or (1 2 ], has some other number
+            // of children.
+            match children.0.as_slice() {
+                [_, child, _] => parenthesizedIntegerOrRealQ(child),
+                _ => false,
+            }
         },
         // parenthesizedIntegerOrRealQ[LeafNode[Integer, _, _]] := True
         // parenthesizedIntegerOrRealQ[LeafNode[Real, _, _]] := True
@@ -1631,9 +1664,14 @@ fn possiblyNegatedZeroQ<I: TokenInput + Debug, S: Debug>(
             op: GroupOperator::CodeParser_GroupParen,
             children,
         })) => {
-            expect_children!(children, {_, child:_, _});
+            let NodeSeq(children) = children;
 
-            possiblyNegatedZeroQ(child)
+            // A malformed group, e.g. () or (0 ], has some other number of
+            // children.
+            match <[_; 3]>::try_from(children) {
+                Ok([_, child, _]) => possiblyNegatedZeroQ(child),
+                Err(_) => false,
+            }
         },
         // possiblyNegatedZeroQ[PrefixNode[Minus, { _, child_}, _]] :=
         //     possiblyNegatedZeroQ[child]
diff --git a/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs b/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
index b38cc87..94418cc 100644
--- a/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
+++ b/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
@@ -88,11 +88,16 @@ pub(super) fn abstract_call_node<
                 })),
             src: data,
         } if matches!(
-            children.0[1], // inner
-            Cst::Group(GroupNode(OperatorNode {
-                op: GroupOperator::CodeParser_GroupSquare,
-                ..
-            }))
+            children.0.as_slice(),
+            // {first_, inner_, last_}
+            [
+                _,
+                Cst::Group(GroupNode(OperatorNode {
+                    op: GroupOperator::CodeParser_GroupSquare,
+                    ..
+                })),
+                _
+            ]
         ) =>
         {
             // {first_, inner:GroupNode[GroupSquare, _, _], last_}
-- 
2.43.0


From 328160881ddc36bf86f028bfe28b01a09f134b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:58 +0000
Subject: [PATCH 04/22] fix: keep the last line of an unterminated multi-line
 token in its text

---
 crates/wolfram-parser/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index e5472b1..f6f7df6 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -156,7 +156,7 @@ fn reparse_unterminated_token_error_node<'i>(
 
             if first_chunk.len() > 1 {
                 components.extend(
-                    first_chunk[1..last_good_line_index]
+                    first_chunk[1..=last_good_line_index]
                         .iter()
                         .map(|line: &Line| line.content),
                 );
-- 
2.43.0


From 6335271c4e103506819f327b252724554525d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:58 +0000
Subject: [PATCH 05/22] fix: do not panic on an unterminated group or token
 followed by a BOM

---
 crates/wolfram-parser/src/error.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index f6f7df6..c81713c 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -367,7 +367,12 @@ fn split_into_chunks<'s, 'i>(lines: &'s [Line<'i>]) -> Vec<&'s [Line<'i>]> {
 fn is_new_statement_line(line: &str) -> bool {
     debug_assert!(!line.contains(&['\r', '\n']));
 
-    let crate::NodeSeq(tokens) = crate::tokenize(line, &Default::default());
+    // A line can contain a character that is unsafe even in valid UTF-8 (a BOM).
+    let Ok(crate::NodeSeq(tokens)) =
+        crate::tokenize_bytes(line.as_bytes(), &Default::default())
+    else {
+        return false;
+    };
 
     let tokens: Vec<_> = tokens
         .into_iter()
-- 
2.43.0


From c8af7687c690952791c8d6cd234ad9a9d154d861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:58 +0000
Subject: [PATCH 06/22] fix: do not panic on an unterminated group in input
 that is not valid UTF-8

---
 crates/wolfram-parser/src/parse.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/parse.rs b/crates/wolfram-parser/src/parse.rs
index 3f93e84..b3da6d3 100644
--- a/crates/wolfram-parser/src/parse.rs
+++ b/crates/wolfram-parser/src/parse.rs
@@ -1478,12 +1478,15 @@ impl<'i, B: ParseBuilder<'i> + 'i> ParserSession<'i, B> {
 
         self.pop_group();
 
-        // The input MUST be valid UTF-8, because we only reduce an *unterminated*
-        // group node if we've read an EOF (which is how we know it must be
-        // unterminated: we've read all the input).
-        let input = std::str::from_utf8(self.input()).expect(
-            "cannot reparse unterminated group node: input is not valid UTF-8",
-        );
+        // Input that is not valid UTF-8 cannot be split into lines, so, as for
+        // unterminated tokens, the group is kept as it was parsed.
+        let Ok(input) = std::str::from_utf8(self.input()) else {
+            return self.builder.reduce_group_missing_closer(
+                ctx_data,
+                op,
+                group_state,
+            );
+        };
 
         let tab_width = self.tokenizer.tab_width as usize;
 
-- 
2.43.0


From 009567f7fc5f2088b668b609f4bc99ddd65c9b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:25 +0000
Subject: [PATCH 07/22] fix: count characters, not bytes, when an unterminated
 token is cut in the character-index convention

---
 crates/wolfram-parser/src/error.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index c81713c..a6411d0 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -538,16 +538,21 @@ fn to_lines_and_expand_tabs(input: &str, _tab_width: u32) -> Vec<Line> {
     //     .collect();
 }
 
+/// Number of source characters in `s`. Character indexes count source characters.
 fn StringLength(s: &str) -> usize {
-    // FIXME: StringLength is NOT equal to string byte count. StringLengh counts
-    //        WL characters (e.g. \[Alpha] counts as 1 character), but
-    //        String::len() counts bytes. This is wrong.
-    s.len()
+    s.chars().count()
 }
 
 fn StringTake(s: &str, range: CharacterSpan) -> &str {
-    // FIXME: This treats WL characters as bytes.
-    &s[range.to_rust_range()]
+    let Range { start, end } = range.to_rust_range();
+
+    let byte_offset = |char_index: usize| {
+        s.char_indices()
+            .nth(char_index)
+            .map_or(s.len(), |(offset, _)| offset)
+    };
+
+    &s[byte_offset(start)..byte_offset(end)]
 }
 
 //==========================================================
-- 
2.43.0


From 1ba53d6724931e29b0da3f13d4f1b5b2e088b3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:52 +0000
Subject: [PATCH 08/22] fix: abstract strings that contain bytes which are not
 valid UTF-8

---
 crates/wolfram-parser/src/abstract_cst.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 7bd798a..f82c50f 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -391,7 +391,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                                     st::Slot,
                                     vec![Ast::string(
                                         escapeString_of_abstractSymbolString(
-                                            s.as_str(),
+                                            &string_text(&s),
                                         ),
                                         data1,
                                     )],
@@ -495,7 +495,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                     }) => Ast::call(
                         st::Get,
                         vec![Ast::string(
-                            escapeString_of_abstractFileString(str.as_str()),
+                            escapeString_of_abstractFileString(&string_text(&str)),
                             data1,
                         )],
                         data,
@@ -628,7 +628,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             ref input,
                             src: data1,
                         }) => Ast::string(
-                            escapeString_of_abstractFileString(input.as_str()),
+                            escapeString_of_abstractFileString(&string_text(input)),
                             data1,
                         ),
                         // e.g. an Error_ExpectedFile token
@@ -1458,6 +1458,12 @@ pub(crate) fn expect_children<I: Debug, S: Debug, const N: usize>(
 }
 
 
+/// Text of a string token. Unlike other tokens, a string can contain bytes that
+/// are not valid UTF-8.
+fn string_text<I: TokenInput>(input: &I) -> std::borrow::Cow<str> {
+    String::from_utf8_lossy(input.as_bytes())
+}
+
 /// Ported composition of `escapeString(abstractSymbolString(s))`.
 fn escapeString_of_abstractSymbolString(s: &str) -> String {
     // FIXME: This is made up. Consult original WL source and finish porting
@@ -2289,7 +2295,7 @@ fn abstractMessageName<I: TokenInput + Debug, S: TokenSource + Debug>(
             input: str,
             src: data,
         }) => Ast::string(
-            escapeString_of_abstractSymbolString(str.as_str()),
+            escapeString_of_abstractSymbolString(&string_text(&str)),
             data,
         ),
         // FIXME: The original WL here didn't call abstract[..] here. Is that
-- 
2.43.0


From 72171665e5672480f49961eed56f08ec6e0f5973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:31 +0000
Subject: [PATCH 09/22] fix: do not let an unterminated file string swallow the
 rest of its line

---
 crates/wolfram-parser/src/error.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index a6411d0..018197a 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -133,6 +133,13 @@ fn reparse_unterminated_token_error_node<'i>(
 ) {
     debug_assert!(error.tok.isError() && error.tok.isUnterminated());
 
+    // Unlike the other unterminated tokens, an unterminated file string ends at
+    // the first character that cannot be part of it. What follows on that line
+    // belongs to other tokens.
+    if error.tok == TokenKind::Error_UnterminatedFileString {
+        return;
+    }
+
     // TODO: Use `input` here to optimize the process_lines() calculation?
     let Token {
         tok: _,
-- 
2.43.0


From b94f2a7f7dd726b4256a8c3bf4d6e4d7fba13545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:43 +0000
Subject: [PATCH 10/22] fix: keep the source of derivatives in the abstract
 tree

f' lost its source, which also failed the debug assertion that an Ast has the
source of its Cst.
---
 crates/wolfram-parser/src/abstract_cst.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index f82c50f..977b23b 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -546,7 +546,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                                     AstMetadata::empty(),
                                 ),
                                 vec![abstractedBody],
-                                AstMetadata::empty(),
+                                data,
                             )
                         },
                         // PostfixNode[Derivative, {rand_, LeafNode[Token`Boxes`MultiSingleQuote, quoteStr_, _]}, data_]
@@ -564,7 +564,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                                     AstMetadata::empty(),
                                 ),
                                 vec![abstract_(operand)],
-                                AstMetadata::empty(),
+                                data,
                             )
                         },
                         _ => unhandled(),
-- 
2.43.0


From b4070debef353d1a48f70794c9324864844135b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:43 +0000
Subject: [PATCH 11/22] fix: abstract products without * in differences and
 quotients

The separators of an infix Times need not be stars: a - b c failed a debug
assertion.
---
 crates/wolfram-parser/src/abstract_cst.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 977b23b..a38e45d 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1739,7 +1739,7 @@ impl<I: TokenInput + Debug, S: TokenSource + Debug> Negated<I, S> {
             },
             Negated::InfixTimesSeq(NodeSeq(children)) => {
                 let children =
-                    part_span_even_children(children, Some(TK::Star));
+                    part_span_even_children(children, None);
 
                 let infix = InfixNode(OperatorNode {
                     op: InfixOperator::Times,
@@ -2097,7 +2097,7 @@ where
             op: InfixOperator::Times,
             children: NodeSeq(children),
         })) => {
-            let children = part_span_even_children(children, Some(TK::Star));
+            let children = part_span_even_children(children, None);
 
             flattenTimes(children, data.clone())
         },
-- 
2.43.0


From ffbf6ba40c7001434b6c040ae481ad140317aad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:43 +0000
Subject: [PATCH 12/22] fix: accept \[InvisibleComma] as the first comma of a
 sequence

It failed a debug assertion.
---
 crates/wolfram-parser/src/parse/parselet.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/parse/parselet.rs b/crates/wolfram-parser/src/parse/parselet.rs
index d38fba2..bbf4ac6 100644
--- a/crates/wolfram-parser/src/parse/parselet.rs
+++ b/crates/wolfram-parser/src/parse/parselet.rs
@@ -1795,7 +1795,10 @@ impl<'i, B: ParseBuilder<'i> + 'i> InfixParselet<'i, B> for CommaParselet {
     ) -> B::Node {
         panic_if_aborted!();
 
-        debug_assert_eq!(tok_in.tok, TokenKind::Comma);
+        debug_assert!(matches!(
+            tok_in.tok,
+            TokenKind::Comma | TokenKind::LongName_InvisibleComma
+        ));
 
         let tok_in = session.push_syntax_and_next(tok_in);
 
-- 
2.43.0


From ca0696d4af8bb4d721d29945b62bf5503f0e9bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:20 +0000
Subject: [PATCH 13/22] fix: let only ASCII letters and digits continue a
 malformed long name
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The tokenizer and WLCharacter already take only ASCII letters and digits;
SourceCharacter::isAlphaOrDigit took any Unicode letter, so the issue
reported for \[Alphaé pointed beyond the token it describes.
---
 crates/wolfram-parser/src/source.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/source.rs b/crates/wolfram-parser/src/source.rs
index be4c7ad..dcb4d6b 100644
--- a/crates/wolfram-parser/src/source.rs
+++ b/crates/wolfram-parser/src/source.rs
@@ -1203,7 +1203,7 @@ impl PartialOrd for Source {
 impl SourceCharacter {
     pub fn isAlphaOrDigit(&self) -> bool {
         match self {
-            CodePoint::Char(c) => c.is_alphanumeric(),
+            CodePoint::Char(c) => c.is_ascii_alphanumeric(),
             _ => false,
         }
     }
-- 
2.43.0


From 598fb8b39137a30f2e3e42ecbd208814def6057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:55 +0000
Subject: [PATCH 14/22] fix: print \[RawDoubleQuote] and \[RawBackslash]
 instead of panicking

---
 crates/wolfram-parser/src/byte_encoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/wolfram-parser/src/byte_encoder.rs b/crates/wolfram-parser/src/byte_encoder.rs
index 4f1ca1d..e12f392 100644
--- a/crates/wolfram-parser/src/byte_encoder.rs
+++ b/crates/wolfram-parser/src/byte_encoder.rs
@@ -15,6 +15,11 @@ pub(crate) fn encodeBytes(
             return Ok(());
         },
         //
+        // \[RawDoubleQuote] and \[RawBackslash]
+        //
+        CodePoint::StringMeta_DoubleQuote => stream.write_char('"'),
+        CodePoint::StringMeta_Backslash => stream.write_char('\\'),
+        //
         // e.g., GTest was trying to print
         //
         Unsafe1ByteUtf8Sequence
-- 
2.43.0


From 51a89373f6c3f4937672d7b9505e0afa891eb6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:55 +0000
Subject: [PATCH 15/22] fix: a span overlaps a span that encloses it

---
 crates/wolfram-parser/src/source.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/source.rs b/crates/wolfram-parser/src/source.rs
index dcb4d6b..30643dc 100644
--- a/crates/wolfram-parser/src/source.rs
+++ b/crates/wolfram-parser/src/source.rs
@@ -899,7 +899,9 @@ impl LineColumnSpan {
     pub fn overlaps(&self, cursor: LineColumnSpan) -> bool {
         let LineColumnSpan { start, end } = cursor;
 
-        self.contains(start) || self.contains(end)
+        self.contains(start)
+            || self.contains(end)
+            || cursor.contains(self.start)
     }
 
     #[cfg_attr(not(debug_assertions), allow(dead_code))]
-- 
2.43.0


From bbc2b10b40532854ce01d1594c00036f528c467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:13 +0000
Subject: [PATCH 16/22] fix: skip a script's first line only if it starts with
 #!, and no more than that line

A first line that starts with # but not with #! lost its #, and a string or
comment that begins in the first line was skipped up to its end.
---
 .../wolfram-parser/src/tokenize/tokenizer.rs  | 95 ++++---------------
 1 file changed, 20 insertions(+), 75 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 4dc8919..7e9c5ec 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -170,25 +170,23 @@ impl<'i> Tokenizer<'i> {
             FirstLineBehavior::NotScript => {
                 return;
             },
-            FirstLineBehavior::Check => {
+            // TODO: if Script and there is no #! shebang, then add to Issues
+            FirstLineBehavior::Check | FirstLineBehavior::Script => {
                 //
-                // Handle the optional #! shebang
+                // Handle the #! shebang
+                //
+                // The line is not Wolfram Language code, so look at its
+                // characters and not at tokens.
                 //
 
-                let mut peek = self.peek_token();
+                let start = self.mark();
 
-                if peek.tok != TokenKind::Hash {
+                if self.next_source_char(TOPLEVEL) != '#'
+                    || self.next_source_char(TOPLEVEL) != '!'
+                {
                     // not #!
 
-                    return;
-                }
-
-                peek.skip(self);
-
-                peek = self.peek_token();
-
-                if peek.tok != TokenKind::Bang {
-                    // not #!
+                    self.seek(start);
 
                     return;
                 }
@@ -197,26 +195,22 @@ impl<'i> Tokenizer<'i> {
                 // Definitely a shebang
                 //
 
-                peek.skip(self);
-
                 loop {
                     if feature::CHECK_ABORT && crate::abortQ() {
                         break;
                     }
 
-                    let peek = self.peek_token();
+                    match self.peek_source_char(TOPLEVEL) {
+                        EndOfFile => break,
+                        Char('\n' | '\r') | CRLF => {
+                            self.next_source_char(TOPLEVEL);
 
-                    if peek.tok == TokenKind::EndOfFile {
-                        break;
-                    }
-
-                    if peek.tok == TokenKind::ToplevelNewline {
-                        peek.skip(self);
-
-                        break;
+                            break;
+                        },
+                        _ => {
+                            self.next_source_char(TOPLEVEL);
+                        },
                     }
-
-                    peek.skip(self);
                 } // while (true)
 
                 //
@@ -224,55 +218,6 @@ impl<'i> Tokenizer<'i> {
                 // but only after BIGCODEMERGE!!
                 //
             },
-            FirstLineBehavior::Script => {
-                //
-                // Handle the #! shebang
-                //
-
-                let mut peek = self.peek_token();
-
-                if peek.tok != TokenKind::Hash {
-                    //
-                    // TODO: add to Issues
-                    //
-
-                    return;
-                }
-
-                peek.skip(self);
-
-                peek = self.peek_token();
-
-                if peek.tok != TokenKind::Bang {
-                    //
-                    // TODO: add to Issues
-                    //
-
-                    return;
-                }
-
-                peek.skip(self);
-
-                loop {
-                    if feature::CHECK_ABORT && crate::abortQ() {
-                        break;
-                    }
-
-                    let peek = self.peek_token();
-
-                    if peek.tok == TokenKind::EndOfFile {
-                        break;
-                    }
-
-                    if peek.tok == TokenKind::ToplevelNewline {
-                        peek.skip(self);
-
-                        break;
-                    }
-
-                    peek.skip(self);
-                } // while (true)
-            },
         }
     }
 
-- 
2.43.0


From 2eef9a0979935064509a7863b21f89ffafe01ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:23 +0000
Subject: [PATCH 17/22] fix: accept $ anywhere in an unquoted file name

It is one of the documented characters, but was accepted only as the first one.
---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 7e9c5ec..575ccbf 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -1714,7 +1714,7 @@ fn Tokenizer_handleString_stringifyAsFile<'i>(
             #[rustfmt::skip]
             Char(
                 'A'..='Z' | 'a'..='z' | '0'..='9'
-                | '`' | '/' | '.' | '\\' | '!'
+                | '$' | '`' | '/' | '.' | '\\' | '!'
                 | '-' | '_' | ':' | '*' | '~' | '?',
             ) => {
                 session.next_source_char(policy);
-- 
2.43.0


From 623059423dacc328047f372ffb70a853ee8172e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:52 +0000
Subject: [PATCH 18/22] fix: suggest the multiplication sign before the second
 dot of 1.2.3, where the product is

---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 575ccbf..82b90ca 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -2985,12 +2985,16 @@ fn Tokenizer_handlePossibleFractionalPartPastDot<'i>(
                 //
                 // Something like  1.2.3
                 //
+                // The implicit Times is before the second dot
+                //
+
+                let dotLoc = session.SrcLoc;
 
                 let mut Actions = Vec::new();
 
                 Actions.push(CodeAction::insert_text(
                     "Insert ``*``".into(),
-                    Span::at(dot_mark.src_loc),
+                    Span::at(dotLoc),
                     "*".into(),
                 ));
 
@@ -2998,7 +3002,7 @@ fn Tokenizer_handlePossibleFractionalPartPastDot<'i>(
                     IssueTag::UnexpectedImplicitTimes,
                     format!("Suspicious syntax."),
                     Severity::Error,
-                    Span::at(dot_mark.src_loc),
+                    Span::at(dotLoc),
                     0.99,
                     Actions,
                     vec![],
-- 
2.43.0


From 854fef1767c9a17733ea73c38d4a9df391eb4279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:10 +0000
Subject: [PATCH 19/22] fix: send a node's confidence level as a rule, so its
 metadata stays an association

---
 crates/codeparser-wll/src/convert_wstp.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/codeparser-wll/src/convert_wstp.rs b/crates/codeparser-wll/src/convert_wstp.rs
index ab84420..917757e 100644
--- a/crates/codeparser-wll/src/convert_wstp.rs
+++ b/crates/codeparser-wll/src/convert_wstp.rs
@@ -195,6 +195,8 @@ impl WstpPut for Metadata {
         }
 
         if let Some(level) = confidence_level {
+            link.put_function("System`Rule", 2).unwrap();
+            link.put_symbol(sym::ConfidenceLevel.as_str()).unwrap();
             link.put_expr(&Expr::number(level.clone())).unwrap();
         }
 
-- 
2.43.0


From 26014ab2cca4bb02fd5dc2bf98aeb675b6b5a361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:52 +0000
Subject: [PATCH 20/22] fix: abstract sub- and superscript boxes that are not
 the special forms instead of panicking

---
 crates/wolfram-parser/src/abstract_cst.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index a38e45d..cd19d5d 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -3062,7 +3062,9 @@ fn try_subscript_box_part_special_cases<
             CodeParser_GroupSquare,
             children1:_
         ]) => {
-            let [o1, group, c1] = expect_children(children1);
+            let Ok([o1, group, c1]) = <[_; 3]>::try_from(children1.0) else {
+                return Err(box_node);
+            };
 
             match o1 {
                 LHS!(LeafNode[OpenSquare, _, _]) => (),
@@ -3081,7 +3083,9 @@ fn try_subscript_box_part_special_cases<
                     CodeParser_GroupSquare,
                     children2:_
                 ]) => {
-                    let [o2, b, c2] = expect_children(children2);
+                    let Ok([o2, b, c2]) = <[_; 3]>::try_from(children2.0) else {
+                        return Err(box_node);
+                    };
 
                     match o2 {
                         LHS!(LeafNode[OpenSquare, _, _]) => (),
@@ -3130,7 +3134,9 @@ fn try_subscript_box_part_special_cases<
             CodeParser_GroupDoubleBracket,
             children1:_
         ]) => {
-            let [o, b, c] = expect_children(children1);
+            let Ok([o, b, c]) = <[_; 3]>::try_from(children1.0) else {
+                return Err(box_node);
+            };
 
             match o {
                 LHS!(LeafNode[LongName_LeftDoubleBracket, _, _]) => (),
@@ -3229,7 +3235,7 @@ fn try_superscript_box_derivative_special_case<
 
     let (a, middle) = match children.0.as_slice() {
         [a, middle, ..] => (a.clone(), middle.clone()),
-        _ => todo!("Error?"),
+        _ => return Err(box_node),
     };
 
     let LHS!(BoxNode[
@@ -3241,7 +3247,9 @@ fn try_superscript_box_derivative_special_case<
         return Err(box_node);
     };
 
-    let [left, t] = expect_children(children1);
+    let Ok([left, t]) = <[_; 2]>::try_from(children1.0) else {
+        return Err(box_node);
+    };
 
     let data2 = left.get_source();
 
@@ -3266,7 +3274,9 @@ fn try_superscript_box_derivative_special_case<
             && second.try_as_symbol().map(wolfram_expr::Symbol::as_str)
                 == Some("System`Derivative") =>
         {
-            let [o, b, c] = expect_children(children2);
+            let Ok([o, b, c]) = <[_; 3]>::try_from(children2.0) else {
+                return Err(box_node);
+            };
 
             let [o @ LHS!(LeafNode[OpenParen, _, _]), b @ _, c @ LHS!(LeafNode[CloseParen, _, _])] =
                 [o, b, c]
-- 
2.43.0


From 1b80c7bb63694602904772314d8010337b94c9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:17 +0000
Subject: [PATCH 21/22] fix: end at the end of standard input instead of
 looping forever

---
 crates/wolfram-parser/src/bin/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/bin/main.rs b/crates/wolfram-parser/src/bin/main.rs
index 37c28bf..d05a1e1 100644
--- a/crates/wolfram-parser/src/bin/main.rs
+++ b/crates/wolfram-parser/src/bin/main.rs
@@ -84,7 +84,12 @@ fn read_std_in(mode: ApiMode, output_mode: OutputMode, quirks: QuirkSettings) {
         print!(">>> ");
         io::stdout().flush().unwrap();
 
-        io::stdin().read_line(&mut input).unwrap();
+        let bytes_read = io::stdin().read_line(&mut input).unwrap();
+
+        if bytes_read == 0 {
+            // End of the input.
+            break;
+        }
 
         handle(input.trim_end().as_bytes(), mode, output_mode, quirks)
     }
-- 
2.43.0


From 6006ec4e66ebdd98ff9160fa583b9fee7675454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:17 +0000
Subject: [PATCH 22/22] fix: print trees of badly encoded text instead of
 panicking

---
 crates/wolfram-parser/src/fmt_as_expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/fmt_as_expr.rs b/crates/wolfram-parser/src/fmt_as_expr.rs
index b4d479d..940be91 100644
--- a/crates/wolfram-parser/src/fmt_as_expr.rs
+++ b/crates/wolfram-parser/src/fmt_as_expr.rs
@@ -78,8 +78,8 @@ impl<I: TokenInput, S: TokenSource> Display for FmtAsExpr<&Token<I, S>> {
 
 
 
-        let source = std::str::from_utf8(input.as_bytes())
-            .expect("token source span is not valid UTF-8");
+        // The input of a badly encoded token is not valid UTF-8.
+        let source = String::from_utf8_lossy(input.as_bytes());
 
         // FIXME: This should escape internal characters correctly.
         write!(f, "\"{source}\"")?;
-- 
2.43.0

