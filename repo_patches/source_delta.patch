From 6efa17b5ead2dee840cdf74f3989f568d188244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:45 +0000
Subject: [PATCH 01/28] fix: do not panic on escapes of surrogate code points
 (\:d800, \|00d800)

---
 .../wolfram-parser/src/read/character_decoder.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/read/character_decoder.rs b/crates/wolfram-parser/src/read/character_decoder.rs
index 0752264..c7b8b94 100644
--- a/crates/wolfram-parser/src/read/character_decoder.rs
+++ b/crates/wolfram-parser/src/read/character_decoder.rs
@@ -641,7 +641,13 @@ fn CharacterDecoder_handle4Hex(
     let d1 = u32::from(utils::toDigit(hexStartBuf[2]));
     let d0 = u32::from(utils::toDigit(hexStartBuf[3]));
     let point: u32 = d3 << 12 | d2 << 8 | d1 << 4 | d0;
-    let mut point = CodePoint::from_u32(point).unwrap();
+
+    // Surrogate values (\:d800 through \:dfff) are not characters.
+    let Some(mut point) = CodePoint::from_u32(point) else {
+        session.seek(colon);
+
+        return WLCharacter::new('\\');
+    };
 
     match point {
         CodePoint::Char(CODEPOINT_ACTUAL_DOUBLEQUOTE) => {
@@ -959,14 +965,12 @@ fn CharacterDecoder_handle6Hex(
         u32::from_be_bytes([0, d5 << 4 | d4, d3 << 4 | d2, d1 << 4 | d0]);
 
     // TODO: Is this logic here correct? Why always return a \ if point is out
-    //       of range?
-    if point > 0x10ffff {
+    //       of range, or is a surrogate?
+    let Some(mut point) = CodePoint::from_u32(point) else {
         session.seek(bar);
 
         return WLCharacter::new('\\');
-    }
-
-    let mut point = CodePoint::from_u32(point).unwrap();
+    };
 
     //
     // Success!
-- 
2.43.0


From c35eea284930e5e7910268ae8190d7e90cfa4c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:45 +0000
Subject: [PATCH 02/28] fix: do not panic on an unterminated group in input
 that is not valid UTF-8

---
 crates/wolfram-parser/src/parse.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/parse.rs b/crates/wolfram-parser/src/parse.rs
index 3f93e84..49dd1d9 100644
--- a/crates/wolfram-parser/src/parse.rs
+++ b/crates/wolfram-parser/src/parse.rs
@@ -1478,12 +1478,13 @@ impl<'i, B: ParseBuilder<'i> + 'i> ParserSession<'i, B> {
 
         self.pop_group();
 
-        // The input MUST be valid UTF-8, because we only reduce an *unterminated*
-        // group node if we've read an EOF (which is how we know it must be
-        // unterminated: we've read all the input).
-        let input = std::str::from_utf8(self.input()).expect(
-            "cannot reparse unterminated group node: input is not valid UTF-8",
-        );
+        // The input may contain bytes that are not valid UTF-8. In that case
+        // there is no text to reparse, so keep the group's children as they are.
+        let Ok(input) = std::str::from_utf8(self.input()) else {
+            return self
+                .builder
+                .reduce_group_missing_closer(ctx_data, op, group_state);
+        };
 
         let tab_width = self.tokenizer.tab_width as usize;
 
-- 
2.43.0


From c6ed44a5f55243cab8abfbcb6957b7f7f48ce3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:45 +0000
Subject: [PATCH 03/28] fix: do not panic when tokenizing a string that
 contains a BOM

---
 crates/wolfram-parser/src/lib.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/wolfram-parser/src/lib.rs b/crates/wolfram-parser/src/lib.rs
index 0f36c4c..149b9a3 100644
--- a/crates/wolfram-parser/src/lib.rs
+++ b/crates/wolfram-parser/src/lib.rs
@@ -377,8 +377,11 @@ pub fn tokenize<'i>(
     input: &'i str,
     opts: &ParseOptions,
 ) -> NodeSeq<Token<TokenStr<'i>>> {
-    tokenize_bytes(input.as_bytes(), opts)
-        .expect("unexpected character encoding error tokenizing &str")
+    // A `&str` is always valid UTF-8. The only thing in one that is flagged as
+    // unsafe is a BOM, which has a token of its own.
+    let (tokens, _) = tokenize_with_flag(input.as_bytes(), opts);
+
+    tokens
 }
 
 /// Parse bytes containing Wolfram Language input into a sequence of tokens.
@@ -386,6 +389,19 @@ pub fn tokenize_bytes<'i>(
     input: &'i [u8],
     opts: &ParseOptions,
 ) -> Result<NodeSeq<Token<TokenStr<'i>>>, UnsafeCharacterEncoding> {
+    match tokenize_with_flag(input, opts) {
+        (tokens, None) => Ok(tokens),
+        (_, Some(flag)) => Err(flag),
+    }
+}
+
+fn tokenize_with_flag<'i>(
+    input: &'i [u8],
+    opts: &ParseOptions,
+) -> (
+    NodeSeq<Token<TokenStr<'i>>>,
+    Option<UnsafeCharacterEncoding>,
+) {
     let mut tokenizer = Tokenizer::new(input, opts);
 
     let mut tokens = Vec::new();
@@ -406,10 +422,6 @@ pub fn tokenize_bytes<'i>(
         tok.skip(&mut tokenizer);
     } // while (true)
 
-    if let Some(flag) = tokenizer.unsafe_character_encoding_flag {
-        return Err(flag);
-    }
-
     if let Ok(input) = std::str::from_utf8(tokenizer.input) {
         NodeSeq(tokens) = crate::error::reparse_unterminated_tokens(
             NodeSeq(tokens),
@@ -418,7 +430,7 @@ pub fn tokenize_bytes<'i>(
         );
     }
 
-    return Ok(NodeSeq(tokens));
+    return (NodeSeq(tokens), tokenizer.unsafe_character_encoding_flag);
 }
 
 //======================================
-- 
2.43.0


From a599dd7c55411cba8553d23f549a24a9dbfa8672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:45 +0000
Subject: [PATCH 04/28] fix: do not panic when abstracting the negation of
 empty parentheses

---
 crates/wolfram-parser/src/abstract_cst.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index a31d31c..44e1808 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1577,12 +1577,10 @@ fn parenthesizedIntegerOrRealQ<I: Debug, S: Debug>(node: &Cst<I, S>) -> bool {
             op: GroupOperator::CodeParser_GroupParen,
             children,
         })) => {
-            let [_, child, _]: &[_; 3] =
-                children.0.as_slice().try_into().expect(
-                    "GroupParen Group node has unexpected number of children",
-                );
-
-            parenthesizedIntegerOrRealQ(child)
+            match children.0.as_slice() {
+                [_, child, _] => parenthesizedIntegerOrRealQ(child),
+                _ => false,
+            }
         },
         // parenthesizedIntegerOrRealQ[LeafNode[Integer, _, _]] := True
         // parenthesizedIntegerOrRealQ[LeafNode[Real, _, _]] := True
-- 
2.43.0


From 6860d702f12154cb4affea7f60a01360b15fe7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:45 +0000
Subject: [PATCH 05/28] fix: do not panic when abstracting <<, >> or >>>
 without a file name

---
 crates/wolfram-parser/src/abstract_cst.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 44e1808..46d2be4 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -500,7 +500,8 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                         )],
                         data,
                     ),
-                    _ => unhandled(),
+                    // The file name is missing or malformed.
+                    rand => Ast::call(st::Get, vec![abstract_(rand)], data),
                 }
             },
 
@@ -620,25 +621,23 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                     data,
                 ),
                 BinaryOperator::Put | BinaryOperator::PutAppend => {
-                    let (str, data1) = match right {
+                    let right = match right {
                         // {left_, _, LeafNode[String, str_, data1_]}
                         Cst::Token(Token {
                             tok: TokenKind::String,
                             ref input,
                             src: data1,
-                        }) => (input.as_str(), data1),
-                        _ => unhandled(),
+                        }) => Ast::string(
+                            escapeString_of_abstractFileString(input.as_str()),
+                            data1,
+                        ),
+                        // The file name is missing or malformed.
+                        right => abstract_(right),
                     };
 
                     Ast::call(
                         op.to_symbol(),
-                        vec![
-                            abstract_(left),
-                            Ast::string(
-                                escapeString_of_abstractFileString(str),
-                                data1,
-                            ),
-                        ],
+                        vec![abstract_(left), right],
                         data,
                     )
                 },
-- 
2.43.0


From 72d6a1867bb241acf7653986eecbd984b9a338d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:12 +0000
Subject: [PATCH 06/28] fix: do not panic when abstracting a naked bracket
 group that contains unexpected closers

---
 crates/wolfram-parser/src/abstract_cst.rs | 27 ++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 46d2be4..bec35fa 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1030,7 +1030,14 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![],
                             data,
                         ),
-                        _ => unhandled(),
+                        // Unexpected closers appear in the group.
+                        _ => Ast::abstract_syntax_error(
+                            AbstractSyntaxError::OpenSquare,
+                            abstract_cst_seq(NodeSeq(
+                                part_span_drop_first_and_last(children.0),
+                            )),
+                            data,
+                        ),
                     }
                 },
 
@@ -1068,7 +1075,14 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![],
                             data,
                         ),
-                        _ => unhandled(),
+                        // Unexpected closers appear in the group.
+                        _ => Ast::abstract_syntax_error(
+                            AbstractSyntaxError::ColonColonOpenSquare,
+                            abstract_cst_seq(NodeSeq(
+                                part_span_drop_first_and_last(children.0),
+                            )),
+                            data,
+                        ),
                     }
                 },
 
@@ -1106,7 +1120,14 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             vec![],
                             data,
                         ),
-                        _ => unhandled(),
+                        // Unexpected closers appear in the group.
+                        _ => Ast::abstract_syntax_error(
+                            AbstractSyntaxError::LeftDoubleBracket,
+                            abstract_cst_seq(NodeSeq(
+                                part_span_drop_first_and_last(children.0),
+                            )),
+                            data,
+                        ),
                     }
                 },
 
-- 
2.43.0


From 161472483dba0c4e24b15371352d712441d16d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:12 +0000
Subject: [PATCH 07/28] fix: text of a multi-line unterminated token covers the
 same lines as its source

---
 crates/wolfram-parser/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index e5472b1..f6f7df6 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -156,7 +156,7 @@ fn reparse_unterminated_token_error_node<'i>(
 
             if first_chunk.len() > 1 {
                 components.extend(
-                    first_chunk[1..last_good_line_index]
+                    first_chunk[1..=last_good_line_index]
                         .iter()
                         .map(|line: &Line| line.content),
                 );
-- 
2.43.0


From ed79c5b597497a19207ebc6474a00a36ce7a5f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:07 +0000
Subject: [PATCH 08/28] fix: count characters, not bytes, in the CharacterIndex
 source of unterminated tokens

---
 crates/wolfram-parser/src/error.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index f6f7df6..2cd61a9 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -534,15 +534,20 @@ fn to_lines_and_expand_tabs(input: &str, _tab_width: u32) -> Vec<Line> {
 }
 
 fn StringLength(s: &str) -> usize {
-    // FIXME: StringLength is NOT equal to string byte count. StringLengh counts
-    //        WL characters (e.g. \[Alpha] counts as 1 character), but
-    //        String::len() counts bytes. This is wrong.
-    s.len()
+    // CharacterIndex source positions count source characters, not bytes.
+    s.chars().count()
 }
 
 fn StringTake(s: &str, range: CharacterSpan) -> &str {
-    // FIXME: This treats WL characters as bytes.
-    &s[range.to_rust_range()]
+    // CharacterIndex source positions count source characters, not bytes.
+    let byte_offset = |index: usize| match s.char_indices().nth(index) {
+        Some((offset, _)) => offset,
+        None => s.len(),
+    };
+
+    let Range { start, end } = range.to_rust_range();
+
+    &s[byte_offset(start)..byte_offset(end)]
 }
 
 //==========================================================
-- 
2.43.0


From 3fdc8c036d850cbfee2c5feda020af086681e975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:13 +0000
Subject: [PATCH 09/28] fix: do not panic when abstracting the negation of
 nested empty parentheses

---
 crates/wolfram-parser/src/abstract_cst.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index bec35fa..87d89f7 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1652,11 +1652,15 @@ fn possiblyNegatedZeroQ<I: TokenInput + Debug, S: Debug>(
         //     possiblyNegatedZeroQ[child]
         Cst::Group(GroupNode(OperatorNode {
             op: GroupOperator::CodeParser_GroupParen,
-            children,
+            children: NodeSeq(children),
         })) => {
-            expect_children!(children, {_, child:_, _});
+            // The group may be empty, or contain unexpected closers.
+            let children: Result<[_; 3], _> = children.try_into();
 
-            possiblyNegatedZeroQ(child)
+            match children {
+                Ok([_, child, _]) => possiblyNegatedZeroQ(child),
+                Err(_) => false,
+            }
         },
         // possiblyNegatedZeroQ[PrefixNode[Minus, { _, child_}, _]] :=
         //     possiblyNegatedZeroQ[child]
-- 
2.43.0


From e35b845e3177b8e90ca3806bea3b9a5b2e3231bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:13 +0000
Subject: [PATCH 10/28] fix: do not panic when abstracting f[[..]..] calls that
 contain unexpected closers

---
 .../src/abstract_cst/abstract_call_node.rs        | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs b/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
index b38cc87..a679d27 100644
--- a/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
+++ b/crates/wolfram-parser/src/abstract_cst/abstract_call_node.rs
@@ -88,11 +88,16 @@ pub(super) fn abstract_call_node<
                 })),
             src: data,
         } if matches!(
-            children.0[1], // inner
-            Cst::Group(GroupNode(OperatorNode {
-                op: GroupOperator::CodeParser_GroupSquare,
-                ..
-            }))
+            children.0.as_slice(),
+            [
+                _,
+                // inner
+                Cst::Group(GroupNode(OperatorNode {
+                    op: GroupOperator::CodeParser_GroupSquare,
+                    ..
+                })),
+                _
+            ]
         ) =>
         {
             // {first_, inner:GroupNode[GroupSquare, _, _], last_}
-- 
2.43.0


From 95f581c82d4902bfc35d9ba2e75adea805dedc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:54 +0000
Subject: [PATCH 11/28] fix: do not fail a debug assertion when negating or
 flattening an implicit Times

---
 crates/wolfram-parser/src/abstract_cst.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 87d89f7..764f717 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1722,7 +1722,7 @@ impl<I: TokenInput + Debug, S: TokenSource + Debug> Negated<I, S> {
             },
             Negated::InfixTimesSeq(NodeSeq(children)) => {
                 let children =
-                    part_span_even_children(children, Some(TK::Star));
+                    part_span_even_children(children, None);
 
                 let infix = InfixNode(OperatorNode {
                     op: InfixOperator::Times,
@@ -2080,7 +2080,7 @@ where
             op: InfixOperator::Times,
             children: NodeSeq(children),
         })) => {
-            let children = part_span_even_children(children, Some(TK::Star));
+            let children = part_span_even_children(children, None);
 
             flattenTimes(children, data.clone())
         },
-- 
2.43.0


From be28cbb295f788af4af18df1f5c4edeb651711de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:54 +0000
Subject: [PATCH 12/28] fix: do not fail a debug assertion when abstracting a
 derivative

---
 crates/wolfram-parser/src/abstract_cst.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 764f717..2a616d1 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1290,11 +1290,16 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
         //   One way the Ast can legitimately have a different source span is if
         //   the original Cst was a `(expr)` parenthesized expression, in
         //   which case the Ast has the span only of the interior `expr`.
+        //   Another is if the original Cst was a `f'` derivative, which
+        //   is deliberately given no source.
         if !matches!(
             node_2,
             Cst::Group(GroupNode(OperatorNode {
                 op: GroupOperator::CodeParser_GroupParen,
                 ..
+            })) | Cst::Postfix(PostfixNode(OperatorNode {
+                op: PostfixOperator::Derivative,
+                ..
             }))
         ) {
             assert_eq!(
-- 
2.43.0


From b22c9f39d76915922c1c136e28b36f4cad2316a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:55 +0000
Subject: [PATCH 13/28] fix: do not fail a debug assertion on an infix
 InvisibleComma

---
 crates/wolfram-parser/src/parse/parselet.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/parse/parselet.rs b/crates/wolfram-parser/src/parse/parselet.rs
index d38fba2..bbf4ac6 100644
--- a/crates/wolfram-parser/src/parse/parselet.rs
+++ b/crates/wolfram-parser/src/parse/parselet.rs
@@ -1795,7 +1795,10 @@ impl<'i, B: ParseBuilder<'i> + 'i> InfixParselet<'i, B> for CommaParselet {
     ) -> B::Node {
         panic_if_aborted!();
 
-        debug_assert_eq!(tok_in.tok, TokenKind::Comma);
+        debug_assert!(matches!(
+            tok_in.tok,
+            TokenKind::Comma | TokenKind::LongName_InvisibleComma
+        ));
 
         let tok_in = session.push_syntax_and_next(tok_in);
 
-- 
2.43.0


From 6ee46a9c6ef3fec83708658e1ad3c0aa20d467c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:17 +0000
Subject: [PATCH 14/28] fix: skip exactly the first line, and only if it is a
 #! line

With FirstLineBehavior Check or Script, a first token # that was not followed
by ! was dropped from the result, and a quote or (* in a #! line made the
lines after it disappear.
---
 .../wolfram-parser/src/tokenize/tokenizer.rs  | 110 +++++-------------
 1 file changed, 26 insertions(+), 84 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 4dc8919..6f14a00 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -175,49 +175,7 @@ impl<'i> Tokenizer<'i> {
                 // Handle the optional #! shebang
                 //
 
-                let mut peek = self.peek_token();
-
-                if peek.tok != TokenKind::Hash {
-                    // not #!
-
-                    return;
-                }
-
-                peek.skip(self);
-
-                peek = self.peek_token();
-
-                if peek.tok != TokenKind::Bang {
-                    // not #!
-
-                    return;
-                }
-
-                //
-                // Definitely a shebang
-                //
-
-                peek.skip(self);
-
-                loop {
-                    if feature::CHECK_ABORT && crate::abortQ() {
-                        break;
-                    }
-
-                    let peek = self.peek_token();
-
-                    if peek.tok == TokenKind::EndOfFile {
-                        break;
-                    }
-
-                    if peek.tok == TokenKind::ToplevelNewline {
-                        peek.skip(self);
-
-                        break;
-                    }
-
-                    peek.skip(self);
-                } // while (true)
+                self.skip_shebang_line();
 
                 //
                 // TODO: if anyone ever asks, then consider providing the shebang as a token
@@ -228,52 +186,36 @@ impl<'i> Tokenizer<'i> {
                 //
                 // Handle the #! shebang
                 //
+                // TODO: if there is no shebang, then add to Issues
+                //
 
-                let mut peek = self.peek_token();
-
-                if peek.tok != TokenKind::Hash {
-                    //
-                    // TODO: add to Issues
-                    //
-
-                    return;
-                }
-
-                peek.skip(self);
-
-                peek = self.peek_token();
-
-                if peek.tok != TokenKind::Bang {
-                    //
-                    // TODO: add to Issues
-                    //
-
-                    return;
-                }
-
-                peek.skip(self);
-
-                loop {
-                    if feature::CHECK_ABORT && crate::abortQ() {
-                        break;
-                    }
-
-                    let peek = self.peek_token();
+                self.skip_shebang_line();
+            },
+        }
+    }
 
-                    if peek.tok == TokenKind::EndOfFile {
-                        break;
-                    }
+    /// If the input starts with `#!`, advance past the end of the first line.
+    fn skip_shebang_line(&mut self) {
+        if !self.input.starts_with(b"#!") {
+            // not #!
 
-                    if peek.tok == TokenKind::ToplevelNewline {
-                        peek.skip(self);
+            return;
+        }
 
-                        break;
-                    }
+        //
+        // Definitely a shebang
+        //
+        // The line is not Wolfram Language source, so it is skipped character
+        // by character: anything in it that looks like the start of a string
+        // or of a comment must not extend past the end of the line.
+        //
 
-                    peek.skip(self);
-                } // while (true)
-            },
-        }
+        loop {
+            match self.next_source_char(TOPLEVEL) {
+                EndOfFile | Char('\n' | '\r') | CRLF => break,
+                _ => (),
+            }
+        } // while (true)
     }
 
     //==================================
-- 
2.43.0


From 925531ec79267203e1c524c239fc0eb642d4557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:19 +0000
Subject: [PATCH 15/28] fix: an escape with a code that is no character does
 not swallow the next character

---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index 6f14a00..fb48b1b 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -4502,11 +4502,11 @@ fn Tokenizer_handleUnhandledBackslash<'i>(
                     continue;
                 }
 
-                session.seek(reset_mark);
-
                 break;
             }
 
+            session.seek(reset_mark);
+
             return session
                 .token(TokenKind::Error_UnhandledCharacter, token_start);
         },
@@ -4579,11 +4579,11 @@ fn Tokenizer_handleUnhandledBackslash<'i>(
                     continue;
                 }
 
-                session.seek(reset_mark);
-
                 break;
             }
 
+            session.seek(reset_mark);
+
             return session
                 .token(TokenKind::Error_UnhandledCharacter, token_start);
         },
-- 
2.43.0


From 6ac5c55a00a323c8a2cd90fa056eca69ecd720f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:46 +0000
Subject: [PATCH 16/28] fix: read the base of a number literal from decoded
 characters, not from raw bytes

---
 .../wolfram-parser/src/tokenize/tokenizer.rs  | 71 +++++++++----------
 1 file changed, 33 insertions(+), 38 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index fb48b1b..df089a8 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -1876,8 +1876,9 @@ fn Tokenizer_handleNumber<'i>(
     //  ^leading_digits_end_mark
     //
     // TODO(cleanup): Replace InputMark::new() with new InputMark::from_token_start()?
-    let mut leading_digits_end_mark =
+    let number_mark =
         InputMark::new(session.offset_of(token_start.buf), token_start.loc);
+    let mut leading_digits_end_mark = number_mark;
 
     let mut caret1Buf: Option<Buffer> = None;
     let mut caret_1_mark: Option<InputMark> = None;
@@ -1892,20 +1893,12 @@ fn Tokenizer_handleNumber<'i>(
         // Count leading zeros
         //
 
-        //
-        // 002^^111
-        //   ^nonZeroStartBuf
-        //
-        let mut nonZeroStartBuf = token_start.buf;
-
         if c.to_point() == '0' {
             let mut leadingZeroCount: u32 = 0;
             (leadingZeroCount, c) =
                 Tokenizer_handleZeros(session, token_start, policy, c);
 
             leadingDigitsCount += leadingZeroCount;
-
-            nonZeroStartBuf = session.buffer();
         }
 
         //
@@ -2035,40 +2028,42 @@ fn Tokenizer_handleNumber<'i>(
 
             Tokenizer_nextWLCharacter(session, token_start, policy);
 
-            if nonZeroStartBuf == caret1Buf.unwrap() {
-                //
-                // Something like  0^^2
-                //
+            //
+            // Read the base again from the decoded characters: a digit may be
+            // escaped, and there may be line continuations around the digits
+            //
+            let after_carets_mark = session.mark();
 
-                Ctxt.InvalidBase = true;
-            } else {
-                // PRE_COMMIT: Compute string length differently
-                let baseStrLen = BufferAndLength::between(
-                    nonZeroStartBuf,
-                    caret1Buf.unwrap(),
-                )
-                .buf
-                .len();
+            session.seek(number_mark);
+
+            let mut base: u32 = 0;
+
+            loop {
+                c = Tokenizer_nextWLCharacter(session, token_start, policy);
 
+                let digit = match c.to_point() {
+                    Char(digit @ '0'..='9') => u32::from(digit) - 0x30,
+                    _ => break,
+                };
+
+                base = base.saturating_mul(10).saturating_add(digit);
+            }
+
+            session.seek(after_carets_mark);
+
+            //
+            // bases can only be between 2 and 36, so we know they can only be 1 or 2 characters
+            //
+            if base < 100 {
+                Ctxt.Base = base as i32;
+            }
+
+            if !(2 <= Ctxt.Base && Ctxt.Base <= 36) {
                 //
-                // bases can only be between 2 and 36, so we know they can only be 1 or 2 characters
+                // Something like  0^^2
                 //
-                if baseStrLen > 2 {
-                    Ctxt.InvalidBase = true;
-                } else if baseStrLen == 2 {
-                    let d1 = i32::from(utils::toDigit(nonZeroStartBuf[0]));
-                    let d0 = i32::from(utils::toDigit(nonZeroStartBuf[1]));
-                    Ctxt.Base = d1 * 10 + d0;
-                } else {
-                    assert!(baseStrLen == 1);
 
-                    let d0 = i32::from(utils::toDigit(nonZeroStartBuf[0]));
-                    Ctxt.Base = d0;
-                }
-
-                if !(2 <= Ctxt.Base && Ctxt.Base <= 36) {
-                    Ctxt.InvalidBase = true;
-                }
+                Ctxt.InvalidBase = true;
             }
 
             c = Tokenizer_currentWLCharacter(session, token_start, policy);
-- 
2.43.0


From 76ca0b278977ebc6da5a4bdeb54b0d715dcee1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:46 +0000
Subject: [PATCH 17/28] fix: a number whose accuracy has a sign but no digits
 is an error

---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index df089a8..d6e53ee 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -2627,6 +2627,18 @@ fn Tokenizer_handleNumber<'i>(
                         }
 
                         if sign {
+                            if accuracy {
+                                //
+                                // Something like  1``+..
+                                //
+
+                                // nee TokenKind::Error_ExpectedAccuracy
+                                return session.token(
+                                    TokenKind::Error_Number,
+                                    token_start,
+                                );
+                            }
+
                             //
                             // Something like  1`+..
                             //
-- 
2.43.0


From 4a10b8702b917125e791eaffbbb7de5624f4e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:14 +0000
Subject: [PATCH 18/28] fix: an unterminated file name does not also cover the
 tokens after it

---
 crates/wolfram-parser/src/error.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/wolfram-parser/src/error.rs b/crates/wolfram-parser/src/error.rs
index 2cd61a9..1b93fe7 100644
--- a/crates/wolfram-parser/src/error.rs
+++ b/crates/wolfram-parser/src/error.rs
@@ -24,6 +24,13 @@ pub(crate) fn reparse_unterminated<'i>(
     nodes.visit_mut(&mut |node| {
         let Cst::Token(token) = node else { return };
 
+        // An unterminated file name stops at the whitespace that ends it, so,
+        // unlike the other unterminated tokens, it does not run to the end of
+        // the input, and there are tokens after it.
+        if token.tok == TokenKind::Error_UnterminatedFileString {
+            return;
+        }
+
         if token.tok.isError() && token.tok.isUnterminated() {
             reparse_unterminated_token_error_node(token, input, tab_width);
         }
-- 
2.43.0


From 92fc7888514467c8c38bec648fad051cbd555a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:32 +0000
Subject: [PATCH 19/28] fix: negating a parenthesized zero does not drop errors
 inside the parentheses

---
 crates/wolfram-parser/src/abstract_cst.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 2a616d1..f3d251f 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -1796,7 +1796,7 @@ fn negate<I: TokenInput + Debug, S: TokenSource + Debug>(
     })) = node.clone()
     {
         // TODO(optimization): Avoid this clone().
-        if possiblyNegatedZeroQ(children[1].clone()) {
+        if children.len() == 3 && possiblyNegatedZeroQ(children[1].clone()) {
             return negate(children.remove(1));
         }
     }
-- 
2.43.0


From 93105de83aa14a5d047be719694d09fcf388c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:55 +0000
Subject: [PATCH 20/28] fix: a quoted tag, slot or file name that is not valid
 UTF-8 does not panic the abstraction

---
 crates/wolfram-parser/src/abstract_cst.rs | 40 ++++++++++++++---------
 crates/wolfram-parser/src/ast.rs          |  7 ++--
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index f3d251f..8fd5ed4 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -374,7 +374,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                                     st::Slot,
                                     vec![Ast::string(
                                         escapeString_of_abstractSymbolString(
-                                            s.as_str(),
+                                            s,
                                         ),
                                         data1,
                                     )],
@@ -391,7 +391,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                                     st::Slot,
                                     vec![Ast::string(
                                         escapeString_of_abstractSymbolString(
-                                            s.as_str(),
+                                            s,
                                         ),
                                         data1,
                                     )],
@@ -495,7 +495,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                     }) => Ast::call(
                         st::Get,
                         vec![Ast::string(
-                            escapeString_of_abstractFileString(str.as_str()),
+                            escapeString_of_abstractFileString(str),
                             data1,
                         )],
                         data,
@@ -628,7 +628,7 @@ fn abstract_<I: TokenInput + Debug, S: TokenSource + Debug>(
                             ref input,
                             src: data1,
                         }) => Ast::string(
-                            escapeString_of_abstractFileString(input.as_str()),
+                            escapeString_of_abstractFileString(input.clone()),
                             data1,
                         ),
                         // The file name is missing or malformed.
@@ -1456,27 +1456,37 @@ pub(crate) fn expect_children<I: Debug, S: Debug, const N: usize>(
 
 
 /// Ported composition of `escapeString(abstractSymbolString(s))`.
-fn escapeString_of_abstractSymbolString(s: &str) -> String {
+///
+/// A quoted string is kept as it is: it may not be valid UTF-8.
+fn escapeString_of_abstractSymbolString<I: TokenInput>(input: I) -> TokenString {
     // FIXME: This is made up. Consult original WL source and finish porting
     //        this function.
-    if s.starts_with('"') {
-        format!("{s}")
-    } else if s.starts_with(r"\[") {
+    if input.as_bytes().starts_with(b"\"") {
+        return input.into_owned();
+    }
+
+    let s = String::from_utf8_lossy(input.as_bytes());
+
+    TokenString::from_string(if s.starts_with(r"\[") {
         format!("\"{s}\"")
     } else {
         format!("{s:?}")
-    }
+    })
 }
 
 /// Ported composition of `escapeString(abstractFileString(s))`.
-fn escapeString_of_abstractFileString(s: &str) -> String {
+///
+/// A quoted string is kept as it is: it may not be valid UTF-8.
+fn escapeString_of_abstractFileString<I: TokenInput>(input: I) -> TokenString {
     // FIXME: This is made up. Consult original WL source and finish porting
     //        this function.
-    if s.starts_with('"') {
-        format!("{s}")
-    } else {
-        format!("{s:?}")
+    if input.as_bytes().starts_with(b"\"") {
+        return input.into_owned();
     }
+
+    let s = String::from_utf8_lossy(input.as_bytes());
+
+    TokenString::from_string(format!("{s:?}"))
 }
 
 /*
@@ -2283,7 +2293,7 @@ fn abstractMessageName<I: TokenInput + Debug, S: TokenSource + Debug>(
             input: str,
             src: data,
         }) => Ast::string(
-            escapeString_of_abstractSymbolString(str.as_str()),
+            escapeString_of_abstractSymbolString(str),
             data,
         ),
         // FIXME: The original WL here didn't call abstract[..] here. Is that
diff --git a/crates/wolfram-parser/src/ast.rs b/crates/wolfram-parser/src/ast.rs
index 641b4bb..8a58bb9 100644
--- a/crates/wolfram-parser/src/ast.rs
+++ b/crates/wolfram-parser/src/ast.rs
@@ -254,10 +254,13 @@ impl Ast {
         }
     }
 
-    pub(crate) fn string(string: String, data: impl Into<AstMetadata>) -> Self {
+    pub(crate) fn string(
+        input: TokenString,
+        data: impl Into<AstMetadata>,
+    ) -> Self {
         Ast::Leaf {
             kind: TokenKind::String,
-            input: TokenString::from_string(string),
+            input,
             data: data.into(),
         }
     }
-- 
2.43.0


From 9f8d6c4fe254703cd25f0afe6388d105eafe8706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:26 +0000
Subject: [PATCH 21/28] fix: a chain of infix operators does not continue
 across a toplevel newline

a+b NEWLINE +c, a;b NEWLINE ;c, a*b NEWLINE *c, a::b NEWLINE ::c and
\[Integral]f NEWLINE \[DifferentialD]x were read as one expression although
a NEWLINE +c is two, so the tree of a line depended on the line after it.
---
 crates/wolfram-parser/src/parse/parselet.rs   | 12 ++++++----
 .../src/parse/parselet/integral_parselet.rs   |  3 ++-
 .../src/parse/parselet/times_parselet.rs      | 23 +++++--------------
 3 files changed, 16 insertions(+), 22 deletions(-)

diff --git a/crates/wolfram-parser/src/parse/parselet.rs b/crates/wolfram-parser/src/parse/parselet.rs
index bbf4ac6..d041fcc 100644
--- a/crates/wolfram-parser/src/parse/parselet.rs
+++ b/crates/wolfram-parser/src/parse/parselet.rs
@@ -998,7 +998,8 @@ impl InfixOperatorParselet {
             panic_if_aborted!();
 
 
-            let (trivia1, tok1) = session.current_token();
+            let (trivia1, tok1) = session
+                .current_token_eat_trivia_but_not_toplevel_newlines_into();
 
             //
             // Cannot just compare tokens
@@ -1859,7 +1860,8 @@ impl CommaParselet {
             panic_if_aborted!();
 
 
-            let (trivia1, tok1) = session.current_token();
+            let (trivia1, tok1) = session
+                .current_token_eat_trivia_but_not_toplevel_newlines_into();
 
             if !matches!(
                 tok1.tok,
@@ -2039,7 +2041,8 @@ impl SemiParselet {
             panic_if_aborted!();
 
 
-            let (trivia1, tok1) = session.current_token();
+            let (trivia1, tok1) = session
+                .current_token_eat_trivia_but_not_toplevel_newlines_into();
 
             if tok1.tok != TokenKind::Semi {
                 //
@@ -2214,7 +2217,8 @@ impl ColonColonParselet {
         loop {
             panic_if_aborted!();
 
-            let (trivia1, tok1) = session.current_token();
+            let (trivia1, tok1) = session
+                .current_token_eat_trivia_but_not_toplevel_newlines_into();
 
             if tok1.tok != TokenKind::ColonColon {
                 session.trivia_reset(trivia1);
diff --git a/crates/wolfram-parser/src/parse/parselet/integral_parselet.rs b/crates/wolfram-parser/src/parse/parselet/integral_parselet.rs
index f1cfd0a..7431a09 100644
--- a/crates/wolfram-parser/src/parse/parselet/integral_parselet.rs
+++ b/crates/wolfram-parser/src/parse/parselet/integral_parselet.rs
@@ -67,7 +67,8 @@ impl IntegralParselet {
         panic_if_aborted!();
 
 
-        let (trivia2, tok) = session.current_token();
+        let (trivia2, tok) =
+            session.current_token_eat_trivia_but_not_toplevel_newlines_into();
 
         if !(tok.tok == TokenKind::LongName_DifferentialD
             || tok.tok == TokenKind::LongName_CapitalDifferentialD)
diff --git a/crates/wolfram-parser/src/parse/parselet/times_parselet.rs b/crates/wolfram-parser/src/parse/parselet/times_parselet.rs
index 70ce624..bf33160 100644
--- a/crates/wolfram-parser/src/parse/parselet/times_parselet.rs
+++ b/crates/wolfram-parser/src/parse/parselet/times_parselet.rs
@@ -58,24 +58,13 @@ impl TimesParselet {
             panic_if_aborted!();
 
 
-            let (mut trivia1, mut tok1) = session.current_token();
-
-            tok1 = session.do_process_implicit_times(tok1);
-
-            if tok1.tok == TokenKind::Fake_ImplicitTimes {
-                //
-                // implicit Times should not cross toplevel newlines
-                //
-                // so reset and try again
-                //
-
-                session.trivia_reset(trivia1);
-
-                (trivia1, tok1) = session
-                    .current_token_eat_trivia_but_not_toplevel_newlines_into();
+            //
+            // Times should not cross toplevel newlines
+            //
+            let (trivia1, tok1) = session
+                .current_token_eat_trivia_but_not_toplevel_newlines_into();
 
-                tok1 = session.do_process_implicit_times(tok1)
-            }
+            let tok1 = session.do_process_implicit_times(tok1);
 
             //
             // Cannot just compare tokens
-- 
2.43.0


From ecd409e441a73303d68bb4144511c2fd3cd98dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:25 +0000
Subject: [PATCH 22/28] fix: $ is a file name character after the first one too

The documented file-name characters include $, but <<a$b was read as <<a
times $b: the loop over the rest of the name left it out.
---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index d6e53ee..f5a7371 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -1711,7 +1711,7 @@ fn Tokenizer_handleString_stringifyAsFile<'i>(
             #[rustfmt::skip]
             Char(
                 'A'..='Z' | 'a'..='z' | '0'..='9'
-                | '`' | '/' | '.' | '\\' | '!'
+                | '$' | '`' | '/' | '.' | '\\' | '!'
                 | '-' | '_' | ':' | '*' | '~' | '?',
             ) => {
                 session.next_source_char(policy);
-- 
2.43.0


From 6c881f8edb6a101d4243d81d8d8789bb7583172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:56 +0000
Subject: [PATCH 23/28] fix: LineColumnSpan::overlaps is true when the other
 span encloses this one

---
 crates/wolfram-parser/src/source.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/source.rs b/crates/wolfram-parser/src/source.rs
index be4c7ad..c975fa8 100644
--- a/crates/wolfram-parser/src/source.rs
+++ b/crates/wolfram-parser/src/source.rs
@@ -899,7 +899,9 @@ impl LineColumnSpan {
     pub fn overlaps(&self, cursor: LineColumnSpan) -> bool {
         let LineColumnSpan { start, end } = cursor;
 
-        self.contains(start) || self.contains(end)
+        self.contains(start)
+            || self.contains(end)
+            || cursor.contains(self.start)
     }
 
     #[cfg_attr(not(debug_assertions), allow(dead_code))]
-- 
2.43.0


From 89a1b92562b46877e10454760ecc9d46fdb92eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:25 +0000
Subject: [PATCH 24/28] fix: report hex escapes whose value is not a character

\:d800 (a surrogate) and \|110000 (out of range) were read as a lone
backslash without any issue, unlike every other undecodable escape.
---
 .../src/read/character_decoder.rs             | 54 ++++++++++++++++---
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/crates/wolfram-parser/src/read/character_decoder.rs b/crates/wolfram-parser/src/read/character_decoder.rs
index c7b8b94..02522e1 100644
--- a/crates/wolfram-parser/src/read/character_decoder.rs
+++ b/crates/wolfram-parser/src/read/character_decoder.rs
@@ -644,9 +644,7 @@ fn CharacterDecoder_handle4Hex(
 
     // Surrogate values (\:d800 through \:dfff) are not characters.
     let Some(mut point) = CodePoint::from_u32(point) else {
-        session.seek(colon);
-
-        return WLCharacter::new('\\');
+        return CharacterDecoder_handleNotACharacter(session, colon, policy);
     };
 
     match point {
@@ -964,12 +962,8 @@ fn CharacterDecoder_handle6Hex(
     let point: u32 =
         u32::from_be_bytes([0, d5 << 4 | d4, d3 << 4 | d2, d1 << 4 | d0]);
 
-    // TODO: Is this logic here correct? Why always return a \ if point is out
-    //       of range, or is a surrogate?
     let Some(mut point) = CodePoint::from_u32(point) else {
-        session.seek(bar);
-
-        return WLCharacter::new('\\');
+        return CharacterDecoder_handleNotACharacter(session, bar, policy);
     };
 
     //
@@ -997,6 +991,50 @@ fn CharacterDecoder_handle6Hex(
     return WLCharacter::new_with_escape(point, Escape::Hex6);
 }
 
+/// Handle an escape that is well-formed, but whose value is not a character.
+///
+/// Something like `\:d800` (a surrogate) or `\|110000` (out of range)
+///
+/// Precondition: buffer is pointing past the last digit of the escape
+fn CharacterDecoder_handleNotACharacter(
+    session: &mut Reader,
+    escaped: InputMark,
+    policy: NextPolicy,
+) -> WLCharacter {
+    if session.check_issues && policy.contains(ENABLE_CHARACTER_DECODING_ISSUES)
+    {
+        let Src = Span::new(escaped.src_loc.previous(), session.SrcLoc);
+
+        let escapeStr = std::str::from_utf8(
+            &session.input[escaped.offset..session.offset],
+        )
+        .expect("hex escape is not ASCII")
+        .to_owned();
+
+        let Actions = vec![CodeAction::replace_text(
+            format!("Replace with ``\\\\{escapeStr}``"),
+            Src,
+            format!("\\\\{escapeStr}"),
+        )];
+
+        let I = SyntaxIssue(
+            IssueTag::UnhandledCharacter,
+            format!("Unhandled character: ``\\{escapeStr}``."),
+            Severity::Fatal,
+            Src,
+            1.0,
+            Actions,
+            vec![],
+        );
+
+        session.addIssue(I);
+    }
+
+    session.seek(escaped);
+
+    return WLCharacter::new('\\');
+}
+
 fn CharacterDecoder_handleBackslash(
     session: &mut Reader,
     policy: NextPolicy,
-- 
2.43.0


From 7b0970adaf3da3399635f1ed3e736948230418fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:25 +0000
Subject: [PATCH 25/28] fix: place issues about the first character of a tag on
 that character

The location after the character was passed, so the issue for a::\[Beta]
had an empty span behind it.
---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index f5a7371..b67dfcb 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -1605,8 +1605,8 @@ fn Tokenizer_handleString_stringifyAsTag<'i>(
     //
 
     if c.isLetterlike() || c.isMBLetterlike() {
-        let letterlikeBuf = session.buffer();
-        let letterlikeLoc = session.SrcLoc;
+        let letterlikeBuf = token_start.buf;
+        let letterlikeLoc = token_start.loc;
 
         Tokenizer_handleSymbolSegment(
             session,
-- 
2.43.0


From 5e647c785ea11617d865dba0da39bef54097a21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:25 +0000
Subject: [PATCH 26/28] fix: suggest the * of 1.2.3 between the numbers

The issue and its Insert action were at the dot of the first number, so
applying it gave 1*.2.3, whose numbers are different.
---
 crates/wolfram-parser/src/tokenize/tokenizer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/wolfram-parser/src/tokenize/tokenizer.rs b/crates/wolfram-parser/src/tokenize/tokenizer.rs
index b67dfcb..7a9f2f1 100644
--- a/crates/wolfram-parser/src/tokenize/tokenizer.rs
+++ b/crates/wolfram-parser/src/tokenize/tokenizer.rs
@@ -2992,9 +2992,12 @@ fn Tokenizer_handlePossibleFractionalPartPastDot<'i>(
 
                 let mut Actions = Vec::new();
 
+                // The second number starts at the dot that comes next.
+                let second_dot_loc = session.SrcLoc;
+
                 Actions.push(CodeAction::insert_text(
                     "Insert ``*``".into(),
-                    Span::at(dot_mark.src_loc),
+                    Span::at(second_dot_loc),
                     "*".into(),
                 ));
 
@@ -3002,7 +3005,7 @@ fn Tokenizer_handlePossibleFractionalPartPastDot<'i>(
                     IssueTag::UnexpectedImplicitTimes,
                     format!("Suspicious syntax."),
                     Severity::Error,
-                    Span::at(dot_mark.src_loc),
+                    Span::at(second_dot_loc),
                     0.99,
                     Actions,
                     vec![],
-- 
2.43.0


From be7e1b905b55583f02c6dbcdfebbf2705af88607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:00 +0000
Subject: [PATCH 27/28] fix: the interactive command line ends at the end of
 its input

At end of file it printed prompts forever.
---
 crates/wolfram-parser/src/bin/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/wolfram-parser/src/bin/main.rs b/crates/wolfram-parser/src/bin/main.rs
index 37c28bf..0e2bf44 100644
--- a/crates/wolfram-parser/src/bin/main.rs
+++ b/crates/wolfram-parser/src/bin/main.rs
@@ -84,7 +84,10 @@ fn read_std_in(mode: ApiMode, output_mode: OutputMode, quirks: QuirkSettings) {
         print!(">>> ");
         io::stdout().flush().unwrap();
 
-        io::stdin().read_line(&mut input).unwrap();
+        if io::stdin().read_line(&mut input).unwrap() == 0 {
+            // End of the input
+            return;
+        }
 
         handle(input.trim_end().as_bytes(), mode, output_mode, quirks)
     }
-- 
2.43.0


From d5141f1da635dbef70acf72da438229320b7bd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:25 +0000
Subject: [PATCH 28/28] fix: boxes whose contents are not of the special form
 are abstracted as any other box

---
 crates/wolfram-parser/src/abstract_cst.rs | 26 +++++++++++++++--------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/crates/wolfram-parser/src/abstract_cst.rs b/crates/wolfram-parser/src/abstract_cst.rs
index 8fd5ed4..fcbc966 100644
--- a/crates/wolfram-parser/src/abstract_cst.rs
+++ b/crates/wolfram-parser/src/abstract_cst.rs
@@ -3060,7 +3060,9 @@ fn try_subscript_box_part_special_cases<
             CodeParser_GroupSquare,
             children1:_
         ]) => {
-            let [o1, group, c1] = expect_children(children1);
+            let Ok([o1, group, c1]) = <[_; 3]>::try_from(children1.0) else {
+                return Err(box_node);
+            };
 
             match o1 {
                 LHS!(LeafNode[OpenSquare, _, _]) => (),
@@ -3079,7 +3081,10 @@ fn try_subscript_box_part_special_cases<
                     CodeParser_GroupSquare,
                     children2:_
                 ]) => {
-                    let [o2, b, c2] = expect_children(children2);
+                    let Ok([o2, b, c2]) = <[_; 3]>::try_from(children2.0)
+                    else {
+                        return Err(box_node);
+                    };
 
                     match o2 {
                         LHS!(LeafNode[OpenSquare, _, _]) => (),
@@ -3128,7 +3133,9 @@ fn try_subscript_box_part_special_cases<
             CodeParser_GroupDoubleBracket,
             children1:_
         ]) => {
-            let [o, b, c] = expect_children(children1);
+            let Ok([o, b, c]) = <[_; 3]>::try_from(children1.0) else {
+                return Err(box_node);
+            };
 
             match o {
                 LHS!(LeafNode[LongName_LeftDoubleBracket, _, _]) => (),
@@ -3227,7 +3234,7 @@ fn try_superscript_box_derivative_special_case<
 
     let (a, middle) = match children.0.as_slice() {
         [a, middle, ..] => (a.clone(), middle.clone()),
-        _ => todo!("Error?"),
+        _ => return Err(box_node),
     };
 
     let LHS!(BoxNode[
@@ -3239,7 +3246,9 @@ fn try_superscript_box_derivative_special_case<
         return Err(box_node);
     };
 
-    let [left, t] = expect_children(children1);
+    let Ok([left, t]) = <[_; 2]>::try_from(children1.0) else {
+        return Err(box_node);
+    };
 
     let data2 = left.get_source();
 
@@ -3264,10 +3273,9 @@ fn try_superscript_box_derivative_special_case<
             && second.try_as_symbol().map(wolfram_expr::Symbol::as_str)
                 == Some("System`Derivative") =>
         {
-            let [o, b, c] = expect_children(children2);
-
-            let [o @ LHS!(LeafNode[OpenParen, _, _]), b @ _, c @ LHS!(LeafNode[CloseParen, _, _])] =
-                [o, b, c]
+            let Ok(
+                [o @ LHS!(LeafNode[OpenParen, _, _]), b @ _, c @ LHS!(LeafNode[CloseParen, _, _])],
+            ) = <[_; 3]>::try_from(children2.0)
             else {
                 return Err(box_node);
             };
-- 
2.43.0

