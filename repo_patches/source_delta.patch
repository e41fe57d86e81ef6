From 939d6d0fcae11d1bd8df9d9c1bfe6055849414d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:21 +0000
Subject: [PATCH 01/30] fix: fileinto :mailboxid requires the mailboxid
 capability

---
 src/compiler/grammar/actions/action_fileinto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/grammar/actions/action_fileinto.rs b/src/compiler/grammar/actions/action_fileinto.rs
index 551854a..88a6482 100644
--- a/src/compiler/grammar/actions/action_fileinto.rs
+++ b/src/compiler/grammar/actions/action_fileinto.rs
@@ -73,7 +73,7 @@ impl CompilerState<'_> {
                 Token::Tag(Word::MailboxId) => {
                     self.validate_argument(
                         4,
-                        Capability::Mailbox.into(),
+                        Capability::MailboxId.into(),
                         token_info.line_num,
                         token_info.line_pos,
                     )?;
-- 
2.43.0


From 24c29a8b5e5a18f95a26281e0c7c570d7ca2be65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:44 +0000
Subject: [PATCH 02/30] fix: set/extracttext :encodeurl and :quoteregex require
 the enotify and regex capabilities

---
 src/compiler/grammar/actions/action_mime.rs | 15 ++++++++++++++-
 src/compiler/grammar/actions/action_set.rs  | 11 +++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/actions/action_mime.rs b/src/compiler/grammar/actions/action_mime.rs
index 0e2dddd..177344f 100644
--- a/src/compiler/grammar/actions/action_mime.rs
+++ b/src/compiler/grammar/actions/action_mime.rs
@@ -5,7 +5,10 @@
  */
 
 use crate::compiler::{
-    grammar::instruction::{CompilerState, Instruction},
+    grammar::{
+        instruction::{CompilerState, Instruction},
+        Capability,
+    },
     lexer::{word::Word, Token},
     CompileError, Value, VariableType,
 };
@@ -179,6 +182,16 @@ impl CompilerState<'_> {
                     | Word::QuoteRegex
                     | Word::Length),
                 ) => {
+                    self.validate_argument(
+                        0,
+                        if matches!(word, Word::QuoteRegex) {
+                            Capability::Regex.into()
+                        } else {
+                            None
+                        },
+                        token_info.line_num,
+                        token_info.line_pos,
+                    )?;
                     let modifier = word.into();
                     if !modifiers.contains(&modifier) {
                         modifiers.push(modifier);
diff --git a/src/compiler/grammar/actions/action_set.rs b/src/compiler/grammar/actions/action_set.rs
index c6d1f30..78679a1 100644
--- a/src/compiler/grammar/actions/action_set.rs
+++ b/src/compiler/grammar/actions/action_set.rs
@@ -9,6 +9,7 @@ use crate::{
         grammar::{
             expr::Expression,
             instruction::{CompilerState, Instruction},
+            Capability,
         },
         lexer::{tokenizer::TokenInfo, word::Word, Token},
         CompileError, ErrorType, Value, VariableType,
@@ -103,6 +104,16 @@ impl CompilerState<'_> {
                     | Word::Length
                     | Word::EncodeUrl),
                 ) => {
+                    self.validate_argument(
+                        0,
+                        match word {
+                            Word::EncodeUrl => Capability::Enotify.into(),
+                            Word::QuoteRegex => Capability::Regex.into(),
+                            _ => None,
+                        },
+                        token_info.line_num,
+                        token_info.line_pos,
+                    )?;
                     let modifier = word.into();
                     if !modifiers.contains(&modifier) {
                         modifiers.push(modifier);
-- 
2.43.0


From 825dc9bebb26d559a1bdf50d7a77788533fa941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:27 +0000
Subject: [PATCH 03/30] fix: foreverypart nesting limit bypassed when loops are
 separated by other blocks

---
 src/compiler/grammar/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 0baff56..e3b78d6 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -236,7 +236,7 @@ impl Compiler {
                                 .iter()
                                 .filter(|b| matches!(&b.btype, Word::ForEveryPart))
                                 .count()
-                                == self.max_nested_foreverypart
+                                >= self.max_nested_foreverypart
                             {
                                 return Err(
                                     token_info.custom(ErrorType::TooManyNestedForEveryParts)
-- 
2.43.0


From 285506f8ea7f5d3fc5074cd6afc7fd47b2077995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:34 +0000
Subject: [PATCH 04/30] fix: foreverypart accepts the label of the loop
 directly around it

---
 src/compiler/grammar/instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index e3b78d6..f809bf2 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -248,7 +248,7 @@ impl Compiler {
                             {
                                 let tag = state.tokens.next().unwrap().unwrap();
                                 let label = state.tokens.expect_static_string()?;
-                                for block in &state.block_stack {
+                                for block in state.block_stack.iter().chain([&state.block]) {
                                     if block.label.as_ref().is_some_and(|n| n.eq(&label)) {
                                         return Err(
                                             tag.custom(ErrorType::LabelAlreadyDefined(label))
-- 
2.43.0


From 47147e57f7c1beda6bdd013801bbe7748de3d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:07 +0000
Subject: [PATCH 05/30] fix: continue skipped nested while loops and left
 foreverypart iterators behind

---
 src/compiler/grammar/instruction.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index f809bf2..a2fda55 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -582,24 +582,32 @@ impl Compiler {
                                 token_info.line_num,
                                 token_info.line_pos,
                             )?;
-                            let mut found_while = 0;
+                            let mut found_while = false;
+                            let mut num_pops = 0;
+                            let mut loop_start = None;
                             for block in [&state.block]
                                 .into_iter()
                                 .chain(state.block_stack.iter().rev())
                             {
-                                if let Word::While = &block.btype {
-                                    found_while += 1;
-                                } else if found_while == 1 {
-                                    state
-                                        .instructions
-                                        .push(Instruction::Jmp(block.last_block_start));
-                                    found_while += 1;
+                                if found_while {
+                                    loop_start = Some(block.last_block_start);
                                     break;
                                 }
+                                match &block.btype {
+                                    Word::While => found_while = true,
+                                    Word::ForEveryPart => num_pops += 1,
+                                    _ => (),
+                                }
                             }
-                            if found_while != 2 {
+                            let Some(loop_start) = loop_start else {
                                 return Err(token_info.custom(ErrorType::ContinueOutsideLoop));
+                            };
+                            if num_pops > 0 {
+                                state
+                                    .instructions
+                                    .push(Instruction::ForEveryPartPop(num_pops));
                             }
+                            state.instructions.push(Instruction::Jmp(loop_start));
                         }
 
                         _ => {
-- 
2.43.0


From ee811069a6a42d49fa6cdf59476e18f1d99eee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:14 +0000
Subject: [PATCH 06/30] fix: elsif and else accepted at the start of an elsif
 or else block

---
 src/compiler/grammar/instruction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index a2fda55..274302a 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -641,6 +641,7 @@ impl Compiler {
                             state.block.last_block_start = state.instructions.len() - 1;
                             state.block_stack.push(state.block);
                             state.block = new_block;
+                            state.last_block_type = Word::Not;
                         } else {
                             return Err(CompileError {
                                 line_num: state.block.line_num,
-- 
2.43.0


From 4bc29c359b22a2f03634168a9edb7be190fa993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 07/30] fix: local variables in :replace and body :content
 refer to the wrong slot

---
 src/compiler/grammar/actions/action_set.rs | 11 ++++++++++-
 src/compiler/grammar/instruction.rs        |  7 ++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/compiler/grammar/actions/action_set.rs b/src/compiler/grammar/actions/action_set.rs
index 78679a1..70618eb 100644
--- a/src/compiler/grammar/actions/action_set.rs
+++ b/src/compiler/grammar/actions/action_set.rs
@@ -8,7 +8,7 @@ use crate::{
     compiler::{
         grammar::{
             expr::Expression,
-            instruction::{CompilerState, Instruction},
+            instruction::{CompilerState, Instruction, MapLocalVars},
             Capability,
         },
         lexer::{tokenizer::TokenInfo, word::Word, Token},
@@ -39,6 +39,15 @@ pub(crate) enum Modifier {
     Replace { find: Value, replace: Value },
 }
 
+impl MapLocalVars for Modifier {
+    fn map_local_vars(&mut self, last_id: usize) {
+        if let Modifier::Replace { find, replace } = self {
+            find.map_local_vars(last_id);
+            replace.map_local_vars(last_id);
+        }
+    }
+}
+
 impl Modifier {
     pub fn order(&self) -> usize {
         match self {
diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 274302a..3e9f03a 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -34,7 +34,7 @@ use super::{
     Capability, Clear, Invalid, While,
 };
 
-use super::tests::test_ihave::Error;
+use super::tests::{test_body::BodyTransform, test_ihave::Error};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 #[cfg_attr(
@@ -997,6 +997,7 @@ impl CompilerState<'_> {
                 }
                 Instruction::ExtractText(v) => {
                     v.name.map_local_vars(last_id);
+                    v.modifiers.map_local_vars(last_id);
                 }
                 Instruction::Convert(v) => {
                     v.from_media_type.map_local_vars(last_id);
@@ -1012,6 +1013,7 @@ impl CompilerState<'_> {
                     v.value_patterns.map_local_vars(last_id);
                 }
                 Instruction::Set(v) => {
+                    v.modifiers.map_local_vars(last_id);
                     v.name.map_local_vars(last_id);
                     v.value.map_local_vars(last_id);
                 }
@@ -1082,6 +1084,9 @@ impl MapLocalVars for Test {
             }
             Test::Body(v) => {
                 v.key_list.map_local_vars(last_id);
+                if let BodyTransform::Content(values) = &mut v.body_transform {
+                    values.map_local_vars(last_id);
+                }
             }
             Test::Convert(v) => {
                 v.from_media_type.map_local_vars(last_id);
-- 
2.43.0


From c08935939c1f72cd08ac4259f826f7c5d7bd4d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 08/30] fix: references to declared global variables were case
 sensitive

---
 src/compiler/lexer/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index d72e373..303c650 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -279,7 +279,7 @@ impl CompilerState<'_> {
     ) -> Result<Option<VariableType>, ErrorType> {
         if !maybe_namespace {
             if self.is_var_global(var_name) {
-                Ok(Some(VariableType::Global(var_name.to_string())))
+                Ok(Some(VariableType::Global(var_name.to_lowercase())))
             } else if let Some(var_id) = self.get_local_var(var_name) {
                 Ok(Some(VariableType::Local(var_id)))
             } else {
@@ -328,7 +328,7 @@ impl CompilerState<'_> {
                 },
                 None => {
                     if self.is_var_global(var_name) {
-                        VariableType::Global(var_name.to_string())
+                        VariableType::Global(var_name.to_lowercase())
                     } else if let Some(var_id) = self.get_local_var(var_name) {
                         VariableType::Local(var_id)
                     } else {
-- 
2.43.0


From 09b808cd394bc9495c6cd8240aded6760fe5dbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:37 +0000
Subject: [PATCH 09/30] fix: a script with too many variables was dropped
 without an error and the message lost

---
 src/runtime/context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 76cf232..611ba3e 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -109,6 +109,11 @@ impl<'x> Context<'x> {
                     });
                     self.pos = 0;
                     self.test_result = false;
+                } else {
+                    self.finish_loop();
+                    return Some(Err(RuntimeError::ScriptErrorMessage(
+                        "Script exceeds the maximum number of variables.".to_string(),
+                    )));
                 }
             }
         }
-- 
2.43.0


From 67ae9054f5940c28f9415b2289a6fb89aa4e8fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:50 +0000
Subject: [PATCH 10/30] fix: mailto notifications were not counted and, over
 the limit, sent as notify events without limit

---
 src/runtime/actions/action_notify.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 88d5909..5fef93c 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -19,6 +19,10 @@ use super::action_vacation::MAX_SUBJECT_LEN;
 
 impl Notify {
     pub(crate) fn exec(&self, ctx: &mut Context) {
+        if ctx.num_out_messages >= ctx.runtime.max_out_messages {
+            return;
+        }
+
         // Do not notify on Auto-Submitted messages
         for header in &ctx.message.parts[0].headers {
             if matches!(&header.name, HeaderName::Other(name) if name.eq_ignore_ascii_case("Auto-Submitted"))
@@ -39,8 +43,7 @@ impl Notify {
         };
 
         let has_fcc = self.fcc.is_some();
-        let is_mailto = scheme.eq_ignore_ascii_case("mailto")
-            && ctx.num_out_messages < ctx.runtime.max_out_messages;
+        let is_mailto = scheme.eq_ignore_ascii_case("mailto");
         let mut events = Vec::with_capacity(3);
 
         if is_mailto || has_fcc {
@@ -262,8 +265,8 @@ impl Notify {
                     .or_else(|| ctx.message.subject().map(|s| s.to_string()))
                     .unwrap_or_default(),
             });
-            ctx.num_out_messages += 1;
         }
+        ctx.num_out_messages += 1;
 
         if let Some(fcc) = &self.fcc {
             // File carbon copy
-- 
2.43.0


From 486e9f8324038abc7594e5103cc124d71031bbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:30 +0000
Subject: [PATCH 11/30] fix: let and the flag actions lost the events that set
 envelope variables

---
 src/runtime/context.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 611ba3e..c42c58e 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -291,6 +291,9 @@ impl<'x> Context<'x> {
                     Instruction::Let(let_) => match self.eval_expression(&let_.expr) {
                         Ok(result) => {
                             self.set_variable(&let_.name, result);
+                            if let Some(event) = self.queued_events.next() {
+                                return Some(Ok(event));
+                            }
                         }
                         Err(event) => {
                             return Some(Ok(event));
@@ -325,7 +328,12 @@ impl<'x> Context<'x> {
                             return Some(Ok(event));
                         }
                     }
-                    Instruction::EditFlags(flags) => flags.exec(self),
+                    Instruction::EditFlags(flags) => {
+                        flags.exec(self);
+                        if let Some(event) = self.queued_events.next() {
+                            return Some(Ok(event));
+                        }
+                    }
                     Instruction::Include(include) => match include.exec(self) {
                         IncludeResult::Cached(script) => {
                             self.script_stack.push(ScriptStack {
-- 
2.43.0


From 955f547b29fd1f958c721d9d52823ca016eb0de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:38 +0000
Subject: [PATCH 12/30] fix: refuse test lists with a missing comma or no tests
 at all

---
 src/compiler/grammar/test.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/compiler/grammar/test.rs b/src/compiler/grammar/test.rs
index cec2294..21ac92e 100644
--- a/src/compiler/grammar/test.rs
+++ b/src/compiler/grammar/test.rs
@@ -129,9 +129,19 @@ impl CompilerState<'_> {
             jmps: Vec::new(),
         };
         let mut is_not = false;
+        let mut has_test = false;
 
         loop {
             let token_info = self.tokens.unwrap_next()?;
+            // A test is followed by a comma or the end of the list, and nothing else is
+            if has_test != matches!(token_info.token, Token::Comma | Token::ParenthesisClose) {
+                return Err(token_info.expected(if has_test {
+                    "',' or ')'"
+                } else {
+                    "test name"
+                }));
+            }
+            has_test = false;
             self.reset_param_check();
             let test: Instruction =
                 match token_info.token {
@@ -165,6 +175,7 @@ impl CompilerState<'_> {
                     Token::ParenthesisClose => {
                         if block.p_count > 0 {
                             block.p_count -= 1;
+                            has_test = true;
                             continue;
                         } else if let Some(prev_block) = block_stack.pop() {
                             let cur_pos = self.instructions.len();
@@ -183,6 +194,7 @@ impl CompilerState<'_> {
                             if block_stack.is_empty() {
                                 break;
                             } else {
+                                has_test = true;
                                 continue;
                             }
                         } else {
@@ -557,6 +569,7 @@ impl CompilerState<'_> {
             if block_stack.is_empty() {
                 break;
             }
+            has_test = true;
         }
 
         self.instructions.push(Instruction::Jz(usize::MAX));
-- 
2.43.0


From e21ea388acefa1a017a2a0153ff9d7604a6ac90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:38 +0000
Subject: [PATCH 13/30] fix: an escaped backslash in a string does not escape
 the next character

---
 src/compiler/lexer/tokenizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 5c8e591..25367bb 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -460,6 +460,8 @@ impl Iterator for Tokenizer<'_> {
                     b'\\' => {
                         if last_ch == b'\\' {
                             self.push_byte(ch);
+                            // An escaped backslash escapes nothing itself
+                            self.last_ch = 0;
                         }
                     }
                     b'0'..=b'9' => {
-- 
2.43.0


From 4efa16b4c567a82b94b24a9962071fcaba8a4af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:08 +0000
Subject: [PATCH 14/30] fix: do not drop the last word of a script that ends
 without a semicolon

---
 src/compiler/lexer/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 25367bb..7c66c02 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -568,7 +568,7 @@ impl Iterator for Tokenizer<'_> {
                     error_type: (&self.state).into(),
                 }))
             }
-            _ => None,
+            _ => self.get_current_token().map(Ok),
         }
     }
 }
-- 
2.43.0


From 6b980ae11870bdec90d95209c4cd3cc74fbb2398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:08 +0000
Subject: [PATCH 15/30] fix: report invalid characters found while looking
 ahead

---
 src/compiler/lexer/tokenizer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 7c66c02..6ae8288 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -19,6 +19,7 @@ pub(crate) struct Tokenizer<'x> {
     pub iter: Peekable<Iter<'x, u8>>,
     pub buf: Vec<u8>,
     pub next_token: Vec<TokenInfo>,
+    pub next_error: Option<CompileError>,
 
     pub pos: usize,
     pub line_num: usize,
@@ -74,6 +75,7 @@ impl<'x> Tokenizer<'x> {
             token_line_pos: 0,
             token_is_tag: false,
             next_token: Vec::with_capacity(2),
+            next_error: None,
             last_ch: 0,
             state: State::None,
         }
@@ -315,10 +317,11 @@ impl<'x> Tokenizer<'x> {
     }
 
     pub fn peek(&mut self) -> Option<Result<&TokenInfo, CompileError>> {
-        if self.next_token.is_empty() {
+        if self.next_token.is_empty() && self.next_error.is_none() {
             match self.next()? {
                 Ok(next_token) => self.next_token.push(next_token),
-                Err(err) => return Some(Err(err)),
+                // Left for next() to return
+                Err(err) => self.next_error = Some(err),
             }
         }
         self.next_token.last().map(Ok)
@@ -332,6 +335,9 @@ impl Iterator for Tokenizer<'_> {
         if let Some(prev_token) = self.next_token.pop() {
             return Some(Ok(prev_token));
         }
+        if let Some(err) = self.next_error.take() {
+            return Some(Err(err));
+        }
 
         'outer: while let Some((ch, last_ch)) = self.next_byte() {
             match self.state {
-- 
2.43.0


From b1e9804a0fdb4dd2fe036c431f9cb4e34afbe3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:49 +0000
Subject: [PATCH 16/30] fix: refuse stray characters between text: and the end
 of its line

---
 src/compiler/lexer/tokenizer.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 6ae8288..c4d5c21 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -356,11 +356,18 @@ impl Iterator for Tokenizer<'_> {
                         } else if self.token_bytes().eq_ignore_ascii_case(b"text") {
                             self.state = State::MultiLine(StringType::default());
                             self.text_start();
+                            let mut is_comment = false;
                             while let Some((ch, _)) = self.next_byte() {
-                                if ch == b'\n' {
-                                    self.new_line();
-                                    self.reset_current_token();
-                                    continue 'outer;
+                                match ch {
+                                    b'\n' => {
+                                        self.new_line();
+                                        self.reset_current_token();
+                                        continue 'outer;
+                                    }
+                                    b'#' => is_comment = true,
+                                    b' ' | b'\t' | b'\r' => (),
+                                    _ if is_comment => (),
+                                    _ => return Some(Err(self.invalid_character())),
                                 }
                             }
                         } else {
-- 
2.43.0


From b30f6628236f63956520ea2de129f7fc49e275c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:48 +0000
Subject: [PATCH 17/30] fix: line breaks in sender- or script-supplied text
 cannot add header fields to vacation replies, notifications or enclosing
 messages

---
 src/runtime/actions/action_editheader.rs |  4 ++++
 src/runtime/actions/action_mime.rs       | 12 ++++++++----
 src/runtime/actions/action_notify.rs     | 15 +++++++++------
 src/runtime/actions/action_vacation.rs   |  8 ++++----
 4 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/runtime/actions/action_editheader.rs b/src/runtime/actions/action_editheader.rs
index 8f14dbe..9f77486 100644
--- a/src/runtime/actions/action_editheader.rs
+++ b/src/runtime/actions/action_editheader.rs
@@ -156,6 +156,10 @@ impl RemoveCrLf for &str {
     }
 }
 
+pub(crate) fn write_header_value(buf: &mut Vec<u8>, value: &str) {
+    buf.extend(value.bytes().filter(|ch| !matches!(ch, b'\r' | b'\n')));
+}
+
 impl<'x> Context<'x> {
     pub(crate) fn insert_header(
         &mut self,
diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 4732512..7b01ecd 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -176,7 +176,11 @@ impl Enclose {
                     .as_ref()
                     .remove_crlf(ctx.runtime.max_header_size)
             })
-            .or_else(|| ctx.message.subject().map(|s| s.to_string()))
+            .or_else(|| {
+                ctx.message
+                    .subject()
+                    .map(|s| s.remove_crlf(ctx.runtime.max_header_size))
+            })
             .unwrap_or_default();
 
         let message = std::mem::take(&mut ctx.message);
@@ -250,13 +254,13 @@ impl Enclose {
 
         for header in &self.headers {
             let header = ctx.eval_value(header);
-            if let Some((mut header_name, mut header_value)) =
+            if let Some((header_name, mut header_value)) =
                 header.to_string().as_ref().split_once(':')
             {
-                header_name = header_name.trim();
+                let header_name = header_name.trim().remove_crlf(ctx.runtime.max_header_size);
                 header_value = header_value.trim();
                 if !header_value.is_empty() {
-                    if let Some(name) = HeaderName::parse(header_name) {
+                    if let Some(name) = HeaderName::parse(header_name.as_str()) {
                         if !ctx.runtime.protected_headers.contains(&name) {
                             match &name {
                                 HeaderName::Date => {
diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 5fef93c..1b829dc 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -15,7 +15,7 @@ use crate::{
     Context, Event, Importance, Recipient,
 };
 
-use super::action_vacation::MAX_SUBJECT_LEN;
+use super::{action_editheader::write_header_value, action_vacation::MAX_SUBJECT_LEN};
 
 impl Notify {
     pub(crate) fn exec(&self, ctx: &mut Context) {
@@ -97,7 +97,7 @@ impl Notify {
 
             let mut message = Vec::with_capacity(message_len);
             message.extend_from_slice(b"From: ");
-            message.extend_from_slice(from.as_bytes());
+            write_header_value(&mut message, &from);
             message.extend_from_slice(b"\r\n");
 
             for (header, addresses) in [("To: ", &params.to), ("Cc: ", &params.cc)] {
@@ -110,7 +110,7 @@ impl Notify {
                         if !address.contains('<') {
                             message.push(b'<');
                         }
-                        message.extend_from_slice(address.as_bytes());
+                        write_header_value(&mut message, address);
                         if !address.contains('<') {
                             message.push(b'>');
                         }
@@ -139,9 +139,9 @@ impl Notify {
                     }
                     _ => (),
                 }
-                message.extend_from_slice(header.as_str().as_bytes());
+                write_header_value(&mut message, header.as_str());
                 message.extend_from_slice(b": ");
-                message.extend_from_slice(value.as_bytes());
+                write_header_value(&mut message, value);
                 message.extend_from_slice(b"\r\n");
             }
 
@@ -183,7 +183,10 @@ impl Notify {
             } else {
                 ctx.message.subject().unwrap_or_default()
             };
-            let mut iter = subject.chars().enumerate();
+            let mut iter = subject
+                .chars()
+                .filter(|ch| !['\r', '\n'].contains(ch))
+                .enumerate();
             let mut buf = [0; 4];
             #[allow(clippy::while_let_on_iterator)]
             while let Some((pos, char)) = iter.next() {
diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index bee00dd..d2b6130 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -17,7 +17,7 @@ use crate::{
         },
         AddressPart,
     },
-    runtime::tests::TestResult,
+    runtime::{actions::action_editheader::write_header_value, tests::TestResult},
     Context, Envelope, Event, Recipient,
 };
 
@@ -273,11 +273,11 @@ impl Vacation {
         );
         if let Some(message_id) = message_id {
             message.extend_from_slice(b"In-Reply-To: <");
-            message.extend_from_slice(message_id.as_bytes());
+            write_header_value(&mut message, message_id);
             message.extend_from_slice(b">\r\n");
 
             message.extend_from_slice(b"References: <");
-            message.extend_from_slice(message_id.as_bytes());
+            write_header_value(&mut message, message_id);
             if let Some(references) = references {
                 message.extend_from_slice(b"> ");
                 message.extend_from_slice(references);
@@ -338,6 +338,6 @@ impl Vacation {
 
 fn write_header(buf: &mut Vec<u8>, name: &str, value: &str) {
     buf.extend_from_slice(name.as_bytes());
-    buf.extend_from_slice(value.as_bytes());
+    write_header_value(buf, value);
     buf.extend_from_slice(b"\r\n");
 }
-- 
2.43.0


From 4a1d10c1675545dfed398c7b5e7bb50714396fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:03 +0000
Subject: [PATCH 18/30] fix: the To and References fields of a vacation reply
 are always ended

---
 src/runtime/actions/action_vacation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index d2b6130..bae5de1 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -262,7 +262,8 @@ impl Vacation {
         write_header(&mut message, "From: ", vacation_from.to_string().as_ref());
         if let Some(vacation_to_full) = vacation_to_full {
             message.extend_from_slice(b"To:");
-            message.extend_from_slice(vacation_to_full);
+            message.extend_from_slice(vacation_to_full.trim_ascii_end());
+            message.extend_from_slice(b"\r\n");
         } else {
             write_header(&mut message, "To: ", vacation_to.to_string().as_ref());
         }
@@ -280,7 +281,8 @@ impl Vacation {
             write_header_value(&mut message, message_id);
             if let Some(references) = references {
                 message.extend_from_slice(b"> ");
-                message.extend_from_slice(references);
+                message.extend_from_slice(references.trim_ascii_end());
+                message.extend_from_slice(b"\r\n");
             } else {
                 message.extend_from_slice(b">\r\n");
             }
-- 
2.43.0


From a3bcdb5e4a723473a2f3d7084565715e2f25370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:39 +0000
Subject: [PATCH 19/30] fix: keep the text of a string whose last encoded
 character is invalid

---
 src/compiler/lexer/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index 303c650..9e5204a 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -191,7 +191,7 @@ impl CompilerState<'_> {
                             }
                         }
                         if ch == b'}' {
-                            if decode_buf.len() != initial_buf_size {
+                            if !is_var_error && decode_buf.len() != initial_buf_size {
                                 state = State::None;
                             } else {
                                 is_var_error = true;
-- 
2.43.0


From adb44b63ad4565fa75df7c696cd27c4219e13205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:58 +0000
Subject: [PATCH 20/30] fix: vacation :days that exceed the range of seconds
 overflow

---
 src/runtime/actions/action_vacation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index bae5de1..6cb7499 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -145,7 +145,7 @@ impl TestVacation {
                         format!("_v{}{}", from, ctx.eval_value(&self.reason).to_string())
                     },
                     expiry: match &self.period {
-                        Period::Days(days) => days * 86400,
+                        Period::Days(days) => days.saturating_mul(86400),
                         Period::Seconds(seconds) => *seconds,
                         Period::Default => ctx.runtime.default_vacation_expiry,
                     },
-- 
2.43.0


From db584629ee805ab2eca60041f17379d6297702a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:27 +0000
Subject: [PATCH 21/30] fix: extracttext sets variables beyond the configured
 size

---
 src/runtime/actions/action_mime.rs | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 7b01ecd..051e5aa 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -357,23 +357,7 @@ impl ExtractText {
             }
         }
 
-        match &self.name {
-            VariableType::Local(var_id) => {
-                if let Some(var) = ctx.vars_local.get_mut(*var_id) {
-                    *var = value.into();
-                } else {
-                    debug_assert!(false, "Non-existent local variable {var_id}");
-                }
-            }
-            VariableType::Global(var_name) => {
-                ctx.vars_global
-                    .insert(var_name.to_string().into(), value.into());
-            }
-            VariableType::Envelope(env) => {
-                ctx.add_set_envelope_event(*env, value);
-            }
-            _ => (),
-        }
+        ctx.set_variable(&self.name, value.into());
     }
 }
 
-- 
2.43.0


From 6961d97365a1cde1b69b5ea3aee4eae3616a2e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:27 +0000
Subject: [PATCH 22/30] fix: the implicit keep after a copy is for the message
 before its changes

---
 src/runtime/context.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index c42c58e..d4e4019 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -420,10 +420,7 @@ impl<'x> Context<'x> {
         }
 
         match self.final_event.take() {
-            Some(Event::Keep {
-                mut flags,
-                message_id,
-            }) => {
+            Some(Event::Keep { mut flags, .. }) => {
                 let create_event = if self.has_changes {
                     self.build_message_id()
                 } else {
@@ -445,7 +442,10 @@ impl<'x> Context<'x> {
                     .into_iter();
                     self.queued_events.next().map(Ok)
                 } else {
-                    Some(Ok(Event::Keep { flags, message_id }))
+                    Some(Ok(Event::Keep {
+                        flags,
+                        message_id: self.main_message_id,
+                    }))
                 }
             }
             Some(event) => Some(Ok(event)),
@@ -456,11 +456,7 @@ impl<'x> Context<'x> {
     pub(crate) fn finish_loop(&mut self) {
         self.script_stack.clear();
         if let Some(event) = self.final_event.take() {
-            self.queued_events = if let Event::Keep {
-                mut flags,
-                message_id,
-            } = event
-            {
+            self.queued_events = if let Event::Keep { mut flags, .. } = event {
                 let global_flags = self.get_global_flags();
                 if flags.is_empty() && !global_flags.is_empty() {
                     flags = global_flags;
@@ -476,10 +472,16 @@ impl<'x> Context<'x> {
                             },
                         ]
                     } else {
-                        vec![Event::Keep { flags, message_id }]
+                        vec![Event::Keep {
+                            flags,
+                            message_id: self.main_message_id,
+                        }]
                     }
                 } else {
-                    vec![Event::Keep { flags, message_id }]
+                    vec![Event::Keep {
+                        flags,
+                        message_id: self.main_message_id,
+                    }]
                 }
             } else {
                 vec![event]
-- 
2.43.0


From 09cb5f8f6e452b4483f005a76d5ab12fbc5b51eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:27 +0000
Subject: [PATCH 23/30] fix: a minus sign after a unary operator or an opening
 bracket subtracts

---
 src/compiler/grammar/expr/parser.rs    | 21 ++++++++-------------
 src/compiler/grammar/expr/tokenizer.rs |  6 +++++-
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/compiler/grammar/expr/parser.rs b/src/compiler/grammar/expr/parser.rs
index 7557c56..ae1b5c9 100644
--- a/src/compiler/grammar/expr/parser.rs
+++ b/src/compiler/grammar/expr/parser.rs
@@ -82,7 +82,12 @@ where
                         self.operator_stack.last()
                     {
                         let got_args = self.arg_count.pop().unwrap();
-                        if got_args != *num_args as i32 {
+                        let num_args = if *id != ID_ARRAY_BUILD {
+                            *num_args
+                        } else {
+                            got_args.max(0) as u32
+                        };
+                        if got_args != num_args as i32 {
                             return Err(if *id != u32::MAX {
                                 format!(
                                     "Expression function {:?} expected {} arguments, got {}",
@@ -95,11 +100,8 @@ where
 
                         let expr = match *id {
                             ID_ARRAY_ACCESS => Expression::ArrayAccess,
-                            ID_ARRAY_BUILD => Expression::ArrayBuild(*num_args),
-                            id => Expression::Function {
-                                id,
-                                num_args: *num_args,
-                            },
+                            ID_ARRAY_BUILD => Expression::ArrayBuild(num_args),
+                            id => Expression::Function { id, num_args },
                         };
 
                         self.operator_stack.pop();
@@ -213,13 +215,6 @@ where
     fn inc_arg_count(&mut self) {
         if let Some(x) = self.arg_count.last_mut() {
             *x = x.saturating_add(1);
-            let op_pos = self.operator_stack.len().saturating_sub(2);
-            match self.operator_stack.get_mut(op_pos) {
-                Some((Token::Function { num_args, id, .. }, _)) if *id == ID_ARRAY_BUILD => {
-                    *num_args += 1;
-                }
-                _ => {}
-            }
         }
     }
 
diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index 9e8310a..88805a4 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -226,7 +226,11 @@ where
                     };
                     self.is_start = matches!(
                         token,
-                        Token::OpenParen | Token::Comma | Token::BinaryOperator(_)
+                        Token::OpenParen
+                            | Token::OpenBracket
+                            | Token::Comma
+                            | Token::BinaryOperator(_)
+                            | Token::UnaryOperator(_)
                     );
 
                     return if prev_token.is_some() {
-- 
2.43.0


From 807640b06b689797a713bbe1fcaebcb72d21a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:27 +0000
Subject: [PATCH 24/30] fix: escapes in the strings of expressions keep their
 backslash

---
 src/compiler/grammar/expr/tokenizer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index 88805a4..b8fa7e9 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -185,12 +185,13 @@ where
 
                             for (_, &ch) in self.iter.by_ref() {
                                 if last_ch != b'\\' {
-                                    if ch != stop_ch {
-                                        buf.push(ch);
-                                    } else {
+                                    if ch == stop_ch {
                                         found_end = true;
                                         break;
+                                    } else if ch != b'\\' {
+                                        buf.push(ch);
                                     }
+                                    last_ch = ch;
                                 } else {
                                     match ch {
                                         b'n' => {
@@ -206,9 +207,8 @@ where
                                             buf.push(ch);
                                         }
                                     }
+                                    last_ch = 0;
                                 }
-
-                                last_ch = ch;
                             }
 
                             if found_end {
-- 
2.43.0


From 639460397bddc9ce47e32fa21b3e9771d662f113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:27 +0000
Subject: [PATCH 25/30] fix: the negation of the smallest integer overflows

---
 src/runtime/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/expression.rs b/src/runtime/expression.rs
index 017e196..c2dbfe2 100644
--- a/src/runtime/expression.rs
+++ b/src/runtime/expression.rs
@@ -225,7 +225,7 @@ impl Variable {
 
     pub fn op_minus(self) -> Variable {
         match self {
-            Variable::Integer(n) => Variable::Integer(-n),
+            Variable::Integer(n) => Variable::Integer(n.saturating_neg()),
             Variable::Float(n) => Variable::Float(-n),
             _ => self.parse_number().op_minus(),
         }
-- 
2.43.0


From b404bda0955750d19af1594e526a9e05bb334921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:27 +0000
Subject: [PATCH 26/30] fix: a string and an array are each greater than the
 other

---
 src/runtime/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/expression.rs b/src/runtime/expression.rs
index c2dbfe2..c2092e7 100644
--- a/src/runtime/expression.rs
+++ b/src/runtime/expression.rs
@@ -294,7 +294,7 @@ impl PartialOrd for Variable {
                 self.partial_cmp(&other.parse_number())
             }
             (Self::Array(a), Self::Array(b)) => a.partial_cmp(b),
-            (Self::Array(_) | Self::String(_), _) => Ordering::Greater.into(),
+            (Self::Array(_), _) => Ordering::Greater.into(),
             (_, Self::Array(_)) => Ordering::Less.into(),
         }
     }
-- 
2.43.0


From 2bd7f075218ed4b8d29d642640a77ead7212f115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:30 +0000
Subject: [PATCH 27/30] fix: a single = in an expression takes the character
 behind it

---
 src/compiler/grammar/expr/tokenizer.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index b8fa7e9..0e929f1 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -147,12 +147,18 @@ where
                                 Token::BinaryOperator(BinaryOperator::Subtract)
                             }
                         }
-                        b'=' => match self.iter.next() {
-                            Some((_, b'=')) => Token::BinaryOperator(BinaryOperator::Eq),
-                            Some((_, b'>')) => Token::BinaryOperator(BinaryOperator::Ge),
-                            Some((_, b'<')) => Token::BinaryOperator(BinaryOperator::Le),
-                            _ => Token::BinaryOperator(BinaryOperator::Eq),
-                        },
+                        b'=' => {
+                            let op = match self.iter.peek() {
+                                Some((_, b'=')) => Some(BinaryOperator::Eq),
+                                Some((_, b'>')) => Some(BinaryOperator::Ge),
+                                Some((_, b'<')) => Some(BinaryOperator::Le),
+                                _ => None,
+                            };
+                            if op.is_some() {
+                                self.iter.next();
+                            }
+                            Token::BinaryOperator(op.unwrap_or(BinaryOperator::Eq))
+                        }
                         b'>' => match self.iter.peek() {
                             Some((_, b'=')) => {
                                 self.iter.next();
-- 
2.43.0


From dc3622eb6ce824ba5419ee85613335985ddcc862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:12 +0000
Subject: [PATCH 28/30] fix: compile references to the parts of an address

${header.from.addr.domain} (and local, user, detail) did not compile: the
part behind "addr." reaches AddressPart::try_from without its prefix, which
only knew the names with it.
---
 src/compiler/lexer/string.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index 9e5204a..34a96c1 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -620,10 +620,10 @@ impl TryFrom<&str> for AddressPart {
         Ok(match value {
             "name" => AddressPart::Name,
             "addr" | "all" => AddressPart::All,
-            "addr.domain" => AddressPart::Domain,
-            "addr.local" => AddressPart::LocalPart,
-            "addr.user" => AddressPart::User,
-            "addr.detail" => AddressPart::Detail,
+            "domain" | "addr.domain" => AddressPart::Domain,
+            "local" | "addr.local" => AddressPart::LocalPart,
+            "user" | "addr.user" => AddressPart::User,
+            "detail" | "addr.detail" => AddressPart::Detail,
             _ => return Err(()),
         })
     }
-- 
2.43.0


From 94711bc80cf655997e52ad3fc1133a2b72dc73c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:33 +0000
Subject: [PATCH 29/30] fix: reading the raw name of an added header field does
 not underflow

A field that addheader inserted has no place in the raw message, so its
offset_start is 0 and ${header.x.raw_name} subtracted with overflow.
---
 src/runtime/eval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/eval.rs b/src/runtime/eval.rs
index 43da865..3175d26 100644
--- a/src/runtime/eval.rs
+++ b/src/runtime/eval.rs
@@ -366,7 +366,7 @@ impl HeaderVariable {
                 .map(sanitize_raw_header)
                 .map(Variable::from),
             HeaderPart::RawName => raw
-                .get(header.offset_field as usize..header.offset_start as usize - 1)
+                .get(header.offset_field as usize..(header.offset_start as usize).saturating_sub(1))
                 .map(|bytes| std::str::from_utf8(bytes).unwrap_or_default())
                 .map(Variable::from),
             HeaderPart::Exists => Variable::from(true).into(),
-- 
2.43.0


From 9c0fc27775d6e37a96298c388ab7f70b38610b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:39 +0000
Subject: [PATCH 30/30] fix: modifiers of the same precedence stay in the order
 they are given

---
 src/compiler/grammar/actions/action_mime.rs | 2 +-
 src/compiler/grammar/actions/action_set.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/grammar/actions/action_mime.rs b/src/compiler/grammar/actions/action_mime.rs
index 177344f..505ecaf 100644
--- a/src/compiler/grammar/actions/action_mime.rs
+++ b/src/compiler/grammar/actions/action_mime.rs
@@ -215,7 +215,7 @@ impl CompilerState<'_> {
             }
         }
 
-        modifiers.sort_unstable_by_key(|m| std::cmp::Reverse(m.order()));
+        modifiers.sort_by_key(|m| std::cmp::Reverse(m.order()));
 
         self.instructions
             .push(Instruction::ExtractText(ExtractText {
diff --git a/src/compiler/grammar/actions/action_set.rs b/src/compiler/grammar/actions/action_set.rs
index 70618eb..b38a0aa 100644
--- a/src/compiler/grammar/actions/action_set.rs
+++ b/src/compiler/grammar/actions/action_set.rs
@@ -150,7 +150,7 @@ impl CompilerState<'_> {
             }
         }
 
-        modifiers.sort_unstable_by_key(|m| std::cmp::Reverse(m.order()));
+        modifiers.sort_by_key(|m| std::cmp::Reverse(m.order()));
 
         self.instructions.push(Instruction::Set(Set {
             modifiers,
-- 
2.43.0

