From e3b2882300cba5055716a5e5de02065a2237eefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:29 +0000
Subject: [PATCH 01/25] fix: IntervalSet::add_interval skipped intervals after
 merging one

After removing a merged neighbour the scan advanced past the element that
moved into its place, so adding a range that covers several intervals left
overlapping ones behind ({1..2,4..5,7..8} + 3..10 gave [1..10, 7..8]).
---
 src/interval_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval_set.rs b/src/interval_set.rs
index 9707c1f..935f054 100644
--- a/src/interval_set.rs
+++ b/src/interval_set.rs
@@ -134,8 +134,8 @@ impl IntervalSet {
                 *r = bigger;
                 // make sure we didn't just create an interval that
                 // should be merged with next interval in list
+                i += 1;
                 loop {
-                    i += 1;
                     let next = match self.intervals.get(i) {
                         Some(v) => v,
                         None => break,
-- 
2.43.0


From cc6262d05f1b115c0457308417888af138e95887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:18 +0000
Subject: [PATCH 02/25] fix: wildcard edges did not match the first and last
 symbol of the vocabulary

---
 src/transition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transition.rs b/src/transition.rs
index 15f527c..b12eef8 100644
--- a/src/transition.rs
+++ b/src/transition.rs
@@ -298,7 +298,7 @@ impl Transition for WildcardTransition {
     }
 
     fn matches(&self, _symbol: isize, _min_vocab_symbol: isize, _max_vocab_symbol: isize) -> bool {
-        _symbol < _max_vocab_symbol && _symbol > _min_vocab_symbol
+        _symbol >= _min_vocab_symbol && _symbol <= _max_vocab_symbol
     }
 }
 
-- 
2.43.0


From 4e0a98437026f50cc49c9d3e981a0621b5bff53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:48 +0000
Subject: [PATCH 03/25] fix: lexer DFA states with colliding hashes were
 treated as equal

States that differ only in their lexer actions have the same hash, so the
actions of whichever token was lexed first were run for the other one too.
---
 src/lexer_atn_simulator.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index 433324d..0d22e6b 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -691,19 +691,18 @@ impl LexerATNSimulator {
 
         let states = &mut dfa.states;
         let key = dfastate.default_hash();
-        let dfastate_index = *dfa
-            .states_map
-            .entry(key)
-            .or_insert_with(|| {
-                dfastate.state_number = states.deref().len();
-                dfastate.configs.set_read_only(true);
-                let i = dfastate.state_number;
-                //println!("inserting new DFA state {} with size {}", i, dfastate.configs.length());
-                states.push(dfastate);
-                vec![i]
-            })
-            .first()
-            .unwrap();
+        let same_hash = dfa.states_map.entry(key).or_insert_with(Vec::new);
+        // states with equal hash are not necessarily equal, e.g. they can differ only in lexer actions
+        let existing = same_hash.iter().copied().find(|&i| states[i] == dfastate);
+        let dfastate_index = existing.unwrap_or_else(|| {
+            dfastate.state_number = states.deref().len();
+            dfastate.configs.set_read_only(true);
+            let i = dfastate.state_number;
+            //println!("inserting new DFA state {} with size {}", i, dfastate.configs.length());
+            states.push(dfastate);
+            same_hash.push(i);
+            i
+        });
 
         //println!("new DFA state {}", dfastate_index);
 
-- 
2.43.0


From 763675c2319d6dd4711bcce0c9bf8695599deb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:59 +0000
Subject: [PATCH 04/25] fix: lexer reused the position of an embedded action
 for matches of other length

---
 src/lexer_action_executor.rs | 8 ++++++++
 src/lexer_atn_simulator.rs   | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/lexer_action_executor.rs b/src/lexer_action_executor.rs
index 4bfaaa7..706f875 100644
--- a/src/lexer_action_executor.rs
+++ b/src/lexer_action_executor.rs
@@ -46,6 +46,14 @@ impl LexerActionExecutor {
         new
     }
 
+    /// Whether `fix_offset_before_match` would change any of the actions
+    pub fn depends_on_offset(&self) -> bool {
+        self.lexer_actions.iter().any(|action| match action {
+            LexerAction::LexerIndexedCustomAction { .. } => false,
+            _ => action.is_position_dependent(),
+        })
+    }
+
     pub fn fix_offset_before_match(mut self, offset: isize) -> LexerActionExecutor {
         for action in self.lexer_actions.iter_mut() {
             match action {
diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index 0d22e6b..a067ca2 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -342,6 +342,10 @@ impl LexerATNSimulator {
             for tr in atn_state.get_transitions() {
                 if let Some(target) = tr.get_reachable_target(_t) {
                     let exec = config.get_lexer_executor().map(|x| {
+                        if x.depends_on_offset() {
+                            // offset is known only for the current match so this edge can't be cached
+                            _reach.set_has_semantic_context(true);
+                        }
                         x.clone()
                             .fix_offset_before_match(lexer.input().index() - self.start_index)
                     });
-- 
2.43.0


From 065bb154e2b053a756c35faf3cd0c76a41b151bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:59 +0000
Subject: [PATCH 05/25] fix: lexer dropped the token assigned by a user action

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 88fefcd..d0d3800 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -381,8 +381,8 @@ where
 
             if self.token.is_none() {
                 self.emit();
-                break;
             }
+            break;
         }
         self.input().release(_marker);
         self.token.take().unwrap()
-- 
2.43.0


From fe6c533b14e92b7430277f4e7eecaa7e6dfbc930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:59 +0000
Subject: [PATCH 06/25] fix: LexerATNSimulator::set_line changed the column
 instead of the line

---
 src/lexer_atn_simulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index a067ca2..d87e2f9 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -117,7 +117,7 @@ impl ILexerATNSimulator for LexerATNSimulator {
     }
 
     fn set_line(&mut self, line: isize) {
-        self.current_pos.char_position_in_line.set(line)
+        self.current_pos.line.set(line)
     }
 
     fn consume<T: IntStream + ?Sized>(&self, _input: &mut T) {
-- 
2.43.0


From 92daa326087cedb4369578c9e8ab1d1808b8396e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:10 +0000
Subject: [PATCH 07/25] fix: iterating over a stream consumed (and panicked at)
 the end of input

---
 src/int_stream.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/int_stream.rs b/src/int_stream.rs
index 1ae40bc..c4451bd 100644
--- a/src/int_stream.rs
+++ b/src/int_stream.rs
@@ -75,11 +75,12 @@ impl<'a, T: IntStream> Iterator for IterWrapper<'a, T> {
     type Item = isize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let result = self.0.la(1);
-        self.0.consume();
-        match result {
+        match self.0.la(1) {
             EOF => None,
-            x => Some(x),
+            x => {
+                self.0.consume();
+                Some(x)
+            }
         }
     }
 }
-- 
2.43.0


From 5640a8105e692272c6c54ac03e63583badf3e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:10 +0000
Subject: [PATCH 08/25] fix: UnbufferedTokenStream lookback panicked at the
 start and was off by one beyond -1

---
 src/token_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index 9623c72..6db451f 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -154,8 +154,8 @@ impl<'input, T: TokenSource<'input>> TokenStream<'input> for UnbufferedTokenStre
 
     #[inline]
     fn lt(&mut self, i: isize) -> Option<&<Self::TF as TokenFactory<'input>>::Tok> {
-        if i == -1 {
-            return self.tokens.get(self.p as usize - 1);
+        if i < 0 {
+            return self.tokens.get((self.p + i) as usize);
         }
 
         self.sync(i);
-- 
2.43.0


From ffa555673fef70dd43ef144eb8f11072477d4464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:10 +0000
Subject: [PATCH 09/25] fix: UnbufferedTokenStream lookahead past the end of
 input returned an invalid token type

---
 src/token_stream.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index 6db451f..f4fcfaa 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -160,7 +160,9 @@ impl<'input, T: TokenSource<'input>> TokenStream<'input> for UnbufferedTokenStre
 
         self.sync(i);
 
-        self.tokens.get((self.p + i - 1) as usize)
+        // end of input repeats for ever
+        let last = self.tokens.len() as isize - 1;
+        self.tokens.get(min(self.p + i - 1, last) as usize)
     }
 
     #[inline]
-- 
2.43.0


From 46d224c1e151db7314885d7e8a28404dbb68ec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:10 +0000
Subject: [PATCH 10/25] fix: releasing the last mark of an
 UnbufferedTokenStream forgot the previously consumed token

---
 src/token_stream.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index f4fcfaa..e9c2d43 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -241,8 +241,9 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
 
         self.markers_count -= 1;
         if self.markers_count == 0 {
-            if self.p > 0 {
-                self.tokens.drain(0..self.p as usize);
+            // keep the previous token for lt(-1)
+            if self.p > 1 {
+                self.tokens.drain(0..self.p as usize - 1);
                 //todo drain assembly is almost 2x longer than
                 // unsafe manual copy but need to bench before using unsafe
                 //let new_len = self.tokens.len() - self.p as usize;
@@ -260,7 +261,7 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
                 //     self.tokens.set_len(new_len);
                 // }
 
-                self.p = 0;
+                self.p = 1;
             }
         }
     }
-- 
2.43.0


From 07f0d999a53daa2952c4d3cf5901ac354dbc1bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:10 +0000
Subject: [PATCH 11/25] fix: UnbufferedTokenStream panicked when seeking
 forward to a token not fetched yet

---
 src/token_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index e9c2d43..5879255 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -277,8 +277,8 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
             return;
         }
         if index > self.current_token_index {
-            self.sync(index - self.current_token_index);
-            index = min(index, self.get_buffer_start_index() + self.size() + 1);
+            self.sync(index - self.current_token_index + 1);
+            index = min(index, self.get_buffer_start_index() + self.size() - 1);
         }
         let i = index - self.get_buffer_start_index();
         if i < 0 || i >= self.tokens.len() as isize {
-- 
2.43.0


From 6bd2f786cf86c351cb03a78a10b0f1ca9b91403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:10 +0000
Subject: [PATCH 12/25] fix: CommonTokenStream lookback panicked when all
 earlier tokens are off channel

---
 src/common_token_stream.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common_token_stream.rs b/src/common_token_stream.rs
index a56ddc7..7f4a834 100644
--- a/src/common_token_stream.rs
+++ b/src/common_token_stream.rs
@@ -167,11 +167,14 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
 
         let mut token = self.base.tokens[i as usize].borrow();
         while token.get_channel() != channel {
-            if token.get_token_type() == EOF || i < 0 {
+            if token.get_token_type() == EOF {
                 return i;
             }
 
             i += direction;
+            if i < 0 {
+                return i;
+            }
             self.sync(i);
             token = self.base.tokens[i as usize].borrow();
         }
-- 
2.43.0


From 30e0a564ea9540ab72001b118464496cbcf9be9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:10 +0000
Subject: [PATCH 13/25] fix: CommonTokenStream lookback beyond the first token
 returned the first token

---
 src/common_token_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common_token_stream.rs b/src/common_token_stream.rs
index 7f4a834..fcf6208 100644
--- a/src/common_token_stream.rs
+++ b/src/common_token_stream.rs
@@ -220,7 +220,7 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
             i = self.next_token_on_channel(i - 1, self.channel, -1);
             n += 1;
         }
-        if i < 0 {
+        if i < 0 || n <= k {
             return None;
         }
 
-- 
2.43.0


From 126f3cf2b07466410a312a63c867c36549f5698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:10 +0000
Subject: [PATCH 14/25] fix: CommonTokenStream started at, and seek and reset
 moved to, off-channel tokens

---
 src/common_token_stream.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common_token_stream.rs b/src/common_token_stream.rs
index fcf6208..ffe249a 100644
--- a/src/common_token_stream.rs
+++ b/src/common_token_stream.rs
@@ -50,6 +50,7 @@ impl<'input, T: TokenSource<'input>> IntStream for CommonTokenStream<'input, T>
 
     #[inline(always)]
     fn seek(&mut self, index: isize) {
+        let index = self.next_token_on_channel(index, self.channel, 1);
         self.base.seek(index);
     }
 
@@ -106,7 +107,7 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
             base: UnbufferedTokenStream::new_buffered(lexer),
             channel,
         };
-        r.sync(0);
+        r.seek(0);
         r
     }
 
@@ -127,8 +128,7 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
 
     /// Restarts this token stream
     pub fn reset(&mut self) {
-        self.base.p = 0;
-        self.base.current_token_index = 0;
+        self.seek(0);
     }
 
     /// Creates iterator over this token stream
-- 
2.43.0


From 1c6503ecbaf775e90cea76bd220948399a9c4bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:17 +0000
Subject: [PATCH 15/25] fix: eval_precedence kept precedence predicates when
 every operand changed

The test for a changed operand was inverted, so OR(AND(prec,p),AND(prec,q)) was
returned unchanged although its precedence predicates had been evaluated, and an OR
whose operands are all false was not reported as false.
---
 src/semantic_context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/semantic_context.rs b/src/semantic_context.rs
index a32f5e9..739ce3d 100644
--- a/src/semantic_context.rs
+++ b/src/semantic_context.rs
@@ -78,7 +78,7 @@ impl SemanticContext {
                 let mut operands = vec![];
                 for context in ops {
                     let evaluated = context.eval_precedence(parser, outer_context);
-                    differs |= evaluated.is_some() && context == evaluated.as_deref().unwrap();
+                    differs |= evaluated.as_deref() != Some(context);
 
                     if let Some(evaluated) = evaluated {
                         if *evaluated == Self::NONE {
@@ -108,7 +108,7 @@ impl SemanticContext {
                 let mut operands = vec![];
                 for context in ops {
                     let evaluated = context.eval_precedence(parser, outer_context);
-                    differs |= evaluated.is_some() && context == evaluated.as_deref().unwrap();
+                    differs |= evaluated.as_deref() != Some(context);
 
                     if let Some(evaluated) = evaluated {
                         if *evaluated != Self::NONE {
-- 
2.43.0


From 7e2640559212096f05702c20f986149e868a382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:21 +0000
Subject: [PATCH 16/25] fix: and/or of the same predicates gave unequal
 conditions

Operands were collected in a randomly seeded HashSet, so their order differed from one
call to the next and equal configurations compared as different.
---
 src/semantic_context.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/semantic_context.rs b/src/semantic_context.rs
index 739ce3d..40b4beb 100644
--- a/src/semantic_context.rs
+++ b/src/semantic_context.rs
@@ -4,6 +4,7 @@ use std::cmp::Ordering;
 use std::collections::HashSet;
 
 use crate::parser::{Parser, ParserNodeType};
+use crate::prediction_context::MurmurHasherBuilder;
 
 //pub trait SemanticContext:Sync + Send {
 ////    fn evaluate(&self, parser: &Recognizer, outerContext: &RuleContext) -> bool;
@@ -137,7 +138,7 @@ impl SemanticContext {
     }
 
     pub fn new_and(a: &SemanticContext, b: &SemanticContext) -> SemanticContext {
-        let mut operands = HashSet::new();
+        let mut operands = HashSet::with_hasher(MurmurHasherBuilder {});
         if let SemanticContext::AND(ops) = a {
             operands.extend(ops.iter().cloned())
         } else {
@@ -163,7 +164,7 @@ impl SemanticContext {
     }
 
     pub fn new_or(a: &SemanticContext, b: &SemanticContext) -> SemanticContext {
-        let mut operands = HashSet::new();
+        let mut operands = HashSet::with_hasher(MurmurHasherBuilder {});
         if let SemanticContext::OR(ops) = a {
             operands.extend(ops.iter().cloned())
         } else {
@@ -239,7 +240,9 @@ fn sort_prec_pred(a: &&SemanticContext, b: &&SemanticContext) -> Ordering {
     }
 }
 
-fn filter_precedence_predicate(collection: &mut HashSet<SemanticContext>) -> Vec<SemanticContext> {
+fn filter_precedence_predicate(
+    collection: &mut HashSet<SemanticContext, MurmurHasherBuilder>,
+) -> Vec<SemanticContext> {
     let mut result = vec![];
     collection.retain(|it| {
         if let SemanticContext::Precedence(_) = it {
-- 
2.43.0


From acedbec21fea04d021ccdbdef5ca283604215e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:56 +0000
Subject: [PATCH 17/25] verif hooks: access to private modules under
 cfg(antlr_verif)

---
 src/lib.rs   |  3 +++
 src/verif.rs | 51 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 18b2ee0..83c1c4b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -242,3 +242,6 @@ where
         T::coerce_mut(self)
     }
 }
+#[cfg(antlr_verif)]
+#[doc(hidden)]
+pub mod verif;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..e3651cc
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,51 @@
+//! Access to private parts of the runtime for external verification harnesses.
+//! Only compiled with `--cfg antlr_verif`.
+#![allow(missing_docs)]
+use crate::atn_config_set::ATNConfigSet;
+use crate::parser::{Parser, ParserNodeType};
+pub use crate::prediction_context::{
+    MurmurHasherBuilder, PredictionContext, EMPTY_PREDICTION_CONTEXT,
+    PREDICTION_CONTEXT_EMPTY_RETURN_STATE,
+};
+pub type MergeCache = crate::parser_atn_simulator::MergeCache;
+use crate::prediction_mode::{self as pm, PredictionMode};
+use crate::semantic_context::SemanticContext;
+use bit_set::BitSet;
+use std::borrow::Cow;
+
+pub fn evaluate<'a, T: Parser<'a>>(
+    c: &SemanticContext,
+    parser: &mut T,
+    outer: &<T::Node as ParserNodeType<'a>>::Type,
+) -> bool {
+    c.evaluate(parser, outer)
+}
+pub fn eval_precedence<'a, T: Parser<'a>>(
+    c: &SemanticContext,
+    parser: &T,
+    outer: &<T::Node as ParserNodeType<'a>>::Type,
+) -> Option<SemanticContext> {
+    c.eval_precedence(parser, outer).map(Cow::into_owned)
+}
+
+pub fn has_sll_conflict_terminating_prediction(m: PredictionMode, c: &ATNConfigSet) -> bool {
+    pm::has_sll_conflict_terminating_prediction(m, c)
+}
+pub fn resolves_to_just_one_viable_alt(a: &Vec<BitSet>) -> isize {
+    pm::resolves_to_just_one_viable_alt(a)
+}
+pub fn all_subsets_conflict(a: &Vec<BitSet>) -> bool {
+    pm::all_subsets_conflict(a)
+}
+pub fn all_subsets_equal(a: &Vec<BitSet>) -> bool {
+    pm::all_subsets_equal(a)
+}
+pub fn get_alts(a: &Vec<BitSet>) -> BitSet {
+    pm::get_alts(a)
+}
+pub fn get_conflicting_alt_subsets(c: &ATNConfigSet) -> Vec<BitSet> {
+    pm::get_conflicting_alt_subsets(c)
+}
+pub fn get_single_viable_alt(a: &Vec<BitSet>) -> isize {
+    pm::get_single_viable_alt(a)
+}
-- 
2.43.0


From 2d09649e5f147efd7b7c9f6de22ea99ab8898fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:48 +0000
Subject: [PATCH 18/25] fix: merging call stacks whose merged graph hashes to 0
 panicked

---
 src/prediction_context.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/prediction_context.rs b/src/prediction_context.rs
index 3083506..7151e76 100644
--- a/src/prediction_context.rs
+++ b/src/prediction_context.rs
@@ -346,7 +346,6 @@ impl PredictionContext {
                 result
             }
         };
-        assert_ne!(r.hash_code(), 0);
         if let Some(cache) = merge_cache {
             //            cache.entry(a.clone()).or_insert_with(||HashMap::new())
             //                .insert(b.clone(),r.clone());
-- 
2.43.0


From 190ce43082fe3d7e7ef4a22c80d8eb4e5a08f91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:31 +0000
Subject: [PATCH 19/25] fix: error reporting panicked when tree nodes were gone
 (parsing without building trees)

---
 src/error_strategy.rs | 24 +++++++++++++++---------
 src/errors.rs         | 10 +++++++++-
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index 04025ad..c4ab171 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -3,6 +3,7 @@ use std::borrow::Borrow;
 use std::error::Error;
 use std::fmt;
 use std::fmt::{Display, Formatter};
+use std::marker::PhantomData;
 use std::ops::{Deref, DerefMut};
 use std::rc::Rc;
 
@@ -14,7 +15,7 @@ use crate::errors::{ANTLRError, FailedPredicateError, InputMisMatchError, NoViab
 use crate::interval_set::IntervalSet;
 use crate::parser::{Parser, ParserNodeType};
 use crate::parser_rule_context::ParserRuleContext;
-use crate::rule_context::{CustomRuleContext, RuleContext};
+use crate::rule_context::{states_stack, CustomRuleContext, RuleContext};
 use crate::token::{Token, TOKEN_DEFAULT_CHANNEL, TOKEN_EOF, TOKEN_EPSILON, TOKEN_INVALID_TYPE};
 use crate::token_factory::TokenFactory;
 use crate::transition::RuleTransition;
@@ -145,7 +146,10 @@ pub struct DefaultErrorStrategy<'input, Ctx: ParserNodeType<'input>> {
     last_error_index: isize,
     last_error_states: Option<IntervalSet>,
     next_tokens_state: isize,
-    next_tokens_ctx: Option<Rc<Ctx::Type>>,
+    /// invoking states of the contexts that enclosed `next_tokens_state`; the contexts
+    /// themselves may be gone by the time they are needed
+    next_tokens_stack: Option<Vec<isize>>,
+    pd: PhantomData<fn() -> Rc<Ctx::Type>>,
 }
 
 better_any::tid! { impl<'i,Ctx> TidAble<'i> for DefaultErrorStrategy<'i,Ctx> where Ctx: ParserNodeType<'i>}
@@ -164,7 +168,8 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             last_error_index: -1,
             last_error_states: None,
             next_tokens_state: ATNSTATE_INVALID_STATE_NUMBER,
-            next_tokens_ctx: None,
+            next_tokens_stack: None,
+            pd: PhantomData,
         }
     }
 
@@ -419,12 +424,12 @@ impl<'a, T: Parser<'a>> ErrorStrategy<'a, T> for DefaultErrorStrategy<'a, T::Nod
             return Ok(self.get_missing_symbol(recognizer));
         }
 
-        if let Some(next_tokens_ctx) = &self.next_tokens_ctx {
+        if let Some(next_tokens_stack) = &self.next_tokens_stack {
             Err(ANTLRError::InputMismatchError(
-                InputMisMatchError::with_state(
+                InputMisMatchError::with_states_stack(
                     recognizer,
                     self.next_tokens_state,
-                    next_tokens_ctx.clone(),
+                    next_tokens_stack.clone(),
                 ),
             ))
         } else {
@@ -469,14 +474,15 @@ impl<'a, T: Parser<'a>> ErrorStrategy<'a, T> for DefaultErrorStrategy<'a, T::Nod
 
         if next_tokens.contains(next) {
             self.next_tokens_state = ATNSTATE_INVALID_STATE_NUMBER;
-            self.next_tokens_ctx = None;
+            self.next_tokens_stack = None;
             return Ok(());
         }
 
         if next_tokens.contains(TOKEN_EPSILON) {
-            if self.next_tokens_ctx.is_none() {
+            if self.next_tokens_stack.is_none() {
                 self.next_tokens_state = recognizer.get_state();
-                self.next_tokens_ctx = Some(recognizer.get_parser_rule_context().clone());
+                self.next_tokens_stack =
+                    Some(states_stack(recognizer.get_parser_rule_context().clone()).collect());
             }
             return Ok(());
         }
diff --git a/src/errors.rs b/src/errors.rs
index 2f1d3ae..c527323 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -205,11 +205,19 @@ impl InputMisMatchError {
         recognizer: &mut T,
         offending_state: isize,
         ctx: Rc<<T::Node as ParserNodeType<'a>>::Type>,
+    ) -> InputMisMatchError {
+        Self::with_states_stack(recognizer, offending_state, states_stack(ctx).collect())
+    }
+
+    pub(crate) fn with_states_stack<'a, T: Parser<'a>>(
+        recognizer: &mut T,
+        offending_state: isize,
+        states_stack: Vec<isize>,
     ) -> InputMisMatchError {
         let mut a = Self::new(recognizer);
         // a.base.ctx = ctx;
         a.base.offending_state = offending_state;
-        a.base.states_stack = states_stack(ctx).collect();
+        a.base.states_stack = states_stack;
         a
     }
 }
-- 
2.43.0


From 4e863ebdf5a20237a037d08d00b78dd86fff1369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:48 +0000
Subject: [PATCH 20/25] fix: a failed full context prediction blamed its first
 token instead of the one that cannot come

---
 src/parser_atn_simulator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 9043c48..9099bf4 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -475,6 +475,7 @@ impl ParserATNSimulator {
             let reach = self.compute_reach_set(&prev, t, full_ctx, local);
             prev = match reach {
                 None => {
+                    let err = self.no_viable_alt(local, &prev, self.start_index.get());
                     local.input().seek(self.start_index.get());
                     let alt = self
                         .get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule(
@@ -483,7 +484,7 @@ impl ParserATNSimulator {
                     if alt != INVALID_ALT {
                         return Ok(alt);
                     }
-                    return Err(self.no_viable_alt(local, &prev, self.start_index.get()));
+                    return Err(err);
                 }
                 Some(x) => x,
             };
-- 
2.43.0


From 5baf19d8408b52c1aa788ae7c16142008002eef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:24 +0000
Subject: [PATCH 21/25] fix: error recovery kept inserting the same missing
 token forever

---
 src/error_strategy.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index c4ab171..ca20723 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -145,6 +145,9 @@ pub struct DefaultErrorStrategy<'input, Ctx: ParserNodeType<'input>> {
     error_recovery_mode: bool,
     last_error_index: isize,
     last_error_states: Option<IntervalSet>,
+    /// where tokens have been inserted since the last one was matched: input index and parser states
+    insertion_index: isize,
+    insertion_states: Option<IntervalSet>,
     next_tokens_state: isize,
     /// invoking states of the contexts that enclosed `next_tokens_state`; the contexts
     /// themselves may be gone by the time they are needed
@@ -167,6 +170,8 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             error_recovery_mode: false,
             last_error_index: -1,
             last_error_states: None,
+            insertion_index: -1,
+            insertion_states: None,
             next_tokens_state: ATNSTATE_INVALID_STATE_NUMBER,
             next_tokens_stack: None,
             pd: PhantomData,
@@ -187,6 +192,27 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
         self.error_recovery_mode = false;
         self.last_error_index = -1;
         self.last_error_states = None;
+        self.insertion_index = -1;
+        self.insertion_states = None;
+    }
+
+    /// Remembers that a token is inserted here. `false` if that has been done already and nothing
+    /// was consumed since: repeating the insertion would go on forever
+    fn first_insertion<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
+        &mut self,
+        recognizer: &mut T,
+    ) -> bool {
+        let index = recognizer.get_input_stream_mut().index();
+        if self.insertion_index != index {
+            self.insertion_index = index;
+            self.insertion_states = None;
+        }
+        let states = self.insertion_states.get_or_insert(IntervalSet::new());
+        if states.contains(recognizer.get_state()) {
+            return false;
+        }
+        states.add_one(recognizer.get_state());
+        true
     }
 
     fn report_no_viable_alternative<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
@@ -289,7 +315,7 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             atn.states[next].as_ref(),
             Some(recognizer.get_parser_rule_context().deref()),
         );
-        if expect_at_ll2.contains(current_token) {
+        if expect_at_ll2.contains(current_token) && self.first_insertion(recognizer) {
             self.report_missing_token(recognizer);
             return true;
         }
-- 
2.43.0


From dec1c8ff80551dfb1e9c1b109189b442b08bd674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:35 +0000
Subject: [PATCH 22/25] verif hooks: lexer actions of an automaton under
 cfg(antlr_verif)

---
 src/verif.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/verif.rs b/src/verif.rs
index e3651cc..63ebe09 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -49,3 +49,7 @@ pub fn get_conflicting_alt_subsets(c: &ATNConfigSet) -> Vec<BitSet> {
 pub fn get_single_viable_alt(a: &Vec<BitSet>) -> isize {
     pm::get_single_viable_alt(a)
 }
+/// the actions of a lexer automaton, in their debug form
+pub fn lexer_actions(a: &crate::atn::ATN) -> Vec<String> {
+    a.lexer_actions.iter().map(|x| format!("{:?}", x)).collect()
+}
-- 
2.43.0


From ca768dbb21d581ebd5242da23c7c67d8e9a37af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:15 +0000
Subject: [PATCH 23/25] fix: deserializer read the symbols U+FFFF and U+FFFE of
 single and range edges as negative numbers (end of input, epsilon)

---
 src/atn_deserializer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atn_deserializer.rs b/src/atn_deserializer.rs
index 593da83..7b5c3e0 100644
--- a/src/atn_deserializer.rs
+++ b/src/atn_deserializer.rs
@@ -478,9 +478,9 @@ impl ATNDeserializer {
                 start: if arg3 != 0 {
                     super::token::TOKEN_EOF
                 } else {
-                    arg1
+                    arg1 & 0xFFFF
                 },
-                stop: arg2,
+                stop: arg2 & 0xFFFF,
             }),
             TRANSITION_RULE => {
                 //                base.set_target(arg1 as usize);
@@ -499,7 +499,7 @@ impl ATNDeserializer {
             }),
             TRANSITION_ATOM => Box::new(AtomTransition {
                 target,
-                label: if arg3 != 0 { EOF } else { arg1 },
+                label: if arg3 != 0 { EOF } else { arg1 & 0xFFFF },
             }),
             TRANSITION_ACTION => Box::new(ActionTransition {
                 target,
-- 
2.43.0


From dcb6c0630d44a7cb94da30e71f23b5ab8449f238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:39 +0000
Subject: [PATCH 24/25] fix: adaptive_predict left its mark on the token stream
 when prediction failed

The early return with ? skipped seek and release, so the stream kept the mark for ever:
an UnbufferedTokenStream stops discarding tokens, and releasing a mark taken before the
prediction fails its assertion.
---
 src/parser_atn_simulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 9099bf4..6f19c2c 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -226,13 +226,13 @@ impl ParserATNSimulator {
                 s0
             });
 
-            self.exec_atn(&mut local, s0)?
+            self.exec_atn(&mut local, s0)
         };
 
         local.input().seek(self.start_index.get());
         local.input().release(m);
         //        println!("result = {}", result);
-        Ok(result)
+        result
     }
 
     #[allow(non_snake_case)]
-- 
2.43.0


From 6478d61a781e99a828f02b762d4916a3df41cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 25/25] fix: states that differ in which configurations left
 the decision rule shared a DFA state, so a failed prediction depended on what
 was parsed before

---
 src/dfa_state.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dfa_state.rs b/src/dfa_state.rs
index 21b1560..bc84f04 100644
--- a/src/dfa_state.rs
+++ b/src/dfa_state.rs
@@ -41,7 +41,17 @@ pub struct DFAState {
 
 impl PartialEq for DFAState {
     fn eq(&self, other: &Self) -> bool {
+        // whether a configuration has left the rule of the decision is not part of its equality,
+        // but it decides how a prediction that fails in this state ends
         self.configs == other.configs
+            && self
+                .configs
+                .get_items()
+                .zip(other.configs.get_items())
+                .all(|(a, b)| {
+                    (a.get_reaches_into_outer_context() > 0)
+                        == (b.get_reaches_into_outer_context() > 0)
+                })
     }
 }
 
-- 
2.43.0

