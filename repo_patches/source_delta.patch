From 8c717e85f227528d60ec52519099aeafe464e6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 1/6] fix: dropped split readers must not have their marker
 position adjusted

Once one half of a split reader was dropped its position was set to
usize::max_value(), but reads by the other half subtracted from it like
any other position. Dropping the second half then popped the buffer an
astronomical number of times (a hang).
---
 src/split_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/split_reader.rs b/src/split_reader.rs
index ce96077..22a0bc8 100644
--- a/src/split_reader.rs
+++ b/src/split_reader.rs
@@ -72,7 +72,8 @@ impl<'a, Symbol: Clone> SplitSymbolReaderBuffer<'a, Symbol> {
                     self.buffer.pop_front();
                 }
 
-                for pos in self.positions.iter_mut() {
+                // Readers that have been dropped are marked with the maximum value, which must not be adjusted
+                for pos in self.positions.iter_mut().filter(|pos| **pos < usize::max_value()) {
                     *pos -= lowest_pos;
                 }
             }
-- 
2.43.0


From 7b72d318ec9bedea0be19e25eaf636868e810c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 2/6] fix: rewinding a tape is limited by the current position

The limit was the size of the whole buffer, including symbols ahead of
the current position, so a second rewind could move past the start of
the tape or the last cut.
---
 src/tape.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tape.rs b/src/tape.rs
index afa621e..959a7a3 100644
--- a/src/tape.rs
+++ b/src/tape.rs
@@ -127,8 +127,14 @@ impl<Symbol: Clone+Sized, SourceReader: SymbolReader<Symbol>> Tape<Symbol, Sourc
     /// Moves backwards by num_symbols
     ///
     pub fn rewind(&mut self, num_symbols: usize) {
-        // Do nothing if we're over the maximum length of the buffer
-        if num_symbols > self.buffer_size() {
+        // Only the symbols between the start of the buffer and the current position can be rewound over
+        let max_rewind = if self.first_symbol_index > self.read_index {
+            (self.read_index + self.buffer.len()) - self.first_symbol_index
+        } else {
+            self.read_index - self.first_symbol_index
+        };
+
+        if num_symbols > max_rewind {
             panic!("Can't rewind beyond the start of the tape");
         }
 
-- 
2.43.0


From 57b8480c8a1c63d373b3f984e7717df60423523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 3/6] fix: characters either side of the surrogate range are
 neighbours

The successor of U+D7FF was U+0000 and the predecessor of U+E000 was
U+FFFF, so splitting overlapping ranges there panicked or looped forever.
---
 src/countable.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/countable.rs b/src/countable.rs
index e3a6b21..e73df4b 100644
--- a/src/countable.rs
+++ b/src/countable.rs
@@ -86,8 +86,19 @@ impl Countable for i64 {
 }
 
 impl Countable for char { 
-    fn next(&self) -> Self { char::from_u32((*self as u32)+1).unwrap_or('\u{0000}') }
-    fn prev(&self) -> Self { char::from_u32((*self as u32)-1).unwrap_or('\u{ffff}') }
+    fn next(&self) -> Self {
+        match *self {
+            '\u{d7ff}' => '\u{e000}',      // Surrogates are not characters
+            _          => char::from_u32((*self as u32)+1).unwrap_or('\u{0000}')
+        }
+    }
+
+    fn prev(&self) -> Self {
+        match *self {
+            '\u{e000}' => '\u{d7ff}',      // Surrogates are not characters
+            _          => char::from_u32((*self as u32)-1).unwrap_or('\u{ffff}')
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 66fbedc046d9d68371c6728c903e9181134af143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 4/6] fix: every output joined to a state takes part in
 choosing its output

A state joined to several accepting states reported whichever of their
outputs came first in a randomly ordered set, and a state's own output hid
lower ones joined to it, so ties between tokens were decided arbitrarily.
The compiler now sees all of the outputs and picks the lowest.
---
 src/dfa_compiler.rs  |  2 +-
 src/ndfa.rs          | 14 +++++++++++++-
 src/state_machine.rs | 19 +++++++++++++++++++
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/dfa_compiler.rs b/src/dfa_compiler.rs
index 87d65be..314418e 100644
--- a/src/dfa_compiler.rs
+++ b/src/dfa_compiler.rs
@@ -199,7 +199,7 @@ impl<InputSymbol: Ord+Clone, OutputSymbol: Ord+Clone, DfaType, Ndfa: StateMachin
                     transitions.push((symbol, DfaState::create(vec![state])));
                 }
 
-                if let Some(source_output) = self.ndfa.output_symbol_for_state(*source_state) {
+                for source_output in self.ndfa.output_symbols_for_state(*source_state) {
                     output.push(source_output.clone());
                 }
             }
diff --git a/src/ndfa.rs b/src/ndfa.rs
index 8c67231..c3ba426 100644
--- a/src/ndfa.rs
+++ b/src/ndfa.rs
@@ -180,7 +180,10 @@ impl<InputSymbol: Clone, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> f
 
         match result {
             None => {
-                let joined_states = self.get_join_closure(state);
+                // The lowest numbered state takes precedence, so that the result does not depend on the ordering of the set
+                let mut joined_states: Vec<StateId> = self.get_join_closure(state).into_iter().collect();
+                joined_states.sort();
+
                 for joined in joined_states {
                     result = self.output_symbols.get(&joined);
                     match result {
@@ -195,6 +198,15 @@ impl<InputSymbol: Clone, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> f
             _ => result
         }
     }
+
+    ///
+    /// Retrieves the output symbols for a state and all of the states joined to it
+    ///
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        self.get_join_closure(state).into_iter()
+            .filter_map(|joined| self.output_symbols.get(&joined))
+            .collect()
+    }
 }
 
 impl<InputSymbol : Clone, OutputSymbol> MutableStateMachine<InputSymbol, OutputSymbol> for Ndfa<InputSymbol, OutputSymbol> {
diff --git a/src/state_machine.rs b/src/state_machine.rs
index 7deaaa6..089794b 100644
--- a/src/state_machine.rs
+++ b/src/state_machine.rs
@@ -53,6 +53,15 @@ pub trait StateMachine<InputSymbol, OutputSymbol> {
     /// If a state is an accepting state, then this returns the output symbol that should be produced if this is the longest match
     ///
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol>;
+
+    ///
+    /// Returns every output symbol that applies to a state, in no particular order
+    ///
+    /// Joining states can make several output symbols apply to the same state.
+    ///
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        self.output_symbol_for_state(state).into_iter().collect()
+    }
 }
 
 ///
@@ -117,6 +126,11 @@ impl<InputSymbol, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> for Rc<S
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
         (**self).output_symbol_for_state(state)
     }
+
+    #[inline]
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        (**self).output_symbols_for_state(state)
+    }
 }
 
 ///
@@ -137,4 +151,9 @@ impl<'a, InputSymbol, OutputSymbol> StateMachine<InputSymbol, OutputSymbol> for
     fn output_symbol_for_state(&self, state: StateId) -> Option<&OutputSymbol> {
         (**self).output_symbol_for_state(state)
     }
+
+    #[inline]
+    fn output_symbols_for_state(&self, state: StateId) -> Vec<&OutputSymbol> {
+        (**self).output_symbols_for_state(state)
+    }
 }
-- 
2.43.0


From 1795fbcdb3ccabce21d15740e85fca18c5004ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 5/6] fix: token patterns that end on the same state keep their
 own outputs

Patterns that match only the empty string end on the start state, so the
last one added overwrote the outputs of the others.
---
 src/tokenizer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 253b69e..fb2b32b 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -67,8 +67,10 @@ impl<InputSymbol: Clone+Ord+Countable+'static, OutputSymbol: Clone+Ord+'static>
             // Compile each pattern starting at state 0
             let end_state = pattern.compile(&mut ndfa, 0);
 
-            // Set the output for this pattern
-            ndfa.set_output_symbol(end_state, output.clone());
+            // Set the output for this pattern, using its own state as several patterns can end on the same state
+            let accept_state = ndfa.count_states();
+            ndfa.join_states(end_state, accept_state);
+            ndfa.set_output_symbol(accept_state, output.clone());
         }
 
         // Clear out any overlapping ranges so we can build a valid DFA
-- 
2.43.0


From 98824976474ccfbb2f16d7cc9ae7d97149e25ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 6/6] fix: find every range of an overlapping symbol map that
 overlaps the target

Looking only one place back from the insertion point missed longer ranges that
start earlier, and shorter ones with the same start.
---
 src/overlapping_symbols.rs | 28 +++++-----------------------
 1 file changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/overlapping_symbols.rs b/src/overlapping_symbols.rs
index fc7b91b..9cc308a 100644
--- a/src/overlapping_symbols.rs
+++ b/src/overlapping_symbols.rs
@@ -97,29 +97,11 @@ impl<Symbol: Ord+Clone+Countable> SymbolMap<Symbol> {
     /// Finds the ranges in this map that overlap the target ranges
     ///
     pub fn find_overlapping_ranges(&self, range: &SymbolRange<Symbol>) -> Vec<&SymbolRange<Symbol>> {
-        let mut result = vec![];
-
-        // Find the first range that matches (or the insertion position, which should be the first range wit a lowest value higher than the target range)
-        let existing = self.ranges.binary_search_by(|test_range| { SymbolMap::order_ranges(test_range, range) });
-
-        // Start returning values from here
-        let mut pos = match existing {
-            Ok(found_position) => found_position,
-            Err(insert_position) => insert_position
-        };
-
-        // Move backwards if the previous position overlaps this one
-        if pos > 0 && self.ranges[pos-1].highest >= range.lowest {
-            pos -= 1;
-        }
-
-        // TODO: can we construct a set of ranges such that one is missed here? Think maybe we can
-        while pos < self.ranges.len() && self.ranges[pos].lowest <= range.highest {
-            result.push(&self.ranges[pos]);
-            pos += 1;
-        }
-
-        result
+        // The ranges are ordered by their lowest symbol, but any of those that start before the end of the target might reach into it
+        self.ranges.iter()
+            .take_while(|test_range| test_range.lowest <= range.highest)
+            .filter(|test_range| test_range.overlaps(range))
+            .collect()
     }
 
     ///
-- 
2.43.0

