From 1e4e04f89283816864c3288ab77722ec6b1c2529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 01/51] verif: step-budget hook in oak-core, compiled only with
 --cfg oak_verif

---
 projects/oak-core/src/lib.rs           |  3 +++
 projects/oak-core/src/parser/state.rs  | 10 +++++++++
 projects/oak-core/src/source/cursor.rs | 12 +++++++++++
 projects/oak-core/src/verif.rs         | 29 ++++++++++++++++++++++++++
 4 files changed, 54 insertions(+)
 create mode 100644 projects/oak-core/src/verif.rs

diff --git a/projects/oak-core/src/lib.rs b/projects/oak-core/src/lib.rs
index 49535c8..0267bdc 100644
--- a/projects/oak-core/src/lib.rs
+++ b/projects/oak-core/src/lib.rs
@@ -39,6 +39,9 @@ pub mod visitor;
 /// Helper utilities for common operations.
 pub mod helpers;
 
+#[cfg(oak_verif)]
+pub mod verif;
+
 pub use core::range::Range;
 
 pub use crate::{
diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 28f3785..1e4fffc 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -46,12 +46,16 @@ impl<L: Language> TokenSource<L> {
     /// Gets the current token.
     #[inline]
     pub fn current(&self) -> Option<&Token<L::TokenType>> {
+        #[cfg(oak_verif)]
+        crate::verif::tick();
         self.tokens.get(self.index)
     }
 
     /// Peeks at a token at the specified offset from the current position.
     #[inline]
     pub fn peek_at(&self, offset: usize) -> Option<&Token<L::TokenType>> {
+        #[cfg(oak_verif)]
+        crate::verif::tick();
         self.tokens.get(self.index + offset)
     }
 
@@ -64,6 +68,8 @@ impl<L: Language> TokenSource<L> {
     /// Checks if the token source has reached the end.
     #[inline]
     pub fn is_end(&self) -> bool {
+        #[cfg(oak_verif)]
+        crate::verif::tick();
         self.index >= self.tokens.len()
     }
 
@@ -94,6 +100,8 @@ impl<'a, L: Language> TreeSink<'a, L> {
 
     /// Pushes a leaf node (token) to the current list of children.
     pub fn push_leaf(&mut self, kind: L::TokenType, len: usize) {
+        #[cfg(oak_verif)]
+        crate::verif::tick();
         self.children.push(GreenTree::Leaf(GreenLeaf::new(kind, len as u32)));
     }
 
@@ -125,6 +133,8 @@ impl<'a, L: Language> TreeSink<'a, L> {
 
     /// Finishes a node starting from the given checkpoint and adds it as a child.
     pub fn finish_node(&mut self, checkpoint: usize, kind: L::ElementType) -> &'a GreenNode<'a, L> {
+        #[cfg(oak_verif)]
+        crate::verif::tick();
         let children_slice = self.arena.alloc_slice_copy(&self.children[checkpoint..]);
         self.children.truncate(checkpoint);
         let node = GreenNode::new(kind, children_slice);
diff --git a/projects/oak-core/src/source/cursor.rs b/projects/oak-core/src/source/cursor.rs
index a550e28..216b2aa 100644
--- a/projects/oak-core/src/source/cursor.rs
+++ b/projects/oak-core/src/source/cursor.rs
@@ -46,6 +46,8 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
     /// Returns the current byte offset of the cursor.
     #[inline]
     pub fn position(&self) -> usize {
+        #[cfg(oak_verif)]
+        crate::verif::tick();
         self.offset
     }
 
@@ -53,6 +55,8 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
     /// Returns the previous offset.
     #[inline]
     pub fn set_position(&mut self, offset: usize) -> usize {
+        #[cfg(oak_verif)]
+        crate::verif::tick();
         let last = self.offset;
         self.offset = offset.min(self.source.length());
         last
@@ -91,6 +95,8 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
 
     /// Peeks at the next character without advancing the cursor.
     pub fn peek_char(&mut self) -> Option<char> {
+        #[cfg(oak_verif)]
+        crate::verif::tick();
         if self.offset >= self.chunk.start {
             let rel = self.offset - self.chunk.start;
             if rel < self.chunk.text.len() {
@@ -243,6 +249,8 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
     /// Peeks at the next byte without advancing. the cursor.
     #[inline(always)]
     pub fn peek_byte(&mut self) -> Option<u8> {
+        #[cfg(oak_verif)]
+        crate::verif::tick();
         if self.offset >= self.chunk.start {
             let rel = self.offset - self.chunk.start;
             let bytes = self.chunk.text.as_bytes();
@@ -371,6 +379,8 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
 
     /// Returns `true` if the source text at the current position starts with the given pattern.
     pub fn starts_with(&mut self, pattern: &str) -> bool {
+        #[cfg(oak_verif)]
+        crate::verif::tick();
         self.ensure_chunk();
         let chunk_text = self.chunk.text;
         let offset_in_chunk = self.offset.saturating_sub(self.chunk.start);
@@ -415,6 +425,8 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
 
     /// Finds the first occurrence of the given pattern in the source text starting from the current position.
     pub fn find_str(&mut self, pattern: &str) -> Option<usize> {
+        #[cfg(oak_verif)]
+        crate::verif::tick();
         if pattern.is_empty() {
             return Some(self.offset);
         }
diff --git a/projects/oak-core/src/verif.rs b/projects/oak-core/src/verif.rs
new file mode 100644
index 0000000..7639290
--- /dev/null
+++ b/projects/oak-core/src/verif.rs
@@ -0,0 +1,29 @@
+//! Verification hook (compiled only with `--cfg oak_verif`): a thread-local step budget.
+//!
+//! A harness sets a budget before it drives a lexer or parser; every cursor and token access
+//! consumes one step, and running out of steps panics. That turns a loop which makes no progress
+//! into a deterministic, reportable outcome instead of a hang.
+use std::cell::Cell;
+
+thread_local! {
+    static STEPS: Cell<Option<u64>> = const { Cell::new(None) };
+}
+
+/// Sets (or, with `None`, removes) the step budget of the current thread.
+pub fn set_step_budget(steps: Option<u64>) {
+    STEPS.with(|s| s.set(steps));
+}
+
+/// Consumes one step of the current thread's budget.
+#[inline]
+pub fn tick() {
+    STEPS.with(|s| {
+        if let Some(n) = s.get() {
+            if n == 0 {
+                s.set(None);
+                panic!("oak_verif: step budget exhausted");
+            }
+            s.set(Some(n - 1));
+        }
+    });
+}
-- 
2.43.0


From 67fc7fa4042b1d4bae2a0d4307db3caf719fee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 02/51] fix: keep trivia at the start of the text in the tree
 (it was dropped, shifting every position)

---
 projects/oak-core/src/parser/state.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 1e4fffc..455d4b6 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -131,6 +131,25 @@ impl<'a, L: Language> TreeSink<'a, L> {
         self.children.truncate(checkpoint)
     }
 
+    /// Moves the leaves collected before `root` into it if the two together cover the whole text.
+    ///
+    /// Leading trivia is collected before a parser takes its first checkpoint; left out of the
+    /// tree, it would shift every position in it.
+    fn absorb_leading_leaves(&self, root: &'a GreenNode<'a, L>, source_len: usize) -> &'a GreenNode<'a, L> {
+        let index = self.children.iter().position(|child| child.as_node().is_some_and(|node| std::ptr::eq(node, root)));
+        let Some(leading) = index.and_then(|index| self.children.get(..index))
+        else {
+            return root;
+        };
+        let leading_len: usize = leading.iter().map(|child| child.len() as usize).sum();
+        if leading.is_empty() || leading.iter().any(|child| child.is_node()) || leading_len + root.text_len() as usize != source_len {
+            return root;
+        }
+        let mut children = leading.to_vec();
+        children.extend_from_slice(root.children);
+        self.arena.alloc(GreenNode::new(root.kind, self.arena.alloc_slice_copy(&children)))
+    }
+
     /// Finishes a node starting from the given checkpoint and adds it as a child.
     pub fn finish_node(&mut self, checkpoint: usize, kind: L::ElementType) -> &'a GreenNode<'a, L> {
         #[cfg(oak_verif)]
@@ -627,6 +646,7 @@ impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
 
     /// Finishes the parsing process and returns the final output.
     pub fn finish(self, result: Result<&'a GreenNode<'a, L>, OakError>) -> crate::parser::ParseOutput<'a, L> {
+        let result = result.map(|root| self.sink.absorb_leading_leaves(root, self.source.length()));
         crate::errors::OakDiagnostics { result, diagnostics: self.errors }
     }
 
-- 
2.43.0


From a74118d88d4a91dbcaa2a1a86ae5609e059efedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 03/51] fix: reuse an old node on reparse only if its tokens,
 their context and its diagnostics are unchanged; never use a root of a
 dropped generation

---
 projects/oak-core/src/errors/mod.rs     |  14 ++++
 projects/oak-core/src/parser/mod.rs     |   2 +
 projects/oak-core/src/parser/session.rs |  38 ++++++++-
 projects/oak-core/src/parser/state.rs   | 100 ++++++++++++++++--------
 projects/oak-core/src/tree/cursor.rs    |   9 ++-
 5 files changed, 129 insertions(+), 34 deletions(-)

diff --git a/projects/oak-core/src/errors/mod.rs b/projects/oak-core/src/errors/mod.rs
index 5f5bef3..355c0f6 100644
--- a/projects/oak-core/src/errors/mod.rs
+++ b/projects/oak-core/src/errors/mod.rs
@@ -310,6 +310,20 @@ impl OakError {
         &self.kind
     }
 
+    /// Gets the byte offset this error points at, if it has one.
+    pub fn offset(&self) -> Option<usize> {
+        match self.kind.as_ref() {
+            OakErrorKind::SyntaxError { offset, .. }
+            | OakErrorKind::UnexpectedCharacter { offset, .. }
+            | OakErrorKind::UnexpectedToken { offset, .. }
+            | OakErrorKind::UnexpectedEof { offset, .. }
+            | OakErrorKind::ExpectedToken { offset, .. }
+            | OakErrorKind::ExpectedName { offset, .. }
+            | OakErrorKind::TrailingCommaNotAllowed { offset, .. } => Some(*offset),
+            _ => None,
+        }
+    }
+
     /// Creates a test failure error.
     pub fn test_failure(path: std::path::PathBuf, expected: String, actual: String) -> Self {
         OakErrorKind::TestFailure { path, expected, actual }.into()
diff --git a/projects/oak-core/src/parser/mod.rs b/projects/oak-core/src/parser/mod.rs
index eac77cb..7a9ebb7 100644
--- a/projects/oak-core/src/parser/mod.rs
+++ b/projects/oak-core/src/parser/mod.rs
@@ -105,6 +105,7 @@ where
     if let Some(old) = cache.old_tree() {
         let old: &'a GreenNode<'a, L> = unsafe { std::mem::transmute(old) };
         st.set_incremental(old, edits);
+        st.set_incremental_diagnostics(cache.old_diagnostics())
     }
 
     // 4. Run Parser Logic
@@ -112,6 +113,7 @@ where
     let output = st.finish(result);
 
     // 5. Commit Generation
+    cache.set_diagnostics(&output.diagnostics);
     if let Ok(root) = output.result {
         cache.commit_generation(root)
     }
diff --git a/projects/oak-core/src/parser/session.rs b/projects/oak-core/src/parser/session.rs
index 5723601..0852b15 100644
--- a/projects/oak-core/src/parser/session.rs
+++ b/projects/oak-core/src/parser/session.rs
@@ -1,5 +1,6 @@
 use crate::{
     Language,
+    errors::OakError,
     lexer::{LexOutput, LexerCache, Token},
     memory::arena::SyntaxArena,
     tree::GreenNode,
@@ -22,6 +23,14 @@ pub trait ParseCache<L: Language>: LexerCache<L> {
 
     /// Commits the result of a parsing generation.
     fn commit_generation(&self, root: &GreenNode<L>);
+
+    /// Returns the diagnostics reported while parsing the old tree.
+    fn old_diagnostics(&self) -> &[OakError] {
+        &[]
+    }
+
+    /// Remembers the diagnostics of a parsing generation.
+    fn set_diagnostics(&mut self, _diagnostics: &[OakError]) {}
 }
 
 /// A memory pool that manages the lifecycle of parsing generations.
@@ -35,6 +44,10 @@ pub struct ParseSession<L: Language + Send + Sync> {
     arena_old: Option<SyntaxArena>,
     /// Pointer to the root of the last parsed tree.
     last_root: Cell<Option<NonNull<()>>>,
+    /// Whether `last_root` belongs to the current generation.
+    committed: Cell<bool>,
+    /// Diagnostics of the last parsing pass.
+    last_diagnostics: Vec<OakError>,
     /// Full output from the last lexing pass.
     last_lex: Option<LexOutput<L>>,
 }
@@ -51,7 +64,7 @@ impl<L: Language + Send + Sync> Default for ParseSession<L> {
 impl<L: Language + Send + Sync> ParseSession<L> {
     /// Creates a new parse session.
     pub fn new(capacity: usize) -> Self {
-        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), last_lex: None }
+        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), committed: Cell::new(false), last_diagnostics: Vec::new(), last_lex: None }
     }
 
     /// Returns the root of the last parsed tree.
@@ -86,7 +99,11 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
         // 1. Move active to old. Oldest is dropped.
         self.arena_old = Some(std::mem::replace(&mut self.arena_active, SyntaxArena::new(16)));
 
-        // 2. last_root now correctly points into arena_old.
+        // 2. last_root now correctly points into arena_old, unless that generation was never
+        // committed: then it pointed into the arena that has just been dropped.
+        if !self.committed.replace(false) {
+            self.last_root.set(None)
+        }
         // 3. Clear last lex output to force re-lexing for the new generation.
         self.last_lex = None
     }
@@ -94,6 +111,15 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
     fn commit_generation(&self, root: &GreenNode<L>) {
         // Safety: We cast to void pointer because ParseSession manages the lifetime.
         unsafe { self.last_root.set(Some(NonNull::new_unchecked(root as *const _ as *mut ()))) }
+        self.committed.set(true)
+    }
+
+    fn old_diagnostics(&self) -> &[OakError] {
+        &self.last_diagnostics
+    }
+
+    fn set_diagnostics(&mut self, diagnostics: &[OakError]) {
+        self.last_diagnostics = diagnostics.to_vec()
     }
 }
 
@@ -139,4 +165,12 @@ impl<'a, L: Language, C: ParseCache<L> + ?Sized> ParseCache<L> for &'a mut C {
     fn commit_generation(&self, root: &GreenNode<L>) {
         (**self).commit_generation(root)
     }
+
+    fn old_diagnostics(&self) -> &[OakError] {
+        (**self).old_diagnostics()
+    }
+
+    fn set_diagnostics(&mut self, diagnostics: &[OakError]) {
+        (**self).set_diagnostics(diagnostics)
+    }
 }
diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 455d4b6..57dd806 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -169,6 +169,8 @@ pub struct IncrementalContext<'a, L: Language> {
     /// Sorted list of edits with their accumulated deltas.
     /// Each entry contains the old range and the cumulative delta *after* this edit.
     edits: Vec<(Range<usize>, isize)>,
+    /// Old offsets at which the previous parse reported a diagnostic.
+    diagnostics: Vec<usize>,
 }
 
 impl<'a, L: Language> IncrementalContext<'a, L> {
@@ -187,7 +189,7 @@ impl<'a, L: Language> IncrementalContext<'a, L> {
             processed_edits.push((edit.span, cumulative_delta));
         }
 
-        Self { cursor: Cursor::new(old_root), edits: processed_edits }
+        Self { cursor: Cursor::new(old_root), edits: processed_edits, diagnostics: Vec::new() }
     }
 
     fn map_new_to_old(&self, new_pos: usize) -> Option<usize> {
@@ -221,6 +223,51 @@ impl<'a, L: Language> IncrementalContext<'a, L> {
         }
         false
     }
+
+    /// Checks whether the node under the cursor may stand for the upcoming tokens.
+    ///
+    /// Its leaves must be exactly these tokens, and so must be what follows it up to the next
+    /// significant token, since that made the parser end the node where it did. None of this may
+    /// have been edited, nor have caused a diagnostic, which would be lost by the reuse.
+    /// Returns the number of tokens the node consists of.
+    fn match_tokens(&self, node: &GreenNode<'a, L>, tokens: &TokenSource<L>) -> Option<usize> {
+        let (start, mut end) = (self.cursor.offset(), self.cursor.end_offset());
+        if start == end {
+            return None;
+        }
+        let count = leaf_count(node);
+        let mut old = self.cursor.clone();
+        let mut index = 0;
+        let mut next_start = tokens.current()?.span.start;
+        loop {
+            if let GreenTree::Leaf(leaf) = old.current() {
+                let token = tokens.peek_at(index)?;
+                if token.kind != leaf.kind || token.length() != leaf.length as usize || token.span.start != next_start {
+                    return None;
+                }
+                end = old.end_offset();
+                next_start = token.span.end;
+                if index >= count && !L::TokenType::is_ignored(&leaf.kind) {
+                    break;
+                }
+                index += 1
+            }
+            if !old.step() {
+                // The old text ends here, and so must the new one
+                if tokens.peek_at(index).is_some_and(|token| !L::TokenType::is_end_of_stream(&token.kind)) {
+                    return None;
+                }
+                break;
+            }
+        }
+        let reported = self.diagnostics.iter().any(|&offset| start <= offset && offset <= end);
+        if reported || self.is_dirty(start, end) { None } else { Some(count) }
+    }
+}
+
+/// Counts the leaves below a node.
+fn leaf_count<L: Language>(node: &GreenNode<'_, L>) -> usize {
+    node.children.iter().map(|child| child.as_node().map_or(1, leaf_count)).sum()
 }
 
 /// High-level API for parsers, coordinating token supply and tree construction.
@@ -296,6 +343,19 @@ impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
         self.incremental = Some(IncrementalContext::new(old, edits));
     }
 
+    /// Sets the diagnostics of the parse that produced the old tree.
+    ///
+    /// Nodes they were reported in are parsed again rather than reused, so that they are reported
+    /// again.
+    pub fn set_incremental_diagnostics(&mut self, diagnostics: &[OakError]) {
+        if diagnostics.iter().any(|error| error.offset().is_none()) {
+            self.incremental = None
+        }
+        else if let Some(incremental) = &mut self.incremental {
+            incremental.diagnostics = diagnostics.iter().filter_map(|error| error.offset()).collect()
+        }
+    }
+
     // --- Error Reporting ---
 
     /// Returns the current byte offset.
@@ -586,37 +646,15 @@ impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
             if start == target_old_pos {
                 if let Some(node) = inc.cursor.as_node() {
                     if node.kind == kind {
-                        if !inc.is_dirty(start, end) {
-                            // Verify tokens
-                            let node_len = node.text_len() as usize;
-
-                            // Check token stream
-                            let mut lookahead = 0;
-                            let mut current_pos = new_pos;
-                            let target_new_end = new_pos + node_len;
-
-                            while let Some(t) = self.tokens.peek_at(lookahead) {
-                                if t.span.start != current_pos {
-                                    // Token stream doesn't match expected positions
-                                    break;
-                                }
-                                current_pos = t.span.end;
-
-                                if t.span.end == target_new_end {
-                                    // Found the end!
-                                    let tokens_consumed = lookahead + 1;
-                                    let new_node = deep_clone_node(node, self.sink.arena);
-                                    self.sink.push_node(new_node);
-                                    self.tokens.set_index(current_index + tokens_consumed);
-                                    inc.cursor.step_over();
-                                    return true;
-                                }
-                                else if t.span.end > target_new_end {
-                                    break;
-                                }
-                                lookahead += 1;
-                            }
+                        if let Some(consumed) = inc.match_tokens(node, &self.tokens) {
+                            let new_node = deep_clone_node(node, self.sink.arena);
+                            self.sink.push_node(new_node);
+                            self.tokens.set_index(current_index + consumed);
+                            inc.cursor.step_next();
+                            return true;
                         }
+                        // A nested node of the same kind would not be what is asked for here
+                        return false;
                     }
                 }
                 if !inc.cursor.step_into() && !inc.cursor.step_next() {
diff --git a/projects/oak-core/src/tree/cursor.rs b/projects/oak-core/src/tree/cursor.rs
index 664be62..ba85d91 100644
--- a/projects/oak-core/src/tree/cursor.rs
+++ b/projects/oak-core/src/tree/cursor.rs
@@ -13,7 +13,7 @@ use crate::{
 ///
 /// It maintains a path from the root to the current node, allowing for
 /// `parent()` navigation and offset tracking.
-#[derive(Debug, Clone)]
+#[derive(Debug)]
 pub struct Cursor<'a, L: Language> {
     /// The current element (Node or Leaf).
     current: GreenTree<'a, L>,
@@ -24,6 +24,13 @@ pub struct Cursor<'a, L: Language> {
     stack: Vec<(&'a GreenNode<'a, L>, usize, usize)>,
 }
 
+// Manually implement Clone to avoid L: Clone bound
+impl<'a, L: Language> Clone for Cursor<'a, L> {
+    fn clone(&self) -> Self {
+        Self { current: self.current, offset: self.offset, stack: self.stack.clone() }
+    }
+}
+
 impl<'a, L: Language> Cursor<'a, L> {
     /// Creates a new cursor starting at the given root node.
     pub fn new(root: &'a GreenNode<'a, L>) -> Self {
-- 
2.43.0


From 71930beeadc7b90156b86c31c130627e68c50b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 04/51] fix: LexerState::rest reaches the end of the source and
 find_str finds matches across any number of chunks, leaving the position
 alone

---
 projects/oak-core/src/lexer/mod.rs         |  4 +-
 projects/oak-core/src/lexer/scan_string.rs |  2 +-
 projects/oak-core/src/source/cursor.rs     | 56 ++++++++++++++--------
 3 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index 0e17a44..567a42e 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -352,7 +352,7 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
     ///
     /// A string slice containing the remaining text
     pub fn rest(&mut self) -> &str {
-        self.cursor.rest()
+        self.cursor.rest_of_source()
     }
 
     /// Gets the remaining text as a byte slice.
@@ -360,7 +360,7 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
     /// Useful for byte-oriented scanning operations.
     #[inline]
     pub fn rest_bytes(&mut self) -> &[u8] {
-        self.cursor.rest().as_bytes()
+        self.cursor.rest_of_source().as_bytes()
     }
 
     /// Checks if the lexer has consumed all input from the source.
diff --git a/projects/oak-core/src/lexer/scan_string.rs b/projects/oak-core/src/lexer/scan_string.rs
index 11a8a01..c1f0d84 100644
--- a/projects/oak-core/src/lexer/scan_string.rs
+++ b/projects/oak-core/src/lexer/scan_string.rs
@@ -30,7 +30,7 @@ impl StringConfig {
 
             loop {
                 let (rest_len, found_info) = {
-                    let rest = state.rest();
+                    let rest = state.cursor.rest();
                     if rest.is_empty() {
                         (0, None)
                     }
diff --git a/projects/oak-core/src/source/cursor.rs b/projects/oak-core/src/source/cursor.rs
index 216b2aa..c4752f2 100644
--- a/projects/oak-core/src/source/cursor.rs
+++ b/projects/oak-core/src/source/cursor.rs
@@ -87,6 +87,26 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
         self.chunk.slice_from(self.offset)
     }
 
+    /// Returns the remaining text up to the end of the source.
+    ///
+    /// This copies the text if it spans several chunks; prefer `rest` where one chunk will do.
+    pub fn rest_of_source(&mut self) -> &str {
+        self.ensure_chunk();
+        let end = self.source.length();
+        let mut next = self.chunk.end();
+        if next >= end {
+            return self.chunk.slice_from(self.offset);
+        }
+        self.scratch.clear();
+        self.scratch.push_str(self.chunk.slice_from(self.offset));
+        while next < end {
+            let chunk = self.source.chunk_at(next);
+            self.scratch.push_str(chunk.text);
+            next = chunk.end()
+        }
+        &self.scratch
+    }
+
     /// Returns the end byte offset of the current chunk.
     pub fn chunk_end(&mut self) -> usize {
         self.ensure_chunk();
@@ -431,36 +451,30 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
             return Some(self.offset);
         }
 
-        let pat_len = pattern.len();
-        let mut offset = self.offset;
+        let start = self.offset;
+        let mut offset = start;
+        let mut found = None;
         let end = self.source.length();
         while offset < end {
             self.offset = offset;
             self.ensure_chunk();
             let text = self.chunk.slice_from(offset);
-            if let Some(pos) = text.find(pattern) {
-                return Some(offset + pos);
-            }
             let chunk_end = self.chunk.end();
-            if chunk_end >= end {
-                return None;
+            found = text.find(pattern).map(|pos| offset + pos);
+            if found.is_none() && chunk_end < end {
+                // The pattern may begin in this chunk and end in one of the following
+                let tail = text.len().saturating_sub(pattern.len() - 1);
+                found = (tail..text.len()).filter(|&pos| text.is_char_boundary(pos)).map(|pos| offset + pos).find(|&pos| {
+                    self.offset = pos;
+                    self.starts_with(pattern)
+                })
             }
-
-            if pat_len > 1 {
-                let keep = pat_len - 1;
-                self.scratch.clear();
-                let tail = text.get(text.len().saturating_sub(keep)..).unwrap_or("");
-                self.scratch.push_str(tail);
-                let tail_abs_start = chunk_end.saturating_sub(tail.len());
-                let next_chunk = self.source.chunk_at(chunk_end);
-                self.scratch.push_str(next_chunk.text);
-                if let Some(pos) = self.scratch.find(pattern) {
-                    return Some(tail_abs_start + pos);
-                }
+            if found.is_some() {
+                break;
             }
-
             offset = chunk_end
         }
-        None
+        self.offset = start;
+        found
     }
 }
-- 
2.43.0


From 35c8d397659c9edf1c71345a59901dfa3449150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 05/51] fix: LexerState::advance and advance_byte never stop
 inside a character

---
 projects/oak-core/src/lexer/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index 567a42e..9a83c10 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -409,9 +409,20 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
     }
 
     /// Advances the cursor by the specified number of bytes.
+    ///
+    /// A character is never split: if the new position is inside one, the cursor moves to its end.
     #[inline]
     pub fn advance(&mut self, len: usize) {
         self.cursor.advance_bytes(len);
+        self.align_to_char()
+    }
+
+    /// Moves the cursor to the end of the character it is inside of, if any.
+    #[inline]
+    fn align_to_char(&mut self) {
+        while self.cursor.peek_byte().is_some_and(|b| b & 0xC0 == 0x80) {
+            self.cursor.advance_bytes(1);
+        }
     }
 
     /// Gets the total length of the source text in bytes.
@@ -433,9 +444,13 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
     }
 
     /// Advances the cursor by one byte and returns it.
+    ///
+    /// If this is the first byte of a longer character, the whole character is skipped.
     #[inline]
     pub fn advance_byte(&mut self) -> Option<u8> {
-        self.cursor.advance_byte()
+        let byte = self.cursor.advance_byte();
+        self.align_to_char();
+        byte
     }
 
     /// Advances the cursor while the byte predicate is true.
-- 
2.43.0


From 3a62210b1e5370d861fc2cf0863806b92dc03b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 06/51] fix: incremental lexing returns neither stale tokens
 after the tail of the text was deleted nor a second end of stream

---
 projects/oak-core/src/lexer/mod.rs | 31 +++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index 9a83c10..4cdc0f0 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -289,14 +289,16 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
         let len = source.length();
         let relex_from = relex_from.min(len);
 
-        // Fast path: fully re-used
-        if relex_from >= len {
+        let count = cache.count_tokens();
+        let old_len = if count == 0 { None } else { cache.get_token(count - 1).map(|t| t.span.end) };
+
+        // Fast path: fully re-used. If the old tokens end elsewhere, the tail has been edited.
+        if relex_from >= len && old_len == Some(len) {
             let mut tokens = Vec::new();
             if let Some(cached) = cache.get_tokens() {
                 tokens.extend_from_slice(cached)
             }
             else {
-                let count = cache.count_tokens();
                 tokens.reserve(count);
                 for i in 0..count {
                     if let Some(t) = cache.get_token(i) {
@@ -304,8 +306,7 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
                     }
                 }
             }
-            let offset = tokens.last().map(|t| t.span.end).unwrap_or(0).min(len);
-            return Self { cursor: SourceCursor::new_at(source, offset), tokens, errors: vec![] };
+            return Self { cursor: SourceCursor::new_at(source, len), tokens, errors: vec![] };
         }
 
         if relex_from == 0 {
@@ -318,14 +319,10 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
         if let Some(cached) = cache.get_tokens() {
             // Binary search for the cut-off point since tokens are sorted by position
             let idx = cached.partition_point(|t| t.span.end <= relex_from);
-            let keep = idx.saturating_sub(BACKTRACK_TOKENS);
-            if keep > 0 {
-                reused_tokens.extend_from_slice(&cached[..keep])
-            }
+            reused_tokens.extend_from_slice(&cached[..idx])
         }
         else {
             // Fallback for caches that don't support slice access
-            let count = cache.count_tokens();
             for i in 0..count {
                 let Some(token) = cache.get_token(i)
                 else {
@@ -338,9 +335,13 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
                     break;
                 }
             }
-            let keep = reused_tokens.len().saturating_sub(BACKTRACK_TOKENS);
-            reused_tokens.truncate(keep);
         }
+        // The end of the old text is not a token of the new one
+        while reused_tokens.last().is_some_and(|t| L::TokenType::is_end_of_stream(&t.kind) && t.span.is_empty()) {
+            reused_tokens.pop();
+        }
+        let keep = reused_tokens.len().saturating_sub(BACKTRACK_TOKENS);
+        reused_tokens.truncate(keep);
 
         let stable_offset = reused_tokens.last().map(|t| t.span.end).unwrap_or(0);
         Self { cursor: SourceCursor::new_at(source, stable_offset), tokens: reused_tokens, errors: vec![] }
@@ -707,7 +708,11 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
     #[inline]
     pub fn add_eof(&mut self) {
         let end = self.get_position();
-        self.add_token(L::TokenType::END_OF_STREAM, end, end)
+        // Fully reused tokens include it already
+        let present = self.tokens.last().is_some_and(|t| L::TokenType::is_end_of_stream(&t.kind) && t.span.start == end);
+        if !present {
+            self.add_token(L::TokenType::END_OF_STREAM, end, end)
+        }
     }
 
     /// Gets the current character at the current position.
-- 
2.43.0


From 2b47313c2c3c505f31fa783d05ed0e6db907fa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 07/51] fix: the tree of a parser that stops early still holds
 the rest of the text

---
 projects/oak-core/src/parser/state.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 57dd806..299b15d 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -131,22 +131,23 @@ impl<'a, L: Language> TreeSink<'a, L> {
         self.children.truncate(checkpoint)
     }
 
-    /// Moves the leaves collected before `root` into it if the two together cover the whole text.
+    /// Moves what was collected before and after `root` into it if all of it together is the whole text.
     ///
     /// Leading trivia is collected before a parser takes its first checkpoint; left out of the
     /// tree, it would shift every position in it.
-    fn absorb_leading_leaves(&self, root: &'a GreenNode<'a, L>, source_len: usize) -> &'a GreenNode<'a, L> {
+    fn absorb_siblings(&self, root: &'a GreenNode<'a, L>, source_len: usize) -> &'a GreenNode<'a, L> {
         let index = self.children.iter().position(|child| child.as_node().is_some_and(|node| std::ptr::eq(node, root)));
-        let Some(leading) = index.and_then(|index| self.children.get(..index))
+        let Some((leading, [_, trailing @ ..])) = index.map(|index| self.children.split_at(index))
         else {
             return root;
         };
-        let leading_len: usize = leading.iter().map(|child| child.len() as usize).sum();
-        if leading.is_empty() || leading.iter().any(|child| child.is_node()) || leading_len + root.text_len() as usize != source_len {
+        let total_len: usize = self.children.iter().map(|child| child.len() as usize).sum();
+        if self.children.len() == 1 || total_len != source_len {
             return root;
         }
         let mut children = leading.to_vec();
         children.extend_from_slice(root.children);
+        children.extend_from_slice(trailing);
         self.arena.alloc(GreenNode::new(root.kind, self.arena.alloc_slice_copy(&children)))
     }
 
@@ -683,8 +684,13 @@ impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
     }
 
     /// Finishes the parsing process and returns the final output.
-    pub fn finish(self, result: Result<&'a GreenNode<'a, L>, OakError>) -> crate::parser::ParseOutput<'a, L> {
-        let result = result.map(|root| self.sink.absorb_leading_leaves(root, self.source.length()));
+    ///
+    /// Text before the root, and text left over after it, becomes part of the root.
+    pub fn finish(mut self, result: Result<&'a GreenNode<'a, L>, OakError>) -> crate::parser::ParseOutput<'a, L> {
+        while self.current().is_some_and(|token| !L::TokenType::is_end_of_stream(&token.kind)) {
+            self.bump()
+        }
+        let result = result.map(|root| self.sink.absorb_siblings(root, self.source.length()));
         crate::errors::OakDiagnostics { result, diagnostics: self.errors }
     }
 
-- 
2.43.0


From 79c8315dfa3aac54eeabcf9c8e1a3934710e4dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 08/51] fix: OakError::with_source_id attaches the source to an
 unexpected end of file too

---
 projects/oak-core/src/errors/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/oak-core/src/errors/mod.rs b/projects/oak-core/src/errors/mod.rs
index 355c0f6..fb39b94 100644
--- a/projects/oak-core/src/errors/mod.rs
+++ b/projects/oak-core/src/errors/mod.rs
@@ -485,6 +485,7 @@ impl OakError {
             OakErrorKind::SyntaxError { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::UnexpectedCharacter { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::UnexpectedToken { source_id: u, .. } => *u = Some(source_id),
+            OakErrorKind::UnexpectedEof { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::ExpectedToken { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::ExpectedName { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::TrailingCommaNotAllowed { source_id: u, .. } => *u = Some(source_id),
-- 
2.43.0


From 1fc22b58aad530969d49289b621df611135413b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:20 +0000
Subject: [PATCH 09/51] fix: a string slice as a source answers an offset
 inside a character like every other source instead of panicking

---
 projects/oak-core/src/source/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-core/src/source/mod.rs b/projects/oak-core/src/source/mod.rs
index b41a51c..3439f93 100644
--- a/projects/oak-core/src/source/mod.rs
+++ b/projects/oak-core/src/source/mod.rs
@@ -208,7 +208,7 @@ impl Source for str {
         if offset >= len {
             return TextChunk { start: len, text: "" };
         }
-        TextChunk { start: offset, text: &self[offset..] }
+        TextChunk { start: offset, text: self.get(offset..).unwrap_or("") }
     }
 
     fn get_text_in(&self, range: Range<usize>) -> Cow<'_, str> {
-- 
2.43.0


From 2e1dea289db079cfba28b32fbd4dd76423a35130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 10/51] fix: incremental lexing goes back far enough for a
 lexer that looks several tokens ahead

---
 projects/oak-core/src/lexer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index 4cdc0f0..47d8ece 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -314,7 +314,8 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
         }
 
         let mut reused_tokens = Vec::new();
-        const BACKTRACK_TOKENS: usize = 1;
+        // How far a lexer may look past the end of a token before it settles on the token
+        const BACKTRACK_TOKENS: usize = 4;
 
         if let Some(cached) = cache.get_tokens() {
             // Binary search for the cut-off point since tokens are sorted by position
-- 
2.43.0


From 4d47b0e90abb24d4653207677e5e43cb68415086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:16 +0000
Subject: [PATCH 11/51] fix: ParserState::advance_until keeps the tokens it
 passes over in the tree

---
 projects/oak-core/src/parser/state.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 299b15d..a5d2990 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -497,16 +497,20 @@ impl<'a, L: Language, S: Source + ?Sized> ParserState<'a, L, S> {
     }
 
     /// Advances until a token of the specified kind is found, or the end of the token stream is reached.
+    ///
+    /// The tokens on the way are added to the syntax tree.
     pub fn advance_until(&mut self, kind: L::TokenType) {
         while self.not_at_end() && !self.at(kind) {
-            self.advance()
+            self.bump()
         }
     }
 
     /// Advances until any token of the specified kinds is found, or the end of the token stream is reached.
+    ///
+    /// The tokens on the way are added to the syntax tree.
     pub fn advance_until_any(&mut self, kinds: &[L::TokenType]) {
         while self.not_at_end() && !kinds.iter().any(|&k| self.at(k)) {
-            self.advance()
+            self.bump()
         }
     }
 
-- 
2.43.0


From 2f858bc807ab61f0edd0b4b9c4e409ec547dac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:08 +0000
Subject: [PATCH 12/51] fix: a node pushed as a child again moves instead of
 being in the tree twice

---
 projects/oak-core/src/parser/state.rs | 30 +++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index a5d2990..42bc604 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -151,10 +151,40 @@ impl<'a, L: Language> TreeSink<'a, L> {
         self.arena.alloc(GreenNode::new(root.kind, self.arena.alloc_slice_copy(&children)))
     }
 
+    /// Drops repetitions of a node among the children from `checkpoint` on, and returns where they start.
+    ///
+    /// Every node is a child already when it has been finished. If it is then pushed as a child
+    /// once more, its text must not be in the tree twice: a node starting with it takes it over,
+    /// with whatever followed it.
+    fn merge_repeated(&mut self, checkpoint: usize) -> usize {
+        let mut start = checkpoint;
+        let before = self.children[..checkpoint].iter().rposition(|child| matches!(child, GreenTree::Node(_)));
+        if let (Some(index), Some(GreenTree::Node(first))) = (before, self.children.get(checkpoint)) {
+            if self.children[index].as_node().is_some_and(|node| std::ptr::eq(node, *first)) {
+                self.children.remove(checkpoint);
+                start = index
+            }
+        }
+        let mut last: Option<&'a GreenNode<'a, L>> = None;
+        let mut index = start;
+        while index < self.children.len() {
+            if let GreenTree::Node(node) = self.children[index] {
+                if last.is_some_and(|last| std::ptr::eq(last, node)) {
+                    self.children.remove(index);
+                    continue;
+                }
+                last = Some(node)
+            }
+            index += 1
+        }
+        start
+    }
+
     /// Finishes a node starting from the given checkpoint and adds it as a child.
     pub fn finish_node(&mut self, checkpoint: usize, kind: L::ElementType) -> &'a GreenNode<'a, L> {
         #[cfg(oak_verif)]
         crate::verif::tick();
+        let checkpoint = self.merge_repeated(checkpoint);
         let children_slice = self.arena.alloc_slice_copy(&self.children[checkpoint..]);
         self.children.truncate(checkpoint);
         let node = GreenNode::new(kind, children_slice);
-- 
2.43.0


From b60ac08245a290899b861db2fcb8ab8c945b7bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 13/51] fix: an arena frees a standard chunk that does not fit
 the pool instead of losing it

---
 projects/oak-core/src/memory/arena.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/projects/oak-core/src/memory/arena.rs b/projects/oak-core/src/memory/arena.rs
index cf47615..09b4ae2 100644
--- a/projects/oak-core/src/memory/arena.rs
+++ b/projects/oak-core/src/memory/arena.rs
@@ -325,18 +325,18 @@ impl SyntaxArena {
     unsafe fn recycle_chunk(ptr: NonNull<u8>, size: usize) {
         if size == CHUNK_SIZE {
             // Only pool standard-sized chunks to maintain predictability.
-            let _ = CHUNK_POOL.try_with(|pool| {
+            let pooled = CHUNK_POOL.try_with(|pool| {
                 let mut pool = pool.borrow_mut();
-                if pool.len() < 64 {
-                    // Hard limit to prevent memory bloating per thread.
+                // Hard limit to prevent memory bloating per thread.
+                let room = pool.len() < 64;
+                if room {
                     pool.push(ptr)
                 }
+                room
             });
-            // If try_with fails (e.g. during thread destruction), we just leak or dealloc?
-            // Since we can't access pool, we should dealloc.
-            // But try_with error usually means TLS is gone.
-            // We can check error kind. For simplicity, we just fallback to dealloc if pool is unreachable.
-            return;
+            if let Ok(true) = pooled {
+                return;
+            }
         }
         // If not pooled (either because it's a huge chunk or the pool is full/unreachable), deallocate immediately.
         let layout = Layout::from_size_align(size, ALIGN).unwrap();
-- 
2.43.0


From 542d04c8aa20a7930492087aac36d1eadc045b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:24 +0000
Subject: [PATCH 14/51] fix: incremental lexing keeps the diagnostics of the
 tokens it reuses

---
 projects/oak-core/src/lexer/mod.rs      | 21 ++++++++++++++++++---
 projects/oak-core/src/parser/session.rs |  4 ++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/projects/oak-core/src/lexer/mod.rs b/projects/oak-core/src/lexer/mod.rs
index 47d8ece..f7081f2 100644
--- a/projects/oak-core/src/lexer/mod.rs
+++ b/projects/oak-core/src/lexer/mod.rs
@@ -149,6 +149,11 @@ pub trait LexerCache<L: Language> {
     fn get_tokens(&self) -> Option<&[Token<L::TokenType>]> {
         None
     }
+
+    /// Gets the diagnostics reported with the cached tokens.
+    fn get_diagnostics(&self) -> &[OakError] {
+        &[]
+    }
 }
 
 impl<'a, L: Language, C: LexerCache<L> + ?Sized> LexerCache<L> for &'a mut C {
@@ -171,6 +176,10 @@ impl<'a, L: Language, C: LexerCache<L> + ?Sized> LexerCache<L> for &'a mut C {
     fn get_tokens(&self) -> Option<&[Token<L::TokenType>]> {
         (**self).get_tokens()
     }
+
+    fn get_diagnostics(&self) -> &[OakError] {
+        (**self).get_diagnostics()
+    }
 }
 
 /// Represents a single kind in the source code.
@@ -306,10 +315,11 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
                     }
                 }
             }
-            return Self { cursor: SourceCursor::new_at(source, len), tokens, errors: vec![] };
+            return Self { cursor: SourceCursor::new_at(source, len), tokens, errors: cache.get_diagnostics().to_vec() };
         }
 
-        if relex_from == 0 {
+        // A diagnostic without a position cannot be told to belong to the reused tokens
+        if relex_from == 0 || cache.get_diagnostics().iter().any(|e| e.offset().is_none()) {
             return Self { cursor: SourceCursor::new(source), tokens: vec![], errors: vec![] };
         }
 
@@ -343,9 +353,14 @@ impl<'s, S: Source + ?Sized, L: Language> LexerState<'s, S, L> {
         }
         let keep = reused_tokens.len().saturating_sub(BACKTRACK_TOKENS);
         reused_tokens.truncate(keep);
+        // A diagnostic between two tokens may be about either
+        while reused_tokens.last().is_some_and(|t| cache.get_diagnostics().iter().any(|e| e.offset() == Some(t.span.end))) {
+            reused_tokens.pop();
+        }
 
         let stable_offset = reused_tokens.last().map(|t| t.span.end).unwrap_or(0);
-        Self { cursor: SourceCursor::new_at(source, stable_offset), tokens: reused_tokens, errors: vec![] }
+        let errors = cache.get_diagnostics().iter().filter(|e| e.offset().is_some_and(|offset| offset < stable_offset)).cloned().collect();
+        Self { cursor: SourceCursor::new_at(source, stable_offset), tokens: reused_tokens, errors }
     }
 
     /// Gets the remaining text from the current position to the end of the source.
diff --git a/projects/oak-core/src/parser/session.rs b/projects/oak-core/src/parser/session.rs
index 0852b15..bc97db3 100644
--- a/projects/oak-core/src/parser/session.rs
+++ b/projects/oak-core/src/parser/session.rs
@@ -143,6 +143,10 @@ impl<L: Language + Send + Sync> LexerCache<L> for ParseSession<L> {
     fn get_tokens(&self) -> Option<&[Token<L::TokenType>]> {
         self.last_lex.as_ref()?.result.as_ref().ok().map(|tokens| &**tokens)
     }
+
+    fn get_diagnostics(&self) -> &[OakError] {
+        self.last_lex.as_ref().map(|out| &out.diagnostics[..]).unwrap_or(&[])
+    }
 }
 
 impl<'a, L: Language, C: ParseCache<L> + ?Sized> ParseCache<L> for &'a mut C {
-- 
2.43.0


From 8de95f3768e6659e615043d0c7ca2583a1af654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:07 +0000
Subject: [PATCH 15/51] fix: MemoryVfs reports modification times in seconds,
 as FileMetadata documents

---
 projects/oak-vfs/src/vfs/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-vfs/src/vfs/memory.rs b/projects/oak-vfs/src/vfs/memory.rs
index 1f0e825..00af363 100644
--- a/projects/oak-vfs/src/vfs/memory.rs
+++ b/projects/oak-vfs/src/vfs/memory.rs
@@ -80,7 +80,7 @@ impl MemoryVfs {
         // Here we use a simple timestamp or 0 if not available
         #[cfg(not(target_arch = "wasm32"))]
         {
-            std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap_or_default().as_millis() as u64
+            std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap_or_default().as_secs()
         }
         #[cfg(target_arch = "wasm32")]
         {
-- 
2.43.0


From 745f5a75d31c9a29180a22cb5ec493d0828022bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 16/51] fix: DiskVfs assigns source ids, so get_id and get_uri
 answer for the files it has read

---
 projects/oak-vfs/src/vfs/disk.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/projects/oak-vfs/src/vfs/disk.rs b/projects/oak-vfs/src/vfs/disk.rs
index f909c15..21cdc24 100644
--- a/projects/oak-vfs/src/vfs/disk.rs
+++ b/projects/oak-vfs/src/vfs/disk.rs
@@ -27,6 +27,19 @@ impl DiskVfs {
         if path.is_absolute() { Some(path) } else { Some(self.root_path.join(path)) }
     }
 
+    /// Returns the source ID of the given URI, assigning one the first time.
+    fn intern(&self, uri: &str) -> SourceId {
+        let mut uri_to_id = self.uri_to_id.write().unwrap();
+        if let Some(id) = uri_to_id.get(uri) {
+            return *id;
+        }
+        let uri: Arc<str> = Arc::from(uri);
+        let id = uri_to_id.len() as SourceId;
+        uri_to_id.insert(uri.clone(), id);
+        self.id_to_uri.write().unwrap().insert(id, uri);
+        id
+    }
+
     /// Converts a physical file path to a URI.
     fn path_to_uri(&self, path: PathBuf) -> Arc<str> {
         let uri = if path.is_absolute() { path.to_string_lossy().to_string() } else { path.strip_prefix(&self.root_path).unwrap_or(&path).to_string_lossy().to_string() };
@@ -41,7 +54,7 @@ impl Vfs for DiskVfs {
     fn get_source(&self, uri: &str) -> Option<Self::Source> {
         let path = self.uri_to_path(uri)?;
         let content = fs::read_to_string(path).ok()?;
-        Some(SourceText::new(&*content))
+        Some(SourceText::new_with_id(&*content, self.intern(uri)))
     }
 
     /// Returns the URI for a given source ID.
-- 
2.43.0


From 6b375301cc87df6e7ccec9e6987cec46c43aff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 17/51] fix: DiskWatcher::unwatch_all stops watching instead of
 doing nothing

---
 projects/oak-vfs/src/vfs/watch.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/projects/oak-vfs/src/vfs/watch.rs b/projects/oak-vfs/src/vfs/watch.rs
index 7d6f732..0fa12db 100644
--- a/projects/oak-vfs/src/vfs/watch.rs
+++ b/projects/oak-vfs/src/vfs/watch.rs
@@ -24,6 +24,7 @@ pub trait VfsWatcher {
 /// A watcher implementation that watches files on disk.
 pub struct DiskWatcher {
     watcher: notify::RecommendedWatcher,
+    watched: Vec<PathBuf>,
 }
 
 impl DiskWatcher {
@@ -48,20 +49,32 @@ impl DiskWatcher {
                 }
             }
         })?;
-        Ok(Self { watcher })
+        Ok(Self { watcher, watched: Vec::new() })
     }
 }
 
 impl VfsWatcher for DiskWatcher {
     fn watch(&mut self, uri: &str) -> Result<()> {
-        self.watcher.watch(PathBuf::from(uri).as_path(), RecursiveMode::Recursive)
+        let path = PathBuf::from(uri);
+        self.watcher.watch(&path, RecursiveMode::Recursive)?;
+        if !self.watched.contains(&path) {
+            self.watched.push(path)
+        }
+        Ok(())
     }
 
     fn unwatch(&mut self, uri: &str) -> Result<()> {
-        self.watcher.unwatch(PathBuf::from(uri).as_path())
+        let path = PathBuf::from(uri);
+        self.watched.retain(|p| *p != path);
+        self.watcher.unwatch(&path)
     }
 
     fn unwatch_all(&mut self) -> Result<()> {
-        Ok(())
+        let mut result = Ok(());
+        for path in std::mem::take(&mut self.watched) {
+            let unwatched = self.watcher.unwatch(&path);
+            result = result.and(unwatched)
+        }
+        result
     }
 }
-- 
2.43.0


From 9604f0971d453d74aedb8286d61e8e851d28f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 18/51] fix: diagnostic emitters show a label on an empty last
 line instead of dropping its line and message

---
 projects/oak-diagnostic/src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index b1dcc49..7379506 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -208,7 +208,7 @@ impl Emitter for ConsoleEmitter {
         let mut out = String::new();
         let line_map = LineMap::from_source(source);
         let full_text = source.get_text_in(core::range::Range { start: 0, end: source.length() }).into_owned();
-        let lines: Vec<&str> = full_text.lines().collect();
+        let lines = lines_of(&full_text);
 
         // 1. Header: [code] severity: message or [severity]: message
         let sev_name = match diagnostic.severity {
@@ -245,6 +245,15 @@ impl Emitter for ConsoleEmitter {
     }
 }
 
+/// Splits a text into lines as a [`LineMap`] counts them: what follows the last line break is a line even if it is empty.
+fn lines_of(text: &str) -> Vec<&str> {
+    let mut lines: Vec<&str> = text.lines().collect();
+    if text.is_empty() || text.ends_with('\n') {
+        lines.push("")
+    }
+    lines
+}
+
 struct Characters {
     vbar: &'static str,
     hbar: &'static str,
@@ -353,7 +362,7 @@ impl Emitter for PlainTextEmitter {
         let mut out = String::new();
         let line_map = LineMap::from_source(source);
         let full_text = source.get_text_in(core::range::Range { start: 0, end: source.length() }).into_owned();
-        let lines: Vec<&str> = full_text.lines().collect();
+        let lines = lines_of(&full_text);
 
         // 1. Header: [code] severity: message or [severity]: message
         let sev_name = match diagnostic.severity {
@@ -460,7 +469,7 @@ impl Emitter for HtmlEmitter {
         let mut out = String::new();
         let line_map = LineMap::from_source(source);
         let full_text = source.get_text_in(core::range::Range { start: 0, end: source.length() }).into_owned();
-        let lines: Vec<&str> = full_text.lines().collect();
+        let lines = lines_of(&full_text);
         let sev_class = match diagnostic.severity {
             Severity::Error => "error",
             Severity::Warning => "warning",
-- 
2.43.0


From 8149634a42959974ce06934a5c626d64f4fa5307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 19/51] fix: HtmlEmitter escapes the diagnostic code

---
 projects/oak-diagnostic/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index 7379506..1781291 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -481,7 +481,7 @@ impl Emitter for HtmlEmitter {
         out.push_str("<div class=\"diagnostic\">\n");
         out.push_str(&format!("  <div class=\"header {}\">\n", sev_class));
         if let Some(code) = &diagnostic.code {
-            out.push_str(&format!("    <span class=\"code\">[{}]</span> <span class=\"message\">{}</span>\n", code, html_escape(&message)));
+            out.push_str(&format!("    <span class=\"code\">[{}]</span> <span class=\"message\">{}</span>\n", html_escape(code), html_escape(&message)));
         }
         else {
             out.push_str(&format!("    <span class=\"severity\">[{}]</span> <span class=\"message\">{}</span>\n", sev_class, html_escape(&message)));
-- 
2.43.0


From 95c393efa3547ec039042f9bd0e7c9ffa4c307fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 20/51] fix: the label of an OakError's diagnostic covers a
 whole character

---
 projects/oak-diagnostic/src/lib.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index 1781291..a5cb9bf 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -126,6 +126,13 @@ pub trait OakDiagnosticsProvider<L: oak_core::Language> {
     }
 }
 
+/// The range of the character at the given offset, empty at the end of the source.
+fn char_span<S: Source + ?Sized>(source: &S, offset: usize) -> core::range::Range<usize> {
+    let start = offset.min(source.length());
+    let end = start + source.get_char_at(start).map_or(0, char::len_utf8);
+    core::range::Range { start, end }
+}
+
 impl DiagnosticProvider for OakError {
     fn to_diagnostic<S: Source + ?Sized>(&self, source: &S) -> Diagnostic {
         let kind = self.kind();
@@ -137,29 +144,19 @@ impl DiagnosticProvider for OakError {
         match kind {
             OakErrorKind::IoError { .. } => {}
             OakErrorKind::SyntaxError { offset, .. } | OakErrorKind::UnexpectedCharacter { offset, .. } => {
-                let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
-                diag = diag.with_label(core::range::Range { start, end }, "here");
+                diag = diag.with_label(char_span(source, *offset), "here");
             }
             OakErrorKind::UnexpectedToken { token, offset, .. } => {
-                let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
-                diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("token", token.clone());
+                diag = diag.with_label(char_span(source, *offset), "here").with_arg("token", token.clone());
             }
             OakErrorKind::ExpectedToken { expected, offset, .. } => {
-                let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
-                diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("expected", expected.clone());
+                diag = diag.with_label(char_span(source, *offset), "here").with_arg("expected", expected.clone());
             }
             OakErrorKind::ExpectedName { name_kind, offset, .. } => {
-                let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
-                diag = diag.with_label(core::range::Range { start, end }, "here").with_arg("name_kind", name_kind.clone());
+                diag = diag.with_label(char_span(source, *offset), "here").with_arg("name_kind", name_kind.clone());
             }
             OakErrorKind::TrailingCommaNotAllowed { offset, .. } => {
-                let start = (*offset).min(source.length());
-                let end = (start + 1).min(source.length());
-                diag = diag.with_label(core::range::Range { start, end }, "here");
+                diag = diag.with_label(char_span(source, *offset), "here");
             }
             _ => {}
         }
-- 
2.43.0


From 05e6b38f75e4057285e11629be71aa9267fdcd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 21/51] fix: the diagnostic of an unexpected end of file has a
 label

---
 projects/oak-diagnostic/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-diagnostic/src/lib.rs b/projects/oak-diagnostic/src/lib.rs
index a5cb9bf..7f5b9f7 100644
--- a/projects/oak-diagnostic/src/lib.rs
+++ b/projects/oak-diagnostic/src/lib.rs
@@ -143,7 +143,7 @@ impl DiagnosticProvider for OakError {
 
         match kind {
             OakErrorKind::IoError { .. } => {}
-            OakErrorKind::SyntaxError { offset, .. } | OakErrorKind::UnexpectedCharacter { offset, .. } => {
+            OakErrorKind::SyntaxError { offset, .. } | OakErrorKind::UnexpectedCharacter { offset, .. } | OakErrorKind::UnexpectedEof { offset, .. } => {
                 diag = diag.with_label(char_span(source, *offset), "here");
             }
             OakErrorKind::UnexpectedToken { token, offset, .. } => {
-- 
2.43.0


From 091f5ad9f210b4e2e4e2a6ecb75767bca368f199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 22/51] fix: a node at the end of the text is not reused, it
 may have taken the end of the stream too

---
 projects/oak-core/src/parser/state.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/projects/oak-core/src/parser/state.rs b/projects/oak-core/src/parser/state.rs
index 42bc604..ed4ab31 100644
--- a/projects/oak-core/src/parser/state.rs
+++ b/projects/oak-core/src/parser/state.rs
@@ -284,11 +284,8 @@ impl<'a, L: Language> IncrementalContext<'a, L> {
                 index += 1
             }
             if !old.step() {
-                // The old text ends here, and so must the new one
-                if tokens.peek_at(index).is_some_and(|token| !L::TokenType::is_end_of_stream(&token.kind)) {
-                    return None;
-                }
-                break;
+                // The old text ends here, and the tree does not tell whether the node took the end of the stream too
+                return None;
             }
         }
         let reported = self.diagnostics.iter().any(|&offset| start <= offset && offset <= end);
-- 
2.43.0


From c0c5cc2c950f91ed0556dfd00151d3f048bb6e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 23/51] fix: GlobalSymbolTable keeps the symbols of every file,
 whatever other files define or update

---
 projects/oak-resolver/src/lib.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/projects/oak-resolver/src/lib.rs b/projects/oak-resolver/src/lib.rs
index c811aba..61dcc9d 100644
--- a/projects/oak-resolver/src/lib.rs
+++ b/projects/oak-resolver/src/lib.rs
@@ -68,8 +68,8 @@ impl ModuleResolver for StandardResolver {
 pub struct GlobalSymbolTable {
     /// Map of URI to symbols defined in that file.
     file_symbols: DashMap<String, Vec<SymbolInformation>>,
-    /// Map of fully qualified name to symbol information.
-    qualified_symbols: DashMap<String, SymbolInformation>,
+    /// Map of fully qualified name to the symbols of that name, each with the URI of the file that defines it.
+    qualified_symbols: DashMap<String, Vec<(String, SymbolInformation)>>,
 }
 
 impl GlobalSymbolTable {
@@ -80,20 +80,24 @@ impl GlobalSymbolTable {
 
     /// Add or update symbols for a file.
     pub fn update_file_symbols(&self, uri: String, symbols: Vec<SymbolInformation>) {
-        // Remove old qualified symbols for this file
-        if let Some((_, old_symbols)) = self.file_symbols.remove(&uri) {
-            for sym in old_symbols {
-                let fqn = self.make_qualified_name(&sym);
-                self.qualified_symbols.remove(&fqn);
+        // The entry stays locked until the end, so that updates of the same file follow each other
+        let mut entry = self.file_symbols.entry(uri.clone()).or_default();
+
+        // Remove old qualified symbols for this file, and only those
+        for sym in entry.iter() {
+            let fqn = self.make_qualified_name(sym);
+            if let Some(mut same_name) = self.qualified_symbols.get_mut(&fqn) {
+                same_name.retain(|(file, _)| *file != uri);
             }
+            self.qualified_symbols.remove_if(&fqn, |_, same_name| same_name.is_empty());
         }
 
         // Add new symbols
         for sym in &symbols {
             let fqn = self.make_qualified_name(sym);
-            self.qualified_symbols.insert(fqn, sym.clone());
+            self.qualified_symbols.entry(fqn).or_default().push((uri.clone(), sym.clone()));
         }
-        self.file_symbols.insert(uri, symbols);
+        *entry = symbols;
     }
 
     fn make_qualified_name(&self, sym: &SymbolInformation) -> String {
@@ -104,8 +108,9 @@ impl GlobalSymbolTable {
     }
 
     /// Lookup a symbol by its fully qualified name.
+    /// If several files define it, the one added last is returned.
     pub fn lookup(&self, fqn: &str) -> Option<SymbolInformation> {
-        self.qualified_symbols.get(fqn).map(|r| r.value().clone())
+        self.qualified_symbols.get(fqn).and_then(|r| r.value().last().map(|(_, sym)| sym.clone()))
     }
 
     /// Get all symbols defined in a specific file.
@@ -115,7 +120,7 @@ impl GlobalSymbolTable {
 
     /// Find all symbols matching a query (for workspace/symbol).
     pub fn query(&self, query: &str) -> Vec<SymbolInformation> {
-        self.qualified_symbols.iter().filter(|r| r.key().contains(query)).map(|r| r.value().clone()).collect()
+        self.qualified_symbols.iter().filter(|r| r.key().contains(query)).flat_map(|r| r.value().iter().map(|(_, sym)| sym.clone()).collect::<Vec<_>>()).collect()
     }
 }
 
-- 
2.43.0


From cd1415a84cfa1a0f28d4a14f4a7a981515d5f81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 24/51] fix: LanguageService::document_symbols falls back to
 the tree for a file that is not in the index

---
 projects/oak-lsp/src/service.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/projects/oak-lsp/src/service.rs b/projects/oak-lsp/src/service.rs
index f4adc11..31fcaf4 100644
--- a/projects/oak-lsp/src/service.rs
+++ b/projects/oak-lsp/src/service.rs
@@ -6,6 +6,7 @@ use oak_core::{
     tree::RedNode,
 };
 use oak_resolver::ModuleResolver;
+use oak_symbols::{SymbolProvider, UniversalSymbolProvider};
 use oak_vfs::{Vfs, WritableVfs};
 use std::future::Future;
 
@@ -100,19 +101,17 @@ pub trait LanguageService: Send + Sync {
     fn document_symbols<'a>(&'a self, uri: &'a str) -> impl Future<Output = Vec<StructureItem>> + Send + 'a {
         let uri = uri.to_string();
         async move {
-            let _source = match self.get_source(&uri) {
+            let source = match self.get_source(&uri) {
                 Some(s) => s,
                 None => return vec![],
             };
-            let _root = match self.get_root(&uri).await {
+            let root = match self.get_root(&uri).await {
                 Some(r) => r,
                 None => return vec![],
             };
             let symbols = self.workspace().symbols.query_file(&uri);
-            if !symbols.is_empty() {
-                return symbols.into_iter().map(StructureItem::from).collect();
-            }
-            vec![]
+            let symbols = if symbols.is_empty() { UniversalSymbolProvider.document_symbols(&uri, &root, &source) } else { symbols };
+            symbols.into_iter().map(StructureItem::from).collect()
         }
     }
 
-- 
2.43.0


From 11031026f7abbeb15637ab4b53ed2536f090d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 25/51] fix: the MCP server answers malformed messages with an
 error instead of silence

---
 projects/oak-mcp/src/lib.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/projects/oak-mcp/src/lib.rs b/projects/oak-mcp/src/lib.rs
index d185f11..fcdcf13 100644
--- a/projects/oak-mcp/src/lib.rs
+++ b/projects/oak-mcp/src/lib.rs
@@ -51,6 +51,11 @@ pub struct JsonRpcResponse {
 }
 
 impl JsonRpcResponse {
+    /// Creates a response that reports an error.
+    fn failure(id: JsonValue, code: i32, message: String) -> Self {
+        Self { jsonrpc: "2.0".to_string(), id, result: None, error: Some(JsonRpcError { code, message, data: None }) }
+    }
+
     /// Serializes the response to a JSON string.
     pub fn to_json(&self) -> String {
         serde_json::to_string(self).unwrap_or_else(|_| "{}".to_string())
@@ -129,16 +134,31 @@ where
                 continue;
             }
 
-            if let Ok(request) = JsonRpcRequest::from_json(input) {
-                let response = self.handle_request(request).await;
+            let response = match serde_json::from_str::<JsonValue>(input) {
+                Err(e) => Some(JsonRpcResponse::failure(JsonValue::Null, -32700, format!("Parse error: {}", e))),
+                Ok(message) => {
+                    if let Ok(request) = JsonRpcRequest::from_json(input) {
+                        Some(self.handle_request(request).await)
+                    }
+                    else if message.get("id").is_some() {
+                        Some(JsonRpcResponse::failure(message["id"].clone(), -32600, "Invalid request".to_string()))
+                    }
+                    else if let Ok(notification) = JsonRpcNotification::from_json(input) {
+                        self.handle_notification(notification).await;
+                        None
+                    }
+                    else {
+                        Some(JsonRpcResponse::failure(JsonValue::Null, -32600, "Invalid request".to_string()))
+                    }
+                }
+            };
+
+            if let Some(response) = response {
                 let response_json = response.to_json();
                 writer.write_all(response_json.as_bytes()).await.map_err(|e| e.to_string())?;
                 writer.write_all(b"\n").await.map_err(|e| e.to_string())?;
                 writer.flush().await.map_err(|e| e.to_string())?;
             }
-            else if let Ok(notification) = JsonRpcNotification::from_json(input) {
-                self.handle_notification(notification).await
-            }
 
             line.clear()
         }
-- 
2.43.0


From 490df408139291e1a073b906c5077ccbccf9f41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 26/51] fix: the MCP server handles every tool it lists
 (set_file_content, search)

---
 projects/oak-mcp/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/projects/oak-mcp/src/lib.rs b/projects/oak-mcp/src/lib.rs
index fcdcf13..d947ce3 100644
--- a/projects/oak-mcp/src/lib.rs
+++ b/projects/oak-mcp/src/lib.rs
@@ -8,6 +8,7 @@
 
 use oak_core::Range;
 use oak_lsp::service::LanguageService;
+use oak_vfs::WritableVfs;
 use serde::{Deserialize, Serialize};
 use serde_json::{Value as JsonValue, json};
 use std::sync::Arc;
@@ -235,7 +236,8 @@ where
     /// Currently supports:
     /// - `hover`: Get hover information for a position.
     /// - `definitions`: Get definitions for a symbol at a position.
-    /// - `search`: Perform semantic search (if searcher is available).
+    /// - `set_file_content`: Update or create a file.
+    /// - `search`, `semantic_search`: Perform semantic search (if searcher is available).
     pub async fn handle_tool_call(&self, name: &str, args: JsonValue) -> Result<JsonValue, String> {
         match name {
             "hover" => {
@@ -277,7 +279,14 @@ where
                 let _items = self.service.completion(uri, offset).await;
                 Ok(json!([]))
             }
-            "semantic_search" => {
+            "set_file_content" => {
+                let uri = args.get("uri").and_then(|v| v.as_str()).ok_or("Missing uri")?;
+                let content = args.get("content").and_then(|v| v.as_str()).ok_or("Missing content")?;
+
+                self.service.vfs().write_file(uri, content.into());
+                Ok(json!(null))
+            }
+            "search" | "semantic_search" => {
                 let searcher = self.searcher.as_ref().ok_or("Semantic search is not enabled")?;
                 let query = args.get("query").and_then(|v| v.as_str()).ok_or("Missing query")?;
                 let limit = args.get("limit").and_then(|v| v.as_u64()).unwrap_or(5) as usize;
-- 
2.43.0


From 5cd82bbe7ac9a7e55f230f5d6c3aa876b4545f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 27/51] fix: the MCP tools return what the language service
 answers instead of an empty list

---
 projects/oak-mcp/src/lib.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/projects/oak-mcp/src/lib.rs b/projects/oak-mcp/src/lib.rs
index d947ce3..b19d3cd 100644
--- a/projects/oak-mcp/src/lib.rs
+++ b/projects/oak-mcp/src/lib.rs
@@ -249,35 +249,33 @@ where
             }
             "symbols" => {
                 let uri = args.get("uri").and_then(|v| v.as_str()).ok_or("Missing uri")?;
-                let _symbols = self.service.document_symbols(uri).await;
-                // symbols is Vec<DocumentSymbol>, need proper conversion.
-                // For now just returning empty array as placeholder if conversion is complex
-                Ok(json!([]))
+                let symbols = self.service.document_symbols(uri).await;
+                Ok(json!(symbols))
             }
             "definition" => {
                 let uri = args.get("uri").and_then(|v| v.as_str()).ok_or("Missing uri")?;
                 let offset = args.get("offset").and_then(|v| v.as_u64()).ok_or("Missing offset")? as usize;
 
-                let _locs = self.service.definition(uri, Range { start: offset, end: offset }).await;
-                Ok(json!([]))
+                let locs = self.service.definition(uri, Range { start: offset, end: offset }).await;
+                Ok(json!(locs))
             }
             "references" => {
                 let uri = args.get("uri").and_then(|v| v.as_str()).ok_or("Missing uri")?;
                 let offset = args.get("offset").and_then(|v| v.as_u64()).ok_or("Missing offset")? as usize;
 
-                let _locs = self.service.references(uri, Range { start: offset, end: offset }).await;
-                Ok(json!([]))
+                let locs = self.service.references(uri, Range { start: offset, end: offset }).await;
+                Ok(json!(locs))
             }
             "diagnostics" => {
                 let uri = args.get("uri").and_then(|v| v.as_str()).ok_or("Missing uri")?;
-                let _diagnostics = self.service.diagnostics(uri).await;
-                Ok(json!([]))
+                let diagnostics = self.service.diagnostics(uri).await;
+                Ok(json!(diagnostics))
             }
             "completion" => {
                 let uri = args.get("uri").and_then(|v| v.as_str()).ok_or("Missing uri")?;
                 let offset = args.get("offset").and_then(|v| v.as_u64()).ok_or("Missing offset")? as usize;
-                let _items = self.service.completion(uri, offset).await;
-                Ok(json!([]))
+                let items = self.service.completion(uri, offset).await;
+                Ok(json!(items))
             }
             "set_file_content" => {
                 let uri = args.get("uri").and_then(|v| v.as_str()).ok_or("Missing uri")?;
-- 
2.43.0


From 352e23e7c62c699b5c6678298c210eed40131562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 28/51] fix: LanguageService::definition finds references
 nested in other nodes

---
 projects/oak-lsp/src/service.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/projects/oak-lsp/src/service.rs b/projects/oak-lsp/src/service.rs
index 31fcaf4..c9a9430 100644
--- a/projects/oak-lsp/src/service.rs
+++ b/projects/oak-lsp/src/service.rs
@@ -167,12 +167,20 @@ pub trait LanguageService: Send + Sync {
 
             // 1. Identify token at range
             use oak_core::tree::RedTree;
-            let node = match root.child_at_offset(range.start) {
+            let mut node = match root.child_at_offset(range.start) {
                 Some(RedTree::Node(n)) => n,
                 Some(RedTree::Leaf(l)) => return vec![LocationRange { uri: uri.clone().into(), range: l.span }],
                 None => root,
             };
 
+            // A reference may be nested in other nodes
+            while node.green.kind.role().universal() != oak_core::language::UniversalElementRole::Reference {
+                match node.child_at_offset(range.start) {
+                    Some(RedTree::Node(n)) => node = n,
+                    _ => break,
+                }
+            }
+
             // 2. If it's a reference, try to resolve it
             let role = node.green.kind.role();
             if role.universal() == oak_core::language::UniversalElementRole::Reference {
-- 
2.43.0


From 701ab9ee2f3707bd347c0ec26b27d5266706c08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 29/51] fix: the pretty printer measures lines in characters
 and restarts at line breaks inside of texts

---
 .../oak-pretty-print/src/document/printer.rs   | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/projects/oak-pretty-print/src/document/printer.rs b/projects/oak-pretty-print/src/document/printer.rs
index 8847c13..16bc43c 100644
--- a/projects/oak-pretty-print/src/document/printer.rs
+++ b/projects/oak-pretty-print/src/document/printer.rs
@@ -36,7 +36,10 @@ impl Printer {
             Document::Nil => {}
             Document::Text(s) => {
                 self.output.push_str(s);
-                self.column += s.len()
+                match s.rfind('\n') {
+                    Some(at) => self.column = s[at + 1..].chars().count(),
+                    None => self.column += s.chars().count(),
+                }
             }
             Document::Concat(docs) => {
                 for d in docs {
@@ -112,8 +115,17 @@ impl Printer {
         match doc {
             Document::Nil => false,
             Document::Text(s) => {
-                *width += s.len();
-                *width > self.config.max_width
+                // Only the last line of the text continues
+                for (i, line) in s.split('\n').enumerate() {
+                    if i > 0 {
+                        *width = 0
+                    }
+                    *width += line.chars().count();
+                    if *width > self.config.max_width {
+                        return true;
+                    }
+                }
+                false
             }
             Document::Concat(docs) => {
                 for d in docs {
-- 
2.43.0


From 12faa4a610219fe3a4d55b4e2e6f94f02b0b76b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 30/51] fix: the HTML exporter of the highlighter escapes
 colors

---
 projects/oak-highlight/src/exporters/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/oak-highlight/src/exporters/mod.rs b/projects/oak-highlight/src/exporters/mod.rs
index 57b1f9d..64e5653 100644
--- a/projects/oak-highlight/src/exporters/mod.rs
+++ b/projects/oak-highlight/src/exporters/mod.rs
@@ -96,11 +96,11 @@ impl HtmlExporter {
         let mut style_attrs = Vec::new();
 
         if let Some(color) = &segment.style.color {
-            style_attrs.push(format!("color: {}", color))
+            style_attrs.push(format!("color: {}", html_escape(color)))
         }
 
         if let Some(bg_color) = &segment.style.background_color {
-            style_attrs.push(format!("background-color: {}", bg_color))
+            style_attrs.push(format!("background-color: {}", html_escape(bg_color)))
         }
 
         if segment.style.bold {
-- 
2.43.0


From e68d735ee4771294547778d7123e6811629f1c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 31/51] fix: LineBuffer edits characters, not bytes

---
 projects/oak-repl/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/projects/oak-repl/src/lib.rs b/projects/oak-repl/src/lib.rs
index e1004e0..4d86ba1 100644
--- a/projects/oak-repl/src/lib.rs
+++ b/projects/oak-repl/src/lib.rs
@@ -104,9 +104,16 @@ impl LineBuffer {
         Self { lines: vec![String::new()], current_line: 0, cursor_pos: 0 }
     }
 
+    /// The byte offset of the cursor in the current line (the cursor position counts characters).
+    fn cursor_offset(&self) -> usize {
+        let line = &self.lines[self.current_line];
+        line.char_indices().nth(self.cursor_pos).map_or(line.len(), |(offset, _)| offset)
+    }
+
     /// Insert a character at the current cursor position.
     pub fn insert(&mut self, ch: char) {
-        self.lines[self.current_line].insert(self.cursor_pos, ch);
+        let offset = self.cursor_offset();
+        self.lines[self.current_line].insert(offset, ch);
         self.cursor_pos += 1;
     }
 
@@ -114,7 +121,8 @@ impl LineBuffer {
     pub fn backspace(&mut self) -> bool {
         if self.cursor_pos > 0 {
             self.cursor_pos -= 1;
-            self.lines[self.current_line].remove(self.cursor_pos);
+            let offset = self.cursor_offset();
+            self.lines[self.current_line].remove(offset);
             true
         }
         else if self.current_line > 0 {
-- 
2.43.0


From 1527ed7d3f5c8961e3af45a5f1be57d7d4b137ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:13 +0000
Subject: [PATCH 32/51] fix: the REPL shows the first prompt again when the
 input is back to one line

---
 projects/oak-repl/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/oak-repl/src/lib.rs b/projects/oak-repl/src/lib.rs
index 4d86ba1..f35c1bb 100644
--- a/projects/oak-repl/src/lib.rs
+++ b/projects/oak-repl/src/lib.rs
@@ -245,6 +245,7 @@ impl<H: ReplHandler> OakRepl<H> {
                     }
                     KeyCode::Backspace => {
                         line_buf.backspace();
+                        is_continuation = line_buf.current_line > 0;
                     }
                     KeyCode::Left => {
                         if line_buf.cursor_pos > 0 {
-- 
2.43.0


From d53afb10ed6c7ec8b5a9af66d2124e6d2450b30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 33/51] fix: the SVG renderer escapes text and attributes and
 writes one class attribute

---
 projects/oak-visualize/src/render/mod.rs | 46 +++++++++++++++---------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/projects/oak-visualize/src/render/mod.rs b/projects/oak-visualize/src/render/mod.rs
index e704a16..2031cb4 100644
--- a/projects/oak-visualize/src/render/mod.rs
+++ b/projects/oak-visualize/src/render/mod.rs
@@ -106,6 +106,11 @@ impl ElementStyle {
     }
 }
 
+/// Escapes text for use in SVG content and attribute values
+fn escape(text: &str) -> String {
+    text.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
+}
+
 /// SVG renderer for layouts
 pub struct SvgRenderer {
     config: RenderConfig,
@@ -148,7 +153,7 @@ impl SvgRenderer {
         svg.push('\n');
 
         // Background
-        svg.push_str(&format!(r#"  <rect width="100%" height="100%" fill="{}"/>"#, self.config.background_color));
+        svg.push_str(&format!(r#"  <rect width="100%" height="100%" fill="{}"/>"#, escape(&self.config.background_color)));
         svg.push('\n');
 
         // Define styles
@@ -173,7 +178,7 @@ impl SvgRenderer {
                 self.config.arrow_size,
                 self.config.arrow_size,
                 self.config.arrow_size,
-                self.config.edge_color
+                escape(&self.config.edge_color)
             ));
             svg.push('\n')
         }
@@ -209,18 +214,20 @@ impl SvgRenderer {
         let stroke_width = style.and_then(|s| s.stroke_width).unwrap_or(self.config.node_stroke_width);
 
         // Node rectangle
-        svg.push_str(&format!(r#"    <rect x="{}" y="{}" width="{}" height="{}" fill="{}" stroke="{}" stroke-width="{}" class="node""#, rect.origin.x, rect.origin.y, rect.size.width, rect.size.height, fill_color, stroke_color, stroke_width));
+        svg.push_str(&format!(r#"    <rect x="{}" y="{}" width="{}" height="{}" fill="{}" stroke="{}" stroke-width="{}""#, rect.origin.x, rect.origin.y, rect.size.width, rect.size.height, escape(fill_color), escape(stroke_color), stroke_width));
+
+        match style.and_then(|s| s.class_name.as_ref()) {
+            Some(class) => svg.push_str(&format!(r#" class="node {}""#, escape(class))),
+            None => svg.push_str(r#" class="node""#),
+        }
 
         // Add custom attributes
         if let Some(style) = style {
             if let Some(opacity) = style.opacity {
                 svg.push_str(&format!(r#" opacity="{}""#, opacity))
             }
-            if let Some(class) = &style.class_name {
-                svg.push_str(&format!(r#" class="node {}""#, class))
-            }
             for (key, value) in &style.attributes {
-                svg.push_str(&format!(r#" {}="{}""#, key, value))
+                svg.push_str(&format!(r#" {}="{}""#, key, escape(value)))
             }
         }
 
@@ -234,7 +241,12 @@ impl SvgRenderer {
             let center = rect.center();
             svg.push_str(&format!(
                 r#"    <text x="{}" y="{}" text-anchor="middle" dominant-baseline="central" fill="{}" font-size="{}" font-family="{}" class="label">{}</text>"#,
-                center.x, center.y, text_color, text_size, self.config.font_family, node.label
+                center.x,
+                center.y,
+                escape(text_color),
+                text_size,
+                escape(&self.config.font_family),
+                escape(&node.label)
             ));
             svg.push('\n')
         }
@@ -261,23 +273,25 @@ impl SvgRenderer {
             path_data.push_str(&format!(" L {} {}", point.x, point.y))
         }
 
-        svg.push_str(&format!(r#"    <path d="{}" stroke="{}" stroke-width="{}" fill="none" class="edge""#, path_data, stroke_color, stroke_width));
+        svg.push_str(&format!(r#"    <path d="{}" stroke="{}" stroke-width="{}" fill="none""#, path_data, escape(stroke_color), stroke_width));
 
         // Add arrow marker for directed edges
         if self.config.show_arrows {
             svg.push_str(r#" marker-end="url(#arrowhead)""#)
         }
 
+        match style.and_then(|s| s.class_name.as_ref()) {
+            Some(class) => svg.push_str(&format!(r#" class="edge {}""#, escape(class))),
+            None => svg.push_str(r#" class="edge""#),
+        }
+
         // Add custom attributes
         if let Some(style) = style {
             if let Some(opacity) = style.opacity {
                 svg.push_str(&format!(r#" opacity="{}""#, opacity))
             }
-            if let Some(class) = &style.class_name {
-                svg.push_str(&format!(r#" class="edge {}""#, class))
-            }
             for (key, value) in &style.attributes {
-                svg.push_str(&format!(r#" {}="{}""#, key, value))
+                svg.push_str(&format!(r#" {}="{}""#, key, escape(value)))
             }
         }
 
@@ -301,10 +315,10 @@ impl SvgRenderer {
                 r#"    <text x="{}" y="{}" text-anchor="middle" dominant-baseline="central" fill="{}" font-size="{}" font-family="{}" class="label">{}</text>"#,
                 mid_point.x,
                 mid_point.y - 5.0, // Offset slightly above the edge
-                text_color,
+                escape(text_color),
                 text_size,
-                self.config.font_family,
-                label
+                escape(&self.config.font_family),
+                escape(label)
             ));
             svg.push('\n')
         }
-- 
2.43.0


From 70e625a599cf1aaa10418e946913f5f004c823ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 34/51] fix: graph layouts keep the labels of edges

---
 projects/oak-visualize/src/graph/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index a7cbe15..8cc1268 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -363,7 +363,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
@@ -400,7 +401,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
@@ -443,7 +445,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
@@ -482,7 +485,8 @@ impl GraphLayout {
         // Add edges
         for edge in &graph.edges {
             if let (Some(from_node), Some(to_node)) = (layout.nodes.get(&edge.from), layout.nodes.get(&edge.to)) {
-                let layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                let mut layout_edge = Edge::new(edge.from.clone(), edge.to.clone()).with_points(vec![from_node.rect.center(), to_node.rect.center()]);
+                layout_edge.label = edge.label.clone();
                 layout.add_edge(layout_edge);
             }
         }
-- 
2.43.0


From 74e0cd8f1ca4b224fa50c7671433397e39f9c69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 35/51] fix: the hierarchical graph layout ignores edges of
 unknown nodes

---
 projects/oak-visualize/src/graph/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index 8cc1268..cef1911 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -519,7 +519,12 @@ impl GraphLayout {
 
         // Calculate in-degrees
         for edge in &graph.edges {
-            *in_degree.get_mut(&edge.to).unwrap() += 1;
+            // Only edges between known nodes take part
+            if graph.nodes.contains_key(&edge.from) {
+                if let Some(degree) = in_degree.get_mut(&edge.to) {
+                    *degree += 1;
+                }
+            }
         }
 
         // Process layers
-- 
2.43.0


From aba381b1cb68e9fe2643baf6cf2c9defbba3ba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 36/51] fix: Graph::is_connected does not depend on the node it
 starts from

---
 projects/oak-visualize/src/graph/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index cef1911..a0d30bf 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -127,6 +127,7 @@ impl Graph {
         self.get_neighbors(node_id).len()
     }
 
+    /// Whether every node can be reached from every other one, going along edges in either direction
     pub fn is_connected(&self) -> bool {
         if self.nodes.is_empty() {
             return true;
@@ -143,8 +144,17 @@ impl Graph {
 
             visited.insert(node);
 
-            for neighbor in self.get_neighbors(node) {
-                if !visited.contains(neighbor) {
+            for edge in &self.edges {
+                let neighbor = if edge.from == node {
+                    &edge.to
+                }
+                else if edge.to == node {
+                    &edge.from
+                }
+                else {
+                    continue;
+                };
+                if self.nodes.contains_key(neighbor) && !visited.contains(neighbor.as_str()) {
                     stack.push(neighbor);
                 }
             }
-- 
2.43.0


From b5ead144195c40d09d1d279301424323f4e73243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 37/51] fix: Graph::find_cycles does not report an undirected
 edge as a cycle

---
 projects/oak-visualize/src/graph/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/projects/oak-visualize/src/graph/mod.rs b/projects/oak-visualize/src/graph/mod.rs
index a0d30bf..c70b915 100644
--- a/projects/oak-visualize/src/graph/mod.rs
+++ b/projects/oak-visualize/src/graph/mod.rs
@@ -171,21 +171,34 @@ impl Graph {
 
         for node_id in self.nodes.keys() {
             if !visited.contains(node_id) {
-                self.dfs_cycles(node_id, &mut visited, &mut rec_stack, &mut path, &mut cycles);
+                self.dfs_cycles(node_id, None, &mut visited, &mut rec_stack, &mut path, &mut cycles);
             }
         }
 
         cycles
     }
 
-    fn dfs_cycles(&self, node: &str, visited: &mut HashSet<String>, rec_stack: &mut HashSet<String>, path: &mut Vec<String>, cycles: &mut Vec<Vec<String>>) {
+    fn dfs_cycles(&self, node: &str, came_by: Option<usize>, visited: &mut HashSet<String>, rec_stack: &mut HashSet<String>, path: &mut Vec<String>, cycles: &mut Vec<Vec<String>>) {
         visited.insert(node.to_string());
         rec_stack.insert(node.to_string());
         path.push(node.to_string());
 
-        for neighbor in self.get_neighbors(node) {
+        for (index, edge) in self.edges.iter().enumerate() {
+            let neighbor = if edge.from == node {
+                edge.to.as_str()
+            }
+            else if !self.directed && edge.to == node {
+                edge.from.as_str()
+            }
+            else {
+                continue;
+            };
+            // Going back along the same undirected edge is not a cycle
+            if !self.directed && came_by == Some(index) {
+                continue;
+            }
             if !visited.contains(neighbor) {
-                self.dfs_cycles(neighbor, visited, rec_stack, path, cycles);
+                self.dfs_cycles(neighbor, Some(index), visited, rec_stack, path, cycles);
             }
             else if rec_stack.contains(neighbor) {
                 // Found a cycle
-- 
2.43.0


From dbeec5683130ef635b4316df328ca1c551ea7fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 38/51] fix: tree layouts give their edges points, so that they
 are drawn

---
 projects/oak-visualize/src/tree/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/oak-visualize/src/tree/mod.rs b/projects/oak-visualize/src/tree/mod.rs
index 4337796..ec79994 100644
--- a/projects/oak-visualize/src/tree/mod.rs
+++ b/projects/oak-visualize/src/tree/mod.rs
@@ -412,7 +412,10 @@ impl TreeLayout {
     /// Recursively add edges from the given node to all its descendants
     fn add_tree_edges(&self, node: &TreeNode, layout: &mut Layout) {
         for child in &node.children {
-            let edge = Edge::new(node.id.clone(), child.id.clone());
+            let mut edge = Edge::new(node.id.clone(), child.id.clone());
+            if let (Some(from), Some(to)) = (layout.nodes.get(&node.id), layout.nodes.get(&child.id)) {
+                edge = edge.with_points(vec![from.rect.center(), to.rect.center()]);
+            }
             layout.add_edge(edge);
 
             // Recursively add edges for children
-- 
2.43.0


From 7f499ca40b6a3578bc58294bf0c28778dffac0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 39/51] fix: nodes of different widths do not overlap in
 layered and compact tree layouts

---
 projects/oak-visualize/src/tree/mod.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/projects/oak-visualize/src/tree/mod.rs b/projects/oak-visualize/src/tree/mod.rs
index ec79994..957920f 100644
--- a/projects/oak-visualize/src/tree/mod.rs
+++ b/projects/oak-visualize/src/tree/mod.rs
@@ -327,7 +327,8 @@ impl TreeLayout {
 
         let y = level as f64 * self.config.level_distance;
 
-        node_positions.insert(node.id.clone(), (Point::new(x, y), node_size, node.label.clone(), node.node_type.clone()));
+        // `x` is the center of the node
+        node_positions.insert(node.id.clone(), (Point::new(x - node_size.width / 2.0, y), node_size, node.label.clone(), node.node_type.clone()));
         current_positions.insert(level, current_x + node_size.width + self.config.sibling_distance);
 
         // Position children
@@ -370,10 +371,17 @@ impl TreeLayout {
             positioned_children.push(positioned_child);
         }
 
-        let subtree_width = if positioned_children.is_empty() { size.width } else { positioned_children.iter().map(|c| c.subtree_width).sum::<f64>() + (positioned_children.len() - 1) as f64 * self.config.sibling_distance };
+        let children_width = if positioned_children.is_empty() { 0.0 } else { positioned_children.iter().map(|c| c.subtree_width).sum::<f64>() + (positioned_children.len() - 1) as f64 * self.config.sibling_distance };
+        let subtree_width = children_width.max(size.width);
+
+        // Center the children under a node that is wider than they are
+        let shift = (subtree_width - children_width) / 2.0;
+        for child in &mut positioned_children {
+            child.shift(shift);
+        }
 
         // Center the node over its children
-        let node_x = if positioned_children.is_empty() { x } else { x + subtree_width / 2.0 - size.width / 2.0 };
+        let node_x = x + subtree_width / 2.0 - size.width / 2.0;
 
         PositionedTreeNode { id: node.id.clone(), label: node.label.clone(), node_type: node.node_type.clone(), position: Point::new(node_x, y), size, subtree_width, children: positioned_children }
     }
@@ -461,6 +469,16 @@ struct PositionedTreeNode {
     children: Vec<PositionedTreeNode>,
 }
 
+impl PositionedTreeNode {
+    /// Moves the node and everything below it
+    fn shift(&mut self, dx: f64) {
+        self.position.x += dx;
+        for child in &mut self.children {
+            child.shift(dx);
+        }
+    }
+}
+
 /// Tree renderer for generating visual output
 pub struct TreeRenderer {
     config: TreeRenderConfig,
-- 
2.43.0


From 09db5c72351360d1487675c133f8c34447f52ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 40/51] fix: the hierarchical layout places the nodes of any
 graph

---
 projects/oak-visualize/src/layout/mod.rs | 48 ++++++++++++++++++------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index 8729ca6..64ff602 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -382,30 +382,56 @@ struct HierarchyNode {
 
 // Helper functions
 fn build_hierarchy(nodes: &[LayoutNode], edges: &[LayoutEdge]) -> crate::Result<Vec<HierarchyNode>> {
-    // Simple implementation - find roots and build tree
-    let mut children_map: HashMap<String, Vec<String>> = HashMap::new();
-    let mut has_parent: std::collections::HashSet<String> = std::collections::HashSet::new();
+    // A node is placed below the last of its parents; edges of unknown nodes and loops are left out
+    let mut builder = HierarchyBuilder { sizes: nodes.iter().map(|n| (n.id.as_str(), n.size)).collect(), children: HashMap::new(), open_parents: HashMap::new(), placed: std::collections::HashSet::new() };
 
     for edge in edges {
-        children_map.entry(edge.from.clone()).or_default().push(edge.to.clone());
-        has_parent.insert(edge.to.clone());
+        if edge.from != edge.to && builder.sizes.contains_key(edge.from.as_str()) && builder.sizes.contains_key(edge.to.as_str()) {
+            builder.children.entry(&edge.from).or_default().push(&edge.to);
+            *builder.open_parents.entry(&edge.to).or_default() += 1;
+        }
     }
 
     let mut roots = Vec::new();
+    let has_parent: std::collections::HashSet<&str> = builder.open_parents.keys().copied().collect();
     for node in nodes {
-        if !has_parent.contains(&node.id) {
-            roots.push(build_hierarchy_node(&node.id, nodes, &children_map))
+        if !has_parent.contains(node.id.as_str()) && !builder.placed.contains(node.id.as_str()) {
+            roots.push(builder.build(&node.id))
+        }
+    }
+    // What is left is part of a cycle, or below one
+    for node in nodes {
+        if !builder.placed.contains(node.id.as_str()) {
+            roots.push(builder.build(&node.id))
         }
     }
 
     Ok(roots)
 }
 
-fn build_hierarchy_node(id: &str, nodes: &[LayoutNode], children_map: &HashMap<String, Vec<String>>) -> HierarchyNode {
-    let node = nodes.iter().find(|n| n.id == id).unwrap();
-    let children = children_map.get(id).map(|child_ids| child_ids.iter().map(|child_id| build_hierarchy_node(child_id, nodes, children_map)).collect()).unwrap_or_default();
+struct HierarchyBuilder<'a> {
+    sizes: HashMap<&'a str, Size>,
+    children: HashMap<&'a str, Vec<&'a str>>,
+    /// How many edges lead to a node from nodes which are not placed yet
+    open_parents: HashMap<&'a str, usize>,
+    placed: std::collections::HashSet<&'a str>,
+}
+
+impl<'a> HierarchyBuilder<'a> {
+    fn build(&mut self, id: &'a str) -> HierarchyNode {
+        self.placed.insert(id);
+        let mut children = Vec::new();
+        for child in self.children.remove(id).unwrap_or_default() {
+            if let Some(open) = self.open_parents.get_mut(child) {
+                *open -= 1;
+                if *open == 0 && !self.placed.contains(child) {
+                    children.push(self.build(child))
+                }
+            }
+        }
 
-    HierarchyNode { id: id.to_string(), children, size: node.size }
+        HierarchyNode { id: id.to_string(), children, size: self.sizes[id] }
+    }
 }
 
 fn layout_top_down(hierarchy: &[HierarchyNode], config: &LayoutConfig) -> HashMap<String, Rect> {
-- 
2.43.0


From a958fb8f7e45627b1c71668d68916dc3e3a06050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 41/51] fix: layout engines keep the labels and types of nodes

---
 projects/oak-visualize/src/layout/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index 64ff602..be34602 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -221,8 +221,10 @@ impl LayoutEngine for HierarchicalLayout {
         };
 
         // Add nodes to layout
-        for (id, rect) in positioned_nodes {
-            layout.add_node(id, rect);
+        for node in nodes {
+            if let Some(rect) = positioned_nodes.get(&node.id) {
+                layout.add_node_with_metadata(node.id.clone(), node.label.clone(), *rect, node.node_type);
+            }
         }
 
         // Add edges with routing
@@ -347,7 +349,7 @@ impl LayoutEngine for ForceDirectedLayout {
         for node in nodes {
             if let Some(position) = positions.get(&node.id) {
                 let rect = Rect::new(Point::new(position.x - node.size.width / 2.0, position.y - node.size.height / 2.0), node.size);
-                layout.add_node(node.id.clone(), rect)
+                layout.add_node_with_metadata(node.id.clone(), node.label.clone(), rect, node.node_type)
             }
         }
 
-- 
2.43.0


From 9f3578adc1c8c6e6e76355bea085f7ab5c5fdeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 42/51] fix: the hierarchical layout turns bottom-up and
 right-to-left around

---
 projects/oak-visualize/src/layout/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index be34602..c6f7a6b 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -488,12 +488,24 @@ fn layout_node_left_right(node: &HierarchyNode, x: &mut f64, y: f64, config: &La
 
 fn layout_bottom_up(hierarchy: &[HierarchyNode], config: &LayoutConfig) -> HashMap<String, Rect> {
     // Similar to top_down but reversed
-    layout_top_down(hierarchy, config)
+    let mut positions = layout_top_down(hierarchy, config);
+    let bottom = positions.values().map(|rect| rect.max_y()).fold(config.margin, f64::max);
+    for rect in positions.values_mut() {
+        rect.origin.y = config.margin + bottom - rect.max_y();
+    }
+
+    positions
 }
 
 fn layout_right_left(hierarchy: &[HierarchyNode], config: &LayoutConfig) -> HashMap<String, Rect> {
     // Similar to left_right but reversed
-    layout_left_right(hierarchy, config)
+    let mut positions = layout_left_right(hierarchy, config);
+    let right = positions.values().map(|rect| rect.max_x()).fold(config.margin, f64::max);
+    for rect in positions.values_mut() {
+        rect.origin.x = config.margin + right - rect.max_x();
+    }
+
+    positions
 }
 
 fn route_edge(from_rect: &Rect, to_rect: &Rect, from_id: &str, to_id: &str, label: Option<String>) -> Edge {
-- 
2.43.0


From fe8d511b195c9733289f5b82ac820538818e2eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 43/51] fix: the force-directed layout does not divide by a
 distance of zero

---
 projects/oak-visualize/src/layout/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/projects/oak-visualize/src/layout/mod.rs b/projects/oak-visualize/src/layout/mod.rs
index c6f7a6b..55f5a96 100644
--- a/projects/oak-visualize/src/layout/mod.rs
+++ b/projects/oak-visualize/src/layout/mod.rs
@@ -326,6 +326,9 @@ impl LayoutEngine for ForceDirectedLayout {
                 if let (Some(pos1), Some(pos2)) = (positions.get(&edge.from), positions.get(&edge.to)) {
                     let diff = *pos2 - *pos1;
                     let distance = pos1.distance_to(pos2);
+                    if distance == 0.0 {
+                        continue;
+                    }
                     let ideal_length = config.horizontal_spacing;
                     let force_magnitude = self.spring_strength * (distance - ideal_length);
                     let force_direction = Point::new(diff.x / distance, diff.y / distance);
-- 
2.43.0


From 24ce5b5e745f52b8f17938ea8e228493a2db0b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 44/51] fix: doc! applies the conversion to the whole of an
 expression

---
 projects/oak-macros/src/doc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/oak-macros/src/doc.rs b/projects/oak-macros/src/doc.rs
index dd7d4f7..48b8814 100644
--- a/projects/oak-macros/src/doc.rs
+++ b/projects/oak-macros/src/doc.rs
@@ -132,7 +132,7 @@ impl ToTokens for DocExpr {
                 {
                     #[allow(unused_imports)]
                     use ::oak_pretty_print::document::JoinDoc;
-                    #items.into_iter()
+                    (#items).into_iter()
                         .map(|i| {
                             #[allow(unused_imports)]
                             use ::oak_pretty_print::ToDocument;
@@ -147,7 +147,7 @@ impl ToTokens for DocExpr {
                 {
                     #[allow(unused_imports)]
                     use ::oak_pretty_print::ToDocument;
-                    #expr.to_document()
+                    (#expr).to_document()
                 }
             }),
         }
-- 
2.43.0


From 0bc87748e297e6bf21d2217e004479655f8696fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 45/51] fix: AsDocument can be derived for variants with named
 fields

---
 projects/oak-macros/src/to_doc.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/projects/oak-macros/src/to_doc.rs b/projects/oak-macros/src/to_doc.rs
index 142c723..daeb436 100644
--- a/projects/oak-macros/src/to_doc.rs
+++ b/projects/oak-macros/src/to_doc.rs
@@ -94,22 +94,21 @@ pub fn derive_as_document(input: TokenStream) -> TokenStream {
                     }
                 }
                 else if variant.fields.len() == 1 {
+                    let field = match &variant.fields.iter().next().unwrap().ident {
+                        Some(ident) => quote! { #ident },
+                        None => quote! { 0 },
+                    };
                     quote! {
-                        #name::#variant_name(v) => {
+                        #name::#variant_name { #field: v } => {
                             #[allow(unused_imports)]
                             use ::oak_pretty_print::AsDocument;
                             v.as_document()
                         },
                     }
                 }
-                else if variant.fields.is_empty() {
-                    quote! {
-                        #name::#variant_name => ::oak_pretty_print::Doc::Nil,
-                    }
-                }
                 else {
                     quote! {
-                        #name::#variant_name(..) => ::oak_pretty_print::Doc::Nil,
+                        #name::#variant_name { .. } => ::oak_pretty_print::Doc::Nil,
                     }
                 }
             });
-- 
2.43.0


From c79de90ff256ec3e3afcf2d384414c3b427e98ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 46/51] fix: a derived AsDocument keeps the where clause of its
 type

---
 projects/oak-macros/src/to_doc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/projects/oak-macros/src/to_doc.rs b/projects/oak-macros/src/to_doc.rs
index daeb436..ec1910d 100644
--- a/projects/oak-macros/src/to_doc.rs
+++ b/projects/oak-macros/src/to_doc.rs
@@ -6,7 +6,7 @@ use syn::{Data, DeriveInput, parse_macro_input};
 pub fn derive_as_document(input: TokenStream) -> TokenStream {
     let input = parse_macro_input!(input as DeriveInput);
     let name = &input.ident;
-    let (impl_generics, ty_generics, _where_clause) = input.generics.split_for_impl();
+    let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let mut custom_doc = None;
     for attr in &input.attrs {
@@ -122,7 +122,7 @@ pub fn derive_as_document(input: TokenStream) -> TokenStream {
     };
 
     let expanded = quote! {
-        impl #impl_generics ::oak_pretty_print::AsDocument for #name #ty_generics {
+        impl #impl_generics ::oak_pretty_print::AsDocument for #name #ty_generics #where_clause {
             fn as_document(&self) -> ::oak_pretty_print::Doc<'_> {
                 #body
             }
-- 
2.43.0


From b90f1672f6c0c94f725e87eeda394da2c985d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:18 +0000
Subject: [PATCH 47/51] fix: a derive reports a malformed oak attribute

---
 projects/oak-macros/src/format_rule.rs |  9 ++++++---
 projects/oak-macros/src/to_doc.rs      | 16 +++++++++++-----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/projects/oak-macros/src/format_rule.rs b/projects/oak-macros/src/format_rule.rs
index f12ef49..50219e7 100644
--- a/projects/oak-macros/src/format_rule.rs
+++ b/projects/oak-macros/src/format_rule.rs
@@ -8,13 +8,15 @@ pub fn derive_format_rule(input: TokenStream) -> TokenStream {
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let mut priority = 0u8;
+    let mut errors = Vec::new();
     for attr in &input.attrs {
         if attr.path().is_ident("oak") {
             let _ = attr.parse_nested_meta(|meta| {
                 if meta.path.is_ident("priority") {
-                    let value = meta.value()?;
-                    let lit: LitInt = value.parse()?;
-                    priority = lit.base10_parse()?;
+                    match meta.value().and_then(|value| value.parse::<LitInt>()).and_then(|lit| lit.base10_parse()) {
+                        Ok(value) => priority = value,
+                        Err(error) => errors.push(error.to_compile_error()),
+                    }
                 }
                 Ok(())
             });
@@ -24,6 +26,7 @@ pub fn derive_format_rule(input: TokenStream) -> TokenStream {
     let name_str = name.to_string();
 
     let expanded = quote! {
+        #(#errors)*
         impl #impl_generics ::oak_pretty_print::FormatRule<L> for #name #ty_generics #where_clause {
             fn name(&self) -> &str { #name_str }
             fn priority(&self) -> u8 { #priority }
diff --git a/projects/oak-macros/src/to_doc.rs b/projects/oak-macros/src/to_doc.rs
index ec1910d..38b3faf 100644
--- a/projects/oak-macros/src/to_doc.rs
+++ b/projects/oak-macros/src/to_doc.rs
@@ -9,12 +9,15 @@ pub fn derive_as_document(input: TokenStream) -> TokenStream {
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let mut custom_doc = None;
+    let mut errors = Vec::new();
     for attr in &input.attrs {
         if attr.path().is_ident("oak") {
             let _ = attr.parse_nested_meta(|meta| {
                 if meta.path.is_ident("doc") {
-                    let value = meta.value()?;
-                    custom_doc = Some(value.parse::<DocExpr>()?);
+                    match meta.value().and_then(|value| value.parse::<DocExpr>()) {
+                        Ok(doc) => custom_doc = Some(doc),
+                        Err(error) => errors.push(error.to_compile_error()),
+                    }
                 }
                 Ok(())
             });
@@ -59,8 +62,10 @@ pub fn derive_as_document(input: TokenStream) -> TokenStream {
                     if attr.path().is_ident("oak") {
                         let _ = attr.parse_nested_meta(|meta| {
                             if meta.path.is_ident("doc") {
-                                let value = meta.value()?;
-                                variant_doc = Some(value.parse::<DocExpr>()?);
+                                match meta.value().and_then(|value| value.parse::<DocExpr>()) {
+                                    Ok(doc) => variant_doc = Some(doc),
+                                    Err(error) => errors.push(error.to_compile_error()),
+                                }
                             }
                             Ok(())
                         });
@@ -111,7 +116,7 @@ pub fn derive_as_document(input: TokenStream) -> TokenStream {
                         #name::#variant_name { .. } => ::oak_pretty_print::Doc::Nil,
                     }
                 }
-            });
+            }).collect::<Vec<_>>();
             quote! {
                 match self {
                     #(#arms)*
@@ -122,6 +127,7 @@ pub fn derive_as_document(input: TokenStream) -> TokenStream {
     };
 
     let expanded = quote! {
+        #(#errors)*
         impl #impl_generics ::oak_pretty_print::AsDocument for #name #ty_generics #where_clause {
             fn as_document(&self) -> ::oak_pretty_print::Doc<'_> {
                 #body
-- 
2.43.0


From e4bb96f7ca4436e5f69b5379913e91f54737132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:19 +0000
Subject: [PATCH 48/51] fix: a derived FormatRule compiles: a rule formats
 nothing unless it says so

---
 projects/oak-pretty-print/src/rules/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/projects/oak-pretty-print/src/rules/mod.rs b/projects/oak-pretty-print/src/rules/mod.rs
index b25613e..980bfa9 100644
--- a/projects/oak-pretty-print/src/rules/mod.rs
+++ b/projects/oak-pretty-print/src/rules/mod.rs
@@ -27,10 +27,14 @@ pub trait FormatRule<L: Language> {
     }
 
     /// Applies the formatting rule to a node, returning an optional Document
-    fn apply_node<'a>(&self, node: &RedNode<L>, context: &FormatContext<L>, source: &'a str, format_children: &dyn Fn(&RedNode<L>) -> FormatResult<Document<'a>>) -> FormatResult<Option<Document<'a>>>;
+    fn apply_node<'a>(&self, _node: &RedNode<L>, _context: &FormatContext<L>, _source: &'a str, _format_children: &dyn Fn(&RedNode<L>) -> FormatResult<Document<'a>>) -> FormatResult<Option<Document<'a>>> {
+        Ok(None)
+    }
 
     /// Applies the formatting rule to a token, returning an optional Document
-    fn apply_token<'a>(&self, token: &RedLeaf<L>, context: &FormatContext<L>, source: &'a str) -> FormatResult<Option<Document<'a>>>;
+    fn apply_token<'a>(&self, _token: &RedLeaf<L>, _context: &FormatContext<L>, _source: &'a str) -> FormatResult<Option<Document<'a>>> {
+        Ok(None)
+    }
 
     /// Checks if the rule conflicts with another rule
     fn conflicts_with(&self, _other: &dyn FormatRule<L>) -> bool {
-- 
2.43.0


From 01356aaed8a7e54c85cb1642164faace0700664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:19 +0000
Subject: [PATCH 49/51] fix: test_lexer! hands the lexer over by reference

---
 projects/oak-macros/src/test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-macros/src/test.rs b/projects/oak-macros/src/test.rs
index 94770cb..90c7a2f 100644
--- a/projects/oak-macros/src/test.rs
+++ b/projects/oak-macros/src/test.rs
@@ -28,7 +28,7 @@ pub fn test_lexer(input: TokenStream) -> TokenStream {
                 .with_extension(#extension)
                 .with_timeout(Duration::from_secs(#timeout));
 
-            test_runner.run_tests::<#language, _>(lexer)
+            test_runner.run_tests::<#language, _>(&lexer)
         }
     };
     TokenStream::from(expanded)
-- 
2.43.0


From cd1d57142d705b3740a892804dc8821535a93825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:19 +0000
Subject: [PATCH 50/51] fix: oak_test keeps the result of the test

---
 projects/oak-macros/src/test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/oak-macros/src/test.rs b/projects/oak-macros/src/test.rs
index 90c7a2f..a750974 100644
--- a/projects/oak-macros/src/test.rs
+++ b/projects/oak-macros/src/test.rs
@@ -91,7 +91,7 @@ pub fn oak_test(_attr: TokenStream, item: TokenStream) -> TokenStream {
                 Err(mpsc::RecvTimeoutError::Disconnected) => {
                     panic!("Test thread panicked or disconnected unexpectedly.")
                 }
-            };
+            }
         }
     };
     TokenStream::from(expanded)
-- 
2.43.0


From d53e52001d9a5bf70827cc5bfd2f0a7d1f293a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:25 +0000
Subject: [PATCH 51/51] fix: an oak attribute may hold the keys of several
 derives

---
 projects/oak-macros/src/format_rule.rs | 14 +++++-----
 projects/oak-macros/src/to_doc.rs      | 37 +++++++++++++++++---------
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/projects/oak-macros/src/format_rule.rs b/projects/oak-macros/src/format_rule.rs
index 50219e7..8d8ed55 100644
--- a/projects/oak-macros/src/format_rule.rs
+++ b/projects/oak-macros/src/format_rule.rs
@@ -1,3 +1,4 @@
+use crate::to_doc::skip_value;
 use proc_macro::TokenStream;
 use quote::quote;
 use syn::{DeriveInput, LitInt, parse_macro_input};
@@ -11,15 +12,16 @@ pub fn derive_format_rule(input: TokenStream) -> TokenStream {
     let mut errors = Vec::new();
     for attr in &input.attrs {
         if attr.path().is_ident("oak") {
-            let _ = attr.parse_nested_meta(|meta| {
+            let parsed = attr.parse_nested_meta(|meta| {
                 if meta.path.is_ident("priority") {
-                    match meta.value().and_then(|value| value.parse::<LitInt>()).and_then(|lit| lit.base10_parse()) {
-                        Ok(value) => priority = value,
-                        Err(error) => errors.push(error.to_compile_error()),
-                    }
+                    priority = meta.value()?.parse::<LitInt>()?.base10_parse()?;
+                    Ok(())
+                }
+                else {
+                    skip_value(&meta)
                 }
-                Ok(())
             });
+            errors.extend(parsed.err().map(|error| error.to_compile_error()));
         }
     }
 
diff --git a/projects/oak-macros/src/to_doc.rs b/projects/oak-macros/src/to_doc.rs
index 38b3faf..305dac0 100644
--- a/projects/oak-macros/src/to_doc.rs
+++ b/projects/oak-macros/src/to_doc.rs
@@ -1,7 +1,16 @@
 use crate::doc::DocExpr;
 use proc_macro::TokenStream;
 use quote::quote;
-use syn::{Data, DeriveInput, parse_macro_input};
+use syn::{Data, DeriveInput, Token, meta::ParseNestedMeta, parse_macro_input};
+
+/// Skips the value of an `oak` key that belongs to another derive; a document takes the rest of the attribute.
+pub(crate) fn skip_value(meta: &ParseNestedMeta) -> syn::Result<()> {
+    let takes_rest = meta.path.is_ident("doc");
+    while !meta.input.is_empty() && (takes_rest || !meta.input.peek(Token![,])) {
+        meta.input.parse::<proc_macro2::TokenTree>()?;
+    }
+    Ok(())
+}
 
 pub fn derive_as_document(input: TokenStream) -> TokenStream {
     let input = parse_macro_input!(input as DeriveInput);
@@ -12,15 +21,16 @@ pub fn derive_as_document(input: TokenStream) -> TokenStream {
     let mut errors = Vec::new();
     for attr in &input.attrs {
         if attr.path().is_ident("oak") {
-            let _ = attr.parse_nested_meta(|meta| {
+            let parsed = attr.parse_nested_meta(|meta| {
                 if meta.path.is_ident("doc") {
-                    match meta.value().and_then(|value| value.parse::<DocExpr>()) {
-                        Ok(doc) => custom_doc = Some(doc),
-                        Err(error) => errors.push(error.to_compile_error()),
-                    }
+                    custom_doc = Some(meta.value()?.parse::<DocExpr>()?);
+                    Ok(())
+                }
+                else {
+                    skip_value(&meta)
                 }
-                Ok(())
             });
+            errors.extend(parsed.err().map(|error| error.to_compile_error()));
         }
     }
 
@@ -60,15 +70,16 @@ pub fn derive_as_document(input: TokenStream) -> TokenStream {
                 let mut variant_doc = None;
                 for attr in &variant.attrs {
                     if attr.path().is_ident("oak") {
-                        let _ = attr.parse_nested_meta(|meta| {
+                        let parsed = attr.parse_nested_meta(|meta| {
                             if meta.path.is_ident("doc") {
-                                match meta.value().and_then(|value| value.parse::<DocExpr>()) {
-                                    Ok(doc) => variant_doc = Some(doc),
-                                    Err(error) => errors.push(error.to_compile_error()),
-                                }
+                                variant_doc = Some(meta.value()?.parse::<DocExpr>()?);
+                                Ok(())
+                            }
+                            else {
+                                skip_value(&meta)
                             }
-                            Ok(())
                         });
+                        errors.extend(parsed.err().map(|error| error.to_compile_error()));
                     }
                 }
 
-- 
2.43.0

