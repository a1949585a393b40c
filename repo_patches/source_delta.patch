From 2d409aa1ac7d7de39720264982125ad8314dbdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 1/5] fix: keep the source cursor on character boundaries when
 advancing by bytes

---
 projects/oak-core/src/source/cursor.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/projects/oak-core/src/source/cursor.rs b/projects/oak-core/src/source/cursor.rs
index a550e28..c2d5bb3 100644
--- a/projects/oak-core/src/source/cursor.rs
+++ b/projects/oak-core/src/source/cursor.rs
@@ -257,8 +257,15 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
     }
 
     /// Advances the cursor by the specified number of bytes.
+    ///
+    /// The cursor never comes to rest inside a character: when `len` ends within a multi-byte
+    /// character, the whole character is consumed.
     pub fn advance_bytes(&mut self, len: usize) -> usize {
         self.offset = (self.offset + len).min(self.source.length());
+        self.ensure_chunk();
+        while !self.chunk.text.is_char_boundary(self.offset - self.chunk.start) {
+            self.offset += 1
+        }
         self.offset
     }
 
-- 
2.43.0


From ccea48bc3ef7c541e4ba69bf5651495ba34667a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:23 +0000
Subject: [PATCH 2/5] fix: find strings that span several chunks or follow a
 multi-byte character

The tail carried over to the next chunk was dropped when its cut fell inside
a character, only two chunks were ever joined, and the search moved the cursor.
---
 projects/oak-core/src/source/cursor.rs | 38 +++++++++++---------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/projects/oak-core/src/source/cursor.rs b/projects/oak-core/src/source/cursor.rs
index c2d5bb3..c64c9c6 100644
--- a/projects/oak-core/src/source/cursor.rs
+++ b/projects/oak-core/src/source/cursor.rs
@@ -426,35 +426,29 @@ impl<'s, S: Source + ?Sized> SourceCursor<'s, S> {
             return Some(self.offset);
         }
 
-        let pat_len = pattern.len();
+        self.scratch.clear();
         let mut offset = self.offset;
         let end = self.source.length();
         while offset < end {
-            self.offset = offset;
-            self.ensure_chunk();
-            let text = self.chunk.slice_from(offset);
-            if let Some(pos) = text.find(pattern) {
-                return Some(offset + pos);
-            }
-            let chunk_end = self.chunk.end();
-            if chunk_end >= end {
-                return None;
+            let chunk = self.source.chunk_at(offset);
+            let text = chunk.slice_from(offset);
+            if self.scratch.is_empty() && chunk.end() >= end {
+                return text.find(pattern).map(|pos| offset + pos);
             }
 
-            if pat_len > 1 {
-                let keep = pat_len - 1;
-                self.scratch.clear();
-                let tail = text.get(text.len().saturating_sub(keep)..).unwrap_or("");
-                self.scratch.push_str(tail);
-                let tail_abs_start = chunk_end.saturating_sub(tail.len());
-                let next_chunk = self.source.chunk_at(chunk_end);
-                self.scratch.push_str(next_chunk.text);
-                if let Some(pos) = self.scratch.find(pattern) {
-                    return Some(tail_abs_start + pos);
-                }
+            // A match may begin in the text read so far, any number of chunks back.
+            let start = offset - self.scratch.len();
+            self.scratch.push_str(text);
+            if let Some(pos) = self.scratch.find(pattern) {
+                return Some(start + pos);
+            }
+            let mut keep = self.scratch.len().saturating_sub(pattern.len() - 1);
+            while !self.scratch.is_char_boundary(keep) {
+                keep -= 1
             }
+            self.scratch.drain(..keep);
 
-            offset = chunk_end
+            offset = chunk.end()
         }
         None
     }
-- 
2.43.0


From 0651741d872b92712d32ff2dc6512edd9ac9a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:23 +0000
Subject: [PATCH 3/5] fix: attach the source to unexpected-end-of-file errors
 too

---
 projects/oak-core/src/errors/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/projects/oak-core/src/errors/mod.rs b/projects/oak-core/src/errors/mod.rs
index 5f5bef3..5bb09da 100644
--- a/projects/oak-core/src/errors/mod.rs
+++ b/projects/oak-core/src/errors/mod.rs
@@ -471,6 +471,7 @@ impl OakError {
             OakErrorKind::SyntaxError { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::UnexpectedCharacter { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::UnexpectedToken { source_id: u, .. } => *u = Some(source_id),
+            OakErrorKind::UnexpectedEof { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::ExpectedToken { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::ExpectedName { source_id: u, .. } => *u = Some(source_id),
             OakErrorKind::TrailingCommaNotAllowed { source_id: u, .. } => *u = Some(source_id),
-- 
2.43.0


From 6c08c952ad8d0c5538f0a0c3276209ce7de021e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 4/5] fix: keep the last tree's storage across a parse that was
 not committed

Preparing twice without a commit in between (a failed parse) released the
arena the last root points into.
---
 projects/oak-core/src/parser/session.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/projects/oak-core/src/parser/session.rs b/projects/oak-core/src/parser/session.rs
index 5723601..96b6596 100644
--- a/projects/oak-core/src/parser/session.rs
+++ b/projects/oak-core/src/parser/session.rs
@@ -35,6 +35,8 @@ pub struct ParseSession<L: Language + Send + Sync> {
     arena_old: Option<SyntaxArena>,
     /// Pointer to the root of the last parsed tree.
     last_root: Cell<Option<NonNull<()>>>,
+    /// Whether `last_root` lives in `arena_active` (it is in `arena_old` until the next commit).
+    committed: Cell<bool>,
     /// Full output from the last lexing pass.
     last_lex: Option<LexOutput<L>>,
 }
@@ -51,13 +53,14 @@ impl<L: Language + Send + Sync> Default for ParseSession<L> {
 impl<L: Language + Send + Sync> ParseSession<L> {
     /// Creates a new parse session.
     pub fn new(capacity: usize) -> Self {
-        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), last_lex: None }
+        Self { arena_active: SyntaxArena::new(capacity), arena_old: None, last_root: Cell::new(None), committed: Cell::new(false), last_lex: None }
     }
 
     /// Returns the root of the last parsed tree.
     pub fn last_root(&self) -> Option<&GreenNode<'_, L>> {
         let ptr = self.last_root.get()?;
-        // Safety: last_root is guaranteed to be in arena_active after commit_generation
+        // Safety: last_root is guaranteed to be in arena_active after commit_generation, and in arena_old
+        // from the next prepare_generation until its commit
         unsafe { Some(&*(ptr.as_ptr() as *const GreenNode<'_, L>)) }
     }
 }
@@ -83,8 +86,12 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
     }
 
     fn prepare_generation(&mut self) {
-        // 1. Move active to old. Oldest is dropped.
-        self.arena_old = Some(std::mem::replace(&mut self.arena_active, SyntaxArena::new(16)));
+        // 1. Move active to old. Oldest is dropped. A generation that was never committed
+        //    is dropped instead: last_root still points into arena_old.
+        let previous = std::mem::replace(&mut self.arena_active, SyntaxArena::new(16));
+        if self.committed.replace(false) {
+            self.arena_old = Some(previous)
+        }
 
         // 2. last_root now correctly points into arena_old.
         // 3. Clear last lex output to force re-lexing for the new generation.
@@ -94,6 +101,7 @@ impl<L: Language + Send + Sync> ParseCache<L> for ParseSession<L> {
     fn commit_generation(&self, root: &GreenNode<L>) {
         // Safety: We cast to void pointer because ParseSession manages the lifetime.
         unsafe { self.last_root.set(Some(NonNull::new_unchecked(root as *const _ as *mut ()))) }
+        self.committed.set(true)
     }
 }
 
-- 
2.43.0


From b8956e7b22e422c2f3d8aea64f08b37a5d29fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 5/5] fix: edit lines with characters of several bytes in the
 interactive line editor

The cursor counts characters but was used as a byte offset, which panicked or
removed the wrong character behind a multi-byte one.
---
 projects/oak-repl/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/projects/oak-repl/src/lib.rs b/projects/oak-repl/src/lib.rs
index e1004e0..66cb0ba 100644
--- a/projects/oak-repl/src/lib.rs
+++ b/projects/oak-repl/src/lib.rs
@@ -106,15 +106,23 @@ impl LineBuffer {
 
     /// Insert a character at the current cursor position.
     pub fn insert(&mut self, ch: char) {
-        self.lines[self.current_line].insert(self.cursor_pos, ch);
+        let at = self.byte_pos();
+        self.lines[self.current_line].insert(at, ch);
         self.cursor_pos += 1;
     }
 
+    /// The byte offset of the cursor, which counts characters, within the current line.
+    fn byte_pos(&self) -> usize {
+        let line = &self.lines[self.current_line];
+        line.char_indices().nth(self.cursor_pos).map_or(line.len(), |(at, _)| at)
+    }
+
     /// Remove a character before the current cursor position.
     pub fn backspace(&mut self) -> bool {
         if self.cursor_pos > 0 {
             self.cursor_pos -= 1;
-            self.lines[self.current_line].remove(self.cursor_pos);
+            let at = self.byte_pos();
+            self.lines[self.current_line].remove(at);
             true
         }
         else if self.current_line > 0 {
-- 
2.43.0

