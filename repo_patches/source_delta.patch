From 7aa2490ebed157f294cebae836188f72077d0d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:31 +0000
Subject: [PATCH 1/4] fix: convert only positions that are in the text

A line/column past the end of its line converted to an offset on another
line, past the end of the text, or inside a character, and an inverted
range panicked.
---
 crates/text-pos/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/text-pos/src/lib.rs b/crates/text-pos/src/lib.rs
index e70186a..ccbd0d7 100644
--- a/crates/text-pos/src/lib.rs
+++ b/crates/text-pos/src/lib.rs
@@ -67,7 +67,10 @@ impl PositionDb {
 
   fn text_size_utf8(&self, pos: PositionUtf8) -> Option<TextSize> {
     let lc = line_index::LineCol { line: pos.line, col: pos.col };
-    self.inner.offset(lc)
+    // `LineIndex::offset` doesn't check that the column is actually on the line.
+    let start = self.inner.line(pos.line)?.start();
+    let ret = start.checked_add(TextSize::from(pos.col))?;
+    (self.inner.try_line_col(ret)? == lc).then_some(ret)
   }
 
   fn range_utf8(&self, text_range: TextRange) -> Option<RangeUtf8> {
@@ -78,7 +81,9 @@ impl PositionDb {
   }
 
   fn text_range_utf8(&self, range: RangeUtf8) -> Option<TextRange> {
-    Some(TextRange::new(self.text_size_utf8(range.start)?, self.text_size_utf8(range.end)?))
+    let start = self.text_size_utf8(range.start)?;
+    let end = self.text_size_utf8(range.end)?;
+    (start <= end).then(|| TextRange::new(start, end))
   }
 
   fn position_to_utf16(&self, pos: PositionUtf8) -> Option<PositionUtf16> {
-- 
2.43.0


From 736b3f7ea1a522c8ce5ac7875d4fedf46589a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:00 +0000
Subject: [PATCH 2/4] fix: keep the last valid line when a change is skipped

A change whose range is not in the text is skipped, but it still moved the
last valid line of the position index, so a later change could be resolved
against an index that no longer matched the text.
---
 crates/apply-changes/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/apply-changes/src/lib.rs b/crates/apply-changes/src/lib.rs
index e584d20..bc0ac64 100644
--- a/crates/apply-changes/src/lib.rs
+++ b/crates/apply-changes/src/lib.rs
@@ -39,9 +39,9 @@ pub fn get(contents: &mut String, mut changes: Vec<Change>) {
     if index_valid <= range.end.line {
       pos_db = text_pos::PositionDb::new(contents);
     }
-    index_valid = range.start.line;
-    if let Some(range) = pos_db.text_range_utf16(range) {
-      contents.replace_range(std::ops::Range::<usize>::from(range), &change.text);
+    if let Some(text_range) = pos_db.text_range_utf16(range) {
+      contents.replace_range(std::ops::Range::<usize>::from(text_range), &change.text);
+      index_valid = range.start.line;
     }
   }
 }
-- 
2.43.0


From 613af6a481203841d339984b0fd4b7e60a11ab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:50 +0000
Subject: [PATCH 3/4] fix: a construct is empty exactly when no token was
 consumed in it

---
 crates/event-parse/src/lib.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 5a5d6bf..8ae7029 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -31,13 +31,15 @@ use token::{Token, Triviable};
 pub struct Parser<'a, K, E> {
   tokens: &'a [Token<'a, K>],
   tok_idx: usize,
+  /// How many tokens were consumed, i.e. how many `Event::Token` are in `events`.
+  consumed: usize,
   events: Vec<Option<Event<K, E>>>,
 }
 
 impl<'a, K, E> Parser<'a, K, E> {
   /// Returns a new parser for the given tokens.
   pub fn new(tokens: &'a [Token<'a, K>]) -> Self {
-    Self { tokens, tok_idx: 0, events: Vec::new() }
+    Self { tokens, tok_idx: 0, consumed: 0, events: Vec::new() }
   }
 
   /// Starts parsing a syntax construct.
@@ -62,7 +64,8 @@ impl<'a, K, E> Parser<'a, K, E> {
   pub fn enter(&mut self) -> Entered {
     let ev_idx = self.events.len();
     self.events.push(None);
-    Entered { bomb: DropBomb::new("Entered markers must be exited"), ev_idx, tok_idx: self.tok_idx }
+    let bomb = DropBomb::new("Entered markers must be exited");
+    Entered { bomb, ev_idx, consumed: self.consumed }
   }
 
   /// Abandons parsing a syntax construct.
@@ -89,7 +92,8 @@ impl<'a, K, E> Parser<'a, K, E> {
     assert!(ev.is_none());
     *ev = Some(Event::Enter(kind, None));
     self.events.push(Some(Event::Exit));
-    Exited { ev_idx: en.ev_idx, is_empty: self.tok_idx == en.tok_idx }
+    let is_empty = self.consumed == en.consumed;
+    Exited { ev_idx: en.ev_idx, consumed: en.consumed, is_empty }
   }
 
   /// Starts parsing a syntax construct and makes it the parent of the given
@@ -104,7 +108,9 @@ impl<'a, K, E> Parser<'a, K, E> {
   ///
   /// On internal error.
   pub fn precede(&mut self, ex: Exited) -> Entered {
-    let ret = self.enter();
+    let mut ret = self.enter();
+    // what was consumed in the child was consumed in the parent.
+    ret.consumed = ex.consumed;
     #[allow(clippy::match_on_vec_items)]
     match self.events[ex.ev_idx] {
       Some(Event::Enter(_, ref mut parent)) => {
@@ -142,7 +148,7 @@ impl<'a, K, E> Parser<'a, K, E> {
   /// }
   /// ```
   pub fn save(&self) -> Save {
-    Save { tok_idx: self.tok_idx, events_len: self.events.len() }
+    Save { tok_idx: self.tok_idx, consumed: self.consumed, events_len: self.events.len() }
   }
 
   /// Returns whether there were _no_ errors since the save, i.e. whether we did
@@ -153,6 +159,7 @@ impl<'a, K, E> Parser<'a, K, E> {
       self.events.iter().skip(save.events_len).any(|ev| matches!(*ev, Some(Event::Error(..))));
     if error_since {
       self.tok_idx = save.tok_idx;
+      self.consumed = save.consumed;
       self.events.truncate(save.events_len);
     }
     !error_since
@@ -210,6 +217,7 @@ where
     let ret = self.peek().expect("bump with no tokens");
     self.events.push(Some(Event::Token));
     self.tok_idx += 1;
+    self.consumed += 1;
     ret
   }
 
@@ -336,7 +344,8 @@ where
 pub struct Entered {
   bomb: DropBomb,
   ev_idx: usize,
-  tok_idx: usize,
+  /// How many tokens were consumed before this construct.
+  consumed: usize,
 }
 
 /// A marker for a syntax construct that has been fully parsed.
@@ -358,6 +367,8 @@ pub struct Entered {
 #[derive(Debug, Clone, Copy)]
 pub struct Exited {
   ev_idx: usize,
+  /// How many tokens were consumed before this construct.
+  consumed: usize,
   is_empty: bool,
 }
 
@@ -374,6 +385,7 @@ impl Exited {
 #[must_use]
 pub struct Save {
   tok_idx: usize,
+  consumed: usize,
   events_len: usize,
 }
 
-- 
2.43.0


From 75321f67cd677dd77ab65bf65b900ca1a62e460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:26 +0000
Subject: [PATCH 4/4] fix: let a node be preceded again after an abandoned
 precede

---
 crates/event-parse/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/event-parse/src/lib.rs b/crates/event-parse/src/lib.rs
index 8ae7029..a82af0a 100644
--- a/crates/event-parse/src/lib.rs
+++ b/crates/event-parse/src/lib.rs
@@ -65,7 +65,7 @@ impl<'a, K, E> Parser<'a, K, E> {
     let ev_idx = self.events.len();
     self.events.push(None);
     let bomb = DropBomb::new("Entered markers must be exited");
-    Entered { bomb, ev_idx, consumed: self.consumed }
+    Entered { bomb, ev_idx, consumed: self.consumed, child: None }
   }
 
   /// Abandons parsing a syntax construct.
@@ -79,6 +79,12 @@ impl<'a, K, E> Parser<'a, K, E> {
   pub fn abandon(&mut self, mut en: Entered) {
     en.bomb.defuse();
     assert!(self.events[en.ev_idx].is_none());
+    // let the child be preceded again.
+    if let Some(child) = en.child {
+      if let Some(Event::Enter(_, parent)) = &mut self.events[child] {
+        *parent = None;
+      }
+    }
   }
 
   /// Finishes parsing a syntax construct.
@@ -111,6 +117,7 @@ impl<'a, K, E> Parser<'a, K, E> {
     let mut ret = self.enter();
     // what was consumed in the child was consumed in the parent.
     ret.consumed = ex.consumed;
+    ret.child = Some(ex.ev_idx);
     #[allow(clippy::match_on_vec_items)]
     match self.events[ex.ev_idx] {
       Some(Event::Enter(_, ref mut parent)) => {
@@ -346,6 +353,8 @@ pub struct Entered {
   ev_idx: usize,
   /// How many tokens were consumed before this construct.
   consumed: usize,
+  /// The construct this was made to precede, if any.
+  child: Option<usize>,
 }
 
 /// A marker for a syntax construct that has been fully parsed.
-- 
2.43.0

