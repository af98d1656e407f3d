From bec6578c27a7c15e7539055472d84f4709041f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 01/45] fix: undo and redo of a group stop at its boundary when
 it contains an empty nested group

The action count was reset whenever a nested group was entered, so a group
whose earlier part was an empty nested group looked empty and undo/redo went
on into the neighbouring edit.
---
 src/buffer.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 93cc7e4..7daadd0 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -126,10 +126,7 @@ impl Buffer {
             act.undo(self);
             self.undone_actions.push(act.clone());
             match act {
-                EndGroup => {
-                    group_nest += 1;
-                    group_count = 0;
-                }
+                EndGroup => group_nest += 1,
                 StartGroup => group_nest -= 1,
                 // count the actions in this group so we can ignore empty groups below
                 _ => group_count += 1,
@@ -153,10 +150,7 @@ impl Buffer {
             act.do_on(self);
             self.actions.push(act.clone());
             match act {
-                StartGroup => {
-                    group_nest += 1;
-                    group_count = 0;
-                }
+                StartGroup => group_nest += 1,
                 EndGroup => group_nest -= 1,
                 // count the actions in this group so we can ignore empty groups below
                 _ => group_count += 1,
-- 
2.43.0


From 132a03a56a65e3abb36f8c4f5503f6edbd3f1136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 02/45] fix: do not underflow at the end of an empty line in vi
 normal mode

With an empty history entry recalled in normal mode a suggestion is shown for
an empty line; pressing Right then computed 0 - 1.
---
 src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index dbf752d..fc828e2 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -895,7 +895,7 @@ impl<C: EditorContext> Editor<C> {
     pub fn cursor_is_at_end_of_line(&self) -> bool {
         let num_chars = cur_buf!(self).num_chars();
         if self.no_eol {
-            self.cursor == num_chars - 1
+            self.cursor + 1 >= num_chars
         } else {
             self.cursor == num_chars
         }
-- 
2.43.0


From 522d436fdb8a28acdd288139c6c23b19a5d4a914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 03/45] fix: inclusive delete with no character under the
 cursor does not panic

For example dge in vi mode on an empty line removed the range 0..1 of an
empty buffer.
---
 src/editor.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index fc828e2..aebb688 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -833,10 +833,9 @@ impl<C: EditorContext> Editor<C> {
     pub fn delete_until_inclusive(&mut self, position: usize) -> io::Result<()> {
         {
             let buf = cur_buf_mut!(self);
-            buf.remove(
-                cmp::min(self.cursor, position),
-                cmp::max(self.cursor + 1, position + 1),
-            );
+            // There may be no character under the cursor (e.g. the line is empty).
+            let end = cmp::min(cmp::max(self.cursor, position) + 1, buf.num_chars());
+            buf.remove(cmp::min(self.cursor, position), end);
             self.cursor = cmp::min(self.cursor, position);
         }
         self.display()
-- 
2.43.0


From 2dfd7dc8c9cd74651873f3f9aa68c16ed9875215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 04/45] fix: searching for a multi-line pattern does not reach
 unreachable code

Starting a search while the line contained line breaks could place the cursor
below the last printed line and panic.
---
 src/editor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index aebb688..e77fc53 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1043,6 +1043,10 @@ impl<C: EditorContext> Editor<C> {
         } else {
             calc_width(prompt_width, &buf_widths_to_cursor, terminal_width)
         };
+        // The cursor is never past what gets printed. While searching the two widths are computed
+        // with different prompts, and a pattern with line breaks or control characters takes less
+        // room in the search prompt than in the buffer.
+        let new_total_width_to_cursor = cmp::min(new_total_width_to_cursor, new_total_width);
 
         let new_num_lines = (new_total_width + terminal_width) / terminal_width;
 
-- 
2.43.0


From 3effeabedbf4488a72ce916f9885468abc04a443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 05/45] fix: a word that starts with a backslash includes it

---
 src/context.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/context.rs b/src/context.rs
index 1e87ba8..6deb7d7 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -23,6 +23,8 @@ pub fn get_buffer_words(buf: &Buffer) -> Vec<(usize, usize)> {
 
     for (i, &c) in buf.chars().enumerate() {
         if c == '\\' {
+            // a backslash is part of the word, also when the word starts with it
+            word_start = word_start.or(Some(i));
             just_had_backslash = true;
             continue;
         }
-- 
2.43.0


From 184ab03d4daea4c7a9a0aa893ffa548a8e7b5512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 06/45] fix: repeated last-argument recall replaces exactly
 what the previous recall inserted

---
 src/keymap/emacs.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/keymap/emacs.rs b/src/keymap/emacs.rs
index 9ee5b3d..6b7f3a4 100644
--- a/src/keymap/emacs.rs
+++ b/src/keymap/emacs.rs
@@ -16,6 +16,8 @@ use crate::KeyMap;
 #[derive(Default)]
 pub struct Emacs {
     last_arg_fetch_index: Option<usize>,
+    // What the last arg fetch inserted.
+    last_arg_fetched: Vec<char>,
 }
 
 impl Emacs {
@@ -77,16 +79,18 @@ impl Emacs {
         // If did a last arg fetch just before this, we need to delete it so it can be replaced by
         // this last arg fetch.
         if self.last_arg_fetch_index.is_some() {
-            let buffer_len = ed.current_buffer().num_chars();
-            if let Some(last_arg_len) = ed.current_buffer().last_arg().map(|x| x.len()) {
-                ed.delete_until(buffer_len - last_arg_len)?;
+            let end = ed.cursor();
+            let start = end.saturating_sub(self.last_arg_fetched.len());
+            if start < end && ed.current_buffer().range_chars(start, end) == self.last_arg_fetched {
+                ed.delete_until(start)?;
             }
         }
 
         // Actually insert it
         let buf = ed.context().history()[history_index].clone();
-        if let Some(last_arg) = buf.last_arg() {
-            ed.insert_chars_after_cursor(last_arg)?;
+        self.last_arg_fetched = buf.last_arg().unwrap_or_default().to_vec();
+        if !self.last_arg_fetched.is_empty() {
+            ed.insert_chars_after_cursor(&self.last_arg_fetched)?;
         }
 
         // Edit the index in case the user does a last arg fetch again.
-- 
2.43.0


From 14a8db9a13c2ff59f6f7a6cac0cd371fc4d06881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 07/45] fix: Home and End complete a vi operator and use up the
 count like other motions

---
 src/keymap/vi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 979e287..819c2ca 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -790,11 +790,11 @@ impl Vi {
                 self.count = self.count.saturating_mul(10).saturating_add(i);
                 Ok(())
             }
-            Key::Char('^') => {
+            Key::Char('^') | Key::Home => {
                 ed.move_cursor_to_start_of_line()?;
                 self.pop_mode_after_movement(Exclusive, ed)
             }
-            Key::Char('$') => {
+            Key::Char('$') | Key::End => {
                 ed.move_cursor_to_end_of_line()?;
                 self.pop_mode_after_movement(Exclusive, ed)
             }
-- 
2.43.0


From f45c597c1d089347dd18543926d627ddfaac19f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 08/45] fix: vi e and E are inclusive motions for operators

---
 src/keymap/vi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 819c2ca..c86522f 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -758,12 +758,12 @@ impl Vi {
             Key::Char('e') => {
                 let count = self.move_count();
                 move_to_end_of_word(ed, count)?;
-                self.pop_mode_after_movement(Exclusive, ed)
+                self.pop_mode_after_movement(Inclusive, ed)
             }
             Key::Char('E') => {
                 let count = self.move_count();
                 move_to_end_of_word_ws(ed, count)?;
-                self.pop_mode_after_movement(Exclusive, ed)
+                self.pop_mode_after_movement(Inclusive, ed)
             }
             Key::Char('b') => {
                 let count = self.move_count();
-- 
2.43.0


From e8ad7c68308256e2f9df8b91b673144a9aa2c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 09/45] fix: a count before d0 and c0 does not turn the motion
 into a digit

---
 src/keymap/vi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index c86522f..379d22a 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -912,6 +912,8 @@ impl Vi {
                 // set count
                 self.count = match (self.count, self.secondary_count) {
                     (0, 0) => 0,
+                    // 0 takes no count, and is a digit when there is one
+                    (0, _) if key == Key::Char('0') => 0,
                     (_, 0) => self.count,
                     (0, _) => self.secondary_count,
                     _ => {
-- 
2.43.0


From c56a18f70de447fa61f401a58071178a3f127c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 10/45] fix: aborting a vi change closes the undo group it
 opened

---
 src/keymap/vi.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 379d22a..9bf1139 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -47,6 +47,10 @@ impl ModeStack {
         self.0.last().cloned().unwrap_or(Mode::Normal)
     }
 
+    fn contains(&self, m: Mode) -> bool {
+        self.0.contains(&m)
+    }
+
     /// Empty the stack and return to normal mode.
     fn clear(&mut self) {
         self.0.clear()
@@ -463,6 +467,10 @@ impl Vi {
 
     /// Return to normal mode.
     fn normal_mode_abort<C: EditorContext>(&mut self, mut ed: &mut Editor<C>) -> io::Result<()> {
+        // an aborted change has already started its undo group
+        if self.mode_stack.contains(Mode::Insert) {
+            ed.current_buffer_mut().end_undo_group();
+        }
         self.mode_stack.clear();
         ed.no_eol = true;
         self.count = 0;
-- 
2.43.0


From ad6014c6ad516095d6a69879549ee0be4f65f412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 11/45] fix: a vi operator whose motion fails changes nothing

---
 src/keymap/vi.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 9bf1139..dc371f9 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -1011,28 +1011,28 @@ impl Vi {
                         move_type = Inclusive;
                         match find_char(ed.current_buffer(), ed.cursor() + 1, c, count) {
                             Some(i) => ed.move_cursor_to(i - 1),
-                            None => Ok(()),
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     RightAt => {
                         move_type = Inclusive;
                         match find_char(ed.current_buffer(), ed.cursor() + 1, c, count) {
                             Some(i) => ed.move_cursor_to(i),
-                            None => Ok(()),
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     LeftUntil => {
                         move_type = Exclusive;
                         match find_char_rev(ed.current_buffer(), ed.cursor(), c, count) {
                             Some(i) => ed.move_cursor_to(i + 1),
-                            None => Ok(()),
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     LeftAt => {
                         move_type = Exclusive;
                         match find_char_rev(ed.current_buffer(), ed.cursor(), c, count) {
                             Some(i) => ed.move_cursor_to(i),
-                            None => Ok(()),
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     Repeat | ReverseRepeat => unreachable!(),
@@ -1054,6 +1054,8 @@ impl Vi {
         self.current_command.push(key);
 
         let res = match key {
+            // there is nothing before the start of the line
+            Key::Char('e') | Key::Char('E') if ed.cursor() == 0 => self.normal_mode_abort(ed),
             Key::Char('e') => {
                 move_to_end_of_word_back(ed, count)?;
                 self.pop_mode_after_movement(Inclusive, ed)
-- 
2.43.0


From 61240e96c087bfe61f01f790b46c3c0aa769b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 12/45] fix: dot after C repeats the whole change and returns
 to normal mode

---
 src/keymap/vi.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index dc371f9..bd5422a 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -695,14 +695,10 @@ impl Vi {
                 ed.delete_all_after_cursor()
             }
             Key::Char('C') => {
-                // update the last command state
-                self.last_insert = None;
-                self.last_command.clear();
-                self.last_command.push(key);
+                self.last_insert = Some(key);
                 self.count = 0;
-                self.last_count = 0;
 
-                self.set_mode_preserve_last(Insert, ed)?;
+                self.set_mode(Insert, ed)?;
                 ed.delete_all_after_cursor()
             }
             Key::Char('.') => {
-- 
2.43.0


From 8482db5866dd7225244ac875f0a5d6a18b1dcb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:19 +0000
Subject: [PATCH 13/45] fix: dot after dd and cc repeats them and not an
 earlier change

---
 src/keymap/vi.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index bd5422a..773a993 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -935,12 +935,11 @@ impl Vi {
             // handle numeric keys
             (Key::Char('0'..='9'), _) => self.handle_key_normal(key, ed),
             (Key::Char('c'), Some(Key::Char('c'))) | (Key::Char('d'), None) => {
-                // updating the last command buffer doesn't really make sense in this context.
-                // Repeating 'dd' will simply erase and already erased line. Any other commands
-                // will then become the new last command and the user will need to press 'dd' again
-                // to clear the line. The same largely applies to the 'cc' command. We update the
-                // last command here anyway ¯\_(ツ)_/¯
+                // update the last state
                 self.current_command.push(key);
+                mem::swap(&mut self.last_command, &mut self.current_command);
+                self.last_insert = self.current_insert;
+                self.last_count = 0;
 
                 // delete the whole line
                 self.count = 0;
-- 
2.43.0


From 352e3b7881251b4b041ff1b2a28da48021cddad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 14/45] fix: vi ~ uses up its count

---
 src/keymap/vi.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 773a993..d11ef9d 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -838,6 +838,7 @@ impl Vi {
                         ed.move_cursor_right(1)?;
                     }
                 }
+                self.count = 0;
                 self.pop_mode(ed)?;
                 Ok(())
             }
-- 
2.43.0


From 6aa5b2633e642c3baac6df50e8fab1c3297c6e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 15/45] fix: repeating a vi change that fails does not run its
 text as commands

---
 src/keymap/vi.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index d11ef9d..255c38c 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -507,7 +507,12 @@ impl Vi {
             self.handle_key_core(insert_key, ed)?;
         }
 
+        let inserts = self.last_insert.is_some();
         for k in &keys {
+            if inserts && self.mode() == Mode::Normal {
+                // the change failed (e.g. its motion found nothing), the rest is not a command
+                break;
+            }
             self.handle_key_core(*k, ed)?;
         }
 
-- 
2.43.0


From ca3fc1890deb3dbf6fc9899622175318e4c4a1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:22 +0000
Subject: [PATCH 16/45] fix: an aborted vi change does not forget what dot
 repeats

---
 src/keymap/vi.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 255c38c..9116a10 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -680,7 +680,8 @@ impl Vi {
                     // handle special 'c' key stuff
                     self.current_insert = Some(key);
                     self.current_command.clear();
-                    self.set_mode(Insert, ed)?;
+                    // the last command is replaced only once the change is made
+                    self.set_mode_preserve_last(Insert, ed)?;
                 }
 
                 let start_pos = ed.cursor();
-- 
2.43.0


From e427c271aebf34c9791f79c08ac3d6f2b30495ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 17/45] fix: dot repeats a character-search change with its
 count

---
 src/keymap/vi.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 9116a10..119e645 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -976,7 +976,6 @@ impl Vi {
         use self::MoveType::*;
 
         let count = self.move_count();
-        self.count = 0;
 
         let (key, movement) = match (key, movement, self.last_char_movement) {
             // repeat the last movement
@@ -1041,7 +1040,9 @@ impl Vi {
                 }?;
 
                 // go back to the previous mode
-                self.pop_mode_after_movement(move_type, ed)
+                let res = self.pop_mode_after_movement(move_type, ed);
+                self.count = 0;
+                res
             }
 
             // can't get here due to our match above
-- 
2.43.0


From 270efc76f2613b7f782e54992fd0c6407c04e0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 18/45] fix: undo of a recalled history entry stops at the
 entry as recalled

---
 src/editor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index e77fc53..cc50071 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -228,6 +228,8 @@ macro_rules! cur_buf_mut {
             Some(i) => {
                 if !$s.hist_buf_valid {
                     $s.hist_buf.copy_buffer(&$s.context.history()[i]);
+                    // What was done to get here is not an edit of this entry.
+                    $s.hist_buf.clear_actions();
                     $s.hist_buf_valid = true;
                 }
                 &mut $s.hist_buf
-- 
2.43.0


From ee5e4657b0a85ab4037a7bfc351262bca07417d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 19/45] fix: moving through history is not derailed by clearing
 the screen, accepting text or jumping to its ends

---
 src/editor.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index cc50071..312fa15 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -313,6 +313,13 @@ impl<C: EditorContext> Editor<C> {
     }
 
     fn clear_search(&mut self) {
+        // Outside a search the subset belongs to moving through the history.
+        if self.is_search() {
+            self.clear_history_subset();
+        }
+    }
+
+    fn clear_history_subset(&mut self) {
         self.reverse_search = false;
         self.forward_search = false;
         self.history_subset_loc = None;
@@ -718,6 +725,10 @@ impl<C: EditorContext> Editor<C> {
                         self.history_subset_index.clear();
                         self.history_fresh = false;
                     }
+                } else {
+                    // Got here without matching the new buffer (move_to_start_of_history).
+                    self.cur_history_loc = None;
+                    self.history_fresh = false;
                 }
             } else {
                 match self.cur_history_loc.take() {
@@ -734,6 +745,7 @@ impl<C: EditorContext> Editor<C> {
     /// Moves to the start of history (ie. the earliest history entry).
     pub fn move_to_start_of_history(&mut self) -> io::Result<()> {
         self.hist_buf_valid = false;
+        self.clear_history_subset();
         if self.context.history().is_empty() {
             self.cur_history_loc = None;
             self.display()
@@ -746,6 +758,7 @@ impl<C: EditorContext> Editor<C> {
     /// Moves to the end of history (ie. the new buffer).
     pub fn move_to_end_of_history(&mut self) -> io::Result<()> {
         self.hist_buf_valid = false;
+        self.clear_history_subset();
         if self.cur_history_loc.is_some() {
             self.cur_history_loc = None;
             self.move_cursor_to_end_of_line()
-- 
2.43.0


From b0c224efcbbd25969149e78b34bb7833b719fa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 20/45] fix: remove_duplicates compares entries with their line
 breaks

---
 src/history.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index d1dfad4..5698a0a 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -302,10 +302,7 @@ impl History {
 
     /// Removes duplicate entries in the history
     pub fn remove_duplicates(&mut self, input: &str) {
-        self.buffers.retain(|buffer| {
-            let command = buffer.lines().concat();
-            command != input
-        });
+        self.buffers.retain(|buffer| buffer.to_string() != input);
     }
 
     fn get_match<I>(&self, vals: I, search_term: &Buffer) -> Option<usize>
-- 
2.43.0


From 46422d6279369836acee92e88cce4bf985675678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 21/45] fix: an unreadable line or file does not lose the rest
 of the history

---
 src/history.rs | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 5698a0a..043f313 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -114,20 +114,11 @@ impl History {
             self.clear_history();
         }
         if new_length != length {
+            let lines = History::read_lines(file)?;
             if !append {
                 self.clear_history();
             }
-            let reader = BufReader::new(file);
-            for line in reader.lines() {
-                match line {
-                    Ok(line) => {
-                        if !line.starts_with('#') {
-                            self.buffers.push_back(Buffer::from(line));
-                        }
-                    }
-                    Err(_) => break,
-                }
-            }
+            self.buffers.extend(lines.into_iter().map(Buffer::from));
             self.truncate();
             if !self.load_duplicates {
                 let mut tmp_buffers: Vec<Buffer> = Vec::with_capacity(self.buffers.len());
@@ -144,6 +135,23 @@ impl History {
         Ok(new_length)
     }
 
+    /// Reads the entries of a history file, skipping comments and lines that are not valid text.
+    fn read_lines(file: File) -> io::Result<Vec<String>> {
+        let mut lines = Vec::new();
+        for line in BufReader::new(file).lines() {
+            match line {
+                Ok(line) => {
+                    if !line.starts_with('#') {
+                        lines.push(line);
+                    }
+                }
+                Err(ref e) if e.kind() == io::ErrorKind::InvalidData => (),
+                Err(e) => return Err(e),
+            }
+        }
+        Ok(lines)
+    }
+
     /// Removes duplicates and trims a history file to max_file_size.
     /// Primarily if inc_append is set without shared history.
     /// Static because it should have no side effects on a history object.
@@ -158,18 +166,7 @@ impl History {
             let status = format!("File not found {:?}", path);
             return Err(io::Error::new(io::ErrorKind::Other, status));
         };
-        let mut buf: VecDeque<String> = VecDeque::new();
-        let reader = BufReader::new(file);
-        for line in reader.lines() {
-            match line {
-                Ok(line) => {
-                    if !line.starts_with('#') {
-                        buf.push_back(line);
-                    }
-                }
-                Err(_) => break,
-            }
-        }
+        let mut buf: VecDeque<String> = History::read_lines(file)?.into();
         let org_length = buf.len();
         if buf.len() >= max_file_size {
             let pop_out = buf.len() - max_file_size;
-- 
2.43.0


From 037e294ae33bc9600421169c4e3555bbeb3dc26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 22/45] fix: the pushed entry that triggers compaction of the
 history file is not lost

---
 src/history.rs | 40 ++++++++++++++++------------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 043f313..7cb24e9 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -253,7 +253,18 @@ impl History {
         }
 
         if self.inc_append && self.file_name.is_some() {
-            if !self.load_duplicates {
+            let file_name = self.file_name.clone().unwrap();
+            let appended = std::fs::OpenOptions::new()
+                .append(true)
+                .open(&file_name)
+                .and_then(|mut file| file.write_all(format!("{}\n", item_str).as_bytes()))
+                .is_ok();
+            // Leave file size alone, if it is not right trigger a reload later.
+            if appended {
+                // Save the filesize after each append so we do not reload when we do not need to.
+                self.file_size += item_str.len() as u64 + 1;
+            }
+            if appended && !self.load_duplicates {
                 // Do not want duplicates so periodically compact the history file.
                 self.compaction_writes += 1;
                 // Every 30 writes "compact" the history file by writing just in memory history.  This
@@ -261,37 +272,18 @@ impl History {
                 // history size at it's worst).
                 if self.compaction_writes > 29 {
                     if self.share {
-                        // Reload history, we may be out of sync.
-                        let _ = self.load_history(false);
-                        // Commit the duplicated history.
-                        if let Some(file_name) = self.file_name.clone() {
+                        // Reload history, we may be out of sync.  Only commit the duplicated history
+                        // if that worked, or entries of others would be lost.
+                        if self.load_history_file(&file_name, false).is_ok() {
                             let _ = self.overwrite_history(file_name);
                         }
                     } else {
                         // Not using shared history so just de-dup the file without messing with
                         // our history.
-                        if let Some(file_name) = self.file_name.clone() {
-                            let _ =
-                                History::deduplicate_history_file(file_name, self.max_file_size);
-                        }
+                        let _ = History::deduplicate_history_file(file_name, self.max_file_size);
                     }
                     self.compaction_writes = 0;
                 }
-            } else {
-                // If allowing duplicates then no need for compaction.
-                self.compaction_writes = 1;
-            }
-            let file_name = self.file_name.clone().unwrap();
-            if let Ok(inner_file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
-                // Leave file size alone, if it is not right trigger a reload later.
-                if self.compaction_writes > 0 {
-                    // If 0 we "compacted" and nothing to write.
-                    let mut file = BufWriter::new(inner_file);
-                    let _ = file.write_all(&item_str.as_bytes());
-                    let _ = file.write_all(b"\n");
-                    // Save the filesize after each append so we do not reload when we do not need to.
-                    self.file_size += item_str.len() as u64 + 1;
-                }
             }
         }
         Ok(())
-- 
2.43.0


From f6815d22b3b70760a86332c5db297135717d71d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 23/45] fix: a shared history is not reloaded under the entry
 being shown

---
 src/editor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 312fa15..7edc180 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -676,7 +676,10 @@ impl<C: EditorContext> Editor<C> {
             self.search(false)
         } else {
             self.hist_buf_valid = false;
-            self.freshen_history();
+            if self.cur_history_loc.is_none() {
+                // The entries must not change under the one being shown.
+                self.freshen_history();
+            }
             if self.new_buf.num_chars() > 0 {
                 match self.history_subset_loc {
                     Some(i) if i > 0 => {
-- 
2.43.0


From f600bd8020e21f72ccc7cbe16a5af73e58e6ef92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 24/45] fix: completion asks for the part of the word before
 the cursor only

---
 src/editor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 7edc180..dd91823 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -576,10 +576,12 @@ impl<C: EditorContext> Editor<C> {
 
         let (word, completions) = {
             let word_range = self.get_word_before_cursor(false);
+            let cursor = self.cursor;
             let buf = cur_buf_mut!(self);
 
             let word = match word_range {
-                Some((start, end)) => buf.range(start, end),
+                // What follows the cursor is not replaced, so it is not completed either.
+                Some((start, _)) => buf.range(start, cursor),
                 None => "".into(),
             };
 
-- 
2.43.0


From bdcf04e709ff129f429869492a8042abf65f0739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:08 +0000
Subject: [PATCH 25/45] fix: cycling through completions replaces exactly the
 previous candidate

---
 src/editor.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index dd91823..8c1f9f6 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -563,6 +563,11 @@ impl<C: EditorContext> Editor<C> {
                     cur_buf_mut!(self).truncate(0);
                     self.cursor = 0;
                 }
+                // A candidate can be more, or less, than a word.
+                Some(x) if self.is_before_cursor(&completions[x]) => {
+                    let len = completions[x].chars().count();
+                    self.cursor -= cur_buf_mut!(self).remove(self.cursor - len, self.cursor);
+                }
                 _ => self.delete_word_before_cursor(false)?,
             }
             self.insert_str_after_cursor(&completions[i])?;
@@ -623,6 +628,14 @@ impl<C: EditorContext> Editor<C> {
         }
     }
 
+    /// Is `s` the text directly before the cursor?
+    fn is_before_cursor(&self, s: &str) -> bool {
+        match self.cursor.checked_sub(s.chars().count()) {
+            Some(start) => cur_buf!(self).range(start, self.cursor) == s,
+            None => false,
+        }
+    }
+
     fn get_word_before_cursor(&self, ignore_space_before_cursor: bool) -> Option<(usize, usize)> {
         let (mut words, pos) = self.get_words_and_cursor_position();
         match pos {
-- 
2.43.0


From 747eb152f6a0cbe2dadefc895e5d9e573df060ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:57 +0000
Subject: [PATCH 26/45] fix: file name completion addresses the directory that
 was typed

A "." at the end or a quote not yet closed made it look for something else,
it panicked on "." without a working directory and on a quote before a
multi-byte character, and without a working directory it found nothing.
---
 src/complete.rs | 89 ++++++++++++++-----------------------------------
 1 file changed, 25 insertions(+), 64 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index 6d75730..23e9223 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -59,59 +59,35 @@ impl Completer for FilenameCompleter {
         // XXX: this function is really bad, TODO rewrite
 
         let start_owned: String = if start.starts_with('\"') || start.starts_with('\'') {
+            let quote = &start[..1];
             start = &start[1..];
-            if !start.is_empty() {
-                start = &start[..start.len() - 1];
-            }
+            start = start.strip_suffix(quote).unwrap_or(start);
             start.into()
         } else {
             start.replace(r"\ ", " ")
         };
 
-        let start_path = PathBuf::from(start_owned.as_str());
-
-        let full_path = match self.working_dir {
-            Some(ref wd) => {
-                let mut fp = PathBuf::from(wd);
-                fp.push(start_owned.as_str());
-                fp
-            }
-            None => PathBuf::from(start_owned.as_str()),
+        // What comes before the name being completed, and the start of that name. (`Path` does not
+        // tell: it ignores a "." and a second '/'.)
+        // XXX non-unix separaor
+        let (start_dir, start_name) = if start_owned == ".." || start_owned.ends_with("/..") {
+            (format!("{}/", start_owned), "")
+        } else {
+            let (start_dir, start_name) =
+                start_owned.split_at(start_owned.rfind('/').map_or(0, |i| i + 1));
+            (start_dir.to_owned(), start_name)
+        };
+        let start_name = if self.case_sensitive {
+            start_name.to_owned()
+        } else {
+            start_name.to_lowercase()
         };
 
-        let p;
-        let start_name;
-        let completing_dir;
-        match full_path.parent() {
-            // XXX non-unix separaor
-            Some(parent)
-                if !start.is_empty()
-                    && !start_owned.ends_with('/')
-                    && !full_path.ends_with("..") =>
-            {
-                p = parent;
-                start_name = if self.case_sensitive {
-                    full_path
-                        .file_name()
-                        .unwrap()
-                        .to_string_lossy()
-                        .into_owned()
-                } else {
-                    full_path
-                        .file_name()
-                        .unwrap()
-                        .to_string_lossy()
-                        .to_lowercase()
-                };
-                completing_dir = false;
-            }
-            _ => {
-                p = full_path.as_path();
-                start_name = "".into();
-                completing_dir =
-                    start.is_empty() || start.ends_with('/') || full_path.ends_with("..");
-            }
-        }
+        let p = match self.working_dir {
+            Some(ref wd) => wd.join(&start_dir),
+            None if start_dir.is_empty() => PathBuf::from("."),
+            None => PathBuf::from(&start_dir),
+        };
 
         let read_dir = match p.read_dir() {
             Ok(x) => x,
@@ -132,28 +108,13 @@ impl Completer for FilenameCompleter {
             };
 
             if start_name.is_empty() || file_name.starts_with(&*start_name) {
-                let mut a = start_path.clone();
-                if !a.is_absolute() {
-                    a = PathBuf::new();
-                } else if !completing_dir && !a.pop() {
-                    return vec![];
-                }
-
-                a.push(dir.file_name());
-                let mut s = a.to_string_lossy();
+                let mut s = start_dir.clone();
+                s.push_str(&dir.file_name().to_string_lossy());
                 if dir.path().is_dir() {
-                    let mut string = s.into_owned();
-                    string.push_str("/");
-                    s = string.into();
-                }
-
-                let mut b = PathBuf::from(&start_owned);
-                if !completing_dir {
-                    b.pop();
+                    s.push_str("/");
                 }
-                b.push(s.as_ref());
 
-                matches.push(b.to_string_lossy().replace(" ", r"\ "));
+                matches.push(s.replace(" ", r"\ "));
             }
         }
 
-- 
2.43.0


From 2a02ecf54185d812b7f4a420c8bd5abe251c0032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 27/45] fix: the vi indicator does not say insert while c waits
 for its motion

---
 src/keymap/vi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 119e645..5d8dab0 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -375,6 +375,8 @@ impl Vi {
         if let Some(mode) = match self.mode() {
             Insert => Some(ViPromptMode::Insert),
             Normal => Some(ViPromptMode::Normal),
+            // A change goes through the mode it will leave for.
+            Delete(_) => Some(ViPromptMode::Normal),
             _ => None, // Leave the last one
         } {
             ed.set_vi_mode(mode);
-- 
2.43.0


From 60b38c3987d7a948084da8258b32230005d46810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 28/45] fix: a failing terminal does not panic after ~

---
 src/keymap/vi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 5d8dab0..5d100da 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -462,7 +462,7 @@ impl Vi {
         }
 
         if last_mode == Tilde {
-            ed.display().unwrap();
+            ed.display()?;
         }
         self.set_editor_mode(&mut ed)
     }
-- 
2.43.0


From a7cf267dc15bf393be33ba5fd157611bf79f286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 29/45] fix: a key after a ~ that failed on the terminal does
 not panic

---
 src/keymap/vi.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 5d100da..2cac83d 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -1101,7 +1101,11 @@ impl KeyMap for Vi {
             Mode::Delete(_) => self.handle_key_delete_or_change(key, ed),
             Mode::MoveToChar(movement) => self.handle_key_move_to_char(key, movement, ed),
             Mode::G => self.handle_key_g(key, ed),
-            Mode::Tilde => unreachable!(),
+            Mode::Tilde => {
+                // The terminal failed during the last ~.
+                self.pop_mode(ed)?;
+                self.handle_key_normal(key, ed)
+            }
         }
     }
 }
-- 
2.43.0


From 2fcf2c5ce03abc83e141b407afab0cc2bd21e7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:41 +0000
Subject: [PATCH 30/45] fix: clearing the screen reaches the terminal

---
 src/editor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 8c1f9f6..e3b248a 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -677,8 +677,11 @@ impl<C: EditorContext> Editor<C> {
 
     /// Clears the screen then prints the prompt and current buffer.
     pub fn clear(&mut self) -> io::Result<()> {
-        write!(&mut self.context, "{}{}", clear::All, cursor::Goto(1, 1))
-            .map_err(io::Error::other)?;
+        let clear_screen = format!("{}{}", clear::All, cursor::Goto(1, 1));
+        write!(&mut self.context, "{}", clear_screen).map_err(io::Error::other)?;
+        self.context
+            .terminal_mut()
+            .write_all(clear_screen.as_bytes())?;
 
         self.term_cursor_line = 1;
         self.clear_search();
-- 
2.43.0


From f6b005535bf0696ac027ddd45132ed6dd3358321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:43 +0000
Subject: [PATCH 31/45] fix: the cursor is in place when the entered line is
 shown without its suggestion

---
 src/editor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index e3b248a..31bd918 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1060,13 +1060,13 @@ impl<C: EditorContext> Editor<C> {
         }
 
         let buf_widths = match self.autosuggestion {
-            Some(ref suggestion) => suggestion.width(),
-            None => buf_width,
+            Some(ref suggestion) if show_autosuggest => suggestion.width(),
+            _ => buf_width,
         };
         // Width of the current buffer lines (including autosuggestion) from the start to the cursor
         let buf_widths_to_cursor = match self.autosuggestion {
             // Cursor might overrun autosuggestion with history search.
-            Some(ref suggestion) if self.cursor < suggestion.num_chars() => {
+            Some(ref suggestion) if show_autosuggest && self.cursor < suggestion.num_chars() => {
                 suggestion.range_width(0, self.cursor)
             }
             _ => buf.range_width(0, self.cursor),
-- 
2.43.0


From 4a870f94b23bb2c3349199c179537fc0ad023c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 32/45] fix: showing a match or suggestion with other than
 ASCII text does not panic

---
 src/editor.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 31bd918..136220c 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1109,14 +1109,14 @@ impl<C: EditorContext> Editor<C> {
         write!(&mut out_buf, "{}", prompt).map_err(io::Error::other)?;
 
         // If we have an autosuggestion, we make the autosuggestion the buffer we print out.
-        // We get the number of bytes in the buffer (but NOT the autosuggestion).
+        // We get the number of characters in the buffer (but NOT the autosuggestion).
         // Then, we loop and subtract from that number until it's 0, in which case we are printing
         // the autosuggestion from here on (in a different color).
         let lines = match self.autosuggestion {
             Some(ref suggestion) if show_autosuggest => suggestion.lines(),
             _ => buf.lines(),
         };
-        let mut buf_num_remaining_bytes = buf.num_bytes();
+        let mut buf_num_remaining_chars = buf_num_chars;
 
         let lines_len = lines.len();
         for (i, line) in lines.into_iter().enumerate() {
@@ -1125,10 +1125,14 @@ impl<C: EditorContext> Editor<C> {
                     .map_err(io::Error::other)?;
             }
 
-            if buf_num_remaining_bytes == 0 {
+            let line_num_chars = line.chars().count();
+            if buf_num_remaining_chars == 0 {
                 out_buf.push_str(&line);
-            } else if line.len() > buf_num_remaining_bytes {
-                let start = &line[..buf_num_remaining_bytes];
+            } else if line_num_chars > buf_num_remaining_chars {
+                let (start, rest) = match line.char_indices().nth(buf_num_remaining_chars) {
+                    Some((index, _)) => line.split_at(index),
+                    None => (&line[..], ""),
+                };
                 let start = match self.closure {
                     Some(ref f) => f(start),
                     None => start.to_owned(),
@@ -1140,10 +1144,11 @@ impl<C: EditorContext> Editor<C> {
                 if !self.is_search() {
                     write!(&mut out_buf, "{}", color::Yellow.fg_str()).map_err(io::Error::other)?;
                 }
-                out_buf.push_str(&line[buf_num_remaining_bytes..]);
-                buf_num_remaining_bytes = 0;
+                out_buf.push_str(rest);
+                buf_num_remaining_chars = 0;
             } else {
-                buf_num_remaining_bytes -= line.len();
+                // the line break counts, too
+                buf_num_remaining_chars = buf_num_remaining_chars.saturating_sub(line_num_chars + 1);
                 let written_line = match self.closure {
                     Some(ref f) => f(&line),
                     None => line,
-- 
2.43.0


From d3cd8a29b30288f689849b407d62193a51c24b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 33/45] fix: further lines are indented by exactly the width of
 the prompt

---
 src/editor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 136220c..84e2247 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1121,8 +1121,8 @@ impl<C: EditorContext> Editor<C> {
         let lines_len = lines.len();
         for (i, line) in lines.into_iter().enumerate() {
             if i > 0 {
-                write!(out_buf, "{}", cursor::Right(prompt_width as u16))
-                    .map_err(io::Error::other)?;
+                // (moving the cursor right would not wrap, and always moves it)
+                out_buf.push_str(&" ".repeat(prompt_width));
             }
 
             let line_num_chars = line.chars().count();
-- 
2.43.0


From 0bc254ae0584d2f9b6acaf20226b4b307500630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:23 +0000
Subject: [PATCH 34/45] fix: an empty line without prompt takes one row

---
 src/editor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 84e2247..e4ddca4 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1029,9 +1029,12 @@ impl<C: EditorContext> Editor<C> {
         fn calc_width(prompt_width: usize, buf_widths: &[usize], terminal_width: usize) -> usize {
             let mut total = 0;
 
-            for line in buf_widths {
+            for (i, line) in buf_widths.iter().enumerate() {
                 if total % terminal_width != 0 {
                     total = ((total / terminal_width) + 1) * terminal_width;
+                } else if i > 0 && prompt_width + buf_widths[i - 1] == 0 {
+                    // an empty line takes a row, too
+                    total += terminal_width;
                 }
 
                 total += prompt_width + line;
@@ -1169,7 +1172,8 @@ impl<C: EditorContext> Editor<C> {
         }
 
         // at the end of the line, move the cursor down a line
-        if new_total_width % terminal_width == 0 {
+        let last_line_width = prompt_width + buf_widths.last().unwrap_or(&0);
+        if last_line_width > 0 && new_total_width % terminal_width == 0 {
             out_buf.push_str("\r\n");
         }
 
-- 
2.43.0


From 02298cbd1a676606250ac104cc2ffbaeff6dbe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:37 +0000
Subject: [PATCH 35/45] fix: the cursor is in place with wide characters at the
 margin, while searching and after a prompt of several lines

---
 src/editor.rs | 115 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 72 insertions(+), 43 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index e4ddca4..bbf2a81 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1,8 +1,8 @@
 use std::fmt::{self, Write};
 use std::io::{self, Write as _};
 use std::{cmp, iter, mem};
-use strip_ansi_escapes::strip;
 use termion::{self, clear, color, cursor};
+use unicode_width::{UnicodeWidthChar, UnicodeWidthStr};
 
 use super::complete::Completer;
 use crate::context::ColorClosure;
@@ -995,8 +995,9 @@ impl<C: EditorContext> Editor<C> {
         self.autosuggestion.is_some()
     }
 
-    /// Override the prompt for incremental search if needed.
-    fn search_prompt(&mut self) -> (String, usize) {
+    /// Override the prompt for incremental search if needed. It shows the buffer then; what is shown
+    /// before that is returned, too.
+    fn search_prompt(&mut self) -> (String, String) {
         if self.is_search() {
             // If we are searching override prompt to search prompt.
             let (hplace, color) = if self.history_subset_index.is_empty() {
@@ -1018,38 +1019,59 @@ impl<C: EditorContext> Editor<C> {
                     hplace,
                     self.history_subset_index.len()
                 ),
-                strip(&prefix).len() + 9,
+                format!("{}(search)'", util::remove_codes(prefix)),
             )
         } else {
-            (self.prompt.to_string(), 0)
+            (self.prompt.to_string(), String::new())
         }
     }
 
     fn display_impl(&mut self, show_autosuggest: bool) -> io::Result<()> {
-        fn calc_width(prompt_width: usize, buf_widths: &[usize], terminal_width: usize) -> usize {
-            let mut total = 0;
+        // Number of cells left free if a character of this width goes to the next row because it
+        // does not fit on this one.
+        fn skipped(total: usize, char_width: usize, terminal_width: usize) -> usize {
+            let room = terminal_width - total % terminal_width;
+            if char_width > room {
+                room
+            } else {
+                0
+            }
+        }
 
-            for (i, line) in buf_widths.iter().enumerate() {
-                if total % terminal_width != 0 {
-                    total = ((total / terminal_width) + 1) * terminal_width;
-                } else if i > 0 && prompt_width + buf_widths[i - 1] == 0 {
-                    // an empty line takes a row, too
-                    total += terminal_width;
+        fn calc_width(text: &str, terminal_width: usize) -> usize {
+            let mut total = 0;
+            let mut line_start = 0;
+
+            for (i, line) in text.split('\n').enumerate() {
+                if i > 0 {
+                    if total % terminal_width != 0 {
+                        total = ((total / terminal_width) + 1) * terminal_width;
+                    } else if total == line_start {
+                        // an empty line takes a row, too
+                        total += terminal_width;
+                    }
+                    line_start = total;
                 }
 
-                total += prompt_width + line;
+                let mut end = total;
+                let mut free = 0;
+                for char_width in line.chars().map(|c| c.width().unwrap_or(0)) {
+                    let skip = skipped(end, char_width, terminal_width);
+                    free += skip;
+                    end += skip + char_width;
+                }
+                total += line.width() + free;
             }
 
             total
         }
 
-        let (prompt, rev_prompt_width) = self.search_prompt();
+        let (prompt, rev_prompt) = self.search_prompt();
 
         let terminal_width = util::terminal_width()?;
         let prompt_width = util::last_prompt_line_width(&prompt);
 
         let buf = cur_buf!(self);
-        let buf_width = buf.width();
 
         // Don't let the cursor go over the end!
         let buf_num_chars = buf.num_chars();
@@ -1062,29 +1084,40 @@ impl<C: EditorContext> Editor<C> {
             self.cursor -= 1;
         }
 
-        let buf_widths = match self.autosuggestion {
-            Some(ref suggestion) if show_autosuggest => suggestion.width(),
-            _ => buf_width,
+        // If we have an autosuggestion, we make the autosuggestion the buffer we print out.
+        let shown = match self.autosuggestion {
+            Some(ref suggestion) if show_autosuggest => suggestion,
+            _ => buf,
         };
-        // Width of the current buffer lines (including autosuggestion) from the start to the cursor
-        let buf_widths_to_cursor = match self.autosuggestion {
-            // Cursor might overrun autosuggestion with history search.
-            Some(ref suggestion) if show_autosuggest && self.cursor < suggestion.num_chars() => {
-                suggestion.range_width(0, self.cursor)
-            }
-            _ => buf.range_width(0, self.cursor),
+        // Further lines of the buffer start below the first one, not below the prompt.
+        let indent = " ".repeat(prompt_width);
+        let indented = |s: String| s.replace('\n', &format!("\n{}", indent));
+
+        let text = util::remove_codes(&prompt).into_owned() + &indented(shown.to_string());
+        // The text from the start to the cursor, and what comes next
+        let (text_to_cursor, next) = if self.is_search() {
+            // the buffer is shown in the prompt
+            (
+                rev_prompt + &buf.range(0, self.cursor),
+                buf.char_after(self.cursor),
+            )
+        } else {
+            (
+                util::remove_codes(&prompt).into_owned() + &indented(shown.range(0, self.cursor)),
+                shown.char_after(self.cursor),
+            )
         };
 
         // Total number of terminal spaces taken up by prompt and buffer
-        let new_total_width = calc_width(prompt_width, &buf_widths, terminal_width);
-        let new_total_width_to_cursor = if self.is_search() {
-            calc_width(rev_prompt_width, &buf_widths_to_cursor, terminal_width)
-        } else {
-            calc_width(prompt_width, &buf_widths_to_cursor, terminal_width)
-        };
-        // The cursor is never past what gets printed. While searching the two widths are computed
-        // with different prompts, and a pattern with line breaks or control characters takes less
-        // room in the search prompt than in the buffer.
+        let new_total_width = calc_width(&text, terminal_width);
+        let new_total_width_to_cursor = calc_width(&text_to_cursor, terminal_width);
+        let new_total_width_to_cursor = new_total_width_to_cursor
+            + skipped(
+                new_total_width_to_cursor,
+                next.and_then(|c| c.width()).unwrap_or(0),
+                terminal_width,
+            );
+        // The cursor is never past what gets printed.
         let new_total_width_to_cursor = cmp::min(new_total_width_to_cursor, new_total_width);
 
         let new_num_lines = (new_total_width + terminal_width) / terminal_width;
@@ -1109,23 +1142,19 @@ impl<C: EditorContext> Editor<C> {
         }
 
         // Write the prompt
-        write!(&mut out_buf, "{}", prompt).map_err(io::Error::other)?;
+        out_buf.push_str(&prompt.replace('\n', "\r\n"));
 
-        // If we have an autosuggestion, we make the autosuggestion the buffer we print out.
         // We get the number of characters in the buffer (but NOT the autosuggestion).
         // Then, we loop and subtract from that number until it's 0, in which case we are printing
         // the autosuggestion from here on (in a different color).
-        let lines = match self.autosuggestion {
-            Some(ref suggestion) if show_autosuggest => suggestion.lines(),
-            _ => buf.lines(),
-        };
+        let lines = shown.lines();
         let mut buf_num_remaining_chars = buf_num_chars;
 
         let lines_len = lines.len();
         for (i, line) in lines.into_iter().enumerate() {
             if i > 0 {
                 // (moving the cursor right would not wrap, and always moves it)
-                out_buf.push_str(&" ".repeat(prompt_width));
+                out_buf.push_str(&indent);
             }
 
             let line_num_chars = line.chars().count();
@@ -1172,7 +1201,7 @@ impl<C: EditorContext> Editor<C> {
         }
 
         // at the end of the line, move the cursor down a line
-        let last_line_width = prompt_width + buf_widths.last().unwrap_or(&0);
+        let last_line_width = text.rsplit('\n').next().map_or(0, |line| line.width());
         if last_line_width > 0 && new_total_width % terminal_width == 0 {
             out_buf.push_str("\r\n");
         }
-- 
2.43.0


From 88fe1dfad41319a9b8f68eedfa3abc5b6fdb82ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 36/45] fix: the last line of the prompt is written once

---
 src/editor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index bbf2a81..b8f3489 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -272,9 +272,11 @@ impl<C: EditorContext> Editor<C> {
                 out.write_all(b" ")?; // if the line is not empty, overflow on next line
             }
             out.write_all("\r \r".as_bytes())?; // Erase the "⏎" if nothing overwrites it
-            out.write_all(prompt.split('\n').join("\r\n").as_bytes())?;
+            // The last line of the prompt is written with the buffer.
             if let Some(index) = prompt.rfind('\n') {
-                prompt = prompt.split_at(index + 1).1.into()
+                let last_line = prompt.split_off(index + 1);
+                out.write_all(prompt.split('\n').join("\r\n").as_bytes())?;
+                prompt = last_line;
             }
         }
 
-- 
2.43.0


From e8927fe74db55260ad4b23886866767746e0aa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 37/45] fix: the list of completions takes up the rows it is
 counted with

---
 src/editor.rs | 102 ++++++++++++++++++++++++++------------------------
 1 file changed, 53 insertions(+), 49 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index b8f3489..1866b3b 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -249,6 +249,46 @@ macro_rules! cur_buf {
     };
 }
 
+/// Number of cells left free if a character of this width goes to the next row because it
+/// does not fit on this one.
+fn skipped(total: usize, char_width: usize, terminal_width: usize) -> usize {
+    let room = terminal_width - total % terminal_width;
+    if char_width > room {
+        room
+    } else {
+        0
+    }
+}
+
+/// Number of cells that text takes up on the terminal, with what is left free at the end of rows.
+fn calc_width(text: &str, terminal_width: usize) -> usize {
+    let mut total = 0;
+    let mut line_start = 0;
+
+    for (i, line) in text.split('\n').enumerate() {
+        if i > 0 {
+            if total % terminal_width != 0 {
+                total = ((total / terminal_width) + 1) * terminal_width;
+            } else if total == line_start {
+                // an empty line takes a row, too
+                total += terminal_width;
+            }
+            line_start = total;
+        }
+
+        let mut end = total;
+        let mut free = 0;
+        for char_width in line.chars().map(|c| c.width().unwrap_or(0)) {
+            let skip = skipped(end, char_width, terminal_width);
+            free += skip;
+            end += skip + char_width;
+        }
+        total += line.width() + free;
+    }
+
+    total
+}
+
 impl<C: EditorContext> Editor<C> {
     pub fn new(prompt: Prompt, f: Option<ColorClosure>, context: C) -> io::Result<Self> {
         Editor::new_with_init_buffer(prompt, f, context, Buffer::new())
@@ -503,22 +543,22 @@ impl<C: EditorContext> Editor<C> {
         highlighted: Option<usize>,
         output_buf: &mut String,
     ) -> io::Result<usize> {
-        use std::cmp::max;
+        use std::cmp::{max, min};
 
-        let (w, _) = termion::terminal_size()?;
+        let w = util::terminal_width()?;
 
-        // XXX wide character support
-        let max_word_size = completions.iter().fold(1, |m, x| max(m, x.chars().count()));
-        let cols = max(1, w as usize / (max_word_size));
-        let col_width = 2 + w as usize / cols;
-        let cols = max(1, w as usize / col_width);
+        let max_word_size = completions.iter().fold(1, |m, x| max(m, x.width()));
+        let cols = max(1, w / max_word_size);
+        let col_width = min(2 + w / cols, w);
+        let cols = max(1, w / col_width);
 
-        let lines = completions.len() / cols;
+        let mut lines = 1;
 
         let mut i = 0;
         for (index, com) in completions.iter().enumerate() {
             if i == cols {
                 output_buf.push_str("\r\n");
+                lines += 1;
                 i = 0;
             } else if i > cols {
                 unreachable!()
@@ -533,7 +573,10 @@ impl<C: EditorContext> Editor<C> {
                 )
                 .map_err(io::Error::other)?;
             }
-            write!(output_buf, "{:<1$}", com, col_width).map_err(io::Error::other)?;
+            output_buf.push_str(com);
+            output_buf.push_str(&" ".repeat(col_width.saturating_sub(com.width())));
+            // a candidate wider than the terminal
+            lines += calc_width(com, w).saturating_sub(1) / w;
             if Some(index) == highlighted {
                 write!(
                     output_buf,
@@ -1029,45 +1072,6 @@ impl<C: EditorContext> Editor<C> {
     }
 
     fn display_impl(&mut self, show_autosuggest: bool) -> io::Result<()> {
-        // Number of cells left free if a character of this width goes to the next row because it
-        // does not fit on this one.
-        fn skipped(total: usize, char_width: usize, terminal_width: usize) -> usize {
-            let room = terminal_width - total % terminal_width;
-            if char_width > room {
-                room
-            } else {
-                0
-            }
-        }
-
-        fn calc_width(text: &str, terminal_width: usize) -> usize {
-            let mut total = 0;
-            let mut line_start = 0;
-
-            for (i, line) in text.split('\n').enumerate() {
-                if i > 0 {
-                    if total % terminal_width != 0 {
-                        total = ((total / terminal_width) + 1) * terminal_width;
-                    } else if total == line_start {
-                        // an empty line takes a row, too
-                        total += terminal_width;
-                    }
-                    line_start = total;
-                }
-
-                let mut end = total;
-                let mut free = 0;
-                for char_width in line.chars().map(|c| c.width().unwrap_or(0)) {
-                    let skip = skipped(end, char_width, terminal_width);
-                    free += skip;
-                    end += skip + char_width;
-                }
-                total += line.width() + free;
-            }
-
-            total
-        }
-
         let (prompt, rev_prompt) = self.search_prompt();
 
         let terminal_width = util::terminal_width()?;
@@ -1139,7 +1143,7 @@ impl<C: EditorContext> Editor<C> {
         // If we're cycling through completions, show those
         let mut completion_lines = 0;
         if let Some((completions, i)) = self.show_completions_hint.as_ref() {
-            completion_lines = 1 + Self::print_completion_list(completions, *i, &mut out_buf)?;
+            completion_lines = Self::print_completion_list(completions, *i, &mut out_buf)?;
             out_buf.push_str("\r\n");
         }
 
-- 
2.43.0


From f1739232d3215eaadb5217212303c40f2fba6f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 38/45] fix: the editor lays out for the width of the terminal
 that it writes to

---
 src/editor.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 1866b3b..87b7f1a 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -308,7 +308,7 @@ impl<C: EditorContext> Editor<C> {
         {
             let out = context.terminal_mut();
             out.write_all("⏎".as_bytes())?;
-            for _ in 0..(out.width().unwrap_or(80) - 1) {
+            for _ in 1..out.width().unwrap_or(80) {
                 out.write_all(b" ")?; // if the line is not empty, overflow on next line
             }
             out.write_all("\r \r".as_bytes())?; // Erase the "⏎" if nothing overwrites it
@@ -538,14 +538,23 @@ impl<C: EditorContext> Editor<C> {
         Ok(did)
     }
 
+    /// The width of the terminal that is written to.
+    fn terminal_width(&self) -> io::Result<usize> {
+        match self.context.terminal().width()? {
+            0 => Ok(80),
+            width => Ok(width),
+        }
+    }
+
     fn print_completion_list(
+        &self,
         completions: &[String],
         highlighted: Option<usize>,
         output_buf: &mut String,
     ) -> io::Result<usize> {
         use std::cmp::{max, min};
 
-        let w = util::terminal_width()?;
+        let w = self.terminal_width()?;
 
         let max_word_size = completions.iter().fold(1, |m, x| max(m, x.width()));
         let cols = max(1, w / max_word_size);
@@ -1074,7 +1083,7 @@ impl<C: EditorContext> Editor<C> {
     fn display_impl(&mut self, show_autosuggest: bool) -> io::Result<()> {
         let (prompt, rev_prompt) = self.search_prompt();
 
-        let terminal_width = util::terminal_width()?;
+        let terminal_width = self.terminal_width()?;
         let prompt_width = util::last_prompt_line_width(&prompt);
 
         let buf = cur_buf!(self);
@@ -1143,7 +1152,7 @@ impl<C: EditorContext> Editor<C> {
         // If we're cycling through completions, show those
         let mut completion_lines = 0;
         if let Some((completions, i)) = self.show_completions_hint.as_ref() {
-            completion_lines = Self::print_completion_list(completions, *i, &mut out_buf)?;
+            completion_lines = self.print_completion_list(completions, *i, &mut out_buf)?;
             out_buf.push_str("\r\n");
         }
 
-- 
2.43.0


From 3c7714544ac9cb647269a78c29a5c595ec0f467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 39/45] fix: what follows a line entered in vi's normal mode
 goes below it

---
 src/editor.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 87b7f1a..ca92eec 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -418,8 +418,12 @@ impl<C: EditorContext> Editor<C> {
             self.insert_after_cursor('\n')?;
             Ok(false)
         } else {
+            // The cursor goes to the very end, so that what comes next goes below.
             self.cursor = cur_buf!(self).num_chars();
-            self.display_impl(false)?;
+            let no_eol = mem::replace(&mut self.no_eol, false);
+            let displayed = self.display_impl(false);
+            self.no_eol = no_eol;
+            displayed?;
             self.context.terminal_mut().write_all(b"\r\n")?;
             self.show_completions_hint = None;
             Ok(true)
-- 
2.43.0


From 1163081c2af703633111febf7b6229eee61024db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 40/45] fix: a title sequence ended by ESC \ takes no room in
 the prompt

---
 src/util.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 29fd13d..598b907 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -48,6 +48,7 @@ pub enum AnsiState {
     Esc,
     Csi,
     Osc,
+    OscEsc,
 }
 
 pub fn remove_codes(input: &str) -> Cow<str> {
@@ -68,6 +69,10 @@ pub fn remove_codes(input: &str) -> Cow<str> {
                 },
                 AnsiState::Csi if c.is_ascii_alphabetic() => s = AnsiState::Norm,
                 AnsiState::Osc if c == '\x07' => s = AnsiState::Norm,
+                // (ESC \ ends it, too)
+                AnsiState::Osc if c == '\x1B' => s = AnsiState::OscEsc,
+                AnsiState::OscEsc if c == '\\' => s = AnsiState::Norm,
+                AnsiState::OscEsc if c != '\x1B' => s = AnsiState::Osc,
                 _ => (),
             }
         }
-- 
2.43.0


From baae959d95bf657d1308b038613b21a03b81e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 41/45] fix: stop a counted word motion once it cannot move any
 further

---
 src/keymap/vi.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 2cac83d..28ffd21 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -175,6 +175,7 @@ fn vi_move_word<C: EditorContext>(
     let mut cursor = ed.cursor();
     'repeat: for _ in 0..count {
         let buf = ed.current_buffer();
+        let start = cursor;
         let mut state = match buf.char_after(cursor) {
             None => break,
             Some(c) => match c {
@@ -207,6 +208,11 @@ fn vi_move_word<C: EditorContext>(
                 },
             }
         }
+
+        // nowhere left to go, whatever the count
+        if cursor == start {
+            break;
+        }
     }
 
     ed.move_cursor_to(cursor)
@@ -244,6 +250,7 @@ fn vi_move_word_end<C: EditorContext>(
     let mut cursor = ed.cursor();
     'repeat: for _ in 0..count {
         let buf = ed.current_buffer();
+        let start = cursor;
         let mut state = State::Whitespace;
 
         while direction.advance(&mut cursor, buf.num_chars()) {
@@ -284,6 +291,11 @@ fn vi_move_word_end<C: EditorContext>(
                 _ => {}
             }
         }
+
+        // nowhere left to go, whatever the count
+        if cursor == start {
+            break;
+        }
     }
 
     ed.move_cursor_to(cursor)
-- 
2.43.0


From 1dcf397c1284725bfde08a5e83eb7db721aa8de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:55 +0000
Subject: [PATCH 42/45] fix: do not repeat an empty insertion count times

---
 src/keymap/vi.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 28ffd21..fef8181 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -572,6 +572,10 @@ impl Vi {
                 if self.count > 0 {
                     self.last_count = self.count;
                     for _ in 1..self.count {
+                        if self.last_command.is_empty() {
+                            // nothing to repeat, whatever the count
+                            break;
+                        }
                         let keys = mem::replace(&mut self.last_command, Vec::new());
                         for k in keys {
                             self.handle_key_core(k, ed)?;
-- 
2.43.0


From ed13f8e47ba065e0dfb24b7088d206f93501ce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:37 +0000
Subject: [PATCH 43/45] fix: colour all of a suggestion that goes on in a new
 line

---
 src/editor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index ca92eec..23b92a1 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1178,6 +1178,9 @@ impl<C: EditorContext> Editor<C> {
 
             let line_num_chars = line.chars().count();
             if buf_num_remaining_chars == 0 {
+                if !self.is_search() && self.is_currently_showing_autosuggestion() {
+                    write!(&mut out_buf, "{}", color::Yellow.fg_str()).map_err(io::Error::other)?;
+                }
                 out_buf.push_str(&line);
             } else if line_num_chars > buf_num_remaining_chars {
                 let (start, rest) = match line.char_indices().nth(buf_num_remaining_chars) {
-- 
2.43.0


From 524cad088bd8418518f7837f0227f5b7ea1f939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:38 +0000
Subject: [PATCH 44/45] fix: taking the line leaves the history and the cursor
 in order

---
 src/editor.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 23b92a1..72d27ca 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1287,17 +1287,10 @@ impl<C: EditorContext> Editor<C> {
 
     /// Remove and return the current buffer of commands to execute
     pub fn take_exec_buffer(&mut self) -> String {
-        mem::take(match self.cur_history_loc {
-            Some(i) => {
-                if self.hist_buf_valid {
-                    &mut self.hist_buf
-                } else {
-                    &mut self.context.history_mut()[i]
-                }
-            }
-            _ => &mut self.new_buf,
-        })
-        .into()
+        // (a recalled entry stays in the history)
+        let taken = mem::take(cur_buf_mut!(self));
+        self.cursor = 0;
+        taken.into()
     }
 }
 
-- 
2.43.0


From e72d142f35648f772a1cbcc81cfcd23ea60cf5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:55 +0000
Subject: [PATCH 45/45] fix: fetching a last argument after the shared history
 shrank does not panic

---
 src/keymap/emacs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/keymap/emacs.rs b/src/keymap/emacs.rs
index 6b7f3a4..2376f65 100644
--- a/src/keymap/emacs.rs
+++ b/src/keymap/emacs.rs
@@ -1,3 +1,4 @@
+use std::cmp;
 use std::io;
 use termion::event::Key;
 
@@ -70,7 +71,8 @@ impl Emacs {
 
         let history_index = match self.last_arg_fetch_index {
             Some(0) => return Ok(()),
-            Some(x) => x - 1,
+            // The history can have become shorter since (it may be shared with other sessions).
+            Some(x) => cmp::min(x, ed.context().history().len()) - 1,
             None => ed
                 .current_history_location()
                 .unwrap_or(ed.context().history().len() - 1),
-- 
2.43.0

