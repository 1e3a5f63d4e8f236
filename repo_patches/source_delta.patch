From 736ea7b4612afb189ff32a47a04cfac8d80046a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 01/48] fix: lay out the line by the width of the editor's own
 terminal

---
 src/editor.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index dbf752d..31eaab8 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -2,7 +2,7 @@ use std::fmt::{self, Write};
 use std::io::{self, Write as _};
 use std::{cmp, iter, mem};
 use strip_ansi_escapes::strip;
-use termion::{self, clear, color, cursor};
+use termion::{clear, color, cursor};
 
 use super::complete::Completer;
 use crate::context::ColorClosure;
@@ -490,17 +490,18 @@ impl<C: EditorContext> Editor<C> {
     fn print_completion_list(
         completions: &[String],
         highlighted: Option<usize>,
+        terminal_width: usize,
         output_buf: &mut String,
     ) -> io::Result<usize> {
         use std::cmp::max;
 
-        let (w, _) = termion::terminal_size()?;
+        let w = terminal_width;
 
         // XXX wide character support
         let max_word_size = completions.iter().fold(1, |m, x| max(m, x.chars().count()));
-        let cols = max(1, w as usize / (max_word_size));
-        let col_width = 2 + w as usize / cols;
-        let cols = max(1, w as usize / col_width);
+        let cols = max(1, w / (max_word_size));
+        let col_width = 2 + w / cols;
+        let cols = max(1, w / col_width);
 
         let lines = completions.len() / cols;
 
@@ -1007,7 +1008,7 @@ impl<C: EditorContext> Editor<C> {
 
         let (prompt, rev_prompt_width) = self.search_prompt();
 
-        let terminal_width = util::terminal_width()?;
+        let terminal_width = self.context.terminal().width()?;
         let prompt_width = util::last_prompt_line_width(&prompt);
 
         let buf = cur_buf!(self);
@@ -1062,7 +1063,12 @@ impl<C: EditorContext> Editor<C> {
         // If we're cycling through completions, show those
         let mut completion_lines = 0;
         if let Some((completions, i)) = self.show_completions_hint.as_ref() {
-            completion_lines = 1 + Self::print_completion_list(completions, *i, &mut out_buf)?;
+            completion_lines = 1 + Self::print_completion_list(
+                completions,
+                *i,
+                terminal_width,
+                &mut out_buf,
+            )?;
             out_buf.push_str("\r\n");
         }
 
-- 
2.43.0


From c0ef619f8c5a9eac00fcc966e326b476e05a1c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 02/48] fix: count the rows of the completion list as they are
 printed

---
 src/editor.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 31eaab8..4eabbcb 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -503,12 +503,13 @@ impl<C: EditorContext> Editor<C> {
         let col_width = 2 + w / cols;
         let cols = max(1, w / col_width);
 
-        let lines = completions.len() / cols;
+        let mut lines = 0;
 
         let mut i = 0;
         for (index, com) in completions.iter().enumerate() {
             if i == cols {
                 output_buf.push_str("\r\n");
+                lines += 1;
                 i = 0;
             } else if i > cols {
                 unreachable!()
@@ -523,7 +524,13 @@ impl<C: EditorContext> Editor<C> {
                 )
                 .map_err(io::Error::other)?;
             }
-            write!(output_buf, "{:<1$}", com, col_width).map_err(io::Error::other)?;
+            if cols > 1 {
+                write!(output_buf, "{:<1$}", com, col_width).map_err(io::Error::other)?;
+            } else {
+                // Padding would wrap around here, and so does a word longer than the terminal.
+                output_buf.push_str(com);
+                lines += com.chars().count().saturating_sub(1) / w;
+            }
             if Some(index) == highlighted {
                 write!(
                     output_buf,
-- 
2.43.0


From d9993013c9cc41a0f87ab21320e0ac5ac0e24763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 03/48] fix: compute where the redrawn line wraps from what is
 printed

The widths of an autosuggestion that is not shown any more were used for
the cursor on Enter, the text typed was cut off the suggestion by bytes
(panicking inside a character), moves by 0 columns moved by 1, an empty
prompt printed a new line with each redraw, continuation lines after a
prompt as wide as the terminal and wide characters at its edge were
misplaced, and so was the cursor while searching.
---
 src/editor.rs | 187 +++++++++++++++++++++++++++-----------------------
 1 file changed, 103 insertions(+), 84 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 4eabbcb..d01dd5c 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1,13 +1,13 @@
 use std::fmt::{self, Write};
 use std::io::{self, Write as _};
 use std::{cmp, iter, mem};
-use strip_ansi_escapes::strip;
 use termion::{clear, color, cursor};
 
 use super::complete::Completer;
 use crate::context::ColorClosure;
 use crate::{event::*, util, Buffer, EditorContext, Tty};
 use itertools::Itertools;
+use unicode_width::UnicodeWidthChar;
 
 /// Indicates the mode that should be currently displayed in the propmpt.
 #[derive(Clone, Copy, Debug)]
@@ -969,7 +969,8 @@ impl<C: EditorContext> Editor<C> {
     }
 
     /// Override the prompt for incremental search if needed.
-    fn search_prompt(&mut self) -> (String, usize) {
+    /// The second string is what precedes the text to search for in that prompt.
+    fn search_prompt(&mut self) -> (String, String) {
         if self.is_search() {
             // If we are searching override prompt to search prompt.
             let (hplace, color) = if self.history_subset_index.is_empty() {
@@ -980,46 +981,49 @@ impl<C: EditorContext> Editor<C> {
                     color::Green.fg_str(),
                 )
             };
-            let prefix = self.prompt.prefix();
+            let start = format!("{}(search)'", self.prompt.prefix());
             (
                 format!(
-                    "{}(search)'{}{}{}` ({}/{}): ",
-                    &prefix,
+                    "{}{}{}{}` ({}/{}): ",
+                    start,
                     color,
-                    self.current_buffer(),
+                    // the prompt has to stay on one line
+                    self.current_buffer().to_string().replace('\n', " "),
                     color::Reset.fg_str(),
                     hplace,
                     self.history_subset_index.len()
                 ),
-                strip(&prefix).len() + 9,
+                util::remove_codes(&start).into_owned(),
             )
         } else {
-            (self.prompt.to_string(), 0)
+            (self.prompt.to_string(), String::new())
         }
     }
 
     fn display_impl(&mut self, show_autosuggest: bool) -> io::Result<()> {
-        fn calc_width(prompt_width: usize, buf_widths: &[usize], terminal_width: usize) -> usize {
-            let mut total = 0;
-
-            for line in buf_widths {
-                if total % terminal_width != 0 {
-                    total = ((total / terminal_width) + 1) * terminal_width;
+        /// Where the terminal's cursor is after `text` has been printed from `(row, col)`. The
+        /// column is the terminal's width if the next character is going to wrap around.
+        fn print_from(
+            (mut row, mut col): (usize, usize),
+            text: &str,
+            terminal_width: usize,
+        ) -> (usize, usize) {
+            for width in text.chars().filter_map(UnicodeWidthChar::width) {
+                if col + width > terminal_width {
+                    row += 1;
+                    col = 0;
                 }
-
-                total += prompt_width + line;
+                col += width;
             }
-
-            total
+            (row, col)
         }
 
-        let (prompt, rev_prompt_width) = self.search_prompt();
+        let (prompt, search_prompt_start) = self.search_prompt();
 
         let terminal_width = self.context.terminal().width()?;
         let prompt_width = util::last_prompt_line_width(&prompt);
 
         let buf = cur_buf!(self);
-        let buf_width = buf.width();
 
         // Don't let the cursor go over the end!
         let buf_num_chars = buf.num_chars();
@@ -1032,28 +1036,55 @@ impl<C: EditorContext> Editor<C> {
             self.cursor -= 1;
         }
 
-        let buf_widths = match self.autosuggestion {
-            Some(ref suggestion) => suggestion.width(),
-            None => buf_width,
+        // If we have an autosuggestion, we make the autosuggestion the buffer we print out.
+        let lines = match self.autosuggestion {
+            Some(ref suggestion) if show_autosuggest => suggestion.lines(),
+            _ => buf.lines(),
         };
-        // Width of the current buffer lines (including autosuggestion) from the start to the cursor
-        let buf_widths_to_cursor = match self.autosuggestion {
-            // Cursor might overrun autosuggestion with history search.
-            Some(ref suggestion) if self.cursor < suggestion.num_chars() => {
-                suggestion.range_width(0, self.cursor)
+
+        // Terminal positions, relative to the start of the prompt, at the end of some lines
+        // printed after the prompt.
+        let indent = " ".repeat(prompt_width);
+        let prompt_end = print_from(
+            (0, 0),
+            &util::remove_codes(util::handle_prompt(&prompt)),
+            terminal_width,
+        );
+        let end_of = |lines: &[String]| {
+            let mut pos = prompt_end;
+            for (i, line) in lines.iter().enumerate() {
+                if i > 0 {
+                    pos = print_from((pos.0 + 1, 0), &indent, terminal_width);
+                }
+                pos = print_from(pos, line, terminal_width);
             }
-            _ => buf.range_width(0, self.cursor),
+            pos
         };
 
-        // Total number of terminal spaces taken up by prompt and buffer
-        let new_total_width = calc_width(prompt_width, &buf_widths, terminal_width);
-        let new_total_width_to_cursor = if self.is_search() {
-            calc_width(rev_prompt_width, &buf_widths_to_cursor, terminal_width)
+        let mut end = end_of(&lines);
+        let mut cursor = if self.is_search() {
+            // The cursor is in the text to search for.
+            let to_cursor = buf.range(0, self.cursor).replace('\n', " ");
+            print_from(
+                (0, 0),
+                &(search_prompt_start + &to_cursor),
+                terminal_width,
+            )
         } else {
-            calc_width(prompt_width, &buf_widths_to_cursor, terminal_width)
+            end_of(&Buffer::from(buf.range(0, self.cursor)).lines())
         };
-
-        let new_num_lines = (new_total_width + terminal_width) / terminal_width;
+        // The cursor goes where the character under it is, which may be on the next line.
+        let under_cursor = match self.autosuggestion {
+            Some(ref suggestion) if show_autosuggest && !self.is_search() => suggestion,
+            _ => buf,
+        };
+        let width_under_cursor = under_cursor
+            .char_after(self.cursor)
+            .and_then(UnicodeWidthChar::width)
+            .map_or(1, |w| cmp::max(w, 1));
+        if cursor.1 + width_under_cursor > terminal_width {
+            cursor = (cursor.0 + 1, 0);
+        }
 
         let mut out_buf = String::new();
 
@@ -1082,50 +1113,43 @@ impl<C: EditorContext> Editor<C> {
         // Write the prompt
         write!(&mut out_buf, "{}", prompt).map_err(io::Error::other)?;
 
-        // If we have an autosuggestion, we make the autosuggestion the buffer we print out.
-        // We get the number of bytes in the buffer (but NOT the autosuggestion).
+        // We get the number of characters in the buffer (but NOT the autosuggestion).
         // Then, we loop and subtract from that number until it's 0, in which case we are printing
         // the autosuggestion from here on (in a different color).
-        let lines = match self.autosuggestion {
-            Some(ref suggestion) if show_autosuggest => suggestion.lines(),
-            _ => buf.lines(),
-        };
-        let mut buf_num_remaining_bytes = buf.num_bytes();
+        let mut buf_num_remaining_chars = buf_num_chars;
+        let mut colored = false;
 
         let lines_len = lines.len();
         for (i, line) in lines.into_iter().enumerate() {
             if i > 0 {
-                write!(out_buf, "{}", cursor::Right(prompt_width as u16))
-                    .map_err(io::Error::other)?;
+                out_buf.push_str(&indent);
             }
 
-            if buf_num_remaining_bytes == 0 {
-                out_buf.push_str(&line);
-            } else if line.len() > buf_num_remaining_bytes {
-                let start = &line[..buf_num_remaining_bytes];
-                let start = match self.closure {
-                    Some(ref f) => f(start),
-                    None => start.to_owned(),
-                };
-                if self.is_search() {
-                    write!(&mut out_buf, "{}", color::Yellow.fg_str()).map_err(io::Error::other)?;
-                }
-                write!(&mut out_buf, "{}", start).map_err(io::Error::other)?;
-                if !self.is_search() {
-                    write!(&mut out_buf, "{}", color::Yellow.fg_str()).map_err(io::Error::other)?;
+            let line_num_chars = line.chars().count();
+            let (start, rest) = match line.char_indices().nth(buf_num_remaining_chars) {
+                Some((at, _)) => line.split_at(at),
+                None => (&line[..], ""),
+            };
+            // the line feed counts as well
+            buf_num_remaining_chars = buf_num_remaining_chars.saturating_sub(line_num_chars + 1);
+
+            if self.is_search() && !colored {
+                write!(&mut out_buf, "{}", color::Yellow.fg_str()).map_err(io::Error::other)?;
+                colored = true;
+            }
+            if !start.is_empty() {
+                match self.closure {
+                    Some(ref f) => out_buf.push_str(&f(start)),
+                    None => out_buf.push_str(start),
                 }
-                out_buf.push_str(&line[buf_num_remaining_bytes..]);
-                buf_num_remaining_bytes = 0;
-            } else {
-                buf_num_remaining_bytes -= line.len();
-                let written_line = match self.closure {
-                    Some(ref f) => f(&line),
-                    None => line,
-                };
-                if self.is_search() {
-                    write!(&mut out_buf, "{}", color::Yellow.fg_str()).map_err(io::Error::other)?;
+            }
+            if !rest.is_empty() {
+                if !colored {
+                    write!(&mut out_buf, "{}", color::Yellow.fg_str())
+                        .map_err(io::Error::other)?;
+                    colored = true;
                 }
-                out_buf.push_str(&written_line);
+                out_buf.push_str(rest);
             }
 
             if i + 1 < lines_len {
@@ -1138,32 +1162,27 @@ impl<C: EditorContext> Editor<C> {
         }
 
         // at the end of the line, move the cursor down a line
-        if new_total_width % terminal_width == 0 {
+        if end.1 == terminal_width {
             out_buf.push_str("\r\n");
+            end = (end.0 + 1, 0);
         }
 
-        self.term_cursor_line = (new_total_width_to_cursor + terminal_width) / terminal_width;
+        self.term_cursor_line = cursor.0 + 1;
 
         // The term cursor is now on the bottom line. We may need to move the term cursor up
         // to the line where the true cursor is.
-        let cursor_line_diff = new_num_lines as isize - self.term_cursor_line as isize;
-        if cursor_line_diff > 0 {
-            write!(&mut out_buf, "{}", cursor::Up(cursor_line_diff as u16))
+        if end.0 > cursor.0 {
+            write!(&mut out_buf, "{}", cursor::Up((end.0 - cursor.0) as u16))
                 .map_err(io::Error::other)?;
-        } else if cursor_line_diff < 0 {
-            unreachable!();
         }
 
         // Now that we are on the right line, we must move the term cursor left or right
         // to match the true cursor.
-        let cursor_col_diff = new_total_width as isize
-            - new_total_width_to_cursor as isize
-            - cursor_line_diff * terminal_width as isize;
-        if cursor_col_diff > 0 {
-            write!(&mut out_buf, "{}", cursor::Left(cursor_col_diff as u16))
+        if end.1 > cursor.1 {
+            write!(&mut out_buf, "{}", cursor::Left((end.1 - cursor.1) as u16))
                 .map_err(io::Error::other)?;
-        } else if cursor_col_diff < 0 {
-            write!(&mut out_buf, "{}", cursor::Right((-cursor_col_diff) as u16))
+        } else if end.1 < cursor.1 {
+            write!(&mut out_buf, "{}", cursor::Right((cursor.1 - end.1) as u16))
                 .map_err(io::Error::other)?;
         }
 
-- 
2.43.0


From 710f4132d03ced059039492b579908b597911974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 04/48] fix: print the last line of the prompt once

A last line longer than the terminal is wide left its first rows behind
when it was displayed again.
---
 src/editor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index d01dd5c..ec7132c 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -270,9 +270,11 @@ impl<C: EditorContext> Editor<C> {
                 out.write_all(b" ")?; // if the line is not empty, overflow on next line
             }
             out.write_all("\r \r".as_bytes())?; // Erase the "⏎" if nothing overwrites it
-            out.write_all(prompt.split('\n').join("\r\n").as_bytes())?;
+            // The last line of the prompt is left to `display`.
             if let Some(index) = prompt.rfind('\n') {
-                prompt = prompt.split_at(index + 1).1.into()
+                let last_line = prompt.split_off(index + 1);
+                out.write_all(prompt.split('\n').join("\r\n").as_bytes())?;
+                prompt = last_line;
             }
         }
 
-- 
2.43.0


From 249155188360d6cdce734b1a22cbede2c85d1628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 05/48] fix: clear the terminal on Ctrl-L, and keep the place
 in history

---
 src/editor.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index ec7132c..4bafacf 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -663,11 +663,17 @@ impl<C: EditorContext> Editor<C> {
 
     /// Clears the screen then prints the prompt and current buffer.
     pub fn clear(&mut self) -> io::Result<()> {
-        write!(&mut self.context, "{}{}", clear::All, cursor::Goto(1, 1))
-            .map_err(io::Error::other)?;
+        write!(
+            self.context.terminal_mut(),
+            "{}{}",
+            clear::All,
+            cursor::Goto(1, 1)
+        )?;
 
         self.term_cursor_line = 1;
-        self.clear_search();
+        if self.is_search() {
+            self.clear_search();
+        }
         self.display()
     }
 
-- 
2.43.0


From 2b57f9594784b2e93b8efe1903f171c1a255affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 06/48] fix: accepting a suggestion or continuing a line keeps
 the place in history

Only a search is to be cleared there; clearing the entries being browsed
made Up start over and Down go nowhere.
---
 src/editor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 4bafacf..86b2b3f 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -357,7 +357,6 @@ impl<C: EditorContext> Editor<C> {
         if self.is_search() {
             self.accept_autosuggestion()?;
         }
-        self.clear_search();
         if self.show_completions_hint.is_some() {
             self.show_completions_hint = None;
             return Ok(false);
@@ -943,7 +942,9 @@ impl<C: EditorContext> Editor<C> {
                 }
             }
         }
-        self.clear_search();
+        if self.is_search() {
+            self.clear_search();
+        }
         self.move_cursor_to_end_of_line()
     }
 
-- 
2.43.0


From 75c0427866071809460b877fc993345419a977eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 07/48] fix: load a shared history each time browsing or
 searching starts, and only then

It was not loaded again after a search, and loading it in the middle of
browsing (after continuing the line) left the place beyond its end when
the file had shrunk.
---
 src/editor.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 86b2b3f..5203e9b 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -216,8 +216,6 @@ pub struct Editor<C: ?Sized> {
 
     autosuggestion: Option<Buffer>,
 
-    history_fresh: bool,
-
     context: C,
 }
 
@@ -298,7 +296,6 @@ impl<C: EditorContext> Editor<C> {
             history_subset_index: vec![],
             history_subset_loc: None,
             autosuggestion: None,
-            history_fresh: false,
         };
 
         if !ed.new_buf.is_empty() {
@@ -353,7 +350,6 @@ impl<C: EditorContext> Editor<C> {
 
     // XXX: Returning a bool to indicate doneness is a bit awkward, maybe change it
     pub fn handle_newline(&mut self) -> io::Result<bool> {
-        self.history_fresh = false;
         if self.is_search() {
             self.accept_autosuggestion()?;
         }
@@ -381,10 +377,10 @@ impl<C: EditorContext> Editor<C> {
             .and_then(|i| self.history_subset_index.get(i).cloned())
     }
 
+    /// Load what was added to a shared history, when starting to browse or search it.
     fn freshen_history(&mut self) {
-        if self.context.history().share && !self.history_fresh {
+        if self.context.history().share {
             let _ = self.context.history_mut().load_history(false);
-            self.history_fresh = true;
         }
     }
 
@@ -682,7 +678,9 @@ impl<C: EditorContext> Editor<C> {
             self.search(false)
         } else {
             self.hist_buf_valid = false;
-            self.freshen_history();
+            if self.cur_history_loc.is_none() {
+                self.freshen_history();
+            }
             if self.new_buf.num_chars() > 0 {
                 match self.history_subset_loc {
                     Some(i) if i > 0 => {
@@ -729,7 +727,6 @@ impl<C: EditorContext> Editor<C> {
                         self.cur_history_loc = None;
                         self.history_subset_loc = None;
                         self.history_subset_index.clear();
-                        self.history_fresh = false;
                     }
                 }
             } else {
@@ -737,7 +734,7 @@ impl<C: EditorContext> Editor<C> {
                     Some(i) if i < self.context.history().len() - 1 => {
                         self.cur_history_loc = Some(i + 1)
                     }
-                    _ => self.history_fresh = false,
+                    _ => (),
                 }
             }
             self.move_cursor_to_end_of_line()
-- 
2.43.0


From fdf7195556e12c3dbbcfd92a60d3828797e1592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 08/48] fix: jumping to either end of the history sets the
 place to move on from

Up after coming back from the oldest entry went on in the entries browsed
before, Down from it went nowhere if the new line was not empty.
---
 src/editor.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index 5203e9b..75e43f8 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -744,11 +744,19 @@ impl<C: EditorContext> Editor<C> {
     /// Moves to the start of history (ie. the earliest history entry).
     pub fn move_to_start_of_history(&mut self) -> io::Result<()> {
         self.hist_buf_valid = false;
+        if self.cur_history_loc.is_none() {
+            self.freshen_history();
+        }
         if self.context.history().is_empty() {
             self.cur_history_loc = None;
             self.display()
         } else {
             self.cur_history_loc = Some(0);
+            if self.new_buf.num_chars() > 0 {
+                // From here all entries are there to move through.
+                self.history_subset_index = (0..self.context.history().len()).collect();
+                self.history_subset_loc = Some(0);
+            }
             self.move_cursor_to_end_of_line()
         }
     }
@@ -758,6 +766,8 @@ impl<C: EditorContext> Editor<C> {
         self.hist_buf_valid = false;
         if self.cur_history_loc.is_some() {
             self.cur_history_loc = None;
+            self.history_subset_loc = None;
+            self.history_subset_index.clear();
             self.move_cursor_to_end_of_line()
         } else {
             self.display()
-- 
2.43.0


From 666621731ad01f914dce04b62478e57f198bcf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 09/48] fix: jumping to either end of the history ends a search

The oldest entry was shown, and edited, as the text to search for.
---
 src/editor.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index 75e43f8..7a45776 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -743,6 +743,9 @@ impl<C: EditorContext> Editor<C> {
 
     /// Moves to the start of history (ie. the earliest history entry).
     pub fn move_to_start_of_history(&mut self) -> io::Result<()> {
+        if self.is_search() {
+            self.clear_search();
+        }
         self.hist_buf_valid = false;
         if self.cur_history_loc.is_none() {
             self.freshen_history();
@@ -763,6 +766,9 @@ impl<C: EditorContext> Editor<C> {
 
     /// Moves to the end of history (ie. the new buffer).
     pub fn move_to_end_of_history(&mut self) -> io::Result<()> {
+        if self.is_search() {
+            self.clear_search();
+        }
         self.hist_buf_valid = false;
         if self.cur_history_loc.is_some() {
             self.cur_history_loc = None;
-- 
2.43.0


From 26d86c2c9d7a8aede9646443bd917cb2243c0788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 10/48] fix: no underflow at the end of an empty line in vi's
 normal mode

---
 src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 7a45776..2b20765 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -923,7 +923,7 @@ impl<C: EditorContext> Editor<C> {
     pub fn cursor_is_at_end_of_line(&self) -> bool {
         let num_chars = cur_buf!(self).num_chars();
         if self.no_eol {
-            self.cursor == num_chars - 1
+            self.cursor + 1 >= num_chars
         } else {
             self.cursor == num_chars
         }
-- 
2.43.0


From 36839877720f971e60c9efee940b6fd6f2da4c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 11/48] fix: undo on a recalled line stops at the history entry

It went on to an empty line and to the lines recalled before it.
---
 src/editor.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index 2b20765..e123d78 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -226,6 +226,8 @@ macro_rules! cur_buf_mut {
             Some(i) => {
                 if !$s.hist_buf_valid {
                     $s.hist_buf.copy_buffer(&$s.context.history()[i]);
+                    // Undo must not go back beyond the entry.
+                    $s.hist_buf.clear_actions();
                     $s.hist_buf_valid = true;
                 }
                 &mut $s.hist_buf
-- 
2.43.0


From aa65bdd71b13d2e057915d286c6c28d7d6522d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 12/48] fix: an empty undo group is not a change, in or after
 another group either

An empty group at the start of another made undo go on to the change
before them, and undoing nothing but empty groups counted as undoing.
---
 src/buffer.rs | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 93cc7e4..be02a06 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -119,19 +119,15 @@ impl Buffer {
     pub fn undo(&mut self) -> bool {
         use Action::*;
 
-        let did = !self.actions.is_empty();
         let mut group_nest = 0;
         let mut group_count = 0;
         while let Some(act) = self.actions.pop() {
             act.undo(self);
             self.undone_actions.push(act.clone());
             match act {
-                EndGroup => {
-                    group_nest += 1;
-                    group_count = 0;
-                }
+                EndGroup => group_nest += 1,
                 StartGroup => group_nest -= 1,
-                // count the actions in this group so we can ignore empty groups below
+                // count the actions so we can ignore empty groups below
                 _ => group_count += 1,
             }
 
@@ -140,25 +136,21 @@ impl Buffer {
                 break;
             }
         }
-        did
+        group_count > 0
     }
 
     pub fn redo(&mut self) -> bool {
         use Action::*;
 
-        let did = !self.undone_actions.is_empty();
         let mut group_nest = 0;
         let mut group_count = 0;
         while let Some(act) = self.undone_actions.pop() {
             act.do_on(self);
             self.actions.push(act.clone());
             match act {
-                StartGroup => {
-                    group_nest += 1;
-                    group_count = 0;
-                }
+                StartGroup => group_nest += 1,
                 EndGroup => group_nest -= 1,
-                // count the actions in this group so we can ignore empty groups below
+                // count the actions so we can ignore empty groups below
                 _ => group_count += 1,
             }
 
@@ -167,16 +159,15 @@ impl Buffer {
                 break;
             }
         }
-        did
+        group_count > 0
     }
 
     pub fn revert(&mut self) -> bool {
-        if self.actions.is_empty() {
-            return false;
+        let mut did = false;
+        while self.undo() {
+            did = true;
         }
-
-        while self.undo() {}
-        true
+        did
     }
 
     fn push_action(&mut self, act: Action) {
-- 
2.43.0


From fd93472a765cb3f85f079ce22e9e2b57f8bb6c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 13/48] fix: complete the part of the word before the cursor,
 and replace what was inserted

The completer was asked for the whole word, of which only the part before
the cursor was replaced, and cycling through candidates with spaces in
them left parts of them behind.
---
 src/editor.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index e123d78..66c44e5 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -556,10 +556,14 @@ impl<C: EditorContext> Editor<C> {
         if let Some((completions, i_in)) = self.show_completions_hint.take() {
             let i = i_in.map_or(0, |i| (i + 1) % completions.len());
 
+            let inserted = i_in.map_or(0, |x| completions[x].chars().count());
             match i_in {
-                Some(x) if cur_buf!(self) == &Buffer::from(&completions[x][..]) => {
-                    cur_buf_mut!(self).truncate(0);
-                    self.cursor = 0;
+                Some(x)
+                    if inserted <= self.cursor
+                        && cur_buf!(self).range(self.cursor - inserted, self.cursor)
+                            == completions[x] =>
+                {
+                    self.delete_until(self.cursor - inserted)?
                 }
                 _ => self.delete_word_before_cursor(false)?,
             }
@@ -577,7 +581,7 @@ impl<C: EditorContext> Editor<C> {
             let buf = cur_buf_mut!(self);
 
             let word = match word_range {
-                Some((start, end)) => buf.range(start, end),
+                Some((start, _)) => buf.range(start, self.cursor),
                 None => "".into(),
             };
 
-- 
2.43.0


From 321e8d48e928f61b9a376ce5f3827b358a913c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 14/48] fix: searching or accepting a suggestion ends cycling
 through completions

The next Tab replaced what had been accepted, or the text searched for.
---
 src/keymap/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keymap/mod.rs b/src/keymap/mod.rs
index cb88917..bf43f15 100644
--- a/src/keymap/mod.rs
+++ b/src/keymap/mod.rs
@@ -48,18 +48,22 @@ pub trait KeyMap: Default {
                 done = editor.handle_newline()?;
             }
             Key::Ctrl('f') if editor.is_currently_showing_autosuggestion() => {
+                editor.skip_completions_hint();
                 editor.accept_autosuggestion()?;
             }
             Key::Ctrl('r') => {
+                editor.skip_completions_hint();
                 editor.search(false)?;
             }
             Key::Ctrl('s') => {
+                editor.skip_completions_hint();
                 editor.search(true)?;
             }
             Key::Right
                 if editor.is_currently_showing_autosuggestion()
                     && editor.cursor_is_at_end_of_line() =>
             {
+                editor.skip_completions_hint();
                 editor.accept_autosuggestion()?;
             }
             _ => {
-- 
2.43.0


From f4e103c8caeaf8d316bb14755fe1e0fc1266ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 15/48] fix: Ctrl-C and Ctrl-D leave the line after a backslash
 or a list of completions too

The session ended there with the terminal's cursor inside the line.
---
 src/editor.rs     | 20 ++++++++++++++++----
 src/keymap/mod.rs |  4 ++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 66c44e5..9d2913a 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -366,14 +366,26 @@ impl<C: EditorContext> Editor<C> {
             self.insert_after_cursor('\n')?;
             Ok(false)
         } else {
-            self.cursor = cur_buf!(self).num_chars();
-            self.display_impl(false)?;
-            self.context.terminal_mut().write_all(b"\r\n")?;
-            self.show_completions_hint = None;
+            self.finish_line()?;
             Ok(true)
         }
     }
 
+    /// Leaves the line as it is on the terminal, whatever is before the cursor.
+    pub(crate) fn handle_interrupt(&mut self) -> io::Result<()> {
+        if self.is_search() {
+            self.accept_autosuggestion()?;
+        }
+        self.finish_line()
+    }
+
+    fn finish_line(&mut self) -> io::Result<()> {
+        self.show_completions_hint = None;
+        self.cursor = cur_buf!(self).num_chars();
+        self.display_impl(false)?;
+        self.context.terminal_mut().write_all(b"\r\n")
+    }
+
     fn search_history_loc(&self) -> Option<usize> {
         self.history_subset_loc
             .and_then(|i| self.history_subset_index.get(i).cloned())
diff --git a/src/keymap/mod.rs b/src/keymap/mod.rs
index bf43f15..f7c1a62 100644
--- a/src/keymap/mod.rs
+++ b/src/keymap/mod.rs
@@ -35,12 +35,12 @@ pub trait KeyMap: Default {
 
         match key {
             Key::Ctrl('c') => {
-                editor.handle_newline()?;
+                editor.handle_interrupt()?;
                 return Err(io::Error::new(ErrorKind::Interrupted, "ctrl-c"));
             }
             // if the current buffer is empty, treat ctrl-d as eof
             Key::Ctrl('d') if is_empty => {
-                editor.handle_newline()?;
+                editor.handle_interrupt()?;
                 return Err(io::Error::new(ErrorKind::UnexpectedEof, "ctrl-d"));
             }
             Key::Char('\t') => editor.complete(handler)?,
-- 
2.43.0


From 8e37ee88e678fc326caf424c27ce1b13be2929d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 16/48] fix: flush the end of the line when the session is
 interrupted

---
 src/editor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 9d2913a..c632926 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -383,7 +383,9 @@ impl<C: EditorContext> Editor<C> {
         self.show_completions_hint = None;
         self.cursor = cur_buf!(self).num_chars();
         self.display_impl(false)?;
-        self.context.terminal_mut().write_all(b"\r\n")
+        let out = self.context.terminal_mut();
+        out.write_all(b"\r\n")?;
+        out.flush()
     }
 
     fn search_history_loc(&self) -> Option<usize> {
-- 
2.43.0


From 06e629c20fd3a5c6948ae48df66d5cc36fab8d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 17/48] fix: taking the line out of the editor leaves the
 history entry it came from

and no cursor beyond the line that is left.
---
 src/editor.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index c632926..7bcb24d 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1262,17 +1262,8 @@ impl<C: EditorContext> Editor<C> {
 
     /// Remove and return the current buffer of commands to execute
     pub fn take_exec_buffer(&mut self) -> String {
-        mem::take(match self.cur_history_loc {
-            Some(i) => {
-                if self.hist_buf_valid {
-                    &mut self.hist_buf
-                } else {
-                    &mut self.context.history_mut()[i]
-                }
-            }
-            _ => &mut self.new_buf,
-        })
-        .into()
+        self.cursor = 0;
+        mem::take(cur_buf_mut!(self)).into()
     }
 }
 
-- 
2.43.0


From 7f710cefbf916c1b5b395c8049cdf28ea85a428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 18/48] fix: deleting up to and including a position stops at
 the end of the line

dge on an empty line panicked.
---
 src/editor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 7bcb24d..6bb89ec 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -881,9 +881,10 @@ impl<C: EditorContext> Editor<C> {
     pub fn delete_until_inclusive(&mut self, position: usize) -> io::Result<()> {
         {
             let buf = cur_buf_mut!(self);
+            let end = cmp::max(self.cursor + 1, position + 1);
             buf.remove(
                 cmp::min(self.cursor, position),
-                cmp::max(self.cursor + 1, position + 1),
+                cmp::min(end, buf.num_chars()),
             );
             self.cursor = cmp::min(self.cursor, position);
         }
-- 
2.43.0


From 74aed76f3fb4271ef4be7b26cb9aaab00a3e5c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 19/48] fix: a failing terminal after ~ is an error, not a
 panic

---
 src/keymap/vi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 979e287..dac0b1b 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -456,7 +456,7 @@ impl Vi {
         }
 
         if last_mode == Tilde {
-            ed.display().unwrap();
+            ed.display()?;
         }
         self.set_editor_mode(&mut ed)
     }
-- 
2.43.0


From eea14775cacd492481a1abd1c0af11abbb410a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 20/48] fix: de and ce include the last character of the word

---
 src/keymap/vi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index dac0b1b..0e6c266 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -758,12 +758,12 @@ impl Vi {
             Key::Char('e') => {
                 let count = self.move_count();
                 move_to_end_of_word(ed, count)?;
-                self.pop_mode_after_movement(Exclusive, ed)
+                self.pop_mode_after_movement(Inclusive, ed)
             }
             Key::Char('E') => {
                 let count = self.move_count();
                 move_to_end_of_word_ws(ed, count)?;
-                self.pop_mode_after_movement(Exclusive, ed)
+                self.pop_mode_after_movement(Inclusive, ed)
             }
             Key::Char('b') => {
                 let count = self.move_count();
-- 
2.43.0


From 3e55d5d9217605758bce0bc3b81ab62e60ceac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 21/48] fix: d and c are cancelled if the character to move to
 is not found

They deleted the character under the cursor, or panicked on an empty line.
---
 src/keymap/vi.rs | 60 ++++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 0e6c266..3b63772 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -995,41 +995,35 @@ impl Vi {
 
         match key {
             Key::Char(c) => {
-                let move_type;
-                match movement {
-                    RightUntil => {
-                        move_type = Inclusive;
-                        match find_char(ed.current_buffer(), ed.cursor() + 1, c, count) {
-                            Some(i) => ed.move_cursor_to(i - 1),
-                            None => Ok(()),
-                        }
-                    }
-                    RightAt => {
-                        move_type = Inclusive;
-                        match find_char(ed.current_buffer(), ed.cursor() + 1, c, count) {
-                            Some(i) => ed.move_cursor_to(i),
-                            None => Ok(()),
-                        }
-                    }
-                    LeftUntil => {
-                        move_type = Exclusive;
-                        match find_char_rev(ed.current_buffer(), ed.cursor(), c, count) {
-                            Some(i) => ed.move_cursor_to(i + 1),
-                            None => Ok(()),
-                        }
-                    }
-                    LeftAt => {
-                        move_type = Exclusive;
-                        match find_char_rev(ed.current_buffer(), ed.cursor(), c, count) {
-                            Some(i) => ed.move_cursor_to(i),
-                            None => Ok(()),
-                        }
-                    }
+                let (move_type, target) = match movement {
+                    RightUntil => (
+                        Inclusive,
+                        find_char(ed.current_buffer(), ed.cursor() + 1, c, count).map(|i| i - 1),
+                    ),
+                    RightAt => (
+                        Inclusive,
+                        find_char(ed.current_buffer(), ed.cursor() + 1, c, count),
+                    ),
+                    LeftUntil => (
+                        Exclusive,
+                        find_char_rev(ed.current_buffer(), ed.cursor(), c, count).map(|i| i + 1),
+                    ),
+                    LeftAt => (
+                        Exclusive,
+                        find_char_rev(ed.current_buffer(), ed.cursor(), c, count),
+                    ),
                     Repeat | ReverseRepeat => unreachable!(),
-                }?;
+                };
 
-                // go back to the previous mode
-                self.pop_mode_after_movement(move_type, ed)
+                match target {
+                    Some(i) => {
+                        ed.move_cursor_to(i)?;
+                        // go back to the previous mode
+                        self.pop_mode_after_movement(move_type, ed)
+                    }
+                    // nothing to move to, so nothing to delete or change either
+                    None => self.normal_mode_abort(ed),
+                }
             }
 
             // can't get here due to our match above
-- 
2.43.0


From b148503cd52f3580c9202b957dbf7ec3c081b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 22/48] fix: the dot command keeps the count of a change up to
 a character

---
 src/keymap/vi.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 3b63772..9b066d9 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -964,7 +964,6 @@ impl Vi {
         use self::MoveType::*;
 
         let count = self.move_count();
-        self.count = 0;
 
         let (key, movement) = match (key, movement, self.last_char_movement) {
             // repeat the last movement
@@ -1019,7 +1018,9 @@ impl Vi {
                     Some(i) => {
                         ed.move_cursor_to(i)?;
                         // go back to the previous mode
-                        self.pop_mode_after_movement(move_type, ed)
+                        self.pop_mode_after_movement(move_type, ed)?;
+                        self.count = 0;
+                        Ok(())
                     }
                     // nothing to move to, so nothing to delete or change either
                     None => self.normal_mode_abort(ed),
-- 
2.43.0


From e5a72986d5d0b254048a3a3ceb4ed1fa99edc2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 23/48] fix: a cancelled c is no change, to undo or to repeat

It left an undo group open, so that undo and redo skipped over other
changes, and the dot command entered insert mode and left it again.
---
 src/keymap/vi.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 9b066d9..af5278a 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -463,6 +463,10 @@ impl Vi {
 
     /// Return to normal mode.
     fn normal_mode_abort<C: EditorContext>(&mut self, mut ed: &mut Editor<C>) -> io::Result<()> {
+        // an aborted change has already entered insert mode
+        if self.mode_stack.0.contains(&Mode::Insert) {
+            ed.current_buffer_mut().end_undo_group();
+        }
         self.mode_stack.clear();
         ed.no_eol = true;
         self.count = 0;
@@ -667,7 +671,8 @@ impl Vi {
                     // handle special 'c' key stuff
                     self.current_insert = Some(key);
                     self.current_command.clear();
-                    self.set_mode(Insert, ed)?;
+                    // this is only the last command once it has a movement
+                    self.set_mode_preserve_last(Insert, ed)?;
                 }
 
                 let start_pos = ed.cursor();
-- 
2.43.0


From 7b211be36ef258463aa90d74962e474a1ff88bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 24/48] fix: the dot command repeats cc and dd

The text typed after cc was repeated as commands, or for the command
before it; dd was not repeated.
---
 src/keymap/vi.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index af5278a..40ae82e 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -934,11 +934,6 @@ impl Vi {
             // handle numeric keys
             (Key::Char('0'..='9'), _) => self.handle_key_normal(key, ed),
             (Key::Char('c'), Some(Key::Char('c'))) | (Key::Char('d'), None) => {
-                // updating the last command buffer doesn't really make sense in this context.
-                // Repeating 'dd' will simply erase and already erased line. Any other commands
-                // will then become the new last command and the user will need to press 'dd' again
-                // to clear the line. The same largely applies to the 'cc' command. We update the
-                // last command here anyway ¯\_(ツ)_/¯
                 self.current_command.push(key);
 
                 // delete the whole line
@@ -947,6 +942,11 @@ impl Vi {
                 ed.move_cursor_to_start_of_line()?;
                 ed.delete_all_after_cursor()?;
 
+                // update the last state
+                mem::swap(&mut self.last_command, &mut self.current_command);
+                self.last_insert = self.current_insert;
+                self.last_count = 0;
+
                 // return to the previous mode
                 self.pop_mode(ed)?;
                 Ok(())
-- 
2.43.0


From b0ed0f0d80d0d31a6ba3cdfa6894ca2414836465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 25/48] fix: the dot command leaves insert mode after repeating
 C

---
 src/keymap/vi.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 40ae82e..3157c00 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -692,14 +692,9 @@ impl Vi {
                 ed.delete_all_after_cursor()
             }
             Key::Char('C') => {
-                // update the last command state
-                self.last_insert = None;
-                self.last_command.clear();
-                self.last_command.push(key);
+                self.last_insert = Some(key);
                 self.count = 0;
-                self.last_count = 0;
-
-                self.set_mode_preserve_last(Insert, ed)?;
+                self.set_mode(Insert, ed)?;
                 ed.delete_all_after_cursor()
             }
             Key::Char('.') => {
-- 
2.43.0


From ad729076e20bb299b7ddf4dfe2e2512bf4d6ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 26/48] fix: Home and End complete d and c

The operator kept waiting, and applied to the next movement.
---
 src/keymap/vi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 3157c00..b124aa2 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -790,11 +790,11 @@ impl Vi {
                 self.count = self.count.saturating_mul(10).saturating_add(i);
                 Ok(())
             }
-            Key::Char('^') => {
+            Key::Char('^') | Key::Home => {
                 ed.move_cursor_to_start_of_line()?;
                 self.pop_mode_after_movement(Exclusive, ed)
             }
-            Key::Char('$') => {
+            Key::Char('$') | Key::End => {
                 ed.move_cursor_to_end_of_line()?;
                 self.pop_mode_after_movement(Exclusive, ed)
             }
-- 
2.43.0


From d219f3a6cee0aa015be301e89d00dab5beeb44fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 27/48] fix: d0 and c0 move to the start of the line with a
 count and when repeated

0 became part of the count.
---
 src/keymap/vi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index b124aa2..02f6f3d 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -911,6 +911,8 @@ impl Vi {
             (key, _) if is_movement_key(key) | (key == Key::Char('0') && self.count == 0) => {
                 // set count
                 self.count = match (self.count, self.secondary_count) {
+                    // 0 is a movement here, and has no count
+                    _ if key == Key::Char('0') => 0,
                     (0, 0) => 0,
                     (_, 0) => self.count,
                     (0, _) => self.secondary_count,
-- 
2.43.0


From 58093705b4b36962e3fa680463d28cb2186413e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 28/48] fix: repeating a change whose movement fails does
 nothing

The text that had been typed for it was taken for commands.
---
 src/keymap/vi.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 02f6f3d..dec1a69 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -505,6 +505,10 @@ impl Vi {
 
         for k in &keys {
             self.handle_key_core(*k, ed)?;
+            if self.last_insert.is_some() && self.mode() == Mode::Normal {
+                // the movement of a change failed, the rest was meant for insert mode
+                break;
+            }
         }
 
         if self.last_insert.is_some() {
-- 
2.43.0


From cb5dd1069a83eeb0370d6ff581f81d278014d653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 29/48] fix: repeating Alt-. replaces just what it inserted
 before

It took text of the line next to it as well, or the last word of the
line if the cursor was elsewhere.
---
 src/keymap/emacs.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/keymap/emacs.rs b/src/keymap/emacs.rs
index 9ee5b3d..2f9ce56 100644
--- a/src/keymap/emacs.rs
+++ b/src/keymap/emacs.rs
@@ -1,6 +1,7 @@
 use std::io;
 use termion::event::Key;
 
+use crate::Buffer;
 use crate::CursorPosition;
 use crate::Editor;
 use crate::EditorContext;
@@ -16,6 +17,9 @@ use crate::KeyMap;
 #[derive(Default)]
 pub struct Emacs {
     last_arg_fetch_index: Option<usize>,
+    // How many characters the last arg fetch inserted, and the buffer and cursor it left.
+    last_arg_fetch_len: usize,
+    last_arg_fetch_result: (Buffer, usize),
 }
 
 impl Emacs {
@@ -66,6 +70,13 @@ impl Emacs {
             return Ok(());
         }
 
+        // Keys that never get here may have changed the buffer since the last fetch.
+        if (ed.current_buffer(), ed.cursor())
+            != (&self.last_arg_fetch_result.0, self.last_arg_fetch_result.1)
+        {
+            self.last_arg_fetch_index = None;
+        }
+
         let history_index = match self.last_arg_fetch_index {
             Some(0) => return Ok(()),
             Some(x) => x - 1,
@@ -73,21 +84,23 @@ impl Emacs {
                 .current_history_location()
                 .unwrap_or(ed.context().history().len() - 1),
         };
+        let last_arg = match ed.context().history().buffers.get(history_index) {
+            Some(buf) => buf.last_arg().map_or(vec![], |arg| arg.to_vec()),
+            None => return Ok(()),
+        };
 
         // If did a last arg fetch just before this, we need to delete it so it can be replaced by
         // this last arg fetch.
         if self.last_arg_fetch_index.is_some() {
-            let buffer_len = ed.current_buffer().num_chars();
-            if let Some(last_arg_len) = ed.current_buffer().last_arg().map(|x| x.len()) {
-                ed.delete_until(buffer_len - last_arg_len)?;
-            }
+            ed.delete_until(ed.cursor() - self.last_arg_fetch_len)?;
         }
 
         // Actually insert it
-        let buf = ed.context().history()[history_index].clone();
-        if let Some(last_arg) = buf.last_arg() {
-            ed.insert_chars_after_cursor(last_arg)?;
+        if !last_arg.is_empty() {
+            ed.insert_chars_after_cursor(&last_arg)?;
         }
+        self.last_arg_fetch_len = last_arg.len();
+        self.last_arg_fetch_result = (ed.current_buffer().clone(), ed.cursor());
 
         // Edit the index in case the user does a last arg fetch again.
         self.last_arg_fetch_index = Some(history_index);
-- 
2.43.0


From f6636fed5ab1933abcfabd92d54d19d2580ed191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 30/48] fix: a backslash is part of the word it starts, and may
 be escaped

---
 src/context.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 1e87ba8..58f1a77 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -22,11 +22,6 @@ pub fn get_buffer_words(buf: &Buffer) -> Vec<(usize, usize)> {
     let mut just_had_backslash = false;
 
     for (i, &c) in buf.chars().enumerate() {
-        if c == '\\' {
-            just_had_backslash = true;
-            continue;
-        }
-
         if let Some(start) = word_start {
             if c == ' ' && !just_had_backslash {
                 res.push((start, i));
@@ -36,7 +31,8 @@ pub fn get_buffer_words(buf: &Buffer) -> Vec<(usize, usize)> {
             word_start = Some(i);
         }
 
-        just_had_backslash = false;
+        // a backslash may be escaped itself
+        just_had_backslash = c == '\\' && !just_had_backslash;
     }
 
     if let Some(start) = word_start {
-- 
2.43.0


From 5c8cb7deb03cd37169a20b9311d83f2f0e50dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 31/48] fix: append an entry to the history file before
 compacting it, in a single write

The entry that made the file be compacted was never written, or was lost
to the reload; with sharing, compacting to the entries in memory dropped
those beyond the size in memory from the file.
---
 src/history.rs | 49 +++++++++++++++++++------------------------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index d1dfad4..a830176 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -145,7 +145,6 @@ impl History {
     }
 
     /// Removes duplicates and trims a history file to max_file_size.
-    /// Primarily if inc_append is set without shared history.
     /// Static because it should have no side effects on a history object.
     fn deduplicate_history_file<P: AsRef<Path>>(
         path: P,
@@ -256,44 +255,34 @@ impl History {
         }
 
         if self.inc_append && self.file_name.is_some() {
+            let file_name = self.file_name.clone().unwrap();
+            if let Ok(mut file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
+                // A single write, so that other sessions do not get in between.
+                let _ = file.write_all(format!("{}\n", item_str).as_bytes());
+                // Save the filesize after each append so we do not reload when we do not need to.
+                // Leave file size alone, if it is not right trigger a reload later.
+                self.file_size += item_str.len() as u64 + 1;
+            }
+
+            // If allowing duplicates then no need for compaction.
             if !self.load_duplicates {
                 // Do not want duplicates so periodically compact the history file.
                 self.compaction_writes += 1;
-                // Every 30 writes "compact" the history file by writing just in memory history.  This
-                // is to keep the history file clean and at a reasonable size (not much over max
-                // history size at it's worst).
+                // Every 30 writes "compact" the history file by removing duplicates and old
+                // entries.  This is to keep the history file clean and at a reasonable size (not
+                // much over max history size at it's worst).
                 if self.compaction_writes > 29 {
+                    let _ = History::deduplicate_history_file(&file_name, self.max_file_size);
+                    self.compaction_writes = 0;
                     if self.share {
                         // Reload history, we may be out of sync.
-                        let _ = self.load_history(false);
-                        // Commit the duplicated history.
-                        if let Some(file_name) = self.file_name.clone() {
-                            let _ = self.overwrite_history(file_name);
+                        if let Ok(file_size) = self.load_history_file(&file_name, false) {
+                            self.file_size = file_size;
                         }
-                    } else {
-                        // Not using shared history so just de-dup the file without messing with
-                        // our history.
-                        if let Some(file_name) = self.file_name.clone() {
-                            let _ =
-                                History::deduplicate_history_file(file_name, self.max_file_size);
+                        while self.buffers.len() > self.max_buffers_size {
+                            self.buffers.pop_front();
                         }
                     }
-                    self.compaction_writes = 0;
-                }
-            } else {
-                // If allowing duplicates then no need for compaction.
-                self.compaction_writes = 1;
-            }
-            let file_name = self.file_name.clone().unwrap();
-            if let Ok(inner_file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
-                // Leave file size alone, if it is not right trigger a reload later.
-                if self.compaction_writes > 0 {
-                    // If 0 we "compacted" and nothing to write.
-                    let mut file = BufWriter::new(inner_file);
-                    let _ = file.write_all(&item_str.as_bytes());
-                    let _ = file.write_all(b"\n");
-                    // Save the filesize after each append so we do not reload when we do not need to.
-                    self.file_size += item_str.len() as u64 + 1;
                 }
             }
         }
-- 
2.43.0


From 3cc61d9be66d95085d27965e662079aeb74ca713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 32/48] fix: entries of several lines are duplicates only if
 they are equal

---
 src/history.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/history.rs b/src/history.rs
index a830176..0bdcea2 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -292,7 +292,7 @@ impl History {
     /// Removes duplicate entries in the history
     pub fn remove_duplicates(&mut self, input: &str) {
         self.buffers.retain(|buffer| {
-            let command = buffer.lines().concat();
+            let command = buffer.to_string();
             command != input
         });
     }
-- 
2.43.0


From ba3eeecbc4e4f5f200c1d21947c360c17fcbce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 33/48] fix: a history line that is not UTF-8 does not hide, or
 lose, the lines after it

---
 src/history.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/history.rs b/src/history.rs
index 0bdcea2..5503068 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -125,6 +125,8 @@ impl History {
                             self.buffers.push_back(Buffer::from(line));
                         }
                     }
+                    // Skip a line that is not UTF-8.
+                    Err(ref e) if e.kind() == io::ErrorKind::InvalidData => {}
                     Err(_) => break,
                 }
             }
@@ -166,7 +168,10 @@ impl History {
                         buf.push_back(line);
                     }
                 }
-                Err(_) => break,
+                // Skip a line that is not UTF-8.
+                Err(ref e) if e.kind() == io::ErrorKind::InvalidData => {}
+                // The file must not be overwritten with a part of it.
+                Err(e) => return Err(e),
             }
         }
         let org_length = buf.len();
-- 
2.43.0


From e8bed3581e4111adfd8816fd81b6f7ab56abae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 34/48] fix: completing a quoted file name keeps its last
 character if it is no quote

The byte before the end was cut off, panicking inside a character.
---
 src/complete.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index 6d75730..9c30238 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -59,10 +59,9 @@ impl Completer for FilenameCompleter {
         // XXX: this function is really bad, TODO rewrite
 
         let start_owned: String = if start.starts_with('\"') || start.starts_with('\'') {
-            start = &start[1..];
-            if !start.is_empty() {
-                start = &start[..start.len() - 1];
-            }
+            let (quote, rest) = start.split_at(1);
+            // The closing quote may not have been typed yet.
+            start = rest.strip_suffix(quote).unwrap_or(rest);
             start.into()
         } else {
             start.replace(r"\ ", " ")
-- 
2.43.0


From c215673c9a0f9d9520db174ba19522eb38b5effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 35/48] fix: a file name completed from a dot is a hidden one

It panicked without a working directory, and gave names in the directory
above with one.
---
 src/complete.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index 9c30238..80b6a0f 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -58,7 +58,7 @@ impl Completer for FilenameCompleter {
     fn completions(&mut self, mut start: &str) -> Vec<String> {
         // XXX: this function is really bad, TODO rewrite
 
-        let start_owned: String = if start.starts_with('\"') || start.starts_with('\'') {
+        let mut start_owned: String = if start.starts_with('\"') || start.starts_with('\'') {
             let (quote, rest) = start.split_at(1);
             // The closing quote may not have been typed yet.
             start = rest.strip_suffix(quote).unwrap_or(rest);
@@ -67,6 +67,12 @@ impl Completer for FilenameCompleter {
             start.replace(r"\ ", " ")
         };
 
+        // A dot at the end starts the name of a hidden file, it is not the directory itself.
+        let hidden = start_owned == "." || start_owned.ends_with("/.");
+        if hidden {
+            start_owned.pop();
+        }
+
         let start_path = PathBuf::from(start_owned.as_str());
 
         let full_path = match self.working_dir {
@@ -84,7 +90,8 @@ impl Completer for FilenameCompleter {
         match full_path.parent() {
             // XXX non-unix separaor
             Some(parent)
-                if !start.is_empty()
+                if !hidden
+                    && !start.is_empty()
                     && !start_owned.ends_with('/')
                     && !full_path.ends_with("..") =>
             {
@@ -106,9 +113,9 @@ impl Completer for FilenameCompleter {
             }
             _ => {
                 p = full_path.as_path();
-                start_name = "".into();
+                start_name = if hidden { ".".into() } else { "".into() };
                 completing_dir =
-                    start.is_empty() || start.ends_with('/') || full_path.ends_with("..");
+                    hidden || start.is_empty() || start.ends_with('/') || full_path.ends_with("..");
             }
         }
 
-- 
2.43.0


From 58847087ba41cc57e8db800c3fd77dc6f20a3d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 36/48] fix: complete file names in the current directory
 without a working directory

---
 src/complete.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/complete.rs b/src/complete.rs
index 80b6a0f..685bad0 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -1,7 +1,7 @@
 use crate::EditorContext;
 
 use super::event::Event;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
 pub trait Completer {
     fn completions(&mut self, start: &str) -> Vec<String>;
@@ -119,6 +119,12 @@ impl Completer for FilenameCompleter {
             }
         }
 
+        // Without a directory the names are in the current one.
+        let p = if p.as_os_str().is_empty() {
+            Path::new(".")
+        } else {
+            p
+        };
         let read_dir = match p.read_dir() {
             Ok(x) => x,
             Err(_) => return vec![],
-- 
2.43.0


From 396a3727367cb80fe1ff1d8fb15bc9ede4083ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 37/48] fix: text typed after moving in insert mode has no
 count of the change before it

---
 src/keymap/vi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index dec1a69..6c8a669 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -573,6 +573,7 @@ impl Vi {
                     self.movement_reset = false;
                     // vim behaves as if this was 'i'
                     self.last_insert = Some(Key::Char('i'));
+                    self.last_count = 0;
                 }
                 self.last_command.push(key);
                 ed.insert_after_cursor(c)
@@ -586,6 +587,7 @@ impl Vi {
                     self.movement_reset = false;
                     // vim behaves as if this was 'i'
                     self.last_insert = Some(Key::Char('i'));
+                    self.last_count = 0;
                 }
                 self.last_command.push(key);
                 self.handle_key_common(key, ed)
-- 
2.43.0


From 0e89542e027d8a4c6ddcedeaebd0a256621ae4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 38/48] fix: no panic in a vi operator whose line was replaced
 by a search

---
 src/editor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index 6bb89ec..a9d49f9 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -868,6 +868,8 @@ impl<C: EditorContext> Editor<C> {
     pub fn delete_until(&mut self, position: usize) -> io::Result<()> {
         {
             let buf = cur_buf_mut!(self);
+            // The position may be from before a search changed the line.
+            let position = cmp::min(position, buf.num_chars());
             buf.remove(
                 cmp::min(self.cursor, position),
                 cmp::max(self.cursor, position),
@@ -881,6 +883,7 @@ impl<C: EditorContext> Editor<C> {
     pub fn delete_until_inclusive(&mut self, position: usize) -> io::Result<()> {
         {
             let buf = cur_buf_mut!(self);
+            let position = cmp::min(position, buf.num_chars());
             let end = cmp::max(self.cursor + 1, position + 1);
             buf.remove(
                 cmp::min(self.cursor, position),
-- 
2.43.0


From f1303d516f60ab4407e53db41881b6a615a2fafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 39/48] fix: the count of vi's ~ does not apply to the next
 command

---
 src/keymap/vi.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 6c8a669..935f336 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -840,6 +840,7 @@ impl Vi {
                         ed.move_cursor_right(1)?;
                     }
                 }
+                self.count = 0;
                 self.pop_mode(ed)?;
                 Ok(())
             }
-- 
2.43.0


From b3c13c11d74d65fcc87b00a76923dfe85bf7ef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 40/48] fix: clearing the screen clears a list of completions
 as well

---
 src/editor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/editor.rs b/src/editor.rs
index a9d49f9..8f42e75 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -686,6 +686,7 @@ impl<C: EditorContext> Editor<C> {
         )?;
 
         self.term_cursor_line = 1;
+        self.show_completions_hint = None;
         if self.is_search() {
             self.clear_search();
         }
-- 
2.43.0


From 93ce39b88f2b88884353f2e42097a3d027ecc712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 41/48] fix: the cursor stays within the line when the
 terminal's size is not known

---
 src/editor.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 8f42e75..0d7136c 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1065,15 +1065,8 @@ impl<C: EditorContext> Editor<C> {
             (row, col)
         }
 
-        let (prompt, search_prompt_start) = self.search_prompt();
-
-        let terminal_width = self.context.terminal().width()?;
-        let prompt_width = util::last_prompt_line_width(&prompt);
-
-        let buf = cur_buf!(self);
-
         // Don't let the cursor go over the end!
-        let buf_num_chars = buf.num_chars();
+        let buf_num_chars = cur_buf!(self).num_chars();
         if buf_num_chars < self.cursor {
             self.cursor = buf_num_chars;
         }
@@ -1083,6 +1076,13 @@ impl<C: EditorContext> Editor<C> {
             self.cursor -= 1;
         }
 
+        let (prompt, search_prompt_start) = self.search_prompt();
+
+        let terminal_width = self.context.terminal().width()?;
+        let prompt_width = util::last_prompt_line_width(&prompt);
+
+        let buf = cur_buf!(self);
+
         // If we have an autosuggestion, we make the autosuggestion the buffer we print out.
         let lines = match self.autosuggestion {
             Some(ref suggestion) if show_autosuggest => suggestion.lines(),
-- 
2.43.0


From eccabd59ae78eef3b0d05adc387fd2498c80b7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 42/48] fix: an error while swapping case no longer leaves vi
 in a mode no key can leave

---
 src/keymap/vi.rs | 48 ++++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 935f336..bd41dde 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -390,12 +390,11 @@ impl Vi {
         ed.no_eol = mode == Normal;
         self.movement_reset = mode != Insert;
         self.mode_stack.push(mode);
-        self.set_editor_mode(&mut ed)?;
 
         if mode == Insert || mode == Tilde {
             ed.current_buffer_mut().start_undo_group();
         }
-        Ok(())
+        self.set_editor_mode(&mut ed)
     }
 
     fn pop_mode_after_movement<C: EditorContext>(
@@ -494,6 +493,27 @@ impl Vi {
         )
     }
 
+    /// Swap the case of the next `count` characters, moving over them.
+    fn swap_case<C: EditorContext>(&mut self, ed: &mut Editor<C>) -> io::Result<()> {
+        for _ in 0..self.move_count_right(ed) {
+            let c = ed.current_buffer().char_after(ed.cursor()).unwrap();
+            if c.is_lowercase() {
+                ed.delete_after_cursor()?;
+                for c in c.to_uppercase() {
+                    ed.insert_after_cursor(c)?;
+                }
+            } else if c.is_uppercase() {
+                ed.delete_after_cursor()?;
+                for c in c.to_lowercase() {
+                    ed.insert_after_cursor(c)?;
+                }
+            } else {
+                ed.move_cursor_right(1)?;
+            }
+        }
+        Ok(())
+    }
+
     fn repeat<C: EditorContext>(&mut self, ed: &mut Editor<C>) -> io::Result<()> {
         self.last_count = self.count;
         let keys = mem::replace(&mut self.last_command, Vec::new());
@@ -823,26 +843,14 @@ impl Vi {
                 self.last_command.push(key);
                 self.last_count = self.count;
 
-                self.set_mode(Tilde, ed)?;
-                for _ in 0..self.move_count_right(ed) {
-                    let c = ed.current_buffer().char_after(ed.cursor()).unwrap();
-                    if c.is_lowercase() {
-                        ed.delete_after_cursor()?;
-                        for c in c.to_uppercase() {
-                            ed.insert_after_cursor(c)?;
-                        }
-                    } else if c.is_uppercase() {
-                        ed.delete_after_cursor()?;
-                        for c in c.to_lowercase() {
-                            ed.insert_after_cursor(c)?;
-                        }
-                    } else {
-                        ed.move_cursor_right(1)?;
-                    }
-                }
+                // leave tilde mode again even if the terminal could not be written to
+                let swapped = match self.set_mode(Tilde, ed) {
+                    Ok(()) => self.swap_case(ed),
+                    err => err,
+                };
                 self.count = 0;
                 self.pop_mode(ed)?;
-                Ok(())
+                swapped
             }
             Key::Char('u') => {
                 let count = self.move_count();
-- 
2.43.0


From 93ad02b17d8907c85b96966c61387291c415a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 43/48] fix: equal buffers hash equally, whatever their edit
 history

---
 src/buffer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index be02a06..e0ac979 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -1,4 +1,5 @@
 use std::fmt::{self, Write as FmtWrite};
+use std::hash::{Hash, Hasher};
 use std::io::{self, Write};
 use std::iter::FromIterator;
 use unicode_width::UnicodeWidthStr;
@@ -37,7 +38,7 @@ impl Action {
 /// A buffer for text in the line editor.
 ///
 /// It keeps track of each action performed on it for use with undo/redo.
-#[derive(Clone, Hash, Debug)]
+#[derive(Clone, Debug)]
 pub struct Buffer {
     data: Vec<char>,
     actions: Vec<Action>,
@@ -51,6 +52,13 @@ impl PartialEq for Buffer {
 }
 impl Eq for Buffer {}
 
+impl Hash for Buffer {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        // must agree with eq
+        self.data.hash(state);
+    }
+}
+
 impl From<Buffer> for String {
     fn from(buf: Buffer) -> Self {
         String::from_iter(buf.data)
-- 
2.43.0


From 09325d02fe64e80dd5d46fd685ee0388ba1c1c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:35 +0000
Subject: [PATCH 44/48] fix: count only what is shown of a prompt with escape
 sequences for its width

---
 src/util.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 29fd13d..91a4bba 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -64,10 +64,14 @@ pub fn remove_codes(input: &str) -> Cow<str> {
                 AnsiState::Esc => match c {
                     '[' => s = AnsiState::Csi,
                     ']' => s = AnsiState::Osc,
+                    // intermediate characters, like that of "\x1B(B"
+                    ' '..='/' => (),
                     _ => s = AnsiState::Norm,
                 },
-                AnsiState::Csi if c.is_ascii_alphabetic() => s = AnsiState::Norm,
+                AnsiState::Csi if matches!(c, '@'..='~') => s = AnsiState::Norm,
                 AnsiState::Osc if c == '\x07' => s = AnsiState::Norm,
+                // the other way to end it is "\x1B\\"
+                AnsiState::Osc if c == '\x1B' => s = AnsiState::Esc,
                 _ => (),
             }
         }
-- 
2.43.0


From 4d56ae936d89a9c7a1d473f38da6bd964720aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:37 +0000
Subject: [PATCH 45/48] fix: do not repeat a vi word motion that cannot move
 any further

---
 src/keymap/vi.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index bd41dde..b778e1e 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -115,6 +115,13 @@ impl ViMoveDir {
         }
     }
 
+    fn can_advance(self, cursor: usize, max: usize) -> bool {
+        match self {
+            ViMoveDir::Right => cursor < max,
+            ViMoveDir::Left => cursor > 0,
+        }
+    }
+
     fn move_cursor(self, cursor: &mut usize, max: usize, dir: ViMoveDir) -> bool {
         if dir == ViMoveDir::Right && *cursor == max {
             return false;
@@ -171,6 +178,9 @@ fn vi_move_word<C: EditorContext>(
     let mut cursor = ed.cursor();
     'repeat: for _ in 0..count {
         let buf = ed.current_buffer();
+        if !direction.can_advance(cursor, buf.num_chars()) {
+            break;
+        }
         let mut state = match buf.char_after(cursor) {
             None => break,
             Some(c) => match c {
@@ -240,6 +250,9 @@ fn vi_move_word_end<C: EditorContext>(
     let mut cursor = ed.cursor();
     'repeat: for _ in 0..count {
         let buf = ed.current_buffer();
+        if !direction.can_advance(cursor, buf.num_chars()) {
+            break;
+        }
         let mut state = State::Whitespace;
 
         while direction.advance(&mut cursor, buf.num_chars()) {
-- 
2.43.0


From a8214886773c8a264e799547c8f04f66d9ca79fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 46/48] fix: lay out completions with wide characters by their
 width

---
 src/editor.rs | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 0d7136c..ac123ed 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -247,6 +247,23 @@ macro_rules! cur_buf {
     };
 }
 
+/// Where the terminal's cursor is after `text` has been printed from `(row, col)`. The
+/// column is the terminal's width if the next character is going to wrap around.
+fn print_from(
+    (mut row, mut col): (usize, usize),
+    text: &str,
+    terminal_width: usize,
+) -> (usize, usize) {
+    for width in text.chars().filter_map(UnicodeWidthChar::width) {
+        if col + width > terminal_width {
+            row += 1;
+            col = 0;
+        }
+        col += width;
+    }
+    (row, col)
+}
+
 impl<C: EditorContext> Editor<C> {
     pub fn new(prompt: Prompt, f: Option<ColorClosure>, context: C) -> io::Result<Self> {
         Editor::new_with_init_buffer(prompt, f, context, Buffer::new())
@@ -510,8 +527,8 @@ impl<C: EditorContext> Editor<C> {
 
         let w = terminal_width;
 
-        // XXX wide character support
-        let max_word_size = completions.iter().fold(1, |m, x| max(m, x.chars().count()));
+        let word_size = |x: &str| -> usize { x.chars().filter_map(UnicodeWidthChar::width).sum() };
+        let max_word_size = completions.iter().fold(1, |m, x| max(m, word_size(x)));
         let cols = max(1, w / (max_word_size));
         let col_width = 2 + w / cols;
         let cols = max(1, w / col_width);
@@ -538,11 +555,12 @@ impl<C: EditorContext> Editor<C> {
                 .map_err(io::Error::other)?;
             }
             if cols > 1 {
-                write!(output_buf, "{:<1$}", com, col_width).map_err(io::Error::other)?;
+                output_buf.push_str(com);
+                output_buf.push_str(&" ".repeat(col_width - word_size(com)));
             } else {
                 // Padding would wrap around here, and so does a word longer than the terminal.
                 output_buf.push_str(com);
-                lines += com.chars().count().saturating_sub(1) / w;
+                lines += print_from((0, 0), com, w).0;
             }
             if Some(index) == highlighted {
                 write!(
@@ -1048,23 +1066,6 @@ impl<C: EditorContext> Editor<C> {
     }
 
     fn display_impl(&mut self, show_autosuggest: bool) -> io::Result<()> {
-        /// Where the terminal's cursor is after `text` has been printed from `(row, col)`. The
-        /// column is the terminal's width if the next character is going to wrap around.
-        fn print_from(
-            (mut row, mut col): (usize, usize),
-            text: &str,
-            terminal_width: usize,
-        ) -> (usize, usize) {
-            for width in text.chars().filter_map(UnicodeWidthChar::width) {
-                if col + width > terminal_width {
-                    row += 1;
-                    col = 0;
-                }
-                col += width;
-            }
-            (row, col)
-        }
-
         // Don't let the cursor go over the end!
         let buf_num_chars = cur_buf!(self).num_chars();
         if buf_num_chars < self.cursor {
-- 
2.43.0


From e32be15d873a594c879452b1efd5f012e6a6483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 47/48] fix: show every line of a prompt that is set during the
 session

---
 src/editor.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index ac123ed..55b7ede 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1093,11 +1093,13 @@ impl<C: EditorContext> Editor<C> {
         // Terminal positions, relative to the start of the prompt, at the end of some lines
         // printed after the prompt.
         let indent = " ".repeat(prompt_width);
-        let prompt_end = print_from(
-            (0, 0),
-            &util::remove_codes(util::handle_prompt(&prompt)),
-            terminal_width,
-        );
+        let mut prompt_end = (0, 0);
+        for (i, line) in util::remove_codes(&prompt).split('\n').enumerate() {
+            if i > 0 {
+                prompt_end = (prompt_end.0 + 1, 0);
+            }
+            prompt_end = print_from(prompt_end, line, terminal_width);
+        }
         let end_of = |lines: &[String]| {
             let mut pos = prompt_end;
             for (i, line) in lines.iter().enumerate() {
@@ -1159,7 +1161,7 @@ impl<C: EditorContext> Editor<C> {
         }
 
         // Write the prompt
-        write!(&mut out_buf, "{}", prompt).map_err(io::Error::other)?;
+        out_buf.push_str(&prompt.replace('\n', "\r\n"));
 
         // We get the number of characters in the buffer (but NOT the autosuggestion).
         // Then, we loop and subtract from that number until it's 0, in which case we are printing
-- 
2.43.0


From bd21c4c97238cdd327a07de6a05b37dc62c77f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:38 +0000
Subject: [PATCH 48/48] fix: keep the history when its file cannot be read

---
 src/history.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 5503068..9fadb47 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -114,22 +114,25 @@ impl History {
             self.clear_history();
         }
         if new_length != length {
-            if !append {
-                self.clear_history();
-            }
+            let mut loaded: Vec<Buffer> = Vec::new();
             let reader = BufReader::new(file);
             for line in reader.lines() {
                 match line {
                     Ok(line) => {
                         if !line.starts_with('#') {
-                            self.buffers.push_back(Buffer::from(line));
+                            loaded.push(Buffer::from(line));
                         }
                     }
                     // Skip a line that is not UTF-8.
                     Err(ref e) if e.kind() == io::ErrorKind::InvalidData => {}
-                    Err(_) => break,
+                    // Keep what there is if the file cannot be read.
+                    Err(e) => return Err(e),
                 }
             }
+            if !append {
+                self.clear_history();
+            }
+            self.buffers.extend(loaded);
             self.truncate();
             if !self.load_duplicates {
                 let mut tmp_buffers: Vec<Buffer> = Vec::with_capacity(self.buffers.len());
-- 
2.43.0

