From 235addc1cd3964da45f2c6006c521dc603cb8cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 01/35] fix: lay the line out for the terminal it is written to

The widths came from the process's standard output even when the context
has a terminal of its own, which failed where that is not a terminal.
---
 src/editor.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index dbf752d..bc0d7d4 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -266,7 +266,7 @@ impl<C: EditorContext> Editor<C> {
         {
             let out = context.terminal_mut();
             out.write_all("⏎".as_bytes())?;
-            for _ in 0..(out.width().unwrap_or(80) - 1) {
+            for _ in 0..(out.width().unwrap_or(80).max(1) - 1) {
                 out.write_all(b" ")?; // if the line is not empty, overflow on next line
             }
             out.write_all("\r \r".as_bytes())?; // Erase the "⏎" if nothing overwrites it
@@ -487,20 +487,30 @@ impl<C: EditorContext> Editor<C> {
         Ok(did)
     }
 
+    /// The width of the terminal we write to; a terminal that does not know is taken to have 80
+    /// columns.
+    fn terminal_width(&self) -> io::Result<usize> {
+        Ok(match self.context.terminal().width()? {
+            0 => 80,
+            width => width,
+        })
+    }
+
     fn print_completion_list(
         completions: &[String],
         highlighted: Option<usize>,
+        terminal_width: usize,
         output_buf: &mut String,
     ) -> io::Result<usize> {
         use std::cmp::max;
 
-        let (w, _) = termion::terminal_size()?;
+        let w = terminal_width;
 
         // XXX wide character support
         let max_word_size = completions.iter().fold(1, |m, x| max(m, x.chars().count()));
-        let cols = max(1, w as usize / (max_word_size));
-        let col_width = 2 + w as usize / cols;
-        let cols = max(1, w as usize / col_width);
+        let cols = max(1, w / (max_word_size));
+        let col_width = 2 + w / cols;
+        let cols = max(1, w / col_width);
 
         let lines = completions.len() / cols;
 
@@ -1007,7 +1017,7 @@ impl<C: EditorContext> Editor<C> {
 
         let (prompt, rev_prompt_width) = self.search_prompt();
 
-        let terminal_width = util::terminal_width()?;
+        let terminal_width = self.terminal_width()?;
         let prompt_width = util::last_prompt_line_width(&prompt);
 
         let buf = cur_buf!(self);
@@ -1062,7 +1072,8 @@ impl<C: EditorContext> Editor<C> {
         // If we're cycling through completions, show those
         let mut completion_lines = 0;
         if let Some((completions, i)) = self.show_completions_hint.as_ref() {
-            completion_lines = 1 + Self::print_completion_list(completions, *i, &mut out_buf)?;
+            completion_lines =
+                1 + Self::print_completion_list(completions, *i, terminal_width, &mut out_buf)?;
             out_buf.push_str("\r\n");
         }
 
-- 
2.43.0


From 4b427b4c888be2edea0ff3403899ea2e01a18787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 02/35] fix: clearing the screen reaches the terminal

The control sequence only went to the context's own buffer.
---
 src/editor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index bc0d7d4..30a41ad 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -663,8 +663,11 @@ impl<C: EditorContext> Editor<C> {
 
     /// Clears the screen then prints the prompt and current buffer.
     pub fn clear(&mut self) -> io::Result<()> {
-        write!(&mut self.context, "{}{}", clear::All, cursor::Goto(1, 1))
-            .map_err(io::Error::other)?;
+        let clear_screen = format!("{}{}", clear::All, cursor::Goto(1, 1));
+        write!(&mut self.context, "{}", clear_screen).map_err(io::Error::other)?;
+        self.context
+            .terminal_mut()
+            .write_all(clear_screen.as_bytes())?;
 
         self.term_cursor_line = 1;
         self.clear_search();
-- 
2.43.0


From 3ead6692260d87a83fd14ba47f9d5a2ccf989b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 03/35] fix: do not leave a copy of a long prompt behind

A prompt that fills the terminal's row was written twice when the editor
started, the first copy staying on the screen.
---
 src/editor.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 30a41ad..581d50f 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -270,9 +270,11 @@ impl<C: EditorContext> Editor<C> {
                 out.write_all(b" ")?; // if the line is not empty, overflow on next line
             }
             out.write_all("\r \r".as_bytes())?; // Erase the "⏎" if nothing overwrites it
-            out.write_all(prompt.split('\n').join("\r\n").as_bytes())?;
+            // The last line of the prompt is drawn along with the buffer.
             if let Some(index) = prompt.rfind('\n') {
-                prompt = prompt.split_at(index + 1).1.into()
+                let last_line = prompt.split_off(index + 1);
+                out.write_all(prompt.split('\n').join("\r\n").as_bytes())?;
+                prompt = last_line;
             }
         }
 
-- 
2.43.0


From 4acf85f1f1517424d1bfbb7696671bf334fd9f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 04/35] fix: tell the typed text from the suggestion by
 characters

The line was cut at the number of bytes typed, newlines not counted: cut
within a character (a panic), or with the suggestion coloured as typed.
---
 src/editor.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 581d50f..ac7d433 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1086,26 +1086,37 @@ impl<C: EditorContext> Editor<C> {
         write!(&mut out_buf, "{}", prompt).map_err(io::Error::other)?;
 
         // If we have an autosuggestion, we make the autosuggestion the buffer we print out.
-        // We get the number of bytes in the buffer (but NOT the autosuggestion).
+        // We get the number of characters in the buffer (but NOT the autosuggestion).
         // Then, we loop and subtract from that number until it's 0, in which case we are printing
         // the autosuggestion from here on (in a different color).
         let lines = match self.autosuggestion {
             Some(ref suggestion) if show_autosuggest => suggestion.lines(),
             _ => buf.lines(),
         };
-        let mut buf_num_remaining_bytes = buf.num_bytes();
+        let mut buf_num_remaining_chars = buf_num_chars;
 
         let lines_len = lines.len();
         for (i, line) in lines.into_iter().enumerate() {
             if i > 0 {
                 write!(out_buf, "{}", cursor::Right(prompt_width as u16))
                     .map_err(io::Error::other)?;
+                // The newline in front of this line.
+                buf_num_remaining_chars = buf_num_remaining_chars.saturating_sub(1);
             }
 
-            if buf_num_remaining_bytes == 0 {
+            // Where the buffer ends in this line, if it does.
+            let split = line
+                .char_indices()
+                .nth(buf_num_remaining_chars)
+                .map(|(split, _)| split);
+
+            if buf_num_remaining_chars == 0 {
+                if self.is_currently_showing_autosuggestion() {
+                    write!(&mut out_buf, "{}", color::Yellow.fg_str()).map_err(io::Error::other)?;
+                }
                 out_buf.push_str(&line);
-            } else if line.len() > buf_num_remaining_bytes {
-                let start = &line[..buf_num_remaining_bytes];
+            } else if let Some(split) = split {
+                let start = &line[..split];
                 let start = match self.closure {
                     Some(ref f) => f(start),
                     None => start.to_owned(),
@@ -1117,10 +1128,10 @@ impl<C: EditorContext> Editor<C> {
                 if !self.is_search() {
                     write!(&mut out_buf, "{}", color::Yellow.fg_str()).map_err(io::Error::other)?;
                 }
-                out_buf.push_str(&line[buf_num_remaining_bytes..]);
-                buf_num_remaining_bytes = 0;
+                out_buf.push_str(&line[split..]);
+                buf_num_remaining_chars = 0;
             } else {
-                buf_num_remaining_bytes -= line.len();
+                buf_num_remaining_chars -= line.chars().count();
                 let written_line = match self.closure {
                     Some(ref f) => f(&line),
                     None => line,
-- 
2.43.0


From fbf0e636c333e8b6f73ca0fdc1a3b2bed2cb5885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 05/35] fix: leave the suggestion out of the layout of a
 finished line

When the line was drawn for the last time, without its suggestion, the
cursor was placed as if the suggestion were still there.
---
 src/editor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index ac7d433..597d9fe 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1040,13 +1040,13 @@ impl<C: EditorContext> Editor<C> {
         }
 
         let buf_widths = match self.autosuggestion {
-            Some(ref suggestion) => suggestion.width(),
-            None => buf_width,
+            Some(ref suggestion) if show_autosuggest => suggestion.width(),
+            _ => buf_width,
         };
         // Width of the current buffer lines (including autosuggestion) from the start to the cursor
         let buf_widths_to_cursor = match self.autosuggestion {
             // Cursor might overrun autosuggestion with history search.
-            Some(ref suggestion) if self.cursor < suggestion.num_chars() => {
+            Some(ref suggestion) if show_autosuggest && self.cursor < suggestion.num_chars() => {
                 suggestion.range_width(0, self.cursor)
             }
             _ => buf.range_width(0, self.cursor),
-- 
2.43.0


From f6f41286ca7f1b6621aa6c4919740327d157e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 06/35] fix: place the cursor where the terminal puts the text

Wide characters that do not fit in a row, empty lines behind an empty
prompt, lines that end with their row and a search pattern with wide
characters or newlines were all counted wrongly.
---
 src/editor.rs | 76 +++++++++++++++++++++++++++------------------------
 src/util.rs   | 18 ++++++++++--
 2 files changed, 57 insertions(+), 37 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 597d9fe..fed1c1b 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1,7 +1,6 @@
 use std::fmt::{self, Write};
 use std::io::{self, Write as _};
 use std::{cmp, iter, mem};
-use strip_ansi_escapes::strip;
 use termion::{self, clear, color, cursor};
 
 use super::complete::Completer;
@@ -976,7 +975,7 @@ impl<C: EditorContext> Editor<C> {
     }
 
     /// Override the prompt for incremental search if needed.
-    fn search_prompt(&mut self) -> (String, usize) {
+    fn search_prompt(&mut self, terminal_width: usize) -> (String, usize) {
         if self.is_search() {
             // If we are searching override prompt to search prompt.
             let (hplace, color) = if self.history_subset_index.is_empty() {
@@ -993,12 +992,12 @@ impl<C: EditorContext> Editor<C> {
                     "{}(search)'{}{}{}` ({}/{}): ",
                     &prefix,
                     color,
-                    self.current_buffer(),
+                    self.current_buffer().to_string().replace('\n', " "),
                     color::Reset.fg_str(),
                     hplace,
                     self.history_subset_index.len()
                 ),
-                strip(&prefix).len() + 9,
+                util::last_prompt_line_width(format!("{}(search)'", prefix), terminal_width),
             )
         } else {
             (self.prompt.to_string(), 0)
@@ -1006,27 +1005,34 @@ impl<C: EditorContext> Editor<C> {
     }
 
     fn display_impl(&mut self, show_autosuggest: bool) -> io::Result<()> {
-        fn calc_width(prompt_width: usize, buf_widths: &[usize], terminal_width: usize) -> usize {
+        // The number of cells used by the lines and the gaps to the ends of their rows, and
+        // whether the last line ends with its row.
+        fn calc_width(
+            prompt_width: usize,
+            lines: &[String],
+            terminal_width: usize,
+        ) -> (usize, bool) {
             let mut total = 0;
+            let mut line_start = 0;
 
-            for line in buf_widths {
-                if total % terminal_width != 0 {
+            for (i, line) in lines.iter().enumerate() {
+                // After a line that ends with its row we are on the next row already.
+                if i > 0 && (total % terminal_width != 0 || total == line_start) {
                     total = ((total / terminal_width) + 1) * terminal_width;
                 }
 
-                total += prompt_width + line;
+                line_start = total;
+                total = util::advance(total + prompt_width, line, terminal_width);
             }
 
-            total
+            (total, total % terminal_width == 0 && total != line_start)
         }
 
-        let (prompt, rev_prompt_width) = self.search_prompt();
-
         let terminal_width = self.terminal_width()?;
-        let prompt_width = util::last_prompt_line_width(&prompt);
+        let (prompt, rev_prompt_width) = self.search_prompt(terminal_width);
+        let prompt_width = util::last_prompt_line_width(&prompt, terminal_width);
 
         let buf = cur_buf!(self);
-        let buf_width = buf.width();
 
         // Don't let the cursor go over the end!
         let buf_num_chars = buf.num_chars();
@@ -1039,25 +1045,27 @@ impl<C: EditorContext> Editor<C> {
             self.cursor -= 1;
         }
 
-        let buf_widths = match self.autosuggestion {
-            Some(ref suggestion) if show_autosuggest => suggestion.width(),
-            _ => buf_width,
-        };
-        // Width of the current buffer lines (including autosuggestion) from the start to the cursor
-        let buf_widths_to_cursor = match self.autosuggestion {
-            // Cursor might overrun autosuggestion with history search.
-            Some(ref suggestion) if show_autosuggest && self.cursor < suggestion.num_chars() => {
-                suggestion.range_width(0, self.cursor)
-            }
-            _ => buf.range_width(0, self.cursor),
+        let lines = match self.autosuggestion {
+            Some(ref suggestion) if show_autosuggest => suggestion.lines(),
+            _ => buf.lines(),
         };
+        let text_to_cursor = buf.range(0, self.cursor);
 
-        // Total number of terminal spaces taken up by prompt and buffer
-        let new_total_width = calc_width(prompt_width, &buf_widths, terminal_width);
+        // Total number of terminal spaces taken up by prompt and buffer (including autosuggestion)
+        let (new_total_width, ends_with_row) = calc_width(prompt_width, &lines, terminal_width);
         let new_total_width_to_cursor = if self.is_search() {
-            calc_width(rev_prompt_width, &buf_widths_to_cursor, terminal_width)
+            // The cursor is in the pattern, which is part of the prompt.
+            util::advance(
+                rev_prompt_width,
+                &text_to_cursor.replace('\n', " "),
+                terminal_width,
+            )
         } else {
-            calc_width(prompt_width, &buf_widths_to_cursor, terminal_width)
+            let lines_to_cursor = text_to_cursor
+                .split('\n')
+                .map(String::from)
+                .collect::<Vec<_>>();
+            calc_width(prompt_width, &lines_to_cursor, terminal_width).0
         };
 
         let new_num_lines = (new_total_width + terminal_width) / terminal_width;
@@ -1089,17 +1097,15 @@ impl<C: EditorContext> Editor<C> {
         // We get the number of characters in the buffer (but NOT the autosuggestion).
         // Then, we loop and subtract from that number until it's 0, in which case we are printing
         // the autosuggestion from here on (in a different color).
-        let lines = match self.autosuggestion {
-            Some(ref suggestion) if show_autosuggest => suggestion.lines(),
-            _ => buf.lines(),
-        };
         let mut buf_num_remaining_chars = buf_num_chars;
 
         let lines_len = lines.len();
         for (i, line) in lines.into_iter().enumerate() {
             if i > 0 {
-                write!(out_buf, "{}", cursor::Right(prompt_width as u16))
-                    .map_err(io::Error::other)?;
+                if prompt_width > 0 {
+                    write!(out_buf, "{}", cursor::Right(prompt_width as u16))
+                        .map_err(io::Error::other)?;
+                }
                 // The newline in front of this line.
                 buf_num_remaining_chars = buf_num_remaining_chars.saturating_sub(1);
             }
@@ -1152,7 +1158,7 @@ impl<C: EditorContext> Editor<C> {
         }
 
         // at the end of the line, move the cursor down a line
-        if new_total_width % terminal_width == 0 {
+        if ends_with_row {
             out_buf.push_str("\r\n");
         }
 
diff --git a/src/util.rs b/src/util.rs
index 29fd13d..53ffd81 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1,9 +1,23 @@
 use std::{borrow::Cow, io};
 use unicode_width::*;
 
-pub fn last_prompt_line_width<S: AsRef<str>>(s: S) -> usize {
+pub fn last_prompt_line_width<S: AsRef<str>>(s: S, terminal_width: usize) -> usize {
     let last_prompt_line_width = handle_prompt(s.as_ref());
-    remove_codes(last_prompt_line_width).width()
+    advance(0, &remove_codes(last_prompt_line_width), terminal_width)
+}
+
+/// The number of cells used once `text` is written after `total` cells. A wide character that
+/// does not fit in the rest of its row is put in the next one.
+pub fn advance(total: usize, text: &str, terminal_width: usize) -> usize {
+    text.chars().fold(total, |total, c| {
+        let char_width = c.width().unwrap_or(0);
+        let left = terminal_width - total % terminal_width;
+        if char_width > left {
+            total + left + char_width
+        } else {
+            total + char_width
+        }
+    })
 }
 
 pub fn find_longest_common_prefix<T: Clone + Eq>(among: &[Vec<T>]) -> Option<Vec<T>> {
-- 
2.43.0


From 540df3c9fbf54ec25b3bf2d58c5688944d20e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 07/35] fix: count the rows of the completion list

A list that fills its last row, candidates wider than the terminal and
wide characters left parts of earlier drawings on the screen.
---
 src/editor.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index fed1c1b..0adc931 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -2,6 +2,7 @@ use std::fmt::{self, Write};
 use std::io::{self, Write as _};
 use std::{cmp, iter, mem};
 use termion::{self, clear, color, cursor};
+use unicode_width::UnicodeWidthStr;
 
 use super::complete::Completer;
 use crate::context::ColorClosure;
@@ -507,18 +508,21 @@ impl<C: EditorContext> Editor<C> {
 
         let w = terminal_width;
 
-        // XXX wide character support
-        let max_word_size = completions.iter().fold(1, |m, x| max(m, x.chars().count()));
+        let max_word_size = completions.iter().fold(1, |m, x| max(m, x.width()));
         let cols = max(1, w / (max_word_size));
-        let col_width = 2 + w / cols;
+        let col_width = cmp::min(2 + w / cols, w);
         let cols = max(1, w / col_width);
 
-        let lines = completions.len() / cols;
+        // Rows above the one we are on, and cells used in that one.
+        let mut lines = 0;
+        let mut used = 0;
 
         let mut i = 0;
         for (index, com) in completions.iter().enumerate() {
             if i == cols {
                 output_buf.push_str("\r\n");
+                lines += 1;
+                used = 0;
                 i = 0;
             } else if i > cols {
                 unreachable!()
@@ -533,7 +537,14 @@ impl<C: EditorContext> Editor<C> {
                 )
                 .map_err(io::Error::other)?;
             }
-            write!(output_buf, "{:<1$}", com, col_width).map_err(io::Error::other)?;
+            let padding = " ".repeat(col_width.saturating_sub(com.width()));
+            write!(output_buf, "{}{}", com, padding).map_err(io::Error::other)?;
+            used = util::advance(used, com, w) + padding.len();
+            // What does not fit in a row goes on in the next ones.
+            if used > w {
+                lines += (used - 1) / w;
+                used = (used - 1) % w + 1;
+            }
             if Some(index) == highlighted {
                 write!(
                     output_buf,
-- 
2.43.0


From 9c4154b60240fffb44ae0c5809f5d162759c69d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 08/35] fix: no underflow asking for the end of an empty line
 in vi mode

---
 src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index 0adc931..1f77282 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -920,7 +920,7 @@ impl<C: EditorContext> Editor<C> {
     pub fn cursor_is_at_end_of_line(&self) -> bool {
         let num_chars = cur_buf!(self).num_chars();
         if self.no_eol {
-            self.cursor == num_chars - 1
+            self.cursor + 1 == num_chars
         } else {
             self.cursor == num_chars
         }
-- 
2.43.0


From f4bd55bcc7fca63c67fa69390bb3bb65e9675b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 09/35] fix: undoing an edit of a recalled entry stops at that
 entry

Further undos took back the copying of the entry itself and went on into
whatever entry had been edited before.
---
 src/editor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/editor.rs b/src/editor.rs
index 1f77282..b12d423 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -228,6 +228,7 @@ macro_rules! cur_buf_mut {
             Some(i) => {
                 if !$s.hist_buf_valid {
                     $s.hist_buf.copy_buffer(&$s.context.history()[i]);
+                    $s.hist_buf.clear_actions();
                     $s.hist_buf_valid = true;
                 }
                 &mut $s.hist_buf
-- 
2.43.0


From 6080b2988f6c32c264bedbdb5b25c4fc875723c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 10/35] fix: a character search that finds nothing gives the
 command up

A pending d or c went on from where the cursor was, deleting a character
or, at the end of an empty line, panicking; e with c could do the latter
too.
---
 src/editor.rs    |  4 +++-
 src/keymap/vi.rs | 12 ++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index b12d423..7539dee 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -846,6 +846,7 @@ impl<C: EditorContext> Editor<C> {
     pub fn delete_until(&mut self, position: usize) -> io::Result<()> {
         {
             let buf = cur_buf_mut!(self);
+            let position = cmp::min(position, buf.num_chars());
             buf.remove(
                 cmp::min(self.cursor, position),
                 cmp::max(self.cursor, position),
@@ -859,9 +860,10 @@ impl<C: EditorContext> Editor<C> {
     pub fn delete_until_inclusive(&mut self, position: usize) -> io::Result<()> {
         {
             let buf = cur_buf_mut!(self);
+            let position = cmp::min(position, buf.num_chars());
             buf.remove(
                 cmp::min(self.cursor, position),
-                cmp::max(self.cursor + 1, position + 1),
+                cmp::min(cmp::max(self.cursor, position) + 1, buf.num_chars()),
             );
             self.cursor = cmp::min(self.cursor, position);
         }
diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 979e287..8d0854e 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -1001,28 +1001,32 @@ impl Vi {
                         move_type = Inclusive;
                         match find_char(ed.current_buffer(), ed.cursor() + 1, c, count) {
                             Some(i) => ed.move_cursor_to(i - 1),
-                            None => Ok(()),
+                            // no such character, nothing to move over or to change
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     RightAt => {
                         move_type = Inclusive;
                         match find_char(ed.current_buffer(), ed.cursor() + 1, c, count) {
                             Some(i) => ed.move_cursor_to(i),
-                            None => Ok(()),
+                            // no such character, nothing to move over or to change
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     LeftUntil => {
                         move_type = Exclusive;
                         match find_char_rev(ed.current_buffer(), ed.cursor(), c, count) {
                             Some(i) => ed.move_cursor_to(i + 1),
-                            None => Ok(()),
+                            // no such character, nothing to move over or to change
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     LeftAt => {
                         move_type = Exclusive;
                         match find_char_rev(ed.current_buffer(), ed.cursor(), c, count) {
                             Some(i) => ed.move_cursor_to(i),
-                            None => Ok(()),
+                            // no such character, nothing to move over or to change
+                            None => return self.normal_mode_abort(ed),
                         }
                     }
                     Repeat | ReverseRepeat => unreachable!(),
-- 
2.43.0


From de429343fbd78c8298ac70ecd015810f76bd7022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 11/35] fix: giving up a vi command closes the undo groups it
 opened

After an aborted c, one u took back everything done since.
---
 src/keymap/vi.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 8d0854e..78c94a3 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -463,6 +463,12 @@ impl Vi {
 
     /// Return to normal mode.
     fn normal_mode_abort<C: EditorContext>(&mut self, mut ed: &mut Editor<C>) -> io::Result<()> {
+        // The modes we leave may have opened undo groups.
+        for mode in &self.mode_stack.0 {
+            if *mode == Mode::Insert || *mode == Mode::Tilde {
+                ed.current_buffer_mut().end_undo_group();
+            }
+        }
         self.mode_stack.clear();
         ed.no_eol = true;
         self.count = 0;
-- 
2.43.0


From 86bd25aca0b82acf388ae3571363d05ee47250f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 12/35] fix: report a terminal failure after ~ instead of
 panicking

---
 src/keymap/vi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 78c94a3..9c4a4ec 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -456,7 +456,7 @@ impl Vi {
         }
 
         if last_mode == Tilde {
-            ed.display().unwrap();
+            ed.display()?;
         }
         self.set_editor_mode(&mut ed)
     }
-- 
2.43.0


From 6356c94502787fb09e25c30bad98d927293a9907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 13/35] fix: a count does not outlive the vi command it was
 given to

It was kept by ~, Home, End and keys without a meaning, and dHome left
the delete pending.
---
 src/keymap/vi.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 9c4a4ec..9702afe 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -796,11 +796,11 @@ impl Vi {
                 self.count = self.count.saturating_mul(10).saturating_add(i);
                 Ok(())
             }
-            Key::Char('^') => {
+            Key::Char('^') | Key::Home => {
                 ed.move_cursor_to_start_of_line()?;
                 self.pop_mode_after_movement(Exclusive, ed)
             }
-            Key::Char('$') => {
+            Key::Char('$') | Key::End => {
                 ed.move_cursor_to_end_of_line()?;
                 self.pop_mode_after_movement(Exclusive, ed)
             }
@@ -840,6 +840,7 @@ impl Vi {
                         ed.move_cursor_right(1)?;
                     }
                 }
+                self.count = 0;
                 self.pop_mode(ed)?;
                 Ok(())
             }
@@ -864,7 +865,10 @@ impl Vi {
                 }
                 Ok(())
             }
-            _ => self.handle_key_common(key, ed),
+            _ => {
+                self.count = 0;
+                self.handle_key_common(key, ed)
+            }
         }
     }
 
-- 
2.43.0


From 068ba78e35be8d06f0694544b78058a6a3515faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 14/35] fix: de and ce take the last character of the word

---
 src/keymap/vi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 9702afe..8658ae0 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -764,12 +764,12 @@ impl Vi {
             Key::Char('e') => {
                 let count = self.move_count();
                 move_to_end_of_word(ed, count)?;
-                self.pop_mode_after_movement(Exclusive, ed)
+                self.pop_mode_after_movement(Inclusive, ed)
             }
             Key::Char('E') => {
                 let count = self.move_count();
                 move_to_end_of_word_ws(ed, count)?;
-                self.pop_mode_after_movement(Exclusive, ed)
+                self.pop_mode_after_movement(Inclusive, ed)
             }
             Key::Char('b') => {
                 let count = self.move_count();
-- 
2.43.0


From 97f2e164247e0f3c3cdbad395c5e76b232569a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 15/35] fix: dge and cge change nothing at the start of the
 line

---
 src/keymap/vi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 8658ae0..9fd102c 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -1058,6 +1058,8 @@ impl Vi {
         self.current_command.push(key);
 
         let res = match key {
+            // there is no word before the start of the line
+            _ if ed.cursor() == 0 => self.normal_mode_abort(ed),
             Key::Char('e') => {
                 move_to_end_of_word_back(ed, count)?;
                 self.pop_mode_after_movement(Inclusive, ed)
-- 
2.43.0


From f12ec51fccd991783a535c253b576a517c440b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 16/35] fix: dot repeats dd and cc

The comment says so, but what was repeated was the change before.
---
 src/keymap/vi.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 9fd102c..9601269 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -945,6 +945,9 @@ impl Vi {
                 // to clear the line. The same largely applies to the 'cc' command. We update the
                 // last command here anyway ¯\_(ツ)_/¯
                 self.current_command.push(key);
+                mem::swap(&mut self.last_command, &mut self.current_command);
+                self.last_insert = self.current_insert;
+                self.last_count = 0;
 
                 // delete the whole line
                 self.count = 0;
-- 
2.43.0


From 9d0a2be2233cd737e030bc34fcc2bd90f07b3362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 17/35] fix: a c that is given up is not the last change

Dot repeated nothing after it.
---
 src/keymap/vi.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 9601269..2b6e1e4 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -673,7 +673,8 @@ impl Vi {
                     // handle special 'c' key stuff
                     self.current_insert = Some(key);
                     self.current_command.clear();
-                    self.set_mode(Insert, ed)?;
+                    // there is no new change to repeat until the movement is known
+                    self.set_mode_preserve_last(Insert, ed)?;
                 }
 
                 let start_pos = ed.cursor();
-- 
2.43.0


From 27dcc7308f15dd06c07d2375f7506efbaec3de52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 18/35] fix: dot repeats the count of d2fx and 2dfx

---
 src/keymap/vi.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index 2b6e1e4..b632a74 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -978,7 +978,6 @@ impl Vi {
         use self::MoveType::*;
 
         let count = self.move_count();
-        self.count = 0;
 
         let (key, movement) = match (key, movement, self.last_char_movement) {
             // repeat the last movement
@@ -1047,7 +1046,9 @@ impl Vi {
                 }?;
 
                 // go back to the previous mode
-                self.pop_mode_after_movement(move_type, ed)
+                self.pop_mode_after_movement(move_type, ed)?;
+                self.count = 0;
+                Ok(())
             }
 
             // can't get here due to our match above
-- 
2.43.0


From 78ba6310cc37786e69f220253e9be64a6ab2d350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 19/35] fix: dot leaves the editor in normal mode

After C it stayed in insert mode, and the text of a c whose movement
finds nothing was taken for commands.
---
 src/keymap/vi.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index b632a74..a547cdf 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -506,10 +506,14 @@ impl Vi {
         }
 
         for k in &keys {
+            if self.last_insert.is_some() && self.mode() == Mode::Normal {
+                // the command could not be done here, so the text it inserts is not a command
+                break;
+            }
             self.handle_key_core(*k, ed)?;
         }
 
-        if self.last_insert.is_some() {
+        if self.mode() == Mode::Insert {
             // leave insert mode
             self.handle_key_core(Key::Esc, ed)?;
         }
-- 
2.43.0


From b2c4464cbbdba7188ab54b52695a8749803e93bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 20/35] fix: a huge count does not keep vi word motions busy

Every step was counted even with no line left to move over.
---
 src/keymap/vi.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/keymap/vi.rs b/src/keymap/vi.rs
index a547cdf..d83c54c 100644
--- a/src/keymap/vi.rs
+++ b/src/keymap/vi.rs
@@ -170,6 +170,9 @@ fn vi_move_word<C: EditorContext>(
 
     let mut cursor = ed.cursor();
     'repeat: for _ in 0..count {
+        if direction == ViMoveDir::Left && cursor == 0 {
+            break;
+        }
         let buf = ed.current_buffer();
         let mut state = match buf.char_after(cursor) {
             None => break,
@@ -238,7 +241,14 @@ fn vi_move_word_end<C: EditorContext>(
     }
 
     let mut cursor = ed.cursor();
+    let limit = match direction {
+        ViMoveDir::Left => 0,
+        ViMoveDir::Right => ed.current_buffer().num_chars(),
+    };
     'repeat: for _ in 0..count {
+        if cursor == limit {
+            break;
+        }
         let buf = ed.current_buffer();
         let mut state = State::Whitespace;
 
-- 
2.43.0


From fda91df1dd3d3707e2919f9289ef3a4eaddfcea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 21/35] fix: Alt-. replaces the argument it fetched

It took the last word of the line for it: text behind the cursor was
deleted, an argument typed onto a word took the word along, and entries
without words made it delete what the user had typed.
---
 src/keymap/emacs.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/keymap/emacs.rs b/src/keymap/emacs.rs
index 9ee5b3d..f438fe5 100644
--- a/src/keymap/emacs.rs
+++ b/src/keymap/emacs.rs
@@ -16,6 +16,9 @@ use crate::KeyMap;
 #[derive(Default)]
 pub struct Emacs {
     last_arg_fetch_index: Option<usize>,
+    // Where the argument fetched last starts, and the line and cursor that left.
+    last_arg_fetch_start: usize,
+    last_arg_fetch_end: (String, usize),
 }
 
 impl Emacs {
@@ -66,22 +69,26 @@ impl Emacs {
             return Ok(());
         }
 
+        // If something else happened to the line, what we fetched is just a part of it.
+        if self.last_arg_fetch_end.1 != ed.cursor()
+            || self.last_arg_fetch_end.0 != ed.current_buffer().to_string()
+        {
+            self.last_arg_fetch_index = None;
+        }
+
+        let history_len = ed.context().history().len();
         let history_index = match self.last_arg_fetch_index {
             Some(0) => return Ok(()),
-            Some(x) => x - 1,
-            None => ed
-                .current_history_location()
-                .unwrap_or(ed.context().history().len() - 1),
+            Some(x) => x.min(history_len) - 1,
+            None => ed.current_history_location().unwrap_or(history_len - 1),
         };
 
         // If did a last arg fetch just before this, we need to delete it so it can be replaced by
         // this last arg fetch.
         if self.last_arg_fetch_index.is_some() {
-            let buffer_len = ed.current_buffer().num_chars();
-            if let Some(last_arg_len) = ed.current_buffer().last_arg().map(|x| x.len()) {
-                ed.delete_until(buffer_len - last_arg_len)?;
-            }
+            ed.delete_until(self.last_arg_fetch_start)?;
         }
+        self.last_arg_fetch_start = ed.cursor();
 
         // Actually insert it
         let buf = ed.context().history()[history_index].clone();
@@ -91,6 +98,7 @@ impl Emacs {
 
         // Edit the index in case the user does a last arg fetch again.
         self.last_arg_fetch_index = Some(history_index);
+        self.last_arg_fetch_end = (ed.current_buffer().to_string(), ed.cursor());
 
         Ok(())
     }
-- 
2.43.0


From 900473bad504f73cc2265a88dca1ffe80f15c24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 22/35] fix: a group with an empty group in it is one unit of
 undo

The empty group made undo forget the edits of the outer one, so that it
went on and took back the change before too.
---
 src/buffer.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 93cc7e4..7daadd0 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -126,10 +126,7 @@ impl Buffer {
             act.undo(self);
             self.undone_actions.push(act.clone());
             match act {
-                EndGroup => {
-                    group_nest += 1;
-                    group_count = 0;
-                }
+                EndGroup => group_nest += 1,
                 StartGroup => group_nest -= 1,
                 // count the actions in this group so we can ignore empty groups below
                 _ => group_count += 1,
@@ -153,10 +150,7 @@ impl Buffer {
             act.do_on(self);
             self.actions.push(act.clone());
             match act {
-                StartGroup => {
-                    group_nest += 1;
-                    group_count = 0;
-                }
+                StartGroup => group_nest += 1,
                 EndGroup => group_nest -= 1,
                 // count the actions in this group so we can ignore empty groups below
                 _ => group_count += 1,
-- 
2.43.0


From 1fdad32e6f21e2e6cdb26aa473805ba385712333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 23/35] fix: the push that compacts the history file does not
 lose its entry

It was compacted first and the new entry then not written: gone from the
file, and with a shared history from the list too.
---
 src/history.rs | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index d1dfad4..f451a26 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -256,6 +256,15 @@ impl History {
         }
 
         if self.inc_append && self.file_name.is_some() {
+            let file_name = self.file_name.clone().unwrap();
+            if let Ok(inner_file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
+                // Leave file size alone, if it is not right trigger a reload later.
+                let mut file = BufWriter::new(inner_file);
+                let _ = file.write_all(&item_str.as_bytes());
+                let _ = file.write_all(b"\n");
+                // Save the filesize after each append so we do not reload when we do not need to.
+                self.file_size += item_str.len() as u64 + 1;
+            }
             if !self.load_duplicates {
                 // Do not want duplicates so periodically compact the history file.
                 self.compaction_writes += 1;
@@ -264,19 +273,14 @@ impl History {
                 // history size at it's worst).
                 if self.compaction_writes > 29 {
                     if self.share {
-                        // Reload history, we may be out of sync.
-                        let _ = self.load_history(false);
+                        // Reload history whatever its size, we may be out of sync.
+                        let _ = self.load_history_file(&file_name, false);
                         // Commit the duplicated history.
-                        if let Some(file_name) = self.file_name.clone() {
-                            let _ = self.overwrite_history(file_name);
-                        }
+                        let _ = self.overwrite_history(file_name);
                     } else {
                         // Not using shared history so just de-dup the file without messing with
                         // our history.
-                        if let Some(file_name) = self.file_name.clone() {
-                            let _ =
-                                History::deduplicate_history_file(file_name, self.max_file_size);
-                        }
+                        let _ = History::deduplicate_history_file(file_name, self.max_file_size);
                     }
                     self.compaction_writes = 0;
                 }
@@ -284,18 +288,6 @@ impl History {
                 // If allowing duplicates then no need for compaction.
                 self.compaction_writes = 1;
             }
-            let file_name = self.file_name.clone().unwrap();
-            if let Ok(inner_file) = std::fs::OpenOptions::new().append(true).open(&file_name) {
-                // Leave file size alone, if it is not right trigger a reload later.
-                if self.compaction_writes > 0 {
-                    // If 0 we "compacted" and nothing to write.
-                    let mut file = BufWriter::new(inner_file);
-                    let _ = file.write_all(&item_str.as_bytes());
-                    let _ = file.write_all(b"\n");
-                    // Save the filesize after each append so we do not reload when we do not need to.
-                    self.file_size += item_str.len() as u64 + 1;
-                }
-            }
         }
         Ok(())
     }
-- 
2.43.0


From 86edc398adb585d6e81da81b48e46e80d4df7a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 24/35] fix: leave an entry that is gone from a reloaded shared
 history

Browsing on from it panicked.
---
 src/editor.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/editor.rs b/src/editor.rs
index 7539dee..fd4dc81 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -387,6 +387,13 @@ impl<C: EditorContext> Editor<C> {
         if self.context.history().share && !self.history_fresh {
             let _ = self.context.history_mut().load_history(false);
             self.history_fresh = true;
+            // The history may have shrunk.
+            if self.cur_history_loc >= Some(self.context.history().len()) {
+                self.cur_history_loc = None;
+                self.hist_buf_valid = false;
+                self.history_subset_loc = None;
+                self.history_subset_index.clear();
+            }
         }
     }
 
-- 
2.43.0


From 39184eaa979809663da8111c285860d2456511ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 25/35] fix: complete the part of the word before the cursor

The completer got the whole word while only the part before the cursor is
replaced, leaving the rest of the word behind the completion.
---
 src/editor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/editor.rs b/src/editor.rs
index fd4dc81..c7ac719 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -599,8 +599,10 @@ impl<C: EditorContext> Editor<C> {
             let word_range = self.get_word_before_cursor(false);
             let buf = cur_buf_mut!(self);
 
+            let cursor = self.cursor;
             let word = match word_range {
-                Some((start, end)) => buf.range(start, end),
+                // only the part before the cursor is replaced
+                Some((start, _)) => buf.range(start, cursor),
                 None => "".into(),
             };
 
-- 
2.43.0


From c98b91804dfe4fc679d918830b5a772f0aa2b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 26/35] fix: a leading backslash belongs to the word it starts

It was left out, and a space escaped by it cut the word.
---
 src/context.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 1e87ba8..eb8cde0 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -22,11 +22,6 @@ pub fn get_buffer_words(buf: &Buffer) -> Vec<(usize, usize)> {
     let mut just_had_backslash = false;
 
     for (i, &c) in buf.chars().enumerate() {
-        if c == '\\' {
-            just_had_backslash = true;
-            continue;
-        }
-
         if let Some(start) = word_start {
             if c == ' ' && !just_had_backslash {
                 res.push((start, i));
@@ -36,7 +31,7 @@ pub fn get_buffer_words(buf: &Buffer) -> Vec<(usize, usize)> {
             word_start = Some(i);
         }
 
-        just_had_backslash = false;
+        just_had_backslash = c == '\\';
     }
 
     if let Some(start) = word_start {
-- 
2.43.0


From c8a99d7369d9735585f7e5ad625241e61253c312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 27/35] fix: cycling through completions replaces the whole
 completion

---
 src/editor.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index c7ac719..bde85d9 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -579,12 +579,12 @@ impl<C: EditorContext> Editor<C> {
         if let Some((completions, i_in)) = self.show_completions_hint.take() {
             let i = i_in.map_or(0, |i| (i + 1) % completions.len());
 
-            match i_in {
-                Some(x) if cur_buf!(self) == &Buffer::from(&completions[x][..]) => {
-                    cur_buf_mut!(self).truncate(0);
-                    self.cursor = 0;
+            match i_in.and_then(|x| self.inserted_completion(&completions[x])) {
+                Some((start, end)) => {
+                    cur_buf_mut!(self).remove(start, end);
+                    self.cursor = start;
                 }
-                _ => self.delete_word_before_cursor(false)?,
+                None => self.delete_word_before_cursor(false)?,
             }
             self.insert_str_after_cursor(&completions[i])?;
 
@@ -644,6 +644,21 @@ impl<C: EditorContext> Editor<C> {
         }
     }
 
+    /// Where the completion that was inserted last is: before the cursor, or under it where the
+    /// cursor has to stay on a char.
+    fn inserted_completion(&self, completion: &str) -> Option<(usize, usize)> {
+        let buf = cur_buf!(self);
+        let len = completion.chars().count();
+        let mut ends = vec![self.cursor];
+        if self.no_eol && self.cursor + 1 == buf.num_chars() {
+            ends.push(self.cursor + 1);
+        }
+        ends.into_iter()
+            .filter(|&end| end >= len && buf.range(end - len, end) == completion)
+            .map(|end| (end - len, end))
+            .next()
+    }
+
     fn get_word_before_cursor(&self, ignore_space_before_cursor: bool) -> Option<(usize, usize)> {
         let (mut words, pos) = self.get_words_and_cursor_position();
         match pos {
-- 
2.43.0


From 3e3072cc4af183b8213b35796ecd4ad7c66b230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 28/35] fix: complete file names in quotes, starting with a
 dot, or in the current directory

---
 src/complete.rs | 90 +++++++++++++------------------------------------
 1 file changed, 23 insertions(+), 67 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index 6d75730..a9c4e05 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -56,62 +56,34 @@ impl FilenameCompleter {
 
 impl Completer for FilenameCompleter {
     fn completions(&mut self, mut start: &str) -> Vec<String> {
-        // XXX: this function is really bad, TODO rewrite
-
         let start_owned: String = if start.starts_with('\"') || start.starts_with('\'') {
-            start = &start[1..];
-            if !start.is_empty() {
-                start = &start[..start.len() - 1];
-            }
+            let (quote, name) = start.split_at(1);
+            start = name.strip_suffix(quote).unwrap_or(name);
             start.into()
         } else {
             start.replace(r"\ ", " ")
         };
 
-        let start_path = PathBuf::from(start_owned.as_str());
-
-        let full_path = match self.working_dir {
-            Some(ref wd) => {
-                let mut fp = PathBuf::from(wd);
-                fp.push(start_owned.as_str());
-                fp
-            }
-            None => PathBuf::from(start_owned.as_str()),
+        // Split the text: a path forgets about a "." at its end.
+        let (typed_dir, start_name) = match start_owned.rfind('/') {
+            Some(i) => start_owned.split_at(i + 1),
+            None => ("", &start_owned[..]),
+        };
+        let (typed_dir, start_name) = if start_name == ".." {
+            (format!("{}/", start_owned), "")
+        } else {
+            (typed_dir.to_string(), start_name)
+        };
+        let start_name = if self.case_sensitive {
+            start_name.to_string()
+        } else {
+            start_name.to_lowercase()
         };
 
-        let p;
-        let start_name;
-        let completing_dir;
-        match full_path.parent() {
-            // XXX non-unix separaor
-            Some(parent)
-                if !start.is_empty()
-                    && !start_owned.ends_with('/')
-                    && !full_path.ends_with("..") =>
-            {
-                p = parent;
-                start_name = if self.case_sensitive {
-                    full_path
-                        .file_name()
-                        .unwrap()
-                        .to_string_lossy()
-                        .into_owned()
-                } else {
-                    full_path
-                        .file_name()
-                        .unwrap()
-                        .to_string_lossy()
-                        .to_lowercase()
-                };
-                completing_dir = false;
-            }
-            _ => {
-                p = full_path.as_path();
-                start_name = "".into();
-                completing_dir =
-                    start.is_empty() || start.ends_with('/') || full_path.ends_with("..");
-            }
-        }
+        let p = match self.working_dir {
+            Some(ref wd) => wd.join(&typed_dir),
+            None => PathBuf::from(".").join(&typed_dir),
+        };
 
         let read_dir = match p.read_dir() {
             Ok(x) => x,
@@ -132,28 +104,12 @@ impl Completer for FilenameCompleter {
             };
 
             if start_name.is_empty() || file_name.starts_with(&*start_name) {
-                let mut a = start_path.clone();
-                if !a.is_absolute() {
-                    a = PathBuf::new();
-                } else if !completing_dir && !a.pop() {
-                    return vec![];
-                }
-
-                a.push(dir.file_name());
-                let mut s = a.to_string_lossy();
+                let mut s = dir.file_name().to_string_lossy().into_owned();
                 if dir.path().is_dir() {
-                    let mut string = s.into_owned();
-                    string.push_str("/");
-                    s = string.into();
-                }
-
-                let mut b = PathBuf::from(&start_owned);
-                if !completing_dir {
-                    b.pop();
+                    s.push('/');
                 }
-                b.push(s.as_ref());
 
-                matches.push(b.to_string_lossy().replace(" ", r"\ "));
+                matches.push(format!("{}{}", typed_dir, s).replace(" ", r"\ "));
             }
         }
 
-- 
2.43.0


From 6961d1b71db56312e6bdc040aaa003ff92989ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 29/35] fix: walk on from the entry Alt-< recalled, and leave
 the search for it

---
 src/editor.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index bde85d9..741bf6c 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -711,6 +711,17 @@ impl<C: EditorContext> Editor<C> {
         self.display()
     }
 
+    /// Find the entries to move through, and the current one among them, unless we know.
+    fn find_in_history_subset(&mut self) {
+        if self.history_subset_loc.is_none() {
+            self.history_subset_index = self.context.history().get_history_subset(&self.new_buf);
+            self.history_subset_loc = self
+                .history_subset_index
+                .iter()
+                .position(|&i| Some(i) == self.cur_history_loc);
+        }
+    }
+
     /// Move up (backwards) in history.
     pub fn move_up(&mut self) -> io::Result<()> {
         if self.is_search() {
@@ -719,14 +730,13 @@ impl<C: EditorContext> Editor<C> {
             self.hist_buf_valid = false;
             self.freshen_history();
             if self.new_buf.num_chars() > 0 {
+                self.find_in_history_subset();
                 match self.history_subset_loc {
                     Some(i) if i > 0 => {
                         self.history_subset_loc = Some(i - 1);
                         self.cur_history_loc = Some(self.history_subset_index[i - 1]);
                     }
-                    None => {
-                        self.history_subset_index =
-                            self.context.history().get_history_subset(&self.new_buf);
+                    None if self.cur_history_loc.is_none() => {
                         if !self.history_subset_index.is_empty() {
                             self.history_subset_loc = Some(self.history_subset_index.len() - 1);
                             self.cur_history_loc = Some(
@@ -756,10 +766,12 @@ impl<C: EditorContext> Editor<C> {
         } else {
             self.hist_buf_valid = false;
             if self.new_buf.num_chars() > 0 {
-                if let Some(i) = self.history_subset_loc {
-                    if i < self.history_subset_index.len() - 1 {
-                        self.history_subset_loc = Some(i + 1);
-                        self.cur_history_loc = Some(self.history_subset_index[i + 1]);
+                if self.cur_history_loc.is_some() {
+                    self.find_in_history_subset();
+                    let next = self.history_subset_loc.map_or(0, |i| i + 1);
+                    if next < self.history_subset_index.len() {
+                        self.history_subset_loc = Some(next);
+                        self.cur_history_loc = Some(self.history_subset_index[next]);
                     } else {
                         self.cur_history_loc = None;
                         self.history_subset_loc = None;
@@ -781,6 +793,7 @@ impl<C: EditorContext> Editor<C> {
 
     /// Moves to the start of history (ie. the earliest history entry).
     pub fn move_to_start_of_history(&mut self) -> io::Result<()> {
+        self.clear_search();
         self.hist_buf_valid = false;
         if self.context.history().is_empty() {
             self.cur_history_loc = None;
@@ -793,6 +806,7 @@ impl<C: EditorContext> Editor<C> {
 
     /// Moves to the end of history (ie. the new buffer).
     pub fn move_to_end_of_history(&mut self) -> io::Result<()> {
+        self.clear_search();
         self.hist_buf_valid = false;
         if self.cur_history_loc.is_some() {
             self.cur_history_loc = None;
-- 
2.43.0


From 40aafbc3106d27327b78f2cfba4a4d3e1145f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 30/35] fix: taking a recalled line leaves the history entry
 alone

---
 src/editor.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 741bf6c..056ad41 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1273,17 +1273,14 @@ impl<C: EditorContext> Editor<C> {
 
     /// Remove and return the current buffer of commands to execute
     pub fn take_exec_buffer(&mut self) -> String {
-        mem::take(match self.cur_history_loc {
-            Some(i) => {
-                if self.hist_buf_valid {
-                    &mut self.hist_buf
-                } else {
-                    &mut self.context.history_mut()[i]
-                }
-            }
-            _ => &mut self.new_buf,
-        })
-        .into()
+        let line = match self.cur_history_loc {
+            // not edited: the entry stays in the history
+            Some(i) if !self.hist_buf_valid => self.context.history()[i].clone(),
+            Some(_) => mem::take(&mut self.hist_buf),
+            _ => mem::take(&mut self.new_buf),
+        };
+        self.cursor = cmp::min(self.cursor, cur_buf!(self).num_chars());
+        line.into()
     }
 }
 
-- 
2.43.0


From 112f8fb141463713928fa428488b4bc7925b16ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 31/35] fix: further lines below a prompt wider than the
 terminal

---
 src/editor.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/editor.rs b/src/editor.rs
index 056ad41..845607c 100644
--- a/src/editor.rs
+++ b/src/editor.rs
@@ -1074,7 +1074,8 @@ impl<C: EditorContext> Editor<C> {
                 }
 
                 line_start = total;
-                total = util::advance(total + prompt_width, line, terminal_width);
+                let indent = if i > 0 { prompt_width % terminal_width } else { prompt_width };
+                total = util::advance(total + indent, line, terminal_width);
             }
 
             (total, total % terminal_width == 0 && total != line_start)
@@ -1154,8 +1155,10 @@ impl<C: EditorContext> Editor<C> {
         let lines_len = lines.len();
         for (i, line) in lines.into_iter().enumerate() {
             if i > 0 {
-                if prompt_width > 0 {
-                    write!(out_buf, "{}", cursor::Right(prompt_width as u16))
+                // Start in the column the first line started in.
+                let indent = prompt_width % terminal_width;
+                if indent > 0 {
+                    write!(out_buf, "{}", cursor::Right(indent as u16))
                         .map_err(io::Error::other)?;
                 }
                 // The newline in front of this line.
-- 
2.43.0


From 57389e247f6120ab45f8bb049b46474eda06f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:13 +0000
Subject: [PATCH 32/35] fix: find the end of all escape codes in prompts

A string terminated by ESC \ hid the rest of the prompt, and the choice of
a character set (part of what terminfo gives for normal text) counted as a
character, which put the cursor in the wrong place.
---
 src/util.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 53ffd81..ac9f54b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -78,10 +78,14 @@ pub fn remove_codes(input: &str) -> Cow<str> {
                 AnsiState::Esc => match c {
                     '[' => s = AnsiState::Csi,
                     ']' => s = AnsiState::Osc,
+                    // Intermediate bytes, as in the choice of a character set.
+                    ' '..='/' => (),
                     _ => s = AnsiState::Norm,
                 },
                 AnsiState::Csi if c.is_ascii_alphabetic() => s = AnsiState::Norm,
                 AnsiState::Osc if c == '\x07' => s = AnsiState::Norm,
+                // The start of a string terminator.
+                AnsiState::Osc if c == '\x1B' => s = AnsiState::Esc,
                 _ => (),
             }
         }
-- 
2.43.0


From 85c5efecfb9b3e3011074c07b4d67ac47eeaadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:56 +0000
Subject: [PATCH 33/35] fix: skip lines of a history file that are not text
 instead of dropping all that follow

---
 src/history.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/history.rs b/src/history.rs
index f451a26..845ce87 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -125,6 +125,8 @@ impl History {
                             self.buffers.push_back(Buffer::from(line));
                         }
                     }
+                    // A line that is no text (a write cut off, another encoding) is no entry.
+                    Err(ref e) if e.kind() == io::ErrorKind::InvalidData => continue,
                     Err(_) => break,
                 }
             }
@@ -167,6 +169,8 @@ impl History {
                         buf.push_back(line);
                     }
                 }
+                // A line that is no text (a write cut off, another encoding) is no entry.
+                Err(ref e) if e.kind() == io::ErrorKind::InvalidData => continue,
                 Err(_) => break,
             }
         }
-- 
2.43.0


From da13063db4e60d8fa46b758a7807258d21cb2cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:59 +0000
Subject: [PATCH 34/35] fix: compare file names without case character by
 character

---
 src/complete.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index a9c4e05..63df303 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -54,6 +54,12 @@ impl FilenameCompleter {
     }
 }
 
+/// Lower case character by character: what a start becomes must not depend on what follows it, as
+/// it does for a capital sigma with `str::to_lowercase`.
+fn lowercase(s: &str) -> String {
+    s.chars().flat_map(char::to_lowercase).collect()
+}
+
 impl Completer for FilenameCompleter {
     fn completions(&mut self, mut start: &str) -> Vec<String> {
         let start_owned: String = if start.starts_with('\"') || start.starts_with('\'') {
@@ -77,7 +83,7 @@ impl Completer for FilenameCompleter {
         let start_name = if self.case_sensitive {
             start_name.to_string()
         } else {
-            start_name.to_lowercase()
+            lowercase(start_name)
         };
 
         let p = match self.working_dir {
@@ -100,7 +106,7 @@ impl Completer for FilenameCompleter {
             let file_name = if self.case_sensitive {
                 file_name.to_string_lossy().to_string()
             } else {
-                file_name.to_string_lossy().to_lowercase()
+                lowercase(&file_name.to_string_lossy())
             };
 
             if start_name.is_empty() || file_name.starts_with(&*start_name) {
-- 
2.43.0


From 509367e5de504711364825dd46fc61e400a18620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:36 +0000
Subject: [PATCH 35/35] fix: buffers of equal text hash alike

---
 src/buffer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 7daadd0..19de653 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -1,4 +1,5 @@
 use std::fmt::{self, Write as FmtWrite};
+use std::hash::{Hash, Hasher};
 use std::io::{self, Write};
 use std::iter::FromIterator;
 use unicode_width::UnicodeWidthStr;
@@ -37,7 +38,7 @@ impl Action {
 /// A buffer for text in the line editor.
 ///
 /// It keeps track of each action performed on it for use with undo/redo.
-#[derive(Clone, Hash, Debug)]
+#[derive(Clone, Debug)]
 pub struct Buffer {
     data: Vec<char>,
     actions: Vec<Action>,
@@ -51,6 +52,13 @@ impl PartialEq for Buffer {
 }
 impl Eq for Buffer {}
 
+// As for equality, only the text counts.
+impl Hash for Buffer {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.data.hash(state);
+    }
+}
+
 impl From<Buffer> for String {
     fn from(buf: Buffer) -> Self {
         String::from_iter(buf.data)
-- 
2.43.0

