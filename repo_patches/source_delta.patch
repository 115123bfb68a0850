From 9b1588fff3e96457a8c5c348b8c01aed284f2b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 01/18] fix: write only the unsent part of the buffer after a
 short write

write_data resent the whole buffer on each iteration, so every partial
write duplicated output already sent to the terminal.
---
 src/unix/terminal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 4efd294..b41176f 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1026,7 +1026,7 @@ impl<'a> TerminalWriteGuard<'a> {
                 break Ok(());
             }
 
-            match write(self.term.out_fd, buf) {
+            match write(self.term.out_fd, &buf[offset..]) {
                 Ok(0) => break Err(io::Error::from(io::ErrorKind::WriteZero)),
                 Ok(n) => offset += n,
                 Err(Errno::EINTR) => continue,
-- 
2.43.0


From ff634c65bb94d976eb4288551467c8e7c8f183c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 02/18] fix: restore the terminal on drop even if a lock is
 poisoned

---
 src/unix/screen.rs   | 9 +++++++--
 src/unix/terminal.rs | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 5597355..23a3ad8 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -123,13 +123,18 @@ impl Screen {
 
 impl Drop for Screen {
     fn drop(&mut self) {
+        // The locks may be poisoned if a panic occurred while they were held;
+        // the terminal must be restored regardless.
+        let mut reader = self.term.lock_read().unwrap_or_else(|e| e.into_inner());
+        let mut writer = self.term.lock_write().unwrap_or_else(|e| e.into_inner());
+
         let res = if let Some(state) = self.state.take() {
-            self.term.restore(state)
+            reader.restore_with_lock(&mut writer, state)
         } else {
             Ok(())
         };
 
-        if let Err(e) = res.and_then(|_| self.term.exit_screen()) {
+        if let Err(e) = res.and_then(|_| writer.exit_screen()) {
             eprintln!("failed to restore terminal: {}", e);
         }
     }
diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index b41176f..5cdcb7e 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -299,7 +299,12 @@ impl Terminal {
 
 impl Drop for Terminal {
     fn drop(&mut self) {
-        if let Err(e) = self.set_cursor_mode(CursorMode::Normal) {
+        // The lock may be poisoned if a panic occurred while it was held;
+        // the terminal must be restored regardless.
+        let res = self.lock_write().unwrap_or_else(|e| e.into_inner())
+            .set_cursor_mode(CursorMode::Normal);
+
+        if let Err(e) = res {
             eprintln!("failed to restore terminal: {}", e);
         }
 
@@ -729,7 +734,7 @@ impl<'a> TerminalWriteGuard<'a> {
         Ok(())
     }
 
-    fn exit_screen(&mut self) -> io::Result<()> {
+    pub fn exit_screen(&mut self) -> io::Result<()> {
         if let Some(exit) = self.term.info.get::<cap::ExitCaMode>() {
             self.expand(exit.expand())?;
             self.flush()?;
-- 
2.43.0


From da875bdec85f0aa2f51716230477e31b036feefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 03/18] fix: leave the screen on drop even if restoring the
 terminal fails

---
 src/unix/screen.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index 23a3ad8..d46bcd7 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -134,7 +134,10 @@ impl Drop for Screen {
             Ok(())
         };
 
-        if let Err(e) = res.and_then(|_| writer.exit_screen()) {
+        // Leave the screen even if the terminal state could not be restored.
+        let exit = writer.exit_screen();
+
+        if let Err(e) = res.and(exit) {
             eprintln!("failed to restore terminal: {}", e);
         }
     }
-- 
2.43.0


From 7e46da9e7ea231a8fb09c49dc087bf107a94946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 04/18] fix: restore the outer set of reported signals

---
 src/unix/terminal.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 5cdcb7e..7dc17a2 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -340,6 +340,7 @@ impl<'a> TerminalReadGuard<'a> {
             old_sigwinch: None,
             restore_keypad: false,
             restore_mouse: false,
+            prev_report_signals: self.reader.report_signals,
             prev_resume: self.reader.resume,
         };
 
@@ -423,6 +424,7 @@ impl<'a> TerminalReadGuard<'a> {
 
     pub fn restore_with_lock(&mut self, writer: &mut TerminalWriteGuard,
             state: PrepareState) -> io::Result<()> {
+        self.reader.report_signals = state.prev_report_signals;
         self.reader.resume = state.prev_resume;
 
         if state.restore_mouse {
@@ -1128,6 +1130,7 @@ pub struct PrepareState {
     old_sigwinch: Option<SigAction>,
     restore_keypad: bool,
     restore_mouse: bool,
+    prev_report_signals: SignalSet,
     prev_resume: Option<Resume>,
 }
 
-- 
2.43.0


From 57e949eb3e7cee2f1b1e1f5b55ee4d1a50a2f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 05/18] fix: keep a signal that arrives before another one is
 read

---
 src/unix/terminal.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 7dc17a2..20ab420 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1369,10 +1369,12 @@ fn utf8_prefix(buf: &[u8]) -> io::Result<&str> {
     }
 }
 
-static LAST_SIGNAL: AtomicUsize = AtomicUsize::new(0);
+static PENDING_SIGNALS: AtomicUsize = AtomicUsize::new(0);
 
 extern "C" fn handle_signal(signum: c_int) {
-    LAST_SIGNAL.store(signum as usize, Ordering::Relaxed);
+    // Each signal has its own bit, so that it does not replace another signal
+    // that has not been read yet.
+    PENDING_SIGNALS.fetch_or(1usize.wrapping_shl(signum as u32), Ordering::Relaxed);
 }
 
 fn conv_signal(sig: c_int) -> Option<Signal> {
@@ -1387,11 +1389,23 @@ fn conv_signal(sig: c_int) -> Option<Signal> {
 }
 
 fn get_signal() -> Option<Signal> {
-    conv_signal(LAST_SIGNAL.load(Ordering::Relaxed) as c_int)
+    first_signal(PENDING_SIGNALS.load(Ordering::Relaxed))
 }
 
 fn take_signal() -> Option<Signal> {
-    conv_signal(LAST_SIGNAL.swap(0, Ordering::Relaxed) as c_int)
+    let pending = PENDING_SIGNALS.load(Ordering::Relaxed);
+    let first = pending & pending.wrapping_neg();
+
+    if PENDING_SIGNALS.fetch_and(!first, Ordering::Relaxed) & first == 0 {
+        // None pending, or already taken by another thread
+        None
+    } else {
+        first_signal(pending)
+    }
+}
+
+fn first_signal(pending: usize) -> Option<Signal> {
+    conv_signal(pending.trailing_zeros() as c_int)
 }
 
 fn ascii_str(s: &[u8]) -> Option<&str> {
-- 
2.43.0


From df89a967f42338ccb53b5506c764801162d0d5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 06/18] fix: fill the line with spaces when a wide character
 wraps

---
 src/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 020715e..6c827d8 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -195,7 +195,7 @@ impl ScreenBuffer {
                 let mut pos = self.cursor;
 
                 for _ in 0..rem {
-                    self.set_cell(pos, ch);
+                    self.set_cell(pos, ' ');
                     pos.column += 1;
                 }
 
-- 
2.43.0


From 1284f37c79f0d6b7a152be50c32f8e2fe2186f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 07/18] fix: reject a character which is wider than the screen

---
 src/buffer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 6c827d8..6e4ab59 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -177,6 +177,13 @@ impl ScreenBuffer {
         } else if is_visible(ch) {
             self.try_cursor()?;
 
+            let width = char_width(ch).unwrap_or(0);
+
+            // A wide character may not fit on any line
+            if width > self.size.columns {
+                return Err(OutOfBounds(()));
+            }
+
             if let Some(prev) = self.cursor.previous(self.size) {
                 let cell = self.cell_mut(prev);
 
@@ -186,7 +193,6 @@ impl ScreenBuffer {
             }
 
             let rem = self.size.columns - self.cursor.column;
-            let width = char_width(ch).unwrap_or(0);
 
             // If insufficient space exists on the current line,
             // fill it with spaces and write the char on the next line.
-- 
2.43.0


From eab1d2d52152daf2981f2e78ff881e229a6bb9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 08/18] fix: treat all columns of a wide character as part of
 it

---
 src/buffer.rs | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 6e4ab59..0e47393 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -9,6 +9,9 @@ use crate::util::{char_width, is_combining_mark};
 
 const TAB_STOP: usize = 8;
 
+// Greatest number of columns occupied by a character
+const MAX_WIDTH: usize = 3;
+
 pub struct ScreenBuffer {
     buffer: Vec<Cell>,
     back_buffer: Vec<Cell>,
@@ -113,7 +116,7 @@ impl ScreenBuffer {
             let width = char_width(first).unwrap_or(0);
 
             // Skip cells overlapped by wide characters
-            if width == 2 {
+            for _ in 1..width {
                 let _ = indices.next();
             }
 
@@ -142,6 +145,20 @@ impl ScreenBuffer {
         &mut self.buffer[pos.as_index(size)]
     }
 
+    // Returns the position of the character displayed at the given position;
+    // this is a preceding column if the cell is overlapped by a wide character.
+    fn char_start(&self, pos: Cursor) -> Cursor {
+        for column in pos.column.saturating_sub(MAX_WIDTH - 1)..pos.column {
+            let start = Cursor{line: pos.line, column};
+
+            if column + self.buffer[start.as_index(self.size)].width() > pos.column {
+                return start;
+            }
+        }
+
+        pos
+    }
+
     fn set_cell(&mut self, pos: Cursor, ch: char) {
         let fg = self.fg;
         let bg = self.bg;
@@ -172,7 +189,8 @@ impl ScreenBuffer {
         } else if is_combining_mark(ch) {
             if let Some(prev) = self.cursor.previous(self.size) {
                 self.try_cursor_at(prev)?;
-                self.cell_mut(prev).text.push(ch);
+                let pos = self.char_start(prev);
+                self.cell_mut(pos).text.push(ch);
             }
         } else if is_visible(ch) {
             self.try_cursor()?;
@@ -184,12 +202,11 @@ impl ScreenBuffer {
                 return Err(OutOfBounds(()));
             }
 
-            if let Some(prev) = self.cursor.previous(self.size) {
-                let cell = self.cell_mut(prev);
+            // Remove a wide character which would be partially overwritten
+            let start = self.char_start(self.cursor);
 
-                if cell.is_wide() {
-                    *cell = Cell::default();
-                }
+            if start != self.cursor {
+                *self.cell_mut(start) = Cell::default();
             }
 
             let rem = self.size.columns - self.cursor.column;
@@ -513,9 +530,9 @@ impl Cell {
         self.text.chars().next().expect("empty cell text")
     }
 
-    fn is_wide(&self) -> bool {
+    fn width(&self) -> usize {
         self.text.chars().next()
-            .and_then(char_width).unwrap_or(0) == 2
+            .and_then(char_width).unwrap_or(0)
     }
 }
 
-- 
2.43.0


From 6899ea3756e5deece31011706e98e83bd7217126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 09/18] fix: redraw cells which were overlapped by a wide
 character

---
 src/buffer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 0e47393..dbb2e66 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -116,8 +116,11 @@ impl ScreenBuffer {
             let width = char_width(first).unwrap_or(0);
 
             // Skip cells overlapped by wide characters
+            // and ensure they will be redrawn when that is no longer the case
             for _ in 1..width {
-                let _ = indices.next();
+                if let Some(idx) = indices.next() {
+                    self.back_buffer[idx] = Cell::invalid();
+                }
             }
 
             if self.buffer[idx] != self.back_buffer[idx] {
-- 
2.43.0


From 90e77b7ea33e98b8251444e1bd72641dcae71546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 10/18] fix: remove attributes when styled text is out of
 bounds

---
 src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index dbb2e66..44bc7c5 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -272,10 +272,10 @@ impl ScreenBuffer {
         self.bg = bg;
         self.style = style;
 
-        self.write_str(text)?;
+        let res = self.write_str(text);
         self.clear_attributes();
 
-        Ok(())
+        res
     }
 
     pub fn write_styled_at(&mut self, pos: Cursor,
-- 
2.43.0


From 77cbcdf8621f10f4bd4b0248790dcfc23ef1d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 11/18] fix: resize a screen to zero columns or within a wide
 character

---
 src/buffer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 44bc7c5..c01149d 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -549,13 +549,16 @@ fn resize_buffer(buf: &mut Vec<Cell>, old: Size, new: Size) {
     if old != new {
         let mut new_buf = vec![Cell::default(); new.area()];
 
-        if !buf.is_empty() {
+        if !buf.is_empty() && !new_buf.is_empty() {
             let n_cols = old.columns.min(new.columns);
 
             for (old, new) in buf.chunks_mut(old.columns)
                     .zip(new_buf.chunks_mut(new.columns)) {
                 for i in 0..n_cols {
-                    swap(&mut new[i], &mut old[i]);
+                    // Drop a wide character which no longer fits on the line
+                    if i + old[i].width() <= n_cols {
+                        swap(&mut new[i], &mut old[i]);
+                    }
                 }
             }
         }
-- 
2.43.0


From 82b490625c7a6eaad5172efa10f57207b845bde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 12/18] fix: avoid overflow in cursor arithmetic

---
 src/buffer.rs   |  5 ++---
 src/terminal.rs | 10 +++++-----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index c01149d..b00592d 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -62,7 +62,7 @@ impl ScreenBuffer {
     }
 
     pub fn next_line(&mut self, column: usize) {
-        self.cursor.line += 1;
+        self.cursor.line = self.cursor.line.saturating_add(1);
         self.cursor.column = column;
     }
 
@@ -187,8 +187,7 @@ impl ScreenBuffer {
         } else if ch == '\r' {
             self.cursor.column = 0;
         } else if ch == '\n' {
-            self.cursor.line += 1;
-            self.cursor.column = 0;
+            self.next_line(0);
         } else if is_combining_mark(ch) {
             if let Some(prev) = self.cursor.previous(self.size) {
                 self.try_cursor_at(prev)?;
diff --git a/src/terminal.rs b/src/terminal.rs
index 8c96587..7366f9b 100644
--- a/src/terminal.rs
+++ b/src/terminal.rs
@@ -123,11 +123,11 @@ impl Cursor {
     #[inline]
     pub fn next(&self, size: Size) -> Option<Cursor> {
         let mut line = self.line;
-        let mut column = self.column + 1;
+        let mut column = self.column.saturating_add(1);
 
         if column >= size.columns {
             column = 0;
-            line += 1;
+            line = line.saturating_add(1);
         }
 
         if line >= size.lines {
@@ -146,7 +146,7 @@ impl Cursor {
             if self.line == 0 {
                 None
             } else {
-                Some(Cursor{line: self.line - 1, column: size.columns - 1})
+                Some(Cursor{line: self.line - 1, column: size.columns.saturating_sub(1)})
             }
         } else {
             Some(Cursor{line: self.line, column: self.column - 1})
@@ -166,8 +166,8 @@ impl Cursor {
     #[inline]
     pub fn last(size: Size) -> Cursor {
         Cursor{
-            line: size.lines - 1,
-            column: size.columns - 1,
+            line: size.lines.saturating_sub(1),
+            column: size.columns.saturating_sub(1),
         }
     }
 
-- 
2.43.0


From 0a07f7ff113874c6a207319064d7f8c96b14ea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 13/18] fix: track the cursor past wide characters during a
 refresh

---
 src/buffer.rs         | 2 +-
 src/unix/screen.rs    | 2 +-
 src/windows/screen.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index b00592d..09b869d 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -532,7 +532,7 @@ impl Cell {
         self.text.chars().next().expect("empty cell text")
     }
 
-    fn width(&self) -> usize {
+    pub fn width(&self) -> usize {
         self.text.chars().next()
             .and_then(char_width).unwrap_or(0)
     }
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index d46bcd7..ffff15e 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -200,7 +200,7 @@ impl<'a> ScreenWriteGuard<'a> {
 
             self.apply_attrs(cell.attrs())?;
             self.writer.write_str(cell.text())?;
-            self.data.real_cursor.column += 1;
+            self.data.real_cursor.column += cell.width();
         }
 
         self.writer.clear_attributes()?;
diff --git a/src/windows/screen.rs b/src/windows/screen.rs
index faa7626..559a976 100644
--- a/src/windows/screen.rs
+++ b/src/windows/screen.rs
@@ -224,7 +224,7 @@ impl<'a> ScreenWriteGuard<'a> {
 
             self.apply_attrs(real_attrs, cell.attrs())?;
             self.writer.write_str(cell.text())?;
-            self.data.real_cursor.column += 1;
+            self.data.real_cursor.column += cell.width();
 
             real_attrs = cell.attrs();
         }
-- 
2.43.0


From a32f57cba7effa8d033373298486e5659f9d8f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 14/18] fix: redraw the screen after a refresh failed

---
 src/buffer.rs         |  5 +++++
 src/unix/screen.rs    | 18 ++++++++++++++++++
 src/windows/screen.rs | 18 ++++++++++++++++++
 3 files changed, 41 insertions(+)

diff --git a/src/buffer.rs b/src/buffer.rs
index 09b869d..89284e8 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -57,6 +57,11 @@ impl ScreenBuffer {
         self.size = new_size;
     }
 
+    // Ensures that all cells will be redrawn.
+    pub fn invalidate(&mut self) {
+        new_buffer(&mut self.back_buffer, self.size);
+    }
+
     pub fn set_cursor(&mut self, pos: Cursor) {
         self.cursor = pos;
     }
diff --git a/src/unix/screen.rs b/src/unix/screen.rs
index ffff15e..9d983af 100644
--- a/src/unix/screen.rs
+++ b/src/unix/screen.rs
@@ -186,6 +186,17 @@ impl<'a> ScreenWriteGuard<'a> {
     }
 
     pub fn refresh(&mut self) -> io::Result<()> {
+        let res = self.refresh_cells();
+
+        if res.is_err() {
+            // The contents of the terminal are unknown
+            self.data.invalidate();
+        }
+
+        res
+    }
+
+    fn refresh_cells(&mut self) -> io::Result<()> {
         if self.data.clear_screen {
             self.writer.clear_screen()?;
             self.data.clear_screen = false;
@@ -242,6 +253,13 @@ impl<'a> Drop for ScreenWriteGuard<'a> {
 }
 
 impl Writer {
+    // Forces all cells to be redrawn on next refresh
+    fn invalidate(&mut self) {
+        self.real_cursor = (!0, !0).into();
+        self.buffer.invalidate();
+        self.clear_screen = true;
+    }
+
     fn update_size(&mut self, new_size: Size) {
         if self.real_cursor.is_out_of_bounds(new_size) {
             // Force cursor move on next refresh
diff --git a/src/windows/screen.rs b/src/windows/screen.rs
index 559a976..4b8edd0 100644
--- a/src/windows/screen.rs
+++ b/src/windows/screen.rs
@@ -208,6 +208,17 @@ impl<'a> ScreenWriteGuard<'a> {
     }
 
     pub fn refresh(&mut self) -> io::Result<()> {
+        let res = self.refresh_cells();
+
+        if res.is_err() {
+            // The contents of the terminal are unknown
+            self.data.invalidate();
+        }
+
+        res
+    }
+
+    fn refresh_cells(&mut self) -> io::Result<()> {
         if self.data.clear_screen {
             self.writer.clear_screen()?;
             self.data.clear_screen = false;
@@ -270,6 +281,13 @@ impl<'a> Drop for ScreenWriteGuard<'a> {
 }
 
 impl Writer {
+    // Forces all cells to be redrawn on next refresh
+    fn invalidate(&mut self) {
+        self.real_cursor = (!0, !0).into();
+        self.buffer.invalidate();
+        self.clear_screen = true;
+    }
+
     fn update_size(&mut self, new_size: Size) {
         if self.real_cursor.is_out_of_bounds(new_size) {
             // Force cursor move on next refresh
-- 
2.43.0


From af10e76ffd7a748e841862de8598a4fd148e2018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:28 +0000
Subject: [PATCH 15/18] fix: avoid underflow entering a screen of no lines

---
 src/unix/terminal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 20ab420..73a7117 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -723,7 +723,7 @@ impl<'a> TerminalWriteGuard<'a> {
                 }
 
                 self.expand(scroll.expand()
-                    .parameters(0, to_u32(size.lines - 1)))?;
+                    .parameters(0, to_u32(size.lines.saturating_sub(1))))?;
                 self.expand(home.expand())?;
             }
             (_, None, _) => return Err(not_supported("change_scroll_region")),
-- 
2.43.0


From c7b00d11ccc8b15cbde666e5691bd80a3dcd2205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:28 +0000
Subject: [PATCH 16/18] fix: avoid underflow in mouse report coordinates

---
 src/unix/terminal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 73a7117..eaee5d4 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1306,8 +1306,8 @@ fn parse_mouse_data(mut buf: &[u8]) -> Option<(MouseEvent, usize)> {
 
     let position = Cursor{
         // Parsed line and column begin at 1; we begin at 0
-        line: (line - 1) as usize,
-        column: (column - 1) as usize,
+        line: line.saturating_sub(1) as usize,
+        column: column.saturating_sub(1) as usize,
     };
 
     Some((MouseEvent{
-- 
2.43.0


From 6c27697c04267c8f2cc142152b066dc12c55fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:28 +0000
Subject: [PATCH 17/18] fix: limit timeouts to what TimeVal can represent

---
 src/unix/terminal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index eaee5d4..2c623bc 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -1198,7 +1198,8 @@ fn ti_to_io(e: terminfo::Error) -> io::Error {
 }
 
 fn to_timeval(d: Duration) -> TimeVal {
-    const MAX_SECS: i64 = i64::max_value() / 1_000;
+    // `TimeVal` panics beyond a number of microseconds in the range of `i64`.
+    const MAX_SECS: i64 = i64::max_value() / 1_000_000 - 2;
 
     let secs = match d.as_secs() {
         n if n > MAX_SECS as u64 => MAX_SECS,
-- 
2.43.0


From 7c6134666b0f0595b605199bb6dfa03022df7fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:28 +0000
Subject: [PATCH 18/18] fix: drop invalid UTF-8 input when its error is
 reported

---
 src/unix/terminal.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/unix/terminal.rs b/src/unix/terminal.rs
index 2c623bc..cf0efad 100644
--- a/src/unix/terminal.rs
+++ b/src/unix/terminal.rs
@@ -603,7 +603,13 @@ impl<'a> TerminalReadGuard<'a> {
                     Ok(Some(ev))
                 }
                 Ok(None) => Ok(None),
-                Err(e) => Err(e)
+                Err(e) => {
+                    // Drop the invalid bytes; otherwise, they would be found
+                    // again by every later read.
+                    let n = invalid_prefix_len(in_buffer);
+                    let _ = in_buffer.drain(..n);
+                    Err(e)
+                }
             }
         }
     }
@@ -1370,6 +1376,14 @@ fn utf8_prefix(buf: &[u8]) -> io::Result<&str> {
     }
 }
 
+/// Returns the number of bytes at the start of `buf` which are not valid UTF-8.
+fn invalid_prefix_len(buf: &[u8]) -> usize {
+    match from_utf8(buf) {
+        Err(ref e) if e.valid_up_to() == 0 => e.error_len().unwrap_or(0),
+        _ => 0
+    }
+}
+
 static PENDING_SIGNALS: AtomicUsize = AtomicUsize::new(0);
 
 extern "C" fn handle_signal(signum: c_int) {
-- 
2.43.0

