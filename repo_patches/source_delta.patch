From 4911675df6b3f6791c5a10e62e902aac990dca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:34 +0000
Subject: [PATCH 01/37] fix: report end of input once in pipe mode

read_line returns Ok(0) at end of file; it was treated as an endless
sequence of empty lines, which also kept shutdown waiting forever.
---
 src/lib.rs    |  2 ++
 src/worker.rs | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 74cac3a..89de2ac 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -456,6 +456,8 @@ enum Request {
     /// out. (The pipe worker doesn't interpret escape sequences and therefore
     /// does no such processing.)
     RawInput(String),
+    /// Sent by the pipe input thread when there is no more input.
+    EndOfInput,
     /// Used to implement notices.
     Heartbeat,
     /// If the crossterm event system is being used, this is an event received.
diff --git a/src/worker.rs b/src/worker.rs
index 0237cf9..0bcf1ac 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -30,6 +30,11 @@ fn pipe_worker(
                 loop {
                     let mut buf = String::new();
                     match stdin.read_line(&mut buf) {
+                        Ok(0) => {
+                            // end of input
+                            let _ = req_tx.send(Request::EndOfInput);
+                            break;
+                        }
                         Ok(_) => {
                             while buf.ends_with('\n') || buf.ends_with('\r') {
                                 buf.pop();
@@ -62,6 +67,11 @@ fn pipe_worker(
                     break;
                 }
             }
+            Request::EndOfInput => {
+                if tx.send(Response::Finish).is_err() {
+                    break;
+                }
+            }
             Request::Die => break,
             Request::Custom(x) => tx.send(Response::Custom(x))?,
             _ => (),
@@ -641,6 +651,7 @@ impl TtyState {
             Request::CrosstermEvent(event) => {
                 self.handle_event(tx, event, ded_tx)?
             }
+            Request::EndOfInput => tx.send(Response::Finish)?,
             Request::Die => return Ok(()),
             Request::Heartbeat => {
                 if let Some((_, deadline)) = self.notice {
-- 
2.43.0


From 58941f9bbc8d81875dd0e8ec577ebe2ed7c685ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 02/37] fix: keep the heartbeat thread running after the first
 notice

It stopped after its first heartbeat, so the next notice ended the whole
session with a send error.
---
 src/worker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 0bcf1ac..b0b7e46 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1382,7 +1382,7 @@ fn tty_worker(
                     if !deadlines.is_empty() && now >= deadlines[0] {
                         deadlines.remove(0);
                         match req_tx_clone.send(Request::Heartbeat) {
-                            Ok(_) => break,
+                            Ok(_) => continue,
                             Err(_) => return,
                         }
                     }
-- 
2.43.0


From e6ee4820dc902b7bc2d2adc92be1fa0822db5fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 03/37] fix: expire a short notice on time after a longer one

Deadlines were kept in arrival order, so a later but shorter notice only
disappeared when an earlier, longer one would have.
---
 src/worker.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index b0b7e46..2ba2738 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1390,7 +1390,11 @@ fn tty_worker(
                         use std::sync::mpsc::RecvTimeoutError;
                         let interval = deadlines[0] - now;
                         match ded_rx.recv_timeout(interval) {
-                            Ok(x) => deadlines.push(x),
+                            Ok(x) => {
+                                // keep the earliest deadline first
+                                deadlines.push(x);
+                                deadlines.sort_unstable();
+                            }
                             Err(RecvTimeoutError::Timeout) => (),
                             Err(RecvTimeoutError::Disconnected) => return,
                         }
-- 
2.43.0


From 2f3bd1b1a15da6c633442da32e85afb346f8e36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:37 +0000
Subject: [PATCH 04/37] fix: don't panic on notices with enormous durations

---
 src/worker.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 2ba2738..c9136ba 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1174,7 +1174,11 @@ impl TtyState {
         ded_tx: &mut std_mpsc::SyncSender<Instant>,
     ) -> LifeOrDeath {
         self.rollout_needed = true;
-        let deadline = Instant::now() + duration;
+        let now = Instant::now();
+        // a duration too long to represent might as well be a year
+        let deadline = now
+            .checked_add(duration)
+            .unwrap_or_else(|| now + Duration::from_secs(60 * 60 * 24 * 365));
         self.notice = Some((line, deadline));
         ded_tx.send(deadline)?;
         Ok(())
-- 
2.43.0


From 87e635c224bc94f510e776c4036130cfe17746c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 05/37] fix: move the cursor back when a prompt clears the
 input

The cursor was left past the end of the emptied input, and the next key
typed panicked.
---
 src/worker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worker.rs b/src/worker.rs
index c9136ba..dd7c20e 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -635,6 +635,7 @@ impl TtyState {
                     self.input_allowed = input_allowed;
                     if clear_input {
                         self.input.clear();
+                        self.input_cursor = 0;
                         #[cfg(feature = "history")]
                         {
                             self.cur_history_index = None;
-- 
2.43.0


From bd22ef401df401b158384a114a8fda670502385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 06/37] fix: apply a prompt's input_allowed even if its text is
 unchanged

---
 src/worker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worker.rs b/src/worker.rs
index dd7c20e..4dedae7 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -628,6 +628,7 @@ impl TtyState {
                 clear_input,
             } => {
                 if self.prompt != line
+                    || self.input_allowed != input_allowed
                     || (clear_input && !self.input.is_empty())
                 {
                     self.rollout_needed = true;
-- 
2.43.0


From 4021c85ac051f88ee6ea5dc689340b8ab1c5b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 07/37] fix: reject completion cursors inside a character

Like a cursor past the end, such a cursor is a bug in the Completor, but
it was accepted and made a later edit panic.
---
 src/worker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 4dedae7..81e1284 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1286,7 +1286,7 @@ impl TtyState {
                         new_line,
                         new_cursor,
                     }) => {
-                        if new_cursor > new_line.len() {
+                        if !new_line.is_char_boundary(new_cursor) {
                             panic!("Bug: Completor gave a new input cursor out of range for the string!");
                         }
                         if new_line != self.input
-- 
2.43.0


From c670c3b4bcd5fa04309e2b2c748652953631a22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 08/37] fix: wrap non-ASCII text containing line breaks

Character counts were used as byte positions, which panicked or wrapped in
the wrong places.
---
 src/line.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 275ba0b..8da8508 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -389,8 +389,7 @@ impl Line {
         assert!(width > 0);
         let newline_positions: Vec<usize> = self
             .text
-            .chars()
-            .enumerate()
+            .char_indices()
             .filter_map(|(n, c)| if c == '\n' { Some(n) } else { None })
             .chain(Some(self.text.len()))
             .collect();
-- 
2.43.0


From 1b7e88ee857db6526fa14186db2b215800cc79d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 09/37] fix: move every span after a wrapped line break

The adjustment stopped at the first span at or after the break instead of
the first one before it.
---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 8da8508..3f4986e 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -473,7 +473,7 @@ impl Line {
                     continue;
                 }
             }
-            if element.start >= range.start {
+            if element.start < range.start {
                 break; // all subsequent elements will be before the edit
             }
         }
-- 
2.43.0


From 7754b2d44e1155762ca951e711327323b39a55fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:38 +0000
Subject: [PATCH 10/37] fix: run suspend_and_run callbacks in pipe mode

They were silently dropped.
---
 src/worker.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/worker.rs b/src/worker.rs
index 81e1284..f6a2c78 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -62,6 +62,7 @@ fn pipe_worker(
             // stderr will not be captured if the pipe worker is being used.
             #[cfg(feature = "capture-stderr")]
             Request::StderrLine(_) => unreachable!(),
+            Request::SuspendAndRun(mut wat) => wat(),
             Request::RawInput(x) => {
                 if tx.send(Response::Input(x)).is_err() {
                     break;
-- 
2.43.0


From 2fb35ab3786a20ac52b4b84ead596bfd7368eb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 11/37] fix: flush bells even when nothing needs to be redrawn

---
 src/worker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index f6a2c78..99b5376 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1327,7 +1327,8 @@ impl TtyState {
     }
     pub fn rollout(&mut self) -> LifeOrDeath {
         if !self.rollout_needed {
-            return Ok(());
+            // there may still be a bell waiting to be heard
+            return self.term.borrow_mut().flush();
         }
         self.rollout_needed = false;
         let mut new_output = match self.status.as_ref() {
-- 
2.43.0


From b2671ddda5021a452db645314dba36dc95fb21a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 12/37] fix: reset a background color that is no longer wanted

When only the background went away, it stayed active on the terminal.
---
 src/term/cross.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index a94032c..e4bae87 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -290,7 +290,7 @@ impl Term for Crossterminal {
     ) -> LifeOrDeath {
         if self.cur_style != style
             || (self.cur_fg != fg && fg.is_none())
-            || (self.cur_bg != bg && fg.is_none())
+            || (self.cur_bg != bg && bg.is_none())
         {
             queue!(self.stdout, style::SetAttribute(CtAttribute::Reset))?;
             // TODO: check if this is needed
-- 
2.43.0


From d8a656de7829995608e2da069b380ee00a516f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 13/37] fix: track the colors the VT52 back end sets when it
 starts

It believed other colors to be active than the ones it had just set, both
at startup and after being suspended.
---
 src/term/vt52.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index b9fdfbf..0f0e767 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -377,10 +377,15 @@ impl Term for Vt52 {
         if self.white_on_black {
             self.stdout
                 .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x20\x1Bc\x2F")?;
+            self.cur_fg = 0;
+            self.cur_bg = 15;
         } else {
             self.stdout
                 .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x2F\x1Bc\x20")?;
+            self.cur_fg = 15;
+            self.cur_bg = 0;
         }
+        self.cur_style = Style::PLAIN;
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
         panic::set_hook(Box::new(move |info| {
-- 
2.43.0


From c26be8287a6b4c0b9cc9187dc7df57aeed2b739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 14/37] fix: interrupt the thread that reads stdin on VT52
 terminals

The input processing thread was interrupted instead, so shutdown waited
for another key press.
---
 src/term/vt52.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 0f0e767..c49119a 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -134,7 +134,7 @@ impl Vt52 {
             }
         };
         let (input_tx, input_rx) = std_mpsc::sync_channel(1);
-        std::thread::Builder::new()
+        let stdin_thread = std::thread::Builder::new()
             .name("Liso raw stdin thread".to_owned())
             .spawn(move || {
                 let stdin = std::io::stdin();
@@ -154,7 +154,7 @@ impl Vt52 {
                 }
             })
             .unwrap();
-        let input_thread = std::thread::Builder::new()
+        std::thread::Builder::new()
             .name("Liso input processing thread".to_owned())
             .spawn(move || {
                 let _ = input_thread(input_rx, req_tx);
@@ -170,7 +170,7 @@ impl Vt52 {
             cur_bg: 0,
             num_colors,
             white_on_black,
-            input_thread: InterruptibleStdinThread::new(input_thread),
+            input_thread: InterruptibleStdinThread::new(stdin_thread),
         };
         ret.unsuspend()?;
         Ok(ret)
-- 
2.43.0


From 9553b83b47d4010c5c07bc69a8132ec8d070919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 15/37] fix: don't loop forever on meta bytes from VT52
 terminals

---
 src/term/vt52.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index c49119a..cb505a8 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -85,6 +85,7 @@ fn input_thread(
             } else if buf[start] >= 0x80 {
                 // We have to discard the meta bytes we receive
                 // TODO: are these sent sometimes?
+                start += 1;
             } else {
                 let mut text_end = start + 1;
                 while text_end < buf.len()
-- 
2.43.0


From e452e2ed8b2f352ec411b9421b9684024515781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 16/37] fix: don't panic on encoded surrogates in terminal
 input

---
 src/term/cross.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index e4bae87..f627077 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -166,8 +166,7 @@ fn input_thread(
                 }
                 start += num_bytes_needed;
                 // send the decoded character
-                let code = if code > 0x10FFFF { 0xFFFD } else { code };
-                let ch = char::from_u32(code).unwrap();
+                let ch = char::from_u32(code).unwrap_or('\u{fffd}');
                 let event = KeyEvent {
                     code: event::KeyCode::Char(ch),
                     modifiers: event::KeyModifiers::empty(),
-- 
2.43.0


From 4492ad5f7744fafe0b9e04c6d9ba476ba988b289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 17/37] fix: don't believe terminals that claim to be zero
 columns wide

---
 src/term/cross.rs | 6 +++++-
 src/term/vt52.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index f627077..5874cc4 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -413,7 +413,11 @@ impl Term for Crossterminal {
         Ok(())
     }
     fn get_width(&mut self) -> u32 {
-        terminal::size().unwrap_or((80, 24)).0 as u32
+        // some terminals don't know their size and report zero
+        match terminal::size() {
+            Ok((width, _)) if width > 0 => width as u32,
+            _ => 80,
+        }
     }
     fn flush(&mut self) -> LifeOrDeath {
         self.stdout.flush()?;
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index cb505a8..4747e09 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -366,7 +366,11 @@ impl Term for Vt52 {
         Ok(())
     }
     fn get_width(&mut self) -> u32 {
-        terminal::size().unwrap_or((80, 24)).0 as u32
+        // some terminals don't know their size and report zero
+        match terminal::size() {
+            Ok((width, _)) if width > 0 => width as u32,
+            _ => 80,
+        }
     }
     fn flush(&mut self) -> LifeOrDeath {
         self.stdout.flush()?;
-- 
2.43.0


From fae24d9f7ee76e2c02969f6f56005bac720afe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 18/37] fix: give the terminal back even if the session ends
 with an error

An I/O or channel error returned early from the tty worker, leaving the
terminal in raw mode with no visible cursor.
---
 src/worker.rs | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 99b5376..85efb4d 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1412,7 +1412,13 @@ fn tty_worker(
         })
         .unwrap();
     crossterm::terminal::enable_raw_mode()?;
-    let term = new_term(&req_tx)?;
+    let term = match new_term(&req_tx) {
+        Ok(x) => x,
+        Err(x) => {
+            let _ = crossterm::terminal::disable_raw_mode();
+            return Err(x);
+        }
+    };
     let mut state = TtyState {
         status: None,
         prompt: None,
@@ -1439,6 +1445,26 @@ fn tty_worker(
         #[cfg(feature = "completion")]
         own_output: Output { tx: req_tx },
     };
+    // Whatever happened, even if it was an error, give the terminal back.
+    let result = tty_loop(&mut state, &rx, &mut tx, &mut ded_tx);
+    let rollin_result = state.rollin();
+    let cleanup_result = state.cleanup();
+    let raw_mode_result = crossterm::terminal::disable_raw_mode();
+    drop(rx);
+    result?;
+    rollin_result?;
+    cleanup_result?;
+    raw_mode_result?;
+    Ok(())
+}
+
+/// Handles requests, and keeps the display up to date, until it's time to die.
+fn tty_loop(
+    state: &mut TtyState,
+    rx: &std_mpsc::Receiver<Request>,
+    tx: &mut tokio_mpsc::UnboundedSender<Response>,
+    ded_tx: &mut std_mpsc::SyncSender<Instant>,
+) -> LifeOrDeath {
     let mut dying = false;
     'outer: while let Some(request) = if dying {
         rx.try_recv().ok()
@@ -1448,7 +1474,7 @@ fn tty_worker(
         if let Request::Die = request {
             break;
         }
-        state.handle(&mut tx, &mut ded_tx, request)?;
+        state.handle(tx, ded_tx, request)?;
         loop {
             use std_mpsc::TryRecvError;
             match rx.try_recv() {
@@ -1460,17 +1486,13 @@ fn tty_worker(
                         break;
                     }
                 }
-                Ok(request) => state.handle(&mut tx, &mut ded_tx, request)?,
+                Ok(request) => state.handle(tx, ded_tx, request)?,
                 Err(TryRecvError::Empty) => break,
                 Err(TryRecvError::Disconnected) => break 'outer,
             }
         }
         state.rollout()?;
     }
-    state.rollin()?;
-    state.cleanup()?;
-    crossterm::terminal::disable_raw_mode()?;
-    drop(rx);
     Ok(())
 }
 
-- 
2.43.0


From 24e5a0073b279a9835fd72d01ecee1c0d544b23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:29 +0000
Subject: [PATCH 19/37] fix: suspend and resume the terminal completely even
 after an error

A failing step used to skip the remaining ones: the panic hook, raw mode
or the input thread could be left behind, or the saved panic hook lost.
---
 src/term/cross.rs | 48 +++++++++++++++++++++---------------
 src/term/vt52.rs  | 62 +++++++++++++++++++++++++++--------------------
 2 files changed, 65 insertions(+), 45 deletions(-)

diff --git a/src/term/cross.rs b/src/term/cross.rs
index 5874cc4..f859135 100644
--- a/src/term/cross.rs
+++ b/src/term/cross.rs
@@ -275,7 +275,10 @@ impl Crossterminal {
             cur_bg: None,
             input_thread: InterruptibleStdinThread::new(input_thread),
         };
-        ret.unsuspend()?;
+        if let Err(x) = ret.unsuspend() {
+            let _ = ret.cleanup();
+            return Err(x);
+        }
         Ok(ret)
     }
 }
@@ -425,14 +428,8 @@ impl Term for Crossterminal {
     }
     fn unsuspend(&mut self) -> LifeOrDeath {
         assert!(self.suspended);
-        // queue, but don't actually output anything until the first command...
-        queue!(
-            self.stdout,
-            cursor::Hide,
-            terminal::DisableLineWrap,
-            style::ResetColor,
-            style::SetAttribute(CtAttribute::Reset)
-        )?;
+        // if anything fails from here on, there's something to clean up
+        self.suspended = false;
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
         panic::set_hook(Box::new(move |info| {
@@ -449,37 +446,50 @@ impl Term for Crossterminal {
             let _ = terminal::disable_raw_mode();
             default_hook(info)
         }));
-        terminal::enable_raw_mode()?;
-        self.suspended = false;
         self.old_hook = Some(old_hook);
+        // queue, but don't actually output anything until the first command...
+        queue!(
+            self.stdout,
+            cursor::Hide,
+            terminal::DisableLineWrap,
+            style::ResetColor,
+            style::SetAttribute(CtAttribute::Reset)
+        )?;
+        terminal::enable_raw_mode()?;
         Ok(())
     }
     fn suspend(&mut self) -> LifeOrDeath {
         assert!(!self.suspended);
-        queue!(
+        // even if one of these steps fails, do the others
+        let queue_result = queue!(
             self.stdout,
             cursor::Show,
             terminal::EnableLineWrap,
             style::ResetColor,
             style::SetAttribute(CtAttribute::Reset),
             terminal::Clear(terminal::ClearType::FromCursorDown)
-        )?;
-        terminal::disable_raw_mode()?;
+        );
+        let raw_mode_result = terminal::disable_raw_mode();
         self.cur_style = Style::PLAIN;
         self.cur_fg = None;
         self.cur_bg = None;
-        self.stdout.flush()?;
+        let flush_result = self.stdout.flush();
         if let Some(old_hook) = self.old_hook.take() {
             panic::set_hook(old_hook);
         }
         self.suspended = true;
+        queue_result?;
+        raw_mode_result?;
+        flush_result?;
         Ok(())
     }
     fn cleanup(&mut self) -> LifeOrDeath {
-        if !self.suspended {
-            self.suspend()?;
-        }
+        let result = if !self.suspended {
+            self.suspend()
+        } else {
+            Ok(())
+        };
         self.input_thread.interrupt();
-        Ok(())
+        result
     }
 }
diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 4747e09..58c1d8a 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -173,7 +173,10 @@ impl Vt52 {
             white_on_black,
             input_thread: InterruptibleStdinThread::new(stdin_thread),
         };
-        ret.unsuspend()?;
+        if let Err(x) = ret.unsuspend() {
+            let _ = ret.cleanup();
+            return Err(x);
+        }
         Ok(ret)
     }
 }
@@ -378,19 +381,8 @@ impl Term for Vt52 {
     }
     fn unsuspend(&mut self) -> LifeOrDeath {
         assert!(self.suspended);
-        // queue, but don't actually output anything until the first command...
-        if self.white_on_black {
-            self.stdout
-                .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x20\x1Bc\x2F")?;
-            self.cur_fg = 0;
-            self.cur_bg = 15;
-        } else {
-            self.stdout
-                .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x2F\x1Bc\x20")?;
-            self.cur_fg = 15;
-            self.cur_bg = 0;
-        }
-        self.cur_style = Style::PLAIN;
+        // if anything fails from here on, there's something to clean up
+        self.suspended = false;
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
         panic::set_hook(Box::new(move |info| {
@@ -407,31 +399,49 @@ impl Term for Vt52 {
             let _ = terminal::disable_raw_mode();
             default_hook(info)
         }));
-        terminal::enable_raw_mode()?;
-        self.suspended = false;
         self.old_hook = Some(old_hook);
+        // queue, but don't actually output anything until the first command...
+        if self.white_on_black {
+            self.stdout
+                .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x20\x1Bc\x2F")?;
+            self.cur_fg = 0;
+            self.cur_bg = 15;
+        } else {
+            self.stdout
+                .write_all(b"\x1Bf\x1Bw\x1Bq\x1Bb\x2F\x1Bc\x20")?;
+            self.cur_fg = 15;
+            self.cur_bg = 0;
+        }
+        self.cur_style = Style::PLAIN;
+        terminal::enable_raw_mode()?;
         Ok(())
     }
     fn suspend(&mut self) -> LifeOrDeath {
         assert!(!self.suspended);
-        if self.white_on_black {
-            write!(self.stdout, "\x1Bb\x20\x1Bc\x2F\x1BJ\x1Bv\x1Be")?;
+        // even if one of these steps fails, do the others
+        let write_result = if self.white_on_black {
+            write!(self.stdout, "\x1Bb\x20\x1Bc\x2F\x1BJ\x1Bv\x1Be")
         } else {
-            write!(self.stdout, "\x1Bb\x2F\x1Bc\x20\x1BJ\x1Bv\x1Be")?;
-        }
-        self.stdout.flush()?;
+            write!(self.stdout, "\x1Bb\x2F\x1Bc\x20\x1BJ\x1Bv\x1Be")
+        };
+        let flush_result = self.stdout.flush();
         if let Some(old_hook) = self.old_hook.take() {
             panic::set_hook(old_hook);
         }
-        terminal::disable_raw_mode()?;
+        let raw_mode_result = terminal::disable_raw_mode();
         self.suspended = true;
+        write_result?;
+        flush_result?;
+        raw_mode_result?;
         Ok(())
     }
     fn cleanup(&mut self) -> LifeOrDeath {
-        if !self.suspended {
-            self.suspend()?;
-        }
+        let result = if !self.suspended {
+            self.suspend()
+        } else {
+            Ok(())
+        };
         self.input_thread.interrupt();
-        Ok(())
+        result
     }
 }
-- 
2.43.0


From a2747cf516dfcf0d16190b16e1194db8a07bbe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 20/37] fix: don't allow a new session until the old one is
 completely gone

The claim was released before (or, with stderr capture, while) the old
session was still shutting down, so two sessions could share a terminal.
---
 src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 89de2ac..f1b2227 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -806,15 +806,16 @@ impl Output {
 
 impl Drop for InputOutput {
     fn drop(&mut self) {
+        self.actually_blocking_die();
+        #[cfg(feature = "capture-stderr")]
+        stderr_capture::wait_until_not_captured();
+        // Only let another instance be created once we're completely done.
         #[cfg(feature = "global")]
         {
             *LISO_OUTPUT_TX.lock() = None;
         }
-        self.actually_blocking_die();
         #[cfg(not(feature = "global"))]
         LISO_IS_ACTIVE.store(false, Ordering::Release);
-        #[cfg(feature = "capture-stderr")]
-        stderr_capture::wait_until_not_captured();
     }
 }
 
-- 
2.43.0


From 4cf7654c075e76f3e18c242c1f8f5d273bcb172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 21/37] fix: don't use stale positions in a replaced history

Between swap_history and the I/O thread hearing of it, moving through the
history could use a position past the end of the new one and panic.
---
 src/worker.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 85efb4d..f781773 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1191,8 +1191,8 @@ impl TtyState {
         let history = self.history.read().unwrap();
         let prev_history_index = match self.cur_history_index {
             None => history.get_lines().len().checked_sub(1),
-            Some(x) if x > 0 => Some(x - 1),
-            _ => None,
+            // (the history might have been replaced by a shorter one)
+            Some(x) => x.min(history.get_lines().len()).checked_sub(1),
         };
         match prev_history_index {
             None => {
@@ -1213,7 +1213,7 @@ impl TtyState {
         }
         self.history_original_line = self
             .cur_history_index
-            .map(|i| history.get_lines()[i].clone());
+            .and_then(|i| history.get_lines().get(i).cloned());
         Ok(())
     }
     #[cfg(feature = "history")]
@@ -1224,7 +1224,7 @@ impl TtyState {
                 let mut term = self.term.borrow_mut();
                 term.bell()?;
             }
-            Some(x) if x + 1 == history.get_lines().len() => {
+            Some(x) if x + 1 >= history.get_lines().len() => {
                 assert!(self.orphaned_new_input.is_some());
                 self.rollout_needed = true;
                 self.input = self.orphaned_new_input.take().unwrap();
@@ -1246,7 +1246,7 @@ impl TtyState {
         }
         self.history_original_line = self
             .cur_history_index
-            .map(|i| history.get_lines()[i].clone());
+            .and_then(|i| history.get_lines().get(i).cloned());
         Ok(())
     }
     #[cfg(unix)]
-- 
2.43.0


From afc8e66ee117ddff12f8580f86e7fa2a8bed3b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 22/37] fix: autosave history when it is dropped, as documented

---
 src/history.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/history.rs b/src/history.rs
index c2e460a..01ffab0 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -19,6 +19,8 @@ pub struct History {
     autosave_handler: Option<Box<AutosaveHandlerFn>>,
     autosave_interval: Option<NonZeroUsize>,
     lines_since_last_autosave: usize,
+    /// Whether any lines were added that haven't been autosaved yet.
+    unsaved_lines: bool,
 }
 
 pub type AutosaveHandlerFn = dyn Fn(&History) -> io::Result<()> + Send + Sync;
@@ -40,6 +42,7 @@ impl History {
             autosave_handler: None,
             autosave_interval: None,
             lines_since_last_autosave: 0,
+            unsaved_lines: false,
         }
     }
     /// Create a new History by reading the given file, with default options.
@@ -227,6 +230,7 @@ impl History {
             }
         }
         self.lines.push(line);
+        self.unsaved_lines = true;
         if let Some(interval) = self.autosave_interval {
             self.lines_since_last_autosave += 1;
             if self.lines_since_last_autosave >= interval.get() {
@@ -234,6 +238,7 @@ impl History {
                 if let Some(autosave_handler) = self.autosave_handler.as_ref()
                 {
                     (autosave_handler)(self)?;
+                    self.unsaved_lines = false;
                 }
             }
         }
@@ -245,6 +250,17 @@ impl History {
     }
 }
 
+impl Drop for History {
+    fn drop(&mut self) {
+        if self.unsaved_lines {
+            if let Some(autosave_handler) = self.autosave_handler.as_ref() {
+                // can't do anything sensible with an error here
+                let _ = (autosave_handler)(self);
+            }
+        }
+    }
+}
+
 impl Default for History {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From d8e90e502e72abbfca8592c81d96dee4b01dbb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:09 +0000
Subject: [PATCH 23/37] fix: save history files that don't exist yet, and
 survive crashes

Moving a nonexistent old file out of the way failed, so a new history file
was never saved. After a crash that left only the backup, the next save
removed it before the new copy was in place.
---
 src/history.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index 01ffab0..f4c1c64 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -113,8 +113,8 @@ impl History {
         }?;
         let handler = Box::new(move |history: &History| -> io::Result<()> {
             history.write_history_to(&build_path)?;
-            let _ = remove_file(&backup_path);
-            rename(&history_path, &backup_path)?;
+            // This atomically replaces the old history (if there is any), so
+            // there is no moment at which we don't have a complete copy.
             rename(&build_path, &history_path)?;
             let _ = remove_file(&backup_path);
             Ok(())
-- 
2.43.0


From 1f7c3a741055bcbdd2acb58d5d97b779ec9d2d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 24/37] fix: report errors writing the last part of a history
 file

The buffered writer was dropped without flushing, which ignores errors;
a truncated file could then replace the good one.
---
 src/history.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/history.rs b/src/history.rs
index f4c1c64..0e541c0 100644
--- a/src/history.rs
+++ b/src/history.rs
@@ -155,8 +155,7 @@ impl History {
             f.write_all(line.as_bytes())?;
             f.write_all(b"\n")?;
         }
-        drop(f);
-        Ok(())
+        f.flush()
     }
     /// Sets the maximum number of lines that will be saved in the history. If
     /// more lines than this are added, the oldest lines will be removed. This
-- 
2.43.0


From ecb1dacca2fcef981f4929bf97c81d766930b864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:30 +0000
Subject: [PATCH 25/37] fix: let every key dismiss a notice, as documented

Control-C, -D, -T, -X, Escape, Break, Tab, history keys and unknown
control characters left it in place.
---
 src/worker.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index f781773..800fd08 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -979,6 +979,7 @@ impl TtyState {
             return Ok(());
         }
         for ch in input.chars() {
+            self.dismiss_notice()?;
             #[cfg(feature = "completion")]
             if ch == '\t' {
                 self.consecutive_completion_presses =
@@ -1062,6 +1063,7 @@ impl TtyState {
             Event::Mouse(..) => (),
             Event::Key(k) => {
                 use crossterm::event::{KeyCode, KeyModifiers};
+                self.dismiss_notice()?;
                 if k.modifiers.contains(KeyModifiers::CONTROL) {
                     #[cfg(feature = "completion")]
                     if k.code == KeyCode::Char('i') {
-- 
2.43.0


From 3314ca76c77f7abfdd005ef0919d72f29591cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 26/37] fix: treat Control-H events as backspace, like the raw
 character

---
 src/worker.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 800fd08..a21cbfe 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1088,6 +1088,8 @@ impl TtyState {
                         KeyCode::Char('f') => self.handle_right_arrow()?,
                         // Control-G (discard input)
                         KeyCode::Char('g') => self.handle_discard(tx)?,
+                        // Control-H (backspace)
+                        KeyCode::Char('h') => self.handle_delete_back()?,
                         // Control-K (kill line after cursor)
                         KeyCode::Char('k') => self.handle_kill_to_end()?,
                         // Control-L (clear screen)
-- 
2.43.0


From 5a9c866e2bead4dee329918c0b6a0eca0148b12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 27/37] fix: stop reading stdin when the pipe mode session ends
 with an error

A write error panicked and a closed channel returned early; both left the
stdin thread running.
---
 src/worker.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index a21cbfe..cc366db 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -6,7 +6,7 @@ use super::*;
 
 use std::{
     cell::{RefCell, RefMut},
-    io::BufRead,
+    io::{BufRead, Write},
     mem::swap,
     time::Instant,
 };
@@ -53,11 +53,15 @@ fn pipe_worker(
         match request {
             #[cfg(feature = "wrap")]
             Request::Output(line) | Request::OutputWrapped(line) => {
-                std::println!("{}", line.text);
+                if writeln!(std::io::stdout(), "{}", line.text).is_err() {
+                    break;
+                }
             }
             #[cfg(not(feature = "wrap"))]
             Request::Output(line) => {
-                std::println!("{}", line.text);
+                if writeln!(std::io::stdout(), "{}", line.text).is_err() {
+                    break;
+                }
             }
             // stderr will not be captured if the pipe worker is being used.
             #[cfg(feature = "capture-stderr")]
@@ -74,7 +78,11 @@ fn pipe_worker(
                 }
             }
             Request::Die => break,
-            Request::Custom(x) => tx.send(Response::Custom(x))?,
+            Request::Custom(x) => {
+                if tx.send(Response::Custom(x)).is_err() {
+                    break;
+                }
+            }
             _ => (),
         }
     }
-- 
2.43.0


From b8772ff8678e33f6ff30c6044ebce7bc27173ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 28/37] fix: let println! and wrapln! be used without importing
 liso!

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f1b2227..a94fa32 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1481,7 +1481,7 @@ pub fn output() -> OutputOnly {
 #[macro_export]
 macro_rules! println {
     ($($rest:tt)*) => {
-        $crate::output().println(liso!($($rest)*))
+        $crate::output().println($crate::liso!($($rest)*))
     }
 }
 
@@ -1496,6 +1496,6 @@ macro_rules! println {
 #[macro_export]
 macro_rules! wrapln {
     ($($rest:tt)*) => {
-        $crate::output().wrapln(liso!($($rest)*))
+        $crate::output().wrapln($crate::liso!($($rest)*))
     }
 }
-- 
2.43.0


From 1c043f944ec8dc9a24b8f2ce20ca85af22243b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 29/37] fix: only forward captured stderr bytes that were
 actually read

Bytes left in the buffer by an earlier, longer read were searched for
newlines too.
---
 src/stderr_capture.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index fe8ad84..33692f9 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -217,7 +217,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
                 Ok(x) => {
                     let mut last_newline_pos = None;
                     let end_pos = buf_pos + x;
-                    while let Some(p) = buf[buf_pos..]
+                    while let Some(p) = buf[buf_pos..end_pos]
                         .iter()
                         .position(|x| *x == b'\n')
                         .map(|x| x + buf_pos)
-- 
2.43.0


From 7f149ae5d2a8c812e924d445ee588010dd1d929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:02 +0000
Subject: [PATCH 30/37] fix: close every descriptor when stderr capture can't
 be set up

---
 src/stderr_capture.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index 33692f9..1e0408a 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -174,6 +174,8 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
     let real_stderr = match dup(STDERR_FD) {
         Ok(x) => x,
         Err(x) => {
+            close(r);
+            close(w);
             let _ = output.tx.send(crate::Request::StderrLine(format!(
                 "dup(STDERR_FD) returned error {:?} when attempting to capture stderr.",
                 x
@@ -184,6 +186,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
     if let Err(x) = dup2(w, STDERR_FD) {
         close(r);
         close(w);
+        close(real_stderr);
         let _ = output.tx.send(crate::Request::StderrLine(format!(
             "dup2() returned error {:?} when attempting to capture stderr.",
             x
-- 
2.43.0


From 744ae28b809855655160968bba50bbee222b8581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 31/37] fix: don't lose stderr if the capture thread ended on
 its own

It had already put the real stderr back, which was then closed.
---
 src/stderr_capture.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index 1e0408a..5e4e704 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -11,7 +11,9 @@ use libc::c_int;
 use parking_lot::Mutex;
 
 const STDERR_FD: c_int = 2;
-static STDERR_CAPTURE_THREAD: Mutex<Option<JoinHandle<()>>> = Mutex::new(None);
+/// The running capture thread, and a duplicate of the real stderr.
+static STDERR_CAPTURE_THREAD: Mutex<Option<(JoinHandle<()>, c_int)>> =
+    Mutex::new(None);
 
 fn pipe() -> Result<(c_int, c_int), c_int> {
     #[cfg(any(target_family = "windows", target_family = "unix"))]
@@ -194,7 +196,7 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         return;
     }
     close(w); // it is now staying alive as STDERR_FD
-    *lock = Some(std::thread::spawn(move || {
+    let thread = std::thread::spawn(move || {
         let mut buf = vec![0u8; 128];
         let mut buf_pos = 0;
         'outer: loop {
@@ -283,7 +285,6 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         // sent "successfully" were lost. Oh well.
         dup2(real_stderr, STDERR_FD)
             .expect("Unable to reduplicate stderr back into place!");
-        close(real_stderr);
         // Any remaining output waiting in the pipe, process.
         while let Ok(amount) = read(r, &mut buf[..]) {
             if amount == 0 {
@@ -292,14 +293,18 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
             let _ = write_all(STDERR_FD, &buf[..amount]);
         }
         close(r);
-    }));
+    });
+    *lock = Some((thread, real_stderr));
 }
 
 pub(crate) fn wait_until_not_captured() {
     let mut lock = STDERR_CAPTURE_THREAD.lock();
-    if let Some(x) = lock.take() {
-        close(STDERR_FD); // :(
-        let _ = x.join();
+    if let Some((thread, real_stderr)) = lock.take() {
+        // This closes the write end of the pipe, unless the thread ended on
+        // its own and already put the real stderr back.
+        let _ = dup2(real_stderr, STDERR_FD);
+        let _ = thread.join();
+        close(real_stderr);
     }
     // Do not drop the lock until here! Nobody else should be allowed to
     // think they can join before us!
-- 
2.43.0


From bdde46c43f3d6ba6e56e366092f454d8374b6259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 32/37] fix: restore VT52 terminals with VT52 sequences after a
 panic

The panic hook sent ANSI sequences, which a VT52 doesn't understand.
---
 src/term/vt52.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 58c1d8a..059e80e 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -385,16 +385,14 @@ impl Term for Vt52 {
         self.suspended = false;
         let old_hook = panic::take_hook();
         let default_hook = panic::take_hook();
+        let white_on_black = self.white_on_black;
         panic::set_hook(Box::new(move |info| {
             let mut stdout = std::io::stdout();
-            let _ = queue!(
-                stdout,
-                cursor::Show,
-                terminal::EnableLineWrap,
-                style::ResetColor,
-                style::SetAttribute(CtAttribute::Reset),
-                terminal::Clear(terminal::ClearType::FromCursorDown)
-            );
+            let _ = if white_on_black {
+                write!(stdout, "\x1Bb\x20\x1Bc\x2F\x1BJ\x1Bv\x1Be")
+            } else {
+                write!(stdout, "\x1Bb\x2F\x1Bc\x20\x1BJ\x1Bv\x1Be")
+            };
             let _ = stdout.flush();
             let _ = terminal::disable_raw_mode();
             default_hook(info)
-- 
2.43.0


From d2defc02ed6832dc99ab3e64d34d94e815f881ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 33/37] fix: don't treat unparseable SGR codes as a reset

---
 src/line/add_ansi.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/line/add_ansi.rs b/src/line/add_ansi.rs
index 277630f..52a4ded 100644
--- a/src/line/add_ansi.rs
+++ b/src/line/add_ansi.rs
@@ -66,7 +66,11 @@ impl Line {
                 let mut codes = input_line[unescaped_start + param_start
                     ..unescaped_start + param_end]
                     .split(';')
-                    .map(|code| code.parse::<u32>().unwrap_or(0));
+                    .map(|code| match code {
+                        "" => 0,
+                        // (an unparseable code is an unknown code)
+                        _ => code.parse::<u32>().unwrap_or(u32::MAX),
+                    });
                 while let Some(code) = codes.next() {
                     match code {
                         0 => drop(self.reset_all()),
-- 
2.43.0


From 08e9885f19a06f3556bfda518eb76534861b28a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:25 +0000
Subject: [PATCH 34/37] fix: print single characters as wide as they are laid
 out on VT52

print_char always used one column for a non-ASCII character, so wide and
combining characters misplaced the cursor.
---
 src/term/vt52.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/term/vt52.rs b/src/term/vt52.rs
index 059e80e..137dd38 100644
--- a/src/term/vt52.rs
+++ b/src/term/vt52.rs
@@ -279,7 +279,10 @@ impl Term for Vt52 {
     }
     fn print_char(&mut self, ch: char) -> LifeOrDeath {
         if ch >= '\u{0080}' {
-            self.stdout.write_all(b"\x7F")?;
+            let width = UnicodeWidthChar::width(ch).unwrap_or(0);
+            for _ in 0..width {
+                self.stdout.write_all(b"\x7F")?;
+            }
         } else {
             self.stdout.write_all(&[ch as u8])?;
         }
-- 
2.43.0


From 237e6891b4304f88aeda2b622f716ffc72836a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:19 +0000
Subject: [PATCH 35/37] fix: treat Control-[ events as Escape, like the raw
 character

---
 src/worker.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index cc366db..7a35c87 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1121,6 +1121,8 @@ impl TtyState {
                         #[cfg(unix)]
                         // Control-Z
                         KeyCode::Char('z') => self.handle_suspend()?,
+                        // Escape (control-left bracket)
+                        KeyCode::Char('[') => tx.send(Response::Escape)?,
                         // Break (control-backslash)
                         KeyCode::Char('\\') => {
                             tx.send(Response::Break)?;
-- 
2.43.0


From 459130804d108ef12a7aec11f64ba38e659b1ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 36/37] fix: a deserialized Line must be one that could have
 been built

---
 src/line.rs | 43 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 3f4986e..8321d7c 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -22,13 +22,54 @@ pub(crate) struct LineElement {
 /// display. The [`liso!`](macro.liso.html) macro is extremely convenient for
 /// building these. You can also pass a `String`, `&str`, or `Cow<str>` to
 /// most Liso functions that accept a `Line`.
-#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(
+    feature = "serde",
+    derive(serde::Serialize, serde::Deserialize),
+    serde(try_from = "SerializedLine")
+)]
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct Line {
     pub(crate) text: String,
     pub(crate) elements: Vec<LineElement>,
 }
 
+/// A `Line` as it arrives from a deserializer, which may not be one that we
+/// could ever have built: the text may contain control characters, and the
+/// elements may not cover it.
+#[cfg(feature = "serde")]
+#[derive(serde::Deserialize)]
+#[serde(rename = "Line")]
+struct SerializedLine {
+    text: String,
+    elements: Vec<LineElement>,
+}
+
+#[cfg(feature = "serde")]
+impl TryFrom<SerializedLine> for Line {
+    type Error = &'static str;
+    fn try_from(source: SerializedLine) -> Result<Line, &'static str> {
+        let mut ret = Line::new();
+        let mut pos = 0;
+        for element in source.elements.iter() {
+            if element.start != pos {
+                return Err("line elements are not contiguous");
+            }
+            let text = source
+                .text
+                .get(element.start..element.end)
+                .ok_or("line element is not within the text")?;
+            ret.set_style(element.style);
+            ret.set_colors(element.fg, element.bg);
+            ret.add_text(text);
+            pos = element.end;
+        }
+        if pos != source.text.len() {
+            return Err("line text is not covered by elements");
+        }
+        Ok(ret)
+    }
+}
+
 impl Line {
     /// Creates a new, empty line.
     pub fn new() -> Line {
-- 
2.43.0


From f24f1b3b0088c2446b59163b94794551fc5433c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:27 +0000
Subject: [PATCH 37/37] fix: put stderr back when the capture thread can't be
 started

std::thread::spawn panics when no thread can be created. By then
standard error had already been replaced by a pipe that nobody was
going to read, so the panic message (and everything after it) went
nowhere, and the program would block once the pipe was full.
---
 src/stderr_capture.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/stderr_capture.rs b/src/stderr_capture.rs
index 5e4e704..79c2dd8 100644
--- a/src/stderr_capture.rs
+++ b/src/stderr_capture.rs
@@ -196,7 +196,8 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         return;
     }
     close(w); // it is now staying alive as STDERR_FD
-    let thread = std::thread::spawn(move || {
+    let tx = output.tx.clone();
+    let spawned = std::thread::Builder::new().spawn(move || {
         let mut buf = vec![0u8; 128];
         let mut buf_pos = 0;
         'outer: loop {
@@ -294,6 +295,20 @@ pub(crate) fn attempt_stderr_capture(output: crate::Output) {
         }
         close(r);
     });
+    let thread = match spawned {
+        Ok(x) => x,
+        Err(x) => {
+            // nobody is going to read from the pipe, so put stderr back
+            let _ = dup2(real_stderr, STDERR_FD);
+            close(r);
+            close(real_stderr);
+            let _ = tx.send(crate::Request::StderrLine(format!(
+                "Starting a thread failed with {:?} when attempting to capture stderr.",
+                x
+            )));
+            return;
+        }
+    };
     *lock = Some((thread, real_stderr));
 }
 
-- 
2.43.0

