From 4a3aa9ad2f03e0600678bf00ed2d3f1fb463f1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:52 +0000
Subject: [PATCH 01/45] fix: stop reading terminal events once the interface is
 gone

The break on a failed send only left the inner loop, so the buffer thread
kept reading (and swallowing) terminal events for ever.
---
 ogma-shell/interface/events.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma-shell/interface/events.rs b/ogma-shell/interface/events.rs
index 29ea9de..28f8f1f 100644
--- a/ogma-shell/interface/events.rs
+++ b/ogma-shell/interface/events.rs
@@ -21,7 +21,7 @@ impl Events {
                 while let Ok(ev) = read() {
                     if let Some(ev) = Event::convert_xt(ev) {
                         if tx.send(ev).is_err() {
-                            break;
+                            return; // nobody is listening anymore
                         }
                     }
                 }
-- 
2.43.0


From 9216104d608ffaa0d7067daa777a105741c10474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:52 +0000
Subject: [PATCH 02/45] fix: ignore completions that arrive after the list was
 reset

Resetting left the changeset alone, so an answer still in flight when the
list was dismissed, the cursor moved or the line was submitted repopulated the
list for an input that is no longer there.
---
 ogma-shell/interface/completions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/interface/completions.rs b/ogma-shell/interface/completions.rs
index 1d34d4a..d6a8fd9 100644
--- a/ogma-shell/interface/completions.rs
+++ b/ogma-shell/interface/completions.rs
@@ -44,7 +44,6 @@ impl Completions {
     }
 
     pub fn request(&mut self, input_buf: &InputBuffer) {
-        self.changeset = self.changeset.wrapping_add(1);
         self.reset();
 
         let input = input_buf.buffer(..);
@@ -77,6 +76,8 @@ impl Completions {
     }
 
     pub fn reset(&mut self) {
+        // answers to earlier requests are not wanted anymore
+        self.changeset = self.changeset.wrapping_add(1);
         self.items.clear();
         self.highlighted = None;
     }
-- 
2.43.0


From de7f1043d5e2f019a87d921560213d203a49c71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:52 +0000
Subject: [PATCH 03/45] fix: do not work through superseded completion requests

A slow completer answered every queued request in turn, so the suggestions for
the current input only arrived after those of every earlier key press.
---
 ogma-shell/interface/completions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ogma-shell/interface/completions.rs b/ogma-shell/interface/completions.rs
index d6a8fd9..7066d05 100644
--- a/ogma-shell/interface/completions.rs
+++ b/ogma-shell/interface/completions.rs
@@ -223,6 +223,8 @@ fn run_engine(rx: Receiver<Request>, tx: Sender<Package>, completers: Vec<Box<dy
 
 fn loop_completer(rx: Receiver<Arc<Request>>, tx: Sender<Package>, completer: Box<dyn Completer>) {
     while let Ok(req) = rx.recv() {
+        // skip requests which have been superseded while completing
+        let req = rx.try_iter().last().unwrap_or(req);
         let Request {
             changeset,
             input,
-- 
2.43.0


From 516502f25b8da406029931190c55c1e9de4fedc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:42 +0000
Subject: [PATCH 04/45] fix: keys following Enter or the closing of the last
 tab in a batch are handled afterwards

---
 ogma-shell/interface/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 4d50597..2b7a83c 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -251,12 +251,15 @@ where
     E: Iterator<Item = Event>,
     F: FnMut(Input, TabId, Cancelled) -> ConfigUpdate + Send,
 {
-    // read events
-    let r = events
-        .by_ref()
-        .map(|ev| process_event(ev, state))
-        .max()
-        .unwrap_or(EventResult::None);
+    // read events, up to one which evaluates the input or ends the session
+    // the events which follow such an event are left for the next cycle
+    let mut r = EventResult::None;
+    while r < EventResult::Eval {
+        match events.next() {
+            Some(ev) => r = cmp::max(r, process_event(ev, state)),
+            None => break,
+        }
+    }
 
     // handle completions
     let r = match r {
-- 
2.43.0


From aae2735494865083e54d7d292c1e78d87707f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:36 +0000
Subject: [PATCH 05/45] fix: the interface regains control when a command
 panics

---
 ogma-shell/interface/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 2b7a83c..52a3fcc 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -688,13 +688,16 @@ where
     // run on_enter_press on another thread
     let (donetx, donerx) = bounded(1);
     let cancelsw = Cancelled::off();
+    let cancelled = cancelsw.clone();
 
     let cu = scope(|s| {
         let compute_thread = s
             .builder()
             .name("ogma-shell-compute-thread".to_string())
-            .spawn(|_| {
-                let r = f(input, tabid, cancelsw.clone());
+            .spawn(move |_| {
+                // owned by the thread, such that a panic disconnects the channel
+                let donetx = donetx;
+                let r = f(input, tabid, cancelled);
                 donetx.send(()).ok();
                 r
             })
-- 
2.43.0


From 2b13d6b9760a97c09dcb1526c7352cd3fb41492e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:56 +0000
Subject: [PATCH 06/45] fix: keys typed while a command runs are no longer
 discarded

---
 ogma-shell/interface/mod.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 52a3fcc..d0ed19c 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -5,7 +5,7 @@ use ::libs::{
     fastrand,
 };
 use cansi::v3 as cansi;
-use std::{cmp, io};
+use std::{cmp, collections::VecDeque, io};
 use tui::{backend::Backend, layout::*, style::*, text::*, widgets::*, Frame, Terminal as Term};
 
 mod completions;
@@ -99,6 +99,8 @@ struct TabState {
     completions: Completions,
     decorationfn: DecorationFn,
     history: History,
+    /// Events which arrived while a command was running, to be handled afterwards.
+    typed_ahead: VecDeque<Event>,
 }
 
 impl TabState {
@@ -201,6 +203,7 @@ fn init(config: Config, initial_width: u16) -> (TabState, EnterFn) {
         completions,
         decorationfn: decorate_input,
         history: History::new(),
+        typed_ahead: VecDeque::new(),
     };
 
     (state, on_enter_press)
@@ -253,13 +256,17 @@ where
 {
     // read events, up to one which evaluates the input or ends the session
     // the events which follow such an event are left for the next cycle
+    let mut typed_ahead = std::mem::take(&mut state.tab_state().typed_ahead);
     let mut r = EventResult::None;
     while r < EventResult::Eval {
-        match events.next() {
+        match typed_ahead.pop_front().or_else(|| events.next()) {
             Some(ev) => r = cmp::max(r, process_event(ev, state)),
             None => break,
         }
     }
+    if r == EventResult::Eval {
+        state.tab_state().typed_ahead = typed_ahead;
+    }
 
     // handle completions
     let r = match r {
@@ -716,9 +723,12 @@ where
             crossbeam_select! {
                 recv(donerx) -> _ => break,
                 default(std::time::Duration::from_secs(1)) => {
-                    let cancelled = events.any(|x| x == break_ev);
-                    if cancelled {
-                        cancelsw.flip_on();
+                    for ev in events.by_ref() {
+                        if ev == break_ev {
+                            cancelsw.flip_on();
+                        } else {
+                            state.tab_state().typed_ahead.push_back(ev);
+                        }
                     }
                     sec += 1;
                     state.tab_state().input.clear();
-- 
2.43.0


From b558c47bf178aa9b5bf3d2649e8a47baeca37f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:34 +0000
Subject: [PATCH 07/45] fix: suggestions which arrive after others have been
 drawn are drawn as well

---
 ogma-shell/interface/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index d0ed19c..304930b 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -294,7 +294,9 @@ where
         }
         EventResult::Redraw | EventResult::InputChanged => draw(term, state)?,
         EventResult::None => {
-            if !state.tab_state().completions.recv() {
+            if state.tab_state().completions.recv() {
+                state.cmpls_drawn = false;
+            } else {
                 std::thread::sleep(SLEEP);
             }
         }
-- 
2.43.0


From 114975baa1f89d4ec58d8d858b1a9ba418365c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:51 +0000
Subject: [PATCH 08/45] fix: suggestions are requested for each changed input
 and the tab it changed in

---
 ogma-shell/interface/mod.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 304930b..e534407 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -260,7 +260,16 @@ where
     let mut r = EventResult::None;
     while r < EventResult::Eval {
         match typed_ahead.pop_front().or_else(|| events.next()) {
-            Some(ev) => r = cmp::max(r, process_event(ev, state)),
+            Some(ev) => {
+                let x = process_event(ev, state);
+                if x == EventResult::InputChanged {
+                    // later events might move on from this input or this tab
+                    state.cmpls_drawn = false;
+                    let state = state.tab_state();
+                    state.completions.request(&state.input);
+                }
+                r = cmp::max(r, x);
+            }
             None => break,
         }
     }
@@ -270,14 +279,6 @@ where
 
     // handle completions
     let r = match r {
-        EventResult::InputChanged => {
-            {
-                state.cmpls_drawn = false;
-                let state = state.tab_state();
-                state.completions.request(&state.input);
-            }
-            EventResult::InputChanged
-        }
         EventResult::None if state.tab_state().completions.has() && !state.cmpls_drawn => {
             state.cmpls_drawn = true;
             EventResult::Redraw
-- 
2.43.0


From e958d3a700e70ba95086e89f6c03fc5468a5df2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:19 +0000
Subject: [PATCH 09/45] fix: drawing on terminals too small for the layout no
 longer panics

---
 ogma-shell/interface/mod.rs     | 34 +++++++++++++++++++++++----------
 ogma-shell/interface/outputs.rs |  4 ++++
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index e534407..7383b96 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -535,7 +535,7 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
                 .theme(thm),
         )
         .select(state.tab_selected());
-    let tabs_area = Rect { height: 1, ..area };
+    let tabs_area = clip(Rect { height: 1, ..area }, area);
     frame.render_widget(tabs, tabs_area);
 
     // --
@@ -546,7 +546,9 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
     // title
     let title = convert_coloured_str(&state.title, std::usize::MAX, thm)
         .lines
-        .remove(0);
+        .into_iter()
+        .next()
+        .unwrap_or_default();
     let border = Block::default().title(title).borders(Borders::TOP);
     frame.render_widget(border, area);
     let area = reduce_top_margin(area, 1);
@@ -554,11 +556,11 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
     // prompt
     let prompt_txt = Text::from(&*state.prompt);
     let prompt_area = Rect {
-        width: prompt_txt.width() as u16,
+        width: cmp::min(prompt_txt.width() as u16, area.width),
         ..area
     };
     let area = Rect {
-        width: area.width.saturating_sub(prompt_area.width),
+        width: area.width - prompt_area.width,
         x: area.x + prompt_area.width,
         ..area
     };
@@ -600,7 +602,7 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
     };
 
     let (input_area, para, area) = text_block(input, area);
-    let input_area = input_area.intersection(size);
+    let input_area = clip(input_area, size);
     frame.render_widget(para, input_area);
     // --cursor
     frame.set_cursor(input_area.x + cursorx, input_area.y + cursory);
@@ -629,7 +631,7 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
             area.right().saturating_sub(w),
             area.bottom().saturating_sub(h),
         );
-        let area = Rect::new(x, y, w, h).intersection(size);
+        let area = clip(Rect::new(x, y, w, h), size);
         let para = Paragraph::new(help)
             .alignment(Alignment::Right)
             .style(light_on_magenta().theme(thm));
@@ -649,8 +651,8 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
         y: area.y,
         width: cmpls.width() as u16,
         height: cmpls.height() as u16,
-    }
-    .intersection(area);
+    };
+    let txt_area = clip(txt_area, area);
     let tag_area = Rect {
         x: txt_area.x + txt_area.width + 1,
         y: txt_area.y,
@@ -658,7 +660,7 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
         height: tags.height() as u16,
     };
     let tag_area = if tag_area.intersects(area) {
-        Some(tag_area.intersection(area))
+        Some(clip(tag_area, area))
     } else {
         None
     };
@@ -667,7 +669,7 @@ fn draw_frame<B: Backend>(frame: &mut Frame<B>, state: &mut TermState) {
         let mut a = tag_area.map(|a| txt_area.union(a)).unwrap_or(txt_area);
         a.x = a.x.saturating_sub(1);
         a.width += 2;
-        a.intersection(area)
+        clip(a, area)
     };
     let sty = completion_style().theme(thm);
 
@@ -839,6 +841,18 @@ fn help_msg() -> Text<'static> {
     Text::from(lines)
 }
 
+/// The part of `rect` that lies within `within`, which has no extent if there is none.
+fn clip(rect: Rect, within: Rect) -> Rect {
+    let x = rect.x.clamp(within.left(), within.right());
+    let y = rect.y.clamp(within.top(), within.bottom());
+    Rect {
+        x,
+        y,
+        width: cmp::min(rect.right(), within.right()).saturating_sub(x),
+        height: cmp::min(rect.bottom(), within.bottom()).saturating_sub(y),
+    }
+}
+
 /// Keeps bottom coordinates consistent, but moves y and height to account for `by`.
 fn reduce_top_margin(rect: Rect, by: u16) -> Rect {
     let by = std::cmp::min(rect.height, by);
diff --git a/ogma-shell/interface/outputs.rs b/ogma-shell/interface/outputs.rs
index 1c7628a..9beca67 100644
--- a/ogma-shell/interface/outputs.rs
+++ b/ogma-shell/interface/outputs.rs
@@ -88,6 +88,10 @@ impl Outputs {
 
 impl Widget for &Outputs {
     fn render(self, area: Rect, buf: &mut Buffer) {
+        if area.area() == 0 {
+            return; // no space to draw on
+        }
+
         let parea = Rect {
             width: area.width.saturating_sub(1),
             ..area
-- 
2.43.0


From a748889210a481d453d7726e17309ce731a35981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:24 +0000
Subject: [PATCH 10/45] fix: the input line is laid out again when the terminal
 width or the theme changes

---
 ogma-shell/interface/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/interface/mod.rs b/ogma-shell/interface/mod.rs
index 7383b96..3f419f3 100644
--- a/ogma-shell/interface/mod.rs
+++ b/ogma-shell/interface/mod.rs
@@ -95,6 +95,8 @@ struct TabState {
     prompt: String,
     input: InputBuffer,
     input_cache: Text<'static>,
+    /// The width and theme which `input_cache` was made for.
+    input_cache_for: (usize, u8),
     outputs: Outputs,
     completions: Completions,
     decorationfn: DecorationFn,
@@ -105,10 +107,11 @@ struct TabState {
 
 impl TabState {
     fn input_text(&mut self, width: usize, theme: u8) -> Text<'static> {
-        if self.input.buffer_changed() {
+        if self.input.buffer_changed() || self.input_cache_for != (width, theme) {
             let pos = self.input.buf_pos();
             let i = (self.decorationfn)(self.input.buffer(..), pos);
             self.input_cache = convert_coloured_str(&i, width, theme);
+            self.input_cache_for = (width, theme);
             self.input.reset_buf_changed();
         }
 
@@ -199,6 +202,7 @@ fn init(config: Config, initial_width: u16) -> (TabState, EnterFn) {
         prompt,
         input: InputBuffer::new(),
         input_cache: Text::from(""),
+        input_cache_for: (0, 0),
         outputs,
         completions,
         decorationfn: decorate_input,
-- 
2.43.0


From e500e3117be03339349d7ea55b355cabc563b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:16 +0000
Subject: [PATCH 11/45] fix: open reads and caches the named file whatever
 directory the process runs in

---
 ogma/src/lang/impls/intrinsics/io.rs | 12 +++++++++---
 ogma/src/rt/fscache.rs               |  5 +----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/io.rs b/ogma/src/lang/impls/intrinsics/io.rs
index af83e91..632ed24 100644
--- a/ogma/src/lang/impls/intrinsics/io.rs
+++ b/ogma/src/lang/impls/intrinsics/io.rs
@@ -29,9 +29,15 @@ fn scrub_filepath(path: &str, cx: &Context) -> io::Result<std::path::PathBuf> {
         .canonicalize()
         .unwrap_or_else(|_| std::path::PathBuf::from("."));
 
-    wd.strip_prefix(&root)
-        .map(|x| x.to_path_buf())
-        .map_err(|_| io::Error::new(io::ErrorKind::Other, "cannot move above root directory"))
+    if wd.starts_with(&root) {
+        // the path is read as is, it must not depend on the directory the process runs in
+        Ok(wd)
+    } else {
+        Err(io::Error::new(
+            io::ErrorKind::Other,
+            "cannot move above root directory",
+        ))
+    }
 }
 
 // ------ List -----------------------------------------------------------------
diff --git a/ogma/src/rt/fscache.rs b/ogma/src/rt/fscache.rs
index c6ef4a0..76948be 100644
--- a/ogma/src/rt/fscache.rs
+++ b/ogma/src/rt/fscache.rs
@@ -150,9 +150,6 @@ fn watch_fs(canon_root: PathBuf) -> Result<(), Box<dyn error::Error>> {
             }
         }
 
-        let drain = set
-            .drain()
-            .map(|x| x.strip_prefix(&canon_root).unwrap().to_path_buf());
-        FSCACHE.remove_path_changes(drain);
+        FSCACHE.remove_path_changes(set.drain());
     }
 }
-- 
2.43.0


From d249fdb02ef7eb540f8df66cd012a8046edd73f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:16 +0000
Subject: [PATCH 12/45] fix: files whose paths differ only in case are cached
 separately

---
 ogma/src/rt/fscache.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ogma/src/rt/fscache.rs b/ogma/src/rt/fscache.rs
index 76948be..58448f5 100644
--- a/ogma/src/rt/fscache.rs
+++ b/ogma/src/rt/fscache.rs
@@ -21,7 +21,7 @@ const DEBOUNCE: Duration = Duration::from_millis(5); // 5ms fs watching
 static INIT: Once = Once::new();
 
 #[derive(PartialEq, Eq, Hash)]
-struct Key(String, Type);
+struct Key(PathBuf, Type);
 type Value = (Instant, types::Value);
 type Map = HashMap<Key, Value>;
 
@@ -36,7 +36,7 @@ pub struct FsCache {
 
 impl Key {
     fn from<T: AsType>(path: &Path) -> Self {
-        Key(path_to_str(path), T::as_type())
+        Key(path.to_path_buf(), T::as_type())
     }
 }
 
@@ -80,7 +80,7 @@ impl FsCache {
         I: Iterator<Item = P>,
         P: AsRef<Path>,
     {
-        let paths: HashSet<String> = paths.map(|p| path_to_str(p.as_ref())).collect();
+        let paths: HashSet<PathBuf> = paths.map(|p| p.as_ref().to_path_buf()).collect();
         if !paths.is_empty() {
             self.map.lock().retain(|k, _| !paths.contains(&k.0));
         }
@@ -111,10 +111,6 @@ pub fn ensure_init(root: &Path) {
     });
 }
 
-fn path_to_str(path: &Path) -> String {
-    path.display().to_string().to_lowercase()
-}
-
 fn clean_opened_cache_periodically() {
     loop {
         std::thread::sleep(LIFESPAN);
-- 
2.43.0


From 4092bfbd68ef15475587e0d8c497d47af9766c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:16 +0000
Subject: [PATCH 13/45] fix: cached files are dropped when a directory above
 them changes or changes are missed

---
 ogma/src/rt/fscache.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ogma/src/rt/fscache.rs b/ogma/src/rt/fscache.rs
index 58448f5..c82e3c3 100644
--- a/ogma/src/rt/fscache.rs
+++ b/ogma/src/rt/fscache.rs
@@ -82,7 +82,10 @@ impl FsCache {
     {
         let paths: HashSet<PathBuf> = paths.map(|p| p.as_ref().to_path_buf()).collect();
         if !paths.is_empty() {
-            self.map.lock().retain(|k, _| !paths.contains(&k.0));
+            // a changed directory affects everything below it
+            self.map
+                .lock()
+                .retain(|k, _| !k.0.ancestors().any(|p| paths.contains(p)));
         }
     }
 }
@@ -142,6 +145,10 @@ fn watch_fs(canon_root: PathBuf) -> Result<(), Box<dyn error::Error>> {
                     set.insert(a);
                     set.insert(b);
                 }
+                // changes have been missed
+                Rescan | Error(..) => {
+                    set.insert(canon_root.clone());
+                }
                 _ => (),
             }
         }
-- 
2.43.0


From 2f8c33b6ef4dc561ebe6d74ae9ea776e5915ec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:28 +0000
Subject: [PATCH 14/45] fix: table expressions report the error of the first
 failing row and expression

---
 ogma/src/lang/impls/intrinsics/mod.rs      | 31 +++++++++++++++++-----
 ogma/src/lang/impls/intrinsics/morphism.rs |  8 +++---
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/mod.rs b/ogma/src/lang/impls/intrinsics/mod.rs
index ab0ccd4..b1392f3 100644
--- a/ogma/src/lang/impls/intrinsics/mod.rs
+++ b/ogma/src/lang/impls/intrinsics/mod.rs
@@ -209,6 +209,28 @@ fn type_flag(blk: &mut Block) -> Result<Option<Type>> {
         .transpose()
 }
 
+/// Keeps the error with the lowest index of a parallel process, such that the error returned does
+/// not depend on the order in which the items are processed.
+#[derive(Default)]
+struct FirstError(crate::Mutex<Option<(usize, Error)>>);
+
+impl FirstError {
+    fn set(&self, idx: usize, err: Error) {
+        let mut first = self.0.lock();
+        match &*first {
+            Some((i, _)) if *i <= idx => (),
+            _ => *first = Some((idx, err)),
+        }
+    }
+
+    fn into_result(self) -> Result<()> {
+        match self.0.into_inner() {
+            Some((_, e)) => Err(e),
+            None => Ok(()),
+        }
+    }
+}
+
 /// Iterator over buf in a parallel fashion, invoking the callback `f` on each item of `buf`.
 ///
 /// This function is meant for iterating over table rows and updating-in-place `T`. The pattern to
@@ -224,20 +246,17 @@ where
     F: Fn(&mut T, &mut Context, TableRow) -> Result<()> + Sync,
     T: Send,
 {
-    let err = crate::Mutex::new(None);
+    let err = FirstError::default();
     buf.par_iter_mut().enumerate().skip(1).for_each_init(
         || (Default::default(), cx.clone()),
         |(colmap, cx): &mut (types::TableRowColMap, _), (row, x)| {
             let trow = TableRow::new(table.clone(), colmap.clone(), row);
             if let Err(e) = f(x, cx, trow) {
-                *err.lock() = Some(e);
+                err.set(row, e);
             }
         },
     );
-    err.into_inner()
-        .map(Result::<()>::Err)
-        .transpose()
-        .map(|_| ())
+    err.into_result()
 }
 
 /// Create an argument list where each argument expects Nil input and resolves to a Str.
diff --git a/ogma/src/lang/impls/intrinsics/morphism.rs b/ogma/src/lang/impls/intrinsics/morphism.rs
index 6452490..793e344 100644
--- a/ogma/src/lang/impls/intrinsics/morphism.rs
+++ b/ogma/src/lang/impls/intrinsics/morphism.rs
@@ -100,7 +100,7 @@ fn append_table(mut table: Table, cx: &Context, with: &[(eng::Argument, Str)]) -
 
     // calculate appending values
     // parallelised over the expressions _and_ the rows
-    let err = crate::Mutex::new(None);
+    let err = FirstError::default();
     to_append
         .par_iter_mut()
         .enumerate()
@@ -110,14 +110,12 @@ fn append_table(mut table: Table, cx: &Context, with: &[(eng::Argument, Str)]) -
                 *a = predicate(trow.into())?.into();
                 Ok(())
             }) {
-                *err.lock() = Some(e);
+                err.set(withidx, e);
             }
         });
 
     // return any error found
-    if let Some(e) = err.into_inner() {
-        return Err(e);
-    }
+    err.into_result()?;
 
     // append to the column, if ref shared, clone with known expansion of cols
     let to_append = to_append.into_iter().map(|x| x.into_iter());
-- 
2.43.0


From 4005aefff41a51ceae26bef986211c85b2bc12d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:28 +0000
Subject: [PATCH 15/45] fix: sorting a table without rows no longer panics

---
 ogma/src/lang/impls/intrinsics/morphism.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogma/src/lang/impls/intrinsics/morphism.rs b/ogma/src/lang/impls/intrinsics/morphism.rs
index 793e344..3e56984 100644
--- a/ogma/src/lang/impls/intrinsics/morphism.rs
+++ b/ogma/src/lang/impls/intrinsics/morphism.rs
@@ -1469,7 +1469,8 @@ where
 {
     let mut err = None;
     // sort values using a comparer
-    values[1..].sort_by(|a, b| {
+    // the first value is the header's, a table without rows does not have one
+    values.get_mut(1..).unwrap_or_default().sort_by(|a, b| {
         // lhs is `a`, rhs is `b`
         match binop.eval(a.1.clone(), b.1.clone(), cx) {
             Ok(ord) => ord,
-- 
2.43.0


From 3ded0d0443a1d90511437b43e23d99900ccba0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:28 +0000
Subject: [PATCH 16/45] fix: cancelling a batch stops it without fail-fast too

---
 ogma/src/rt/bat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma/src/rt/bat.rs b/ogma/src/rt/bat.rs
index c28e4f3..dd43c17 100644
--- a/ogma/src/rt/bat.rs
+++ b/ogma/src/rt/bat.rs
@@ -226,7 +226,7 @@ pub fn process(
             failure.flip_on();
         }
     };
-    let stop = || ff && (prog.cancelled() || failure.get());
+    let stop = || prog.cancelled() || (ff && failure.get());
 
     // process the defs (in order)
     for (idx, def) in defs {
-- 
2.43.0


From 4aebd1f895d8a190b99758cdd096549c67851f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:04 +0000
Subject: [PATCH 17/45] fix: save writes below the root directory only, and
 does so for absolute roots

---
 ogma/src/lang/impls/intrinsics/io.rs | 76 +++++++++++++++++-----------
 1 file changed, 46 insertions(+), 30 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/io.rs b/ogma/src/lang/impls/intrinsics/io.rs
index 632ed24..d63d3cf 100644
--- a/ogma/src/lang/impls/intrinsics/io.rs
+++ b/ogma/src/lang/impls/intrinsics/io.rs
@@ -33,13 +33,50 @@ fn scrub_filepath(path: &str, cx: &Context) -> io::Result<std::path::PathBuf> {
         // the path is read as is, it must not depend on the directory the process runs in
         Ok(wd)
     } else {
-        Err(io::Error::new(
-            io::ErrorKind::Other,
-            "cannot move above root directory",
-        ))
+        Err(above_root())
     }
 }
 
+/// The equivalent of [`scrub_filepath`] for a file to be written: the file, and the directories
+/// leading to it, do not have to exist.
+fn scrub_savepath(path: &str, cx: &Context) -> io::Result<std::path::PathBuf> {
+    use std::path::{Component::*, Path};
+
+    let root = cx
+        .root
+        .canonicalize()
+        .or_else(|_| Path::new(".").canonicalize())?;
+
+    let mut p = root.clone();
+    for c in cx.wd.components().chain(Path::new(path).components()) {
+        match c {
+            Prefix(_) | RootDir => p.push(c),
+            CurDir => (),
+            ParentDir => {
+                p.pop();
+            }
+            Normal(_) => {
+                p.push(c);
+                match p.symlink_metadata() {
+                    Ok(_) => p = p.canonicalize()?,
+                    Err(e) if e.kind() == io::ErrorKind::NotFound => (),
+                    Err(e) => return Err(e),
+                }
+            }
+        }
+    }
+
+    if p.starts_with(&root) {
+        Ok(p)
+    } else {
+        Err(above_root())
+    }
+}
+
+fn above_root() -> io::Error {
+    io::Error::new(io::ErrorKind::Other, "cannot move above root directory")
+}
+
 // ------ List -----------------------------------------------------------------
 fn ls_table_help() -> HelpMessage {
     HelpMessage {
@@ -307,32 +344,11 @@ fn save_intrinsic(mut blk: Block) -> Result<Step> {
     let blktag = blk.blk_tag().clone();
     blk.eval(ty, move |val, cx| {
         let p: Str = filepath.resolve(|| val.clone(), &cx)?.try_into()?;
-        let p = cx.root.join(cx.wd).join(p.as_str());
-        // check path doesn't go beyond root. can't use scrub_filepath as this uses
-        // canonicalization for checking
-        {
-            use std::path::Component::*;
-            let x = p.components().fold(0i32, |x, c| {
-                x + match c {
-                    RootDir => std::i32::MIN,
-                    CurDir => 0,
-                    ParentDir => -1,
-                    _ => 1,
-                }
-            }); // there is always one for the file name
-            if x <= 0 {
-                Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "cannot move above root directory",
-                ))
-            } else {
-                Ok(())
-            }
-        }
-        .and_then(|_| mkdirs(&p).and_then(|_| std::fs::File::create(p)))
-        .map(std::io::BufWriter::new)
-        .and_then(|mut file| write_file(&mut file, val.clone()))
-        .map_err(|e| Error::io(&blktag, e))?;
+        scrub_savepath(&p, &cx)
+            .and_then(|p| mkdirs(&p).and_then(|_| std::fs::File::create(p)))
+            .map(std::io::BufWriter::new)
+            .and_then(|mut file| write_file(&mut file, val.clone()))
+            .map_err(|e| Error::io(&blktag, e))?;
         cx.done(val)
     })
 }
-- 
2.43.0


From e80653c4fdce00ab34b4acaefb906b8844a50f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:04 +0000
Subject: [PATCH 18/45] fix: ls reports an error reading the directory rather
 than a part of it

---
 ogma/src/lang/impls/intrinsics/io.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/io.rs b/ogma/src/lang/impls/intrinsics/io.rs
index d63d3cf..1f9ba42 100644
--- a/ogma/src/lang/impls/intrinsics/io.rs
+++ b/ogma/src/lang/impls/intrinsics/io.rs
@@ -167,12 +167,8 @@ fn make_dir_table<P: AsRef<std::path::Path>>(dir: P, blk_tag: &Tag) -> Result<Ta
     ]]);
     table.header = true;
 
-    for entry in dir
-        .as_ref()
-        .read_dir()
-        .map_err(|e| Error::io(blk_tag, e))?
-        .filter_map(|x| x.ok())
-    {
+    for entry in dir.as_ref().read_dir().map_err(|e| Error::io(blk_tag, e))? {
+        let entry = entry.map_err(|e| Error::io(blk_tag, e))?;
         let row = once(o(entry.file_name().to_str().unwrap_or("")));
         if let Ok(meta) = entry.metadata() {
             let row = row
-- 
2.43.0


From c9230d8df67808b614c82cde957965527e40721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:01 +0000
Subject: [PATCH 19/45] fix: a cached file is used only while the file is in
 the state it was read in

---
 ogma/src/lang/impls/intrinsics/io.rs | 31 ++++-------
 ogma/src/rt/fscache.rs               | 83 ++++++++++++++++++++++++----
 2 files changed, 83 insertions(+), 31 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/io.rs b/ogma/src/lang/impls/intrinsics/io.rs
index 1f9ba42..cdf3322 100644
--- a/ogma/src/lang/impls/intrinsics/io.rs
+++ b/ogma/src/lang/impls/intrinsics/io.rs
@@ -259,33 +259,22 @@ fn open_intrinsic(mut blk: Block) -> Result<Step> {
 
             let p: Str = arg.resolve(|| val, &cx)?.try_into()?;
             let path = scrub_filepath(&p, &cx).map_err(|e| Error::io(&blktag, e))?;
-            let table = match FSCACHE.get::<Table>(&path) {
-                Some(table) => table,
-                None => {
-                    let s: Str = read_file(&path).map_err(|e| Error::io(&blktag, e))?.into();
-
-                    let table = Table::from(
-                        ::table::parse_dsv(',', &s).map_obj(|s| Value::Str(Str::new(s))),
-                    );
-                    FSCACHE.insert(&path, table.clone());
-                    table
-                }
-            };
+            let table = FSCACHE
+                .get_or_read::<Table, _>(&path, || {
+                    let s: Str = read_file(&path)?.into();
+                    let table = ::table::parse_dsv(',', &s);
+                    Ok(table.map_obj(|s| Value::Str(Str::new(s))).into())
+                })
+                .map_err(|e| Error::io(&blktag, e))?;
 
             cx.done_o(table)
         }),
         Ty::Str => blk.eval_o(move |val, cx| {
             let p: Str = arg.resolve(|| val, &cx)?.try_into()?;
             let path = scrub_filepath(&p, &cx).map_err(|e| Error::io(&blktag, e))?;
-            let s = match FSCACHE.get::<Str>(&path) {
-                Some(s) => s,
-                None => {
-                    let s: Str = read_file(&path).map_err(|e| Error::io(&blktag, e))?.into();
-
-                    FSCACHE.insert(&path, s.clone());
-                    s
-                }
-            };
+            let s = FSCACHE
+                .get_or_read::<Str, _>(&path, || read_file(&path).map(Str::from))
+                .map_err(|e| Error::io(&blktag, e))?;
             cx.done_o(s)
         }),
         x => Err(Error {
diff --git a/ogma/src/rt/fscache.rs b/ogma/src/rt/fscache.rs
index c82e3c3..b578f16 100644
--- a/ogma/src/rt/fscache.rs
+++ b/ogma/src/rt/fscache.rs
@@ -5,10 +5,10 @@ use crate::Mutex;
 use ::libs::parking_lot::Once;
 use std::{
     convert::TryFrom,
-    error,
+    error, fs, io,
     path::{Path, PathBuf},
     result::Result,
-    time::{Duration, Instant},
+    time::{Duration, Instant, SystemTime},
 };
 
 ::lazy_static::lazy_static! {
@@ -18,11 +18,12 @@ use std::{
 
 const LIFESPAN: Duration = Duration::from_secs(60 * 3); // 3 minutes
 const DEBOUNCE: Duration = Duration::from_millis(5); // 5ms fs watching
+const SETTLE: Duration = Duration::from_millis(15); // coarser than file times are
 static INIT: Once = Once::new();
 
 #[derive(PartialEq, Eq, Hash)]
 struct Key(PathBuf, Type);
-type Value = (Instant, types::Value);
+type Value = (Instant, Stamp, types::Value);
 type Map = HashMap<Key, Value>;
 
 /// A filesystem cache which caches the [`Value`] along a _path_.
@@ -34,6 +35,47 @@ pub struct FsCache {
     map: Mutex<Map>,
 }
 
+/// Identifies the state of a file. The file system watching can miss changes, or be late.
+#[derive(PartialEq)]
+struct Stamp {
+    file: (u64, u64),
+    len: u64,
+    modified: SystemTime,
+    changed: SystemTime,
+}
+
+impl Stamp {
+    fn new(path: &Path) -> io::Result<Self> {
+        let meta = fs::metadata(path)?;
+        let modified = meta.modified()?;
+
+        #[cfg(unix)]
+        let (file, changed) = {
+            use std::os::unix::fs::MetadataExt;
+            let secs = Duration::from_secs(meta.ctime().max(0) as u64);
+            let changed = SystemTime::UNIX_EPOCH + secs;
+            let nanos = Duration::from_nanos(meta.ctime_nsec().max(0) as u64);
+            ((meta.dev(), meta.ino()), changed + nanos)
+        };
+        #[cfg(not(unix))]
+        let (file, changed) = ((0, 0), modified);
+
+        Ok(Self {
+            file,
+            len: meta.len(),
+            modified,
+            changed,
+        })
+    }
+
+    /// Whether any change from now on would show as a different stamp.
+    fn settled(&self) -> bool {
+        let now = SystemTime::now();
+        let settled = |t| matches!(now.duration_since(t), Ok(x) if x > SETTLE);
+        settled(self.modified) && settled(self.changed)
+    }
+}
+
 impl Key {
     fn from<T: AsType>(path: &Path) -> Self {
         Key(path.to_path_buf(), T::as_type())
@@ -41,34 +83,55 @@ impl Key {
 }
 
 impl FsCache {
-    /// Fetch a value from the cache along `path`.
+    /// Fetch a value from the cache along `path`, reading it with `read` if it is not there.
     ///
     /// If a cache hit occurs it resets the use timer to keep this item alive.
-    pub fn get<T>(&self, path: &Path) -> Option<T>
+    pub fn get_or_read<T, F>(&self, path: &Path, read: F) -> io::Result<T>
     where
-        T: AsType,
-        T: TryFrom<types::Value>,
+        T: AsType + Clone,
+        T: TryFrom<types::Value> + Into<types::Value>,
+        F: FnOnce() -> io::Result<T>,
     {
         std::thread::sleep(DEBOUNCE * 5); // we sleep for the 5 x debounce duration to give time for the fs watcher to catch up
 
+        let stamp = Stamp::new(path)?; // taken before reading
+        if let Some(value) = self.get(path, &stamp) {
+            return Ok(value);
+        }
+
+        let value = read()?;
+        if stamp.settled() {
+            self.insert(path, stamp, value.clone());
+        }
+        Ok(value)
+    }
+
+    fn get<T>(&self, path: &Path, stamp: &Stamp) -> Option<T>
+    where
+        T: AsType,
+        T: TryFrom<types::Value>,
+    {
         let key = Key::from::<T>(path);
         let mut lock = self.map.lock();
         lock.get_mut(&key)
+            .filter(|x| &x.1 == stamp)
             .map(|x| {
                 x.0 = Instant::now();
-                x.1.clone()
+                x.2.clone()
             })
             .and_then(|x| T::try_from(x).ok())
     }
 
     /// Insert the value `T` along path.
-    pub fn insert<T>(&self, path: &Path, value: T)
+    fn insert<T>(&self, path: &Path, stamp: Stamp, value: T)
     where
         T: AsType,
         T: Into<types::Value>,
     {
         let key = Key::from::<T>(path);
-        self.map.lock().insert(key, (Instant::now(), value.into()));
+        self.map
+            .lock()
+            .insert(key, (Instant::now(), stamp, value.into()));
     }
 
     fn remove_expired(&self, age: Duration) {
-- 
2.43.0


From b115a3d67a18dd5e2065cabe190fe58497e3e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:10 +0000
Subject: [PATCH 20/45] fix: evaluating with an inaccessible root no longer
 panics

---
 ogma/src/rt/fscache.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ogma/src/rt/fscache.rs b/ogma/src/rt/fscache.rs
index b578f16..a32c0aa 100644
--- a/ogma/src/rt/fscache.rs
+++ b/ogma/src/rt/fscache.rs
@@ -157,13 +157,12 @@ impl FsCache {
 ///
 /// Calling this multiple times is safe, once initialised the initialised map will be kept
 /// alive.
-///
-/// # Panics
-/// Panics if `root` can not be canonicalized.
+/// If `root` can not be canonicalized initialising is left to a later call.
 pub fn ensure_init(root: &Path) {
-    let canon_root = root
-        .canonicalize()
-        .expect("must be able to canonicalize root");
+    let canon_root = match root.canonicalize() {
+        Ok(root) => root,
+        Err(_) => return,
+    };
 
     INIT.call_once(|| {
         std::thread::Builder::new()
-- 
2.43.0


From 90ef08cad22c1fa1fff8b33b297f3533abd54360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:34 +0000
Subject: [PATCH 21/45] fix: open and save report an inaccessible root instead
 of using the current directory

---
 ogma/src/lang/impls/intrinsics/io.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/io.rs b/ogma/src/lang/impls/intrinsics/io.rs
index cdf3322..6f91781 100644
--- a/ogma/src/lang/impls/intrinsics/io.rs
+++ b/ogma/src/lang/impls/intrinsics/io.rs
@@ -17,7 +17,6 @@ pub fn add_intrinsics(impls: &mut Implementations) {
 /// If the path goes beyond the store root then an error is returned to disallow users to walk
 /// around outside the workspace folders.
 fn scrub_filepath(path: &str, cx: &Context) -> io::Result<std::path::PathBuf> {
-    let root = cx.root;
     let wd = cx.root.join(cx.wd);
 
     let wd = wd
@@ -25,9 +24,7 @@ fn scrub_filepath(path: &str, cx: &Context) -> io::Result<std::path::PathBuf> {
         .canonicalize()
         .map_err(|e| io::Error::new(e.kind(), format!("{}: {}", e, path)))?;
 
-    let root = root
-        .canonicalize()
-        .unwrap_or_else(|_| std::path::PathBuf::from("."));
+    let root = root_dir(cx)?;
 
     if wd.starts_with(&root) {
         // the path is read as is, it must not depend on the directory the process runs in
@@ -42,11 +39,7 @@ fn scrub_filepath(path: &str, cx: &Context) -> io::Result<std::path::PathBuf> {
 fn scrub_savepath(path: &str, cx: &Context) -> io::Result<std::path::PathBuf> {
     use std::path::{Component::*, Path};
 
-    let root = cx
-        .root
-        .canonicalize()
-        .or_else(|_| Path::new(".").canonicalize())?;
-
+    let root = root_dir(cx)?;
     let mut p = root.clone();
     for c in cx.wd.components().chain(Path::new(path).components()) {
         match c {
@@ -73,6 +66,15 @@ fn scrub_savepath(path: &str, cx: &Context) -> io::Result<std::path::PathBuf> {
     }
 }
 
+/// The absolute path of the root directory, an empty one being the current directory.
+fn root_dir(cx: &Context) -> io::Result<std::path::PathBuf> {
+    if cx.root.as_os_str().is_empty() {
+        std::path::Path::new(".").canonicalize()
+    } else {
+        cx.root.canonicalize()
+    }
+}
+
 fn above_root() -> io::Error {
     io::Error::new(io::ErrorKind::Other, "cannot move above root directory")
 }
-- 
2.43.0


From f2ed37582d406cf1576f6b9d7734cf346afb1541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:43 +0000
Subject: [PATCH 22/45] fix: adding a table with more columns but no rows no
 longer panics

---
 ogma/src/lang/impls/intrinsics/arithmetic.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/arithmetic.rs b/ogma/src/lang/impls/intrinsics/arithmetic.rs
index f22c4c2..b18c175 100644
--- a/ogma/src/lang/impls/intrinsics/arithmetic.rs
+++ b/ogma/src/lang/impls/intrinsics/arithmetic.rs
@@ -145,19 +145,9 @@ fn add_table_by_row(mut prev: Table, next: Table, intersect: bool) -> Table {
         if table.is_empty() {
             return next;
         } else {
+            // name the added cols, there might not be rows to extend them
+            table.add_cols((pc..nc).map(|col| next.col(col).unwrap().take(1).cloned()));
             table.add_rows(next.rows().skip(1).map(|x| x.cloned()));
-            if nc > pc {
-                // name the added cols
-                for col in pc..nc {
-                    if let Some(h) = table
-                        .col_mut(col)
-                        .expect("add_rows should extend cols")
-                        .next()
-                    {
-                        *h = next.col(col).unwrap().next().cloned().unwrap_or_default();
-                    }
-                }
-            }
         }
     }
 
-- 
2.43.0


From 4a025281c8bb6434a96fbfe0d361754825fe3327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:54 +0000
Subject: [PATCH 23/45] fix: a definition file which fails to load no longer
 leaves half of its definitions

---
 ogma/src/lang/defs.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ogma/src/lang/defs.rs b/ogma/src/lang/defs.rs
index 8d3beec..ca017d1 100644
--- a/ogma/src/lang/defs.rs
+++ b/ogma/src/lang/defs.rs
@@ -198,15 +198,17 @@ the row is assumed to be populated with strings, if not an error occurs",
         let loc = Location::File(Arc::clone(&file), 0);
         let items = lang::parse::file(s, loc)?;
 
-        // parse and add each def
+        // parse and add each def to a copy, such that a failure does not leave half of the file
+        let mut defs = self.clone();
         let mut count = 0;
         for item in items.types.into_iter().chain(items.impls).map(|(_, x)| x) {
-            dbg!(&item.doc);
             let lang::parse::Item { doc, code, line } = item;
-            process_definition(&code, Location::File(file.clone(), line), doc, self)?;
+            process_definition(&code, Location::File(file.clone(), line), doc, &mut defs)?;
             count += 1;
         }
 
+        *self = defs;
+
         Ok(count)
     }
 
-- 
2.43.0


From 2d46b03271e5fb4dc06133bdcf054aab658ef723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:10 +0000
Subject: [PATCH 24/45] fix: text within a definition is no longer taken for a
 def flag

---
 ogma-shell/lib.rs     |  2 +-
 ogma/src/lang/defs.rs | 19 +++++++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index 5550e97..5720176 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -166,7 +166,7 @@ impl RunState {
                 Err(e) => (writeln!(buf, "{}", e.to_string().bright_red()).ok(), ()).1,
             }
         } else if ogma::lang::recognise_definition(&input) {
-            if input.contains(" --load") {
+            if input.split_whitespace().nth(1) == Some("--load") {
                 // load defs from the paths defined
                 self.load_defs_files(buf);
             } else {
diff --git a/ogma/src/lang/defs.rs b/ogma/src/lang/defs.rs
index ca017d1..352630e 100644
--- a/ogma/src/lang/defs.rs
+++ b/ogma/src/lang/defs.rs
@@ -263,6 +263,13 @@ pub fn recognise_definition(s: &str) -> bool {
     s.starts_with("def ") || s.starts_with("def-ty ")
 }
 
+/// Is the `def` or `def-ty` keyword followed by the `flag`?
+///
+/// Flags are only recognised in this position: the code of a definition can contain any text.
+fn has_flag(def: &str, flag: &str) -> bool {
+    def.split_whitespace().nth(1) == Some(flag)
+}
+
 type DefResult<'a> = Result<(Value, Option<&'a str>)>;
 
 /// Process an expression which defines a _definition_.
@@ -307,7 +314,7 @@ fn process_impl<'a>(
     help: Option<String>,
     defs: &mut Definitions,
 ) -> DefResult<'a> {
-    if s.contains("--help") {
+    if has_flag(s, "--help") || s.trim_end().ends_with(" --help") {
         let help = HelpMessage {
             desc: "define a command that encapsulates an expression
 def has specialised syntax which takes variable params: ( )"
@@ -344,10 +351,10 @@ def has specialised syntax which takes variable params: ( )"
             ..HelpMessage::new("def")
         };
         Err(err::help_as_error(&help, None))
-    } else if s.contains(" --list") {
+    } else if has_flag(s, "--list") {
         let post = s.split_once(" | ").map(|x| x.1);
         Ok((Value::Tab(construct_def_table(defs)), post))
-    } else if s.contains(" --clear") {
+    } else if has_flag(s, "--clear") {
         defs.clear(false);
         Ok((Value::Nil, None))
     } else {
@@ -382,7 +389,7 @@ fn process_ty<'a>(
     help: Option<String>,
     defs: &mut Definitions,
 ) -> DefResult<'a> {
-    if s.contains("--help") {
+    if has_flag(s, "--help") || s.trim_end().ends_with(" --help") {
         todo!("need to create a def-ty help message");
     //         let help = HelpMessage {
     //             desc: "define a command that encapsulates an expression
@@ -416,10 +423,10 @@ fn process_ty<'a>(
     //             ],
     //         };
     //         Err(help_as_error("def", &help))
-    } else if s.contains(" --list") {
+    } else if has_flag(s, "--list") {
         todo!("need to create a listing of types")
     //         Ok(Value::Tab(construct_def_table(defs)))
-    } else if s.contains(" --clear") {
+    } else if has_flag(s, "--clear") {
         todo!("need to handle clearing of types")
     //         defs.clear(false);
     //         Ok(Value::Nil)
-- 
2.43.0


From dd8a56652466310a14cb8b36181e0b4e44c6367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:11 +0000
Subject: [PATCH 25/45] fix: files of more than 65535 lines no longer panic

---
 ogma/src/lang/syntax/parse/file.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogma/src/lang/syntax/parse/file.rs b/ogma/src/lang/syntax/parse/file.rs
index 2fb3df4..425f639 100644
--- a/ogma/src/lang/syntax/parse/file.rs
+++ b/ogma/src/lang/syntax/parse/file.rs
@@ -158,6 +158,7 @@ pub fn file(text: &str, loc: Location) -> Result<File, err::Error> {
     let mut types = Vec::new();
     let mut exprs = Vec::new();
 
+    // lines beyond the 16 bit range are given the last line number
     let line_num = |i| {
         u16::try_from(
             line.line[..line.line.offset(i)]
@@ -166,7 +167,7 @@ pub fn file(text: &str, loc: Location) -> Result<File, err::Error> {
                 .count()
                 + 1,
         )
-        .expect("file must have less than 16 bit line numbers")
+        .unwrap_or(u16::MAX)
     };
 
     for item in items {
-- 
2.43.0


From 9407e0e0a5771e4cebc68c21d5a45f414f739d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:31 +0000
Subject: [PATCH 26/45] fix: run reads the batch file it validated, not one
 below the process's directory

---
 ogma-shell/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index 5720176..defa3ac 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -345,6 +345,7 @@ impl RunState {
             (r, None)
         };
         self.validate_path(tab_id, r)
+            .map(|path| self.root.join(path)) // validated paths are relative to root
             .and_then(ogma::rt::bat::parse_file)
             .map(|mut batch| {
                 if let Ok(batch) = &mut batch {
-- 
2.43.0


From 32a3aa212876d0ec445c806e6fde78f52904ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:49 +0000
Subject: [PATCH 27/45] fix: ls lists the working directory below the root, not
 below the process's directory

---
 ogma/src/lang/impls/intrinsics/io.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ogma/src/lang/impls/intrinsics/io.rs b/ogma/src/lang/impls/intrinsics/io.rs
index 6f91781..fdc576c 100644
--- a/ogma/src/lang/impls/intrinsics/io.rs
+++ b/ogma/src/lang/impls/intrinsics/io.rs
@@ -144,11 +144,12 @@ fn ls_intrinsic(mut blk: Block) -> Result<Step> {
     };
 
     blk.eval_o(move |_, cx| {
+        let wd = cx.root.join(cx.wd);
         if let Some(path) = &path {
             let path: Str = path.resolve(|| Value::Nil, &cx)?.try_into()?;
-            make_dir_table(cx.wd.join(path.as_str()), &blk_tag)
+            make_dir_table(wd.join(path.as_str()), &blk_tag)
         } else {
-            make_dir_table(cx.wd, &blk_tag)
+            make_dir_table(wd, &blk_tag)
         }
         .and_then(|x| cx.done_o(x))
     })
-- 
2.43.0


From 0c278433588d0957726f6e8133bbef94b4353c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:41 +0000
Subject: [PATCH 28/45] fix: cd to a file is refused

---
 ogma-shell/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index defa3ac..6ca9fc8 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -205,7 +205,12 @@ impl RunState {
     }
 
     fn change_working_dir<P: AsRef<Path>>(&mut self, tab_id: TabId, path: P) -> io::Result<()> {
+        let path = path.as_ref();
         let wd = self.validate_path(tab_id, path)?;
+        if !self.root.join(&wd).is_dir() {
+            let e = format!("not a directory: {}", path.display());
+            return Err(io::Error::new(io::ErrorKind::Other, e));
+        }
         self.tabs.insert(tab_id, wd);
         Ok(())
     }
-- 
2.43.0


From 3e433b568e83ef97624b7c2ff697d542fee6c53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:17 +0000
Subject: [PATCH 29/45] fix: a tab's working directory is kept relative to the
 root from the start

---
 ogma-shell/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index 6ca9fc8..95bd4a3 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -190,9 +190,9 @@ impl RunState {
         cu
     }
 
+    /// The working directory of a tab, relative to the root.
     fn tab_wd(&mut self, id: TabId) -> &Path {
-        let RunState { tabs, root, .. } = self;
-        tabs.entry(id).or_insert_with(|| root.clone())
+        self.tabs.entry(id).or_default()
     }
 
     fn handle_cd<W: Write>(&mut self, tab_id: TabId, path: &str, mut buf: W) {
-- 
2.43.0


From 0355bee895247bb2b669d93c9059a72bf1f9ff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:08 +0000
Subject: [PATCH 30/45] fix: path suggestions after cd come from the working
 directory below the root

---
 ogma-shell/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index 95bd4a3..f3e71d1 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -152,7 +152,7 @@ impl RunState {
             cu.new_prompt = Some(format!("{}> ", wd.display()));
             cu.new_completions = Some(interface::Completions::new(Completer::init(
                 self.wsp.clone(),
-                wd,
+                self.root.join(wd),
             )));
         } else if let Some(remaining) = input.strip_prefix("run ") {
             // process a batch
-- 
2.43.0


From 32a641d3e3fe5e0a30ba1a3ed08294c4e0c260d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:36 +0000
Subject: [PATCH 31/45] fix: an evaluation which panics gives the prompt back

---
 ogma-shell/lib.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index f3e71d1..e992e4f 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -269,23 +269,20 @@ impl RunState {
         let root = self.root.to_path_buf();
         let wd = self.tab_wd(tab_id).to_path_buf();
         let progress = ProgressTx::dummy();
-        let completed = Switch::off();
-        let completed_clone = completed.clone();
 
         let thread = std::thread::Builder::new()
             .name("ogma-shell-processing".into())
             .spawn(move || {
-                let x = f(Context {
+                f(Context {
                     root: &root,
                     wd: &wd,
                     progress: &progress,
-                });
-                completed_clone.flip_on();
-                x
+                })
             })
             .expect("should be fine spawning a thread");
 
-        while !completed.get() {
+        // a panic also finishes the thread
+        while !thread.is_finished() {
             if cancelled.get() {
                 return;
             }
-- 
2.43.0


From dec24d27a86ab2f12c612e0d11f5b59aee238897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:21 +0000
Subject: [PATCH 32/45] fix: an aborted evaluation no longer holds the
 definitions lock and freezes the shell

---
 ogma-shell/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index e992e4f..7394612 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -306,8 +306,10 @@ impl RunState {
     ) {
         use ::ogma::{lang::Value::*, rt::process_expression as proc};
         let wsp = self.wsp.clone();
+        // evaluate with a copy, the lock must not be held by a long running or aborted evaluation
+        let defs = wsp.defs.read().clone();
         self.process_seq(tab_id, cancelled, buf, move |cx| {
-            let d = &wsp.defs.read();
+            let d = &defs;
             let e = expr;
             let l = Location::Shell;
             let root = cx.root;
-- 
2.43.0


From 98ea89bbec7a14b089b6ae940add78fa7508387b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:49 +0000
Subject: [PATCH 33/45] fix: loading definition files from a slow disk no
 longer freezes the shell

---
 ogma-shell/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index 7394612..106d0d3 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -239,7 +239,8 @@ impl RunState {
 
     fn load_defs_files<W: Write>(&mut self, mut buf: W) {
         let mut x = true;
-        let defs = &mut self.wsp.defs.write();
+        // load into a copy, the lock must not be held while reading files
+        let mut defs = self.wsp.defs.read().clone();
         for path in &self.defs_file_paths {
             // append new lines only on subsequent paths
             if x {
@@ -259,6 +260,7 @@ impl RunState {
             }
             .ok();
         }
+        *self.wsp.defs.write() = defs;
     }
 
     fn process_seq<W, F>(&mut self, tab_id: TabId, cancelled: Switch, mut buf: W, f: F)
-- 
2.43.0


From ffd22a39d22c4e91ba1330d1905ef51bdd941ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:41 +0000
Subject: [PATCH 34/45] fix: typing or entering a command with a path no longer
 panics

---
 ogma/src/eng/graphs/astgraph.rs | 5 ++---
 ogma/src/lang/syntax/ast.rs     | 5 +----
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/ogma/src/eng/graphs/astgraph.rs b/ogma/src/eng/graphs/astgraph.rs
index 3ba01ae..67e808f 100644
--- a/ogma/src/eng/graphs/astgraph.rs
+++ b/ogma/src/eng/graphs/astgraph.rs
@@ -182,9 +182,8 @@ impl AstGraph {
 
                 let op = match op.is_op() {
                     Some(t) => t.clone(),
-                    None => {
-                        todo!("paths are not supported yet")
-                    }
+                    // paths are not supported yet
+                    None => return Err(Error::op_not_found(&op.tag(), None, false, defs.impls())),
                 };
 
                 let op = g.add_node(AstNode::Op { op, blk: blk_tag });
diff --git a/ogma/src/lang/syntax/ast.rs b/ogma/src/lang/syntax/ast.rs
index 574332f..1ac950b 100644
--- a/ogma/src/lang/syntax/ast.rs
+++ b/ogma/src/lang/syntax/ast.rs
@@ -269,10 +269,7 @@ pub struct PrefixBlock {
 
 impl IBlock for PrefixBlock {
     fn op(&self) -> CTag {
-        match self.op.is_op() {
-            Some(x) => Cow::Borrowed(x),
-            None => panic!("partitions are not yet supported"),
-        }
+        self.op.tag()
     }
 
     fn terms(&self) -> Cow<[Term]> {
-- 
2.43.0


From cae9beb8c98a19e4db536964d1d86d4b44ba9197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:54 +0000
Subject: [PATCH 35/45] fix: an unfinished command path no longer ends the
 completer

---
 ogma-ls/completion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma-ls/completion.rs b/ogma-ls/completion.rs
index 4d635ab..847cec8 100644
--- a/ogma-ls/completion.rs
+++ b/ogma-ls/completion.rs
@@ -94,7 +94,7 @@ fn incomplete_completions(
         )),
         Exp::SPECLITERAL => Some(cmpls(wsp, line, working_dir, Items::SPEC_LIT)),
         Exp::NONE => None,
-        _ => todo!(),
+        _ => None, // partition paths are not supported yet
     }
 }
 
-- 
2.43.0


From ab1de646e908f18125037f67c2125cbb09863428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:22 +0000
Subject: [PATCH 36/45] fix: highlighting a flag after non-ASCII text no longer
 panics

---
 ogma-shell/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index 106d0d3..48f5ecf 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -514,7 +514,7 @@ fn highlight_from_nodes(line: &str, mut nodes: Vec<Node>) -> String {
             Flag => {
                 // --
                 // if has a quote or double quote at tag.start - 1 then have to colour that and tag.end + 1
-                let c = line.chars().nth(node.tag.start.saturating_sub(1));
+                let c = line[..node.tag.start].chars().last();
                 let (s, e) = if c == Some('\'') || c == Some('"') {
                     (3, 1)
                 } else {
-- 
2.43.0


From 11bfc47171cd2fd40116e9185148d3df61086dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:45 +0000
Subject: [PATCH 37/45] fix: run accepts its documented flag --no-fail-fast

---
 ogma-shell/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ogma-shell/lib.rs b/ogma-shell/lib.rs
index 48f5ecf..f1fa70d 100644
--- a/ogma-shell/lib.rs
+++ b/ogma-shell/lib.rs
@@ -339,7 +339,7 @@ impl RunState {
         tab_id: TabId,
         file_flags: &str,
     ) -> io::Result<Result<Batch, ogma::Error>> {
-        let (pflag, fflag) = (" --no-par", " --no-fast-fail");
+        let (pflag, fflag) = (" --no-par", " --no-fail-fast");
         let (r, parallelise) = if file_flags.contains(pflag) {
             (file_flags.replace(pflag, ""), Some(false))
         } else {
-- 
2.43.0


From 07c6afc5d75e3ca04f368ffe8e35e3c96929ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 38/45] fix: the language server handles messages in the order
 of the stream

Notifications were spawned onto the worker pool as requests are, so that edits could be applied in
another order, and requests could be answered for a document before or after their time.
---
 ogma-ls/server/mod.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/ogma-ls/server/mod.rs b/ogma-ls/server/mod.rs
index 06fb23d..7f83c50 100644
--- a/ogma-ls/server/mod.rs
+++ b/ogma-ls/server/mod.rs
@@ -2,7 +2,10 @@
 
 use super::{add_doc_body, completion::*, doc_header, linech_to_idx, File};
 use ::libs::{
-    crossbeam::channel::{Receiver, Sender},
+    crossbeam::{
+        channel::{Receiver, Sender},
+        sync::WaitGroup,
+    },
     rayon,
     rustc_hash::FxHashMap as HashMap,
     serde::{Deserialize, Serialize},
@@ -100,21 +103,29 @@ impl Server {
             .insert(T::METHOD, Arc::new(ServerCommand::notify(notify)));
     }
 
+    /// Requests are handled concurrently, notifications one after the other: a request sees the
+    /// workspace as it is at its place in the message stream.
     fn run(self) {
+        let mut pending = WaitGroup::new();
         for msg in &self.rx {
             match msg {
-                Message::Request(req) => self.handle_req(req),
-                Message::Notification(notif) => self.handle_notification(notif),
+                Message::Request(req) => self.handle_req(req, pending.clone()),
+                Message::Notification(notif) => {
+                    std::mem::take(&mut pending).wait();
+                    self.handle_notification(notif)
+                }
                 _ => (),
             }
         }
+        pending.wait();
     }
 
-    fn handle_req(&self, req: Request) {
+    fn handle_req(&self, req: Request, pending: WaitGroup) {
         if let Some(f) = self.request_handlers.get(req.method.as_str()) {
             let tx = self.tx.clone();
             let f = Arc::clone(f);
             rayon::spawn(move || {
+                let _pending = pending;
                 let resp = match f.call(req.params) {
                     Ok(result) => Response {
                         id: req.id,
@@ -136,8 +147,7 @@ impl Server {
 
     fn handle_notification(&self, notif: Notification) {
         if let Some(f) = self.notifications_handlers.get(notif.method.as_str()) {
-            let f = Arc::clone(f);
-            rayon::spawn(move || f.call(notif.params));
+            f.call(notif.params);
         } else {
             debug!("notification not registered: '{}'", notif.method);
         }
-- 
2.43.0


From 9d2db9d75e9f1aafe138f8a2626e5ea740321c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 39/45] fix: completions are given on a document's last, empty
 line

---
 ogma-ls/server/completion.rs | 2 +-
 ogma-ls/server/hover.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ogma-ls/server/completion.rs b/ogma-ls/server/completion.rs
index 67f1b40..19ac14a 100644
--- a/ogma-ls/server/completion.rs
+++ b/ogma-ls/server/completion.rs
@@ -21,7 +21,7 @@ fn get_completions(wsp: &Wsp, url: &Url, position: Position) -> Option<Vec<Compl
     let posline = position.line as usize;
     let (line, code) = wsp.get_def_text(url, posline)?;
     let diff = posline.saturating_sub(line);
-    let pos = linech_to_idx(code.lines().nth(diff)?, position.character as usize);
+    let pos = linech_to_idx(code.lines().nth(diff).unwrap_or_default(), position.character as usize);
     let pos = code.lines().take(diff).fold(pos, |x, y| x + y.len() + 1);
     let input = &code[..pos];
 
diff --git a/ogma-ls/server/hover.rs b/ogma-ls/server/hover.rs
index 6f2b206..6afffdf 100644
--- a/ogma-ls/server/hover.rs
+++ b/ogma-ls/server/hover.rs
@@ -24,7 +24,7 @@ fn get_hover(wsp: &Wsp, uri: &Url, position: Position) -> Option<Hover> {
     let (line, code) = wsp.get_def_text(uri, posline)?;
     let expr = wsp.parse(&code).ok()?;
     let diff = posline.saturating_sub(line);
-    let pos = linech_to_idx(code.lines().nth(diff)?, position.character as usize);
+    let pos = linech_to_idx(code.lines().nth(diff).unwrap_or_default(), position.character as usize);
     let pos = code.lines().take(diff).fold(pos, |x, y| x + y.len() + 1);
     let node = expr.node_at_pos(pos)?;
 
-- 
2.43.0


From 7642dd1edac0ea4bb5213b9374dd08df7d3d425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:03 +0000
Subject: [PATCH 40/45] fix: document changes with skipped version numbers are
 applied

The protocol has versions increase, not be consecutive: after a skipped number the server kept all
further changes back for good.
---
 ogma-ls/workspace.rs | 46 ++++++++------------------------------------
 1 file changed, 8 insertions(+), 38 deletions(-)

diff --git a/ogma-ls/workspace.rs b/ogma-ls/workspace.rs
index 7bc6908..31e9904 100644
--- a/ogma-ls/workspace.rs
+++ b/ogma-ls/workspace.rs
@@ -6,7 +6,7 @@ use ogma::{
     common::err::help_as_error,
     lang::{ast::Tag, Definitions},
 };
-use std::{collections::VecDeque, sync::Arc};
+use std::sync::Arc;
 
 type Version = i32;
 type ChgList = Vec<TextDocumentContentChangeEvent>;
@@ -196,57 +196,27 @@ impl Clone for Workspace {
 pub struct File {
     text: String,
     version: Version,
-    pending: VecDeque<Change>,
 }
 
 impl File {
     pub fn new(text: String, version: Version) -> Self {
-        Self {
-            text,
-            version,
-            pending: VecDeque::new(),
-        }
+        Self { text, version }
     }
 
+    /// Apply changes which bring the file to `version`.
+    ///
+    /// Changes are received in the order they are made, the versions do not need to be consecutive.
     pub fn add_changes(&mut self, version: Version, changes: ChgList) {
-        let i = self
-            .pending
-            .iter()
-            .position(|c| c.version >= version)
-            .unwrap_or(self.pending.len());
-
-        self.pending.insert(i, Change { version, changes });
-
-        self.apply_pending();
-    }
-
-    fn apply_pending(&mut self) {
-        let text = &mut self.text;
-
-        while let Some(chg) = self.pending.pop_front() {
-            if chg.version < self.version {
-                continue;
-            } else if chg.version > self.version + 1 {
-                self.pending.push_front(chg);
-                break;
-            }
-
-            self.version = chg.version;
-            apply_changes(text, &chg.changes);
-        }
+        self.version = version;
+        apply_changes(&mut self.text, &changes);
 
         debug!(
             "applied doc edits. VERSION: {}; TEXT: {:?}",
-            self.version, text
+            self.version, self.text
         );
     }
 }
 
-struct Change {
-    version: Version,
-    changes: ChgList,
-}
-
 fn apply_changes(text: &mut String, chgs: &[TextDocumentContentChangeEvent]) {
     for chg in chgs {
         let range = chg
-- 
2.43.0


From e95a45232c7d368629f5b33972c4c0b35c474c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:37 +0000
Subject: [PATCH 41/45] fix: the language server answers requests of unknown
 methods with an error

---
 ogma-ls/server/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ogma-ls/server/mod.rs b/ogma-ls/server/mod.rs
index 7f83c50..1c0632e 100644
--- a/ogma-ls/server/mod.rs
+++ b/ogma-ls/server/mod.rs
@@ -142,6 +142,17 @@ impl Server {
             });
         } else {
             debug!("request not registered: '{}'", req.method);
+            let err = Error {
+                code: ErrorCode::MethodNotFound,
+                message: format!("Method not found: {}", req.method),
+                data: None,
+            };
+            let resp = Response {
+                id: req.id,
+                result: None,
+                error: Some(err.into()),
+            };
+            self.tx.send(resp.into()).ok();
         }
     }
 
@@ -231,7 +242,7 @@ impl From<Error> for lsp_server::ResponseError {
 enum ErrorCode {
     // ParseError,
     // InvalidRequest,
-    // MethodNotFound,
+    MethodNotFound,
     InvalidParams,
     InternalError,
     // ServerError(i32),
@@ -242,7 +253,7 @@ impl From<ErrorCode> for i32 {
         match ec {
             // ErrorCode::ParseError => -32700,
             // ErrorCode::InvalidRequest => -32600,
-            // ErrorCode::MethodNotFound => -32601,
+            ErrorCode::MethodNotFound => -32601,
             ErrorCode::InvalidParams => -32602,
             ErrorCode::InternalError => -32603,
             // ErrorCode::ServerError(code) => code,
-- 
2.43.0


From 9ad5322516c4ffefe349b19821acb6703b66b77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 42/45] fix: a document change with a backwards range does not
 end the language server

---
 ogma-ls/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogma-ls/lib.rs b/ogma-ls/lib.rs
index 51d0c4d..9e13a64 100644
--- a/ogma-ls/lib.rs
+++ b/ogma-ls/lib.rs
@@ -49,7 +49,8 @@ fn pos_to_idx(s: &str, pos: Position) -> usize {
 }
 
 fn lsp_range_to_range(s: &str, range: Range) -> std::ops::Range<usize> {
-    pos_to_idx(s, range.start)..pos_to_idx(s, range.end)
+    let (a, b) = (pos_to_idx(s, range.start), pos_to_idx(s, range.end));
+    a.min(b)..a.max(b)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 35e986e8bfe20079f6597d226f3c7f09140c24f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:26 +0000
Subject: [PATCH 43/45] fix: a panicking handler of the language server answers
 with an internal error

It ended the process, leaving every open request unanswered.
---
 ogma-ls/server/mod.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/ogma-ls/server/mod.rs b/ogma-ls/server/mod.rs
index 1c0632e..e1d5ebf 100644
--- a/ogma-ls/server/mod.rs
+++ b/ogma-ls/server/mod.rs
@@ -13,7 +13,12 @@ use ::libs::{
 };
 use lsp_server::{Connection, Message, Notification, Request, Response};
 use lsp_types::{lsp_notification, lsp_request, Url};
-use std::{marker::PhantomData, path::PathBuf, sync::Arc};
+use std::{
+    marker::PhantomData,
+    panic::{catch_unwind, AssertUnwindSafe},
+    path::PathBuf,
+    sync::Arc,
+};
 
 mod completion;
 mod file_mgmt;
@@ -126,7 +131,8 @@ impl Server {
             let f = Arc::clone(f);
             rayon::spawn(move || {
                 let _pending = pending;
-                let resp = match f.call(req.params) {
+                let result = catch_unwind(AssertUnwindSafe(|| f.call(req.params)));
+                let resp = match result.unwrap_or_else(|_| Err(Error::panicked())) {
                     Ok(result) => Response {
                         id: req.id,
                         result: Some(result),
@@ -158,7 +164,7 @@ impl Server {
 
     fn handle_notification(&self, notif: Notification) {
         if let Some(f) = self.notifications_handlers.get(notif.method.as_str()) {
-            f.call(notif.params);
+            catch_unwind(AssertUnwindSafe(|| f.call(notif.params))).ok();
         } else {
             debug!("notification not registered: '{}'", notif.method);
         }
@@ -229,6 +235,16 @@ struct Error {
     data: Option<Value>,
 }
 
+impl Error {
+    fn panicked() -> Self {
+        Self {
+            code: ErrorCode::InternalError,
+            message: "the request handler panicked".into(),
+            data: None,
+        }
+    }
+}
+
 impl From<Error> for lsp_server::ResponseError {
     fn from(err: Error) -> Self {
         Self {
-- 
2.43.0


From 6b8192ea7f3891b233cecd3b579eae6680845e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:46 +0000
Subject: [PATCH 44/45] fix: the language server knows the definitions of the
 files it is given from the start

---
 ogma-ls/server/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ogma-ls/server/mod.rs b/ogma-ls/server/mod.rs
index e1d5ebf..f3c1b29 100644
--- a/ogma-ls/server/mod.rs
+++ b/ogma-ls/server/mod.rs
@@ -43,6 +43,8 @@ pub fn run(def_file_paths: Vec<PathBuf>) {
         wsp.add_file(url, file);
     }
 
+    wsp.def_load();
+
     Server::stdio().init(wsp).run()
 }
 
-- 
2.43.0


From 71591dcb9b6bf737092cb8427b963d4f38a2e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:34 +0000
Subject: [PATCH 45/45] fix: the language server loads documents which use each
 other, whatever their order

---
 ogma-ls/workspace.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ogma-ls/workspace.rs b/ogma-ls/workspace.rs
index 31e9904..4a11a95 100644
--- a/ogma-ls/workspace.rs
+++ b/ogma-ls/workspace.rs
@@ -131,11 +131,18 @@ impl Workspace {
         let files = self.files.read();
         let defs = &mut self.defs.write();
         defs.clear(false);
-        for (url, file) in files.iter() {
-            let path = url
-                .to_file_path()
-                .unwrap_or_else(|_| std::path::PathBuf::from(url.path()));
-            defs.add_from_str(&file.text, &path).ok();
+
+        // a file can use what another one defines, so retry failed ones for as long as others load
+        let mut remaining = files.iter().sorted_by_key(|x| x.0).collect::<Vec<_>>();
+        let mut count = usize::MAX;
+        while remaining.len() < count {
+            count = remaining.len();
+            remaining.retain(|(url, file)| {
+                let path = url
+                    .to_file_path()
+                    .unwrap_or_else(|_| std::path::PathBuf::from(url.path()));
+                defs.add_from_str(&file.text, &path).is_err()
+            });
         }
     }
 
-- 
2.43.0

