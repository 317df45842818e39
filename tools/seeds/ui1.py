C = "ogma-shell/interface/completions.rs"
EV = "ogma-shell/interface/events.rs"
M = "ogma-shell/interface/mod.rs"
I = "ogma-shell/interface/input.rs"
H = "ogma-shell/interface/history.rs"
O = "ogma-shell/interface/outputs.rs"
SPECS = [
dict(id="C01-history-keeps-request", property="C01",
 needs="suggestions requested for the typed line are still being computed when Up or Down walks the history",
 breaks="walking the history does not reset the completions, so the late answer is shown for (and can be inserted into) a recalled line it was not computed for",
 edits=[(M, """        .insert_str(state.history.current().unwrap_or(""));
    state.completions.reset();
    EventResult::Redraw
""", """        .insert_str(state.history.current().unwrap_or(""));
    EventResult::Redraw
""")],
 demo='''
pub fn demo() {
    let (k, s) = (Keys::default(), Screen::new(60, 20));
    start(&k, &s, || Config { completers: vec![Box::new(Slow("sug", 1, Box::new(|_| 150)))], ..Default::default() });
    wait(50);
    k.text("old");
    k.plain(KeyCode::Enter);
    wait(300);
    k.text("x");
    wait(50);
    k.plain(KeyCode::Up); // recalls the old line before the answer for "x" is there
    wait(400);
    check(s.has("> old"), "the old line is recalled");
    check(!s.has("sug0<x>"), "suggestions for x are shown with another line");
}
'''),
dict(id="C01-narrow-changeset", property="C01",
 needs="a completer so slow that exactly 256 further requests or resets happen while it computes its answer",
 breaks="requests are numbered modulo 256, so an answer to a superseded request can be taken for the current one",
 edits=[(C, "        for pkg in self.rx.try_iter().filter(|x| x.changeset == chgset) {", "        for pkg in self.rx.try_iter().filter(|x| x.changeset as u8 == chgset as u8) {")],
 demo='''
pub fn demo() {
    let (k, s) = (Keys::default(), Screen::new(60, 20));
    start(&k, &s, || Config { completers: vec![Box::new(Slow("sug", 1, Box::new(|t| if t.len() == 1 { 1500 } else { 3000 })))], ..Default::default() });
    wait(50);
    k.text("x");
    wait(100);
    k.text("y");
    for _ in 0..255 {
        k.plain(KeyCode::Left);
    }
    wait(1900);
    check(!s.has("sug0<x>"), "suggestions for x are shown with the line xy");
}
'''),
dict(id="C02-bounded-queue", property="C02",
 needs="the user keeps typing while a completer is busy, and the last request arrives while one request is queued for it",
 breaks="each completer has a queue of one request and further ones are dropped, so the request for the final text is lost",
 edits=[(C, "        let (txx, rxx) = unbounded();", "        let (txx, rxx) = bounded(1);"),
        (C, "                tx.send(req.clone()).ok();", "                tx.try_send(req.clone()).ok(); // never blocks"),
        (C, "use ::libs::crossbeam::channel::{unbounded, Receiver, Sender};", "use ::libs::crossbeam::channel::{bounded, unbounded, Receiver, Sender};")],
 demo='''
pub fn demo() {
    let (k, s) = (Keys::default(), Screen::new(60, 20));
    start(&k, &s, || Config { completers: vec![Box::new(Slow("sug", 1, Box::new(|_| 300)))], ..Default::default() });
    wait(50);
    for c in ["a", "b", "c", "d", "e"] {
        k.text(c);
        wait(40);
    }
    wait(1500);
    check(s.has("sug0<abcde>"), "the suggestions for the final text never arrive");
}
'''),
dict(id="C02-engine-gives-up", property="C02",
 needs="one completer's thread has ended (it panicked on an earlier input) and the user types on",
 breaks="the engine stops handing out requests as soon as one completer is gone: the others are never asked again",
 edits=[(C, "                tx.send(req.clone()).ok();", "                if tx.send(req.clone()).is_err() {\n                    return; // nobody is completing anymore\n                }")],
 demo='''
pub fn demo() {
    let (k, s) = (Keys::default(), Screen::new(60, 20));
    std::panic::set_hook(Box::new(|_| ()));
    start(&k, &s, || Config { completers: vec![
        Box::new(Slow("bad", 0, Box::new(|t| if t == "a" { panic!() } else { 0 }))),
        Box::new(Slow("sug", 1, Box::new(|_| 5)))], ..Default::default() });
    wait(50);
    for c in ["a", "b", "c", "d"] {
        k.text(c);
        wait(200);
    }
    check(s.has("sug0<abcd>"), "the remaining completer is not asked anymore");
}
'''),
dict(id="C03-late-answers-first", property="C03",
 needs="a second completer answers while an entry of the first one's suggestions is highlighted",
 breaks="answers which arrive later are put in front of the list, so the highlighted position names another entry than the one on the line",
 edits=[(C, "            self.items.extend(pkg.items);", "            self.items.splice(0..0, pkg.items);")],
 demo='''
pub fn demo() {
    let (k, s) = (Keys::default(), Screen::new(80, 24));
    start(&k, &s, || Config { completers: vec![
        Box::new(Slow("one", 2, Box::new(|_| 0))),
        Box::new(Slow("two", 2, Box::new(|_| 400)))], ..Default::default() });
    wait(50);
    k.text("a");
    wait(150);
    k.plain(KeyCode::Down);
    wait(100);
    check(s.has("> one0<a>"), "the first suggestion is on the line");
    wait(500);
    k.plain(KeyCode::Down);
    wait(100);
    check(s.has("> one1<a>"), "the next suggestion in list order is on the line");
}
'''),
dict(id="C03-byte-length", property="C03",
 needs="a suggestion (or the word under completion) holds characters of several bytes and the user moves on to another suggestion",
 breaks="the length of the inserted suggestion is taken in bytes, so the next move through the list deletes text behind the word",
 edits=[(C, "        self.ins_len = self.cmpl().unwrap_or(&self.replace).chars().count();", "        self.ins_len = self.cmpl().unwrap_or(&self.replace).len();")],
 demo='''
pub fn demo() {
    let (k, s) = (Keys::default(), Screen::new(80, 24));
    start(&k, &s, || Config { completers: vec![Box::new(Slow("\\u{e9}\\u{e9}\\u{e9}", 2, Box::new(|t| if t.len() == 5 { 0 } else { 0 })))], ..Default::default() });
    wait(50);
    k.text("wxyz");
    for _ in 0..4 {
        k.plain(KeyCode::Left);
    }
    k.text("a");
    wait(150);
    k.plain(KeyCode::Down);
    k.plain(KeyCode::Down);
    wait(150);
    check(s.has("1<awxyz>wxyz"), "the text after the cursor is kept");
}
'''),
dict(id="C04-stops-after-error", property="C04",
 needs="a terminal read fails once (for example interrupted) and keys follow",
 breaks="the reader thread ends at the first failing read, so later keys are never delivered",
 edits=[(EV, "            .spawn(move || loop {\n                while let Ok(ev) = read() {", "            .spawn(move || {\n                while let Ok(ev) = read() {")],
 demo='''
use crossterm::event as xt;
pub fn demo() {
    let mut e = Events::new().unwrap();
    let key = |c| Ok(xt::Event::Key(xt::KeyEvent::new(KeyCode::Char(c), NOMOD)));
    crossterm::script::push(key('a'));
    crossterm::script::push(Err(4));
    crossterm::script::push(key('b'));
    wait(300);
    let got: Vec<Event> = e.by_ref().collect();
    check(got.len() == 2, &format!("{got:?}"));
}
'''),
dict(id="C04-drops-when-full", property="C04",
 needs="more than 64 keys arrive while the interface is busy (a command is running or a frame is being drawn)",
 breaks="the event queue is bounded and the reader throws away events which do not fit",
 edits=[(EV, "use ::libs::crossbeam::channel::{unbounded, Receiver};", "use ::libs::crossbeam::channel::{bounded, Receiver};"),
        (EV, "        let (tx, rx) = unbounded();", "        let (tx, rx) = bounded(64);"),
        (EV, "                        if tx.send(ev).is_err() {\n                            return; // nobody is listening anymore\n                        }",
             "                        match tx.try_send(ev) {\n                            Err(e) if e.is_disconnected() => return, // nobody is listening anymore\n                            _ => (),\n                        }")],
 demo='''
use crossterm::event as xt;
pub fn demo() {
    let mut e = Events::new().unwrap();
    for i in 0..200u32 {
        crossterm::script::push(Ok(xt::Event::Key(xt::KeyEvent::new(KeyCode::Char(char::from_u32(0x4e00 + i).unwrap()), NOMOD))));
    }
    wait(500);
    let got: Vec<Event> = e.by_ref().collect();
    check(got.len() == 200, &format!("{} of 200 keys arrived", got.len()));
}
'''),
dict(id="C05-insert-bytes", property="C05",
 needs="text with characters of several bytes is inserted as a whole (a recalled line or a suggestion) and the user goes on typing",
 breaks="the cursor moves by bytes instead of characters and ends up behind the end of the line",
 edits=[(I, "        for c in s.chars() {\n            self.insert(c);\n        }", "        self.buf.splice(self.pos..self.pos, s.chars());\n        self.pos += s.len();\n        self.buf_changed = true;")],
 demo='''
pub fn demo() {
    let mut i = InputBuffer::new();
    i.insert_str("na\\u{ef}ve ");
    check(i.ch_pos() == 6 && i.buf_pos() == 7, "the cursor is behind the inserted text");
    i.insert('x');
    check(i.buffer(..) == "na\\u{ef}ve x", "inserting after it");
}
'''),
dict(id="C05-delete-unchanged", property="C05",
 needs="the last edit before a redraw deletes the character at the very end of the line with Delete",
 breaks="deleting the last character does not raise the changed flag, so the old text stays on the screen",
 edits=[(I, "            self.buf.remove(self.pos);\n            self.buf_changed = true;\n        }\n    }\n\n    pub fn move_start", "            self.buf.remove(self.pos);\n            self.buf_changed |= self.pos < self.buf.len();\n        }\n    }\n\n    pub fn move_start")],
 demo='''
pub fn demo() {
    let mut i = InputBuffer::new();
    i.insert_str("ab");
    i.move_left(input::Mvmt::Ch(1));
    i.reset_buf_changed();
    i.delete();
    check(i.buffer(..) == "a", "b is deleted");
    check(i.buffer_changed(), "the change is flagged");
}
'''),
dict(id="C06-swap-remove", property="C06",
 needs="more than a hundred submitted lines, then walking back through the history",
 breaks="the oldest line is replaced by the newest one when the history is full, which puts lines out of order",
 edits=[(H, "            self.items.remove(0);", "            self.items.swap_remove(0);")],
 demo='''
pub fn demo() {
    let mut h = History::new();
    for i in 0..103 {
        h.add(format!("{i}"));
    }
    for i in (3..103).rev() {
        h.back();
        let want = format!("{i}");
        check(h.current() == Some(want.as_str()), &format!("line {i}, got {:?}", h.current()));
    }
}
'''),
dict(id="C06-empty-walk", property="C06",
 needs="Up is pressed an odd number of times in a tab before anything was submitted, then a line is submitted and recalled",
 breaks="submitting returns to the neutral position only if a line was being recalled, so the position left behind by walking an empty history survives and the first recall yields nothing",
 edits=[(H, "        self.items.push(line);\n        self.idx = None;", "        let recalled = self.current().is_some();\n        self.items.push(line);\n        if recalled {\n            self.idx = None;\n        }")],
 demo='''
pub fn demo() {
    let mut h = History::new();
    h.back();
    h.add("only".into());
    h.back();
    check(h.current() == Some("only"), "the only line is recalled first");
}
'''),
]
