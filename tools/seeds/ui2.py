M = "ogma-shell/interface/mod.rs"
O = "ogma-shell/interface/outputs.rs"
SPECS = [
dict(id="C07-shown-text-evaluated", property="C07",
 needs="a command with blanks at its end, or of several lines ending in an empty one, is submitted",
 breaks="the text handed to the evaluation is stripped at the end, so it is not the line as typed",
 edits=[(M, "let (input, tabid) = (state.input.buffer(..), state.id);", "let input = state.input.buffer(..).trim_end().to_string();\n        let tabid = state.id;")],
 demo='''
pub fn demo() {
    let (k, s) = (Keys::default(), Screen::new(60, 20));
    start(&k, &s, || Config { on_enter_press: Box::new(|t, _, _| ConfigUpdate { add_output: Some(format!("[{t}]")), ..Default::default() }), ..Default::default() });
    wait(50);
    k.text("ab  ");
    k.plain(KeyCode::Enter);
    wait(300);
    check(s.has("[ab  ]"), "the line is evaluated as typed");
}
'''),
dict(id="C07-aborted-output-dropped", property="C07",
 needs="a command is aborted with Ctrl+x and says so in its output",
 breaks="the output (and the other updates) of an aborted command are dropped",
 edits=[(M, "        Ok(cu) => state.tab_state().update(cu, thm),", "        Ok(_) if cancelsw.is_on() => (), // aborted, nobody waits for the result\n        Ok(cu) => state.tab_state().update(cu, thm),")],
 demo='''
pub fn demo() {
    let (k, s) = (Keys::default(), Screen::new(60, 20));
    start(&k, &s, || Config { on_enter_press: Box::new(|t, _, c| {
        let t0 = std::time::Instant::now();
        while t == "slow" && t0.elapsed().as_secs() < 3 && !c.is_on() { wait(10); }
        ConfigUpdate { add_output: Some(format!("[{t}]")), ..Default::default() }
    }), ..Default::default() });
    wait(50);
    k.text("slow");
    k.plain(KeyCode::Enter);
    wait(300);
    k.key(KeyCode::Char('x'), KeyModifiers::CONTROL);
    wait(2500);
    check(s.has("[slow]"), "the output of the aborted command is appended");
}
'''),
dict(id="C08-backoff", property="C08",
 needs="a command runs for a long while before the user aborts it",
 breaks="the interface looks for keys and redraws ever more rarely the longer a command runs, so an abort can take minutes to be noticed",
 edits=[(M, "                default(std::time::Duration::from_secs(1)) => {", "                default(std::time::Duration::from_secs(1u64 << (sec / 2).min(7))) => {")],
 demo='''
pub fn demo() {
    let (k, s) = (Keys::default(), Screen::new(60, 20));
    start(&k, &s, || Config { on_enter_press: Box::new(|t, _, c| {
        while !c.is_on() { wait(10); }
        ConfigUpdate { add_output: Some(format!("[{t}]")), ..Default::default() }
    }), ..Default::default() });
    wait(50);
    k.text("slow");
    k.plain(KeyCode::Enter);
    wait(6600);
    k.key(KeyCode::Char('x'), KeyModifiers::CONTROL);
    wait(2000);
    check(s.has("[slow]"), "the command is aborted within two seconds");
}
'''),
dict(id="C08-sticky-abort", property="C08",
 needs="Ctrl+x is pressed during one command, then another command is run",
 breaks="the switch is shared by all evaluations, so every command after an aborted one is aborted from the start",
 edits=[(M, "    let cancelsw = Cancelled::off();\n", "    static SWITCH: std::sync::OnceLock<Cancelled> = std::sync::OnceLock::new();\n    let cancelsw = SWITCH.get_or_init(Cancelled::off).clone();\n")],
 demo='''
pub fn demo() {
    let (k, s) = (Keys::default(), Screen::new(60, 20));
    start(&k, &s, || Config { on_enter_press: Box::new(|t, _, c| {
        let t0 = std::time::Instant::now();
        while t0.elapsed().as_millis() < 1500 && !c.is_on() { wait(10); }
        ConfigUpdate { add_output: Some(format!("[{t} {}]", c.is_on())), ..Default::default() }
    }), ..Default::default() });
    wait(50);
    k.text("one");
    k.plain(KeyCode::Enter);
    wait(300);
    k.key(KeyCode::Char('x'), KeyModifiers::CONTROL);
    wait(2500);
    k.text("two");
    k.plain(KeyCode::Enter);
    wait(2500);
    check(s.has("[one true]") && s.has("[two false]"), "only the first command is aborted");
}
'''),
dict(id="C09-small-ids", property="C09",
 needs="two tabs happen to draw the same small identifier",
 breaks="tabs are identified by one random byte, so two tabs can share an identity and with it what the evaluation keeps per tab (such as the working directory)",
 edits=[(M, "        id: fastrand::u64(..),", "        id: fastrand::u8(..) as u64,")],
 demo='''
pub fn demo() {
    let mut ids = vec![];
    for _ in 0..300 {
        ids.push(init(Config::default(), 10).0.id);
    }
    let n = ids.len();
    ids.sort();
    ids.dedup();
    check(ids.len() == n, &format!("{} tabs share an id", n - ids.len()));
}
'''),
dict(id="C09-close-second-last", property="C09",
 needs="the tab before the last one is closed",
 breaks="the selection moves on to a tab that does not exist anymore, and the next key or redraw panics",
 edits=[(M, "            self.tabs.remove(self.tab_selected);\n        }\n        self.switch_tab();", "            self.tabs.remove(self.tab_selected);\n        }\n        self.tab_selected += 1;\n        if self.tab_selected > self.tabs.len() {\n            self.tab_selected = 0;\n        }")],
 demo='''
pub fn demo() {
    let (k, s) = (Keys::default(), Screen::new(60, 20));
    let t = start(&k, &s, || Config::default());
    wait(50);
    let alt = KeyModifiers::ALT;
    k.key(KeyCode::Char('t'), alt);
    k.key(KeyCode::Char('t'), alt);
    k.plain(KeyCode::Tab);
    k.plain(KeyCode::Tab); // the middle one
    k.key(KeyCode::Char('q'), alt);
    wait(100);
    k.text("a");
    wait(100);
    check(!t.is_finished() && s.has("> a"), "another tab is selected and works");
}
'''),
dict(id="C10-limit-before", property="C10",
 needs="more than a hundred outputs in one tab, scrolled to the end",
 breaks="one output more than a hundred is kept",
 edits=[(O, "        if self.items.len() > self.limit {\n            self.items.pop_front();", "        if self.items.len() > self.limit + 1 {\n            self.items.pop_front();")],
 demo='''
pub fn demo() {
    let mut o = Outputs::new(40, 100);
    for i in 0..150 {
        o.add(format!("{i}"), 0);
    }
    check(o.iter().count() == 100, &format!("{} outputs are kept", o.iter().count()));
}
'''),
dict(id="C10-scroll-kept", property="C10",
 needs="the log is scrolled to its end, then the terminal is widened so that wrapped lines take fewer rows",
 breaks="the scroll position survives a change of the width and can lie behind the end of the log, which shows nothing",
 edits=[(O, "    pub fn update_width(&mut self, width: u16, theme: u8) {\n        self.scroll = 0;\n", "    pub fn update_width(&mut self, width: u16, theme: u8) {\n")],
 demo='''
pub fn demo() {
    let (k, s) = (Keys::default(), Screen::new(24, 20));
    start(&k, &s, || Config { on_enter_press: Box::new(|t, _, _| ConfigUpdate { add_output: Some("word ".repeat(60)), ..Default::default() }), ..Default::default() });
    wait(50);
    k.key(KeyCode::Char('h'), KeyModifiers::ALT);
    k.plain(KeyCode::Enter);
    wait(200);
    k.plain(KeyCode::PageDown);
    wait(100);
    s.size_to(180, 20);
    k.resize();
    wait(200);
    check(s.has("word"), "some of the log is shown");
}
'''),
]
