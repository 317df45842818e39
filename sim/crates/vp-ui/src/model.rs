//! The reference model of the interface, the controller that drives it, and the comparison.
use crate::interface::*;
use crate::world::*;
use crossterm::event as xt;
use kit::serde_json::Value;
use kit::simrt::sched;
use kit::{J, *};
use std::collections::BTreeMap;
use std::time::Duration;
use tui::style::Modifier;
use xt::{KeyCode, KeyEvent, KeyModifiers as M};

#[derive(Clone, Debug, PartialEq)]
pub enum Cm {
    None,
    /// requested for this text, byte cursor and word start; `hl` is the highlighted entry of `list`
    Req { text: String, cursor: usize, word: usize, hl: Option<usize>, list: Vec<String> },
    /// dismissed by Esc at a moment when it was unknown whether anything was shown
    Unknown,
}
#[derive(Clone, Debug)]
pub struct MTab {
    pub ord: usize,
    pub line: Vec<char>,
    pub pos: usize,
    pub hist: Vec<String>,
    pub hidx: Option<usize>,
    pub outs: Vec<String>,
    pub title: String,
    pub prompt: String,
    pub cm: Cm,
    pub gen: usize,
    pub inst: usize,
    /// None: unknown
    pub scroll: Option<usize>,
}
pub struct Model {
    pub tabs: Vec<MTab>,
    pub sel: usize,
    pub made: usize,
    pub help: bool,
    pub ended: bool,
    pub evals: Vec<(String, usize)>,
    pub ids: BTreeMap<u64, usize>,
}

fn isw(c: char) -> bool {
    c.is_alphanumeric() || c == '-' || c == '_'
}
pub fn word_of(s: &str, cursor: usize) -> usize {
    let seps: &[char] = &[' ', '\t', '\r', '\n', '.', '/', '\\'];
    if s[cursor..].chars().next().map_or(false, |c| seps.contains(&c)) {
        return cursor;
    }
    s[..cursor].rfind(seps).map(|i| i + 1).unwrap_or(0)
}

impl MTab {
    fn new(ord: usize) -> MTab {
        MTab {
            ord,
            line: vec![],
            pos: 0,
            hist: vec![],
            hidx: None,
            outs: vec![],
            title: format!(" T{ord} "),
            prompt: "> ".into(),
            cm: Cm::None,
            gen: 0,
            inst: ord,
            scroll: Some(0),
        }
    }
    fn text(&self) -> String {
        self.line.iter().collect()
    }
    fn byte_pos(&self) -> usize {
        self.line[..self.pos].iter().map(|c| c.len_utf8()).sum()
    }
    fn changed(&mut self) {
        let (text, cursor) = (self.text(), self.byte_pos());
        self.cm = Cm::Req { word: word_of(&text, cursor), text, cursor, hl: None, list: vec![] };
    }
    fn ins(&mut self, c: char) {
        self.line.insert(self.pos, c);
        self.pos += 1;
    }
    fn set(&mut self, s: &str) {
        self.line = s.chars().collect();
        self.pos = self.line.len();
    }
    fn walk(&mut self, back: bool) {
        let n = self.hist.len().min(100);
        self.hidx = match (self.hidx, back) {
            (None, true) if n > 0 => Some(0),
            (Some(i), true) if i + 1 < n => Some(i + 1),
            (None, false) if n > 0 => Some(n - 1),
            (Some(i), false) if i > 0 => Some(i - 1),
            _ => None,
        };
        let s = self.hidx.map(|i| self.hist[self.hist.len() - 1 - i].clone()).unwrap_or_default();
        self.set(&s);
        self.cm = Cm::None;
    }
    fn cycle(&mut self, next: bool) {
        let Cm::Req { text, cursor, word, hl, list } = &mut self.cm else { return };
        let n = list.len();
        *hl = match (*hl, next) {
            (None, true) => Some(0),
            (None, false) => Some(n - 1),
            (Some(i), true) => (i + 1 < n).then_some(i + 1),
            (Some(i), false) => i.checked_sub(1),
        };
        let mid = hl.map(|i| list[i].clone()).unwrap_or(text[*word..*cursor].to_string());
        let before = text[..*word].to_string();
        let l = format!("{before}{mid}{}", &text[*cursor..]);
        let p = before.chars().count() + mid.chars().count();
        self.line = l.chars().collect();
        self.pos = p;
    }
    /// Everything the completers would offer for the pending request.
    pub fn expected(&self, sc: &Value, w: &W) -> Vec<Vec<String>> {
        let Cm::Req { text, cursor, word, .. } = &self.cm else { return vec![] };
        gen_script(sc, self.gen)
            .iter()
            .enumerate()
            .filter(|(who, _)| !w.dead.contains(&(self.inst, *who)))
            .map(|(who, c)| (0..(c.u("n") as usize).min(10)).map(|k| value_of(self.gen, who, k, text, *cursor, *word)).collect())
            .filter(|v: &Vec<String>| !v.is_empty())
            .collect()
    }
    fn out_height(&self) -> usize {
        self.outs.iter().rev().take(100).map(|o| lines(o).len()).sum()
    }
}
/// Lines an output takes on the screen (for outputs that are not wrapped).
pub fn lines(s: &str) -> Vec<&str> {
    if s.is_empty() {
        return vec![];
    }
    s.split('\n').collect()
}

impl Model {
    pub fn new() -> Model {
        Model { tabs: vec![MTab::new(0)], sel: 0, made: 1, help: true, ended: false, evals: vec![], ids: BTreeMap::new() }
    }
    pub fn tab(&mut self) -> &mut MTab {
        let s = self.sel;
        &mut self.tabs[s]
    }
    pub fn apply(&mut self, ev: &str, sc: &Value, w: &W) {
        if self.ended {
            return;
        }
        let scroll = |t: &mut MTab, d: i64| {
            if let Some(s) = t.scroll {
                let h = t.out_height().saturating_sub(1);
                t.scroll = Some(if d < 0 { s.saturating_sub(-d as usize) } else { (s + d as usize).min(h) });
            }
        };
        match ev {
            "enter" => {
                let n = self.evals.len();
                let sel = self.sel;
                let t = &mut self.tabs[sel];
                let text = t.text();
                t.hist.push(text.clone());
                t.hidx = None;
                t.line.clear();
                t.pos = 0;
                t.cm = Cm::None;
                self.evals.push((text, t.ord));
                let e = eval_script(sc, n);
                if e.s("panic").is_empty() {
                    if let Some(o) = out_text(sc, n) {
                        t.outs.push(o);
                        t.scroll = Some(0);
                    }
                    if let Some(x) = e["title"].as_str() {
                        t.title = x.into();
                    }
                    if let Some(x) = e["prompt"].as_str() {
                        t.prompt = x.into();
                    }
                    if e["newc"].is_u64() {
                        t.gen = e.u("newc") as usize;
                        t.inst = 1000 + n;
                    }
                }
            }
            "bs" | "s-bs" => {
                let t = self.tab();
                if t.pos > 0 {
                    t.pos -= 1;
                    t.line.remove(t.pos);
                }
                t.changed();
            }
            "del" => {
                let t = self.tab();
                if t.pos < t.line.len() {
                    t.line.remove(t.pos);
                }
                t.changed();
            }
            "left" | "right" | "cleft" | "cright" => {
                let t = self.tab();
                match ev {
                    "left" => t.pos = t.pos.saturating_sub(1),
                    "right" => t.pos = (t.pos + 1).min(t.line.len()),
                    "cleft" => {
                        while t.pos > 0 && !isw(t.line[t.pos - 1]) {
                            t.pos -= 1;
                        }
                        while t.pos > 0 && isw(t.line[t.pos - 1]) {
                            t.pos -= 1;
                        }
                    }
                    _ => {
                        while t.pos < t.line.len() && !isw(t.line[t.pos]) {
                            t.pos += 1;
                        }
                        while t.pos < t.line.len() && isw(t.line[t.pos]) {
                            t.pos += 1;
                        }
                    }
                }
                t.cm = Cm::None;
            }
            "up" => self.tab().walk(true),
            "down" => self.tab().walk(false),
            "cdown" => self.tab().cycle(true),
            "cup" => self.tab().cycle(false),
            "esc" => {
                // only generated when it is known what is shown
                let exp = self.tab().expected(sc, w);
                if !exp.is_empty() {
                    self.tab().cm = Cm::None;
                }
            }
            "s-enter" | "a-enter" => {
                let t = self.tab();
                t.ins('\n');
                t.changed();
            }
            "tab" => {
                self.sel += 1;
                if self.sel >= self.tabs.len() {
                    self.sel = 0;
                }
            }
            "a-t" => {
                self.tabs.push(MTab::new(self.made));
                self.made += 1;
                self.sel = self.tabs.len() - 1;
            }
            "a-q" => {
                let s = self.sel;
                self.tabs.remove(s);
                self.sel += 1;
                if self.sel >= self.tabs.len() {
                    self.sel = 0;
                }
                self.ended = self.tabs.is_empty();
            }
            "a-h" => self.help = !self.help,
            "s-up" => scroll(self.tab(), -5),
            "s-down" => scroll(self.tab(), 5),
            "pgup" => scroll(self.tab(), -25),
            "pgdown" => scroll(self.tab(), 25),
            _ if ev.starts_with("c:") || ev.starts_with("s:") => {
                let t = self.tab();
                t.ins(ev[2..].chars().next().unwrap_or('?'));
                t.changed();
            }
            _ if ev.starts_with("resize:") => {
                for t in &mut self.tabs {
                    t.scroll = None;
                }
            }
            _ => (), // a-m, c-x, mouse, errors, unknown keys
        }
    }
}

/// What the terminal reports for an event.
fn terminal(ev: &str) -> Result<xt::Event, i32> {
    let k = |c, m| Ok(xt::Event::Key(KeyEvent::new(c, m)));
    let no = M::empty();
    match ev {
        "enter" => k(KeyCode::Enter, no),
        "bs" => k(KeyCode::Backspace, no),
        "s-bs" => k(KeyCode::Backspace, M::SHIFT),
        "del" => k(KeyCode::Delete, no),
        "left" => k(KeyCode::Left, no),
        "right" => k(KeyCode::Right, no),
        "cleft" => k(KeyCode::Left, M::CONTROL),
        "cright" => k(KeyCode::Right, M::CONTROL),
        "up" | "cup" => k(KeyCode::Up, no),
        "down" | "cdown" => k(KeyCode::Down, no),
        "esc" => k(KeyCode::Esc, no),
        "s-enter" => k(KeyCode::Enter, M::SHIFT),
        "a-enter" => k(KeyCode::Enter, M::ALT),
        "tab" => k(KeyCode::Tab, no),
        "a-t" => k(KeyCode::Char('t'), M::ALT),
        "a-q" => k(KeyCode::Char('q'), M::ALT),
        "a-h" => k(KeyCode::Char('h'), M::ALT),
        "a-m" => k(KeyCode::Char('m'), M::ALT),
        "c-x" => k(KeyCode::Char('x'), M::CONTROL),
        "s-up" => k(KeyCode::Up, M::SHIFT),
        "s-down" => k(KeyCode::Down, M::SHIFT),
        "pgup" => k(KeyCode::PageUp, no),
        "pgdown" => k(KeyCode::PageDown, no),
        "f5" => k(KeyCode::F(5), no),
        "c-a" => k(KeyCode::Char('a'), M::CONTROL),
        "mouse" => Ok(xt::Event::Mouse(xt::MouseEvent { kind: xt::MouseEventKind::Moved, column: 1, row: 1, modifiers: no })),
        "error" => Err(5),
        _ if ev.starts_with("s:") => k(KeyCode::Char(ev[2..].chars().next().unwrap_or('?')), M::SHIFT),
        _ if ev.starts_with("resize:") => {
            let (w, h) = dims(ev);
            Ok(xt::Event::Resize(w, h))
        }
        _ => k(KeyCode::Char(ev.get(2..).and_then(|s| s.chars().next()).unwrap_or('?')), no),
    }
}
pub fn dims(ev: &str) -> (u16, u16) {
    let mut p = ev["resize:".len()..].split('x').map(|x| x.parse().unwrap_or(10));
    (p.next().unwrap_or(80), p.next().unwrap_or(24))
}

// ------------------------------------------------------------------ invariants of every frame
pub fn on_frame(w: &mut W) {
    if !w.check_popups || w.evaluating {
        return;
    }
    let pop = w.popup();
    if pop.is_empty() {
        return;
    }
    w.popup_frames += 1;
    // which tab is drawn is in its title
    let title = w.row(1, 0, w.gsize.0);
    let Some(i) = title.find(" T") else { return };
    let ord: usize = match title[i + 2..].split(' ').next().and_then(|s| s.parse().ok()) {
        Some(o) => o,
        None => return,
    };
    let line = w.last_text(ord).map(|d| d.text.clone()).unwrap_or_default();
    let mut first: Option<&Req> = None;
    for (v, _) in &pop {
        let Some(r) = w.reqs.get(v) else {
            fail("popup-unknown", format!("the screen shows a suggestion nobody made: {v}"))
        };
        if let Some(f) = first {
            if (&f.text, f.cursor) != (&r.text, r.cursor) {
                fail("popup-mixed", format!("suggestions for {:?} and {:?} are shown together", f.text, r.text));
            }
        }
        first = Some(r);
        let (before, word, after) = (&r.text[..r.word], &r.text[r.word..r.cursor], &r.text[r.cursor..]);
        let hl = pop.iter().find(|p| p.1).map(|p| p.0.as_str());
        let mid = hl.unwrap_or(word);
        if line != format!("{before}{mid}{after}") {
            fail(
                "popup-stale",
                format!("suggestions for {:?} (cursor {}) are shown with the line {line:?} (highlighted: {hl:?})", r.text, r.cursor),
            );
        }
    }
}

// ------------------------------------------------------------------ running a scenario
fn sleep(ns: u64) {
    if ns > 0 {
        std::thread::sleep(Duration::from_nanos(ns));
    }
}

pub fn run_ui(sc: &Value) {
    set_phase("starting the interface");
    let w = new_world(sc);
    w.get().check_popups = sc.b("completing");
    let ui = std::thread::Builder::new()
        .name("ui".into())
        .spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let evs = Events::new().expect("events");
                run(evs, Rec(w), move || config(w)).map(|_| ())
            }));
            let r = match r {
                Ok(Ok(())) => Ok(()),
                Ok(Err(e)) => Err(format!("error: {e}")),
                Err(_) => Err(match panics().last() {
                    Some(p) => format!("{}|{} at {}", panic_sig(p), p.msg, p.at),
                    None => "panic".into(),
                }),
            };
            w.get().done = Some(r);
        })
        .unwrap();
    let mut m = Model::new();
    let stall = sched::sim().stall_limit();
    sleep(20 * MS + stall);
    let mut evs_total = 0u64;
    let (mut aborted, mut presses) = (0, 0);
    let mut at = 0u64;
    for (pi, ph) in sc.arr("phases").iter().enumerate() {
        set_phase(format!("phase {pi}"));
        if m.ended {
            break;
        }
        let mut t = sched::now() + 100_000;
        let mut pushed = vec![];
        // moves through a suggestion list only when it is known to be there, history only when it is not
        let completing = sc.b("completing");
        let mut moves = ph.arr("ev");
        if ph.b("stag") {
            // the first completer's suggestions are there, the slow ones' are not yet: move, then let those arrive
            let ok = staggered(w, &mut m, ph, sc, &mut at, &mut evs_total);
            t = sched::now().max(at) + 1000;
            if !ok {
                moves = &[];
            }
        }
        let shown: Vec<String> = w.get().popup().into_iter().map(|p| p.0).collect();
        let need = moves.first().and_then(|e| e[1].as_str()).unwrap_or("").to_string();
        if completing && !moves.is_empty() && (need == "cdown" || need == "cup") {
            if shown.is_empty() {
                continue; // nothing was pushed in this phase
            }
            if let Cm::Req { list, hl, .. } = &mut m.tab().cm {
                *hl = hl.and_then(|i| list.get(i)).and_then(|v| shown.iter().position(|x| x == v));
                *list = shown.clone();
            } else {
                continue;
            }
        }
        // tabs which might have suggestions when a key is handled
        let mut maybe: BTreeMap<usize, bool> = m.tabs.iter().map(|t| (t.ord, !t.expected(sc, w.get()).is_empty())).collect();
        let quick = sc.b("slow");
        let t_start = t;
        let evals0 = m.evals.len();
        for e in moves {
            let ev = e[1].as_str().unwrap_or("");
            if m.ended {
                break;
            }
            let ord = m.tab().ord;
            if completing && (ev == "up" || ev == "down" || ev == "esc") {
                let here = maybe.get(&ord).copied().unwrap_or(false);
                let settled = pushed.is_empty();
                if ev == "esc" {
                    if !settled {
                        continue;
                    }
                } else if here || !(settled || quick && t - t_start + e[0].as_u64().unwrap_or(0) < 200 * MS) {
                    continue;
                }
            }
            t += e[0].as_u64().unwrap_or(0);
            if completing {
                match ev {
                    "enter" => {
                        for x in &m.tabs {
                            if !matches!(x.cm, Cm::None) {
                                maybe.insert(x.ord, true);
                            }
                        }
                        maybe.insert(ord, false);
                    }
                    "left" | "right" | "cleft" | "cright" | "bs" | "s-bs" | "del" | "s-enter" | "a-enter" => drop(maybe.insert(ord, false)),
                    _ if ev.starts_with("c:") || ev.starts_with("s:") => drop(maybe.insert(ord, false)),
                    _ => (),
                }
            }
            pushed.push((t, ev.to_string()));
            m.apply(ev, sc, w.get());
            evs_total += 1;
        }
        // how long the phase may take: arrivals, evaluations, completers
        let evald: u64 = (evals0..m.evals.len()).map(|n| {
            let e = eval_script(sc, n);
            if e.b("until_cancel") { e.u("dur") + 2_600 * MS + 2 * stall } else { e.u("dur") }
        }).sum();
        let lat: u64 = (0..4).flat_map(|g| gen_script(sc, g)).flat_map(|c| c.arr("lats").iter().map(|x| x.as_u64().unwrap_or(0) + if c.b("slow") { 600 * MS + 2 * stall } else { 0 })).max().unwrap_or(0);
        let quiet = t + evald + (m.evals.len() - evals0) as u64 * 1_100 * MS + 2 * lat + 150 * MS + stall + ph.u("extra");
        for (t, ev) in &pushed {
            at = at.max(*t);
            if ev.starts_with("resize:") {
                // a terminal has its new size before it reports it
                sched::sleep_until(at.max(sched::now() + 1));
                w.get().size = dims(ev);
                count("fault:terminal-resize", 1);
            }
            crossterm::sim::push(at, terminal(ev));
            if ev == "error" {
                count("fault:terminal-read-error", 1);
            }
        }
        let quiet = quiet.max(sched::now() + (quiet - t));
        // Ctrl+x aborts an evaluation that goes on for ever: it is pressed once, some time after the start
        while sched::now() < quiet {
            sleep(((quiet - sched::now()).min(40 * MS)).max(1));
            if w.get().done.is_some() {
                break;
            }
            let n = w.get().evals.len();
            if n > 0 && w.get().evaluating {
                let e = eval_script(sc, n - 1);
                let now = sched::now();
                let t0 = w.get().evals[n - 1].t0;
                if e.b("until_cancel") && aborted < n && now >= t0 + e.u("dur") {
                    aborted = n;
                    presses += 1;
                    count("fault:abort-pressed", 1);
                    at = at.max(now);
                    crossterm::sim::push(at, terminal("c-x"));
                    w.get().evals[n - 1].press_at = Some(at);
                }
            }
        }
        presses += pushed.iter().filter(|p| p.1 == "c-x").count();
        for (i, e) in w.get().evals.iter().enumerate() {
            if let Some(p) = e.press_at {
                let late = e.cancelled_at.unwrap_or(sched::now()).saturating_sub(p);
                if late > 1_400 * MS + stall {
                    fail("abort-late", format!("phase {pi}: Ctrl+x pressed during evaluation {i} took {} ms to reach it", late / MS));
                }
            }
        }
        let cancelled = w.get().evals.iter().filter(|e| e.cancelled_at.is_some()).count();
        if cancelled > presses {
            fail("abort-spurious", format!("phase {pi}: {cancelled} evaluations were aborted, Ctrl+x was pressed {presses} times"));
        }
        check_point(w, &mut m, pi, sc);
        feature(hash_str(&format!("{} {} {:?} {} {}", m.tabs.len(), m.sel, m.tabs.get(m.sel).map(|t| (t.line.len().min(6), t.pos.min(4), std::mem::discriminant(&t.cm), t.outs.len().min(3))), m.ended, pushed.len().min(8))));
    }
    count("events", evs_total);
    count("evaluations", m.evals.len() as u64);
    count("frames_drawn", w.get().frames);
    count("frames_with_suggestions", w.get().popup_frames);
    if evs_total >= 4 {
        nontrivial();
    }
    if m.ended {
        set_phase("ending the session");
        ui.join().ok();
    }
}

/// A staggered phase: type, wait for the quick completer, move before the slow ones have answered.
fn staggered(w: World, m: &mut Model, ph: &Value, sc: &Value, at: &mut u64, evs: &mut u64) -> bool {
    let mut t = sched::now() + 100_000;
    for e in ph.arr("pre") {
        let ev = e[1].as_str().unwrap_or("");
        t += e[0].as_u64().unwrap_or(0).min(20 * MS);
        *at = (*at).max(t);
        m.apply(ev, sc, w.get());
        crossterm::sim::push(*at, terminal(ev));
        *evs += 1;
    }
    let want = gen_script(sc, m.tab().gen).first().map_or(0, |c| c.u("n").min(10)) as usize;
    if want == 0 {
        return false;
    }
    let end = t + 150 * MS + sched::sim().stall_limit();
    let inst = m.tab().inst;
    while w.get().popup().len() < want || sched::now() < t + 30 * MS {
        if sched::now() > end || w.get().dead.contains(&(inst, 0)) {
            return false; // not there in time: the phase is left out
        }
        sleep(5 * MS);
    }
    count("staggered-moves", 1);
    true
}

fn check_point(w: World, m: &mut Model, pi: usize, sc: &Value) {
    let w = w.get();
    log(|| format!("checkpoint {pi}: line {:?}", m.tabs.get(m.sel).map(|t| t.text())));
    match (&w.done, m.ended) {
        (Some(Err(e)), _) => {
            let sig = e.split('|').next().unwrap_or(e).to_string();
            fail(format!("ui-died:{sig}"), format!("phase {pi}: the interface died: {e}"))
        }
        (Some(Ok(())), false) => fail("ui-left", format!("phase {pi}: the interface ended although {} tabs are open", m.tabs.len())),
        (None, true) => fail("ui-stays", format!("phase {pi}: the last tab was closed but the session goes on; threads: {}", sched::describe())),
        _ => (),
    }
    // evaluations
    for (i, (text, ord)) in m.evals.iter().enumerate() {
        let Some(e) = w.evals.get(i) else {
            fail("eval-missing", format!("phase {pi}: evaluation {i} of {text:?} did not happen ({} did)", w.evals.len()))
        };
        if e.text != *text {
            fail("eval-text", format!("phase {pi}: evaluation {i} was given {:?}, the line submitted was {text:?}", e.text));
        }
        if e.t1 == u64::MAX {
            fail("eval-running", format!("phase {pi}: evaluation {i} is still running"));
        }
        let known = *m.ids.entry(e.id).or_insert(*ord);
        if known != *ord {
            fail("eval-tab", format!("phase {pi}: {text:?} was submitted in tab {ord} but evaluated as tab {known}"));
        }
    }
    let mut ords: Vec<usize> = m.ids.values().copied().collect();
    ords.sort();
    ords.dedup();
    if ords.len() != m.ids.len() {
        fail("eval-tab", format!("phase {pi}: two tab ids stand for the same tab: {:?}", m.ids));
    }
    if w.evals.len() > m.evals.len() {
        fail("eval-extra", format!("phase {pi}: {:?} was evaluated but not submitted", w.evals[m.evals.len()].text));
    }
    if m.ended {
        return;
    }
    if w.max_gap_eval > 1_300 * MS + sched::sim().stall_limit() {
        fail("no-redraw", format!("phase {pi}: nothing was drawn for {} ms while a command was running", w.max_gap_eval / MS));
    }
    let t = m.tabs[m.sel].clone();
    // the line
    let text = w.last_text(t.ord).map(|d| d.text.clone()).unwrap_or_default();
    if text != t.text() {
        fail("line", format!("phase {pi}: tab {} shows the line {text:?}, expected {:?}", t.ord, t.text()));
    }
    let (sw, sh) = w.gsize;
    if w.gsize != w.size {
        fail("size", format!("phase {pi}: the screen was drawn for {:?}, it is {:?}", w.gsize, w.size));
    }
    if sw >= 60 && sh >= 12 {
        // selected tab
        if m.tabs.len() <= 6 {
            let bar = w.row(0, 0, sw);
            let n = bar.matches("Tab ").count();
            if n != m.tabs.len() {
                fail("tab-bar", format!("phase {pi}: {n} tabs are shown, {} are open: {bar:?}", m.tabs.len()));
            }
            let chars: Vec<char> = bar.chars().collect();
            let x = chars.iter().enumerate().find(|(x, c)| **c == 'T' && w.cell(*x as u16, 0).1.add_modifier.contains(Modifier::UNDERLINED)).map(|p| p.0);
            let sel: Option<usize> = x.and_then(|x| chars[x + 4..].iter().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok());
            if sel != Some(m.sel + 1) {
                fail("tab-selected", format!("phase {pi}: tab {sel:?} is marked as selected, expected {}", m.sel + 1));
            }
        }
        let title = w.row(1, 0, sw);
        if !title.contains(&t.title) {
            fail("title", format!("phase {pi}: the title is {title:?}, expected {:?}", t.title));
        }
        let plain = |s: &str| s.chars().all(|c| (' '..='~').contains(&c));
        let whole = t.text();
        let pw = t.prompt.chars().count() as u16;
        // the line and the cursor on the screen, where no wrapping or wide characters are involved
        if plain(&whole) && plain(&t.prompt) && (whole.len() as u16) < sw.saturating_sub(pw + 4) {
            let r = w.row(2, 1, sw - 1);
            let want = format!("{}{}", t.prompt, whole);
            if r.trim_end() != want.trim_end() {
                fail("screen-line", format!("phase {pi}: the screen shows {r:?}, expected {want:?}"));
            }
            let c = (1 + pw + t.pos as u16, 2);
            if w.cursor != c {
                fail("screen-cursor", format!("phase {pi}: the cursor is shown at {:?}, expected {c:?} in {whole:?}", w.cursor));
            }
        }
        // suggestions
        let pop = w.popup();
        let exp = t.expected(sc, w);
        if w.check_popups && t.cm != Cm::Unknown {
            let mut all: Vec<String> = exp.iter().flatten().cloned().collect();
            let mut got: Vec<String> = pop.iter().map(|p| p.0.clone()).collect();
            // each completer's suggestions in its order
            for e in &exp {
                let o: Vec<&String> = got.iter().filter(|v| e.contains(v)).collect();
                if o.len() == e.len() && !o.iter().zip(e).all(|(a, b)| *a == b) {
                    fail("popup-order", format!("phase {pi}: suggestions are shown as {o:?}"));
                }
            }
            if let Cm::Req { hl, list, .. } = &t.cm {
                let h = pop.iter().find(|p| p.1).map(|p| p.0.clone());
                if h != hl.and_then(|i| list.get(i).cloned()) {
                    fail("popup-highlight", format!("phase {pi}: {h:?} is highlighted, expected {hl:?} of {list:?}"));
                }
            }
            all.sort();
            got.sort();
            if all != got {
                let (a, b): (Vec<_>, Vec<_>) = (all.iter().filter(|x| !got.contains(x)).collect(), got.iter().filter(|x| !all.contains(x)).collect());
                if !b.is_empty() {
                    fail("popup-extra", format!("phase {pi}: with the line {whole:?} the suggestions {b:?} are shown, expected only {} for the last request", all.len()));
                }
                fail("popup-missing", format!("phase {pi}: with the line {whole:?} the suggestions {a:?} are not shown ({} are)", got.len()));
            }
            // every completer was asked about exactly this
            if let Cm::Req { text, cursor, word, .. } = &t.cm {
                for who in (0..gen_script(sc, t.gen).len()).filter(|x| !w.dead.contains(&(t.inst, *x))) {
                    if !w.calls.iter().any(|c| c.0 == t.gen && c.1 == who && c.2 == *text && c.3 == *cursor && c.4 == *word) {
                        fail("not-asked", format!("phase {pi}: completer {who} was not asked about {text:?} cursor {cursor} word {word}"));
                    }
                }
            }
        }
        // outputs, newest first
        // a long line leaves them no room
        let rows = 1 + whole.matches('\n').count() + 2 * whole.chars().count() / (sw.saturating_sub(pw + 4) as usize).max(1);
        if pop.is_empty() && !m.help && (whole.chars().count() < 60 || rows + 6 < sh as usize) {
            let simple = t.outs.iter().all(|o| lines(o).iter().all(|l| plain(l) && l.len() + 6 < sw as usize));
            if simple {
                let Some(y0) = w.find_row(" Outputs ") else { fail("outputs", format!("phase {pi}: no outputs are shown")) };
                let want: Vec<&str> = t.outs.iter().rev().take(100).flat_map(|o| lines(o)).collect();
                let got: Vec<String> = (y0 + 1..sh.saturating_sub(1)).map(|y| w.row(y, 1, sw - 2).trim_end().to_string()).collect();
                let differs = |scroll: usize| {
                    (0..got.len()).find(|y| got[*y] != want.get(scroll + y).copied().unwrap_or("").trim_end()).map(|y| (y, scroll))
                };
                // after a change of the width the position is any within the log
                let bad = match t.scroll {
                    Some(s) => differs(s),
                    None => (0..want.len().max(1)).map(differs).find(|d| d.is_none()).unwrap_or(Some((0, 0))),
                };
                if let Some((y, scroll)) = bad {
                    fail(
                        "outputs",
                        format!(
                            "phase {pi}: output row {y} (scrolled by {scroll}, known: {:?}, {} outputs) is {:?}, expected {:?}",
                            t.scroll,
                            t.outs.len(),
                            got[y],
                            want.get(scroll + y)
                        ),
                    );
                }
            }
        }
    }
}
