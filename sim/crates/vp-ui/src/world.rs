//! The simulated outside of the interface: terminal, completers, evaluator.
use crate::interface::*;
use kit::simrt::sched;
use kit::{J, *};
use kit::serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use std::io;
use std::time::Duration;
use tui::{backend::Backend, buffer::Cell, layout::Rect, style::*};

pub const MS: u64 = 1_000_000;

#[derive(Clone)]
pub struct Decor {
    pub t: u64,
    pub tab: usize,
    pub text: String,
    pub pos: usize,
}
#[derive(Clone)]
pub struct EvalRec {
    pub text: String,
    pub id: u64,
    pub t0: u64,
    pub t1: u64,
    pub cancelled_at: Option<u64>,
    pub press_at: Option<u64>,
}
#[derive(Clone)]
pub struct Req {
    pub text: String,
    pub cursor: usize,
    pub word: usize,
    pub values: Vec<String>,
}
pub struct W {
    pub sc: Value,
    pub size: (u16, u16),
    pub grid: Vec<(String, Style)>,
    pub gsize: (u16, u16),
    pub cursor: (u16, u16),
    pub frames: u64,
    pub frame_t: u64,
    pub decor: Vec<Decor>,
    pub evals: Vec<EvalRec>,
    pub evaluating: bool,
    pub tabs_made: usize,
    pub reqs: HashMap<String, Req>,
    pub calls: Vec<(usize, usize, String, usize, usize, u64)>,
    pub done: Option<Result<(), String>>,
    pub check_popups: bool,
    pub popup_frames: u64,
    pub max_gap_eval: u64,
    /// completers (by instance and number) whose thread was ended by a panic
    pub dead: std::collections::BTreeSet<(usize, usize)>,
}
pub type World = &'static Shared<W>;

pub fn new_world(sc: &Value) -> World {
    let size = (sc["size"][0].as_u64().unwrap_or(120) as u16, sc["size"][1].as_u64().unwrap_or(40) as u16);
    Shared::leak(W {
        sc: sc.clone(),
        size,
        grid: vec![],
        gsize: (0, 0),
        cursor: (0, 0),
        frames: 0,
        frame_t: 0,
        decor: vec![],
        evals: vec![],
        evaluating: false,
        tabs_made: 0,
        reqs: HashMap::new(),
        calls: vec![],
        done: None,
        check_popups: true,
        popup_frames: 0,
        max_gap_eval: 0,
        dead: Default::default(),
    })
}

impl W {
    pub fn row(&self, y: u16, x0: u16, x1: u16) -> String {
        let (w, h) = self.gsize;
        if y >= h {
            return String::new();
        }
        (x0..x1.min(w)).map(|x| self.grid[y as usize * w as usize + x as usize].0.as_str()).collect()
    }
    pub fn cell(&self, x: u16, y: u16) -> &(String, Style) {
        &self.grid[y as usize * self.gsize.0 as usize + x as usize]
    }
    pub fn find_row(&self, what: &str) -> Option<u16> {
        (0..self.gsize.1).find(|&y| self.row(y, 0, self.gsize.0).contains(what))
    }
    pub fn dump(&self) -> String {
        (0..self.gsize.1).map(|y| self.row(y, 0, self.gsize.0).trim_end().to_string() + "\n").collect::<String>()
    }
    /// The text the interface last decorated for a tab.
    pub fn last_text(&self, tab: usize) -> Option<&Decor> {
        self.decor.iter().rev().find(|d| d.tab == tab)
    }
    /// Suggestions on the screen below the input line, top to bottom: (value, highlighted).
    pub fn popup(&self) -> Vec<(String, bool)> {
        let mut v = vec![];
        for y in 3..self.gsize.1 {
            let r = self.row(y, 0, self.gsize.0);
            if let Some(i) = r.find('«') {
                if let Some(j) = r[i..].find('»') {
                    let val = r[i..i + j + '»'.len_utf8()].to_string();
                    let x = r[..i].chars().count() as u16;
                    let hl = matches!(self.cell(x, y).1.bg, Some(Color::Cyan | Color::LightCyan));
                    v.push((val, hl));
                }
            }
        }
        v
    }
}

// ------------------------------------------------------------------ terminal
pub struct Rec(pub World);
impl Rec {
    fn fit(&self) {
        let w = self.0.get();
        if w.gsize != w.size {
            w.gsize = w.size;
            w.grid = vec![(" ".into(), Style::default()); w.size.0 as usize * w.size.1 as usize];
        }
    }
}
impl Backend for Rec {
    fn draw<'a, I>(&mut self, content: I) -> Result<(), io::Error>
    where
        I: Iterator<Item = (u16, u16, &'a Cell)>,
    {
        self.fit();
        let w = self.0.get();
        let (sw, sh) = w.gsize;
        for (x, y, c) in content {
            // the terminal may have shrunk between layout and output: a real one clips as well
            if x < sw && y < sh {
                w.grid[y as usize * sw as usize + x as usize] = (c.symbol.clone(), c.style());
            }
        }
        Ok(())
    }
    fn hide_cursor(&mut self) -> Result<(), io::Error> {
        Ok(())
    }
    fn show_cursor(&mut self) -> Result<(), io::Error> {
        Ok(())
    }
    fn get_cursor(&mut self) -> Result<(u16, u16), io::Error> {
        Ok(self.0.get().cursor)
    }
    fn set_cursor(&mut self, x: u16, y: u16) -> Result<(), io::Error> {
        self.0.get().cursor = (x, y);
        Ok(())
    }
    fn clear(&mut self) -> Result<(), io::Error> {
        self.fit();
        for c in &mut self.0.get().grid {
            *c = (" ".into(), Style::default());
        }
        Ok(())
    }
    fn size(&self) -> Result<Rect, io::Error> {
        sched::sync_point();
        let (w, h) = self.0.get().size;
        Ok(Rect::new(0, 0, w, h))
    }
    fn flush(&mut self) -> Result<(), io::Error> {
        sched::sync_point();
        let w = self.0.get();
        let now = sched::now();
        if w.evaluating && w.frame_t > 0 {
            let since = now - w.frame_t.max(w.evals.last().map_or(0, |e| e.t0));
            w.max_gap_eval = w.max_gap_eval.max(since);
        }
        w.frames += 1;
        w.frame_t = now;
        crate::model::on_frame(w);
        Ok(())
    }
}

// ------------------------------------------------------------------ completers
pub struct Scripted {
    pub w: World,
    pub gen: usize,
    pub who: usize,
    pub lats: Vec<u64>,
    pub n: usize,
    pub calls: Shared<usize>,
    pub inst: usize,
    pub slow: bool,
    pub panic_at: Option<usize>,
}
pub fn value_of(gen: usize, who: usize, k: usize, text: &str, cursor: usize, word: usize) -> String {
    let h = hash_str(&format!("{text}\u{1}{cursor}\u{1}{word}")) & 0xff_ffff;
    format!("«{gen}:{who}:{k}:{h:x}»")
}
impl Completer for Scripted {
    fn complete(&self, text: &str, cursor: usize, word: usize) -> Vec<Completion> {
        let i = *self.calls.get();
        *self.calls.get() += 1;
        let w = self.w.get();
        if self.panic_at == Some(i) {
            w.dead.insert((self.inst, self.who));
            count("fault:completer-panic", 1);
            panic!("scripted completer panic");
        }
        w.calls.push((self.gen, self.who, text.into(), cursor, word, sched::now()));
        let values: Vec<String> = (0..self.n).map(|k| value_of(self.gen, self.who, k, text, cursor, word)).collect();
        for v in &values {
            w.reqs.insert(v.clone(), Req { text: text.into(), cursor, word, values: values.clone() });
        }
        if !self.lats.is_empty() {
            let l = self.lats[i % self.lats.len()];
            let l = if self.slow { l + 600 * MS + 2 * sched::sim().stall_limit() } else { l };
            if l > 0 {
                std::thread::sleep(Duration::from_nanos(l));
            }
        }
        log(|| format!("completer {}.{} answers about {text:?} {cursor} with {}", self.gen, self.who, values.len()));
        values.into_iter().map(|value| Completion { value, ty: CompletionType::Type }).collect()
    }
}
/// Completer scripts of generation `gen` (generations wrap around).
pub fn gen_script(sc: &Value, gen: usize) -> &[Value] {
    let g = sc.arr("completers");
    if g.is_empty() {
        &[]
    } else {
        g[gen % g.len()].as_array().map(|a| &a[..]).unwrap_or(&[])
    }
}
pub fn completers(w: World, gen: usize, inst: usize) -> Vec<Box<dyn Completer>> {
    gen_script(&w.get().sc, gen)
        .iter()
        .enumerate()
        .map(|(who, c)| {
            Box::new(Scripted {
                w,
                gen,
                who,
                lats: c.arr("lats").iter().map(|x| x.as_u64().unwrap_or(0)).collect(),
                n: c.u("n") as usize,
                calls: Shared::new(0),
                inst,
                slow: c.b("slow"),
                panic_at: c["panic_at"].as_u64().map(|x| x as usize),
            }) as Box<dyn Completer>
        })
        .collect()
}

// ------------------------------------------------------------------ configuration
/// The behaviour of the n-th evaluation.
pub fn eval_script(sc: &Value, n: usize) -> Value {
    let e = sc.arr("evals");
    if e.is_empty() {
        Value::Null
    } else {
        e[n % e.len()].clone()
    }
}
pub fn out_text(sc: &Value, n: usize) -> Option<String> {
    let e = eval_script(sc, n);
    e["out"].as_str().map(|s| s.replace('#', &format!("{n}")))
}

pub fn config(w: World) -> Config {
    let tab = w.get().tabs_made;
    w.get().tabs_made += 1;
    let decor = move |text: String, pos: usize| {
        let d = Decor { t: sched::now(), tab, text: text.clone(), pos };
        log(|| format!("draws line {text:?} cursor {pos} in tab {tab}"));
        w.get().decor.push(d);
        if text.is_char_boundary(pos) && pos <= text.len() {
            text
        } else {
            fail("cursor-byte", format!("the cursor position {pos} given with {text:?} is not a character boundary"))
        }
    };
    let enter = move |text: String, id: TabId, cancel: Cancelled| {
        let n = w.get().evals.len();
        let e = eval_script(&w.get().sc, n);
        log(|| format!("evaluates {text:?} in tab id {id:x}: {e}"));
        w.get().evals.push(EvalRec { text, id, t0: sched::now(), t1: u64::MAX, cancelled_at: None, press_at: None });
        w.get().evaluating = true;
        let end = sched::now() + e.u("dur");
        let until_cancel = e.b("until_cancel");
        loop {
            let on = is_on(&cancel);
            if on && w.get().evals[n].cancelled_at.is_none() {
                w.get().evals[n].cancelled_at = Some(sched::now());
                log(|| "evaluation sees the abort".into());
            }
            if on && until_cancel {
                break;
            }
            if sched::now() >= end && !until_cancel {
                break;
            }
            let left = if until_cancel { 50 * MS } else { (end - sched::now()).min(50 * MS) };
            std::thread::sleep(Duration::from_nanos(left.max(1)));
        }
        w.get().evals[n].t1 = sched::now();
        w.get().evaluating = false;
        log(|| "evaluation ends".into());
        match e.s("panic") {
            "str" => panic!("scripted panic"),
            "string" => std::panic::panic_any(format!("scripted panic {n}")),
            "other" => std::panic::panic_any(n),
            _ => (),
        }
        ConfigUpdate {
            new_title: e["title"].as_str().map(|s| s.to_string()),
            new_prompt: e["prompt"].as_str().map(|s| s.to_string()),
            new_completions: if e["newc"].is_u64() { Some(Completions::new(completers(w, e.u("newc") as usize, 1000 + n))) } else { None },
            add_output: out_text(&w.get().sc, n),
        }
    };
    Config {
        title: format!(" T{tab} "),
        prompt: "> ".into(),
        decorate_input: Box::new(decor),
        on_enter_press: Box::new(enter),
        completers: completers(w, 0, tab),
    }
}
fn is_on(c: &Cancelled) -> bool {
    c.is_on()
}
