//! One user in front of the real shell: keys in, screen out.
use crate::screen::Screen;
use crossterm::event::{Event, KeyCode, KeyEvent, KeyModifiers as M};
use kit::simrt::{self, sched};
use kit::*;
use std::path::PathBuf;
use std::time::Duration;

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000 * MS;

pub struct Sess {
    pub scr: Screen,
    pub last_out: u64,
    computing: bool,
    /// longest time without a redraw while a command was running, since last reset
    pub gap: u64,
    done: &'static Shared<Option<Result<(), String>>>,
    pub prompt: String,
    marks: u64,
    at: u64,
}
impl Sess {
    pub fn start(root: &str, defs: &[String], size: (u16, u16)) -> Sess {
        unsafe { simrt::posix::WINSIZE = size };
        let done = Shared::leak(None);
        let mut sh = ogma_shell::OgmaShell::init(PathBuf::from(root)).title("«sim»".into());
        for d in defs {
            sh = sh.defs_file_path(d);
        }
        std::thread::Builder::new()
            .name("user-interface".into())
            .spawn(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sh.run()));
                *done.get() = Some(match r {
                    Ok(Ok(())) => Ok(()),
                    Ok(Err(e)) => Err(e.to_string()),
                    Err(_) => Err("panic".into()),
                });
            })
            .unwrap();
        let mut s = Sess { scr: Screen::new(size.0 as usize, size.1 as usize), last_out: 0, computing: false, gap: 0, done, prompt: String::new(), marks: 0, at: 0 };
        if !s.wait(5 * SEC, |s| s.input().is_some()) {
            s.down("start");
        }
        s
    }
    pub fn ended(&self) -> Option<&Result<(), String>> {
        self.done.get().as_ref()
    }
    /// The shell did not do what was due: say why.
    pub fn down(&mut self, what: &str) -> ! {
        self.pump();
        let sig = match self.ended() {
            Some(_) => match panics().iter().find(|p| p.thread == "user-interface") {
                Some(p) => format!("session ended by a panic: {}", panic_sig(p)),
                None => format!("session ended at {what}"),
            },
            None => format!("stuck: {what}"),
        };
        let t = sched::describe();
        fail(sig, format!("{what}: ended={:?} now={} ms last redraw {} ms\n{}\npanics: {}\n{t}", self.ended(), sched::now() / MS, self.last_out / MS, self.scr.text(), panics_text()))
    }
    pub fn pump(&mut self) -> bool {
        let b = simrt::take_stdout();
        let now = sched::now();
        if self.computing {
            self.gap = self.gap.max(now - self.last_out);
        }
        if b.is_empty() {
            return false;
        }
        self.last_out = now;
        self.scr.feed(&b);
        self.computing = self.busy();
        true
    }
    pub fn wait(&mut self, limit: u64, mut f: impl FnMut(&mut Sess) -> bool) -> bool {
        let end = sched::now() + limit;
        loop {
            let new = self.pump();
            if (new || self.at != self.last_out) && self.scr.whole && f(self) {
                return true;
            }
            if sched::now() >= end || self.ended().is_some() {
                self.pump();
                return f(self);
            }
            std::thread::sleep(Duration::from_millis(20));
        }
    }
    pub fn idle(&mut self, ns: u64) {
        let end = sched::now() + ns;
        while sched::now() < end && self.ended().is_none() {
            self.pump();
            std::thread::sleep(Duration::from_nanos((end - sched::now()).min(20 * MS)));
        }
        self.pump();
    }
    pub fn key(&self, c: KeyCode, m: M) {
        crossterm::sim::push(sched::now(), Ok(Event::Key(KeyEvent::new(c, m))));
    }
    pub fn alt(&self, c: char) {
        self.key(KeyCode::Char(c), M::ALT)
    }
    pub fn ctrl(&self, c: char) {
        self.key(KeyCode::Char(c), M::CONTROL)
    }
    pub fn text(&self, s: &str) {
        for c in s.chars() {
            self.key(KeyCode::Char(c), if c.is_uppercase() { M::SHIFT } else { M::NONE });
        }
    }
    pub fn enter(&self) {
        self.key(KeyCode::Enter, M::NONE)
    }
    /// Row of the input line: the one below the title.
    fn input_y(&self) -> Option<usize> {
        (0..self.scr.h).find(|&y| self.scr.row(y).contains("«sim»")).map(|y| y + 1)
    }
    /// Prompt and line.
    pub fn input(&self) -> Option<String> {
        let r = self.scr.row(self.input_y()?);
        Some(unframe(&r).to_string())
    }
    pub fn busy(&self) -> bool {
        self.input().map_or(false, |s| s.contains("computing... ("))
    }
    /// The outputs, newest first, each as lines.
    pub fn outputs(&self) -> Vec<Vec<String>> {
        let mut v: Vec<Vec<String>> = vec![];
        let Some(y0) = (0..self.scr.h).find(|&y| self.scr.row(y).contains(" Outputs ")) else { return v };
        for y in y0 + 1..self.scr.h {
            let r = self.scr.row(y);
            if r.starts_with(['└', '╰', '┗', '╚']) {
                break;
            }
            let r = unframe(&r).to_string();
            if r.starts_with(">> ") || r == ">>" {
                v.push(vec![r]);
            } else if let Some(l) = v.last_mut() {
                l.push(r);
            }
        }
        v.iter_mut().for_each(|l| {
            while l.len() > 1 && l.last().unwrap().is_empty() {
                l.pop();
            }
        });
        v
    }
    /// Enter a marker and wait for its result at the top of the outputs.
    pub fn mark(&mut self, limit: u64) -> bool {
        self.marks += 1;
        let m = format!("mk{}x", self.marks);
        self.text(&format!("\\ '{m}'"));
        self.enter();
        self.wait(limit, |s| !s.busy() && s.outputs().first().map_or(false, |o| o.get(1).map_or(false, |l| l.trim() == m)))
    }
    /// Run a command; its output lines (without the header).
    pub fn run(&mut self, cmd: &str, limit: u64) -> Vec<String> {
        self.text(cmd);
        self.enter();
        if !self.mark(limit) {
            self.down(&format!("`{cmd}` and the next command have not come to an end"));
        }
        let o = self.outputs();
        let Some(l) = o.get(1) else { self.down("no output") };
        log(|| format!("`{cmd}` -> {l:?}  [{}]", self.input().unwrap_or_default()));
        if l[0].trim_end() != format!(">> {cmd}").trim_end() {
            fail("output of another command", format!("expected the output of `{cmd}`, the log shows {:?}\n{}", l, self.scr.text()));
        }
        l[1..].to_vec()
    }
}

fn unframe(r: &str) -> &str {
    r.trim_matches(['│', '┃', '║']).trim_end()
}
