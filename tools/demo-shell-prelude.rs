use super::*;
use std::collections::VecDeque as Deq;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tui::backend::TestBackend;
use tui::buffer::Cell;

#[derive(Clone, Default)]
pub struct Keys(Arc<Mutex<Deq<Event>>>);
impl Iterator for Keys {
    type Item = Event;
    fn next(&mut self) -> Option<Event> {
        self.0.lock().unwrap().pop_front()
    }
}
impl Keys {
    pub fn key(&self, code: KeyCode, mods: KeyModifiers) {
        self.0.lock().unwrap().push_back(Event::Key { code, mods });
    }
    /// All of them arrive in one batch.
    pub fn batch(&self, ks: &[(KeyCode, KeyModifiers)]) {
        let mut q = self.0.lock().unwrap();
        for &(code, mods) in ks {
            q.push_back(Event::Key { code, mods });
        }
    }
    pub fn text(&self, s: &str) {
        for c in s.chars() {
            self.key(KeyCode::Char(c), NOMOD);
        }
    }
    pub fn plain(&self, code: KeyCode) {
        self.key(code, NOMOD);
    }
    pub fn resize(&self) {
        self.0.lock().unwrap().push_back(Event::Resize);
    }
}
/// A terminal whose screen and size are shared with the demonstration.
#[derive(Clone)]
pub struct Screen(Arc<Mutex<(u16, u16, Vec<String>)>>);
impl Screen {
    pub fn new(w: u16, h: u16) -> Screen {
        Screen(Arc::new(Mutex::new((w, h, vec![" ".into(); w as usize * h as usize]))))
    }
    pub fn size_to(&self, w: u16, h: u16) {
        *self.0.lock().unwrap() = (w, h, vec![" ".into(); w as usize * h as usize]);
    }
    pub fn row(&self, y: u16) -> String {
        let s = self.0.lock().unwrap();
        if y >= s.1 {
            return String::new();
        }
        s.2[y as usize * s.0 as usize..(y as usize + 1) * s.0 as usize].concat()
    }
    pub fn rows(&self) -> Vec<String> {
        let h = self.0.lock().unwrap().1;
        (0..h).map(|y| self.row(y)).collect()
    }
    pub fn has(&self, t: &str) -> bool {
        self.rows().iter().any(|r| r.contains(t))
    }
}
impl Backend for Screen {
    fn draw<'a, I>(&mut self, content: I) -> Result<(), io::Error>
    where
        I: Iterator<Item = (u16, u16, &'a Cell)>,
    {
        let mut s = self.0.lock().unwrap();
        let (w, h) = (s.0, s.1);
        for (x, y, c) in content {
            if x < w && y < h {
                s.2[y as usize * w as usize + x as usize] = c.symbol.clone();
            }
        }
        Ok(())
    }
    fn hide_cursor(&mut self) -> Result<(), io::Error> {
        Ok(())
    }
    fn show_cursor(&mut self) -> Result<(), io::Error> {
        Ok(())
    }
    fn get_cursor(&mut self) -> Result<(u16, u16), io::Error> {
        Ok((0, 0))
    }
    fn set_cursor(&mut self, _: u16, _: u16) -> Result<(), io::Error> {
        Ok(())
    }
    fn clear(&mut self) -> Result<(), io::Error> {
        for c in &mut self.0.lock().unwrap().2 {
            *c = " ".into();
        }
        Ok(())
    }
    fn size(&self) -> Result<Rect, io::Error> {
        let s = self.0.lock().unwrap();
        Ok(Rect::new(0, 0, s.0, s.1))
    }
    fn flush(&mut self) -> Result<(), io::Error> {
        Ok(())
    }
}
pub fn wait(ms: u64) {
    std::thread::sleep(Duration::from_millis(ms));
}
/// Runs the interface in a thread; the handle says how it ended.
pub fn start<C: FnMut() -> Config + Send + 'static>(k: &Keys, s: &Screen, c: C) -> std::thread::JoinHandle<bool> {
    let (k, s) = (k.clone(), s.clone());
    std::thread::spawn(move || run(k, s, c).is_ok())
}
/// A completer which takes its time and names its input in its answers.
pub struct Slow(pub &'static str, pub usize, pub Box<dyn Fn(&str) -> u64 + Send>);
impl Completer for Slow {
    fn complete(&self, text: &str, cursor: usize, word: usize) -> Vec<Completion> {
        wait((self.2)(text));
        (0..self.1).map(|i| Completion { value: format!("{}{i}<{text}>", self.0), ty: CompletionType::Literal }).collect()
    }
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("FAILED: {what}");
        std::process::exit(1);
    }
}
