//! An editor with the server on the other end: the real server runs in a simulated thread, the
//! transport's two channels are held here. A second thread takes the answers as they come.
use kit::serde_json::{json, Value as Js};
use kit::simrt::sched;
use kit::*;
use lsp_server::{Message, Notification, Request, RequestId, Response};
use ogma_ls::Workspace;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::OnceLock;

pub const MS: u64 = 1_000_000;

static WSP: OnceLock<Workspace> = OnceLock::new();
pub fn warm() {
    WSP.get_or_init(Workspace::init);
}
/// A workspace with the built in definitions alone.
pub fn plain() -> &'static Workspace {
    WSP.get().unwrap()
}

pub struct Seen {
    pub answers: Vec<(u64, Response)>,
    pub others: Vec<String>,
    pub down: bool,
    /// delay before each take, from this list, then none
    pub slow: Vec<u64>,
    pub served: bool,
}

pub struct Editor {
    tx: Option<kit_libs::Sender<Message>>,
    pub seen: &'static Shared<Seen>,
    pub next: i32,
    pub sent: BTreeMap<String, String>,
}
/// `libs` re-exports crossbeam.
pub mod kit_libs {
    pub use libs::crossbeam::channel::{Receiver, Sender};
}

pub fn id_key(id: &RequestId) -> String {
    kit::serde_json::to_string(id).unwrap()
}

impl Editor {
    pub fn start(paths: Vec<PathBuf>, slow: Vec<u64>) -> Editor {
        let seen = Shared::leak(Seen { answers: vec![], others: vec![], down: false, slow, served: false });
        let (tx, rx) = lsp_server::sim_client();
        std::thread::Builder::new()
            .name("server".into())
            .spawn(move || {
                ogma_ls::server::run(paths);
                seen.get().served = true;
            })
            .unwrap();
        std::thread::Builder::new()
            .name("answers".into())
            .spawn(move || loop {
                if !seen.get().slow.is_empty() {
                    let d = seen.get().slow.remove(0);
                    if d > 0 {
                        count("fault:slow-client", 1);
                        sched::sleep_ns(d);
                    }
                }
                match rx.recv() {
                    Ok(Message::Response(r)) => {
                        log(|| format!("answer {} {}", id_key(&r.id), r.error.as_ref().map_or("ok".into(), |e| format!("error {}", e.code))));
                        seen.get().answers.push((sched::now(), r));
                    }
                    Ok(m) => seen.get().others.push(kit::serde_json::to_string(&m).unwrap()),
                    Err(_) => {
                        seen.get().down = true;
                        break;
                    }
                }
            })
            .unwrap();
        Editor { tx: Some(tx), seen, next: 0, sent: BTreeMap::new() }
    }
    pub fn raw(&mut self, m: Message) {
        let what = kit::serde_json::to_string(&m).unwrap();
        log(|| format!("send {}", what.chars().take(300).collect::<String>()));
        if let Some(tx) = &self.tx {
            if tx.send(m).is_err() {
                fail("the server stopped taking messages", format!("{what} could not be sent: the server has ended; panics: {}", panics_text()));
            }
        }
    }
    pub fn notify(&mut self, method: &str, params: Js) {
        self.raw(Notification::new(method.into(), params).into());
    }
    pub fn request_as(&mut self, id: RequestId, method: &str, params: Js) -> String {
        let k = id_key(&id);
        self.sent.insert(k.clone(), method.into());
        self.raw(Request::new(id, method.into(), params).into());
        k
    }
    pub fn request(&mut self, method: &str, params: Js) -> String {
        self.next += 1;
        self.request_as(RequestId::from(self.next), method, params)
    }
    pub fn answers_to(&self, id: &str) -> Vec<&Response> {
        self.seen.get().answers.iter().filter(|(_, r)| id_key(&r.id) == id).map(|(_, r)| r).collect()
    }
    pub fn answer(&self, id: &str) -> Option<&Response> {
        self.answers_to(id).into_iter().next()
    }
    /// Wait until every request sent has an answer.
    pub fn settle(&mut self, ms: u64) {
        let until = sched::now() + ms * MS;
        loop {
            let seen: std::collections::BTreeSet<String> = self.seen.get().answers.iter().map(|(_, r)| id_key(&r.id)).collect();
            let open: Vec<(&String, &String)> = self.sent.iter().filter(|(k, _)| !seen.contains(*k)).collect();
            if open.is_empty() {
                return;
            }
            if sched::now() >= until {
                let (k, m) = open[0];
                fail(
                    "a request is not answered",
                    format!("request {k} ({m}) and {} others had no answer {ms} ms after the last message; panics: {}", open.len() - 1, panics_text()),
                );
            }
            sched::sleep_ns(MS);
        }
    }
    /// Hang up and wait for the server to end.
    pub fn hang_up(&mut self) {
        self.tx = None;
        for _ in 0..60_000 {
            if self.seen.get().served {
                return;
            }
            sched::sleep_ns(MS);
        }
        fail("the server does not end", "60 s after the client hung up the server still runs");
    }
    pub fn open(&mut self, url: &str, version: i64, text: &str) {
        self.notify("textDocument/didOpen", json!({"textDocument": {"uri": url, "languageId": "ogma", "version": version, "text": text}}));
    }
    pub fn save(&mut self, url: &str) {
        self.notify("textDocument/didSave", json!({"textDocument": {"uri": url}}));
    }
    pub fn at(&mut self, what: &str, url: &str, l: u64, c: u64) -> String {
        self.request(&format!("textDocument/{what}"), json!({"textDocument": {"uri": url}, "position": {"line": l, "character": c}}))
    }
}

// ------------------------------------------------------------------ text
/// The text as an editor sees it.
pub struct Lines<'a>(Vec<&'a str>);
/// (start, end without the line end) of every line; a text ending in a line end has an empty last line.
pub fn line_spans(t: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut s = 0;
    for (i, b) in t.bytes().enumerate() {
        if b == b'\n' {
            let e = if i > s && t.as_bytes()[i - 1] == b'\r' { i - 1 } else { i };
            v.push((s, e));
            s = i + 1;
        }
    }
    v.push((s, t.len()));
    v
}
impl<'a> Lines<'a> {
    pub fn of(t: &'a str) -> Self {
        Lines(line_spans(t).into_iter().map(|(a, b)| &t[a..b]).collect())
    }
    /// The text of the definition or expression around a line, and the line's place in it.
    pub fn part(&self, line: usize) -> (String, usize) {
        let mut ls = self.0.clone();
        if ls.last() == Some(&"") {
            ls.pop();
        }
        let blank = |s: &str| s.trim().is_empty();
        let mut a = line.min(ls.len());
        while a > 0 && !blank(ls[a - 1]) {
            a -= 1;
        }
        while a < line && a < ls.len() && ls[a].starts_with('#') {
            a += 1;
        }
        let mut b = line + 1;
        while b < ls.len() && !blank(ls[b]) {
            b += 1;
        }
        let b = b.min(ls.len());
        let mut s = String::new();
        for l in ls.get(a..b).unwrap_or(&[]) {
            s.push_str(l);
            s.push('\n');
        }
        (s, line - a)
    }
}
/// Byte place of a UTF-16 column, moved to the line's end when beyond; `None` inside a pair.
pub fn col(line: &str, c: u64) -> Option<usize> {
    let mut n = 0;
    for (i, ch) in line.char_indices() {
        if n == c {
            return Some(i);
        }
        if n > c {
            return None;
        }
        n += ch.len_utf16() as u64;
    }
    (n <= c).then_some(line.len())
}
/// Byte place in a text, and the column used (never inside a pair).
pub fn place(t: &str, l: u64, c: u64) -> (usize, u64) {
    match line_spans(t).get(l as usize) {
        None => (t.len(), c),
        Some(&(a, b)) => match col(&t[a..b], c) {
            Some(i) => (a + i, c),
            None => (a + col(&t[a..b], c - 1).unwrap(), c - 1),
        },
    }
}
