#![allow(unused, dead_code)]
use ogma::lang::{ast::Location, Definitions, Value};
use std::{
    path::{Path, PathBuf},
    sync::{mpsc, Arc, Mutex},
    time::{Duration, Instant},
};
/// Exits 1 unless it holds.
fn check(ok: bool, what: &str) {
    if !ok {
        println!("does not hold: {what}");
        std::process::exit(1);
    }
}
fn wait(ms: u64) {
    std::thread::sleep(Duration::from_millis(ms));
}
fn here() -> PathBuf {
    std::env::current_dir().unwrap()
}
fn eval(src: &str) -> Result<Value, ogma::Error> {
    eval_with(src, &Definitions::new())
}
fn eval_with(src: &str, defs: &Definitions) -> Result<Value, ogma::Error> {
    ogma::rt::process_expression((), src, Location::Shell, defs, &here(), &here())
}
fn text(v: &Result<Value, ogma::Error>) -> String {
    match v {
        Ok(Value::Str(s)) => s.to_string(),
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("error: {e}"),
    }
}
fn put(f: &str, s: impl AsRef<[u8]>) {
    if let Some(p) = Path::new(f).parent() {
        std::fs::create_dir_all(p).unwrap();
    }
    std::fs::write(f, s).unwrap();
}
/// A client of the language server, in this process.
mod ls {
    use super::*;
    use lsp_server::*;
    use serde_json::{json, Value as Js};
    pub struct Client {
        tx: Option<libs::crossbeam::channel::Sender<Message>>,
        got: Arc<Mutex<Vec<Response>>>,
        n: i32,
    }
    pub fn start(files: &[&str]) -> Client {
        let (tx, rx) = sim_client();
        let v: Vec<PathBuf> = files.iter().map(PathBuf::from).collect();
        std::thread::spawn(move || ogma_ls::server::run(v));
        let got = Arc::new(Mutex::new(vec![]));
        let g = got.clone();
        std::thread::spawn(move || {
            for m in rx {
                if let Message::Response(r) = m {
                    g.lock().unwrap().push(r);
                }
            }
        });
        Client { tx: Some(tx), got, n: 0 }
    }
    impl Client {
        pub fn notify(&mut self, m: &str, p: Js) {
            if self.tx.as_ref().unwrap().send(Notification::new(m.into(), p).into()).is_err() {
                check(false, "the server runs");
            }
        }
        pub fn open(&mut self, u: &str, t: &str) {
            self.notify("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": "ogma", "version": 1, "text": t}}));
        }
        pub fn edit(&mut self, u: &str, v: i32, chs: Js) {
            self.notify("textDocument/didChange", json!({"textDocument": {"uri": u, "version": v}, "contentChanges": chs}));
        }
        pub fn save(&mut self, u: &str) {
            self.notify("textDocument/didSave", json!({"textDocument": {"uri": u}}));
        }
        pub fn ask(&mut self, m: &str, p: Js) -> i32 {
            self.n += 1;
            self.tx.as_ref().unwrap().send(Request::new(RequestId::from(self.n), m.into(), p).into()).ok();
            self.n
        }
        pub fn all(&self, id: i32) -> Vec<Response> {
            let k = RequestId::from(id);
            self.got.lock().unwrap().iter().filter(|r| r.id == k).cloned().collect()
        }
        pub fn answer(&self, id: i32) -> Option<Response> {
            let t = Instant::now();
            while t.elapsed() < Duration::from_secs(5) {
                if let Some(r) = self.all(id).pop() {
                    return Some(r);
                }
                wait(2);
            }
            None
        }
        pub fn at(&mut self, what: &str, u: &str, l: u32, c: u32) -> Option<Js> {
            let id = self.ask(&format!("textDocument/{what}"), json!({"textDocument": {"uri": u}, "position": {"line": l, "character": c}}));
            self.answer(id)?.result
        }
        pub fn hover(&mut self, u: &str, l: u32, c: u32) -> String {
            self.at("hover", u, l, c).map_or("nothing".into(), |v| v["contents"].as_str().unwrap_or("null").to_string())
        }
        pub fn labels(&mut self, u: &str, l: u32, c: u32) -> Vec<String> {
            let v = self.at("completion", u, l, c).unwrap_or(Js::Null);
            v.as_array().map_or(vec![], |a| a.iter().map(|x| x["label"].as_str().unwrap().to_string()).collect())
        }
    }
}
fn main() {
    demo();
}
