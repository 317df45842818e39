//! C23: exactly one answer to every request.
use super::editor::*;
use kit::serde_json::{json, Value as Js};
use kit::simrt::{
    rng::Rng,
    sched,
    sched::End,
    vfs::{vfs, Effect, Op},
};
use kit::{J, *};
use lsp_server::{Message, RequestId, Response};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

pub fn parts() -> Vec<Part> {
    vec![Part {
        name: "C23.answers",
        rule: "a random message stream: initialize, hovers and completions on open, unknown and odd documents at any position, unknown methods, malformed and missing parameters, number and string ids, unknown and malformed notifications, stray responses, opens, changes and saves with arbitrary text, sent without waiting; a slow client, slow and failing directory reads, handlers that panic (through the log seam), 1-8 workers; then a hang-up, an exit or more requests; every request gets one answer with its id and the right error code, nothing else is sent, and later requests are served; non-trivial: at least three requests of which one is refused",
        gen,
        run,
        tune: no_tune,
        on_end,
        max_steps: 20_000_000,
        shrink: &["/ops", "/faults", "/slow"],
        runs: (30_000, 2_000_000),
        real: "ogma-ls crate (dispatch, documents, hover, completion), ogma parser and definitions, serde/serde_json/url, crossbeam, rayon, std",
        stub: "thread scheduler, clocks, file system (fault injecting), stdio transport (channels held by the harness), lsp-types stand-in with the same message shapes",
    }]
}

/// Panics left to inject into handlers: counts down at every line of the log; a panic at 0.
static FUSE: AtomicI64 = AtomicI64::new(-1);
struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.target().starts_with("ogma_ls") && FUSE.load(SeqCst) >= 0 && r.args().to_string().starts_with("working directory") {
            if FUSE.fetch_sub(1, SeqCst) == 0 {
                count("fault:handler-panic", 1);
                panic!("injected into a handler");
            }
        }
    }
    fn flush(&self) {}
}
static LOGGER: Logger = Logger;
pub fn warm() {
    log::set_logger(&LOGGER).ok();
    log::set_max_level(log::LevelFilter::Trace);
}

const URLS: &[&str] = &["file:///w/d0.ogma", "file:///w/d1.ogma", "file:///w/%C3%A9%20x.ogma", "untitled:Untitled-1", "file:///", "http://host/a/b", "file://srv/share/x.ogma"];
const BITS: &[&str] = &[
    "a", " ", "\n", "\r\n", "\n\n", "漢", "𝄞", "e\u{301}", "{", "}", "|", "$x", "#t", "#", "'", "\"", "\\", "def f ", "def-ty T ", "(x:Num)", "{ x:Num }", "--flag", ".", "..", ":", "::", "12", "1e999", "-",
    "<", "Num", "# note\n", "\t", "\u{0}", "\u{feff}", "\r", "ls ", "sub/", "in 5 ", "Table ", "let ", "{:", "$", "=",
];
fn gen_text(r: &mut Rng, n: u64) -> String {
    (0..n).map(|_| *r.pick(BITS)).collect()
}
fn gen_n(r: &mut Rng) -> u64 {
    match r.below(12) {
        0 => 4294967295,
        1 => r.below(3000),
        _ => r.below(10),
    }
}
fn gen(r: &mut Rng, t: Tier) -> Js {
    let n = if t == Tier::Quick { r.range(2, 24) } else { r.range(2, 60) };
    let mut ops = vec![];
    for _ in 0..n {
        let us = if r.chance(2, 3) { &URLS[..2] } else { URLS };
        let u = *r.pick(us);
        let pos = json!({"line": gen_n(r), "character": gen_n(r)});
        let doc = json!({"textDocument": {"uri": u}, "position": pos});
        ops.push(match r.below(22) {
            0 => json!({"op": "pause", "ns": rand_delay(r, 20 * MS)}),
            1..=3 => {
                let k = r.below(12);
                json!({"op": "n", "m": "textDocument/didOpen", "p": {"textDocument": {"uri": u, "languageId": "ogma", "version": 1, "text": gen_text(r, k)}}})
            }
            4 | 5 => {
                let k = r.below(4);
                let text = gen_text(r, k);
                let ch = match r.below(4) {
                    0 => json!({"text": text}),
                    1 => json!({"range": {"start": pos, "end": pos}, "text": text}),
                    2 => json!({"range": {"start": {"line": 0, "character": 0}, "end": pos}, "text": text}),
                    // backwards
                    _ => json!({"range": {"start": pos, "end": {"line": 0, "character": gen_n(r)}}, "text": text}),
                };
                json!({"op": "n", "m": "textDocument/didChange", "p": {"textDocument": {"uri": u, "version": r.below(9) as i64 - 2}, "contentChanges": [ch]}})
            }
            6 => json!({"op": "n", "m": "textDocument/didSave", "p": {"textDocument": {"uri": u}}}),
            7 => {
                let m = *r.pick(&["textDocument/didClose", "$/cancelRequest", "initialized", "window/nothing", "textDocument/hover"]);
                json!({"op": "n", "m": m, "p": {"id": r.below(30), "textDocument": {"uri": u}}})
            }
            8 => {
                let m = *r.pick(&["textDocument/didOpen", "textDocument/didChange", "textDocument/didSave"]);
                json!({"op": "n", "m": m, "p": r.pick(&[json!({"textDocument": {"uri": "not a url"}}), Js::Null, json!([1, "x"]), json!({"textDocument": {"uri": "file:///w/d0.ogma", "version": "x"}, "contentChanges": 3})])})
            }
            9 => json!({"op": "stray", "id": r.below(30)}),
            10 | 11 => {
                let m = *r.pick(&["textDocument/definition", "workspace/symbol", "textDocument/didOpen", "exit ", "", "Initialize", "textDocument/references", "$/setTrace", "$/cancelRequest"]);
                json!({"op": "r", "m": m, "p": doc, "want": "method"})
            }
            12 | 13 => {
                let m = *r.pick(&["textDocument/hover", "textDocument/completion"]);
                let p = match r.below(7) {
                    0 => Js::Null,
                    1 => json!({"textDocument": {"uri": u}}),
                    2 => json!({"textDocument": {"uri": "not a url"}, "position": pos}),
                    3 => json!({"textDocument": {"uri": u}, "position": {"line": -1, "character": 0}}),
                    4 => json!({"textDocument": {"uri": u}, "position": {"line": 4294967296u64, "character": 0}}),
                    5 => json!("text"),
                    _ => json!({"position": pos}),
                };
                json!({"op": "r", "m": m, "p": p, "want": "params"})
            }
            14 => json!({"op": "r", "m": "shutdown", "want": "ok"}),
            15 => match r.below(3) {
                0 => json!({"op": "r", "m": "initialize", "p": {"processId": 1, "rootUri": null, "capabilities": {"workspace": {"x": 1}}}, "want": "ok"}),
                1 => json!({"op": "r", "m": "initialize", "p": {"capabilities": {}}, "want": "ok"}),
                _ => json!({"op": "r", "m": "initialize", "p": 7, "want": "params"}),
            },
            _ => json!({"op": "r", "m": if r.chance(1, 2) { "textDocument/hover" } else { "textDocument/completion" }, "p": doc, "want": "ok"}),
        });
    }
    for o in ops.iter_mut() {
        o["id"] = match r.below(3) {
            0 => json!(format!("id-{}", r.below(1000))),
            1 => json!(r.below(1 << 31) as i64 - (1 << 30)),
            _ => Js::Null,
        };
    }
    let faults: Vec<Js> = if r.chance(1, 3) {
        (0..r.range(1, 3))
            .map(|_| {
                let e = match r.below(3) {
                    0 => json!({"errno": 13}),
                    1 => json!({"delay": r.below(300)}),
                    _ => json!({"errno": 5}),
                };
                json!({"op": *r.pick(&["readdir", "open", "stat"]), "skip": r.below(4), "times": r.range(1, 10), "e": e})
            })
            .collect()
    } else {
        vec![]
    };
    let slow: Vec<u64> = if r.chance(1, 4) { (0..r.range(1, 8)).map(|_| rand_delay(r, 50 * MS)).collect() } else { vec![] };
    json!({"ops": ops, "slow": slow, "faults": faults, "panic": if r.chance(1, 5) { r.below(4) as i64 } else { -1 }, "end": *r.pick(&["more", "more", "hang up", "exit"])})
}

fn on_end(e: &End) -> Verdict {
    match e {
        End::Exit(0) if phase() == "exit sent" => Verdict::Ok,
        _ => default_end(e),
    }
}

fn run(sc: &Js) {
    FUSE.store(sc.i("panic"), SeqCst);
    std::fs::create_dir_all("/w/sub").unwrap();
    for i in 0..5 {
        std::fs::write(format!("/w/f{i}.txt"), "x").unwrap();
    }
    for f in sc.arr("faults") {
        let e = &f["e"];
        let eff = if e["errno"].is_u64() { Effect::Errno(e.i("errno") as i32) } else { Effect::Delay(e.u("delay") * MS) };
        vfs().rule(Op::parse(f.s("op")).unwrap(), "", f.u("skip") as u32, f.u("times") as u32, eff, "disk");
    }
    let slow = sc.arr("slow").iter().map(|x| x.as_u64().unwrap()).collect();
    let mut ed = Editor::start(vec![], slow);
    let mut wants: BTreeMap<String, (&'static str, String)> = BTreeMap::new();
    let mut refused = 0;
    for op in sc.arr("ops") {
        match op.s("op") {
            "pause" => sched::sleep_ns(op.u("ns")),
            "n" => ed.notify(op.s("m"), op["p"].clone()),
            "stray" => ed.raw(Message::Response(Response::new_ok(RequestId::from(op.u("id") as i32), 1))),
            _ => {
                let id = match &op["id"] {
                    Js::String(s) => RequestId::from(s.clone()),
                    Js::Number(n) => RequestId::from(n.as_i64().unwrap() as i32),
                    _ => RequestId::from(wants.len() as i32),
                };
                if ed.sent.contains_key(&id_key(&id)) {
                    continue;
                }
                let want = match op.s("want") {
                    "method" => "method",
                    "params" => "params",
                    _ => "ok",
                };
                refused += (want != "ok") as u64;
                let k = ed.request_as(id, op.s("m"), op["p"].clone());
                wants.insert(k, (want, format!("{} {}", op.s("m"), op["p"])));
            }
        }
    }
    let end = sc.s("end");
    if end == "hang up" {
        ed.hang_up();
    }
    ed.settle(60_000);
    if end == "more" {
        set_phase("later");
        FUSE.store(-1, SeqCst);
        vfs().rules.clear();
        // whatever came before: the server still serves
        ed.next = 2_000_000_000;
        let u = "file:///w/later.ogma";
        ed.open(u, 1, "foo bar\n");
        let h = ed.at("hover", u, 0, 5);
        let c = ed.at("completion", u, 0, 0);
        ed.settle(60_000);
        let hv = ed.answer(&h).unwrap().result.clone().unwrap_or(Js::Null);
        let cv = ed.answer(&c).unwrap().result.clone().unwrap_or(Js::Null);
        if !hv.s("contents").starts_with("`bar` [_") {
            fail("the server does not serve after odd messages", format!("a hover over `bar` gives {hv}; panics: {}", panics_text()));
        }
        if cv.as_array().map_or(true, |x| x.len() < 50) {
            fail("the server does not serve after odd messages", format!("completing a command gives {:.200}", cv.to_string()));
        }
    }
    // late duplicates
    sched::sleep_ns(200 * MS);
    let seen = ed.seen.get();
    if let Some(m) = seen.others.first() {
        fail("the server sends something else than an answer", m.clone());
    }
    let mut by: BTreeMap<String, Vec<&Response>> = BTreeMap::new();
    for (_, r) in &seen.answers {
        by.entry(id_key(&r.id)).or_default().push(r);
    }
    for (k, rs) in &by {
        if !ed.sent.contains_key(k) {
            fail("an answer to nothing", format!("id {k} was never asked; answered {:?}", rs[0]));
        }
        if rs.len() > 1 {
            fail("a request is answered twice", format!("{k} {}: {} answers", ed.sent[k], rs.len()));
        }
    }
    let mut internal = 0;
    for (k, (want, what)) in &wants {
        let r = by[k][0];
        let code = r.error.as_ref().map(|e| e.code);
        let right = match (*want, code) {
            ("ok", None) => true,
            ("ok", Some(-32603)) => {
                internal += 1;
                true
            }
            ("method", Some(-32601)) | ("params", Some(-32602)) => true,
            _ => false,
        };
        if !right || (r.error.is_some() && r.result.is_some()) {
            fail(format!("a wrong answer: {want} is answered with {code:?}"), format!("{what} is answered with {:.300}", kit::serde_json::to_string(r).unwrap()));
        }
        if code.is_none() && r.result.is_none() {
            fail("an answer with neither a result nor an error", format!("{what} ({k})"));
        }
        if code.is_none() {
            let v = r.result.as_ref().unwrap();
            let fits = match what.split(' ').next().unwrap() {
                "textDocument/hover" => v.is_null() || v["contents"].is_string(),
                "textDocument/completion" => v.is_null() || v.is_array(),
                "initialize" => v["capabilities"].is_object(),
                _ => v.is_null(),
            };
            if !fits {
                fail("an answer of another request's kind", format!("{what} is answered with {:.200}", v.to_string()));
            }
        }
    }
    let injected = panics().iter().filter(|p| p.msg.contains("injected into a handler")).count();
    if internal > injected {
        let p = panics().iter().find(|p| !p.msg.contains("injected"));
        fail("a sound request fails inside the server", format!("{internal} internal errors, {injected} injected; {}", p.map_or(panics_text(), |p| format!("{} at {}", p.msg, p.at))));
    }
    if let Some(p) = panics().iter().find(|p| !p.msg.contains("injected")) {
        fail(panic_sig(p), format!("{} at {}", p.msg, p.at));
    }
    count("requests answered", wants.len() as u64);
    feature(hash_str(&format!("{:?}", wants.values().collect::<Vec<_>>())));
    if wants.len() >= 3 && refused >= 1 {
        nontrivial();
    }
    match end {
        "exit" => {
            set_phase("exit sent");
            ed.notify("exit", Js::Null);
            sched::sleep_ns(10_000 * MS);
            fail("exit does not end the server", "10 s after the exit notification the server still runs");
        }
        "more" => ed.hang_up(),
        _ => {}
    }
}
