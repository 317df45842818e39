use super::{completions::*, events::*, history::*, input::*};
use kit::serde_json::{json, Value};
use kit::simrt::{
    self,
    rng::Rng,
    sched::{self, Cfg},
};
use kit::{J, *};
use std::time::Duration;

const MS: u64 = 1_000_000;
const REAL: &str = "ogma-shell/interface/{completions,events,history,input}.rs, std, crossbeam";
const STUB: &str = "terminal event source, clocks, thread scheduler, completers (scripted), interface loop (harness)";

pub fn parts() -> Vec<Part> {
    let base = Part {
        name: "",
        rule: "",
        gen: gen_cmpl,
        run: run_c01,
        tune: no_tune,
        on_end: default_end,
        max_steps: 3_000_000,
        shrink: &["/ops", "/completers"],
        runs: (100_000, 6_000_000),
        real: REAL,
        stub: STUB,
    };
    vec![
        Part {
            name: "C01.engine",
            rule: "random typing, cursor movement, dismissals and submissions with random delays against 1-4 completers of random latency and list length, all threads under the random scheduler; non-trivial: at least one list was shown and at least one superseded, dismissed or late answer existed",
            ..base
        },
        Part {
            name: "C02.engine",
            rule: "random request bursts against 0-4 completers of random latency; the last request is followed by quiet; non-trivial: at least two requests, one of them while a completer was still running",
            gen: gen_c02,
            run: run_c02,
            ..base
        },
        Part {
            name: "C03.engine",
            rule: "random line, cursor and suggestion lists, then a random sequence of up/down moves with suggestions of slower completers arriving in between; non-trivial: at least two suggestions and three moves",
            gen: gen_c03,
            run: run_c03,
            shrink: &["/moves", "/completers"],
            ..base
        },
        Part {
            name: "C04.reader",
            rule: "random key, resize, mouse and read-error arrivals with random gaps against a consumer polling at random moments; non-trivial: at least three deliverable events and one batch of two or more or a read error",
            gen: gen_c04,
            run: run_c04,
            shrink: &["/events"],
            runs: (100_000, 6_000_000),
            ..base
        },
        Part {
            name: "C05.buffer",
            rule: "random edit sequences over texts with multi-byte, combining, wide and control characters; non-trivial: at least five edits of three kinds",
            gen: gen_c05,
            run: run_c05,
            shrink: &["/ops"],
            runs: (60_000, 3_000_000),
            ..base
        },
        Part {
            name: "C06.history",
            rule: "random submissions (also blank, repeated, multi-line, and beyond the limit) and walks; non-trivial: at least two submissions and three moves",
            gen: gen_c06,
            run: run_c06,
            shrink: &["/ops"],
            runs: (60_000, 3_000_000),
            ..base
        },
    ]
}

// ------------------------------------------------------------------ texts
pub const POOL: &[&str] = &[
    "a", "b", "ls", "open", "x1", " ", " ", ".", "/", "\\", "\t", "\n", "-", "_", "é", "ß", "→", "日本", "🙂", "e\u{301}", "\u{200d}", "|", "{", "\"", "$", "def", "\r\n", "K", "ǅ",
];
pub fn rand_text(r: &mut Rng, max: u64) -> String {
    let n = r.below(max + 1);
    (0..n).map(|_| *r.pick(POOL)).collect()
}
fn rand_char(r: &mut Rng) -> String {
    r.pick(POOL).chars().next().unwrap().to_string()
}

/// Where the word under completion starts: behind the last separator before the cursor; at the cursor if a
/// separator follows directly (as the project's own tests have it).
fn word_of(s: &str, cursor: usize) -> usize {
    let seps: &[char] = &[' ', '\t', '\r', '\n', '.', '/', '\\'];
    if s[cursor..].chars().next().map_or(false, |c| seps.contains(&c)) {
        return cursor;
    }
    s[..cursor].rfind(seps).map(|i| i + s[i..].chars().next().unwrap().len_utf8()).unwrap_or(0)
}

// ------------------------------------------------------------------ scripted completers
#[derive(Clone, Debug)]
pub struct Call {
    who: usize,
    input: String,
    cursor: usize,
    word: usize,
    start: u64,
    end: u64,
}
pub struct World {
    calls: Vec<Call>,
}
struct Scripted {
    who: usize,
    lats: Vec<u64>,
    n: usize,
    values: Vec<String>,
    w: &'static Shared<World>,
    calls: Shared<usize>,
}
pub fn value_of(who: usize, k: usize, input: &str, cursor: usize, word: usize) -> String {
    let h = hash_str(&format!("{input}\u{1}{cursor}\u{1}{word}"));
    format!("{who}|{k}|{h:x}")
}
impl Completer for Scripted {
    fn complete(&self, input: &str, cursor_pos: usize, word_pos: usize) -> Vec<Completion> {
        let i = *self.calls.get();
        *self.calls.get() += 1;
        let id = self.w.get().calls.len();
        self.w.get().calls.push(Call {
            who: self.who,
            input: input.into(),
            cursor: cursor_pos,
            word: word_pos,
            start: sched::now(),
            end: u64::MAX,
        });
        log(|| format!("completer {} asked about {input:?} cursor {cursor_pos} word {word_pos}", self.who));
        let lat = if self.lats.is_empty() { 0 } else { self.lats[i % self.lats.len()] };
        if lat > 0 {
            std::thread::sleep(Duration::from_nanos(lat));
        }
        let v: Vec<_> = (0..self.n)
            .map(|k| Completion {
                value: if self.values.is_empty() {
                    value_of(self.who, k, input, cursor_pos, word_pos)
                } else {
                    self.values[k % self.values.len()].clone()
                },
                ty: CompletionType::Method,
            })
            .collect();
        self.w.get().calls[id].end = sched::now();
        log(|| format!("completer {} answers about {input:?} with {}", self.who, v.len()));
        v
    }
}
fn gen_completers(r: &mut Rng, lo: u64, hi: u64) -> Vec<Value> {
    let slow = *r.pick(&[0, 100_000, 3 * MS, 40 * MS, 300 * MS]);
    (0..r.range(lo, hi))
        .map(|_| {
            let n = *r.pick(&[0, 1, 2, 3, 3, 9, 10, 11, 25]);
            let lats: Vec<u64> = (0..r.range(1, 4)).map(|_| if slow == 0 { 0 } else { rand_delay(r, slow) }).collect();
            json!({"n": n, "lats": lats})
        })
        .collect()
}
fn make_completers(sc: &Value, w: &'static Shared<World>) -> Vec<Box<dyn Completer>> {
    sc.arr("completers")
        .iter()
        .enumerate()
        .map(|(who, c)| {
            Box::new(Scripted {
                who,
                lats: c.arr("lats").iter().map(|x| x.as_u64().unwrap()).collect(),
                n: c.u("n") as usize,
                values: c.arr("values").iter().map(|x| x.as_str().unwrap().to_string()).collect(),
                w,
                calls: Shared::new(0),
            }) as Box<dyn Completer>
        })
        .collect()
}
fn gap(op: &Value) {
    let d = op.u("d");
    if d > 0 {
        std::thread::sleep(Duration::from_nanos(d));
    }
}

// ------------------------------------------------------------------ C01
fn gen_cmpl(r: &mut Rng, _t: Tier) -> Value {
    let pace = *r.pick(&[20_000, 2 * MS, 20 * MS, 200 * MS]);
    let n = r.range(3, 24);
    let ops: Vec<Value> = (0..n)
        .map(|_| {
            let d = rand_delay(r, pace);
            match r.below(20) {
                0..=7 => json!({"d": d, "op": "type", "c": rand_char(r)}),
                8 => json!({"d": d, "op": "back"}),
                9 => json!({"d": d, "op": "paste", "s": rand_text(r, 6)}),
                10..=13 => json!({"d": d, "op": "recv"}),
                14 => json!({"d": d, "op": "left", "n": r.range(1, 3)}),
                15 => json!({"d": d, "op": "right", "n": r.range(1, 3)}),
                16 => json!({"d": d, "op": "dismiss"}),
                17 => json!({"d": d, "op": "submit"}),
                18 if r.chance(1, 2) => json!({"d": d, "op": "next"}),
                18 => {
                    let n = *r.pick(&[8, 16, 32, 64, 127, 128, 254, 255, 255, 256, 257, 511, 512, 1024]);
                    json!({"d": d, "op": "many", "n": n, "kind": r.below(3)})
                }
                _ => json!({"d": d, "op": "wait", "ns": rand_delay(r, 400 * MS)}),
            }
        })
        .collect();
    json!({"completers": gen_completers(r, 1, 4), "ops": ops})
}

struct Cur {
    input: String,
    cursor: usize,
    word: usize,
}
fn check_items(c: &Completions, cur: &Option<Cur>, nmax: &[usize], what: &str) {
    if c.items().is_empty() {
        return;
    }
    let Some(cur) = cur else {
        fail(
            "C01:late",
            format!(
                "after {what} the suggestions {:?} are offered although the list was dismissed, the cursor moved or the line submitted since",
                c.items().iter().map(|i| &i.value).take(4).collect::<Vec<_>>()
            ),
        )
    };
    let mut next = vec![0usize; nmax.len()];
    for it in c.items() {
        let f: Vec<&str> = it.value.split('|').collect();
        let who: usize = f[0].parse().unwrap();
        let k: usize = f[1].parse().unwrap();
        if it.value != value_of(who, k, &cur.input, cur.cursor, cur.word) {
            fail(
                "C01:stale",
                format!("after {what} a suggestion is offered that was not computed for the current input {:?} cursor {} word {}", cur.input, cur.cursor, cur.word),
            );
        }
        if next[who] != k {
            fail("C01:order", format!("after {what} completer {who}'s suggestion {k} is offered where {} was due", next[who]));
        }
        next[who] += 1;
    }
    for (w, &n) in next.iter().enumerate() {
        if n > 10 {
            fail("C01:limit", format!("{n} suggestions of completer {w} are offered"));
        }
        if n != 0 && n != nmax[w].min(10) {
            fail("C01:partial", format!("{n} suggestions of completer {w} are offered, it had {}", nmax[w]));
        }
    }
}

fn run_c01(sc: &Value) {
    set_phase("typing");
    let w = Shared::leak(World { calls: vec![] });
    let mut c = Completions::new(make_completers(sc, w));
    let nmax: Vec<usize> = sc.arr("completers").iter().map(|c| c.u("n") as usize).collect();
    let mut input = InputBuffer::new();
    let mut cur: Option<Cur> = None;
    let mut shown = 0;
    let mut dropped = 0;
    for op in sc.arr("ops") {
        gap(op);
        let o = op.s("op");
        log(|| format!("{op}"));
        let before_calls = w.get().calls.len();
        match o {
            "type" | "paste" | "back" => {
                match o {
                    "type" => input.insert(op.s("c").chars().next().unwrap_or('a')),
                    "paste" => input.insert_str(op.s("s")),
                    _ => input.backspace(),
                }
                c.request(&input);
                let s = input.buffer(..);
                let cursor = input.buf_pos();
                if w.get().calls.iter().any(|k| k.end == u64::MAX) {
                    dropped += 1;
                }
                cur = Some(Cur { word: word_of(&s, cursor), input: s, cursor });
            }
            "recv" => {
                c.recv();
            }
            "left" | "right" => {
                let m = Mvmt::Ch(op.u("n") as usize);
                if o == "left" {
                    input.move_left(m)
                } else {
                    input.move_right(m)
                }
                c.reset();
                dropped += cur.is_some() as u64;
                cur = None;
            }
            "dismiss" => {
                c.reset();
                dropped += cur.is_some() as u64;
                cur = None;
            }
            "submit" => {
                input.clear();
                c.reset();
                dropped += cur.is_some() as u64;
                cur = None;
            }
            "next" => {
                if c.has() {
                    let (_, with) = c.highlight_next();
                    let with = with.to_string();
                    let hl = c.highlighted().and_then(|i| c.items().get(i)).map(|i| i.value.clone());
                    if let Some(h) = hl {
                        if h != with {
                            fail("C01:insert", format!("{with:?} would be inserted while {h:?} is highlighted"));
                        }
                    }
                }
            }
            "many" => {
                // the user holds a key: requests and dismissals pile up behind a busy completer
                for i in 0..op.u("n") {
                    if op.u("kind") == 0 || op.u("kind") == 1 && i % 2 == 0 {
                        c.reset();
                    } else {
                        c.request(&input);
                    }
                }
                dropped += cur.is_some() as u64;
                let s = input.buffer(..);
                let cursor = input.buf_pos();
                cur = (op.u("kind") != 0 && !(op.u("kind") == 1 && op.u("n") % 2 == 1)).then(|| Cur { word: word_of(&s, cursor), input: s, cursor });
                if op.u("n") == 0 {
                    cur = None;
                    c.reset();
                }
            }
            "wait" => {
                let end = sched::now() + op.u("ns");
                while sched::now() < end {
                    c.recv();
                    check_items(&c, &cur, &nmax, "waiting");
                    std::thread::sleep(Duration::from_millis(5));
                }
            }
            _ => (),
        }
        let _ = before_calls;
        check_items(&c, &cur, &nmax, o);
        shown += !c.items().is_empty() as u64;
        feature(hash_str(&format!("{}{}{}{}", o, c.items().len(), cur.is_some(), w.get().calls.iter().filter(|k| k.end == u64::MAX).count())));
    }
    // late answers
    for _ in 0..60 {
        std::thread::sleep(Duration::from_millis(20));
        c.recv();
        check_items(&c, &cur, &nmax, "the end");
    }
    if shown > 0 && dropped > 0 {
        nontrivial();
    }
    count("lists_shown", shown);
    count("answers_superseded", dropped);
    count("completer_calls", w.get().calls.len() as u64);
    if w.get().calls.iter().any(|c| c.end.wrapping_sub(c.start) > 50 * MS) {
        count("fault:slow-completer", 1);
    }
}

// ------------------------------------------------------------------ C02
fn gen_c02(r: &mut Rng, _t: Tier) -> Value {
    let pace = *r.pick(&[0, 20_000, 2 * MS, 20 * MS, 100 * MS]);
    let n = r.range(1, 30);
    let ops: Vec<Value> = (0..n)
        .map(|_| {
            let d = if pace == 0 { 0 } else { rand_delay(r, pace) };
            match r.below(12) {
                0..=7 => json!({"d": d, "op": "type", "c": rand_char(r)}),
                8 => json!({"d": d, "op": "back"}),
                9 => json!({"d": d, "op": "paste", "s": rand_text(r, 6)}),
                10 => json!({"d": d, "op": "left", "n": r.range(1, 3)}),
                _ => json!({"d": d, "op": "recv"}),
            }
        })
        .collect();
    json!({"completers": gen_completers(r, 0, 4), "ops": ops, "last": rand_char(r)})
}
fn run_c02(sc: &Value) {
    set_phase("typing");
    let w = Shared::leak(World { calls: vec![] });
    let mut c = Completions::new(make_completers(sc, w));
    let mut input = InputBuffer::new();
    let mut reqs = 0;
    let mut overlapped = false;
    for op in sc.arr("ops").iter().cloned().chain([json!({"op": "type", "c": sc["last"]})]) {
        gap(&op);
        log(|| format!("{op}"));
        match op.s("op") {
            "left" => {
                input.move_left(Mvmt::Ch(op.u("n") as usize));
                c.reset();
                continue;
            }
            "recv" => {
                c.recv();
                continue;
            }
            "type" => input.insert(op.s("c").chars().next().unwrap_or('a')),
            "paste" => input.insert_str(op.s("s")),
            _ => input.backspace(),
        }
        overlapped |= w.get().calls.iter().any(|k| k.end == u64::MAX);
        c.request(&input);
        reqs += 1;
    }
    let t0 = sched::now();
    let text = input.buffer(..);
    let cursor = input.buf_pos();
    let word = word_of(&text, cursor);
    let stalls = sched::sim().stall_limit();
    set_phase("waiting for suggestions");
    let cs = sc.arr("completers");
    let max_lat = cs.iter().flat_map(|c| c.arr("lats")).map(|x| x.as_u64().unwrap()).max().unwrap_or(0);
    // one call that is already running, one for the final text
    let bound = t0 + 2 * max_lat + 100 * MS + stalls;
    loop {
        c.recv();
        let done = cs.iter().enumerate().all(|(i, k)| {
            let n = (k.u("n") as usize).min(10);
            n == 0 || (0..n).all(|j| c.items().iter().any(|it| it.value == value_of(i, j, &text, cursor, word)))
        });
        let asked = (0..cs.len()).all(|i| w.get().calls.iter().any(|k| k.who == i && k.input == text && k.cursor == cursor && k.word == word));
        if done && asked {
            break;
        }
        if sched::now() > bound {
            let late = (sched::now() - t0) / MS;
            if !asked {
                fail(
                    "C02:not-asked",
                    format!("{late} ms after the last request not every completer has been asked about {text:?} cursor {cursor} word {word}: {:?}",
                        w.get().calls.iter().rev().take(3).collect::<Vec<_>>()),
                );
            }
            fail(
                "C02:not-available",
                format!("{late} ms after the last request (completers need at most {} ms) its suggestions are not available: {:?}", max_lat / MS,
                    c.items().iter().map(|i| &i.value).take(5).collect::<Vec<_>>()),
            );
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    if reqs >= 2 && overlapped {
        nontrivial();
    }
    feature(hash_str(&format!("{reqs} {overlapped} {}", w.get().calls.len())));
    count("requests", reqs);
    count("completer_calls", w.get().calls.len() as u64);
    // dropping must not block or crash anything
    set_phase("closing");
    drop(c);
}

// ------------------------------------------------------------------ C03
fn gen_c03(r: &mut Rng, _t: Tier) -> Value {
    let text = rand_text(r, 10);
    let n = text.chars().count() as u64;
    let completers: Vec<Value> = (0..r.range(1, 3))
        .map(|_| {
            let k = *r.pick(&[0, 1, 2, 3, 5, 12]);
            let values: Vec<String> = (0..k).map(|_| rand_text(r, 5)).collect();
            json!({"n": k, "values": values, "lats": [rand_delay(r, 30 * MS)]})
        })
        .collect();
    let moves: Vec<Value> = (0..r.range(1, 40))
        .map(|_| json!({"d": rand_delay(r, 20 * MS), "m": *r.pick(&["next", "next", "prev", "prev", "recv"])}))
        .collect();
    json!({"text": text, "cursor": r.below(n + 1), "completers": completers, "moves": moves, "first": rand_delay(r, 40 * MS)})
}
fn run_c03(sc: &Value) {
    set_phase("cycling");
    let w = Shared::leak(World { calls: vec![] });
    let mut c = Completions::new(make_completers(sc, w));
    let mut input = InputBuffer::new();
    input.insert_str(sc.s("text"));
    input.move_start();
    input.move_right(Mvmt::Ch(sc.u("cursor") as usize));
    let text: Vec<char> = sc.s("text").chars().collect();
    let cursor = (sc.u("cursor") as usize).min(text.len());
    c.request(&input);
    let s: String = text.iter().collect();
    let cb: usize = text[..cursor].iter().map(|c| c.len_utf8()).sum();
    let wb = word_of(&s, cb);
    let before: String = s[..wb].into();
    let word: String = s[wb..cb].into();
    let after: String = s[cb..].into();
    std::thread::sleep(Duration::from_nanos(sc.u("first")));
    c.recv();
    let mut moves = 0;
    let mut grew = 0;
    for m in sc.arr("moves") {
        gap(m);
        let hl = c.highlighted();
        let n = c.items().len();
        match m.s("m") {
            "recv" => {
                let val = |c: &Completions| c.highlighted().and_then(|i| c.items().get(i)).map(|i| i.value.clone());
                let was = val(&c);
                c.recv();
                if val(&c) != was {
                    fail("C03:highlight-moved", format!("the highlight moved from {was:?} to {:?} when suggestions arrived", val(&c)));
                }
                grew += (c.items().len() != n && n > 0) as u64;
                continue;
            }
            // as the interface does: the keys reach the list only while it has entries
            _ if !c.has() => continue,
            _ => (),
        }
        moves += 1;
        let next = m.s("m") == "next";
        let start = c.word_pos();
        let (len, with) = if next { c.highlight_next() } else { c.highlight_prev() };
        let with = with.to_string();
        input.move_start();
        input.move_right(Mvmt::Ch(start));
        for _ in 0..len {
            input.delete();
        }
        input.insert_str(&with);
        // the reference
        let exp = match (hl, next) {
            (None, true) => Some(0),
            (None, false) => Some(n - 1),
            (Some(i), true) => (i + 1 < n).then_some(i + 1),
            (Some(i), false) => i.checked_sub(1),
        };
        if c.highlighted() != exp {
            fail("C03:order", format!("moving {} from {hl:?} of {n} highlights {:?}, expected {exp:?}", m.s("m"), c.highlighted()));
        }
        let ins = exp.map(|i| c.items()[i].value.clone()).unwrap_or(word.clone());
        let want = format!("{before}{ins}{after}");
        let got = input.buffer(..);
        if got != want {
            fail("C03:line", format!("the line is {got:?}, expected {want:?} (highlighted {exp:?})"));
        }
        let wantpos = before.chars().count() + ins.chars().count();
        if input.ch_pos() != wantpos {
            fail("C03:cursor", format!("the cursor is at {}, expected {wantpos} in {want:?}", input.ch_pos()));
        }
        feature(hash_str(&format!("{n} {exp:?} {next} {}", with.len() > word.len())));
    }
    if c.items().len() >= 2 && moves >= 3 {
        nontrivial();
    }
    count("moves", moves);
    count("suggestions_arrived_while_cycling", grew);
}

// ------------------------------------------------------------------ C04
fn gen_c04(r: &mut Rng, _t: Tier) -> Value {
    let pace = *r.pick(&[0, 2_000, 100_000, 5 * MS, 100 * MS]);
    let errs = *r.pick(&[0u64, 0, 1, 3]);
    let evs: Vec<Value> = (0..r.range(1, 40))
        .map(|_| {
            let d = if pace == 0 { 0 } else { rand_delay(r, pace) };
            let k = match r.below(12) {
                0 => "resize",
                1 => "mouse",
                2 if errs > 0 => "error",
                3 if errs > 1 => "error",
                _ => "key",
            };
            json!({"d": d, "k": k, "c": r.below(26), "m": r.below(8), "e": *r.pick(&[4, 5, 11])})
        })
        .collect();
    // sometimes a lot is pasted while the interface is busy
    let mut evs = evs;
    let mut busy = 0;
    if r.chance(1, 15) {
        let i = r.below(evs.len() as u64) as usize;
        evs[i] = json!({"d": 0, "k": "key", "c": r.below(26), "m": 0, "e": 4, "rep": *r.pick(&[150, 300, 700, 1100, 2200])});
        busy = 200 * MS;
    }
    json!({"events": evs, "busy": busy, "poll": *r.pick(&[0u64, 1000, 100_000, 5 * MS, 60 * MS]), "pollseed": r.below(1000), "leave": r.chance(1, 3)})
}
fn brief(evs: &[Event]) -> String {
    if evs.len() <= 40 {
        format!("{evs:?}")
    } else {
        format!("{:?} and {} more", &evs[..40], evs.len() - 40)
    }
}
fn run_c04(sc: &Value) {
    use crossterm::event as xt;
    set_phase("reading events");
    let mut t = sched::now() + 1000;
    let mut want: Vec<Event> = vec![];
    let mut errors = 0;
    for e in sc.arr("events") {
        t += e.u("d");
        let code = match e.u("c") {
            0 => KeyCode::Enter,
            1 => KeyCode::Tab,
            2 => KeyCode::Backspace,
            3 => KeyCode::F(7),
            n => KeyCode::Char((b'a' + n as u8) as char),
        };
        let mods = KeyModifiers::from_bits_truncate(e.u("m") as u8);
        match e.s("k") {
            "resize" => {
                crossterm::sim::push(t, Ok(xt::Event::Resize(1 + e.u("c") as u16, 9)));
                want.push(Event::Resize);
            }
            "mouse" => crossterm::sim::push(
                t,
                Ok(xt::Event::Mouse(xt::MouseEvent { kind: xt::MouseEventKind::Moved, column: 1, row: 1, modifiers: mods })),
            ),
            "error" => {
                errors += 1;
                crossterm::sim::push(t, Err(e.u("e") as i32));
            }
            _ => {
                for j in 0..e.u("rep").max(1) {
                    let code = if e.u("rep") > 0 { KeyCode::Char((b'a' + ((e.u("c") + j * 7) % 26) as u8) as char) } else { code };
                    crossterm::sim::push(t, Ok(xt::Event::Key(xt::KeyEvent::new(code, mods))));
                    want.push(Event::Key { code, mods });
                }
            }
        }
    }
    count("fault:terminal-read-error", errors);
    let mut evs = match Events::new() {
        Ok(e) => e,
        Err(e) => fail("C04:start", format!("the event reader could not start: {e}")),
    };
    let mut got: Vec<Event> = vec![];
    let mut r = Rng::new(sc.u("pollseed"));
    if sc.u("busy") > 0 {
        std::thread::sleep(Duration::from_nanos(t - sched::now().min(t) + sc.u("busy")));
        count("bursts_while_busy", 1);
    }
    let mut checked = 0;
    let end = t + 2_000 * MS + sched::sim().stall_limit();
    let mut maxbatch = 0;
    let mut idle = 0;
    while sched::now() < end && got.len() < want.len() + 3 {
        let mut batch = 0;
        let t0 = sched::now();
        let jumps = sched::sim().blocks_of(sched::me());
        loop {
            match evs.next() {
                Some(e) => {
                    log(|| format!("delivered {e:?}"));
                    got.push(e);
                    batch += 1;
                    if got.len() > want.len() + 3 {
                        break;
                    }
                }
                None => break,
            }
        }
        if sched::sim().blocks_of(sched::me()) != jumps && sched::now() - t0 > MS + sched::sim().stall_limit() {
            fail("C04:blocked", format!("reading the next event waited for {} ms", (sched::now() - t0) / MS));
        }
        maxbatch = maxbatch.max(batch);
        for (i, g) in got.iter().enumerate().skip(checked) {
            if want.get(i) != Some(g) {
                fail("C04:order", format!("event {i} delivered is {g:?}, the terminal gave {:?} (all: {}; delivered: {})", want.get(i), brief(&want), brief(&got)));
            }
        }
        checked = got.len();
        if got.len() == want.len() && crossterm::sim::pending() == 0 {
            // nothing more may come
            std::thread::sleep(Duration::from_millis(20));
            if let Some(e) = evs.next() {
                fail("C04:extra", format!("{e:?} was delivered although the terminal gave nothing more"));
            }
            break;
        }
        let p = sc.u("poll");
        idle = if batch > 0 { 0 } else { idle + 1 };
        if idle > 60 {
            // nothing for a while: poll as the interface does
            std::thread::sleep(Duration::from_millis(5));
        } else if p > 0 {
            std::thread::sleep(Duration::from_nanos(rand_delay(&mut r, p) + 50));
        } else {
            std::thread::yield_now();
        }
    }
    if got.len() != want.len() {
        fail("C04:lost", format!("{} of {} events were delivered: {} vs {}", got.len(), want.len(), brief(&want), brief(&got)));
    }
    if want.len() >= 3 && (maxbatch >= 2 || errors > 0) {
        nontrivial();
    }
    feature(hash_str(&format!("{maxbatch} {errors} {}", want.len())));
    count("events", want.len() as u64);
    if sc.b("leave") {
        // once the interface is gone the reader stops reading (after at most the one event it was waiting for)
        set_phase("leaving");
        drop(evs);
        let taken = crossterm::sim::taken();
        for i in 0..4 {
            crossterm::sim::push(
                sched::now() + i * 10 * MS,
                Ok(xt::Event::Key(xt::KeyEvent::new(KeyCode::Char('z'), KeyModifiers::empty()))),
            );
        }
        std::thread::sleep(Duration::from_nanos(1_000 * MS + sched::sim().stall_limit()));
        if crossterm::sim::taken() > taken + 1 {
            fail("C04:reader-stays", format!("the reader swallowed {} events after the interface had gone", crossterm::sim::taken() - taken));
        }
        count("interface_left", 1);
    }
}

// ------------------------------------------------------------------ C05
fn gen_c05(r: &mut Rng, _t: Tier) -> Value {
    let ops: Vec<Value> = (0..r.range(3, 60))
        .map(|_| match r.below(16) {
            0..=4 => json!(["ins", rand_char(r)]),
            5 | 6 => json!(["str", rand_text(r, 7)]),
            7 | 8 => json!(["bs"]),
            9 | 10 => json!(["del"]),
            11 => json!(["left", r.below(5)]),
            12 => json!(["right", r.below(5)]),
            13 => json!(["wl"]),
            14 => json!(["wr"]),
            _ => match r.below(6) {
                0 => json!(["clear"]),
                1 => json!(["start"]),
                2 => json!(["left", 1_000_000]),
                3 => json!(["right", 1_000_000]),
                _ => json!(["unflag"]),
            },
        })
        .collect();
    let mut ops = ops;
    if r.chance(1, 20) {
        let i = r.below(ops.len() as u64) as usize;
        ops[i] = json!(["paste", rand_text(r, 6) + "p", *r.pick(&[60, 140, 300, 700, 1300])]);
    }
    json!({"ops": ops})
}
fn run_c05(sc: &Value) {
    set_phase("editing");
    let mut b = InputBuffer::new();
    // the reference: characters left and right of the cursor
    let mut l: Vec<char> = vec![];
    let mut rt: Vec<char> = vec![]; // reversed
    let mut dirty = false;
    let isw = |c: char| c.is_alphanumeric() || c == '-' || c == '_';
    let mut kinds = std::collections::BTreeSet::new();
    for op in sc.arr("ops") {
        let o = op[0].as_str().unwrap_or("");
        let n = op[1].as_u64().unwrap_or(0) as usize;
        kinds.insert(o.to_string());
        log(|| format!("{op}"));
        let before: (Vec<char>, usize) = (l.iter().chain(rt.iter().rev()).copied().collect(), l.len());
        match o {
            "ins" => {
                let c = op[1].as_str().and_then(|s| s.chars().next()).unwrap_or('q');
                b.insert(c);
                l.push(c);
            }
            "str" => {
                let s = op[1].as_str().unwrap_or("");
                b.insert_str(s);
                l.extend(s.chars());
            }
            "paste" => {
                let s = op[1].as_str().unwrap_or("").repeat(op[2].as_u64().unwrap_or(1) as usize);
                b.insert_str(&s);
                l.extend(s.chars());
            }
            "bs" => {
                b.backspace();
                l.pop();
            }
            "del" => {
                b.delete();
                rt.pop();
            }
            "left" => {
                b.move_left(Mvmt::Ch(n));
                for _ in 0..n.min(l.len()) {
                    rt.push(l.pop().unwrap());
                }
            }
            "right" => {
                b.move_right(Mvmt::Ch(n));
                for _ in 0..n.min(rt.len()) {
                    l.push(rt.pop().unwrap());
                }
            }
            "wl" => {
                b.move_left(Mvmt::Word);
                while l.last().map_or(false, |&c| !isw(c)) {
                    rt.push(l.pop().unwrap());
                }
                while l.last().map_or(false, |&c| isw(c)) {
                    rt.push(l.pop().unwrap());
                }
            }
            "wr" => {
                b.move_right(Mvmt::Word);
                while rt.last().map_or(false, |&c| !isw(c)) {
                    l.push(rt.pop().unwrap());
                }
                while rt.last().map_or(false, |&c| isw(c)) {
                    l.push(rt.pop().unwrap());
                }
            }
            "clear" => {
                b.clear();
                l.clear();
                rt.clear();
            }
            "start" => {
                b.move_start();
                while let Some(c) = l.pop() {
                    rt.push(c);
                }
            }
            "unflag" => {
                b.reset_buf_changed();
                dirty = false;
                if b.buffer_changed() {
                    fail("C05:flag", "the changed flag is still raised after it was reset");
                }
            }
            _ => (),
        }
        let all: Vec<char> = l.iter().chain(rt.iter().rev()).copied().collect();
        dirty |= all != before.0;
        let text: String = all.iter().collect();
        if b.buffer(..) != text {
            fail("C05:text", format!("after {op} the line is {:?}, expected {text:?}", b.buffer(..)));
        }
        if b.ch_pos() != l.len() {
            fail("C05:cursor", format!("after {op} on {:?} at {} the cursor is {}, expected {}", before.0, before.1, b.ch_pos(), l.len()));
        }
        let bytes: usize = l.iter().map(|c| c.len_utf8()).sum();
        if b.buf_pos() != bytes || !text.is_char_boundary(b.buf_pos()) {
            fail("C05:byte-position", format!("after {op} the byte position in {text:?} is {}, expected {bytes}", b.buf_pos()));
        }
        if b.chars(..b.ch_pos()) != &l[..] {
            fail("C05:chars", format!("after {op} the characters before the cursor are {:?}", b.chars(..b.ch_pos())));
        }
        if dirty && !b.buffer_changed() {
            fail("C05:flag", format!("{op} altered the text but the changed flag is not raised"));
        }
        feature(hash_str(&format!("{o}{}{}{}", l.len().min(9), rt.len().min(9), dirty)));
    }
    if sc.arr("ops").len() >= 5 && kinds.len() >= 3 {
        nontrivial();
    }
    count("edits", sc.arr("ops").len() as u64);
}

// ------------------------------------------------------------------ C06
fn gen_c06(r: &mut Rng, _t: Tier) -> Value {
    let long = r.chance(1, 3);
    let n = if long { r.range(80, 330) } else { r.range(2, 50) };
    let adds = *r.pick(&[1u64, 3, 6, 9]);
    let mut id = 0;
    let ops: Vec<Value> = (0..n)
        .map(|_| {
            if r.below(10) < adds {
                id += 1;
                match r.below(8) {
                    0 => json!(["add", ""]),
                    1 => json!(["add", "same"]),
                    2 => json!(["add", rand_text(r, 6)]),
                    _ => json!(["add", format!("cmd {id}")]),
                }
            } else {
                let max = if long && r.chance(1, 10) { 120 } else { 4 };
                json!([*r.pick(&["back", "fwd"]), r.range(1, max)])
            }
        })
        .collect();
    json!({"ops": ops})
}
fn run_c06(sc: &Value) {
    set_phase("walking the history");
    let mut h = History::new();
    let mut all: Vec<String> = vec![];
    // None: neutral
    let mut at: Option<usize> = None;
    let (mut adds, mut walks) = (0, 0);
    for op in sc.arr("ops") {
        match op[0].as_str().unwrap_or("") {
            "add" => {
                let s = op[1].as_str().unwrap_or("").to_string();
                h.add(s.clone());
                all.push(s);
                at = None;
                adds += 1;
                check_hist(&h, &all, at, "submitting");
            }
            d => {
                for _ in 0..op[1].as_u64().unwrap_or(1) {
                    let n = all.len().min(100);
                    walks += 1;
                    // position counted from the newest: 0 is the newest
                    if d == "back" {
                        h.back();
                        at = match at {
                            None if n > 0 => Some(0),
                            Some(i) if i + 1 < n => Some(i + 1),
                            _ => None,
                        };
                    } else {
                        h.fwd();
                        at = match at {
                            None if n > 0 => Some(n - 1),
                            Some(i) if i > 0 => Some(i - 1),
                            _ => None,
                        };
                    }
                    check_hist(&h, &all, at, d);
                }
            }
        }
        feature(hash_str(&format!("{} {:?}", all.len().min(101), at.map(|x| x.min(5)))));
    }
    if adds >= 2 && walks >= 3 {
        nontrivial();
    }
    count("submissions", adds);
    count("walks", walks);
}
fn check_hist(h: &History, all: &[String], at: Option<usize>, what: &str) {
    let want = at.map(|i| all[all.len() - 1 - i].as_str()).unwrap_or("");
    let got = h.current().unwrap_or("");
    if got != want {
        fail("C06:recall", format!("after {what} with {} lines submitted the history shows {got:?}, expected {want:?}", all.len()));
    }
}
