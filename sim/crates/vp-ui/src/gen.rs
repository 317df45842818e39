use crate::model::run_ui;
use crate::world::MS;
use kit::serde_json::{json, Value};
use kit::simrt::rng::Rng;
use kit::simrt::sched::Cfg;
use kit::{J, *};

const REAL: &str = "ogma-shell/interface/*.rs (event reader, line editor, history, completion engine, tabs, evaluation thread, drawing), tui, std, crossbeam";
const STUB: &str = "terminal (recording backend, scripted events), clocks, thread scheduler, completers and evaluator (scripted)";

/// Staggered phases depend on what is on the screen at a moment between two arrivals: nothing is
/// stalled in them, or the interface may be far behind what it shows.
fn tune(_: &mut Rng, cfg: &mut kit::simrt::sched::Cfg, sc: &Value) {
    if sc.arr("phases").iter().any(|p| p.b("stag")) {
        cfg.stall_budget = 0;
    }
}

pub fn parts() -> Vec<Part> {
    let base = Part {
        name: "",
        rule: "",
        gen: |_, _| Value::Null,
        run: run_ui,
        tune,
        on_end: default_end,
        max_steps: 12_000_000,
        shrink: &["/phases", "/phases/*/ev", "/completers/*"],
        runs: (40_000, 2_000_000),
        real: REAL,
        stub: STUB,
    };
    vec![
        Part { name: "C01.ui", rule: "typing, cursor, history, dismissal, submission and tab keys in bursts and pauses against 1-3 slow completers; every frame drawn and every quiet point is checked; non-trivial: at least four events", gen: |r, t| gen(r, t, P { completing: 2, tabs: 1, ..ED }), ..base },
        Part { name: "C02.ui", rule: "as C01.ui with longer bursts; after each pause all suggestions for the final line must be on the screen; non-trivial: at least four events", gen: |r, t| gen(r, t, P { completing: 3, ..ED }), ..base },
        Part { name: "C03.ui", rule: "typing followed by up/down bursts through the shown suggestions; non-trivial: at least four events", gen: |r, t| gen(r, t, P { completing: 3, cycle: 5, ..ED }), ..base },
        Part { name: "C04.ui", rule: "bursts of keys, mouse events, resizes and read errors; non-trivial: at least four events", gen: |r, t| gen(r, t, P { errors: 3, resize: 1, ..ED }), ..base },
        Part { name: "C05.ui", rule: "edit keys in bursts; non-trivial: at least four events", gen: |r, t| gen(r, t, P { edit: 12, ..ED }), ..base },
        Part { name: "C06.ui", rule: "submissions and history walks in bursts, several tabs; non-trivial: at least four events", gen: |r, t| gen(r, t, P { hist: 6, enter: 3, tabs: 1, ..ED }), ..base },
        Part { name: "C07.ui", rule: "commands typed in bursts, ahead of slow, failing and panicking evaluations; non-trivial: at least four events", gen: |r, t| gen(r, t, P { enter: 5, evals: 3, abort: 1, ..ED }), ..base },
        Part { name: "C08.ui", rule: "evaluations that are slow, panic or run until aborted, with Ctrl+x and type-ahead; non-trivial: at least four events", gen: |r, t| gen(r, t, P { enter: 5, evals: 4, abort: 3, ..ED }), ..base },
        Part { name: "C09.ui", rule: "opening, switching and closing tabs in bursts with editing, submissions and suggestions; non-trivial: at least four events", gen: |r, t| gen(r, t, P { tabs: 6, enter: 2, evals: 1, completing: 1, ..ED }), ..base },
        Part { name: "C10.ui", rule: "any keys on terminals of any size (1x1 to 200x70) with resizes in mid burst, coloured, wide and multi-line outputs, more than a hundred outputs, scrolling and themes; non-trivial: at least four events", gen: |r, t| gen(r, t, P { resize: 5, enter: 3, outs: 3, scroll: 4, tabs: 1, ..ED }), ..base },
    ]
}

#[derive(Clone, Copy)]
struct P {
    edit: u64,
    hist: u64,
    enter: u64,
    tabs: u64,
    completing: u64,
    cycle: u64,
    errors: u64,
    resize: u64,
    evals: u64,
    abort: u64,
    outs: u64,
    scroll: u64,
}
const ED: P = P { edit: 6, hist: 1, enter: 1, tabs: 0, completing: 0, cycle: 1, errors: 0, resize: 0, evals: 0, abort: 0, outs: 0, scroll: 1 };

const CH: &[&str] = &["a", "b", "x", "o", "p", "1", " ", " ", ".", "/", "-", "_", "|", "é", "日", "🙂", "\u{301}", "ß", "\\", "{", "}", "\"", "K", "ǅ"];
const ASCII: &[&str] = &["a", "b", "x", "o", "p", "1", " ", " ", ".", "/", "-", "_", "|", "\\", "{"];

fn size(r: &mut Rng) -> (u64, u64) {
    if r.chance(1, 40) {
        // a terminal which does not know its size reports none
        return *r.pick(&[(0, 0), (0, 24), (80, 0)]);
    }
    match r.below(6) {
        0 => (r.range(1, 12), r.range(1, 12)),
        1 => (r.range(1, 200), r.range(1, 6)),
        2 => (r.range(1, 8), r.range(1, 70)),
        3 => (120, 40),
        _ => (r.range(10, 160), r.range(4, 60)),
    }
}

fn gen(r: &mut Rng, _t: Tier, p: P) -> Value {
    // scenarios with completers are kept apart: whether Up/Down mean the list or the history depends on timing
    let completing = p.completing > 0 && r.chance(p.completing, 3);
    let ascii = completing || r.chance(1, 2);
    let lat = *r.pick(&[0, 200_000, 5 * MS, 60 * MS, 250 * MS]);
    let ngen = r.range(1, 2);
    // 0: any latency; 1: all slow, so that keys find nothing yet; 2: the first quick, the others slow
    let kind = *r.pick(&[0, 0, 1, 2]);
    let panics = completing && r.chance(1, 5);
    let completers: Vec<Value> = if completing {
        (0..ngen)
            .map(|_| {
                Value::Array(
                    (0..r.range(1, 3))
                        .map(|who| {
                            let lat = if kind == 0 { lat } else { lat.min(5 * MS) };
                            let lats: Vec<u64> = (0..r.range(1, 3)).map(|_| if lat == 0 { 0 } else { rand_delay(r, lat) }).collect();
                            let mut c = json!({"n": *r.pick(&[0, 1, 2, 3, 5, 12]), "lats": lats});
                            if kind == 1 || kind == 2 && who > 0 {
                                c["slow"] = json!(true);
                            }
                            if panics && r.chance(1, 2) {
                                c["panic_at"] = json!(r.below(6));
                            }
                            c
                        })
                        .collect(),
                )
            })
            .collect()
    } else {
        vec![]
    };
    let nev = r.range(1, 4);
    let evals: Vec<Value> = (0..nev)
        .map(|_| {
            let dur = if p.evals > 0 { *r.pick(&[0, 0, 1000, MS, 30 * MS, 400 * MS, 1500 * MS, 3200 * MS]) } else { *r.pick(&[0, 0, 1000, 20 * MS]) };
            let mut e = json!({"dur": dur});
            e["out"] = match r.below(if p.outs > 0 { 12 } else { 6 }) {
                0 => Value::Null,
                1 => json!(""),
                2 => json!("first #\nsecond #\nthird"),
                6 => json!("\u{1b}[31mred #\u{1b}[0m plain"),
                7 => json!("日本語 # é 🙂"),
                8 => json!("long # ".repeat(60)),
                9 => json!("many\nlines\n".repeat(30)),
                10 => json!("\n\n#\n"),
                11 => json!("a\tb\r\n#"),
                _ => json!("out #"),
            };
            if p.evals > 0 && r.chance(1, 5) {
                e["panic"] = json!(*r.pick(&["str", "string", "other"]));
            }
            if p.abort > 0 && r.chance(1, 3) {
                e["until_cancel"] = json!(true);
            }
            if !completing && r.chance(1, 6) {
                e["title"] = json!(*r.pick(&[" renamed ", " two words ", ""]));
            }
            if r.chance(1, 6) {
                e["prompt"] = json!(*r.pick(&["$ ", "dir/sub> ", ""]));
            }
            if completing && r.chance(1, 4) {
                e["newc"] = json!(1);
            }
            e
        })
        .collect();
    let pace = *r.pick(&[0, 50_000, 3 * MS, 40 * MS, 300 * MS]);
    let many = p.outs > 0 && r.chance(1, 12);
    let nph = r.range(1, 6);
    let mut phases = vec![];
    if many {
        // more than a hundred outputs, then down to the oldest
        for _ in 0..3 {
            phases.push(json!({"ev": (0..40).map(|_| json!([0, "enter"])).collect::<Vec<_>>()}));
        }
        phases.push(json!({"ev": (0..25).map(|_| json!([0, "pgdown"])).collect::<Vec<_>>()}));
    }
    if r.chance(3, 4) {
        phases.push(json!({"ev": [[0, "a-h"]]}));
    }
    for _ in 0..nph {
        let d = |r: &mut Rng| if pace == 0 { 0 } else { rand_delay(r, pace) };
        if completing && kind == 2 && r.chance(1, 2) {
            let pre: Vec<Value> = (0..r.range(1, 4))
                .map(|_| {
                    let c = format!("c:{}", r.pick(ASCII));
                    let k = r.pick(&[c.as_str(), c.as_str(), "bs", "del"]).to_string();
                    json!([r.below(2 * MS), k])
                })
                .collect();
            let down = r.chance(2, 3);
            let ev: Vec<Value> = (0..r.range(1, 6))
                .map(|_| {
                    let k = if r.chance(3, 4) == down { "cdown" } else { "cup" };
                    json!([r.below(8 * MS), k])
                })
                .collect();
            phases.push(json!({"stag": true, "pre": pre, "ev": ev}));
            continue;
        }
        if completing && r.chance(p.cycle, 8) {
            let n = r.range(1, 14);
            let bias = r.below(3);
            let ev: Vec<Value> = (0..n)
                .map(|_| {
                    let dd = d(r);
                    let k = match bias {
                        0 => "cdown",
                        1 => "cup",
                        _ => *r.pick(&["cdown", "cup"]),
                    };
                    json!([dd, k])
                })
                .collect();
            phases.push(json!({"ev": ev}));
            continue;
        }
        if completing && r.chance(1, 7) {
            let k = *r.pick(&["esc", "up", "down", "left", "tab"]);
            phases.push(json!({"ev": [[0, k]]}));
            continue;
        }
        let most = if r.chance(1, 4) { 40 } else { 10 };
        let n = r.range(1, most);
        let mut ev = vec![];
        for _ in 0..n {
            let w = [p.edit, p.hist * (!completing || kind == 1) as u64, p.enter, p.tabs, p.errors, p.resize, p.abort, p.scroll, 1];
            let tot: u64 = w.iter().sum();
            let mut x = r.below(tot);
            let mut i = 0;
            while x >= w[i] {
                x -= w[i];
                i += 1;
            }
            let k: String = match i {
                0 => match r.below(20) {
                    0..=10 => format!("c:{}", r.pick(if ascii { ASCII } else { CH })),
                    11 => format!("s:{}", *r.pick(&["A", "Z", "!"])),
                    12 | 13 => "bs".into(),
                    14 => "del".into(),
                    15 | 16 => "left".into(),
                    17 => "right".into(),
                    18 => (*r.pick(&["cleft", "cright", "s-bs"])).into(),
                    _ => if completing { "c:q".into() } else { (*r.pick(&["s-enter", "a-enter"])).to_string() },
                },
                1 => (*r.pick(&["up", "up", "down"])).into(),
                2 => "enter".into(),
                3 => (*r.pick(&["tab", "tab", "tab", "a-t", "a-t", "a-q"])).into(),
                4 => (*r.pick(&["error", "mouse"])).into(),
                5 => {
                    let (a, b) = size(r);
                    format!("resize:{a}x{b}")
                }
                6 => "c-x".into(),
                7 => (*r.pick(&["s-up", "s-down", "pgup", "pgdown"])).into(),
                _ => (*r.pick(&["a-m", "a-h", "f5", "c-a", "a-m"])).into(),
            };
            if completing && k == "esc" {
                continue;
            }
            let dd = d(r);
            ev.push(json!([dd, k]));
        }
        phases.push(json!({"ev": ev}));
    }
    if !completing && r.chance(1, 40) {
        // a lot is pasted, perhaps while a command runs
        let mut ev = vec![];
        if r.chance(2, 3) {
            ev.push(json!([0, "enter"]));
        }
        let off = r.below(26);
        let lines = r.chance(1, 2);
        for i in 0..*r.pick(&[130, 300, 600, 1100]) {
            if lines && r.chance(1, 90) {
                ev.push(json!([0, "enter"]));
            }
            ev.push(json!([0, format!("c:{}", (b'a' + ((off + i * 7) % 26) as u8) as char)]));
        }
        for _ in 0..r.below(4) {
            ev.push(json!([0, *r.pick(&["enter", "left", "bs", "up"])]));
        }
        phases.push(json!({"ev": ev}));
    }
    if p.tabs > 3 && r.chance(1, 3) {
        // close everything, with something around it
        let mut ev = vec![];
        for _ in 0..12 {
            ev.push(json!([0, "a-q"]));
            if r.chance(1, 4) {
                let k = *r.pick(&["c:z", "enter", "tab", "a-h", "left"]);
                ev.push(json!([0, k]));
            }
        }
        phases.push(json!({"ev": ev}));
    }
    let (sw, sh) = if p.resize > 2 { size(r) } else { (120, 40) };
    json!({"completing": completing, "slow": kind == 1, "completers": completers, "evals": evals, "phases": phases, "size": [sw, sh]})
}
