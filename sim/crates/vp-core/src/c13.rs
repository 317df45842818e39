//! C13 and C14: saving and opening with failing disks; paths that lead astray.
use super::world::*;
use kit::serde_json::{json, Value as Js};
use kit::simrt::{
    rng::Rng,
    sched,
    vfs::{vfs, Effect, Op},
};
use kit::{J, *};
use ogma::lang::Value;
use std::collections::{BTreeMap, BTreeSet};

const MS: u64 = 1_000_000;
const REAL: &str = "ogma crate (parser, compiler, evaluator, open/save/ls, file cache), std";
const STUB: &str = "thread scheduler, clocks, file system (fault injecting), notify/table/kserd/encoding stand-ins";

pub fn parts() -> Vec<Part> {
    let base = Part {
        name: "C13.disk",
        rule: "1-3 threads saving values (numbers, texts, booleans, tables of random cells), opening them again and listing directories, each thread in its own directory, while directory creation, open, read, write, readdir, stat and path resolution fail, are interrupted, cut short or slow, or the disk is full; non-trivial: at least two operations of which one meets a fault or is a verified save",
        gen: gen13,
        run: run13,
        tune: no_tune,
        on_end: default_end,
        max_steps: 20_000_000,
        shrink: &["/ops/*", "/faults", "/ops"],
        runs: (40_000, 2_000_000),
        real: REAL,
        stub: STUB,
    };
    vec![
        base,
        Part {
            name: "C14.paths",
            rule: "1-2 threads opening and saving random paths (absolute, dotted, through new directories, files, symbolic links to the inside and outside, chains and loops) from random working directories, while another retargets links and directories between calls; every file touched is checked; non-trivial: at least three calls of which one is refused and one succeeds",
            gen: gen14,
            run: run14,
            ..base
        },
    ]
}

// ------------------------------------------------------------------ C13
fn gen_value(r: &mut Rng, rows: u64) -> Js {
    match r.below(8) {
        0 => json!({"k": "num", "v": r.below(100000) as i64 - 50000}),
        1 => json!({"k": "bool", "v": r.chance(1, 2)}),
        2 => json!({"k": "text", "n": r.below(40)}),
        3 => json!({"k": "big", "n": r.range(1, 40) * 1000 }),
        _ => {
            let cols = r.range(1, 4);
            let n = r.below(rows + 1);
            // cells of hundreds or thousands of bytes: what is written does not fit one buffer
            let long = r.chance(1, 3);
            let cells: Vec<Js> = (0..n * cols)
                .map(|_| match r.below(4) {
                    0 | 1 if !long || r.chance(1, 3) => json!(r.below(2000) as i64 - 1000),
                    _ if long => json!({"w": word(r), "n": r.range(1, 700)}),
                    _ => json!(word(r)),
                })
                .collect();
            json!({"k": "table", "cols": cols, "cells": cells})
        }
    }
}
fn word(r: &mut Rng) -> String {
    let n = r.range(1, 6);
    (0..n).map(|_| *r.pick(&['a', 'b', 'q', 'z', 'é', '漢', 'K', '_', ' ', '-'])).collect::<String>().trim().to_string() + "w"
}
fn gen13(r: &mut Rng, _t: Tier) -> Js {
    let nt = r.range(1, 3);
    let ops: Vec<Js> = (0..nt)
        .map(|_| {
            (0..r.range(1, 6))
                .map(|_| {
                    let f = *r.pick(&["a.csv", "b.txt", "sub/c.csv", "x/y/z/d.txt", "new dir/e.csv"]);
                    match r.below(8) {
                        0..=4 => json!({"op": "save", "f": f, "v": gen_value(r, 12), "open": r.chance(2, 3)}),
                        5 => json!({"op": "ls", "f": *r.pick(&["", "many", "sub"])}),
                        6 => json!({"op": "chain", "f": f, "g": "copy.csv"}),
                        _ => json!({"op": "open", "f": f}),
                    }
                })
                .collect()
        })
        .collect();
    let mut faults = vec![];
    if r.chance(4, 5) {
        for _ in 0..r.range(1, 4) {
            let op = *r.pick(&["write", "write", "open", "mkdir", "read", "readdir", "stat", "realpath", "close"]);
            let suf = *r.pick(&["", "a.csv", "b.txt", "c.csv", "d.txt", "e.csv", "z", "sub", "many"]);
            let e = match r.below(8) {
                0 => json!({"errno": 4}),
                1 => json!({"errno": 28}),
                2 => json!({"errno": 5}),
                3 => json!({"errno": 122}),
                4 => json!({"errno": 13}),
                5 => json!({"delay": r.below(400)}),
                _ if op == "write" || op == "read" => json!({"short": r.below(20)}),
                _ => json!({"errno": 5}),
            };
            faults.push(json!({"op": op, "suf": suf, "skip": r.below(5), "times": if r.chance(1, 3) { 1000 } else { r.range(1, 4) }, "e": e}));
        }
    }
    json!({
        "ops": ops, "faults": faults,
        "full": if r.chance(1, 4) { json!(r.below(2000)) } else { Js::Null },
        "wd": r.pick(&["", "t", "t/u"]), "many": r.below(30),
        "chunk": r.pick(&[0u64, 0, 1, 7, 512]),
    })
}

/// The expression producing a value, and the text it is stored as.
fn value_code(v: &Js) -> (String, String) {
    match v.s("k") {
        // (numbers print as the formatter has it)
        "num" => (format!("\\ {}", v.i("v")), num(v.i("v"))),
        "bool" => (format!("\\ {}", if v.b("v") { "#t" } else { "#f" }), format!("{}", v.b("v"))),
        "text" => {
            let s: String = "some text with no quotes, really".chars().cycle().take(v.u("n") as usize).collect();
            (format!("\\ '{s}'"), s)
        }
        "big" => {
            let s: String = "0123456789abcdef".chars().cycle().take(v.u("n") as usize).collect();
            (format!("\\ '{s}'"), s)
        }
        _ => {
            let cols = v.u("cols") as usize;
            let heads: Vec<String> = (0..cols).map(|i| format!("h{i}")).collect();
            let mut code = format!("Table {}", heads.iter().map(|h| format!("'{h}'")).collect::<Vec<_>>().join(" "));
            let mut text = heads.join(",");
            for row in v.arr("cells").chunks(cols) {
                let q: Vec<String> = row.iter().map(|c| c.as_i64().map_or_else(|| format!("'{}'", cell(c)), |n| n.to_string())).collect();
                code += &format!(" | append-row {}", q.join(" "));
                let t: Vec<String> = row.iter().map(|c| c.as_i64().map_or_else(|| cell(c), num)).collect();
                text += &format!("\n{}", t.join(","));
            }
            (code, text)
        }
    }
}
/// The text of a cell.
fn cell(c: &Js) -> String {
    match c.as_str() {
        Some(s) => s.to_string(),
        None => c.s("w").repeat(c.u("n") as usize),
    }
}
/// How a number is written into a cell.
fn num(n: i64) -> String {
    numfmt::Formatter::new().fmt(n as f64).to_string()
}

fn guarded(code: &str, root: &str, wd: &str) -> Res {
    let d = defs();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| eval(code, &d, root, wd))) {
        Ok(r) => r,
        Err(_) => {
            let p = panics().last().cloned().unwrap();
            fail(panic_sig(&p), format!("{code} panicked: {} at {}", p.msg, p.at))
        }
    }
}
fn hits() -> u64 {
    vfs().fault_counts.values().sum()
}

fn run13(sc: &Js) {
    let sc: &'static Js = Box::leak(Box::new(sc.clone()));
    std::fs::create_dir_all("/w").unwrap();
    for t in 0..sc.arr("ops").len() {
        for d in ["t/u", "many", "t/many", "t/u/many"] {
            std::fs::create_dir_all(format!("/w/{t}/{d}")).unwrap();
            for i in 0..sc.u("many") {
                if d.ends_with("many") {
                    put(&format!("/w/{t}/{d}/f{i}"), "x");
                }
            }
        }
    }
    std::env::set_current_dir("/").unwrap();
    if sc.u("chunk") > 0 {
        vfs().chunk = sc.u("chunk") as usize;
    }
    for f in sc.arr("faults") {
        let op = Op::parse(f.s("op")).unwrap();
        let e = &f["e"];
        let eff = if let Some(n) = e["errno"].as_i64() {
            Effect::Errno(n as i32)
        } else if let Some(d) = e["delay"].as_u64() {
            Effect::Delay(d * MS)
        } else {
            Effect::Short(e.u("short") as usize)
        };
        let label = match &eff {
            Effect::Errno(n) => format!("{}-errno-{n}", f.s("op")),
            Effect::Delay(_) => format!("{}-slow", f.s("op")),
            Effect::Short(_) => format!("{}-short", f.s("op")),
        };
        vfs().rule(op, f.s("suf"), f.u("skip") as u32, f.u("times") as u32, eff, Box::leak(label.into_boxed_str()));
    }
    if let Some(n) = sc["full"].as_u64() {
        vfs().capacity = Some(vfs().used() + n);
    }
    set_phase("saving, opening and listing on a failing disk");
    let before = hits();
    static SAVED: Shared<(u64, u64)> = Shared::new((0, 0));
    let ths: Vec<_> = (0..sc.arr("ops").len()).map(|t| std::thread::spawn(move || worker13(sc, t, &SAVED))).collect();
    for t in ths {
        t.join().ok();
    }
    let (saved, ops) = *SAVED.get();
    count("verified-saves", saved);
    if ops >= 2 && (saved > 0 || hits() > before) {
        nontrivial();
    }
    feature(hash_str(&format!("{saved} {ops} {:?}", vfs().fault_counts.iter().map(|(k, v)| (k.clone(), (*v).min(4))).collect::<Vec<_>>())));
}

fn worker13(sc: &Js, t: usize, tally: &Shared<(u64, u64)>) {
    // every thread has a directory of its own; the root is one for all
    let wd = format!("{t}/{}", sc.s("wd"));
    let wd = wd.trim_end_matches('/');
    let base = format!("/w/{wd}");
    let mut known: BTreeMap<String, (String, u64)> = BTreeMap::new();
    for (k, o) in sc.arr("ops")[t].as_array().unwrap().iter().enumerate() {
        let f = o.s("f");
        let full = format!("{base}/{f}");
        tally.get().1 += 1;
        let h0 = hits();
        match o.s("op") {
            "save" => {
                let (code, text) = value_code(&o["v"]);
                let r = guarded(&format!("{code} | save '{f}'"), "/w", wd);
                let clean = hits() == h0;
                log(|| format!("{t}: save {full} {}: {}", o["v"].s("k"), if r.is_ok() { "ok" } else { "error" }));
                match r {
                    Ok(_) => {
                        let got = vfs().peek(&full).map(|b| String::from_utf8_lossy(&b).into_owned());
                        if got.as_deref() != Some(&text) {
                            fail("saved-not-stored", format!("save of {code} to {full} succeeded, the file holds {:?} instead of {:?}", cut(got.as_deref().unwrap_or("<nothing>")), cut(&text)));
                        }
                        tally.get().0 += 1;
                        known.insert(f.to_string(), (text.clone(), sched::now()));
                        if o.b("open") {
                            reopen(o, f, wd, &text);
                        }
                    }
                    Err(e) => {
                        known.remove(f);
                        if clean {
                            fail("save-fails", format!("save of {code} to {full} failed without a fault: {e}"));
                        }
                    }
                }
            }
            "chain" | "open" => {
                // open what is known to be there
                let g = o.s("g");
                let code = if o.s("op") == "chain" { format!("open --Str '{f}' | save '{g}'") } else { format!("open --Str '{f}'") };
                // changes older than a moment must be seen
                sched::sleep_ns(300 * MS + sched::sim().stall_limit());
                let h0 = hits();
                let r = guarded(&code, "/w", wd);
                let clean = hits() == h0;
                match r {
                    Ok(Value::Str(s)) => {
                        if let Some((text, _)) = known.get(f) {
                            if s.to_string() != *text {
                                fail("partial-open", format!("{code} in {base} gives {:?}, the file holds {:?}", cut(&s), cut(text)));
                            }
                        } else if vfs().peek(&full).is_none() {
                            fail("open-nothing", format!("{code} in {base} gives {:?}, there is no such file", cut(&s)));
                        }
                        if o.s("op") == "chain" {
                            let got = vfs().peek(&format!("{base}/{g}")).map(|b| String::from_utf8_lossy(&b).into_owned());
                            if got.as_deref() != Some(&*s) {
                                fail("saved-not-stored", format!("{code} in {base} succeeded, the file holds {:?} instead of {:?}", got.as_deref().map(cut), cut(&s)));
                            }
                        }
                    }
                    Ok(v) => fail("open-type", format!("{code} gives {v:?}")),
                    Err(e) => {
                        if clean && known.contains_key(f) {
                            fail("open-fails", format!("{code} in {base} failed without a fault: {e}"));
                        }
                    }
                }
            }
            _ => {
                let d = if f.is_empty() { base.clone() } else { full.clone() };
                // listed from the directory itself: `ls` takes the working directory as it is
                let code = if f.is_empty() { "ls".to_string() } else { format!("ls '{f}'") };
                let r = guarded(&code, "/w", &base);
                let clean = hits() == h0;
                match r {
                    Ok(Value::Tab(tb)) => {
                        let want = listing(&d);
                        let got: BTreeSet<String> = tb.rows().skip(1).filter_map(|mut r| match r.next() {
                            Some(table::Entry::Obj(Value::Str(s))) => Some(s.to_string()),
                            _ => None,
                        }).collect();
                        if got != want {
                            fail("partial-listing", format!("op {k}: {code} in {base} gives {got:?}, the directory holds {want:?}"));
                        }
                    }
                    Ok(v) => fail("ls-type", format!("{code} gives {v:?}")),
                    Err(e) => {
                        if clean && vfs().canon(&d).is_some() {
                            fail("ls-fails", format!("{code} in {base} failed without a fault: {e}"));
                        }
                    }
                }
            }
        }
    }
}
fn cut(s: &str) -> String {
    if s.len() > 120 {
        format!("{}… ({} bytes)", s.chars().take(100).collect::<String>(), s.len())
    } else {
        s.to_string()
    }
}
fn listing(d: &str) -> BTreeSet<String> {
    vfs().names(d)
}
/// A later open of a stored value gives an equal value.
fn reopen(o: &Js, f: &str, wd: &str, text: &str) {
    sched::sleep_ns(300 * MS + sched::sim().stall_limit());
    let h0 = hits();
    let tab = o["v"].s("k") == "table";
    let code = if tab { format!("open '{f}'") } else { format!("open --Str '{f}'") };
    let r = guarded(&code, "/w", wd);
    let clean = hits() == h0;
    match r {
        Ok(Value::Tab(t)) if tab => {
            let cols = o["v"].u("cols") as usize;
            let mut want: Vec<Vec<String>> = vec![(0..cols).map(|i| format!("'h{i}")).collect()];
            for row in o["v"].arr("cells").chunks(cols) {
                want.push(row.iter().map(|c| c.as_i64().map_or_else(|| format!("'{}", cell(c)), |n| format!("#{n}"))).collect());
            }
            let want = want.iter().map(|r| r.join("|")).collect::<Vec<_>>().join("\n");
            if cells(&t) != want {
                fail("opened-differs", format!("the table saved as {f} was\n{want}\nopening it gives\n{}", cells(&t)));
            }
        }
        Ok(Value::Str(s)) if !tab => {
            if s.to_string() != text {
                fail("opened-differs", format!("the value saved as {f} was {:?}, opening it gives {:?}", cut(text), cut(&s)));
            }
        }
        Ok(v) => fail("open-type", format!("{code} gives {v:?}")),
        Err(e) => {
            if clean {
                fail("open-fails", format!("{code} failed without a fault: {e}"));
            }
        }
    }
}

// ------------------------------------------------------------------ C14
const ROOTS: &[&str] = &["/w/root", "/r", "."];
const WDS: &[&str] = &["", ".", "d0", "d0/d1", "in", "out", "d0/d1/up"];
const SEGS: &[&str] = &["..", "..", ".", "d0", "d1", "in", "out", "up", "self", "loop", "dang", "dango", "fout", "fin", "new", "new2", "a.txt", "b.txt", "secret.txt", "w", "root", "etc", "sib", "rootx", "rx"];

fn gen14(r: &mut Rng, _t: Tier) -> Js {
    let nt = r.range(1, 2);
    let calls: Vec<Js> = (0..nt)
        .map(|_| {
            (0..r.range(2, 9))
                .map(|_| {
                    let mut segs: Vec<String> = (0..r.range(1, 6)).map(|_| r.pick(SEGS).to_string()).collect();
                    if r.chance(1, 2) {
                        segs.push(r.pick(&["a.txt", "b.txt", "n.txt", "secret.txt", "fout", "fin", "dang", "dango"]).to_string());
                    }
                    let mut p = segs.join(if r.chance(1, 12) { "//" } else { "/" });
                    match r.below(10) {
                        0 => p = format!("/{p}"),
                        1 => p = format!("<root>/{p}"),
                        2 => p = format!("<out>/{p}"),
                        3 => p = format!("<root>x/{p}"),
                        4 if r.chance(1, 2) => p.push('/'),
                        _ => (),
                    }
                    json!({"p": p, "wd": r.pick(WDS), "save": r.chance(2, 3), "d": rand_delay(r, 50 * MS)})
                })
                .collect()
        })
        .collect();
    // links moved while the paths are looked at: only by putting another in their place
    let race = r.chance(1, 3);
    let nl = if race { r.range(1, 8) } else if r.chance(1, 3) { r.range(1, 4) } else { 0 };
    let links: Vec<Js> = (0..nl).map(|_| json!({"d": rand_delay(r, 50 * MS), "l": r.pick(&["in", "out", "d0/d1/up", "fout", "fin", "dang", "newl"]), "t": r.pick(&["<out>", "d0", "..", "<root>/d0", "../..", "nowhere", "<out>/nowhere", "a.txt", "<out>/a.txt"])})).collect();
    json!({"race": race, "root": r.pick(ROOTS), "calls": calls, "links": links})
}

fn run14(sc: &Js) {
    let sc: &'static Js = Box::leak(Box::new(sc.clone()));
    let root: &'static str = if sc.s("root") == "." { "/r" } else { Box::leak(sc.s("root").to_string().into_boxed_str()) };
    std::fs::create_dir_all(format!("{root}/d0/d1")).unwrap();
    std::fs::create_dir_all("/o/sub").unwrap();
    std::fs::create_dir_all("/etc").unwrap();
    std::fs::create_dir_all(format!("{root}x")).unwrap();
    for (p, s) in [("/o/secret.txt", "OUTSIDE 1"), ("/secret.txt", "OUTSIDE 2"), ("/o/a.txt", "OUTSIDE 3"), ("/o/sub/b.txt", "OUTSIDE 4"), ("/etc/a.txt", "OUTSIDE 5"), ("/a.txt", "OUTSIDE 6"), ("/b.txt", "OUTSIDE 8")] {
        put(p, s);
    }
    put(&format!("{root}x/a.txt"), "OUTSIDE 7");
    for p in ["a.txt", "d0/a.txt", "d0/d1/b.txt"] {
        put(&format!("{root}/{p}"), format!("inside {p}"));
    }
    let ln = |t: &str, l: &str| std::os::unix::fs::symlink(t, l);
    for (l, t) in [("in", "d0"), ("out", "/o"), ("d0/d1/up", "../../.."), ("self", "."), ("loop", "loop"), ("dang", "d0/nothing.txt"), ("dango", "/o/created.txt"), ("fout", "/o/secret.txt"), ("fin", "d0/a.txt"), ("d0/sib", &format!("{root}x"))] {
        ln(t, &format!("{root}/{l}")).unwrap();
    }
    std::env::set_current_dir(if sc.s("root") == "." { root } else { "/o" }).unwrap();
    let outside = |t: &BTreeMap<String, Vec<u8>>| -> BTreeMap<String, Vec<u8>> { t.iter().filter(|(p, _)| !inside(p, root)).map(|(p, b)| (p.clone(), b.clone())).collect() };
    let out0 = outside(&vfs().tree());
    let dirs0: Vec<String> = vfs().dirs_all().into_iter().filter(|p| !inside(p, root)).collect();
    vfs().log.clear();
    let given = sc.s("root");
    static TALLY: Shared<(u64, u64)> = Shared::new((0, 0));
    let race = sc.b("race");
    let single = sc.arr("calls").len() == 1 && !race;
    // with links changing, files are touched by one thread only: what a path meant has no answer otherwise
    let ths: Vec<_> = (0..sc.arr("calls").len())
        .map(|t| {
            std::thread::spawn(move || {
                for (k, c) in sc.arr("calls")[t].as_array().unwrap().iter().enumerate() {
                    sched::sleep_ns(c.u("d"));
                    if single {
                        if let Some(l) = sc.arr("links").get(k / 2).filter(|_| k % 2 == 1) {
                            let lp = format!("{root}/{}", l.s("l"));
                            let _ = std::fs::remove_file(&lp);
                            let _ = std::os::unix::fs::symlink(l.s("t").replace("<out>", "/o").replace("<root>", root), &lp);
                            log(|| format!("link {lp} -> {}", l.s("t")));
                            sched::sleep_ns(400 * MS + sched::sim().stall_limit());
                        }
                    }
                    let p = c.s("p").replace("<root>", root).replace("<out>", "/o");
                    let before = vfs().tree();
                    let dirs = vfs().dirs_all();
                    let (code, mark) = if c.b("save") {
                        let mark = format!("mark {t} {k}");
                        (format!("\\ '{mark}' | save '{p}'"), Some(mark))
                    } else {
                        (format!("open --Str '{p}'"), None)
                    };
                    let r = guarded(&code, given, c.s("wd"));
                    log(|| format!("{t}: [{}] {code}: {}", c.s("wd"), if r.is_ok() { "ok" } else { "refused" }));
                    if r.is_ok() {
                        TALLY.get().0 += 1
                    } else {
                        TALLY.get().1 += 1
                    }
                    match (&r, mark) {
                        (Ok(v), None) => {
                            if let Value::Str(s) = v {
                                if s.starts_with("OUTSIDE") {
                                    fail("read-outside", format!("{code} in {:?} below {root} gives the content of a file outside: {s}", c.s("wd")));
                                }
                            }
                        }
                        (Ok(_), Some(mark)) => {
                            let t: Vec<String> = vfs().tree().into_iter().filter(|(_, b)| b == mark.as_bytes()).map(|x| x.0).collect();
                            if t.len() != 1 && single {
                                fail("saved-nowhere", format!("{code} in {:?} succeeded; files holding the value: {t:?}", c.s("wd")));
                            }
                        }
                        (Err(_), _) => {
                            if single {
                                let after = vfs().tree();
                                if after != before || dirs != vfs().dirs_all() {
                                    let diff: Vec<&String> = after.keys().filter(|k| before.get(*k) != after.get(*k)).chain(before.keys().filter(|k| !after.contains_key(*k))).collect();
                                    fail("refused-but-changed", format!("{code} in {:?} below {root} is refused but changes {diff:?} {:?}", c.s("wd"), vfs().dirs_all().iter().filter(|d| !dirs.contains(d)).collect::<Vec<_>>()));
                                }
                            }
                        }
                    }
                }
            })
        })
        .collect();
    set_phase("opening and saving odd paths");
    if race {
        // a link is there all the time: it is replaced in one step
        for l in sc.arr("links") {
            sched::sleep_ns(l.u("d"));
            let tmp = format!("{root}/tmp-link");
            let lp = format!("{root}/{}", l.s("l"));
            let _ = std::os::unix::fs::symlink(l.s("t").replace("<out>", "/o").replace("<root>", root), &tmp);
            let _ = std::fs::rename(&tmp, &lp);
            log(|| format!("link {lp} -> {}", l.s("t")));
        }
    }
    for t in ths {
        t.join().ok();
    }
    let out1 = outside(&vfs().tree());
    if out1 != out0 {
        let diff: Vec<&String> = out1.keys().filter(|k| out0.get(*k) != out1.get(*k)).chain(out0.keys().filter(|k| !out1.contains_key(*k))).collect();
        fail("wrote-outside", format!("files outside {root} were changed: {diff:?}"));
    }
    let dirs1: Vec<String> = vfs().dirs_all().into_iter().filter(|p| !inside(p, root)).collect();
    if dirs1 != dirs0 {
        fail("made-outside", format!("directories outside {root} were made: {:?}", dirs1.iter().filter(|d| !dirs0.contains(d)).collect::<Vec<_>>()));
    }
    // nothing outside was opened, not even in passing
    for l in &vfs().log {
        let bad = match l.op {
            Op::Read => true,
            Op::Open => l.write && l.res >= 0,
            Op::Write | Op::Mkdir | Op::Unlink | Op::Rename => l.write && l.res >= 0 && !sc.arr("links").iter().any(|_| l.op == Op::Unlink),
            _ => false,
        };
        if bad && l.res >= 0 && !inside(&l.path, root) {
            fail("touched-outside", format!("{:?} of {} outside {root}", l.op, l.path));
        }
    }
    let (ok, refused) = *TALLY.get();
    count("accepted", ok);
    count("refused", refused);
    if ok >= 1 && refused >= 1 && ok + refused >= 3 {
        nontrivial();
    }
    feature(hash_str(&format!("{} {:?}", sc.s("root"), vfs().log.iter().map(|l| (l.op as u8, l.res >= 0)).collect::<Vec<_>>())));
}
fn inside(p: &str, root: &str) -> bool {
    p == root || p.starts_with(&format!("{root}/"))
}
