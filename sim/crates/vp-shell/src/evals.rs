//! C08 and C21 at the whole shell: slow, failing, panicking and aborted commands, definitions.
use crate::sess::*;
use kit::serde_json::{json, Value as Js};
use kit::simrt::{
    rng::Rng,
    sched,
    vfs::{vfs, Effect, Op},
};
use kit::{J, *};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::SeqCst;

const REAL: &str = "ogma-shell (shell and interface), ogma, ogma-ls completions, tui with its crossterm back end, std";
const STUB: &str = "thread scheduler, clocks, file system (fault injecting), terminal (keys scripted, screen emulated), crossterm event source, random numbers, table/kserd/numfmt stand-ins";

pub fn parts() -> Vec<Part> {
    vec![
        Part {
            name: "C08.shell",
            rule: "a user of the real shell enters 2-9 commands out of expressions, batches and directory listings on a disk slow by up to minutes, failing and panicking evaluations, definitions and definition loads, and aborts some at random times; frames keep coming while a command runs, the prompt returns within a bound of the command's end or its abort, and the next command is accepted, evaluated and shown within a bound even while aborted ones still run",
            gen: |r, _| gen(r, false),
            run,
            tune: no_tune,
            on_end: default_end,
            max_steps: 30_000_000,
            shrink: &["/ops", "/faults"],
            runs: (7000, 200_000),
            real: REAL,
            stub: STUB,
        },
        Part {
            name: "C21.shell",
            rule: "a user of the real shell works with 1-3 definition files which change, break and fail to be read at random points: `def --load`, single definitions and redefinitions (with texts that look like flags), `def --clear`, `def --list`, calls; a reference model of what is defined; a file adds all or nothing, failures are reported and leave what was there usable",
            gen: |r, _| gen(r, true),
            run,
            tune: no_tune,
            on_end: default_end,
            max_steps: 30_000_000,
            shrink: &["/ops", "/faults"],
            runs: (7000, 200_000),
            real: REAL,
            stub: STUB,
        },
    ]
}

fn gen_file(r: &mut Rng) -> Js {
    let n = r.range(1, 4);
    json!({"n": (0..n).map(|_| json!([r.below(5), r.below(90)])).collect::<Vec<_>>(), "bad": if r.chance(1, 3) { r.range(1, n + 1) } else { 0 }, "missing": r.chance(1, 12)})
}
fn gen(r: &mut Rng, defs: bool) -> Js {
    let nf = r.range(1, 3);
    let ops: Vec<Js> = (0..r.range(2, 9))
        .map(|_| {
            let x = if defs { r.range(11, 25) } else { r.below(19) };
            match x {
                0..=5 => {
                    let secs = *r.pick(&[1u64, 2, 3, 7, 20, 90]);
                    let abort = r.chance(2, 3) || secs > 7;
                    json!({"op": "slow", "f": r.below(3), "ms": secs * 1000 + r.below(1000), "cmd": *r.pick(&["open", "open", "tab", "batch", "ls", "def"]), "abort": if abort { json!(r.below(5000)) } else { Js::Null }})
                }
                6 | 7 => json!({"op": "panic"}),
                8 => json!({"op": "fail", "c": *r.pick(&["\\ 1 | nowhere", "open 'missing.csv'", "ls missing", "\\ 'a' | + 1 |", "run missing.ogma", "cd missing", "open --help", "def x", "def-ty --help", "def-ty --list", "len --help"])}),
                9 | 10 => json!({"op": "fast"}),
                11..=13 => json!({"op": "def", "n": r.below(5), "v": r.below(90), "odd": *r.pick(&["", "", "", "a --load b", " --clear", "--list", "--help"])}),
                14..=17 => json!({"op": "call", "n": r.below(5)}),
                18..=20 => json!({"op": "load", "ms": if r.chance(1, 4) { r.below(5000) } else { 0 }}),
                21 => json!({"op": "clear"}),
                22 => json!({"op": "list"}),
                _ => json!({"op": "write", "f": r.below(nf), "c": gen_file(r)}),
            }
        })
        .collect();
    let faults: Vec<Js> = if defs && r.chance(1, 2) {
        (0..r.range(1, 2))
            .map(|_| json!({"op": *r.pick(&["open", "read", "read"]), "suf": format!("d{}.ogma", r.below(nf)), "skip": r.below(4), "times": r.range(1, 4), "errno": *r.pick(&[5u64, 13, 24])}))
            .collect()
    } else {
        vec![]
    };
    json!({"files": (0..nf).map(|_| gen_file(r)).collect::<Vec<_>>(), "ops": ops, "faults": faults})
}

fn file_text(f: &Js) -> String {
    let mut s = String::new();
    for (i, d) in f.arr("n").iter().enumerate() {
        if f.u("bad") == i as u64 + 1 {
            s += "def bad () { nowhere-defined 3 }\n\n";
        }
        s += &format!("def f{} () {{ \\ {} }}\n\n", d[0], d[1]);
    }
    if f.u("bad") == f.arr("n").len() as u64 + 1 {
        s += "def bad ( { \\ 1\n";
    }
    s
}
fn write_file(k: u64, f: &Js) {
    let p = format!("/w/root/d{k}.ogma");
    let rules = std::mem::take(&mut vfs().rules);
    if f.b("missing") {
        std::fs::remove_file(p).ok();
    } else {
        std::fs::write(p, file_text(f)).unwrap();
    }
    vfs().rules = rules;
}

fn run(p: &Js) {
    std::fs::create_dir_all("/w/root").unwrap();
    for k in 0..3 {
        std::fs::write(format!("/w/root/slow{k}.txt"), "late").unwrap();
        std::fs::write(format!("/w/root/slow{k}.csv"), "a,b\n1,2\n").unwrap();
        std::fs::create_dir_all(format!("/w/root/slow{k}.dir")).unwrap();
        std::fs::write(format!("/w/root/slow{k}.ogma"), format!("open --Str 'slow{k}.txt'\n\nopen --Str 'fast.txt'\n")).unwrap();
    }
    std::fs::write("/w/root/fast.txt", "quick").unwrap();
    let mut files: Vec<Js> = p.arr("files").to_vec();
    for (k, f) in files.iter().enumerate() {
        write_file(k as u64, f);
    }
    let paths: Vec<String> = (0..files.len()).map(|k| format!("d{k}.ogma")).collect();
    let mut s = Sess::start("/w/root", &paths, (150, 60));
    s.alt('h');
    let stall = sched::sim().stall_limit();
    // after this long a command which needs no disk is to be done and shown
    let soon = 2_500 * MS + 3 * stall;
    if !s.mark(soon) {
        s.down("the first command has not come to an end");
    }
    let v = vfs();
    for f in p.arr("faults") {
        let Some(op) = Op::parse(f.s("op")) else { continue };
        v.rule(op, f.s("suf"), f.u("skip") as u32, f.u("times") as u32, Effect::Errno(f.u("errno") as i32), "io");
    }
    let mut defs: BTreeMap<u64, u64> = BTreeMap::new();
    // a slow disk: until when an aborted command still holds on to which file
    let mut held: BTreeMap<String, u64> = BTreeMap::new();
    let (mut aborts, mut done) = (0u64, 0u64);
    for (n, op) in p.arr("ops").iter().enumerate() {
        s.pump();
        s.gap = 0;
        let at = v.log.len();
        log(|| format!("{n}: {op}"));
        let what = op.s("op");
        match what {
            "slow" => {
                let k = op.u("f");
                let cmd = match op.s("cmd") {
                    "open" => format!("open --Str 'slow{k}.txt'"),
                    "tab" => format!("open 'slow{k}.csv' | len"),
                    "batch" => format!("run slow{k}.ogma"),
                    "ls" => format!("ls 'slow{k}.dir'"),
                    _ => format!("def f{k} () {{ open --Str 'slow{k}.txt' | len }}"),
                };
                let suf = match op.s("cmd") {
                    "tab" => format!("slow{k}.csv"),
                    "ls" => format!("slow{k}.dir"),
                    _ => format!("slow{k}.txt"),
                };
                let d = op.u("ms") * MS;
                if op.s("cmd") == "def" {
                    s.run(&cmd, soon);
                    defs.insert(k, 1000 + k);
                    continue;
                }
                if held.get(&suf).map_or(false, |t| *t > sched::now()) {
                    continue;
                }
                // (batches share the worker threads: one queues behind an aborted one which still runs)
                if op.s("cmd") == "batch" && op["abort"].is_null() && held.get("batch").map_or(false, |t| *t > sched::now()) {
                    continue;
                }
                v.rule(if op.s("cmd") == "ls" { Op::Readdir } else { Op::Read }, &suf, 0, 1, Effect::Delay(d), "slow");
                let count0: u64 = v.fault_counts.values().sum();
                let t0 = sched::now();
                s.text(&cmd);
                s.enter();
                match op["abort"].as_u64() {
                    None => {
                        if !s.mark(d + 2 * SEC + soon) {
                            s.down(&format!("`{cmd}` (slow by {} ms) has not come to an end", d / MS));
                        }
                        done += 1;
                    }
                    Some(a) => {
                        s.idle(a * MS);
                        s.ctrl('x');
                        count("fault:abort", 1);
                        let t = sched::now();
                        if !s.wait(1_600 * MS + 3 * stall, |s| !s.busy() && s.outputs().first().map_or(false, |o| o[0].trim_end() == format!(">> {cmd}"))) {
                            s.down(&format!("`{cmd}` was aborted {} ms ago, the prompt has not returned", (sched::now() - t) / MS));
                        }
                        aborts += 1;
                        if v.fault_counts.values().sum::<u64>() > count0 {
                            held.insert(suf, t0 + d + SEC);
                            if op.s("cmd") == "batch" {
                                let e = held.entry("batch".into()).or_default();
                                *e = (*e).max(sched::now() + d) + SEC;
                            }
                        }
                        if !s.mark(soon) {
                            s.down(&format!("after `{cmd}` was aborted the next command has not come to an end"));
                        }
                    }
                }
            }
            "panic" => {
                fastrand::PANIC.store(true, SeqCst);
                count("fault:panic", 1);
                s.text("rand");
                s.enter();
                if !s.mark(soon) {
                    s.down("an evaluation panicked, the next command has not come to an end");
                }
                done += 1;
            }
            "fail" => {
                // (some of these are not implemented and leave no output)
                s.text(op.s("c"));
                s.enter();
                if !s.mark(soon) {
                    s.down(&format!("`{}` and the next command have not come to an end", op.s("c")));
                }
            }
            "fast" => {
                let o = s.run("open --Str 'fast.txt'", soon);
                if o.first().map(|s| s.trim()) != Some("quick") {
                    fail("wrong result", format!("`open --Str 'fast.txt'` gives {o:?}"));
                }
                done += 1;
            }
            "def" => {
                let (k, x) = (op.u("n"), op.u("v"));
                let c = match op.s("odd") {
                    "" => format!("def f{k} () {{ \\ {x} }}"),
                    o => format!("def f{k} () {{ \\ '{o}' | len | * 0 | + {x} }}"),
                };
                let o = s.run(&c, soon);
                if is_err(&o) || o.iter().all(|l| l.is_empty()) {
                    fail("definition refused", format!("`{c}`: {o:?}"));
                }
                defs.insert(k, x);
            }
            "clear" => {
                s.run("def --clear", soon);
                defs.clear();
            }
            "list" => {
                let o = s.run("def --list | filter name --Str != 'x' | len", soon);
                let _ = o;
            }
            "load" => {
                if op.u("ms") > 0 {
                    v.rule(Op::Read, "d0.ogma", 0, 1, Effect::Delay(op.u("ms") * MS), "slow");
                }
                let o = s.run("def --load", op.u("ms") * MS + soon);
                let mut errs = 0;
                for (k, f) in files.iter().enumerate() {
                    let path = format!("/w/root/d{k}.ogma");
                    let io = v.log[at..].iter().any(|l| l.path == path && l.res < 0);
                    if f.b("missing") || f.u("bad") > 0 || io {
                        errs += 1;
                    } else {
                        for d in f.arr("n") {
                            defs.insert(d[0].as_u64().unwrap(), d[1].as_u64().unwrap());
                        }
                        done += 1;
                        if !o.iter().any(|l| l.contains(&format!("d{k}.ogma"))) {
                            fail("load not reported", format!("`def --load` does not report {path}: {o:?}"));
                        }
                    }
                }
                let good = o.iter().filter(|l| l.contains("d") && l.contains(".ogma: ") && l.contains("definitions")).count();
                let said = files.len() - good.min(files.len());
                if said != errs || (errs > 0 && o.iter().filter(|l| !l.is_empty()).count() <= good) {
                    fail("load failures reported", format!("`def --load` reports {said} failures, {errs} files cannot be loaded: {o:#?}"));
                }
            }
            "write" => {
                let k = op.u("f") as usize % files.len();
                files[k] = op["c"].clone();
                write_file(k as u64, &files[k]);
                continue;
            }
            "call" => {
                let k = op.u("n");
                if defs.get(&k).map_or(false, |x| *x >= 1000) {
                    let f = format!("slow{}.txt", defs[&k] - 1000);
                    if held.get(&f).map_or(false, |t| *t > sched::now()) {
                        continue;
                    }
                }
                let o = s.run(&format!("f{k}"), soon + SEC);
                let got = o.first().map(|s| s.trim().to_string()).unwrap_or_default();
                match defs.get(&k) {
                    Some(x) if *x >= 1000 => {
                        if got != "4.0" && got != "4" {
                            fail("wrong result", format!("`f{k}` gives {o:?}, expected 4"));
                        }
                    }
                    Some(x) => {
                        if got.parse::<f64>().ok() != Some(*x as f64) {
                            fail("wrong definition", format!("`f{k}` gives {o:?}, expected {x}"));
                        }
                        done += 1;
                    }
                    None => {
                        if !is_err(&o) {
                            fail("undefined command runs", format!("`f{k}` is not defined, it gives {o:?}"));
                        }
                    }
                }
            }
            _ => continue,
        }
        v.rules.retain(|r| r.label != "slow");
        if s.gap > 1_400 * MS + 2 * stall {
            fail("no redraw", format!("{op}: no frame was drawn for {} ms\n{}", s.gap / MS, s.scr.text()));
        }
        feature(hash_str(&format!("{what}{}{:?}", held.len(), defs.keys().collect::<Vec<_>>())));
    }
    if aborts + done > 1 {
        nontrivial();
    }
    s.alt('q');
    s.wait(5 * SEC + 3 * stall, |s| s.ended().is_some());
    if s.ended() != Some(&Ok(())) {
        s.down("closing the last tab");
    }
}

fn is_err(o: &[String]) -> bool {
    o.iter().any(|l| l.trim_start().starts_with("-->"))
}
