//! C15-C18: batches.
use super::world::*;
use kit::serde_json::{json, Value as Js};
use kit::simrt::{
    rng::Rng,
    sched,
    vfs::{vfs, Effect, Op},
};
use kit::{J, *};
use ogma::lang::{ast::Location, Definitions};
use ogma::rt::bat::{self, BatchProgress, ItemType, Outcome, OutcomeProgress};
use std::collections::BTreeMap;
use std::path::Path;

const MS: u64 = 1_000_000;
const REAL: &str = "ogma crate (parser, compiler, evaluator, batch processing, file cache), rayon, crossbeam, parking_lot, serde_json, std";
const STUB: &str = "thread scheduler, clocks, file system, file watcher back end, table/kserd/divvy stand-ins";

pub fn parts() -> Vec<Part> {
    let base = Part {
        name: "",
        rule: "",
        gen: |r, t| gen(r, t, "C15"),
        run: |v| run(v, "C15"),
        tune: no_tune,
        on_end: default_end,
        max_steps: 30_000_000,
        shrink: &["/items"],
        runs: (30_000, 2_000_000),
        real: REAL,
        stub: STUB,
    };
    vec![
        Part {
            name: "C15.batch",
            rule: "random batches of definitions (also repeated, failing, depending on each other) and expressions (pure, reading, saving, failing while parsing, compiling or evaluating, table expressions, I/O faults on their files), sequential or parallel on 1-6 workers; non-trivial: at least two expressions and one definition or failure",
            ..base
        },
        Part {
            name: "C16.batch",
            rule: "the same random batch processed in parallel and sequentially; non-trivial: at least two expressions",
            gen: |r, t| gen(r, t, "C16"),
            run: |v| run(v, "C16"),
            ..base
        },
        Part {
            name: "C17.batch",
            rule: "random batches with fail-fast and/or a cancellation at a random moment (also before the start); non-trivial: some item was not processed",
            gen: |r, t| gen(r, t, "C17"),
            run: |v| run(v, "C17"),
            ..base
        },
        Part {
            name: "C18.batch",
            rule: "random batches, reports recorded; non-trivial: at least two reports",
            gen: |r, t| gen(r, t, "C18"),
            run: |v| run(v, "C18"),
            ..base
        },
    ]
}

// ------------------------------------------------------------------ scenarios
fn gen(r: &mut Rng, _t: Tier, id: &str) -> Js {
    let n = match r.below(10) {
        0 => r.below(3),
        1..=6 => r.range(2, 8),
        _ if r.chance(1, 60) => r.range(255, 330),
        _ => r.range(6, 24),
    };
    let big = n > 200;
    let fails = r.below(5);
    let same = r.chance(1, 2);
    let mut items = vec![];
    for i in 0..n {
        let m = r.below(3);
        let k = match r.below(23) {
            x if big && x % 8 > 0 => {
                if n % 2 == 0 {
                    *r.pick(&["pure", "pure", "pure", "def", "ty", "bad-op"])
                } else {
                    *r.pick(&["def", "ty"])
                }
            }
            20 => "rep",
            21 if same => "rep",
            21 => "rep2",
            0 => "ty",
            1 => "ty-use",
            2 => "ty-bad",
            3..=5 => "def",
            6 => "def-dep",
            7 => "def-bad",
            8..=10 => "copy",
            11 => "pure",
            12 => "use",
            13 => "table",
            14 => "save",
            15 => "shared",
            22 if fails > 0 => "same-bad",
            _ if fails == 0 => "copy",
            16 => "miss",
            17 => "bad-parse",
            18 => "bad-op",
            _ => match r.below(5) {
                0 => "late-fail",
                1 => "rows-fail",
                2 => "io-read",
                3 => "io-write",
                _ => "empty",
            },
        };
        items.push(json!({"k": k, "n": i, "m": m, "v": r.below(90) + 10, "doc": r.chance(1, 4), "rows": r.below(40)}));
    }
    let ff = match id {
        "C15" => false,
        "C16" => false,
        "C17" => r.chance(1, 2),
        _ => r.chance(1, 4),
    };
    let cancel = match id {
        "C17" => match r.below(6) {
            0 if ff => Js::Null,
            1 if ff => Js::Null,
            0 => json!(-1),
            _ => json!(kit::rand_delay(r, 600 * MS)),
        },
        "C18" if r.chance(1, 5) => json!(kit::rand_delay(r, 300 * MS)),
        _ => Js::Null,
    };
    json!({"par": r.chance(2, 3), "ff": ff, "cancel": cancel, "items": items, "pool": r.range(1, 6)})
}

fn code(i: &Js) -> String {
    let (n, m, v) = (i.u("n"), i.u("m"), i.u("v"));
    match i.s("k") {
        "ty" => format!("def-ty T{n} {{ a:Num b:Str }}"),
        "ty-use" => format!("def-ty U{m} {{ x{v}:Num }}"),
        "ty-bad" => format!("def-ty T{n} {{ a:Nope }}"),
        "def" => format!("def f{m} () {{ \\ {v} }}"),
        "def-dep" => format!("def g{m} () {{ f{} | + {v} }}", (m + 1) % 3),
        "def-bad" => format!("def h{n} () {{ nope{v} }}"),
        "copy" => format!("open --Str 'in/{n}.txt' | save 'out/{n}.txt'"),
        "pure" => format!("\\ {v} | + {n}"),
        "use" => format!("f{m} | + {v} | save 'out/{n}.txt'"),
        "table" => format!(
            "range 0 {} | append --sq {{ get i | * 2 }} | filter {{ get i | > {m} }} | map sq {{ + 1 }} | save 'out/{n}.txt'",
            i.u("rows")
        ),
        "save" => format!("\\ 'v{v}' | save 'out/{n}.txt'"),
        "shared" => format!("open 'in/shared.csv' | append --z{m} {{ get a | + {v} }} | save 'out/{n}.txt'"),
        // several items of the same text
        "rep" => format!("\\ 'aaaa' | save 'out/rep{m}.txt'"),
        "rep2" => format!("\\ 'bbbb' | save 'out/rep{m}.txt'"),
        "same-bad" => "open 'in/none.csv'".to_string(),
        "miss" => format!("open 'in/missing{n}.csv'"),
        "bad-parse" => format!("\\ {v} | | + 1"),
        "bad-op" => format!("nope{n} {v}"),
        "late-fail" => format!("\\ 'v{v}' | save 'out/{n}.txt' | nth 99"),
        "rows-fail" => format!("range 0 {} | append {{ get i | let $x | \\ 'ab' | nth $x }}", i.u("rows") + 3),
        "io-read" => format!("open --Str 'in/{n}.txt' | save 'out/{n}.txt'"),
        "io-write" => format!("\\ 'w{v}' | save 'out/{n}.txt'"),
        _ => "open 'in/empty.csv' | sort-by { get a }".to_string(),
    }
}
fn is_def(k: &str) -> bool {
    k.starts_with("ty") || k.starts_with("def")
}

fn text(sc: &Js) -> String {
    let mut s = String::from("# the batch file\n\n");
    let mut d = vec![];
    if !sc.b("par") {
        d.push("no-parallelise")
    }
    if sc.b("ff") {
        d.push("fail-fast")
    }
    if !d.is_empty() {
        s = format!("# the batch file\n[{}]\n\n", d.join(" "));
    }
    for i in sc.arr("items") {
        if i.b("doc") {
            s += &format!("# item {}\n# of this batch\n", i.u("n"));
        }
        s += &code(i);
        s += "\n\n";
    }
    s
}

fn setup(root: &str, sc: &Js) {
    std::fs::create_dir_all(format!("{root}/out")).unwrap();
    put(&format!("{root}/in/shared.csv"), "a,b\n1,x\n2,y\n3,z\n4,w\n");
    put(&format!("{root}/in/empty.csv"), "");
    for i in sc.arr("items") {
        let n = i.u("n");
        if matches!(i.s("k"), "copy" | "io-read") {
            put(&format!("{root}/in/{n}.txt"), format!("text {n} {}", i.u("v")));
        }
        match i.s("k") {
            "io-read" => vfs().rule(Op::Read, &format!("{root}/in/{n}.txt"), 0, 9, Effect::Errno(5), "read-EIO"),
            "io-write" => vfs().rule(
                if i.u("v") % 2 == 0 { Op::Write } else { Op::Open },
                &format!("{root}/out/{n}.txt"),
                0,
                9,
                Effect::Errno(28),
                "write-ENOSPC",
            ),
            _ => (),
        }
    }
}

// ------------------------------------------------------------------ what happened
struct Rec {
    reports: Vec<(u64, u32, Vec<(u64, u8)>)>,
    bad_report: Option<String>,
    cancelled: Option<(u64, u64)>,
}
static REC: Shared<Rec> = Shared::new(Rec { reports: vec![], bad_report: None, cancelled: None });

fn st(o: &OutcomeProgress) -> u8 {
    match o {
        OutcomeProgress::Outstanding => 0,
        OutcomeProgress::Success => 1,
        OutcomeProgress::Failed => 2,
        OutcomeProgress::Cancelled => 3,
    }
}
/// What a report says about which item it is.
fn who(line: u16, ty: ItemType, file: &str, comment: Option<&str>) -> u64 {
    hash_str(&format!("{line} {ty:?} {file:?} {comment:?}"))
}
fn on_send(msg: &str) {
    // handing a report over takes its time: reports are in order only if whoever sends them sees to it
    sched::point();
    let t = sched::now();
    match kit::serde_json::from_str::<BatchProgress>(msg) {
        Ok(p) => {
            let v: Vec<(u64, u8)> = p.iter().map(|x| (who(x.line, x.ty, &x.file, x.comment.as_deref()), st(&x.status))).collect();
            log(|| format!("report {:?}", v.iter().map(|x| x.1).collect::<Vec<_>>()));
            REC.get().reports.push((t, sched::me(), v));
        }
        Err(e) => REC.get().bad_report = Some(format!("{e}: {msg}")),
    }
}

fn same(a: &Outcome, b: &Outcome) -> bool {
    match (a, b) {
        (Outcome::Failed(x), Outcome::Failed(y)) => x == y && x.to_string() == y.to_string(),
        (a, b) => a == b,
    }
}
fn oshow(o: &Outcome) -> String {
    match o {
        Outcome::Failed(e) => format!("Failed({e})"),
        o => format!("{o:?}"),
    }
}

/// Evaluate every item by itself: definitions in order, each expression against all of them.
fn reference(b: &bat::Batch, root: &str) -> Vec<Outcome> {
    let mut d = defs();
    let mut out: Vec<Option<Outcome>> = b.items.iter().map(|_| None).collect();
    for (i, x) in b.items.iter().enumerate() {
        if x.ty() != ItemType::Expr {
            let loc = Location::File(x.file.clone(), x.line);
            let r = ogma::lang::process_definition(x.code(), loc, x.comment.clone(), &mut d);
            out[i] = Some(match r {
                Ok(_) => Outcome::Success,
                Err(e) => Outcome::Failed(e),
            });
        }
    }
    for (i, x) in b.items.iter().enumerate() {
        if x.ty() == ItemType::Expr {
            let loc = Location::File(x.file.clone(), x.line);
            let r = ogma::rt::process_expression((), x.code(), loc, &d, Path::new(root), Path::new(root));
            out[i] = Some(match r {
                Ok(_) => Outcome::Success,
                Err(e) => Outcome::Failed(e),
            });
        }
    }
    out.into_iter().map(Option::unwrap).collect()
}

fn expect_out(sc: &Js, i: &Js) -> Option<String> {
    let v = i.u("v");
    match i.s("k") {
        "copy" => Some(format!("text {} {v}", i.u("n"))),
        "save" | "late-fail" => Some(format!("v{v}")),
        "table" | "shared" => vfs().peek(&format!("/ref/out/{}.txt", i.u("n"))).map(|b| String::from_utf8_lossy(&b).into_owned()),
        "use" => {
            let f = sc.arr("items").iter().filter(|d| d.s("k") == "def" && d.u("m") == i.u("m")).last()?;
            let _ = f;
            vfs().peek(&format!("/ref/out/{}.txt", i.u("n"))).map(|b| String::from_utf8_lossy(&b).into_owned())
        }
        _ => None,
    }
}

fn run(sc: &Js, id: &str) {
    unsafe { divvy::ON_SEND = Some(on_send) };
    let want = |x: &str| x == id;
    setup("/ref", sc);
    setup("/w", sc);
    put("/b/batch.ogma", text(sc));
    std::env::set_current_dir("/w").unwrap();
    set_phase("parsing the batch");
    let parse = || match bat::parse_file("/b/batch.ogma") {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => fail("batch-parse", format!("a well formed batch file does not parse: {e}")),
        Err(e) => fail("batch-read", format!("{e}")),
    };
    let b = parse();
    let items = sc.arr("items");
    // the items: types, then implementations, then expressions, each in file order
    let rank = |k: &str| if k.starts_with("ty") { 0 } else if k.starts_with("def") { 1 } else { 2 };
    let mut order: Vec<&Js> = items.iter().collect();
    order.sort_by_key(|i| rank(i.s("k")));
    if b.items.len() != items.len() || b.items.iter().zip(&order).any(|(x, i)| x.code() != code(i)) {
        fail("batch-items", format!("the parsed items {:?} are not those of the file", b.items.iter().map(|x| x.code()).collect::<Vec<_>>()));
    }
    if b.parallelise != sc.b("par") || b.fail_fast != sc.b("ff") {
        fail("batch-directives", "the batch directives are not those of the file");
    }
    set_phase("evaluating the items one by one");
    let refo = reference(&b, "/ref");
    for (o, i) in refo.iter().zip(&order) {
        let k = i.s("k");
        let ok = match k {
            "ty" | "def" | "copy" | "pure" | "table" | "save" | "shared" | "rep" | "rep2" => Some(true),
            "ty-bad" | "def-bad" | "miss" | "same-bad" | "bad-parse" | "bad-op" | "late-fail" | "rows-fail" | "io-read" | "io-write" => Some(false),
            "use" => Some(items.iter().any(|d| d.s("k") == "def" && d.u("m") == i.u("m"))),
            _ => None,
        };
        if let Some(ok) = ok {
            if ok != (*o == Outcome::Success) {
                inconclusive(format!("the template {} evaluates to {}", code(i), oshow(o)));
            }
        }
    }
    let sw = divvy::Switch::off();
    let (tx, _rx) = divvy::ProgressTx::collecting(sw.clone());
    let cancel = sc["cancel"].as_i64();
    set_phase("processing the batch");
    match cancel {
        Some(-1) => {
            sw.flip_on();
            REC.get().cancelled = Some((sched::now(), sched::now()));
        }
        Some(d) => {
            let sw = sw.clone();
            std::thread::spawn(move || {
                sched::sleep_ns(d as u64);
                let a = sched::now();
                sw.flip_on();
                REC.get().cancelled = Some((a, sched::now()));
                log(|| "cancelled".into());
            });
        }
        None => (),
    }
    *BEGIN.get() = sched::now();
    let par_first = process(&b, &tx, sc);
    let (out, t_end) = par_first;
    let rec = REC.get();
    for (o, x) in out.iter().zip(&b.items) {
        log(|| format!("{} -> {}", x.code(), oshow(o)));
    }
    count(if sc.b("par") { "batches:parallel" } else { "batches:sequential" }, 1);
    count("items", out.len() as u64);
    feature(hash_str(&format!("{}{}{:?}", sc.b("par"), sc.b("ff"), out.iter().map(|o| match o { Outcome::Success => 0, Outcome::Failed(_) => 1, Outcome::Outstanding => 2, Outcome::Cancelled => 3 }).collect::<Vec<_>>())));
    let nexpr = b.items.iter().filter(|x| x.ty() == ItemType::Expr).count();
    let processed = |o: &Outcome| matches!(o, Outcome::Success | Outcome::Failed(_));
    let nproc = out.iter().filter(|o| processed(o)).count();
    let threads = if sc.b("par") { sched::cpus() as usize + 1 } else { 1 };

    if want("C15") {
        if out.len() != items.len() {
            fail("outcome-count", format!("{} outcomes for {} items", out.len(), items.len()));
        }
        for ((o, r), i) in out.iter().zip(&refo).zip(&order) {
            if !same(o, r) {
                fail(
                    format!("outcome:{}", i.s("k")),
                    format!("item {:?} is reported {} in the batch, by itself it gives {}", code(i), oshow(o), oshow(r)),
                );
            }
        }
        if !sc.b("par") {
            in_turn(&order);
        }
        files(sc, &order, &out);
        shared_files(sc, &order, &out);
        if nexpr >= 2 && (nexpr < out.len() || nproc < out.len() || out.iter().any(|o| matches!(o, Outcome::Failed(_)))) {
            nontrivial();
        }
    }
    if want("C16") {
        // the same batch the other way
        let mut b2 = parse();
        b2.parallelise = !b.parallelise;
        set_phase("processing the batch the other way");
        let (out2, _) = process(&b2, &divvy::ProgressTx::dummy(), sc);
        let (p, s) = if b.parallelise { (&out, &out2) } else { (&out2, &out) };
        if p.len() != s.len() {
            fail("outcome-count", format!("{} outcomes in parallel, {} in sequence", p.len(), s.len()));
        }
        for ((o, r), i) in p.iter().zip(s).zip(&order) {
            if !same(o, r) {
                fail(
                    format!("differs:{}", i.s("k")),
                    format!("item {:?} gives {} in parallel, {} in sequence", code(i), oshow(o), oshow(r)),
                );
            }
        }
        if nexpr >= 2 {
            nontrivial();
        }
    }
    if want("C17") {
        stops(sc, &order, &out, &refo, threads, t_end);
        if nproc < out.len() {
            nontrivial();
        }
    }
    if want("C18") {
        reports(&b, &out, rec);
        if rec.reports.len() >= 2 {
            nontrivial();
        }
    }
}

fn process(b: &bat::Batch, tx: &divvy::ProgressTx, _sc: &Js) -> (Vec<Outcome>, u64) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        bat::process(b, Path::new("/w"), Path::new("/w"), tx, defs())
    }));
    match r {
        Ok(v) => (v.into_iter().map(|x| x.0).collect(), sched::now()),
        Err(_) => {
            let p = panics().last().cloned().unwrap();
            fail(panic_sig(&p), format!("processing the batch panicked: {} at {}", p.msg, p.at))
        }
    }
}

/// What the items left on the disk.
fn files(sc: &Js, order: &[&Js], out: &[Outcome]) {
    let opens = writes();
    for (o, i) in out.iter().zip(order) {
        let n = i.u("n");
        let path = format!("/w/out/{n}.txt");
        let c = opens.get(&path).map(|v| v.len()).unwrap_or(0);
        if c > 1 {
            fail("evaluated-twice", format!("item {:?} saved its file {c} times", code(i)));
        }
        if *o == Outcome::Success {
            if let Some(want) = expect_out(sc, i) {
                let got = vfs().peek(&path).map(|b| String::from_utf8_lossy(&b).into_owned());
                if got.as_deref() != Some(&want) {
                    fail("success-without-effect", format!("item {:?} is reported successful, its file holds {got:?} instead of {want:?}", code(i)));
                }
            }
        }
    }
}
/// What items which write the same file left there.
fn shared_files(sc: &Js, order: &[&Js], out: &[Outcome]) {
    let opens = writes();
    for m in 0..3 {
        let path = format!("/w/out/rep{m}.txt");
        let ok: Vec<&str> = out.iter().zip(order).filter(|(o, i)| **o == Outcome::Success && i.s("k").starts_with("rep") && i.u("m") == m).map(|(_, i)| i.s("k")).collect();
        let c = opens.get(&path).map(|v| v.len()).unwrap_or(0);
        if c > 0 && c != ok.len() {
            fail("not-evaluated-once", format!("{} successful items save {path}, it was saved {c} times", ok.len()));
        }
        let Some(last) = ok.last() else { continue };
        let got = vfs().peek(&path).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        let of = |k: &str| if k == "rep" { "aaaa" } else { "bbbb" };
        if if sc.b("par") { !ok.iter().any(|k| of(k) == got) } else { of(last) != got } {
            fail("success-without-effect", format!("{path} was saved by {ok:?} in this order, it holds {got:?}"));
        }
    }
}
/// Times at which each file was opened for writing.
fn writes() -> BTreeMap<String, Vec<u64>> {
    let mut m: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    for l in &vfs().log {
        if l.op == Op::Open && l.write && l.res >= 0 {
            m.entry(l.path.clone()).or_default().push(l.at);
        }
    }
    m
}
/// When an item was first seen to touch one of its own files.
fn starts(order: &[&Js], since: u64) -> Vec<Option<u64>> {
    order
        .iter()
        .map(|i| {
            let n = i.u("n");
            let (a, b, c) = (format!("/w/in/{n}.txt"), format!("/w/out/{n}.txt"), format!("/w/in/missing{n}.csv"));
            vfs().log.iter().filter(|l| l.at >= since && (l.path == a || l.path == b || l.path == c)).map(|l| l.at).next()
        })
        .collect()
}

/// Without parallel processing one expression is done before the next one starts.
fn in_turn(order: &[&Js]) {
    let begin = *BEGIN.get();
    let mut last: Option<(u64, &Js)> = None;
    for i in order {
        let n = i.u("n");
        let own = [format!("/w/in/{n}.txt"), format!("/w/out/{n}.txt"), format!("/w/in/missing{n}.csv")];
        let at: Vec<u64> = vfs().log.iter().filter(|l| l.at >= begin && own.contains(&l.path)).map(|l| l.at).collect();
        if let (Some(a), Some(b)) = (at.first(), at.last()) {
            if let Some((_, j)) = last.filter(|l| l.0 > *a) {
                fail("out-of-turn", format!("item {:?} starts before {:?} is done, in a batch which is not parallelised", code(i), code(j)));
            }
            last = Some((*b, i));
        }
    }
}

fn stops(sc: &Js, order: &[&Js], out: &[Outcome], refo: &[Outcome], threads: usize, t_end: u64) {
    let rec = REC.get();
    let ff = sc.b("ff");
    let begin = *BEGIN.get();
    let starts = starts(order, begin);
    let processed = |o: &Outcome| matches!(o, Outcome::Success | Outcome::Failed(_));
    // each item alone
    for (k, (o, i)) in out.iter().zip(order).enumerate() {
        if processed(o) {
            if !is_def(i.s("k")) && !ff && rec.cancelled.is_none() && !same(o, &refo[k]) {
                fail("own-outcome", format!("item {:?} is reported {}, by itself it gives {}", code(i), oshow(o), oshow(&refo[k])));
            }
        } else if starts[k].is_some() {
            fail("started-but-unprocessed", format!("item {:?} was started but is reported {}", code(i), oshow(o)));
        }
    }
    // a fault of one item stops nothing without fail-fast
    if !ff && rec.cancelled.is_none() {
        if let Some(k) = out.iter().position(|o| !processed(o)) {
            fail("stopped-without-reason", format!("item {:?} is reported {} though nothing was cancelled and fail-fast is off", code(order[k]), oshow(&out[k])));
        }
    }
    let reported_at: Vec<Option<u64>> = first_reports(out.len());
    for (k, o) in out.iter().enumerate() {
        if !processed(o) && reported_at[k].is_some() {
            fail("reported-but-unprocessed", format!("item {:?} was reported processed but ends as {}", code(order[k]), oshow(o)));
        }
    }
    // cancellation
    if let Some((t0, t1)) = rec.cancelled {
        let late: Vec<usize> = (0..out.len())
            .filter(|&k| starts[k].map_or(reported_at[k].map_or(false, |t| t > t1) && is_def(order[k].s("k")), |t| t > t1))
            .collect();
        if late.len() > threads {
            fail(
                "started-after-cancel",
                format!("{} items started after the cancellation, at most {threads} can have been under way: {:?}", late.len(), late.iter().map(|&k| code(order[k])).collect::<Vec<_>>()),
            );
        }
        // everything which can be told from reports
        let repl = reported_at.iter().filter(|t| t.map_or(false, |t| t > t1)).count();
        if repl > threads {
            fail("processed-after-cancel", format!("{repl} items were processed after the cancellation, at most {threads} can have been under way"));
        }
        let last = reported_at.iter().flatten().max().copied().unwrap_or(begin);
        for (k, o) in out.iter().enumerate() {
            if *o == Outcome::Outstanding && t1 <= last.max(begin) {
                fail("cancelled-as-outstanding", format!("processing was cancelled, item {:?} is reported outstanding", code(order[k])));
            }
            if *o == Outcome::Cancelled && t0 > t_end {
                fail("cancelled-without-request", format!("item {:?} is reported cancelled before cancellation was requested", code(order[k])));
            }
        }
    } else if let Some(k) = out.iter().position(|o| *o == Outcome::Cancelled) {
        fail("cancelled-without-request", format!("item {:?} is reported cancelled, nothing was cancelled", code(order[k])));
    }
    // fail-fast
    let first_fail = (0..out.len()).filter(|&k| matches!(out[k], Outcome::Failed(_))).filter_map(|k| reported_at[k]).min();
    if ff {
        if !sc.b("par") {
            if let Some(f) = out.iter().position(|o| matches!(o, Outcome::Failed(_))) {
                if let Some(k) = (f + 1..out.len()).find(|&k| processed(&out[k])) {
                    fail("processed-after-failure", format!("item {:?} was processed after {:?} had failed", code(order[k]), code(order[f])));
                }
            } else if rec.cancelled.is_none() {
                if let Some(k) = out.iter().position(|o| !processed(o)) {
                    fail("stopped-without-reason", format!("item {:?} is reported {} though no item failed", code(order[k]), oshow(&out[k])));
                }
            }
        } else {
            let deff = out.iter().zip(order).position(|(o, i)| is_def(i.s("k")) && matches!(o, Outcome::Failed(_)));
            if let Some(f) = deff {
                if let Some(k) = (f + 1..out.len()).find(|&k| processed(&out[k])) {
                    fail("processed-after-failure", format!("item {:?} was processed after the definition {:?} had failed", code(order[k]), code(order[f])));
                }
            }
            if first_fail.is_none() && rec.cancelled.is_none() {
                if let Some(k) = out.iter().position(|o| !processed(o)) {
                    fail("stopped-without-reason", format!("item {:?} is reported {} though no item failed", code(order[k]), oshow(&out[k])));
                }
            }
            if let Some(t) = first_fail {
                // the failing item's thread needs a moment to make its failure known
                let known = t + sched::sim().stall_limit() + 60 * MS;
                let late = starts.iter().flatten().filter(|s| **s > known).count();
                if late > threads {
                    fail("started-after-failure", format!("{late} items started long after an item had failed"));
                }
                let late = reported_at.iter().flatten().filter(|s| **s > known).count();
                if late > threads {
                    fail("processed-after-failure", format!("{late} items were processed long after an item had failed"));
                }
            }
        }
    }
    // a started item which fails by itself is reported as failed
    for (k, i) in order.iter().enumerate() {
        if i.s("k") == "late-fail" && starts[k].is_some() && !matches!(out[k], Outcome::Failed(_)) {
            fail("failure-not-reported", format!("item {:?} was evaluated and failed, it is reported {}", code(i), oshow(&out[k])));
        }
    }
}
static BEGIN: Shared<u64> = Shared::new(0);

/// When each item was first reported processed.
fn first_reports(n: usize) -> Vec<Option<u64>> {
    let mut v = vec![None; n];
    for (t, _, r) in &REC.get().reports {
        for (k, x) in r.iter().enumerate().take(n) {
            if x.1 != 0 && v[k].is_none() {
                v[k] = Some(*t);
            }
        }
    }
    v
}

fn reports(b: &bat::Batch, out: &[Outcome], rec: &Rec) {
    if let Some(e) = &rec.bad_report {
        fail("report-form", format!("a progress report does not parse: {e}"));
    }
    let n = b.items.len();
    let is: Vec<u64> = b.items.iter().map(|i| who(i.line, i.ty(), &i.file.display().to_string(), i.comment.as_deref())).collect();
    let mut prev: Vec<u8> = vec![0; n];
    for (k, (_, _, r)) in rec.reports.iter().enumerate() {
        if r.len() != n || r.iter().zip(&is).any(|(x, i)| x.0 != *i) {
            fail("report-items", format!("report {k} does not list the items in order"));
        }
        let cur: Vec<u8> = r.iter().map(|x| x.1).collect();
        let changed: Vec<usize> = (0..n).filter(|&i| cur[i] != prev[i]).collect();
        if let Some(&i) = changed.iter().find(|&&i| prev[i] != 0) {
            fail("status-changed", format!("report {k}: item {:?} changes from {} to {}", b.items[i].code(), prev[i], cur[i]));
        }
        if changed.len() != 1 {
            fail("report-step", format!("report {k} makes {} items processed instead of one", changed.len()));
        }
        prev = cur;
    }
    for (k, o) in out.iter().enumerate() {
        let s = match o {
            Outcome::Success => 1,
            Outcome::Failed(_) => 2,
            _ => 0,
        };
        if prev[k] != s {
            fail("last-report", format!("the last report says {} about item {:?}, its outcome is {}", prev[k], b.items[k].code(), oshow(o)));
        }
    }
}

#[allow(unused)]
fn _t(_: &Definitions) {}
