//! C15 and C17 at the whole shell: what `run` reports is what happened.
use crate::sess::*;
use kit::serde_json::{json, Value as Js};
use kit::simrt::{
    rng::Rng,
    vfs::{vfs, Effect, Op},
};
use kit::{J, *};

pub fn parts() -> Vec<Part> {
    let part = |name| Part {
        name,
        rule: "a user of the real shell runs 1-3 generated batch files (definitions anywhere, expressions which succeed, fail to compile, fail or meet I/O errors; directives; the documented flags in any order), in parallel or sequentially; the report on the screen lists every item once with its line and kind; an item is reported successful exactly when the file it was to leave is there; without fail-fast every item is processed, with it only unprocessed ones are outstanding; every failure is explained",
        gen,
        run,
        tune: no_tune,
        on_end: default_end,
        max_steps: 30_000_000,
        shrink: &["/runs", "/files/*/items", "/faults"],
        runs: (4000, 150_000),
        real: "ogma-shell (shell and interface), ogma (batch parser and processor), tui with its crossterm back end, std, rayon",
        stub: "thread scheduler, clocks, file system (fault injecting), terminal (keys scripted, screen emulated), crossterm event source, table/kserd/numfmt stand-ins",
    };
    vec![part("C15.shell"), part("C17.shell")]
}
fn gen(r: &mut Rng, _t: Tier) -> Js {
    let files: Vec<Js> = (0..r.range(1, 3))
        .map(|_| {
            let items: Vec<Js> = (0..r.range(1, 7))
                .map(|_| json!({"k": *r.pick(&["ok", "ok", "ok", "use", "def", "bad", "miss", "baddef"]), "c": r.chance(1, 3), "b": r.range(1, 2), "nl": r.chance(1, 4)}))
                .collect();
            json!({"items": items, "dir": *r.pick(&["", "", "[fail-fast]", "[no-parallelise]", "[no-parallelise fail-fast]"])})
        })
        .collect();
    let n = files.len() as u64;
    let runs: Vec<Js> = (0..r.range(1, 4)).map(|_| json!({"f": r.below(n), "fl": *r.pick(&["", "", " --no-par", " --no-fail-fast", " --no-par --no-fail-fast", " --no-fail-fast --no-par"])})).collect();
    let faults: Vec<Js> = if r.chance(1, 4) { vec![json!({"suf": format!("o{}.txt", r.below(6)), "skip": r.below(2), "errno": *r.pick(&[5u64, 28, 13])})] } else { vec![] };
    json!({"files": files, "runs": runs, "faults": faults})
}
struct It {
    line: usize,
    def: bool,
    /// None: it fails
    out: Option<String>,
}
fn text(f: &Js) -> (String, Vec<It>) {
    let mut s = String::new();
    let mut v = vec![];
    if !f.s("dir").is_empty() {
        s += f.s("dir");
        s += "\n\n";
    }
    let (mut defd, mut n) = (false, 0);
    // definitions come first, wherever they are
    for i in f.arr("items") {
        defd |= i.s("k") == "def";
    }
    for i in f.arr("items") {
        if i.b("c") {
            s += "# about it\n";
        }
        let line = s.lines().count() + 1;
        let nl = if i.b("nl") { "\n  " } else { " " };
        let out = format!("o{n}.txt");
        let (c, def, ok) = match i.s("k") {
            "use" => (format!("twice 4 |{nl}save '{out}'"), false, defd),
            "def" => (format!("def twice (n:Num) {{{nl}\\ $n | * 2 }}"), true, true),
            "bad" => (format!("\\ 3 | nowhere-defined |{nl}save '{out}'"), false, false),
            "miss" => (format!("open --Str 'missing.txt' |{nl}save '{out}'"), false, false),
            "baddef" => ("def thrice () { nowhere-defined 3 }".to_string(), true, false),
            _ => (format!("\\ 'it {n}' |{nl}save '{out}'"), false, true),
        };
        s += &c;
        s += "\n";
        for _ in 0..i.u("b").max(1) {
            s += "\n";
        }
        v.push(It { line, def, out: (ok && !def).then_some(out.clone()).or((ok && def).then(String::new)) });
        n += 1;
    }
    (s, v)
}

fn run(p: &Js) {
    std::fs::create_dir_all("/w/root").unwrap();
    let files = p.arr("files");
    if files.is_empty() {
        pass();
    }
    for (k, f) in files.iter().enumerate() {
        std::fs::write(format!("/w/root/b{k}.ogma"), text(f).0).unwrap();
    }
    let mut s = Sess::start("/w/root", &[], (150, 140));
    s.alt('h');
    s.mark(10 * SEC);
    let v = vfs();
    for f in p.arr("faults") {
        v.rule(Op::Write, f.s("suf"), f.u("skip") as u32, 1000, Effect::Errno(f.u("errno") as i32), "io");
    }
    for (n, r) in p.arr("runs").iter().enumerate() {
        for i in 0..10 {
            std::fs::remove_file(format!("/w/root/o{i}.txt")).ok();
        }
        let k = r.u("f") as usize % files.len();
        let (src, items) = text(&files[k]);
        let at = v.log.len();
        let cmd = format!("run b{k}.ogma{}", r.s("fl"));
        let o = s.run(&cmd, 30 * SEC);
        let ctx = || format!("{n}: `{cmd}` of\n{src}reports\n{}", o.join("\n"));
        let ff = files[k].s("dir").contains("fail-fast") && !r.s("fl").contains("--no-fail-fast");
        let rep: Vec<&String> = o.iter().filter(|l| l.starts_with("line ") && l.contains(" :: ")).collect();
        if rep.len() != items.len() {
            fail("items reported", format!("{} items, {} lines: {}", items.len(), rep.len(), ctx()));
        }
        let mut failed = 0;
        let any_bad = items.iter().any(|i| i.out.is_none());
        for (i, it) in items.iter().enumerate() {
            // (the report lists definitions first)
            let head = format!("line {} :: {} :: ", it.line, if it.def { "Impl" } else { "Expr" });
            let mut mine = rep.iter().filter(|l| l.starts_with(&head));
            let (Some(l), None) = (mine.next(), mine.next()) else {
                fail("item out of place", format!("item {i} is at line {}, not reported once: {}", it.line, ctx()));
            };
            let f = format!("/w/root/o{i}.txt");
            let there = v.peek(&f).is_some();
            let io = v.log[at..].iter().any(|l| l.op == Op::Write && l.path == f && l.res < 0);
            let ok = l.contains("SUCCESS");
            let err = l.contains("ERROR");
            let outst = l.contains("OUTSTANDING");
            failed += err as usize;
            let should = it.out.is_some() && !io;
            if (ok && !should) || (err && should) || !(ok || err || outst) {
                fail("wrong outcome", format!("item {i} should {}, reported as {l:?}: {}", if should { "succeed" } else { "fail" }, ctx()));
            }
            if outst && !ff {
                fail("item not processed", format!("item {i} is reported as {l:?} without fail-fast: {}", ctx()));
            }
            if outst && ff && !any_bad && p.arr("faults").is_empty() {
                fail("item not processed", format!("item {i} is reported as {l:?} though nothing failed: {}", ctx()));
            }
            if !it.def && ok != there && !io {
                fail("report is untrue", format!("item {i} is reported as {l:?}, its output is {}: {}", if there { "there" } else { "not there" }, ctx()));
            }
            if err && !o.iter().any(|x| x.contains(&format!("Error line {} ::", it.line))) {
                fail("failure not explained", format!("item {i}: {}", ctx()));
            }
            feature(hash_str(&format!("{}{}{ok}{err}{ff}", it.def, it.out.is_some())));
        }
        if files[k].s("dir").contains("no-par") || r.s("fl").contains("--no-par") {
            // one after the other
            let mut w: Vec<usize> = v.log[at..]
                .iter()
                .filter(|l| l.write && l.op == Op::Open)
                .filter_map(|l| l.path.strip_prefix("/w/root/o")?.strip_suffix(".txt")?.parse().ok())
                .collect();
            w.dedup();
            if !w.is_sorted() {
                fail("out of turn", format!("the items' files are written in the order {w:?}: {}", ctx()));
            }
        }
        if failed == 0 && ff && any_bad {
            fail("failure lost", ctx());
        }
        if failed > 0 {
            nontrivial();
        }
    }
}
