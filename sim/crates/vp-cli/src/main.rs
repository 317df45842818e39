//! C25: the program on the command line. The program's own `main` runs on the simulator, with its
//! arguments, file system, standard output and exit status in the harness's hands.
use kit::serde_json::{json, Value as Js};
use kit::simrt::{
    self,
    rng::Rng,
    sched::End,
    vfs::{vfs, Effect, Op},
};
use kit::{J, *};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

fn main() {
    kit::main(&[Part {
        name: "C25.cli",
        rule: "the program run with 1-5 random file arguments (names, repeated names, patterns, unknown ones), 0-3 definition arguments, quiet or not, on a random tree of batch and definition files (definitions used, redefined and leaked between files, failing items of every kind, directives, files broken or not text), on 1-6 workers, with failing, short or slow reads and writes and injected evaluation panics; exit status, report, order of effects and the files left are compared with a model; non-trivial: at least two files run",
        gen,
        run,
        tune: no_tune,
        on_end,
        max_steps: 30_000_000,
        shrink: &["/files/*/items", "/files", "/defs/*/items", "/defs", "/args", "/dargs", "/faults"],
        runs: (100_000, 5_000_000),
        real: "bin/main.rs and bin/app.rs with clap 3.2, ogma crate (batch parser and processor, compiler, evaluator), rayon, std",
        stub: "thread scheduler, clocks, file system (fault injecting), glob/table/kserd/divvy stand-ins, process arguments and exit",
    }])
}

const NAMES: &[&str] = &["a.ogma", "b1.ogma", "b10.ogma", "b2.ogma", "B.ogma", "sub/z.ogma", "sub/a.ogma", "sub/b1.ogma", "sub.ogma", "é.ogma"];
const PATS: &[&str] = &["*.ogma", "b*.ogma", "sub/*.ogma", "?.ogma", "b[0-9].ogma"];

fn gen_item(r: &mut Rng) -> Js {
    let k = match r.below(18) {
        0..=5 => "ok",
        6 => "own",
        7 => "redef",
        8..=10 => "loaded",
        11 => "leak",
        12 => "def",
        13 => "chain",
        14 => *r.pick(&["bad", "miss", "baddef", "syntax"]),
        15 => "panic",
        _ => "ok",
    };
    json!({"k": k, "n": r.below(3), "nl": r.chance(1, 4), "c": r.chance(1, 5)})
}
fn gen(r: &mut Rng, _t: Tier) -> Js {
    let mut names: Vec<&str> = NAMES.to_vec();
    r.shuffle(&mut names);
    let good = r.chance(1, 2);
    let files: Vec<Js> = names[..r.range(1, 5) as usize]
        .iter()
        .map(|n| {
            let mut items: Vec<Js> = (0..r.below(6)).map(|_| gen_item(r)).collect();
            if good {
                items.retain(|i| ["ok", "own", "def", "redef"].contains(&i.s("k")));
            }
            json!({"name": n, "items": items, "dir": *r.pick(&["", "", "", "[fail-fast]", "[no-parallelise]", "[no-parallelise fail-fast]"]), "kind": if r.chance(1, 25) { *r.pick(&["bytes", "broken", "dir"]) } else { "" }})
        })
        .collect();
    let defs: Vec<Js> = (0..r.below(4))
        .map(|i| {
            let items: Vec<Js> = (0..r.range(1, 3)).map(|_| json!({"n": r.below(3), "v": r.below(50)})).collect();
            json!({"name": format!("d{i}.def"), "items": items, "kind": if r.chance(1, 25) { *r.pick(&["broken", "op", "bytes"]) } else { "" }})
        })
        .collect();
    let mut args: Vec<String> = vec![];
    for _ in 0..r.range(1, 5) {
        args.push(match r.below(5) {
            0 => r.pick(PATS).to_string(),
            1 if r.chance(1, 5) => "gone.ogma".to_string(),
            _ => r.pick(&files).s("name").to_string(),
        });
    }
    let mut dargs: Vec<String> = vec![];
    if !defs.is_empty() && r.chance(4, 5) {
        for _ in 0..r.range(1, 3) {
            dargs.push(match r.below(6) {
                0 => "*.def".to_string(),
                1 if r.chance(1, 5) => "gone.def".to_string(),
                _ => r.pick(&defs).s("name").to_string(),
            });
        }
    }
    let faults: Vec<Js> = if r.chance(1, 4) {
        (0..r.range(1, 2))
            .map(|_| {
                let op = *r.pick(&["open", "read", "write", "write", "close"]);
                let e = match r.below(5) {
                    0 => json!({"errno": 4}),
                    1 => json!({"errno": 28}),
                    2 => json!({"delay": r.below(300)}),
                    3 if op != "open" && op != "close" => json!({"short": r.range(1, 30)}),
                    _ => json!({"errno": 5}),
                };
                json!({"op": op, "suf": *r.pick(&[".txt", ".ogma", ".def"]), "skip": r.below(6), "times": if r.chance(1, 4) { 100 } else { 1 }, "e": e})
            })
            .collect()
    } else {
        vec![]
    };
    json!({"files": files, "defs": defs, "args": args, "dargs": dargs, "q": *r.pick(&["", "", "-q", "--quiet"]), "qpos": r.chance(1, 2), "faults": faults})
}

// ------------------------------------------------------------------ model
struct Item {
    line: usize,
    ty: &'static str,
    /// what it saves, when it succeeds
    out: Option<String>,
    ok: bool,
    panics: bool,
}
struct File {
    name: String,
    items: Vec<Item>,
    src: String,
    ff: bool,
    /// cannot be read or parsed
    broken: bool,
}
/// The loaded definitions: name to value.
type Loaded = BTreeMap<String, u64>;

fn build(k: usize, f: &Js, loaded: &Loaded) -> File {
    let mut s = String::new();
    if !f.s("dir").is_empty() {
        s += f.s("dir");
        s += "\n\n";
    }
    let (its, mut v) = (f.arr("items"), vec![]);
    // definitions are processed first
    let own: BTreeSet<u64> = its.iter().filter(|i| i.s("k") == "def").map(|i| i.u("n")).collect();
    let redef: BTreeSet<u64> = its.iter().filter(|i| i.s("k") == "redef").map(|i| i.u("n")).collect();
    let syntax = its.iter().any(|i| i.s("k") == "syntax");
    for (j, i) in its.iter().enumerate() {
        if i.b("c") {
            s += "# about it\n";
        }
        let line = s.lines().count() + 1;
        let nl = if i.b("nl") { "\n  " } else { " " };
        let o = format!("out-{k}-{j}.txt");
        let n = i.u("n");
        let save = format!("|{nl}to-str | save '{o}'");
        let (c, ty, out, ok) = match i.s("k") {
            "own" => (format!("\\ {j} | + 100 {save}"), "Expr", Some(format!("{}", j + 100)), true),
            // a command of this file
            "chain" => (format!("own{k}x{n} {save}"), "Expr", Some(format!("{}", 1000 + k)), own.contains(&n)),
            "def" => (format!("def own{k}x{n} () {{{nl}\\ {} }}", 1000 + k), "Impl", None, true),
            // a loaded command, redefined here
            "redef" => (format!("def load{n} () {{{nl}\\ {} }}", 2000 + k), "Impl", None, true),
            "loaded" => {
                let v = if redef.contains(&n) { Some(2000 + k as u64) } else { loaded.get(&format!("load{n}")).copied() };
                (format!("load{n} {save}"), "Expr", v.map(|v| v.to_string()), v.is_some())
            }
            // a command of another file
            "leak" => (format!("own{}x{n} {save}", (k + 1 + n as usize % 2) % 5), "Expr", None, false),
            "bad" => (format!("\\ 3 | nowhere-defined {save}"), "Expr", None, false),
            "miss" => (format!("open --Str 'missing.txt' | save '{o}'"), "Expr", None, false),
            "baddef" => ("def thrice () { nowhere-defined 3 }".to_string(), "Impl", None, false),
            "syntax" => ("def thrice ( { }".to_string(), "Impl", None, false),
            "panic" => (format!("rand 1 2 | to-str | save '{o}'"), "Expr", None, true),
            _ => (format!("\\ 'it {k} {j}' | save '{o}'"), "Expr", Some(format!("it {k} {j}")), true),
        };
        s += &c;
        s += "\n\n";
        v.push(Item { line, ty, out, ok, panics: i.s("k") == "panic" });
    }
    let dir = f.s("dir");
    File { name: f.s("name").into(), items: v, src: s, ff: dir.contains("fail-fast"), broken: !f.s("kind").is_empty() || syntax }
}
fn matches(pat: &str, name: &str) -> bool {
    match pat {
        "*.ogma" => !name.contains('/') && name.ends_with(".ogma"),
        "b*.ogma" => name.starts_with('b') && name.ends_with(".ogma"),
        "sub/*.ogma" => name.starts_with("sub/"),
        "?.ogma" => name.chars().count() == 6 && !name.contains('/'),
        "b[0-9].ogma" => name.len() == 7 && name.starts_with('b') && name.as_bytes()[1].is_ascii_digit() && name.ends_with(".ogma"),
        "*.def" => name.ends_with(".def"),
        _ => pat == name,
    }
}
/// The files arguments stand for, `None` when one stands for none.
fn expand(args: &[Js], names: &[String]) -> Option<Vec<String>> {
    let mut v: Vec<PathBuf> = vec![];
    for a in args {
        let m: Vec<_> = names.iter().filter(|n| matches(a.as_str().unwrap(), n)).map(PathBuf::from).collect();
        if m.is_empty() {
            return None;
        }
        v.extend(m);
    }
    v.sort();
    v.dedup();
    Some(v.into_iter().map(|p| p.to_str().unwrap().to_string()).collect())
}

struct Ctx {
    files: Vec<File>,
    /// the files to run, in order; `None`: nothing can be run
    order: Option<Vec<usize>>,
    quiet: bool,
    faults: bool,
    text: String,
}
static CTX: Shared<Option<Ctx>> = Shared::new(None);

fn plain(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// Everything the run left against the model.
fn judge(status: i32) -> Result<(), (String, String)> {
    let c = CTX.get().as_ref().unwrap();
    let out = plain(&String::from_utf8_lossy(&simrt::take_stdout()));
    let err = plain(&String::from_utf8_lossy(&simrt::take_stderr()));
    let v = vfs();
    let bad = |s: &str, m: String| {
        Err((s.to_string(), format!("{m}\n{}\nexit status {status}, standard output:\n{out}\nstandard error:\n{:.1500}\npanics: {}", c.text, err, panics_text())))
    };
    let saved = |k: usize, j: usize| v.peek(&format!("/w/root/out-{k}-{j}.txt")).map(|b| String::from_utf8_lossy(&b).to_string());
    let any_saved = c.files.iter().enumerate().any(|(k, f)| (0..f.items.len()).any(|j| saved(k, j).is_some()));
    let Some(order) = &c.order else {
        if status == 0 {
            return bad("success without the files", "a file or definition cannot be had, yet the program reports success".into());
        }
        return Ok(());
    };
    // when the files were run: first and last write to an output of each
    let mut span: BTreeMap<usize, (u64, u64)> = BTreeMap::new();
    for l in v.log.iter().filter(|l| l.op == Op::Write && l.res > 0) {
        if let Some(n) = l.path.strip_prefix("/w/root/out-") {
            let k: usize = n.split('-').next().unwrap().parse().unwrap();
            let e = span.entry(k).or_insert((l.at, l.at));
            e.1 = l.at;
        }
    }
    for w in order.windows(2) {
        if let (Some(a), Some(b)) = (span.get(&w[0]), span.get(&w[1])) {
            if a.1 > b.0 {
                return bad("files run out of order", format!("an item of {} saved before the last one of {}", c.files[w[1]].name, c.files[w[0]].name));
            }
        }
    }
    // with faults reading may fail before anything runs
    let unread = c.faults && v.log.iter().any(|l| matches!(l.op, Op::Open | Op::Read | Op::Stat | Op::Realpath) && l.res < 0 && !l.path.ends_with(".txt"));
    if status == 101 || (status != 0 && status != 1) {
        // (a panic of an evaluation ends the program, in failure)
        let injected = !panics().is_empty() && panics().iter().all(|p| p.msg.starts_with("injected"));
        if !unread && !(status == 101 && injected) {
            return bad("the program fails", format!("exit status {status}"));
        }
        return Ok(());
    }
    // items which met a fault may or may not have failed: some choice of the failed file must fit
    let maybe = |k: usize| {
        let f = &c.files[k];
        f.items.iter().enumerate().any(|(j, i)| {
            let p = format!("/w/root/out-{k}-{j}.txt");
            i.panics || c.faults && v.log.iter().any(|l| l.path == p && l.res < 0)
        })
    };
    let sure = order.iter().copied().find(|&k| c.files[k].items.iter().any(|i| !i.ok));
    let mut choices = vec![sure];
    for &k in order.iter().take_while(|&&k| Some(k) != sure) {
        if maybe(k) {
            choices.push(Some(k));
        }
    }
    let mut r = Ok(());
    for ch in choices {
        r = judge_if(c, order, ch, status, &out, &err);
        if r.is_ok() {
            break;
        }
    }
    if let Err((s, m)) = r {
        return bad(&s, m);
    }
    if any_saved {
        feature(hash_str(&format!("{status} {}", c.text)));
    }
    Ok(())
}
/// Does everything fit, if `failed` is the file which failed?
fn judge_if(c: &Ctx, order: &[usize], failed: Option<usize>, status: i32, out: &str, err: &str) -> Result<(), (String, String)> {
    let v = vfs();
    let bad = |s: &str, m: String| Err((s.to_string(), m));
    let saved = |k: usize, j: usize| v.peek(&format!("/w/root/out-{k}-{j}.txt")).map(|b| String::from_utf8_lossy(&b).to_string());
    let mut failed_in = None;
    let mut printed = vec![];
    for &k in order {
        let f = &c.files[k];
        // is it reported?
        let head = format!("processing {} items from file '{}'", f.items.len(), f.name);
        let heads = out.lines().filter(|l| *l == head).count();
        if heads != (!c.quiet && failed_in.is_none()) as usize {
            let s = if failed_in.is_some() { "a file is run after a failed one" } else { "a file is not announced once" };
            return bad(s, format!("`{head}` is printed {heads} times"));
        }
        if failed_in.is_some() {
            if (0..f.items.len()).any(|j| saved(k, j).is_some()) {
                return bad("a file is run after a failed one", format!("{} left files though an earlier file failed", f.name));
            }
            continue;
        }
        for (j, i) in f.items.iter().enumerate() {
            let p = format!("/w/root/out-{k}-{j}.txt");
            // an injected panic may meet any file's item
            let fault = c.faults && v.log.iter().any(|l| (l.path == p || i.panics) && l.res < 0);
            let s = saved(k, j);
            if !i.ok && s.is_some() {
                return bad("a failing item has an effect", format!("{} item {j}", f.name));
            }
            if i.ok && !fault && !i.panics && i.out.is_some() && s != i.out {
                if s.is_some() {
                    return bad("an item has another value", format!("{} item {j} leaves {s:?}, should {:?}", f.name, i.out));
                }
                if !f.ff {
                    return bad("an item is not run", format!("{} item {j} leaves nothing", f.name));
                }
            }
        }
        printed.push(k);
        if failed == Some(k) {
            failed_in = Some(k);
        }
    }
    let should = failed_in.is_some();
    if (status == 1) != should {
        return bad(
            if should { "failure is not in the exit status" } else { "success is not in the exit status" },
            format!("an item failed: {}", failed_in.map_or("no".into(), |k| format!("in {}", c.files[k].name))),
        );
    }
    // the lines: standard output of the successful files when verbose, standard error of the failed one
    for k in printed {
        let f = &c.files[k];
        let failed = failed_in == Some(k);
        let sec = if failed { section(err, None) } else { section(out, Some(&f.name)) };
        let want = failed || !c.quiet;
        let lines: Vec<&str> = sec.iter().filter(|l| l.starts_with("line ") && l.contains(" :: ")).copied().collect();
        if !want {
            continue;
        }
        if lines.len() != f.items.len() {
            return bad("not one line per item", format!("{} has {} items, {} lines are printed: {lines:?}", f.name, f.items.len(), lines.len()));
        }
        for (j, i) in f.items.iter().enumerate() {
            let h = format!("line {} :: {} :: ", i.line, i.ty);
            let mut m = lines.iter().filter(|l| l.starts_with(&h));
            let (Some(l), None) = (m.next(), m.next()) else {
                return bad("not one line per item", format!("{} item {j} should have one line {h:?}", f.name));
            };
            let (suc, er) = (l.contains(":: SUCCESS"), l.contains(":: ERROR"));
            if suc && !i.ok || er && i.ok && !i.panics && !c.faults || (!suc && !er && !f.ff) || (!suc && !failed) {
                return bad("a wrong line", format!("{} item {j}, which {}: {l:?}", f.name, if i.ok { "succeeds" } else { "fails" }));
            }
            if suc && i.ty == "Expr" && saved(k, j).is_none() {
                return bad("a wrong line", format!("{} item {j} left nothing: {l:?}", f.name));
            }
            if er && !sec.iter().any(|x| x.starts_with(&format!("--- Error line {} :: ", i.line))) {
                return bad("a failure is not explained", format!("{} item {j}: {l:?}", f.name));
            }
        }
    }
    if c.quiet && !out.is_empty() {
        return bad("quiet prints", String::new());
    }
    Ok(())
}
/// The lines after a file's heading up to the next one.
fn section<'a>(t: &'a str, name: Option<&str>) -> Vec<&'a str> {
    let head = |l: &str| l.starts_with("processing ") && l.contains(" items from file '");
    match name {
        None => t.lines().collect(),
        Some(n) => t.lines().skip_while(|l| !(head(l) && l.ends_with(&format!(" items from file '{n}'")))).skip(1).take_while(|l| !head(l)).collect(),
    }
}

fn on_end(e: &End) -> Verdict {
    match e {
        End::Exit(s) if phase() == "main" => match judge(*s) {
            Ok(()) => Verdict::Ok,
            Err((s, m)) => Verdict::Viol(s, m),
        },
        _ => default_end(e),
    }
}

fn run(p: &Js) {
    std::fs::create_dir_all("/w/root/sub").unwrap();
    vfs().chdir(b"/w/root");
    let fl = p.arr("files");
    if fl.is_empty() || p.arr("args").is_empty() {
        pass();
    }
    let put = |n: &str, t: &str, kind: &str| {
        let p = format!("/w/root/{n}");
        match kind {
            "dir" => std::fs::create_dir_all(&p).unwrap(),
            "bytes" => std::fs::write(&p, [t.as_bytes(), b"\n\n\xff\xfe\n"].concat()).unwrap(),
            "broken" => std::fs::write(&p, format!("{t}\n\ndef thrice ( {{ }}\n")).unwrap(),
            "op" => std::fs::write(&p, format!("{t}\n\ndef thrice () {{ nowhere-defined 3 }}\n")).unwrap(),
            _ => std::fs::write(&p, t).unwrap(),
        }
    };
    // definitions
    let dnames: Vec<String> = p.arr("defs").iter().map(|d| d.s("name").to_string()).collect();
    for d in p.arr("defs") {
        let t: String = d.arr("items").iter().map(|i| format!("# one\ndef load{} () {{ \\ {} }}\n\n", i.u("n"), i.u("v"))).collect();
        put(d.s("name"), &t, d.s("kind"));
    }
    let ds = expand(p.arr("dargs"), &dnames);
    let mut loaded = Loaded::new();
    let mut lost = ds.is_none();
    for n in ds.iter().flatten() {
        let d = p.arr("defs").iter().find(|d| d.s("name") == n).unwrap();
        lost |= !d.s("kind").is_empty();
        for i in d.arr("items") {
            loaded.insert(format!("load{}", i.u("n")), i.u("v"));
        }
    }
    // files
    let files: Vec<File> = fl.iter().enumerate().map(|(k, f)| build(k, f, &loaded)).collect();
    for (f, j) in files.iter().zip(fl) {
        put(&f.name, &f.src, j.s("kind"));
    }
    let names: Vec<String> = files.iter().map(|f| f.name.clone()).collect();
    let fs = expand(p.arr("args"), &names);
    let order: Option<Vec<usize>> = match &fs {
        _ if lost => None,
        None => None,
        Some(v) => {
            let o: Vec<usize> = v.iter().map(|n| names.iter().position(|x| x == n).unwrap()).collect();
            (!o.iter().any(|&k| files[k].broken)).then_some(o)
        }
    };
    let mut args: Vec<String> = p.arr("dargs").iter().map(|d| format!("--def={}", d.as_str().unwrap())).collect();
    args.extend(p.arr("args").iter().map(|a| a.as_str().unwrap().to_string()));
    if !p.s("q").is_empty() {
        args.insert(if p.b("qpos") { 0 } else { args.len() }, p.s("q").into());
    }
    if order.as_ref().map_or(false, |o| o.len() >= 2) {
        nontrivial();
    }
    for f in p.arr("faults") {
        let e = &f["e"];
        let (eff, label) = if e["errno"].is_u64() {
            (Effect::Errno(e.i("errno") as i32), "error")
        } else if e["short"].is_u64() {
            (Effect::Short(e.u("short") as usize), "short")
        } else {
            (Effect::Delay(e.u("delay") * 1_000_000), "slow")
        };
        vfs().rule(Op::parse(f.s("op")).unwrap(), f.s("suf"), f.u("skip") as u32, f.u("times") as u32, eff, label);
    }
    let mut text = format!("ogma {}\n", args.join(" "));
    for f in &files {
        text += &format!("--- {} ---\n{}", f.name, f.src);
    }
    count("files run", order.as_ref().map_or(0, |o| o.len() as u64));
    if files.iter().any(|f| f.items.iter().any(|i| i.panics)) {
        fastrand::PANIC.store(true, std::sync::atomic::Ordering::SeqCst);
        count("fault:evaluation-panic", 1);
    }
    *CTX.get() = Some(Ctx { files, order, quiet: !p.s("q").is_empty(), faults: !p.arr("faults").is_empty(), text });
    simrt::take_stdout();
    simrt::take_stderr();
    clap::sim_args(&args);
    log(|| format!("ogma {}", args.join(" ")));
    set_phase("main");
    let r = std::panic::catch_unwind(ogma_cli::entry);
    let status = if r.is_ok() { 0 } else { 101 };
    if let Err((s, m)) = judge(status) {
        fail(s, m);
    }
}
