//! C12: opening files while they change.
use super::world::*;
use kit::serde_json::{json, Value as Js};
use kit::simrt::{
    rng::Rng,
    sched,
    vfs::{vfs, Effect, Op},
};
use kit::{J, *};
use ogma::lang::Value;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::Mutex;

const MS: u64 = 1_000_000;
const S: u64 = 1_000 * MS;

pub fn parts() -> Vec<Part> {
    vec![Part {
        name: "C12.open",
        rule: "1-3 threads opening files as text and tables (several roots, working directories, links, names differing in case) while 1-2 threads replace, rewrite, rename, remove and restore them and the directories above; lost, delayed and overflowing change notifications, read errors, short reads, coarse file times, cache expiry; every result is compared with the recorded history of the file; non-trivial: at least three opens and two changes",
        gen,
        run,
        tune: no_tune,
        on_end: default_end,
        max_steps: 20_000_000,
        shrink: &["/muts/*", "/opens/*", "/muts", "/opens", "/faults"],
        runs: (30_000, 2_000_000),
        real: "ogma crate (parser, compiler, evaluator, open/save, file cache with its watcher and cleaner threads), std",
        stub: "thread scheduler, clocks, file system with change notifications, notify stand-in (debouncing back end), table stand-in",
    }]
}

// (directory below the root, path typed)
const PLACES: &[(&str, &str)] = &[
    ("", "a.csv"),
    ("", "A.csv"),
    ("", "b.csv"),
    ("", "d0/a.csv"),
    ("", "d0/b.csv"),
    ("", "d0/d1/a.csv"),
    ("", "cur"),
    ("", "l/a.csv"),
    ("d0", "a.csv"),
    ("d0", "../a.csv"),
    ("d0/d1", "a.csv"),
    ("d2", "a.csv"),
    ("d2", "../d0/a.csv"),
];

fn gen(r: &mut Rng, _t: Tier) -> Js {
    let nm = r.range(1, 2);
    let no = r.range(1, 3);
    // few places, so that they are met again
    let mut pl: Vec<u64> = (0..r.range(1, 4)).map(|_| r.below(PLACES.len() as u64)).collect();
    if r.chance(1, 3) {
        pl.extend([0, 1]);
    }
    let pace = *r.pick(&[20 * MS, 60 * MS, 200 * MS, 600 * MS]);
    let muts: Vec<Js> = (0..nm)
        .map(|_| {
            (0..r.range(1, 6))
                .map(|_| {
                    let op = match r.below(27) {
                        0..=4 => "write",
                        5..=7 => "replace",
                        8 => "longer",
                        9 => "remove",
                        10 => "append",
                        11..=12 => "swap",
                        13 => "mv",
                        14..=15 => "mvdir",
                        16 => "rmdir",
                        17 => "link",
                        18..=19 => "burst",
                        20 => "save",
                        21 => "keeptime",
                        22 if r.chance(1, 3) => "expire",
                        23 => "rewind",
                        24 => "sync",
                        22 | 25 => "exchange",
                        _ => "swapdir",
                    };
                    json!({"op": op, "d": rand_delay(r, pace), "p": r.pick(&pl), "q": r.below(PLACES.len() as u64), "n": r.range(2, 200), "gap": r.below(5) * MS + 500_000})
                })
                .collect()
        })
        .collect();
    let opens: Vec<Js> = (0..no)
        .map(|_| (0..r.range(1, 8)).map(|_| json!({"d": rand_delay(r, pace), "p": r.pick(&pl), "tab": r.chance(1, 2), "v": r.chance(1, 8)})).collect())
        .collect();
    let mut faults = vec![];
    if r.chance(1, 4) {
        for _ in 0..r.range(1, 3) {
            let k = *r.pick(&["read-EIO", "read-EINTR", "short-read", "slow-read", "realpath-EIO", "stat-EIO", "open-EMFILE"]);
            faults.push(json!({"k": k, "skip": r.below(6), "times": r.range(1, 3), "ms": r.below(120)}));
        }
    }
    let root = *r.pick(&["/w", "/w", "/data/w", "."]);
    json!({
        "root": root, "cwd": r.pick(&["/", "/w", "/w/d0", "/data"]), "rev": r.chance(1, 5),
        "muts": muts, "opens": opens, "faults": faults,
        "lose": if r.chance(1, 6) { json!([rand_delay(r, S), rand_delay(r, 2 * S)]) } else { Js::Null },
        "cap": if r.chance(1, 8) { r.range(1, 6) } else { 16384 },
        "gran": r.pick(&[1u64, 1, 4 * MS, 10 * MS]),
        "presave": r.chance(1, 3),
        "big": if r.chance(1, 6) { r.range(1, 2500) } else { 0 },
    })
}

// ------------------------------------------------------------------ history
struct St<T> {
    from: u64,
    to: u64,
    what: T,
}
type Line<T> = Vec<St<T>>;
fn note<T: PartialEq>(l: &mut Line<T>, t0: u64, t1: u64, what: T) -> bool {
    if let Some(last) = l.last_mut() {
        if last.what == what {
            return false;
        }
        last.to = t1;
    }
    l.push(St { from: t0, to: u64::MAX, what });
    true
}
struct Hist {
    paths: Vec<String>,
    /// what each path named
    names: Vec<Line<Option<String>>>,
    /// which file was at each place
    files: BTreeMap<String, Line<Option<u64>>>,
    /// what each file held
    held: BTreeMap<u64, Line<Vec<u8>>>,
    version: u64,
    changes: u64,
}
static HIST: Shared<Option<Hist>> = Shared::new(None);
fn hist() -> &'static mut Hist {
    HIST.get().as_mut().unwrap()
}
impl Hist {
    fn look(&self, i: usize) -> Option<Vec<u8>> {
        vfs().peek(&self.paths[i])
    }
    fn snap(&mut self, t0: u64, t1: u64) {
        for i in 0..self.paths.len() {
            let n = vfs().canon(&self.paths[i]);
            note(&mut self.names[i], t0, t1, n);
        }
        let mut tree = vfs().tree_inos();
        for (i, b) in tree.values() {
            let l = self.held.entry(*i).or_default();
            if l.last().map_or(true, |x| x.what != **b) {
                note(l, t0, t1, b.to_vec());
                self.changes += 1;
            }
        }
        for (p, l) in self.files.iter_mut() {
            if note(l, t0, t1, tree.remove(p).map(|x| x.0)) {
                self.changes += 1;
            }
        }
        for (p, (i, _)) in tree {
            let mut l = vec![];
            note(&mut l, 0, t1, None);
            note(&mut l, t0, t1, Some(i));
            self.files.insert(p, l);
        }
    }
    /// One change of the file system, made by `f`.
    fn step<T>(&mut self, f: impl FnOnce() -> T) -> T {
        let t0 = sched::now();
        let r = f();
        self.snap(t0, sched::now());
        r
    }
    /// A change whose intermediate states are not seen.
    fn blur(&mut self, t0: u64, t1: u64) {
        for l in self.held.values_mut() {
            if l.last().map_or(false, |x| x.from >= t0) {
                l.insert(l.len() - 1, St { from: t0, to: t1, what: vec![] });
            }
        }
        for l in self.files.values_mut() {
            if l.last().map_or(false, |x| x.from >= t0) {
                l.insert(l.len() - 1, St { from: t0, to: t1, what: None });
            }
        }
        for l in self.names.iter_mut() {
            if l.last().map_or(false, |x| x.from >= t0) {
                l.insert(l.len() - 1, St { from: t0, to: t1, what: None });
            }
        }
    }
    /// What path `i` can have given to someone who looked between `lo` and `hi`: for every file it named
    /// what that held in the time, `None` for nothing.
    fn between(&self, i: usize, lo: u64, hi: u64) -> Vec<Option<Vec<&Vec<u8>>>> {
        let mut out = vec![];
        let mut seen = std::collections::BTreeSet::new();
        for n in self.names[i].iter().filter(|x| x.from <= hi && x.to >= lo) {
            match n.what.as_ref().and_then(|c| self.files.get(c)) {
                None => out.push(None), // nothing, or a directory
                Some(l) => {
                    for x in l.iter().filter(|x| x.from <= hi && x.to >= lo) {
                        match x.what {
                            None => out.push(None),
                            Some(i) if seen.insert(i) => out.push(Some(self.held[&i].iter().filter(|x| x.from <= hi && x.to >= lo).map(|x| &x.what).collect())),
                            Some(_) => (),
                        }
                    }
                }
            }
        }
        out
    }
}

/// Contents of one version; those without extra lines are all of the same length.
fn content(v: u64, extra: u64) -> Vec<u8> {
    let mut s = format!("v{v:06},x\n1,2\n3,{v:06}\n");
    for k in 0..extra {
        s += &format!("{k},{v:06}\n");
    }
    s.into_bytes()
}
fn in_place(h: &mut Hist, p: &str, data: &[u8], append: bool) {
    let f = h.step(|| std::fs::OpenOptions::new().write(true).create(true).append(append).truncate(!append).open(p));
    if let Ok(mut f) = f {
        let _ = h.step(|| f.write_all(data));
        h.step(|| drop(f));
    }
}

fn mutate(h: &mut Hist, m: &Js, sc: &Js, root: &str, k: usize) {
    let (p, q) = (abs(root, m.u("p") as usize), abs(root, m.u("q") as usize));
    h.version += 1;
    let v = h.version;
    let tmp = format!("{root}/tmp{k}");
    let big = sc.u("big");
    match m.s("op") {
        "write" => in_place(h, &p, &content(v, 0), false),
        "longer" => in_place(h, &p, &content(v, m.u("n") % 5 + big), false),
        "append" => in_place(h, &p, &content(v, 0), true),
        "replace" => {
            in_place(h, &tmp, &content(v, if m.u("n") % 2 == 0 { 0 } else { big }), false);
            let _ = h.step(|| std::fs::rename(&tmp, &p));
        }
        "keeptime" => {
            // what archivers and synchronisers do: another content of the same length and time
            if let Ok(t) = std::fs::metadata(&p).and_then(|m| m.modified()) {
                in_place(h, &tmp, &content(v, 0), false);
                let _ = h.step(|| std::fs::File::options().write(true).open(&tmp).and_then(|f| f.set_modified(t)));
                let _ = h.step(|| std::fs::rename(&tmp, &p));
            }
        }
        "rewind" => {
            // the same, in place
            if let Ok(t) = std::fs::metadata(&p).and_then(|m| m.modified()) {
                in_place(h, &p, &content(v, 0), false);
                let _ = h.step(|| std::fs::File::options().write(true).open(&p).and_then(|f| f.set_modified(t)));
            }
        }
        "sync" => {
            // one or two copies in a row, their sources of a time long gone
            let t = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000);
            for i in 0..1 + m.u("n") % 2 {
                if i > 0 {
                    sched::sleep_ns(m.u("gap") * (m.u("n") / 2 % 4) / 4);
                    h.version += 1;
                }
                in_place(h, &p, &content(v + i, 0), false);
                let _ = h.step(|| std::fs::File::options().write(true).open(&p).and_then(|f| f.set_modified(t)));
            }
        }
        "exchange" => {
            // the files of the two directories can be as old as each other
            let (a, b) = (format!("{root}/d0"), format!("{root}/{}", ["d2", "d0/d1"][m.u("n") as usize % 2]));
            let _ = h.step(|| std::fs::rename(&b, &tmp));
            let _ = h.step(|| std::fs::rename(&a, &b));
            let _ = h.step(|| std::fs::rename(&tmp, &a));
        }
        "remove" => drop(h.step(|| std::fs::remove_file(&p))),
        "mv" => {
            if p != q {
                let _ = h.step(|| std::fs::rename(&p, &q));
            }
        }
        "swap" => {
            let _ = h.step(|| std::fs::rename(&p, &tmp));
            let _ = h.step(|| std::fs::rename(&q, &p));
            let _ = h.step(|| std::fs::rename(&tmp, &q));
        }
        "mvdir" | "swapdir" | "rmdir" => {
            let d = &format!("{root}/{}", ["d0", "d0/d1", "d2"][m.u("n") as usize % 3]);
            match m.s("op") {
                "mvdir" => {
                    let away = format!("{root}/away{}", m.u("n") % 3);
                    if h.step(|| std::fs::rename(d, &away)).is_err() {
                        let _ = h.step(|| std::fs::rename(&away, d));
                    }
                }
                "swapdir" => {
                    // another directory with files of the same names takes its place
                    let new = format!("{root}/new{k}");
                    let _ = h.step(|| std::fs::create_dir_all(format!("{new}/d1")));
                    in_place(h, &format!("{new}/a.csv"), &content(v, 0), false);
                    h.version += 1;
                    in_place(h, &format!("{new}/d1/a.csv"), &content(v + 1, 0), false);
                    let old = format!("{root}/old{k}-{v}");
                    let _ = h.step(|| std::fs::rename(d, &old));
                    let _ = h.step(|| std::fs::rename(&new, d));
                }
                _ => {
                    let t0 = sched::now();
                    let _ = h.step(|| std::fs::remove_dir_all(d));
                    h.blur(t0, sched::now());
                    if m.u("n") % 2 == 0 {
                        let _ = h.step(|| std::fs::create_dir_all(format!("{d}/d1")));
                        in_place(h, &format!("{d}/a.csv"), &content(v, 0), false);
                    }
                }
            }
        }
        "link" => {
            let l = format!("{root}/cur");
            let _ = h.step(|| std::fs::remove_file(&l));
            let t = ["a.csv", "b.csv", "d0/a.csv"][m.u("n") as usize % 3];
            let _ = h.step(|| std::os::unix::fs::symlink(t, &l));
        }
        "save" => {
            let t0 = sched::now();
            let (_, typed) = PLACES[m.u("p") as usize];
            let wd = PLACES[m.u("p") as usize].0;
            let _ = h.step(|| eval(&format!("\\ 'v{v:06}' | save '{typed}'"), &defs(), sc.s("root"), wd));
            h.blur(t0, sched::now());
        }
        _ => (),
    }
}

fn abs(root: &str, p: usize) -> String {
    let (wd, t) = PLACES[p];
    if wd.is_empty() {
        format!("{root}/{t}")
    } else {
        format!("{root}/{wd}/{t}")
    }
}

fn cut(s: &str) -> String {
    if s.len() > 120 {
        format!("{}… ({} bytes)", s.chars().take(100).collect::<String>(), s.len())
    } else {
        s.to_string()
    }
}
fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
/// Whether what was read can have been read while the path named these files, which held these contents.
fn could_read(got: &Got, all: &[Option<Vec<&Vec<u8>>>], pieces: bool) -> bool {
    let is = |b: &[u8]| match got {
        Got::Text(g) => *g == text(b),
        Got::Tab(g) => *g == cells_dsv(&text(b)),
        Got::Err => false,
    };
    for file in all {
        let Some(states) = file else {
            if *got == Got::Err {
                return true;
            }
            continue;
        };
        if states.iter().any(|x| is(x)) {
            return true;
        }
        let mut some: Vec<&Vec<u8>> = states.clone();
        some.sort();
        some.dedup();
        if pieces && some.len() > 1 && *got != Got::Err {
            return true; // pieces of many states
        }
        // the first part from one, the rest from another: the file was written to while it was read
        for x in &some {
            for y in some.iter().filter(|y| y != &x) {
                for cut in (1..=x.len() / 32).map(|k| k * 32).chain([x.len()]).filter(|c| *c <= 4096 || c % 4096 == 0 || *c == x.len()) {
                    if y.get(..cut) == Some(&x[..cut]) {
                        continue;
                    }
                    let mut mix = x[..cut].to_vec();
                    mix.extend_from_slice(y.get(cut..).unwrap_or(&[]));
                    if is(&mix) {
                        return true;
                    }
                }
            }
        }
    }
    false
}
#[derive(PartialEq)]
enum Got {
    Text(String),
    Tab(String),
    Err,
}

fn open(sc: &Js, p: usize, tab: bool, root: &str) -> (Got, String) {
    let (wd, t) = PLACES[p];
    let code = if tab { format!("open '{t}'") } else { format!("open --Str '{t}'") };
    let d = defs();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| eval(&code, &d, root, wd)));
    let _ = sc;
    match r {
        Err(_) => {
            let p = panics().last().cloned().unwrap();
            fail(panic_sig(&p), format!("opening a file panicked: {} at {}", p.msg, p.at))
        }
        Ok(r) => {
            let s = show(&r);
            match r {
                Ok(Value::Str(s2)) => (Got::Text(s2.to_string()), s),
                Ok(Value::Tab(t)) => (Got::Tab(cells(&t)), cells(&t)),
                Ok(_) => fail("open-type", format!("{code} gives {s}")),
                Err(_) => (Got::Err, s),
            }
        }
    }
}

fn run(sc: &Js) {
    let root = if sc.s("root") == "." { sc.s("cwd").trim_end_matches('/').to_string() } else { sc.s("root").to_string() };
    let root = if root.is_empty() { "/w".to_string() } else { root };
    let given = if sc.s("root") == "." && sc.s("cwd") != "/" { ".".to_string() } else { root.clone() };
    let mut sc2 = sc.clone();
    sc2["root"] = json!(given);
    let sc: &'static Js = Box::leak(Box::new(sc2));
    let root: &'static str = Box::leak(root.into_boxed_str());
    vfs().granularity = sc.u("gran").max(1);
    vfs().watch_cap = sc.u("cap") as usize;
    for d in ["d0/d1", "d2"] {
        std::fs::create_dir_all(format!("{root}/{d}")).unwrap();
    }
    for d in ["/v", "/w/d0", "/data"] {
        std::fs::create_dir_all(d).unwrap();
    }
    std::fs::write("/v/a.csv", content(900_000, 0)).unwrap();
    for (i, f) in ["a.csv", "A.csv", "b.csv", "d0/a.csv", "d0/b.csv", "d0/d1/a.csv", "d2/a.csv"].iter().enumerate() {
        std::fs::write(format!("{root}/{f}"), content(i as u64 + 1, 0)).unwrap();
    }
    std::os::unix::fs::symlink("a.csv", format!("{root}/cur")).unwrap();
    std::os::unix::fs::symlink("d0", format!("{root}/l")).unwrap();
    std::env::set_current_dir(sc.s("cwd")).unwrap();
    let mut paths: Vec<String> = (0..PLACES.len()).map(|p| abs(root, p)).collect();
    paths.push("/v/a.csv".into());
    *HIST.get() = Some(Hist { names: paths.iter().map(|_| vec![]).collect(), paths, files: Default::default(), held: Default::default(), version: 100, changes: 0 });
    hist().snap(0, 0);
    for f in sc.arr("faults") {
        let (op, e): (Op, Effect) = match f.s("k") {
            "read-EIO" => (Op::Read, Effect::Errno(5)),
            "read-EINTR" => (Op::Read, Effect::Errno(4)),
            "short-read" => (Op::Read, Effect::Short(3)),
            "slow-read" => (Op::Read, Effect::Delay(f.u("ms") * MS)),
            "realpath-EIO" => (Op::Realpath, Effect::Errno(5)),
            "stat-EIO" => (Op::Stat, Effect::Errno(5)),
            _ => (Op::Open, Effect::Errno(24)),
        };
        let label = Box::leak(f.s("k").to_string().into_boxed_str());
        vfs().rule(op, "a.csv", f.u("skip") as u32, f.u("times") as u32, e, label);
    }
    let slow: u64 = sc.arr("faults").iter().filter(|f| f.s("k") == "slow-read").map(|f| f.u("ms") * f.u("times") * MS).sum();
    let pieces = sc.arr("faults").iter().any(|f| f.s("k") == "short-read");
    let bound = 300 * MS + sched::sim().stall_limit() + slow;

    // another root first: the cache serves all of them
    if sc.b("rev") {
        let _ = open(sc, 0, true, "/v");
    }
    static LOCK: Mutex<()> = Mutex::new(());
    let mut ths = vec![];
    for (k, ms) in sc.arr("muts").iter().enumerate() {
        ths.push(std::thread::spawn(move || {
            for m in ms.as_array().unwrap() {
                sched::sleep_ns(m.u("d"));
                match m.s("op") {
                    "expire" => sched::sleep_ns(m.u("n") * 3 * S),
                    "burst" => {
                        for i in 0..m.u("n") {
                            let _g = LOCK.lock().unwrap();
                            let h = hist();
                            h.version += 1;
                            let v = h.version;
                            let p = abs(root, m.u("p") as usize);
                            if i == 0 {
                                log(|| format!("rewrites {p} {} times from version {v}", m.u("n")));
                            }
                            in_place(h, &p, &content(v, 0), false);
                            drop(_g);
                            sched::sleep_ns(m.u("gap"));
                        }
                    }
                    _ => {
                        let _g = LOCK.lock().unwrap();
                        log(|| format!("{} {} {} (version {})", m.s("op"), abs(root, m.u("p") as usize), abs(root, m.u("q") as usize), hist().version + 1));
                        mutate(hist(), m, sc, root, k);
                    }
                }
            }
        }));
    }
    for (k, os) in sc.arr("opens").iter().enumerate() {
        ths.push(std::thread::spawn(move || {
            for o in os.as_array().unwrap() {
                sched::sleep_ns(o.u("d"));
                let (p, r, i) = if o.b("v") { (0, "/v", PLACES.len()) } else { (o.u("p") as usize, sc.s("root"), o.u("p") as usize) };
                let hits: u32 = vfs().rules.iter().map(|r| r.hits).sum();
                let s = sched::now();
                let (got, shown) = open(sc, p, o.b("tab"), r);
                let e = sched::now();
                count("opens", 1);
                log(|| format!("opener {k}: {} as {} since {} ms: {}", hist().paths[i], if o.b("tab") { "table" } else { "text" }, (e - s) / MS, shown.lines().next().unwrap_or("")));
                if got == Got::Err && vfs().rules.iter().map(|r| r.hits).sum::<u32>() > hits {
                    continue; // reported
                }
                let lo = s.saturating_sub(bound);
                let all = hist().between(i, lo, e);
                if !could_read(&got, &all, pieces) {
                    let sig = if got == Got::Err { "spurious-error" } else { "stale" };
                    fail(
                        sig,
                        format!(
                            "{} opened as {} gives {:?}; in the {} ms before the call and until its end it held {:?}",
                            hist().paths[i],
                            if o.b("tab") { "table" } else { "text" },
                            cut(&shown),
                            bound / MS,
                            all.iter().take(8).map(|x| x.as_ref().map(|l| l.iter().take(4).map(|b| cut(&text(b))).collect::<Vec<_>>())).collect::<Vec<_>>()
                        ),
                    );
                }
            }
        }));
    }
    if let Some(l) = sc["lose"].as_array() {
        let (a, b) = (l[0].as_u64().unwrap(), l[1].as_u64().unwrap());
        std::thread::spawn(move || {
            sched::sleep_ns(a);
            vfs().watch_lose(true);
            sched::sleep_ns(b);
            vfs().watch_lose(false);
        });
    }
    set_phase("opening files while they change");
    for t in ths {
        if t.join().is_err() {
            let p = panics().last().cloned().unwrap();
            fail(panic_sig(&p), format!("a thread panicked: {} at {}", p.msg, p.at));
        }
    }
    set_phase("opening files at rest");
    sched::sleep_ns(bound);
    for r in vfs().rules.iter_mut() {
        r.times = 0;
    }
    let mut used: Vec<usize> = sc.arr("opens").iter().flat_map(|o| o.as_array().unwrap()).map(|o| o.u("p") as usize).collect();
    used.sort();
    used.dedup();
    for i in used {
        for tab in [false, true] {
            let (got, shown) = open(sc, i, tab, sc.s("root"));
            let now = hist().look(i);
            if !could_read(&got, &[now.as_ref().map(|b| vec![b])], false) {
                fail(
                    "stale-at-rest",
                    format!("long after the last change {} opened as {} gives {:?}, it holds {:?}", hist().paths[i], if tab { "table" } else { "text" }, cut(&shown), now.map(|b| cut(&text(&b)))),
                );
            }
        }
    }
    let n: usize = sc.arr("opens").iter().map(|o| o.as_array().unwrap().len()).sum();
    count("changes", hist().changes);
    if n >= 3 && hist().changes >= 2 {
        nontrivial();
    }
    feature(hash_str(&format!("{} {} {}", n, hist().changes.min(50), hist().files.values().map(|h| h.len().min(4).to_string()).collect::<String>())));
}
