//! The simulation driver: generates scenarios from seeds, runs each in its own forked process under the
//! simulator, checks the verdicts, minimises and stores violations, and replays them.
use serde_json::{json, Map, Value};
use simrt::{
    real,
    rng::Rng,
    sched::{self, Cfg, Dec, End, Mode},
};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;

mod drive;
mod shrink;
pub use drive::main;
pub use serde_json;
pub use simrt;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// One kind of simulated run of one property.
#[derive(Clone, Copy)]
pub struct Part {
    /// `<property>.<name>`
    pub name: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    /// Make a scenario (workload and fault plan) from the seed.
    pub gen: fn(&mut Rng, Tier) -> Value,
    /// Run it, as the first thread of the simulated process.
    pub run: fn(&Value),
    /// Adjust the schedule's parameters (after the default choice).
    pub tune: fn(&mut Rng, &mut Cfg, &Value),
    /// What to make of the end of the simulation.
    pub on_end: fn(&End) -> Verdict,
    pub max_steps: u64,
    /// Arrays of the scenario to minimise (JSON pointers, `*` matches any index).
    pub shrink: &'static [&'static str],
    pub runs: (u64, u64),
    /// Components that run real code / are stubs.
    pub real: &'static str,
    pub stub: &'static str,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Ok,
    Viol(String, String),
    Inconclusive(String),
}

pub fn no_tune(_: &mut Rng, _: &mut Cfg, _: &Value) {}
pub fn default_end(e: &End) -> Verdict {
    match e {
        End::Deadlock(d) => Verdict::Viol(
            format!("deadlock:{}", phase()),
            format!("no thread can ever run again while {}: {d}", phase()),
        ),
        End::Steps(d) => Verdict::Viol(
            format!("no-progress:{}", phase()),
            format!("no progress within the step bound while {}: {d}", phase()),
        ),
        End::Abort => Verdict::Viol("abort".into(), format!("the process aborted while {}: {}", phase(), panics_text())),
        End::Exit(c) => Verdict::Viol("exit".into(), format!("the process exited with {c} while {}", phase())),
    }
}

// ------------------------------------------------------------------ inside a run

#[derive(Clone, Debug)]
pub struct Panic {
    pub thread: String,
    pub msg: String,
    pub at: String,
}
struct Ctx {
    part: Option<Part>,
    fd: i32,
    want: bool,
    phase: String,
    feats: BTreeSet<u64>,
    counts: BTreeMap<String, u64>,
    log: Vec<String>,
    panics: Vec<Panic>,
    nontrivial: bool,
    reported: bool,
}
static mut CTX: Ctx = Ctx {
    part: None,
    fd: -1,
    want: false,
    phase: String::new(),
    feats: BTreeSet::new(),
    counts: BTreeMap::new(),
    log: Vec::new(),
    panics: Vec::new(),
    nontrivial: false,
    reported: false,
};
fn ctx() -> &'static mut Ctx {
    unsafe { &mut *(&raw mut CTX) }
}
/// What the run is doing, for reports of deadlocks.
pub fn set_phase(p: impl Into<String>) {
    ctx().phase = p.into();
}
pub fn phase() -> String {
    ctx().phase.clone()
}
pub fn panics() -> &'static [Panic] {
    &ctx().panics
}
pub fn panics_text() -> String {
    panics().iter().map(|p| format!("[{}] {} at {}", p.thread, p.msg, p.at)).collect::<Vec<_>>().join("; ")
}
/// A state reached, by some abstraction: the evidence counts distinct ones.
pub fn feature(h: u64) {
    if ctx().feats.len() < 4000 {
        ctx().feats.insert(h);
    }
}
pub fn count(k: &str, n: u64) {
    *ctx().counts.entry(k.to_string()).or_insert(0) += n;
}
pub fn nontrivial() {
    ctx().nontrivial = true;
}
/// The narrative of the run (kept only for violations, samples and replays).
pub fn log(f: impl FnOnce() -> String) {
    if ctx().want && ctx().log.len() < 6000 {
        let t = simrt::elapsed_ns();
        let s = f();
        ctx().log.push(format!("{:>12.6}s {}", t as f64 / 1e9, s));
    }
}
pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}
pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

/// Report a violation and end the run.
pub fn fail(sig: impl Into<String>, msg: impl Into<String>) -> ! {
    report(Verdict::Viol(sig.into(), msg.into()))
}
pub fn inconclusive(why: impl Into<String>) -> ! {
    report(Verdict::Inconclusive(why.into()))
}
/// End the run: nothing wrong.
pub fn pass() -> ! {
    report(Verdict::Ok)
}

fn report(v: Verdict) -> ! {
    sched::stop();
    let c = ctx();
    if c.reported {
        real::exit_group(0)
    }
    c.reported = true;
    let s = sched::sim();
    let (st, sig, msg) = match v {
        Verdict::Ok => ("ok", String::new(), String::new()),
        Verdict::Viol(a, b) => ("viol", a, b),
        Verdict::Inconclusive(a) => ("inc", String::new(), a),
    };
    for (k, n) in simrt::vfs::vfs().fault_counts.iter() {
        *c.counts.entry(format!("fault:{k}")).or_insert(0) += *n as u64;
    }
    let mut o = json!({
        "st": st, "sig": sig, "msg": msg,
        "steps": sched::steps(), "ns": sched::now() - sched::MONO_BASE,
        "sw": s.switches, "pre": s.preempts, "stall": s.stalls, "jump": s.clock_jumps,
        "thr": sched::threads(),
        "hash": format!("{:016x}", s.hash ^ sched::steps() ^ (sched::now() << 20)),
        "nt": c.nontrivial,
        "feats": c.feats.iter().map(|x| *x & 0xffff_ffff_ffff).collect::<Vec<_>>(),
        "counts": c.counts,
    });
    if c.want {
        o["trace"] = Value::Array(s.trace.iter().map(dec_json).collect());
        o["log"] = json!(c.log);
        o["panics"] = json!(c.panics.iter().map(|p| format!("[{}] {} at {}", p.thread, p.msg, p.at)).collect::<Vec<_>>());
    }
    real::write_all(c.fd, &serde_json::to_vec(&o).unwrap());
    real::exit_group(0)
}
pub(crate) fn dec_json(d: &Dec) -> Value {
    json!([d.tid, d.at, d.to, d.stall])
}
pub(crate) fn dec_from(v: &Value) -> Option<Dec> {
    let a = v.as_array()?;
    Some(Dec {
        tid: a.first()?.as_u64()? as u32,
        at: a.get(1)?.as_u64()?,
        to: a.get(2)?.as_u64()? as u32,
        stall: a.get(3)?.as_u64()?,
    })
}

fn on_end(e: End) -> ! {
    let v = match ctx().part {
        Some(p) => (p.on_end)(&e),
        None => default_end(&e),
    };
    report(v)
}

fn hook(i: &std::panic::PanicHookInfo) {
    let msg = i
        .payload()
        .downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| i.payload().downcast_ref::<String>().cloned())
        .unwrap_or_else(|| "?".into());
    let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let thread = sched::name_of(sched::me());
    log(|| format!("PANIC [{thread}] {msg} at {at}"));
    ctx().panics.push(Panic { thread, msg, at });
}
/// A stable short name for a panic: the file and the start of the message, digits removed.
pub fn panic_sig(p: &Panic) -> String {
    let file = p.at.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("");
    let m: String = p.msg.chars().filter(|c| !c.is_ascii_digit()).take(40).collect();
    format!("panic:{file}:{m}")
}

/// Body of the forked process of one run.
pub(crate) fn child(part: &Part, sc: &Value, cfg: Cfg, fd: i32, want: bool) -> ! {
    let c = ctx();
    c.part = Some(*part);
    c.fd = fd;
    c.want = want;
    c.phase = "running".into();
    std::panic::set_hook(Box::new(hook));
    simrt::start(cfg, on_end);
    let r = std::panic::catch_unwind(|| (part.run)(sc));
    match r {
        Ok(()) => report(Verdict::Ok),
        Err(_) => {
            let p = ctx().panics.last().cloned().unwrap_or(Panic { thread: String::new(), msg: "?".into(), at: "?".into() });
            report(Verdict::Viol(panic_sig(&p), format!("panic while {}: {} at {}", phase(), p.msg, p.at)))
        }
    }
}

// ------------------------------------------------------------------ shared state without synchronisation points

/// A cell shared by all simulated threads.  Only one of them runs at a time and they only change over at
/// simulator points, so plain accesses are exclusive; using it adds no scheduling points of its own.
pub struct Shared<T>(std::cell::UnsafeCell<T>);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
impl<T> Shared<T> {
    pub const fn new(t: T) -> Self {
        Shared(std::cell::UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
    /// A shared handle that lives for ever.
    pub fn leak(t: T) -> &'static Shared<T> {
        Box::leak(Box::new(Shared::new(t)))
    }
}

// ------------------------------------------------------------------ scenario access
pub trait J {
    fn u(&self, k: &str) -> u64;
    fn i(&self, k: &str) -> i64;
    fn s(&self, k: &str) -> &str;
    fn b(&self, k: &str) -> bool;
    fn arr(&self, k: &str) -> &[Value];
}
impl J for Value {
    fn u(&self, k: &str) -> u64 {
        self[k].as_u64().unwrap_or(0)
    }
    fn i(&self, k: &str) -> i64 {
        self[k].as_i64().unwrap_or(0)
    }
    fn s(&self, k: &str) -> &str {
        self[k].as_str().unwrap_or("")
    }
    fn b(&self, k: &str) -> bool {
        self[k].as_bool().unwrap_or(false)
    }
    fn arr(&self, k: &str) -> &[Value] {
        self[k].as_array().map(|v| &v[..]).unwrap_or(&[])
    }
}

/// A delay in ns, over many orders of magnitude.
pub fn rand_delay(r: &mut Rng, max_ns: u64) -> u64 {
    if r.chance(1, 4) {
        return 0;
    }
    let bits = 64 - max_ns.max(2).leading_zeros() as u64;
    let b = r.range(6.min(bits), bits);
    r.range(1 << (b - 1), 1 << b).min(max_ns)
}

#[allow(unused)]
pub(crate) fn wr(s: &str) {
    let mut o = std::io::stdout();
    o.write_all(s.as_bytes()).ok();
    o.flush().ok();
}
pub(crate) type Set = HashSet<u64>;
pub(crate) fn obj() -> Map<String, Value> {
    Map::new()
}
pub(crate) fn default_cfg(seed: u64, max_steps: u64) -> (Cfg, Rng) {
    let mut r = Rng::new(seed ^ 0xc0ff_ee00);
    let mut c = Cfg { seed, max_steps, ..Default::default() };
    c.step_ns = *r.pick(&[5, 20, 20, 200]);
    c.cpus = *r.pick(&[1, 2, 2, 3, 3, 4, 6]);
    match r.below(10) {
        0 => {
            c.mode = Mode::Walk;
            c.atom_mean = 0;
            c.sync_pm = 0;
        }
        1 | 2 => {
            c.mode = Mode::Walk;
            c.atom_mean = 0;
            c.sync_pm = *r.pick(&[20, 100, 300, 600]);
        }
        3..=6 => {
            c.mode = Mode::Walk;
            c.atom_mean = 1 << r.range(2, 11);
            c.sync_pm = *r.pick(&[20, 100, 300, 600]);
        }
        _ => {
            c.mode = Mode::Pct;
            c.atom_mean = 1 << r.range(1, 8);
        }
    }
    if c.mode == Mode::Walk && c.atom_mean != 0 && r.chance(1, 3) {
        c.stall_pm = *r.pick(&[2, 10, 50]);
        c.stall_max_ns = *r.pick(&[100_000, 5_000_000, 300_000_000]);
        c.stall_budget = r.range(1, 12) as u32;
    }
    (c, r)
}

/// Print to the real standard output (development aid; only once the simulation has stopped).
pub fn simrt_print(s: &str) -> ! {
    real::write_all(1, s.as_bytes());
    real::exit_group(0)
}
