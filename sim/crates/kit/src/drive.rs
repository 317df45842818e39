use super::*;
use std::time::Instant;

pub(crate) struct Res {
    pub v: Value,
}
impl Res {
    pub fn st(&self) -> &str {
        self.v.s("st")
    }
    pub fn sig(&self) -> &str {
        self.v.s("sig")
    }
    pub fn hash(&self) -> &str {
        self.v.s("hash")
    }
}

const CPU_LIMIT: u64 = 40;
const WALL_LIMIT_MS: i32 = 240_000;

/// Run one scenario in a forked process.
pub(crate) fn exec(part: &Part, sc: &Value, cfg: &Cfg, want: bool) -> Res {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::close(p[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            // whatever escapes the simulation goes nowhere
            if std::env::var_os("VP_STDERR").is_none() {
                let nul = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                libc::dup2(nul, 1);
                libc::dup2(nul, 2);
            }
            child(part, sc, cfg.clone(), p[1], want);
        }
        libc::close(p[1]);
        let mut buf = vec![];
        let mut chunk = vec![0u8; 1 << 16];
        let mut timed_out = false;
        let t0 = Instant::now();
        loop {
            let mut pf = libc::pollfd { fd: p[0], events: libc::POLLIN, revents: 0 };
            let left = WALL_LIMIT_MS - t0.elapsed().as_millis() as i32;
            let r = libc::poll(&mut pf, 1, left.max(0));
            if r == 0 {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let n = libc::read(p[0], chunk.as_mut_ptr() as *mut _, chunk.len());
            if n > 0 {
                buf.extend_from_slice(&chunk[..n as usize]);
            } else if n == 0 {
                break;
            } else if *libc::__errno_location() != libc::EINTR {
                break;
            }
        }
        libc::close(p[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        let v = match serde_json::from_slice::<Value>(&buf) {
            Ok(v) => v,
            Err(_) => {
                let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
                if timed_out || sig == libc::SIGKILL && !timed_out && t0.elapsed().as_secs() < CPU_LIMIT {
                    json!({"st": "inc", "sig": "", "msg": if timed_out {"real-time limit"} else {"killed"}, "hash": ""})
                } else if sig == libc::SIGXCPU || sig == libc::SIGKILL {
                    json!({"st": "viol", "sig": "no-progress:cpu", "hash": "",
                        "msg": format!("a thread computed for more than {CPU_LIMIT} s of processor time without end")})
                } else {
                    json!({"st": "viol", "sig": format!("crash:{sig}"), "hash": "",
                        "msg": format!("the process died (signal {sig}, status {st})")})
                }
            }
        };
        Res { v }
    }
}

pub(crate) fn seed_of(base: u64, part: &str, i: u64) -> u64 {
    let mut x = base ^ hash_str(part) ^ i.wrapping_mul(0x9E3779B97F4A7C15);
    simrt::rng::splitmix(&mut x)
}
pub(crate) fn make(part: &Part, seed: u64, tier: Tier) -> (Value, Cfg) {
    let mut r = Rng::new(seed);
    let sc = (part.gen)(&mut r, tier);
    let (mut cfg, mut r2) = default_cfg(seed, part.max_steps);
    (part.tune)(&mut r2, &mut cfg, &sc);
    (sc, cfg)
}

#[derive(Default)]
struct Agg {
    runs: u64,
    nontrivial: u64,
    inconclusive: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    feats: Set,
    hashes: Set,
    distinct: Set,
    steps: u64,
    ns: u128,
    sw: u64,
    pre: u64,
    stall: u64,
    jump: u64,
    max_threads: u64,
    max_steps: u64,
    det_checked: u64,
    det_bad: u64,
    modes: BTreeMap<String, u64>,
}
impl Agg {
    fn add(&mut self, r: &Res, sc: &Value, cfg: &Cfg) {
        let v = &r.v;
        self.runs += 1;
        if r.st() == "inc" {
            *self.inconclusive.entry(v.s("msg").chars().take(60).collect()).or_insert(0) += 1;
        }
        if let Some(m) = v["counts"].as_object() {
            for (k, n) in m {
                *self.counts.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
            }
        }
        for f in v.arr("feats") {
            if self.feats.len() < 2_000_000 {
                self.feats.insert(f.as_u64().unwrap_or(0));
            }
        }
        let h = u64::from_str_radix(r.hash(), 16).unwrap_or(0);
        self.hashes.insert(h);
        if v.b("nt") && r.st() != "inc" {
            self.nontrivial += 1;
            self.distinct.insert(h ^ hash_str(&sc.to_string()));
        }
        self.steps += v.u("steps");
        self.ns += v.u("ns") as u128;
        self.sw += v.u("sw");
        self.pre += v.u("pre");
        self.stall += v.u("stall");
        self.jump += v.u("jump");
        self.max_threads = self.max_threads.max(v.u("thr"));
        self.max_steps = self.max_steps.max(v.u("steps"));
        *self.modes.entry(format!("{:?}", cfg.mode)).or_insert(0) += 1;
    }
    fn json(&self) -> Value {
        json!({
            "runs": self.runs, "nontrivial": self.nontrivial, "inconclusive": self.inconclusive,
            "counts": self.counts, "feats": self.feats.iter().collect::<Vec<_>>(),
            "hashes": self.hashes.iter().collect::<Vec<_>>(), "distinct": self.distinct.iter().collect::<Vec<_>>(),
            "steps": self.steps, "ns": self.ns as f64, "sw": self.sw, "pre": self.pre, "stall": self.stall,
            "jump": self.jump, "max_threads": self.max_threads, "max_steps": self.max_steps,
            "det_checked": self.det_checked, "det_bad": self.det_bad, "modes": self.modes,
        })
    }
    fn merge(&mut self, v: &Value) {
        self.runs += v.u("runs");
        self.nontrivial += v.u("nontrivial");
        for (k, m) in [("inconclusive", &mut self.inconclusive), ("counts", &mut self.counts), ("modes", &mut self.modes)] {
            if let Some(o) = v[k].as_object() {
                for (a, n) in o {
                    *m.entry(a.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
                }
            }
        }
        for (k, s) in [("feats", &mut self.feats), ("hashes", &mut self.hashes), ("distinct", &mut self.distinct)] {
            for x in v.arr(k) {
                s.insert(x.as_u64().unwrap_or(0));
            }
        }
        self.steps += v.u("steps");
        self.ns += v["ns"].as_f64().unwrap_or(0.) as u128;
        self.sw += v.u("sw");
        self.pre += v.u("pre");
        self.stall += v.u("stall");
        self.jump += v.u("jump");
        self.max_threads = self.max_threads.max(v.u("max_threads"));
        self.max_steps = self.max_steps.max(v.u("max_steps"));
        self.det_checked += v.u("det_checked");
        self.det_bad += v.u("det_bad");
    }
}

fn pin(cpu: usize) {
    unsafe {
        // the CPUs this process may use at all
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let n = std::mem::size_of::<libc::cpu_set_t>();
        if real::sys3(libc::SYS_sched_getaffinity, 0, n, &mut set as *mut _ as usize) <= 0 {
            return;
        }
        let mine: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).collect();
        if mine.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(mine[cpu % mine.len()], &mut one);
        real::sys3(libc::SYS_sched_setaffinity, 0, n, &one as *const _ as usize);
    }
}

struct Opt {
    part: String,
    tier: Tier,
    seed: u64,
    secs: f64,
    runs: Option<u64>,
    jobs: u64,
    out: String,
    replays: String,
    known: Vec<String>,
    index: u64,
}

fn worker(part: &Part, o: &Opt, w: u64, total: u64, t0: Instant) {
    pin(w as usize);
    let stopf = format!("{}.stop", o.out);
    let mut a = Agg::default();
    let mut viol = Value::Null;
    let mut known: BTreeMap<String, Value> = BTreeMap::new();
    let mut unrep = vec![];
    let mut samples = vec![];
    let mut i = w;
    while i < total {
        if t0.elapsed().as_secs_f64() > o.secs || std::path::Path::new(&stopf).exists() {
            break;
        }
        let seed = seed_of(o.seed, part.name, i);
        let (sc, cfg) = make(part, seed, o.tier);
        let want = w == 0 && samples.len() < 2;
        let r = exec(part, &sc, &cfg, want);
        if a.det_checked < 2 || (i / o.jobs) % 500 == 499 {
            let r2 = exec(part, &sc, &cfg, false);
            a.det_checked += 1;
            if r2.hash() != r.hash() || r2.sig() != r.sig() {
                a.det_bad += 1;
            }
        }
        a.add(&r, &sc, &cfg);
        if want && r.v.b("nt") && r.st() == "ok" {
            let l: Vec<&str> = r.v.arr("log").iter().filter_map(|x| x.as_str()).take(25).collect();
            samples.push(json!({"seed": seed, "scenario": clip(&sc, 2500), "history_head": l,
                "steps": r.v["steps"], "switches": r.v["sw"], "threads": r.v["thr"], "simulated_s": r.v.u("ns") as f64 / 1e9}));
        }
        if r.st() == "viol" {
            if o.known.iter().any(|k| k == r.sig()) {
                known.entry(r.sig().to_string()).or_insert_with(|| r.v["msg"].clone());
            } else {
                let again = exec(part, &sc, &cfg, false);
                if again.st() == "viol" && again.sig() == r.sig() {
                    viol = json!({"i": i, "seed": seed, "sig": r.sig(), "msg": r.v["msg"]});
                    std::fs::write(&stopf, b"x").ok();
                    break;
                }
                unrep.push(json!({"i": i, "seed": seed, "sig": r.sig(), "msg": r.v["msg"]}));
            }
        }
        i += o.jobs;
    }
    let j = json!({"agg": a.json(), "viol": viol, "known": known, "unreproduced": unrep, "samples": samples});
    std::fs::write(format!("{}.w{w}", o.out), serde_json::to_vec(&j).unwrap()).unwrap();
}
fn clip(v: &Value, n: usize) -> Value {
    let s = v.to_string();
    if s.len() <= n {
        v.clone()
    } else {
        Value::String(s.chars().take(n).collect::<String>() + "…")
    }
}

pub fn main(parts: &[Part]) {
    no_aslr();
    real::resolve();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let find = |n: &str| match parts.iter().find(|p| p.name == n) {
        Some(p) => p,
        None => {
            wr(&format!("no such part: {n}\n"));
            std::process::exit(3)
        }
    };
    let o = Opt {
        part: get("--part").unwrap_or_default(),
        tier: if get("--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick },
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        secs: get("--secs").and_then(|s| s.parse().ok()).unwrap_or(60.),
        runs: get("--runs").and_then(|s| s.parse().ok()),
        jobs: get("--jobs").and_then(|s| s.parse().ok()).unwrap_or(8),
        out: get("--out").unwrap_or("/tmp/vp-out.json".into()),
        replays: get("--replays").unwrap_or("/tmp".into()),
        known: get("--known").map(|s| s.split('\x1f').map(|x| x.to_string()).collect()).unwrap_or_default(),
        index: get("--index").and_then(|s| s.parse().ok()).unwrap_or(0),
    };
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in parts {
                wr(&format!("{}\n", p.name))
            }
        }
        Some("run") => run(find(&o.part), &o),
        Some("one") => {
            let p = find(&o.part);
            let seed = get("--rawseed").and_then(|s| s.parse().ok()).unwrap_or(seed_of(o.seed, p.name, o.index));
            let (sc, cfg) = make(p, seed, o.tier);
            let r = exec(p, &sc, &cfg, true);
            show(&r, &sc, &cfg);
        }
        Some("replay") => {
            let f = args.get(1).cloned().unwrap_or_default();
            let v: Value = serde_json::from_slice(&std::fs::read(&f).expect("replay file")).expect("json");
            let p = find(v.s("part"));
            let cfg = shrink::cfg_from(&v["cfg"]);
            let r = exec(p, &v["scenario"], &cfg, true);
            let r2 = exec(p, &v["scenario"], &cfg, false);
            show(&r, &v["scenario"], &cfg);
            let same = r.sig() == v.s("sig") && r2.sig() == r.sig() && r.hash() == r2.hash();
            wr(&format!(
                "recorded: sig={:?} hash={}\nreplayed: sig={:?} hash={} (twice: {})\n",
                v.s("sig"), v.s("hash"), r.sig(), r.hash(), r2.hash()
            ));
            if r.st() == "viol" {
                wr(if same && r.hash() == v.s("hash") { "REPRODUCED exactly\n" } else { "REPRODUCED (the code differs from the recorded one)\n" });
                std::process::exit(1);
            }
            wr("NOT REPRODUCED: the property held in this execution\n");
        }
        _ => {
            wr("usage: list | run --part P [--tier T --seed N --secs S --jobs J --out F --replays DIR] | one --part P --index I | replay FILE\n");
            std::process::exit(3);
        }
    }
}

fn show(r: &Res, sc: &Value, cfg: &Cfg) {
    wr(&format!("scenario: {sc}\nschedule: mode={:?} seed={} atom_mean={} sync_pm={} stalls={} step_ns={} cpus={} decisions={}\n",
        cfg.mode, cfg.seed, cfg.atom_mean, cfg.sync_pm, cfg.stall_budget, cfg.step_ns, cfg.cpus, cfg.replay.len()));
    for l in r.v.arr("log") {
        wr(&format!("{}\n", l.as_str().unwrap_or("")));
    }
    for l in r.v.arr("panics") {
        wr(&format!("panic: {}\n", l.as_str().unwrap_or("")));
    }
    wr(&format!(
        "result: {} sig={:?} {}\nsteps={} switches={} preemptions={} stalls={} threads={} simulated={:.6}s hash={} counts={}\n",
        r.st(), r.sig(), r.v.s("msg"), r.v["steps"], r.v["sw"], r.v["pre"], r.v["stall"], r.v["thr"],
        r.v.u("ns") as f64 / 1e9, r.hash(), r.v["counts"]
    ));
}

fn run(part: &Part, o: &Opt) {
    let t0 = Instant::now();
    let total = o.runs.unwrap_or(if o.tier == Tier::Quick { part.runs.0 } else { part.runs.1 });
    let stopf = format!("{}.stop", o.out);
    std::fs::remove_file(&stopf).ok();
    let mut pids = vec![];
    for w in 0..o.jobs {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            worker(part, o, w, total, t0);
            real::exit_group(0);
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
    }
    let search_s = t0.elapsed().as_secs_f64();
    std::fs::remove_file(&stopf).ok();
    let mut a = Agg::default();
    let mut viols: Vec<Value> = vec![];
    let mut known = obj();
    let mut unrep: Vec<Value> = vec![];
    let mut samples: Vec<Value> = vec![];
    let mut lost = 0;
    for w in 0..o.jobs {
        let f = format!("{}.w{w}", o.out);
        match std::fs::read(&f).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) {
            Some(v) => {
                a.merge(&v["agg"]);
                if !v["viol"].is_null() {
                    viols.push(v["viol"].clone());
                }
                if let Some(k) = v["known"].as_object() {
                    known.extend(k.clone());
                }
                unrep.extend(v.arr("unreproduced").iter().cloned());
                samples.extend(v.arr("samples").iter().cloned());
            }
            None => lost += 1,
        }
        std::fs::remove_file(&f).ok();
    }
    viols.sort_by_key(|v| v.u("i"));
    let mut replay = Value::Null;
    if let Some(v) = viols.first() {
        let f = shrink::minimise(part, v, o.tier, &o.replays);
        replay = json!(f);
    }
    let wall = t0.elapsed().as_secs_f64();
    let out = json!({
        "part": part.name, "rule": part.rule, "real": part.real, "stub": part.stub,
        "runs": a.runs, "planned": total, "nontrivial": a.nontrivial, "distinct_nontrivial": a.distinct.len(),
        "distinct_schedules": a.hashes.len(), "distinct_states": a.feats.len(),
        "inconclusive": a.inconclusive, "counts": a.counts, "modes": a.modes,
        "steps": a.steps, "simulated_s": a.ns as f64 / 1e9, "switches": a.sw, "preemptions": a.pre, "stalls": a.stall,
        "clock_jumps": a.jump, "max_threads": a.max_threads, "max_steps": a.max_steps,
        "determinism_checked": a.det_checked, "determinism_bad": a.det_bad,
        "samples": samples, "search_s": search_s, "wall_s": wall, "lost_workers": lost,
        "violation": viols.first(), "replay": replay, "known": known, "unreproduced": unrep,
    });
    std::fs::write(&o.out, serde_json::to_vec_pretty(&out).unwrap()).unwrap();
    wr(&format!(
        "{}: {} runs ({} distinct non-trivial, {} schedules, {} states) in {:.1}s, {} inconclusive, {} violations, {} unreproduced, nondeterministic {}/{}\n",
        part.name, a.runs, a.distinct.len(), a.hashes.len(), a.feats.len(), wall,
        a.inconclusive.values().sum::<u64>(), viols.len(), unrep.len(), a.det_bad, a.det_checked
    ));
    if let Some(v) = viols.first() {
        wr(&format!("  violation: {} — {}\n", v.s("sig"), v.s("msg")));
        wr(&format!("  replay: {}\n", replay.as_str().unwrap_or("?")));
        std::process::exit(1);
    }
    if lost > 0 {
        std::process::exit(2);
    }
}

/// Re-execute without address randomisation, so that address-dependent behaviour repeats.
fn no_aslr() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p < 0 || p & libc::ADDR_NO_RANDOMIZE != 0 || std::env::var_os("VP_ASLR").is_some() {
            return;
        }
        if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) < 0 {
            return;
        }
        std::env::set_var("VP_ASLR", "off");
        let exe = std::ffi::CString::new("/proc/self/exe").unwrap();
        let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
        let mut ptrs: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
        ptrs.push(std::ptr::null());
        libc::execv(exe.as_ptr(), ptrs.as_ptr());
    }
}
