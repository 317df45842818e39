//! Minimisation of a violation: fewer workload and fault items, then fewer scheduling decisions.
use super::drive::{exec, make};
use super::*;
use std::time::Instant;

pub(crate) fn cfg_json(c: &Cfg) -> Value {
    json!({
        "seed": c.seed, "mode": format!("{:?}", c.mode), "atom_mean": c.atom_mean, "sync_pm": c.sync_pm,
        "stall_pm": c.stall_pm, "stall_max_ns": c.stall_max_ns, "stall_budget": c.stall_budget,
        "step_ns": c.step_ns, "max_steps": c.max_steps, "cpus": c.cpus,
        "decisions": c.replay.iter().map(dec_json).collect::<Vec<_>>(),
    })
}
pub(crate) fn cfg_from(v: &Value) -> Cfg {
    Cfg {
        seed: v.u("seed"),
        mode: match v.s("mode") {
            "Walk" => Mode::Walk,
            "Pct" => Mode::Pct,
            _ => Mode::Replay,
        },
        atom_mean: v.u("atom_mean"),
        sync_pm: v.u("sync_pm"),
        stall_pm: v.u("stall_pm"),
        stall_max_ns: v.u("stall_max_ns"),
        stall_budget: v.u("stall_budget") as u32,
        step_ns: v.u("step_ns"),
        max_steps: v.u("max_steps"),
        cpus: v.u("cpus") as u32,
        replay: v.arr("decisions").iter().filter_map(dec_from).collect(),
    }
}

const BUDGET_S: f64 = 45.0;

struct M<'a> {
    part: &'a Part,
    sig: String,
    t0: Instant,
    tries: u32,
}
impl M<'_> {
    fn over(&self) -> bool {
        self.t0.elapsed().as_secs_f64() > BUDGET_S
    }
    fn bad(&mut self, sc: &Value, cfg: &Cfg) -> bool {
        self.tries += 1;
        let r = exec(self.part, sc, cfg, false);
        r.st() == "viol" && r.sig() == self.sig
    }
    /// Does the scenario still fail under the given schedule or a few others?  Returns the schedule.
    fn bad_any(&mut self, sc: &Value, cfg: &Cfg) -> Option<Cfg> {
        if self.bad(sc, cfg) {
            return Some(cfg.clone());
        }
        for k in 1..4u64 {
            if self.over() {
                break;
            }
            let mut c = cfg.clone();
            c.seed = cfg.seed.wrapping_add(k.wrapping_mul(0x1234_5677));
            if self.bad(sc, &c) {
                return Some(c);
            }
        }
        None
    }
}

/// Delta debugging over a list.
fn ddmin<T: Clone>(mut xs: Vec<T>, mut test: impl FnMut(&[T]) -> bool, stop: impl Fn() -> bool) -> Vec<T> {
    let mut n = 2usize;
    while !xs.is_empty() {
        let chunk = xs.len().div_ceil(n).max(1);
        let mut reduced = false;
        let mut at = 0;
        while at < xs.len() {
            if stop() {
                return xs;
            }
            let end = (at + chunk).min(xs.len());
            let mut cand: Vec<T> = xs[..at].to_vec();
            cand.extend_from_slice(&xs[end..]);
            if test(&cand) {
                xs = cand;
                reduced = true;
            } else {
                at = end;
            }
        }
        if !reduced {
            if chunk == 1 {
                return xs;
            }
            n = (n * 2).min(xs.len().max(2));
        } else {
            n = n.max(2).min(xs.len().max(2));
        }
    }
    xs
}

/// All concrete pointers matching a pattern with `*`.
fn expand(v: &Value, pat: &str) -> Vec<String> {
    let segs: Vec<&str> = pat.split('/').skip(1).collect();
    let mut cur = vec![String::new()];
    for s in segs {
        let mut next = vec![];
        for p in cur {
            if s == "*" {
                match v.pointer(&p) {
                    Some(Value::Array(a)) => next.extend((0..a.len()).map(|i| format!("{p}/{i}"))),
                    Some(Value::Object(o)) => next.extend(o.keys().map(|k| format!("{p}/{k}"))),
                    _ => (),
                }
            } else {
                next.push(format!("{p}/{s}"));
            }
        }
        cur = next;
    }
    cur.retain(|p| v.pointer(p).map_or(false, |x| x.is_array()));
    cur
}

pub(crate) fn minimise(part: &Part, viol: &Value, tier: Tier, dir: &str) -> String {
    let seed = viol.u("seed");
    let (sc0, cfg0) = make(part, seed, tier);
    let mut m = M { part, sig: viol.s("sig").to_string(), t0: Instant::now(), tries: 0 };
    let mut sc = sc0.clone();
    let mut cfg = cfg0.clone();
    // 1. no stalls, if they are not needed
    if cfg.stall_budget > 0 {
        let mut c = cfg.clone();
        c.stall_budget = 0;
        if let Some(c) = m.bad_any(&sc, &c) {
            cfg = c;
        }
    }
    // 2. the plainest schedule, if it fails too
    {
        let mut c = cfg.clone();
        c.mode = Mode::Replay;
        c.replay = vec![];
        c.stall_budget = 0;
        if m.bad(&sc, &c) {
            cfg = c;
        }
    }
    // 3. fewer items
    for _round in 0..2 {
        let before = sc.to_string().len();
        for pat in part.shrink {
            for ptr in expand(&sc, pat) {
                let Some(Value::Array(xs)) = sc.pointer(&ptr).cloned() else { continue };
                let mut best = (sc.clone(), cfg.clone());
                let t0 = m.t0;
                let stop = || t0.elapsed().as_secs_f64() > BUDGET_S * 0.7;
                ddmin(
                    xs,
                    |cand| {
                        let mut s = best.0.clone();
                        *s.pointer_mut(&ptr).unwrap() = Value::Array(cand.to_vec());
                        match m.bad_any(&s, &best.1) {
                            Some(c) => {
                                best = (s, c);
                                true
                            }
                            None => false,
                        }
                    },
                    stop,
                );
                sc = best.0;
                cfg = best.1;
            }
        }
        if sc.to_string().len() == before {
            break;
        }
    }
    // 4. explicit decisions
    if cfg.mode != Mode::Replay {
        let r = exec(part, &sc, &cfg, true);
        let ds: Vec<Dec> = r.v.arr("trace").iter().filter_map(dec_from).collect();
        let mut c = cfg.clone();
        c.mode = Mode::Replay;
        c.replay = ds.clone();
        if m.bad(&sc, &c) {
            cfg = c.clone();
            let t0 = m.t0;
            let stop = || t0.elapsed().as_secs_f64() > BUDGET_S;
            let best = ddmin(
                ds,
                |cand| {
                    let mut c2 = c.clone();
                    c2.replay = cand.to_vec();
                    m.bad(&sc, &c2)
                },
                stop,
            );
            cfg.replay = best;
        }
    }
    let r = exec(part, &sc, &cfg, true);
    let (sc, cfg, r) = if r.st() == "viol" && r.sig() == m.sig {
        (sc, cfg, r)
    } else {
        let r = exec(part, &sc0, &cfg0, true);
        (sc0, cfg0, r)
    };
    let v = json!({
        "part": part.name, "property": part.name.split('.').next(), "sig": r.sig(), "msg": r.v["msg"], "hash": r.hash(),
        "found_with_seed": seed, "scenario": sc, "cfg": cfg_json(&cfg), "minimisation_runs": m.tries,
        "scheduling_decisions": cfg.replay.len(),
        "history": r.v["log"], "panics": r.v["panics"],
    });
    std::fs::create_dir_all(dir).ok();
    let f = format!("{dir}/{}-{:016x}.json", part.name, seed);
    std::fs::write(&f, serde_json::to_vec_pretty(&v).unwrap()).unwrap();
    f
}
