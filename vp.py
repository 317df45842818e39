#!/usr/bin/env python3
"""Run the checks: build the simulated program from /repo's working tree, search, report, write evidence.

  vp.py setup                      build everything
  vp.py check <property> [tier]    decide one property (tier: quick | thorough; default $VERIF_TIER or quick)
  vp.py replay <file>              re-execute a recorded violation
"""
import json, os, re, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(ROOT, "sim")
TARGET = os.path.join(SIM, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
REPLAYS = os.path.join(ROOT, "replays")
KNOWN = os.path.join(ROOT, "KNOWN-FINDINGS.txt")

# property -> parts; each part is (binary, part name, weight of the time budget)
PARTS = json.load(open(os.path.join(ROOT, "parts.json")))
QUICK_S = 60.0
THOROUGH_S = 3600.0

FLAGS = " ".join([
    "-Zsanitizer=thread", "-Zexternal-clangrt", "-Cunsafe-allow-abi-mismatch=sanitizer", "-Zshare-generics=no",
    "-Cllvm-args=-tsan-instrument-memory-accesses=0", "-Cllvm-args=-tsan-instrument-func-entry-exit=0",
    "-Cllvm-args=-tsan-instrument-memintrinsics=0",
])


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
            e.pop(k)
    e.update(RUSTC_BOOTSTRAP="1", RUSTC_WRAPPER=os.path.join(SIM, "rustc-wrap.sh"), CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=TARGET, RUSTFLAGS=FLAGS, CARGO_TERM_COLOR="never")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    return e


def build(bins, quiet=True):
    """Returns {bin: error text or None}."""
    res = {}
    for b in bins:
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "--target", TRIPLE, "-p", b], cwd=SIM, env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            errs = [l for l in p.stdout.splitlines() if l.startswith("error") or "-->" in l]
            res[b] = "\n".join(errs[:12]) or p.stdout[-2000:]
        else:
            res[b] = None
    return res


def binary(b):
    return os.path.join(TARGET, TRIPLE, "debug", b)


def known_sigs(prop):
    """sig -> text of the recorded findings of this property."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) sig=\[(.*?)\] (.*)", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    parts = PARTS[prop]
    bins = sorted({p["bin"] for p in parts})
    built = build(bins)
    for b, err in built.items():
        if err:
            print(f"cannot build {b}:\n{err}")
    usable = [p for p in parts if built[p["bin"]] is None]
    if not usable:
        print(f"{prop}: nothing could be built")
        return 2
    build_s = time.time() - t0
    budget = float(os.environ.get("VP_SECS") or (QUICK_S if tier == "quick" else THOROUGH_S))
    total_w = sum(p.get("w", 1) for p in usable)
    known = known_sigs(prop)
    seen_known = {}
    results, viol, errors = [], None, []
    os.makedirs(REPLAYS, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="vp-") as tmp:
        for p in usable:
            out = os.path.join(tmp, p["part"] + ".json")
            cmd = [binary(p["bin"]), "run", "--part", p["part"], "--tier", tier, "--seed", str(seed),
                   "--secs", f"{budget * p.get('w', 1) / total_w:.1f}", "--jobs", str(os.cpu_count() or 8),
                   "--out", out, "--replays", REPLAYS]
            if os.environ.get("VP_RUNS"):
                cmd += ["--runs", os.environ["VP_RUNS"]]
            if known:
                cmd += ["--known", "\x1f".join(known)]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            sys.stdout.write(r.stdout)
            sys.stdout.flush()
            try:
                j = json.load(open(out))
            except Exception as ex:
                errors.append(f"{p['part']}: no result ({ex}); {r.stdout[-400:]}")
                continue
            results.append(j)
            seen_known.update(j.get("known") or {})
            if j.get("violation"):
                viol = (j["violation"], j["replay"])
                break
            if j["lost_workers"]:
                errors.append(f"{p['part']}: {j['lost_workers']} workers lost")
            if j["runs"] and sum(j["inconclusive"].values()) * 2 > j["runs"]:
                errors.append(f"{p['part']}: most runs inconclusive: {j['inconclusive']}")
    evidence(prop, tier, seed, results, built, build_s, time.time() - t0, viol, seen_known)
    for s, msg in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {known.get(s, s)}")
    if viol:
        print(f"VIOLATION property={prop} replay={viol[1]}")
        print(f"  {viol[0]['sig']}: {viol[0]['msg'][:600]}")
        print(f"  reproduce: {sys.argv[0]} replay {viol[1]}")
        return 1
    if errors:
        print("\n".join(errors))
        return 2
    print(f"{prop}: held on everything explored ({sum(r['runs'] for r in results)} simulated runs, {time.time() - t0:.0f} s)")
    return 0


def evidence(prop, tier, seed, results, built, build_s, wall, viol, known):
    def tot(k):
        return sum(r[k] for r in results)
    counts, inc, modes = {}, {}, {}
    for r in results:
        for d, s in ((counts, r["counts"]), (inc, r["inconclusive"]), (modes, r["modes"])):
            for k, n in s.items():
                d[k] = d.get(k, 0) + n
    search = max(sum(r["search_s"] for r in results), 1e-9)
    faults = {k[6:]: n for k, n in counts.items() if k.startswith("fault:")}
    faults["thread stalled by the scheduler"] = tot("stalls")
    faults["preemption at an atomic or synchronisation point"] = tot("preemptions")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot("runs"),
            "distinct_nontrivial": tot("distinct_nontrivial"),
            "rule": " || ".join(f"{r['part']}: {r['rule']}" for r in results),
            "samples": [s for r in results for s in r["samples"][:2]],
            "parts": [{k: r[k] for k in ("part", "runs", "planned", "nontrivial", "distinct_nontrivial", "distinct_schedules",
                                         "distinct_states", "simulated_s", "steps", "switches", "max_threads", "search_s")}
                      for r in results],
            "runs_per_hour": round(tot("runs") / search * 3600),
            "seeds_per_hour": round(tot("runs") / search * 3600),
            "simulated_seconds": tot("simulated_s"),
            "simulated_per_real_second": tot("simulated_s") / search,
            "faults_injected": faults,
            "workload": {k: n for k, n in counts.items() if not k.startswith("fault:")},
            "scheduling_points": tot("steps"), "thread_switches": tot("switches"), "preemptions": tot("preemptions"),
            "clock_jumps": tot("clock_jumps"),
            "distinct_schedules": tot("distinct_schedules"),
            "distinct_states": tot("distinct_states"),
            "distinct_measure": "schedules: hash over every thread switch (thread, point, successor) and the final step count and time; states: the abstraction each part records (list sizes, cursor classes, outcomes …)",
            "scheduler_modes": modes,
            "inconclusive": inc,
            "determinism": {"re_executed": tot("determinism_checked"), "differing": tot("determinism_bad")},
            "unreproduced": [u for r in results for u in r["unreproduced"]][:5],
            "real_code": sorted({r["real"] for r in results}),
            "stubbed": sorted({r["stub"] for r in results}),
            "not_built": {b: e for b, e in built.items() if e},
            "known_findings_seen": known,
        },
        "assumptions": [
            "sequentially consistent interleavings at atomic operations, futex, file-system, clock and thread calls; weak-memory reorderings are not explored",
            "third-party crates missing from this offline sandbox are replaced by the shims in /verif/sim/shims",
            "a search over seeds: what no seed reached is not covered",
        ],
        "wall_s": round(wall, 2), "build_s": round(build_s, 2),
        "violations": 1 if viol else 0,
    }
    if viol:
        ev["violation"] = {"sig": viol[0]["sig"], "message": viol[0]["msg"], "seed": viol[0]["seed"], "replay": viol[1]}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        bins = sorted({p["bin"] for ps in PARTS.values() for p in ps})
        bad = {b: e for b, e in build(bins).items() if e}
        for b, e in bad.items():
            print(f"cannot build {b}:\n{e}")
        return 1 if bad else 0
    if a[:1] == ["check"]:
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        return check(a[1], "thorough" if tier == "thorough" else "quick")
    if a[:1] == ["replay"]:
        part = json.load(open(a[1]))["part"]
        b = next(p["bin"] for ps in PARTS.values() for p in ps if p["part"] == part)
        err = build([b])[b]
        if err:
            print(err)
            return 2
        return subprocess.run([binary(b), "replay", a[1]]).returncode
    print(__doc__)
    return 3


sys.exit(main())
