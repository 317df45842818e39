#!/usr/bin/env python3
"""seed.py make SPEC.py   - writes /verif/seeded/<id>/ from a spec (edits to /repo files, demonstration)
seed.py test ID [--no-check]  - confirms it in scratch copies, then runs the property's check against it"""
import sys, os, subprocess as sp, shutil, json, tempfile
V, R = "/verif", "/repo"
def sh(c, **k): return sp.run(c, shell=True, capture_output=True, text=True, **k)
def make(path):
    specs = {}
    exec(open(path).read(), specs)
    for s in specs["SPECS"]:
        d = f"{V}/seeded/{s['id']}"
        shutil.rmtree(d, ignore_errors=True)
        kind = s.get("kind", "demo-shell")
        shutil.copytree(f"{V}/tools/{kind}", d)
        w = tempfile.mkdtemp(prefix="seed.")
        sp.run(["git", "-C", R, "worktree", "add", "-q", "--detach", w + "/r", "HEAD"], check=True)
        try:
            for f, a, b in s["edits"]:
                p = f"{w}/r/{f}"
                t = open(p).read()
                assert t.count(a) == 1, (s["id"], f, a, t.count(a))
                open(p, "w").write(t.replace(a, b))
            diff = sp.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True).stdout
        finally:
            sp.run(["git", "-C", R, "worktree", "remove", "--force", w + "/r"])
            shutil.rmtree(w)
        open(d + "/patch.diff", "w").write(diff)
        pre = f"{V}/tools/{kind}-prelude.rs"
        body = (open(pre).read() + "\n" if os.path.exists(pre) else "") + s["demo"]
        open(d + "/" + s.get("demo_file", "demo.rs"), "w").write(body)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", s["id"])
def test(i, check=True):
    d = f"{V}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not sh(f"git -C {R} status --porcelain").stdout.strip(), "/repo is not clean"
    r0 = sh(f"bash {d}/demo.sh", cwd=R)
    res = {"id": i, "demo_clean": r0.returncode}
    if r0.returncode: print((r0.stdout + r0.stderr)[-1500:])
    a = sh(f"git -C {R} apply {d}/patch.diff")
    assert a.returncode == 0, a.stderr
    try:
        b = sh("bash /opt/vp/build.sh"); res["build"] = b.returncode
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        got = json.load(open("/tmp/seedtest.json"))
        passed = got.get("passed", got)
        res["tests"] = all(x in passed for x in base)
        r1 = sh(f"bash {d}/demo.sh", cwd=R)
        res["demo_bug"] = r1.returncode
        res["demo_out"] = (r1.stdout + r1.stderr).strip()[-200:]
        if check:
            c = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 {V}/vp.py check {prop}", cwd=V)
            res["check"] = c.returncode
            res["line"] = [l for l in c.stdout.splitlines() if "VIOLATION" in l][:2]
            res["tail"] = (c.stdout + c.stderr)[-400:] if not res["line"] else ""
    finally:
        sh(f"git -C {R} checkout -- .")
        sh("bash /opt/vp/build.sh")
    ok = res["demo_clean"] == 0 and res["build"] == 0 and res["tests"] and res["demo_bug"] not in (0, 2)
    res["VALID"] = ok
    res["CAUGHT"] = res.get("check") == 1 and bool(res.get("line"))
    print(json.dumps(res, indent=1), flush=True)
if sys.argv[1] == "make": make(sys.argv[2])
else:
    for i in [a for a in sys.argv[2:] if not a.startswith("--")]: test(i, "--no-check" not in sys.argv)
