//! C11 (and tabs' directories, C09): moving about with `cd`, running batch files with `run`.
use crate::sess::*;
use crossterm::event::{KeyCode, KeyModifiers as M};
use kit::serde_json::{json, Value as Js};
use kit::simrt::{
    rng::Rng,
    vfs::{vfs, Effect, Op},
};
use kit::{J, *};

pub fn parts() -> Vec<Part> {
    let part = |name, gen| Part {
        name,
        rule: "a user of the real shell moves 1-4 tabs about a generated tree (nested and oddly named directories, links to inside, outside, above, nowhere and around in circles, a sibling whose name extends the root's) with `cd` (relative, absolute, dotted, linked, missing, file targets), runs batch files by such paths, opens, cycles and closes tabs, with the root given absolute, relative, as `.` or through a link and I/O errors and delays on path resolution; a reference model of each tab's directory; where a tab really is is told by what `open`, `ls` and batch files see there, which batch ran by what it leaves behind, and every file the shell opens is checked to lie below the root",
        gen,
        run,
        tune: no_tune,
        on_end: default_end,
        max_steps: 30_000_000,
        shrink: &["/ops", "/links", "/faults"],
        runs: (8000, 200_000),
        real: "ogma-shell (shell and interface), ogma, ogma-ls completions, tui with its crossterm back end, std",
        stub: "thread scheduler, clocks, file system (fault injecting), terminal (keys scripted, screen emulated), crossterm event source, table/kserd/numfmt stand-ins",
    };
    vec![part("C11.paths", gen_paths as fn(&mut Rng, Tier) -> Js), part("C09.dirs", gen_tabs)]
}

const DIRS: &[&str] = &["/w/root", "/w/root/a", "/w/root/a/b", "/w/root/c d", "/w/root/é", "/w/root/a/root", "/w/out", "/w/out/deep", "/w/rootx", "/w/cwd", "/w/cwd/a", "/w/root/x", "/w/root/a/ a"];
const LINKS: &[(&str, &str)] = &[
    ("/w/root/l_in", "a/b"),
    ("/w/root/l_abs", "/w/root/a"),
    ("/w/root/l_out", "/w/out"),
    ("/w/root/l_outrel", "../out/deep"),
    ("/w/root/l_up", ".."),
    ("/w/root/l_root", "/w/root"),
    ("/w/root/l_dang", "nowhere"),
    ("/w/root/l_loop", "l_loop"),
    ("/w/root/a/l_sib", "../c d"),
    ("/w/root/a/l_x", "../../rootx"),
    ("/w/out/l_back", "/w/root/a"),
    ("/w/root/l_file.ogma", "/w/out/go.ogma"),
    ("/w/root/l_good.ogma", "a/go.ogma"),
];
const RETARGET: &[&str] = &["a", "/w/root/a/b", "/w/out", "../out/deep", "..", "/w/root/c d", "nowhere", "", "/w/root/a/root"];
const PATHS: &[&str] = &[
    "a", "a/b", "b", "..", "../..", "../a", "../../..", "/", "/w", "/w/root", "/w/root/a", "/w/root/a/b", "/w/rootx", "/w/out", "../rootx", "../root", "../root/a", "c d", "é", "l_in", "l_abs", "l_out",
    "l_outrel", "l_up", "l_root", "l_dang", "l_loop", "l_sib", "l_x", "a/l_sib", "a/l_x", "l_up/root/a", "l_out/l_back", "l_out/..", "l_in/..", "./a/../a", "a/b/../../a", "a//b/", "missing", "missing/..",
    "id.txt", "go.ogma", ".", "root", "a/root", "../cwd", "/w/cwd/a", "n1", "/w/root/../root/a", "x", "../x", "a/ a", " a", "a ", "../ a", "x ", "/w/rootx/../root/x", "/w/rl/a", "//w//root//a",
];

fn gen_paths(r: &mut Rng, t: Tier) -> Js {
    gen(r, t, false)
}
fn gen_tabs(r: &mut Rng, t: Tier) -> Js {
    gen(r, t, true)
}
fn gen(r: &mut Rng, _t: Tier, tabs: bool) -> Js {
    let n = r.range(3, if tabs { 14 } else { 12 });
    let p = |r: &mut Rng| PATHS[r.below(PATHS.len() as u64) as usize];
    // links are moved elsewhere, by someone else, more often in some runs
    let re = if r.chance(1, 2) { 24 } else { 25 + r.below(6) };
    let mut last = 0u64;
    let ops: Vec<Js> = (0..n)
        .map(|_| {
            let x = r.below(re);
            match x {
                24.. => json!({"op": "relink", "l": if r.chance(1, 2) { last } else { r.below(11) }, "t": *r.pick(RETARGET)}),
                0 | 1 if re > 24 => {
                    last = r.below(11);
                    json!({"op": "cd", "p": LINKS[last as usize].0.trim_start_matches(ROOT).trim_start_matches('/')})
                }
                0..=8 => json!({"op": "cd", "p": p(r)}),
                9 if tabs => json!({"op": "cd", "p": p(r)}),
                9..=12 if !tabs => json!({"op": "run", "p": if r.chance(1, 5) { r.pick(&["l_file.ogma", "l_good.ogma", "go.ogma", "missing.ogma", "a"]).to_string() } else { format!("{}/go.ogma", p(r)) }, "fl": *r.pick(&["", "", "", " --no-par", " --no-fail-fast", " --no-par --no-fail-fast"])}),
                9..=12 => json!({"op": "tab"}),
                13..=15 => json!({"op": "open"}),
                16 => json!({"op": "ls"}),
                17 => json!({"op": "sug"}),
                18 if !tabs => json!({"op": "ext", "w": *r.pick(&["mkdir", "rmdir"])}),
                18 | 19 => json!({"op": "new"}),
                20 => json!({"op": "close"}),
                21 if !tabs => json!({"op": "cd", "p": ""}),
                _ => json!({"op": "tab"}),
            }
        })
        .collect();
    let links: Vec<usize> = (0..LINKS.len()).filter(|_| r.chance(3, 4)).collect();
    let faults: Vec<Js> = if r.chance(1, 3) {
        (0..r.range(1, 2))
            .map(|_| {
                let op = *r.pick(&["realpath", "realpath", "stat", "open", "read", "readdir"]);
                let suf = *r.pick(&["", "root", "a", "b", "go.ogma", "out"]);
                let e = match r.below(4) {
                    0 => json!({"errno": 13}),
                    1 => json!({"delay": r.range(1, 4000)}),
                    2 => json!({"errno": 40}),
                    _ => json!({"errno": 5}),
                };
                json!({"op": op, "suf": suf, "skip": r.below(12), "times": r.range(1, 3), "e": e})
            })
            .collect()
    } else {
        vec![]
    };
    json!({"root": *r.pick(&["abs", "abs", "rel", "dot", "link", "up"]), "links": links, "ops": ops, "faults": faults})
}

const ROOT: &str = "/w/root";

fn is_dir(p: &str) -> bool {
    vfs().dirs_all().iter().any(|d| d.trim_end_matches('/') == p.trim_end_matches('/')) || p == "/"
}
fn below_root(c: &str) -> bool {
    c == ROOT || c.starts_with("/w/root/")
}
fn join(wd: &str, p: &str) -> String {
    if p.starts_with('/') {
        p.to_string()
    } else {
        format!("{wd}/{p}")
    }
}
fn key_of(d: &str) -> String {
    format!("in-{}", d.trim_start_matches('/').replace(['/', ' '], "-"))
}
fn faults() -> u64 {
    vfs().fault_counts.iter().filter(|f| !f.0.contains("delay")).map(|f| f.1).sum()
}

fn run(p: &Js) {
    for d in DIRS {
        std::fs::create_dir_all(d).unwrap();
        std::fs::write(format!("{d}/id.txt"), format!("at {d}")).unwrap();
        std::fs::write(format!("{d}/{}", key_of(d)), "x").unwrap();
        std::fs::write(format!("{d}/go.ogma"), format!("\\ 'from {d}' | save 'ran.txt'\n")).unwrap();
    }
    let v = vfs();
    for l in p.arr("links") {
        let (at, to) = LINKS[l.as_u64().unwrap_or(0) as usize % LINKS.len()];
        v.symlink(to.as_bytes(), at.as_bytes()).ok();
    }
    v.symlink(b"root", b"/w/rl").unwrap();
    let (cwd, root) = match p.s("root") {
        "rel" => ("/w", "root"),
        "dot" => (ROOT, "."),
        "link" => ("/w/cwd", "/w/rl"),
        "up" => ("/w/cwd", "../root"),
        _ => ("/w/cwd", ROOT),
    };
    v.chdir(cwd.as_bytes()).unwrap();
    let mut s = Sess::start(root, &[], (150, 50));
    s.alt('h');
    s.mark(20 * SEC);
    for f in p.arr("faults") {
        let e = &f["e"];
        let eff = match e["errno"].as_u64() {
            Some(n) => Effect::Errno(n as i32),
            _ => Effect::Delay(e.u("delay") * MS),
        };
        let Some(op) = Op::parse(f.s("op")) else { continue };
        v.rule(op, f.s("suf"), f.u("skip") as u32, f.u("times") as u32, eff, "io");
    }
    const LIM: u64 = 60 * SEC;
    let mut tabs: Vec<String> = vec![ROOT.into()];
    let mut cur = 0usize;
    let (mut moved, mut refused) = (0, 0);
    for (n, op) in p.arr("ops").iter().enumerate() {
        let at = v.log.len();
        let f0 = faults();
        let wd = tabs[cur].clone();
        log(|| format!("{n}: {op} in tab {cur} at {wd}"));
        match op.s("op") {
            "cd" => {
                let t = op.s("p");
                let want = v.canon(&join(&wd, t)).filter(|c| is_dir(c) && below_root(c));
                let o = s.run(&format!("cd {t}"), LIM);
                let said = o.iter().filter(|l| !l.is_empty()).count();
                let refuse = said > 1;
                if said == 0 {
                    fail("nothing reported", format!("`cd {t}` in {wd} reports nothing"));
                }
                match (&want, refuse) {
                    _ if t.is_empty() => (),
                    (Some(w), false) => {
                        tabs[cur] = w.clone();
                        moved += 1;
                    }
                    (_, true) if want.is_none() || faults() > f0 => refused += 1,
                    (Some(w), true) => fail("move refused", format!("`cd {t}` in {wd} should lead to {w}: {o:?}")),
                    (None, false) => fail("bad move not reported", format!("`cd {t}` in {wd} names no directory below the root, but is not refused: {o:?}")),
                    _ => unreachable!(),
                }
            }
            "run" => {
                let t = op.s("p");
                let file = v.canon(&join(&wd, t)).filter(|c| below_root(c) && !is_dir(c));
                for d in v.dirs_all() {
                    std::fs::remove_file(format!("{d}/ran.txt")).ok();
                }
                let o = s.run(&format!("run {t}{}", op.s("fl")), LIM);
                let ran: Vec<(String, Vec<u8>)> = v.tree().into_iter().filter(|f| f.0.ends_with("ran.txt")).collect();
                let ok = o.iter().any(|l| l.contains("SUCCESS"));
                for l in &v.log[at..] {
                    let c = v.canon(&l.path).unwrap_or_else(|| l.path.clone());
                    if matches!(l.op, Op::Open | Op::Read) && l.res >= 0 && c.ends_with(".ogma") && Some(&c) != file.as_ref() {
                        fail("another file read", format!("`run {t}` in {wd} (names {file:?}) reads {c}: {o:?}"));
                    }
                }
                if o.iter().all(|l| l.is_empty()) {
                    fail("nothing reported", format!("`run {t}` in {wd} reports nothing"));
                }
                match (&file, ok) {
                    (Some(c), true) => {
                        let d = c.rsplit_once('/').unwrap().0;
                        let want = vec![(format!("{wd}/ran.txt"), format!("from {d}").into_bytes())];
                        if ran != want {
                            fail("wrong batch or place", format!("`run {t}` in {wd} left {:?}, expected {:?}", show(&ran), show(&want)));
                        }
                        moved += 1;
                    }
                    (_, false) if !ran.is_empty() && faults() == f0 => fail("ran but reported as failed", format!("`run {t}` in {wd}: {:?}; {o:?}", show(&ran))),
                    (None, true) => fail("ran what is not below the root", format!("`run {t}` in {wd}: {:?}; {o:?}", show(&ran))),
                    (Some(c), false) if faults() == f0 => fail("run refused", format!("`run {t}` in {wd} should run {c}: {o:?}")),
                    _ => refused += 1,
                }
            }
            "open" | "ls" | "sug" => probe(&mut s, op.s("op"), &wd, f0),
            "ext" => {
                let d = "/w/root/n1";
                if op.s("w") == "mkdir" {
                    std::fs::create_dir_all(d).ok();
                    std::fs::write(format!("{d}/id.txt"), format!("at {d}")).ok();
                } else if !tabs.iter().any(|t| t.starts_with(d)) {
                    std::fs::remove_dir_all(d).ok();
                }
                // (the listing of a file cache may lag behind by its stated bound)
                s.idle(2 * SEC);
            }
            "relink" => {
                let (l, t) = (LINKS[op.u("l") as usize % 11].0, op.s("t"));
                if t.is_empty() {
                    std::fs::remove_file(l).ok();
                } else {
                    let tmp = "/w/tmp-link";
                    std::os::unix::fs::symlink(t, tmp).ok();
                    std::fs::rename(tmp, l).ok();
                }
                s.idle(2 * SEC);
            }
            "new" if tabs.len() < 4 => {
                s.alt('t');
                tabs.push(ROOT.into());
                cur = tabs.len() - 1;
            }
            "tab" => {
                s.key(KeyCode::Tab, M::NONE);
                cur = (cur + 1) % tabs.len();
            }
            "close" if tabs.len() > 1 => {
                s.alt('q');
                tabs.remove(cur);
                cur += 1;
                if cur >= tabs.len() {
                    cur = 0;
                }
            }
            _ => continue,
        }
        // the prompt names where the tab is
        let wd = &tabs[cur];
        let named = |s: &Sess| {
            let Some(i) = s.input() else { return false };
            let Some(p) = i.strip_suffix('>') else { return false };
            v.canon(&join(ROOT, p)).as_ref() == Some(wd) || v.canon(&join(cwd, p)).as_ref() == Some(wd)
        };
        if !s.wait(5 * SEC, |s| named(s)) {
            fail("prompt names another place", format!("after {op} the tab is at {wd}, the prompt reads {:?}", s.input()));
        }
        feature(hash_str(&format!("{wd}/{cur}/{}", op.s("op"))));
    }
    // where every tab really is
    for _ in 0..tabs.len() {
        let f0 = faults();
        let wd = tabs[cur].clone();
        probe(&mut s, "open", &wd, f0);
        let f0 = faults();
        probe(&mut s, "ls", &wd, f0);
        s.key(KeyCode::Tab, M::NONE);
        cur = (cur + 1) % tabs.len();
    }
    if moved > 0 && refused > 0 {
        nontrivial();
    }
    // the session ends with its last tab
    for _ in 0..tabs.len() {
        s.alt('q');
    }
    s.wait(10 * SEC, |s| s.ended().is_some());
    if s.ended() != Some(&Ok(())) {
        s.down("closing the last tab");
    }
}
fn show(v: &[(String, Vec<u8>)]) -> Vec<(String, String)> {
    v.iter().map(|x| (x.0.clone(), String::from_utf8_lossy(&x.1).into_owned())).collect()
}

/// What is seen from the tab's directory.
fn probe(s: &mut Sess, what: &str, wd: &str, f0: u64) {
    let v = vfs();
    let here = v.peek(&format!("{wd}/id.txt")).map(|b| String::from_utf8_lossy(&b).into_owned());
    let at = v.log.len();
    if what == "sug" {
        // path suggestions come from the tab's directory
        let word = format!("in-{}", if wd.contains("out") { "" } else { "w" });
        s.text(&format!("open {word}"));
        let mine = format!("{} [", key_of(wd));
        let ok = s.wait(20 * SEC, |s| s.scr.text().contains(&mine));
        let t = s.scr.text();
        let other = DIRS.iter().find(|d| **d != wd && t.contains(&format!("{} [", key_of(d))));
        if (!ok && faults() == f0 && DIRS.contains(&wd)) || other.is_some() {
            fail("suggestions from another place", format!("the tab is at {wd}; typing `open {word}` suggests no {mine} (but {other:?}):\n{t}"));
        }
        for _ in 0..30 {
            s.key(KeyCode::Backspace, M::NONE);
        }
        s.wait(5 * SEC, |s| s.input().map_or(false, |i| i.ends_with('>')));
    } else if what == "open" {
        let o = s.run("open --Str 'id.txt'", 60 * SEC);
        let got = o.first().map(|l| l.trim().to_string()).unwrap_or_default();
        if here.as_deref() != Some(&got) && faults() == f0 {
            fail("open sees another place", format!("the tab is at {wd}; `open --Str 'id.txt'` gives {o:?}"));
        }
        if got.starts_with("at ") && here.as_deref() != Some(&got) {
            fail("open sees another place", format!("the tab is at {wd}; `open --Str 'id.txt'` gives {o:?}"));
        }
    } else {
        let o = s.run("ls", 60 * SEC).join("\n");
        let names = v.names(wd);
        let missing = names.iter().find(|n| !o.contains(n.as_str()));
        let other = DIRS.iter().find(|d| **d != wd && o.split(|c: char| c.is_whitespace() || "│┃|".contains(c)).any(|w| w == key_of(d)));
        if (missing.is_some() && faults() == f0) || other.is_some() {
            fail("ls sees another place", format!("the tab is at {wd} with {names:?}; missing {missing:?}, seen {other:?}\n{o}"));
        }
    }
    for l in &v.log[at..] {
        let c = v.canon(&l.path).unwrap_or_default();
        if matches!(l.op, Op::Open | Op::Read) && l.res >= 0 && c.ends_with("id.txt") && !below_root(&c) {
            fail("read outside the root", format!("the tab is at {wd}; {what} reads {c}"));
        }
    }
}
