//! C24: the definitions the server knows are those of its documents.
use super::editor::*;
use kit::serde_json::{json, Value as Js};
use kit::simrt::rng::Rng;
use kit::simrt::{
    sched,
    vfs::{vfs, Effect, Op},
};
use kit::{J, *};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

pub fn parts() -> Vec<Part> {
    vec![Part {
        name: "C24.defs",
        rule: "a random history over 1-4 documents of commands and types, some using commands and types of other documents, some broken (syntax, unknown command, unknown type, clash with a built in), some given on the command line (some missing or not text): opens, re-opens, edits and saves, completions of commands and types and hovers sent without waiting, a slow client and 1-8 workers; the commands and types offered must be the built in ones and exactly those of the documents as they were at the last open or save (from the start for those on the command line), hovers over a command show help exactly when it is known; non-trivial: at least three loads and three compared answers with definitions",
        gen,
        run,
        tune: no_tune,
        on_end: default_end,
        max_steps: 20_000_000,
        shrink: &["/ops", "/ops/*/doc/items", "/cli/*/items", "/cli", "/slow"],
        runs: (30_000, 2_000_000),
        real: "ogma-ls crate (dispatch, documents, workspace, hover, completion), ogma crate (parser, file parser, definitions), serde/serde_json/url, crossbeam, rayon, std",
        stub: "thread scheduler, clocks, file system, stdio transport (channels held by the harness), lsp-types stand-in with the same message shapes",
    }]
}

const DOCS: u64 = 4;
/// An item: command n of document d.
fn gen_item(r: &mut Rng) -> Js {
    match r.below(14) {
        0 => json!({"k": "bad", "b": *r.pick(&["syntax", "brace", "op", "inty", "builtin", "tysyntax", "tyfield", "tydup"])}),
        1..=4 => json!({"k": "ty", "n": r.below(3), "sum": r.chance(1, 3), "dep": dep(r, 3)}),
        5 => json!({"k": "expr"}),
        6 => json!({"k": "doc", "n": r.below(4)}),
        _ => json!({"k": "def", "n": r.below(4), "ty": if r.chance(1, 3) { dep(r, 3) } else { Js::Null }, "use": dep(r, 4), "nl": r.chance(1, 3)}),
    }
}
/// Something of a document, mostly nothing.
fn dep(r: &mut Rng, n: u64) -> Js {
    if r.chance(1, 3) {
        json!([r.below(DOCS), r.below(n)])
    } else {
        Js::Null
    }
}
fn gen_doc(r: &mut Rng) -> Js {
    let items: Vec<Js> = (0..r.below(5)).map(|_| gen_item(r)).collect();
    json!({"items": items, "eol": *r.pick(&["\n", "\n", "\r\n"])})
}
fn gen(r: &mut Rng, t: Tier) -> Js {
    let docs = r.range(1, DOCS);
    let cli: Vec<Js> = if r.chance(1, 3) {
        (0..r.range(1, docs))
            .map(|_| {
                let mut d = gen_doc(r);
                d["kind"] = json!(*r.pick(&["", "", "", "", "", "missing", "bytes", "dir"]));
                d
            })
            .collect()
    } else {
        vec![]
    };
    let n = if t == Tier::Quick { r.range(3, 18) } else { r.range(3, 40) };
    let ops: Vec<Js> = (0..n)
        .map(|_| {
            let d = r.below(docs);
            match r.below(14) {
                0..=3 => json!({"op": "open", "d": d, "doc": gen_doc(r)}),
                4 | 5 => json!({"op": "edit", "d": d, "doc": gen_doc(r), "part": r.chance(1, 2)}),
                6 | 7 => json!({"op": "save", "d": d}),
                8 => json!({"op": "pause", "ns": rand_delay(r, 20 * MS)}),
                9 => json!({"op": "types"}),
                10 | 11 => json!({"op": "commands"}),
                _ => json!({"op": "hover", "d": r.below(DOCS), "n": r.below(4)}),
            }
        })
        .collect();
    let slow: Vec<u64> = if r.chance(1, 4) { (0..r.range(1, 8)).map(|_| rand_delay(r, 50 * MS)).collect() } else { vec![] };
    json!({"docs": docs, "cli": cli, "ops": ops, "slow": slow, "fault": if r.chance(1, 8) { r.below(4) as i64 } else { -1 }})
}

// ------------------------------------------------------------------ documents
fn cmd(d: u64, n: u64) -> String {
    format!("zq{d}c{n}")
}
fn ty(d: u64, n: u64) -> String {
    format!("Zq{d}t{n}")
}
fn pair(j: &Js) -> Option<(u64, u64)> {
    Some((j[0].as_u64()?, j[1].as_u64()?))
}
fn text_of(d: u64, doc: &Js) -> String {
    let mut s = String::new();
    for i in doc.arr("items") {
        let t = match i.s("k") {
            "ty" => {
                let n = ty(d, i.u("n"));
                let f = pair(&i["dep"]).map_or("Num".into(), |(d, n)| ty(d, n));
                if i.b("sum") {
                    format!("def-ty {n} :: Aa {{ x:{f} }} | Bb")
                } else {
                    format!("def-ty {n} {{ x:{f} }}")
                }
            }
            "def" => {
                let t = pair(&i["ty"]).map_or(String::new(), |(d, n)| format!("{} ", ty(d, n)));
                let b = pair(&i["use"]).map_or("\\ 5".into(), |(d, n)| cmd(d, n));
                let nl = if i.b("nl") { "\n    " } else { " " };
                format!("# what it does\ndef {} {t}() {{{nl}{b} }}", cmd(d, i.u("n")))
            }
            "expr" => "\\ 5 | + 6".into(),
            "doc" => format!("# on {}\n# more", cmd(d, i.u("n"))),
            _ => match i.s("b") {
                "syntax" => "def zqbad (".into(),
                "brace" => "def zqbad () { \\ 5 ".into(),
                "op" => "def zqbad () { zqnothing }".into(),
                "inty" => "def zqbad ZqNothing () { \\ 5 }".into(),
                "builtin" => "def empty () { \\ 5 }".into(),
                "tysyntax" => "def-ty ZqBad { x:".into(),
                "tyfield" => "def-ty ZqBad { x:ZqNothing }".into(),
                _ => "def-ty Ord :: X | Y".to_string(),
            },
        };
        s.push_str(&t);
        s.push_str("\n\n");
    }
    s.replace('\n', doc.s("eol"))
}

/// What a document as it stands adds, given what is known: `None` when it fails.
fn load(d: u64, doc: &Js, cmds: &BTreeSet<String>, tys: &BTreeSet<String>) -> Option<(BTreeSet<String>, BTreeSet<String>)> {
    let (mut c, mut t) = (BTreeSet::new(), BTreeSet::new());
    let items = doc.arr("items");
    if items.iter().any(|i| i.s("k") == "bad") {
        return None;
    }
    let known = |t: &BTreeSet<String>, x: &str| tys.contains(x) || t.contains(x);
    for i in items.iter().filter(|i| i.s("k") == "ty") {
        if let Some((a, b)) = pair(&i["dep"]) {
            if !known(&t, &ty(a, b)) {
                return None;
            }
        }
        let n = ty(d, i.u("n"));
        // its constructors
        if i.b("sum") {
            c.extend([format!("{n}::Aa"), format!("{n}::Bb")]);
        } else {
            c.insert(n.clone());
        }
        if !t.insert(n) {
            return None;
        }
    }
    for i in items.iter().filter(|i| i.s("k") == "def") {
        if let Some((a, b)) = pair(&i["ty"]) {
            if !known(&t, &ty(a, b)) {
                return None;
            }
        }
        if let Some((a, b)) = pair(&i["use"]) {
            let u = cmd(a, b);
            if !cmds.contains(&u) && !c.contains(&u) {
                return None;
            }
        }
        c.insert(cmd(d, i.u("n")));
    }
    Some((c, t))
}
/// Everything the documents define together, in whatever order.
fn known(docs: &BTreeMap<u64, Js>) -> (BTreeSet<String>, BTreeSet<String>) {
    let (mut cs, mut ts) = (BTreeSet::new(), BTreeSet::new());
    let mut left: Vec<(&u64, &Js)> = docs.iter().collect();
    loop {
        let n = left.len();
        left.retain(|(d, doc)| match load(**d, doc, &cs, &ts) {
            Some((c, t)) => {
                cs.extend(c);
                ts.extend(t);
                false
            }
            None => true,
        });
        if left.len() == n {
            return (cs, ts);
        }
    }
}

// ------------------------------------------------------------------ run
enum Want {
    Cmds(BTreeSet<String>),
    Tys(BTreeSet<String>),
    Help(String, bool),
}
fn labels(v: &Js, kind: i64) -> Option<BTreeSet<String>> {
    Some(v.as_array()?.iter().filter(|i| i["kind"].as_i64() == Some(kind)).map(|i| i.s("label").to_string()).collect())
}
fn builtin(kind: i64) -> BTreeSet<String> {
    let line = if kind == 3 { "foo-bar | " } else { "def foo-bar " };
    let v = ogma_ls::completion::get(plain(), line, None).unwrap();
    v.iter().filter(|d| super::edits::kind_no(&d.kind) == kind).map(|d| d.name.clone()).collect()
}

fn run(sc: &Js) {
    let url = |d: u64| format!("file:///w/d{d}.ogma");
    // cur: the texts, at: as they were at the last load
    let mut cur: BTreeMap<u64, Js> = BTreeMap::new();
    let mut texts: BTreeMap<u64, String> = BTreeMap::new();
    let mut vers: BTreeMap<u64, i64> = BTreeMap::new();
    let mut paths = vec![];
    std::fs::create_dir_all("/w").unwrap();
    for (d, doc) in sc.arr("cli").iter().enumerate() {
        let d = d as u64;
        let p = format!("/w/d{d}.ogma");
        paths.push(PathBuf::from(&p));
        match doc.s("kind") {
            "missing" => {}
            "dir" => std::fs::create_dir(&p).unwrap(),
            "bytes" => std::fs::write(&p, b"def zqx () { \\ 5 }\n\n\xff\xfe").unwrap(),
            _ => {
                let t = text_of(d, doc);
                std::fs::write(&p, &t).unwrap();
                cur.insert(d, doc.clone());
                texts.insert(d, t);
            }
        }
    }
    if sc.i("fault") >= 0 && !paths.is_empty() {
        // one file cannot be read: it is not there, the others are
        let d = sc.u("fault") % paths.len() as u64;
        vfs().rule(Op::Open, &format!("d{d}.ogma"), 0, 1000, Effect::Errno(13), "unreadable");
        cur.remove(&d);
        texts.remove(&d);
    }
    let (bc, bt) = (builtin(3), builtin(7));
    let slow = sc.arr("slow").iter().map(|x| x.as_u64().unwrap()).collect();
    let mut ed = Editor::start(paths, slow);
    let mut at = known(&cur);
    // a document of the harness alone, of which nothing can be loaded
    let probe = "file:///w/probe.ogma";
    let mut probed = false;
    let mut asked: Vec<(String, Want, String)> = vec![];
    let mut loads = 0;
    let mut hist: Vec<String> = vec![];
    let mut ops: Vec<Js> = sc.arr("ops").to_vec();
    ops.extend([json!({"op": "commands"}), json!({"op": "types"})]);
    for d in 0..DOCS {
        ops.push(json!({"op": "hover", "d": d, "n": 0}));
    }
    for op in &ops {
        let d = op.u("d");
        match op.s("op") {
            "open" => {
                let t = text_of(d, &op["doc"]);
                // where an editor's count starts is its own affair
                let v = [1, 1, 0, 2, 41][(t.len() + d as usize) % 5];
                ed.open(&url(d), v, &t);
                cur.insert(d, op["doc"].clone());
                texts.insert(d, t);
                vers.insert(d, v);
                at = known(&cur);
                loads += 1;
                hist.push(format!("open d{d}"));
            }
            "edit" => {
                let Some(old) = texts.get(&d) else { continue };
                let Some(v) = vers.get_mut(&d) else { continue };
                *v += 1;
                let new = text_of(d, &op["doc"]);
                let ch = if op.b("part") {
                    // the part which differs
                    let same = |a: &mut dyn Iterator<Item = (char, char)>| a.take_while(|(a, b)| a == b && *a != '\r' && *a != '\n').map(|(a, _)| a.len_utf8()).sum::<usize>();
                    let i = same(&mut old.chars().zip(new.chars()));
                    let pos = |t: &str, i: usize| {
                        let l = t[..i].matches('\n').count();
                        let c = t[..i].rsplit('\n').next().unwrap().encode_utf16().count();
                        json!({"line": l, "character": c})
                    };
                    json!({"range": {"start": pos(old, i), "end": pos(old, old.len())}, "text": &new[i..]})
                } else {
                    json!({"text": new})
                };
                ed.notify("textDocument/didChange", json!({"textDocument": {"uri": url(d), "version": *v}, "contentChanges": [ch]}));
                cur.insert(d, op["doc"].clone());
                texts.insert(d, new);
                hist.push(format!("edit d{d}"));
            }
            "save" => {
                if !vers.contains_key(&d) {
                    continue;
                }
                ed.save(&url(d));
                at = known(&cur);
                loads += 1;
                hist.push(format!("save d{d}"));
            }
            "pause" => sched::sleep_ns(op.u("ns")),
            w => {
                if !probed && (loads > 0 || sc.arr("cli").is_empty()) {
                    // opening it loads everything too
                    probed = true;
                    ed.open(probe, 1, "foo-bar | \n\ndef foo-bar \n\n");
                    at = known(&cur);
                    loads += 1;
                }
                let what = format!("{} after {}", op, hist.join(", "));
                if !probed {
                    // before any open: on a document from the command line only
                    let Some((&d, t)) = texts.iter().next() else { continue };
                    let Some(l) = t.lines().position(|l| l.starts_with("def zq") && !l.starts_with("def zqbad")) else { continue };
                    let n = t.lines().nth(l).unwrap().split(' ').nth(1).unwrap().to_string();
                    let id = ed.at("hover", &url(d), l as u64, 5);
                    let want = Want::Help(n.clone(), at.0.contains(&n));
                    asked.push((id, want, format!("hover over {n} right after the start")));
                    continue;
                }
                match w {
                    "commands" => {
                        let id = ed.at("completion", probe, 0, 10);
                        asked.push((id, Want::Cmds(&bc | &at.0), what));
                    }
                    "types" => {
                        let id = ed.at("completion", probe, 2, 12);
                        asked.push((id, Want::Tys(&bt | &at.1), what));
                    }
                    _ => {
                        // in a document of its own, which is only changed
                        let n = cmd(op.u("d"), op.u("n"));
                        let ch = json!({"range": {"start": {"line": 3, "character": 0}, "end": {"line": 99, "character": 0}}, "text": format!("\n{n}")});
                        ed.notify("textDocument/didChange", json!({"textDocument": {"uri": probe, "version": asked.len() + 2}, "contentChanges": [ch]}));
                        let id = ed.at("hover", probe, 4, 2);
                        let k = at.0.contains(&n);
                        asked.push((id, Want::Help(n, k), what));
                    }
                }
            }
        }
    }
    ed.settle(60_000);
    let mut told = 0;
    for (id, want, what) in &asked {
        let r = ed.answer(id).unwrap();
        let v = r.result.clone().unwrap_or(Js::Null);
        let (want, got, of) = match want {
            Want::Cmds(w) => (w, labels(&v, 3), "commands"),
            Want::Tys(w) => (w, labels(&v, 7), "types"),
            Want::Help(n, k) => {
                let t = v.s("contents");
                if !t.starts_with(&format!("`{n}` [_command_]")) || t.contains("```") != *k {
                    fail(
                        if *k { "the help of a defined command is not shown" } else { "the help of an undefined command is shown" },
                        format!("{what}: {n} is {}known, the hover is {:.200}", if *k { "" } else { "not " }, v.to_string()),
                    );
                }
                told += *k as u64;
                continue;
            }
        };
        let Some(got) = got else { fail(format!("no {of} are offered"), format!("{what}: {:.200}", v.to_string())) };
        if *want != got {
            let a: Vec<_> = want.difference(&got).collect();
            let b: Vec<_> = got.difference(want).collect();
            fail(
                format!("the {of} offered are not those of the documents: {}", if b.is_empty() { "some are missing" } else { "some are left over" }),
                format!("{what}: missing {a:?}, too many {b:?}"),
            );
        }
        told += want.iter().any(|x| x.to_lowercase().starts_with("zq")) as u64;
    }
    if let Some(p) = panics().first() {
        fail(panic_sig(p), format!("{} at {}", p.msg, p.at));
    }
    count("answers compared", asked.len() as u64);
    count("loads", loads);
    feature(hash_str(&format!("{at:?}")));
    if loads >= 3 && told >= 3 {
        nontrivial();
    }
    ed.hang_up();
}
