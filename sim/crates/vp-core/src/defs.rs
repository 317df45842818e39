//! C21: loading, defining and clearing definitions while others evaluate.
use super::world::*;
use kit::serde_json::{json, Value as Js};
use kit::simrt::{
    rng::Rng,
    vfs::{vfs, Effect, Op},
};
use kit::{J, *};
use ogma::lang::{ast::Location, construct_def_table, process_definition, Definitions, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::{Arc, RwLock};

const MS: u64 = 1_000_000;

pub fn parts() -> Vec<Part> {
    vec![Part {
        name: "C21.defs",
        rule: "a loader working through a random history of loading 1-4 definition files (types, commands keyed on types, documentation, expressions, comments; some broken in one item, not text, missing or very long), defining single commands and types, clearing all or only files, listing and rewriting the files, while opening, reading and resolving fail, are interrupted, short or slow, and 0-3 others evaluate with a copy of the definitions; every step's outcome, the listing, the types and the result of every command are compared with a model; non-trivial: at least two loads of which one succeeds",
        gen,
        run,
        tune: no_tune,
        on_end: default_end,
        max_steps: 20_000_000,
        shrink: &["/files/*/items", "/ops", "/files", "/faults"],
        runs: (40_000, 2_000_000),
        real: "ogma crate (file and definition parsers, definitions, compiler, evaluator), std",
        stub: "thread scheduler, clocks, file system (fault injecting), table/kserd/numfmt stand-ins",
    }]
}

// ------------------------------------------------------------------ generation
const FNS: u64 = 5;
const TYS: u64 = 3;
const STRS: &[&str] = &["ab", "x --clear y", "x --list", " --help", "a # b", "def f0 () { }", "é漢", "[fail-fast]"];

fn gen_item(r: &mut Rng) -> Js {
    match r.below(12) {
        0 | 1 => json!({"k": "ty", "n": r.below(TYS), "sum": r.chance(1, 3), "dep": r.chance(1, 3)}),
        2 => json!({"k": "expr"}),
        _ => {
            let n = r.below(FNS);
            let inp = *r.pick(&["", "", "", "Num", "Num", "Str", "T"]);
            json!({
                "k": "def", "n": if r.chance(1, 6) { FNS + r.below(2) } else { n }, "in": inp, "t": r.below(TYS),
                "body": *r.pick(&["const", "const", "use", "use", "str", "param"]),
                "u": r.below(FNS), "v": r.below(50), "doc": r.chance(1, 3), "nl": r.chance(1, 4),
            })
        }
    }
}
/// An item which depends on no type of a file (clearing the files leaves it).
fn own(mut i: Js) -> Js {
    if i.s("k") == "ty" {
        i["dep"] = json!(false);
    } else if i.s("k") == "def" && i.s("in") == "T" {
        i["in"] = json!("Num");
    }
    i
}
fn gen_bad(r: &mut Rng) -> Js {
    json!({"k": "bad", "b": *r.pick(&["syntax", "brace", "op", "inty", "builtin", "tysyntax", "tybuiltin", "tyfield", "name"])})
}
fn gen_file(r: &mut Rng) -> Js {
    let mut items: Vec<Js> = (0..r.range(1, 6)).map(|_| gen_item(r)).collect();
    if r.chance(1, 4) {
        let i = r.below(items.len() as u64 + 1) as usize;
        items.insert(i, gen_bad(r));
    }
    let kind = match r.below(40) {
        0 => "missing",
        1 => "dir",
        2 => "bytes",
        3 => "long",
        4 => "crlf",
        _ => "",
    };
    json!({"items": items, "kind": kind, "blank": r.range(1, 3), "head": r.below(4)})
}
fn gen(r: &mut Rng, _t: Tier) -> Js {
    let nf = r.range(1, 4);
    let files: Vec<Js> = (0..nf).map(|_| gen_file(r)).collect();
    let ops: Vec<Js> = (0..r.range(2, 9))
        .map(|_| match r.below(12) {
            0..=5 => json!({"op": "load", "f": r.below(nf), "str": r.chance(1, 4)}),
            6 | 7 => json!({"op": "def", "i": if r.chance(1, 6) { gen_bad(r) } else { own(gen_item(r)) }}),
            8 => json!({"op": "clear", "files": r.chance(1, 2)}),
            9 => json!({"op": "flag", "w": *r.pick(&["def --clear", "def --list", "def --list | len"])}),
            _ => json!({"op": "write", "f": r.below(nf), "n": gen_file(r)}),
        })
        .collect();
    let faults: Vec<Js> = if r.chance(1, 2) {
        (0..r.range(1, 3))
            .map(|_| {
                let op = *r.pick(&["open", "read", "read", "stat"]);
                let e = match r.below(5) {
                    0 => json!({"errno": 4}),
                    1 => json!({"errno": 13}),
                    2 => json!({"delay": r.below(300)}),
                    3 if op == "read" => json!({"short": r.range(1, 30)}),
                    _ => json!({"errno": 5}),
                };
                json!({"op": op, "suf": format!("d{}.ogma", r.below(nf)), "skip": r.below(5), "times": if r.chance(1, 4) { 100 } else { r.range(1, 2) }, "e": e})
            })
            .collect()
    } else {
        vec![]
    };
    json!({"files": files, "ops": ops, "faults": faults, "evals": r.below(4), "chunk": r.pick(&[0u64, 0, 1, 7, 64])})
}

// ------------------------------------------------------------------ model
#[derive(Clone, Debug, PartialEq)]
enum Body {
    Const(f64),
    /// Call another command with the same input, then add.
    Use(String, f64),
    /// Add to the input (by its type).
    Param(f64),
}
#[derive(Clone, Debug, PartialEq)]
struct Def {
    body: Body,
    /// file (None: shell) and line
    loc: Option<(String, usize)>,
    code: String,
    doc: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
struct Ty {
    sum: bool,
    dep: Option<String>,
    loc: Option<(String, usize)>,
}
#[derive(Clone, Default, Debug, PartialEq)]
struct Model {
    /// name, input type
    defs: BTreeMap<(String, String), Def>,
    tys: BTreeMap<String, Ty>,
}
impl Model {
    fn has_op(&self, n: &str) -> bool {
        OWN.iter().any(|x| x.0 == n) || self.defs.keys().any(|k| k.0 == n)
    }
    fn clear(&mut self, only_files: bool) {
        self.defs.retain(|_, d| only_files && d.loc.is_none());
        self.tys.retain(|_, d| only_files && d.loc.is_none());
    }
    /// Add one item.
    fn add(&mut self, i: &Js, loc: Option<(String, usize)>, doc: Option<String>) -> Result<(), ()> {
        match i.s("k") {
            "ty" => {
                let n = ty_name(i);
                let dep = ty_dep(i);
                if dep.as_ref().map_or(false, |d| !self.tys.contains_key(d)) || self.tys.contains_key(&n) {
                    return Err(());
                }
                self.tys.insert(n, Ty { sum: i.b("sum"), dep, loc });
                Ok(())
            }
            "def" => {
                let inp = in_ty(i);
                if let Some(t) = inp.strip_prefix('T') {
                    if !self.tys.contains_key(&format!("T{t}")) {
                        return Err(());
                    }
                }
                if built_in(&fn_name(i), &inp) {
                    return Err(());
                }
                let body = body_of(i);
                if let Body::Use(n, _) = &body {
                    if !self.has_op(n) {
                        return Err(());
                    }
                }
                let code = code_of(i);
                self.defs.insert((fn_name(i), inp), Def { body, loc, code, doc });
                Ok(())
            }
            "bad" => Err(()),
            _ => Ok(()),
        }
    }
    /// The commands a call may come to.
    fn dangling(&self, n: &str, seen: &mut BTreeSet<String>) -> bool {
        if !self.has_op(n) {
            return true;
        }
        if !seen.insert(n.to_string()) {
            return false;
        }
        self.defs.iter().filter(|(k, _)| k.0 == n).any(|(_, d)| match &d.body {
            Body::Use(m, _) => self.dangling(m, seen),
            _ => false,
        })
    }
    /// Does every variant a call may come to fit every input it may get? (Otherwise the variants
    /// which do not fit may spoil the type inference of the ones that do.)
    fn plain(&self, n: &str, ty: &str, seen: &mut BTreeSet<(String, String)>) -> bool {
        if !seen.insert((n.to_string(), ty.to_string())) {
            return true;
        }
        let has = |m: &str, t: &str| self.defs.contains_key(&(m.to_string(), t.to_string()));
        if built_in(n, ty) {
            return true;
        }
        if !has(n, "") && !has(n, ty) {
            return false;
        }
        self.defs.iter().filter(|(k, _)| k.0 == n).all(|((_, t), d)| match &d.body {
            Body::Use(m, _) => self.plain(m, t, seen),
            _ => true,
        })
    }
    fn call(&self, n: &str, inp: &In) -> Result<f64, ()> {
        match (n, inp) {
            ("len", In::Str(s)) => return Ok(s.chars().count() as f64),
            ("floor", In::Num(x)) => return Ok(x.floor()),
            _ => (),
        }
        let d = self.defs.get(&(n.to_string(), inp.ty())).or_else(|| self.defs.get(&(n.to_string(), String::new()))).ok_or(())?;
        Ok(match &d.body {
            Body::Const(v) => *v,
            Body::Use(m, v) => self.call(m, inp)? + v,
            Body::Param(v) => match inp {
                In::Num(x) => x + v,
                In::Str(s) => s.chars().count() as f64 + v,
                In::T(_, x) => x + v,
                In::Nil => return Err(()),
            },
        })
    }
}
enum In {
    Nil,
    Num(f64),
    Str(&'static str),
    T(String, f64),
}
impl In {
    fn ty(&self) -> String {
        match self {
            In::Nil => "Nil".into(),
            In::Num(_) => "Num".into(),
            In::Str(_) => "Str".into(),
            In::T(n, _) => n.clone(),
        }
    }
    fn code(&self, m: &Model) -> String {
        match self {
            In::Nil => String::new(),
            In::Num(n) => format!("\\ {n} | "),
            In::Str(s) => format!("\\ '{s}' | "),
            In::T(n, v) => format!("{} | ", ctor(m, n, *v)),
        }
    }
}
fn ctor(m: &Model, n: &str, v: f64) -> String {
    match m.tys.get(n) {
        Some(Ty { sum: true, .. }) => format!("{n}::B {v}"),
        Some(Ty { dep: Some(d), .. }) => format!("{n} {v} {{ {} }}", ctor(m, d, 1.0)),
        _ => format!("{n} {v}"),
    }
}
/// Built-in commands which may be defined for other types.
const OWN: &[(&str, &str)] = &[("len", "Str"), ("floor", "Num")];
fn fn_name(i: &Js) -> String {
    match OWN.get((i.u("n") as usize).wrapping_sub(FNS as usize)) {
        Some(x) => x.0.into(),
        None => format!("f{}", i.u("n")),
    }
}
fn built_in(n: &str, inp: &str) -> bool {
    OWN.contains(&(n, inp))
}
fn ty_name(i: &Js) -> String {
    // (sums and products differ in name: a type's shape never changes)
    format!("T{}{}", if i.b("sum") { "s" } else { "p" }, i.u("n"))
}
fn ty_dep(i: &Js) -> Option<String> {
    (i.b("dep") && !i.b("sum") && i.u("n") > 0).then(|| format!("Tp{}", i.u("n") - 1))
}
fn in_ty(i: &Js) -> String {
    match i.s("in") {
        "T" => format!("Tp{}", i.u("t")),
        s => s.into(),
    }
}
fn body_of(i: &Js) -> Body {
    let v = i.u("v") as f64;
    match i.s("body") {
        // (the bodies of the others use it)
        _ if i.u("n") == FNS && i.s("k") == "def" => Body::Const(v),
        "use" if i.u("n") > 2 && i.u("n") < FNS => Body::Use(format!("f{}", i.u("u") % i.u("n")), v),
        "param" if !i.s("in").is_empty() => Body::Param(v),
        "str" => Body::Const(STRS[i.u("v") as usize % STRS.len()].chars().count() as f64),
        _ => Body::Const(v),
    }
}
/// The text of an item.
fn code_of(i: &Js) -> String {
    match i.s("k") {
        "ty" => {
            let n = ty_name(i);
            match (i.b("sum"), ty_dep(i)) {
                (true, _) => format!("def-ty {n} :: A | B {{ x:Num }}"),
                (_, Some(d)) => format!("def-ty {n} {{ x:Num y:{d} }}"),
                _ => format!("def-ty {n} {{ x:Num }}"),
            }
        }
        "def" => {
            let b = match body_of(i) {
                Body::Const(_) if i.s("body") == "str" && i.u("n") != FNS => format!("\\ '{}' | len", STRS[i.u("v") as usize % STRS.len()]),
                Body::Const(v) => format!("\\ {v}"),
                Body::Use(n, v) => format!("{n} | + {v}"),
                Body::Param(v) => match i.s("in") {
                    "Num" => format!("+ {v}"),
                    "Str" => format!("len | + {v}"),
                    _ => format!("get x | + {v}"),
                },
            };
            let t = in_ty(i);
            format!("def {} {t}{}() {{{}{b} }}", fn_name(i), if t.is_empty() { "" } else { " " }, if i.b("nl") { "\n  " } else { " " })
        }
        "expr" => "\\ 5 | + 5".into(),
        _ => match i.s("b") {
            "syntax" => "def f0 ( { \\ 1 }",
            "brace" => "def f1 () { \\ 1 ",
            "op" => "def f1 () { nowhere-defined 3 }",
            "inty" => "def f1 Nowhere () { \\ 1 }",
            "builtin" => "def empty () { \\ 1 }",
            "tysyntax" => "def-ty Tp0 { x: }",
            "tybuiltin" => "def-ty Ord :: X | Y",
            "tyfield" => "def-ty Tp9 { x:Nowhere }",
            _ => "def f9 () { f9 }",
        }
        .into(),
    }
}
/// The text of a file, the line and documentation of each item.
fn text_of_file(f: &Js) -> (String, Vec<(usize, Option<String>)>) {
    let mut s = String::new();
    let mut lines = vec![];
    match f.u("head") {
        1 => s += "# A file of definitions\n# for the tests\n\n",
        2 => s += "# About\n[fail-fast]\n\n",
        3 => s += "\n\n",
        _ => (),
    }
    if f.s("kind") == "long" {
        s += "# a comment far above\n";
        s += &"\n".repeat(66000);
    }
    for (n, i) in f.arr("items").iter().enumerate() {
        let mut doc = None;
        if i.b("doc") && n > 0 {
            s += "# does something\n# rather well\n";
            doc = Some("does something\nrather well".to_string());
        }
        lines.push((s.matches('\n').count() + 1, doc));
        s += &code_of(i);
        s += &"\n".repeat(1 + f.u("blank") as usize);
    }
    if f.s("kind") == "crlf" {
        s = s.replace('\n', "\r\n");
    }
    (s, lines)
}
fn path(k: u64) -> String {
    format!("/w/d{k}.ogma")
}
fn store(k: u64, f: &Js) {
    let p = path(k);
    std::fs::remove_file(&p).ok();
    std::fs::remove_dir(&p).ok();
    let (mut t, _) = (text_of_file(f).0.into_bytes(), ());
    match f.s("kind") {
        "missing" => return,
        "dir" => return std::fs::create_dir(&p).unwrap(),
        "bytes" => t.extend([0xff, 0xfe, b'\n']),
        _ => (),
    }
    // (the faults are for the loader: written elsewhere, then moved)
    std::fs::write("/w/new", t).unwrap();
    std::fs::rename("/w/new", &p).unwrap();
}

// ------------------------------------------------------------------ the run
fn run(p: &Js) {
    put("/w/x", "");
    let mut files: Vec<Js> = p.arr("files").to_vec();
    if files.is_empty() {
        return;
    }
    for (k, f) in files.iter().enumerate() {
        store(k as u64, f);
    }
    let mut v = vfs();
    if p.u("chunk") > 0 {
        v.chunk = p.u("chunk") as usize;
    }
    for f in p.arr("faults") {
        let e = &f["e"];
        let eff = if let Some(n) = e["errno"].as_u64() {
            Effect::Errno(n as i32)
        } else if let Some(n) = e["short"].as_u64() {
            Effect::Short(n as usize)
        } else {
            Effect::Delay(e.u("delay") * MS)
        };
        let Some(op) = Op::parse(f.s("op")) else { continue };
        v.rule(op, f.s("suf"), f.u("skip") as u32, f.u("times") as u32, eff, "io");
    }
    drop(v);
    let base = defs();
    let base_rows: BTreeSet<Vec<String>> = rows(&base, true);
    let base_tys: BTreeSet<String> = base.types().iter().map(|x| x.0.to_string()).collect();
    let live = Arc::new(RwLock::new((base, Model::default(), 0u64)));
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    // others evaluate with a copy of the definitions
    let mut hs = vec![];
    for e in 0..p.u("evals") {
        let (live, stop) = (live.clone(), stop.clone());
        hs.push(std::thread::spawn(move || {
            let mut k = 0u64;
            while !stop.load(std::sync::atomic::Ordering::SeqCst) && k < 12 {
                let (d, m) = {
                    let g = live.read().unwrap();
                    (g.0.clone(), g.1.clone())
                };
                let name = fn_name(&json!({"n": (k + e) % (FNS + 2)}));
                check_call(&d, &m, &name, &inputs(&m)[(k as usize + e as usize) % 3], "other");
                k += 1;
                std::thread::sleep(std::time::Duration::from_micros(300));
            }
        }));
    }
    let (mut loads, mut good) = (0, 0);
    for (n, op) in p.arr("ops").iter().enumerate() {
        let mut g = live.write().unwrap();
        let mut m = g.1.clone();
        match op.s("op") {
            "load" => {
                let k = op.u("f") % files.len() as u64;
                let f = &files[k as usize];
                let (text, lines) = text_of_file(f);
                let by_str = op.b("str") && f.s("kind") != "missing" && f.s("kind") != "dir" && f.s("kind") != "bytes";
                let at = vfs().log.len();
                let got = if by_str { g.0.add_from_str(&text, Path::new(&path(k))) } else { g.0.add_from_file(path(k)) };
                let failed = !by_str && io_failed(at, &path(k));
                let bad_kind = !by_str && matches!(f.s("kind"), "missing" | "dir" | "bytes");
                loads += 1;
                let want = if failed || bad_kind { Err(()) } else { load(&mut m, f, &lines, &path(k)) };
                log(|| format!("{n}: load {k} {} -> {got:?}, expected {want:?}", path(k)));
                match (&got, &want) {
                    (Ok(a), Ok(b)) => {
                        good += 1;
                        if a != b {
                            fail("definition count", &format!("loading d{k} reports {a} definitions, the file has {b}"));
                        }
                    }
                    (Err(_), Err(_)) => m = g.1.clone(),
                    (Ok(a), Err(_)) => fail("bad file accepted", &format!("loading d{k} reports {a} definitions although it cannot be loaded{}", if failed { " (I/O error)" } else { "" })),
                    (Err(e), Ok(_)) => fail("good file refused", &format!("loading d{k} fails: {e}\n{text}")),
                }
            }
            "def" => {
                let i = &op["i"];
                if i.s("k") == "expr" {
                    continue;
                }
                let code = code_of(i);
                let got = process_definition(&code, Location::Shell, None, &mut g.0).map(|x| (x.0, x.1.map(|s| s.to_string())));
                let want = m.add(i, None, None);
                log(|| format!("{n}: {code} -> {got:?}, expected {want:?}"));
                match (&got, &want) {
                    (Ok((Value::Nil, None)), Ok(_)) => (),
                    (Err(_), Err(_)) => m = g.1.clone(),
                    (Err(e), _) => fail("definition refused", &format!("`{code}` fails: {e}")),
                    (Ok(x), _) => fail("definition accepted", &format!("`{code}` gives {x:?}")),
                }
            }
            "clear" => {
                g.0.clear(op.b("files"));
                m.clear(op.b("files"));
                log(|| format!("{n}: clear only_files={}", op.b("files")));
            }
            "flag" => {
                let w = op.s("w");
                let rows_before = construct_def_table(&g.0).rows_len();
                let got = process_definition(w, Location::Shell, None, &mut g.0).map(|x| (x.0, x.1.map(|s| s.to_string())));
                match (w, &got) {
                    ("def --clear", Ok((Value::Nil, None))) => m.clear(false),
                    ("def --list", Ok((Value::Tab(t), None))) if t.rows_len() == rows_before => (),
                    ("def --list | len", Ok((Value::Tab(t), Some(s)))) if t.rows_len() == rows_before && s == "len" => (),
                    _ => fail("def flag", &format!("`{w}` gives {}", match &got { Ok(x) => format!("{:?}", x.1), Err(e) => e.to_string() })),
                }
            }
            _ => {
                let k = op.u("f") % files.len() as u64;
                files[k as usize] = op["n"].clone();
                // (the file is rewritten while nobody loads)
                store(k, &files[k as usize]);
                log(|| format!("{n}: write d{k}"));
                continue;
            }
        }
        g.1 = m;
        g.2 += 1;
        let (d, m) = (g.0.clone(), g.1.clone());
        drop(g);
        check(&d, &m, &base_rows, &base_tys, n);
    }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    for h in hs {
        if h.join().is_err() {
            fail("evaluation panicked", "an evaluation panicked");
        }
    }
    if loads >= 2 && good >= 1 {
        nontrivial();
    }
    feature(hash_str(&format!("{loads}:{good}:{:?}", live.read().unwrap().1.defs.keys().collect::<Vec<_>>())));
}

/// Did opening or reading the file fail (an interruption is not a failure)?
fn io_failed(at: usize, p: &str) -> bool {
    vfs().log[at..].iter().any(|l| {
        l.path == p && !l.write && matches!(l.op, Op::Open | Op::Read) && l.res < 0 && l.res != -4
    })
}
/// Load a whole file into the model, or nothing.
fn load(m: &mut Model, f: &Js, lines: &[(usize, Option<String>)], p: &str) -> Result<usize, ()> {
    let mut n = 0;
    for tys in [true, false] {
        for (i, (line, doc)) in f.arr("items").iter().zip(lines) {
            let is_ty = i.s("k") == "ty" || (i.s("k") == "bad" && i.s("b").starts_with("ty"));
            if is_ty == tys {
                m.add(i, Some((p.to_string(), *line)), doc.clone())?;
                n += (i.s("k") != "expr") as usize;
            }
        }
    }
    Ok(n)
}
fn inputs(m: &Model) -> Vec<In> {
    let mut v = vec![In::Nil, In::Num(3.0), In::Str("abcd")];
    v.extend(m.tys.iter().filter(|t| !t.1.sum).map(|t| In::T(t.0.clone(), 7.0)));
    v
}
fn check_call(d: &Definitions, m: &Model, name: &str, inp: &In, who: &str) {
    let src = format!("{}{name}", inp.code(m));
    let want = if m.dangling(name, &mut BTreeSet::new()) { Err(()) } else { m.call(name, inp) };
    let got = eval(&src, d, "/w", "/w");
    if want.is_ok() && !m.plain(name, &inp.ty(), &mut BTreeSet::new()) {
        return;
    }
    match (&got, want) {
        (Ok(Value::Num(n)), Ok(v)) if n.as_f64() == v => (),
        (Err(_), Err(_)) => (),
        _ => fail("command result", &format!("{who}: `{src}` gives {}, expected {want:?}", show(&got))),
    }
}
fn rows(d: &Definitions, ogma: bool) -> BTreeSet<Vec<String>> {
    construct_def_table(d)
        .rows()
        .skip(1)
        .map(|r| {
            r.map(|e| match e {
                table::Entry::Nil => String::new(),
                table::Entry::Num(n) => n.to_string(),
                table::Entry::Obj(Value::Str(s)) => s.to_string(),
                table::Entry::Obj(v) => format!("{v:?}"),
            })
            .collect::<Vec<_>>()
        })
        .filter(|r| (r[3] == "<ogma>") == ogma)
        .collect()
}
fn check(d: &Definitions, m: &Model, base_rows: &BTreeSet<Vec<String>>, base_tys: &BTreeSet<String>, n: usize) {
    if rows(d, true) != *base_rows {
        let now = rows(d, true);
        let x: Vec<_> = now.symmetric_difference(base_rows).collect();
        fail("built-in commands changed", &format!("after step {n} the built-in commands differ: {x:?}"));
    }
    // the listed commands
    let got: BTreeSet<(String, String, String, String)> = rows(d, false)
        .into_iter()
        .map(|r| (r[0].clone(), r[2].clone(), r[3].clone(), if r[1] == "init" { String::new() } else { format!("{} {}", r[4], r[5]) }))
        .collect();
    let mut want = BTreeSet::new();
    for ((name, inp), x) in &m.defs {
        let inp = match inp.as_str() {
            "Num" => "Number",
            "Str" => "String",
            x => x,
        };
        let (l, line) = loc(&x.loc);
        want.insert((name.clone(), inp.to_string(), l, format!("{line} {}", &x.code[4..])));
    }
    for (t, x) in &m.tys {
        let l = loc(&x.loc).0;
        if x.sum {
            want.insert((format!("{t}::A"), String::new(), l.clone(), String::new()));
            want.insert((format!("{t}::B"), String::new(), l, String::new()));
        } else {
            want.insert((t.clone(), String::new(), l, String::new()));
        }
    }
    if norm(&got) != norm(&want) {
        fail("definition list", &format!("after step {n}: listed but not expected {:?}; expected but not listed {:?}", got.difference(&want).collect::<Vec<_>>(), want.difference(&got).collect::<Vec<_>>()));
    }
    let mut tys: BTreeSet<String> = base_tys.clone();
    tys.extend(m.tys.keys().cloned());
    let now: BTreeSet<String> = d.types().iter().map(|x| x.0.to_string()).collect();
    if now != tys {
        fail("types", &format!("after step {n} the types are {now:?}, expected {tys:?}"));
    }
    for k in 0..FNS + OWN.len() as u64 {
        for i in inputs(m) {
            check_call(d, m, &fn_name(&json!({"n": k})), &i, "after step");
        }
    }
    for ((name, _), x) in &m.defs {
        let h = d.impls().get_help_all(name).map(|e| e.to_string()).unwrap_or_default();
        let lines: Vec<&str> = h.lines().map(|l| l.trim_start_matches(" | ").trim()).collect();
        if let Some(doc) = &x.doc {
            if !doc.lines().all(|l| lines.contains(&l)) {
                fail("documentation", &format!("the help of `{name}` lacks `{doc}`:\n{h}"));
            }
        }
    }
    // the types' constructors
    for (t, x) in &m.tys {
        let r = eval(&ctor(m, t, 2.0), d, "/w", "/w");
        if r.is_err() {
            fail("type constructor", &format!("`{}` fails: {}", ctor(m, t, 2.0), show(&r)));
        }
        if x.sum {
            let r = eval(&format!("{t}::A"), d, "/w", "/w");
            if r.is_err() {
                fail("type constructor", &format!("`{t}::A` fails: {}", show(&r)));
            }
        }
    }
    for k in 0..TYS {
        for t in [format!("Tp{k}"), format!("Ts{k}")] {
            if !m.tys.contains_key(&t) {
                let c = if t.starts_with("Ts") { format!("{t}::B 1") } else { format!("{t} 1") };
                let r = eval(&c, d, "/w", "/w");
                if r.is_ok() {
                    fail("type constructor", &format!("`{c}` gives {} although there is no such type", show(&r)));
                }
            }
        }
    }
    count("checks", 1);
}
fn loc(l: &Option<(String, usize)>) -> (String, String) {
    match l {
        Some((f, n)) => (f.clone(), (*n).min(u16::MAX as usize).to_string()),
        None => ("shell".into(), String::new()),
    }
}
/// (line endings within the listed code are of no concern)
fn norm(s: &BTreeSet<(String, String, String, String)>) -> BTreeSet<(String, String, String, String)> {
    s.iter().map(|x| (x.0.clone(), x.1.clone(), x.2.clone(), x.3.split_whitespace().collect::<Vec<_>>().join(" "))).collect()
}
