//! C19 and C20: table expressions on any number of workers, tables held by others.
use super::world::*;
use kit::serde_json::{json, Value as Js};
use kit::simrt::{rng::Rng, sched};
use kit::{J, *};
use ogma::lang::{ast::Location, Definitions, Table, Value};
use std::cmp::Ordering;
use std::path::Path;

const REAL: &str = "ogma crate (parser, compiler, evaluator, table commands, file cache), rayon, crossbeam, std";
const STUB: &str = "thread scheduler, clocks, file system, table/kserd/numfmt stand-ins";

pub fn parts() -> Vec<Part> {
    let base = Part {
        name: "C19.tables",
        rule: "1-3 threads evaluating random pipelines of table commands (append, filter, map, sort, grp, pick, fold, nested tables, variables, user commands) over tables of 0-320 rows on a pool of 1-8 workers, with failing rows and expressions; every result is compared with a model, every error with the one of a single worker; non-trivial: a table of at least two rows through at least two commands",
        gen: gen19,
        run: run,
        tune: no_tune,
        on_end: default_end,
        max_steps: 40_000_000,
        shrink: &["/pipes/*/ops", "/pipes", "/table/cells", "/threads"],
        runs: (40_000, 2_000_000),
        real: REAL,
        stub: STUB,
    };
    vec![
        base,
        Part {
            name: "C20.shared",
            rule: "1-3 threads evaluating random pipelines of table commands over tables which are also held elsewhere (the caller, the file cache, variables, cells of other tables, other threads, results of earlier evaluations); every holder's table is compared before and after, every result with a model; non-trivial: a shared table through at least two commands",
            gen: gen20,
            ..base
        },
    ]
}

// ------------------------------------------------------------------ model
#[derive(Clone, Debug, PartialEq)]
enum C {
    N(f64),
    S(String),
    B(bool),
    Nil,
    T(T),
}
#[derive(Clone, Debug, PartialEq)]
struct T {
    w: usize,
    r: Vec<Vec<C>>,
}
#[derive(Clone, Debug, PartialEq)]
enum V {
    Tab(T),
    Num(f64),
}
type M<X> = Result<X, ()>;

impl T {
    fn new(rows: Vec<Vec<C>>) -> T {
        let w = rows.iter().map(|r| r.len()).max().unwrap_or(0);
        let mut t = T { w, r: rows };
        t.pad();
        t
    }
    fn pad(&mut self) {
        for r in &mut self.r {
            r.resize(self.w, C::Nil);
        }
    }
    fn add_row(&mut self, row: Vec<C>) {
        self.w = self.w.max(row.len());
        self.r.push(row);
        self.pad();
    }
    fn col(&self, n: &str) -> M<usize> {
        self.r.first().and_then(|h| h.iter().position(|c| matches!(c, C::S(s) if s == n))).ok_or(())
    }
    fn show(&self) -> String {
        self.r.iter().map(|r| r.iter().map(cell).collect::<Vec<_>>().join("|")).collect::<Vec<_>>().join("\n")
    }
}
fn cell(c: &C) -> String {
    match c {
        C::N(n) => format!("#{n}"),
        C::S(s) => format!("'{s}"),
        C::B(b) => format!("{b}"),
        C::Nil => "~".into(),
        C::T(t) => format!("[{}]", t.show()),
    }
}
/// The table as the model has it.
fn of(t: &Table) -> T {
    let rows: Vec<Vec<C>> = t.rows().map(|r| r.map(of_entry).collect()).collect();
    T { w: t.cols_len(), r: rows }
}
fn of_entry(e: &table::Entry<Value>) -> C {
    match e {
        table::Entry::Nil => C::Nil,
        table::Entry::Num(n) => C::N(n.as_f64()),
        table::Entry::Obj(v) => of_value(v),
    }
}
fn of_value(v: &Value) -> C {
    match v {
        Value::Nil => C::Nil,
        Value::Num(n) => C::N(n.as_f64()),
        Value::Bool(b) => C::B(*b),
        Value::Str(s) => C::S(s.to_string()),
        Value::Tab(t) => C::T(of(t)),
        v => C::S(format!("?{v:?}")),
    }
}
fn build(t: &T) -> Table {
    let rows: Vec<Vec<table::Entry<Value>>> = t.r.iter().map(|r| r.iter().map(build_entry).collect()).collect();
    table::Table::from(rows).into()
}
fn build_entry(c: &C) -> table::Entry<Value> {
    match c {
        C::N(n) => table::Entry::Num((*n).into()),
        C::S(s) => table::Entry::Obj(Value::Str(s.as_str().into())),
        C::B(b) => table::Entry::Obj(Value::Bool(*b)),
        C::Nil => table::Entry::Nil,
        C::T(t) => table::Entry::Obj(Value::Tab(build(t))),
    }
}
fn fmt(c: &C) -> String {
    match c {
        C::Nil => "-".into(),
        C::N(n) => numfmt::Formatter::new().fmt(*n).to_string(),
        C::B(b) => b.to_string(),
        C::S(s) => s.clone(),
        C::T(t) => format!("<table [{},{}]>", t.r.len(), t.w),
    }
}

// ------------------------------------------------------------------ expressions over rows
/// An expression over a row: its text.
fn xcode(x: &Js) -> String {
    let (c, k) = (x.s("c"), x.i("k"));
    match x.s("x") {
        "dbl" => format!("{{ get:Num {c} | * 2 }}"),
        "def" => format!("{{ get:Num {c} | twice | + {} }}", k.abs()),
        "str" => format!("{{ get:Str {c} }}"),
        "len" => format!("{{ get:Str {c} | len }}"),
        "dfl" => format!("{{ get:Num {c} {} | + 1 }}", k.abs()),
        "nth" => format!("{{ get:Num {c} | let $x | \\ 'abcdefgh' | nth $x }}"),
        "tlen" => "{ \\ $t0 | len }".into(),
        "tfil" => format!("{{ \\ $t0 | filter {{ get:Num {c} | > {} }} | len }}", k.abs()),
        "if" => format!("{{ get:Num {c} | if {{> {}}} 'hi' 'lo' }}", k.abs()),
        _ => format!("{{ get:Table {c} | len }}"),
    }
}
fn num(t: &T, r: usize, c: &str) -> M<f64> {
    match &t.r[r][t.col(c)?] {
        C::N(n) => Ok(*n),
        _ => Err(()),
    }
}
fn text(t: &T, r: usize, c: &str) -> M<String> {
    match &t.r[r][t.col(c)?] {
        C::S(n) => Ok(n.clone()),
        _ => Err(()),
    }
}
fn xval(x: &Js, t: &T, r: usize, t0: &T) -> M<C> {
    let (c, k) = (x.s("c"), x.i("k").abs() as f64);
    Ok(match x.s("x") {
        "dbl" => C::N(num(t, r, c)? * 2.0),
        "def" => C::N(num(t, r, c)? * 2.0 + k),
        "str" => C::S(text(t, r, c)?),
        "len" => C::N(text(t, r, c)?.chars().count() as f64),
        "dfl" => {
            t.col(c)?;
            C::N(num(t, r, c).unwrap_or(k) + 1.0)
        }
        "nth" => {
            let n = num(t, r, c)?;
            if n < 0.0 || n.fract() != 0.0 || n >= 8.0 {
                return Err(());
            }
            C::S("abcdefgh"[n as usize..n as usize + 1].into())
        }
        "tlen" => C::N(t0.r.len() as f64 - 1.0),
        "tfil" => {
            let mut n = 0;
            for i in 1..t0.r.len() {
                if num(t0, i, c)? > k {
                    n += 1;
                }
            }
            C::N(n as f64)
        }
        "if" => C::S(if num(t, r, c)? > k { "hi" } else { "lo" }.into()),
        _ => match &t.r[r][t.col(c)?] {
            C::T(t) => C::N(t.r.len() as f64 - 1.0),
            _ => return Err(()),
        },
    })
}

// ------------------------------------------------------------------ commands
fn code(o: &Js) -> String {
    let (c, d, k) = (o.s("c"), o.s("d"), o.u("k"));
    match o.s("o") {
        "append" => {
            let xs: Vec<String> = o.arr("xs").iter().map(xcode).collect();
            let ns: Vec<String> = (0..xs.len()).map(|i| format!("--{}{}", d, i)).collect();
            format!("append {} {}", xs.join(" "), ns.join(" "))
        }
        "filter" => format!("filter {{ get:Num {c} | > {k} }}"),
        "filterc" => format!("filter {c} --Num > {k}"),
        "filters" => format!("filter {c} --Str = '{d}'"),
        "fcols" => format!("filter --cols != '{c}'"),
        "map" => format!("map {c} --Num * 2"),
        "maprow" => format!("map {c} --Num {{ + $row.{d}:Num }}"),
        "maps" => format!("map {c} --Str {{ + 'x' }}"),
        "mapf" => format!("map {c} --force {{ \\ {k} }}"),
        "maptab" => format!("map {c} --Table {{ append {{ get {d} | + {k} }} --m }}"),
        "sort" => format!("sort {c} {d}"),
        "sortby" => format!("sort-by {}", xcode(&o["x"])),
        "grp" => format!("grp {c}"),
        "grps" => format!("grp {c} {d} b"),
        "grpby" => format!("grp-by {}", xcode(&o["x"])),
        "rev" => "rev".into(),
        "revc" => "rev --cols".into(),
        "skip" => format!("skip {k}"),
        "take" => format!("take {k}"),
        "pick" => format!("pick {c} {d}"),
        "pickt" => format!("pick {c} --trail"),
        "picka" => format!("pick {c} {d} --add"),
        "ren" => format!("ren {c} '{d}'"),
        "renw" => "ren-with 0 { + 'k' }".into(),
        "dedup" => "dedup".into(),
        "dedupc" => format!("dedup {c}"),
        "addrow" => {
            let v: Vec<String> = (0..k).map(|i| if i % 2 == 0 { format!("{}", i + 3) } else { format!("'{d}'") }).collect();
            format!("append-row {}", v.join(" "))
        }
        "let" => format!("let $t{k}"),
        "back" => format!("\\ $t{k}"),
        "addt" => format!("+ {}$t{k}", o.s("f")),
        "fold" => format!("fold 0 {{ + $row.{c}:Num }}"),
        "foldw" => format!("fold-while 0 {{< {k}}} {{ + $row.{c}:Num }}"),
        "nth" => format!("nth {k} {{ get:Num {c} }}"),
        "len" => "len".into(),
        _ => "len --cols".into(),
    }
}
fn disc(c: &C) -> u8 {
    match c {
        C::B(_) => 0,
        C::N(_) => 1,
        C::S(_) => 2,
        C::Nil => 4,
        C::T(_) => 5,
    }
}
fn order(a: &C, b: &C) -> Ordering {
    disc(a).cmp(&disc(b)).then_with(|| match (a, b) {
        (C::B(a), C::B(b)) => a.cmp(b),
        (C::N(a), C::N(b)) => a.partial_cmp(b).unwrap(),
        (C::S(a), C::S(b)) => a.cmp(b),
        _ => Ordering::Equal,
    })
}
fn keep_rows(mut t: T, keep: Vec<bool>) -> T {
    let mut i = 0;
    t.r.retain(|_| {
        i += 1;
        keep[i - 1]
    });
    t
}
fn rows(t: &T) -> std::ops::Range<usize> {
    1..t.r.len().max(1)
}
fn key_rows(x: &Js, t: &T, t0: &T) -> M<Vec<(C, usize)>> {
    rows(t).map(|r| Ok((xval(x, t, r, t0)?, r))).collect()
}

fn apply(o: &Js, mut t: T, vars: &mut Vec<Option<T>>) -> M<V> {
    let (c, d, k) = (o.s("c"), o.s("d"), o.u("k"));
    let dummy = T::new(vec![]);
    let t0 = vars[0].clone().unwrap_or(dummy);
    Ok(V::Tab(match o.s("o") {
        "append" => {
            let src = t.clone();
            for (i, x) in o.arr("xs").iter().enumerate() {
                for r in 0..src.r.len() {
                    let v = if r == 0 { C::S(format!("{d}{i}")) } else { xval(x, &src, r, &t0)? };
                    t.r[r].push(v);
                }
                t.w += 1;
            }
            t
        }
        "filter" => {
            let mut keep = vec![true; t.r.len()];
            for r in rows(&t) {
                keep[r] = num(&t, r, c)? > k as f64;
            }
            keep_rows(t, keep)
        }
        "filterc" => {
            let mut keep = vec![true; t.r.len()];
            for r in rows(&t) {
                t.col(c)?;
                keep[r] = num(&t, r, c).map_or(false, |n| n > k as f64);
            }
            keep_rows(t, keep)
        }
        "filters" => {
            let mut keep = vec![true; t.r.len()];
            for r in rows(&t) {
                t.col(c)?;
                keep[r] = text(&t, r, c).map_or(false, |s| s == d);
            }
            keep_rows(t, keep)
        }
        "fcols" => {
            for i in (0..t.w).rev() {
                let h = match t.r.first().map(|r| &r[i]) {
                    Some(C::S(s)) => s.clone(),
                    _ => String::new(),
                };
                if h == c {
                    t.r.iter_mut().for_each(|r| drop(r.remove(i)));
                    t.w -= 1;
                }
            }
            t
        }
        "map" | "maprow" | "maps" | "mapf" | "maptab" => {
            let i = t.col(c)?;
            let src = t.clone();
            for r in rows(&src) {
                t.r[r][i] = match o.s("o") {
                    "map" => C::N(num(&src, r, c)? * 2.0),
                    "maprow" => C::N(num(&src, r, c)? + num(&src, r, d)?),
                    "maps" => C::S(text(&src, r, c)? + "x"),
                    "mapf" => C::N(k as f64),
                    _ => match &src.r[r][i] {
                        C::T(n) => {
                            let mut m = n.clone();
                            for q in 0..n.r.len() {
                                let v = if q == 0 { C::S("m".into()) } else { C::N(num(n, q, d)? + k as f64) };
                                m.r[q].push(v);
                            }
                            m.w += 1;
                            C::T(m)
                        }
                        _ => return Err(()),
                    },
                };
            }
            t
        }
        "sort" => {
            let cs = [t.col(c)?, t.col(d)?];
            for i in cs {
                t.r[1..].sort_by(|a, b| order(&a[i], &b[i]));
            }
            t
        }
        "sortby" => {
            let mut ks = key_rows(&o["x"], &t, &t0)?;
            ks.sort_by(|a, b| order(&a.0, &b.0));
            let mut out = vec![t.r[0].clone()];
            out.extend(ks.iter().map(|x| t.r[x.1].clone()));
            T::new(out)
        }
        "grp" | "grps" | "grpby" => {
            let ks: Vec<(C, usize)> = if o.s("o") == "grps" {
                let is = [t.col(c)?, t.col(d)?, t.col("b")?];
                let key = |r: usize| {
                    is.iter().fold(String::new(), |mut s, i| {
                        if !s.is_empty() {
                            s += "-";
                        }
                        s + &fmt(&t.r[r][*i])
                    })
                };
                rows(&t).map(|r| (C::S(key(r)), r)).collect()
            } else if o.s("o") == "grp" {
                let i = t.col(c)?;
                rows(&t).map(|r| (C::S(fmt(&t.r[r][i])), r)).collect()
            } else {
                key_rows(&o["x"], &t, &t0)?
            };
            let mut gs: Vec<(C, T)> = vec![];
            for (kx, r) in ks {
                match gs.iter_mut().find(|g| g.0 == kx) {
                    Some(g) => g.1.add_row(t.r[r].clone()),
                    None => gs.push((kx, T::new(vec![t.r[0].clone(), t.r[r].clone()]))),
                }
            }
            gs.sort_by(|a, b| order(&a.0, &b.0));
            let mut out = vec![vec![C::S("key".into()), C::S("value".into())]];
            out.extend(gs.into_iter().map(|(kx, v)| vec![kx, C::T(v)]));
            T::new(out)
        }
        "rev" => {
            t.r[1..].reverse();
            t
        }
        "revc" => {
            t.r.iter_mut().for_each(|r| r.reverse());
            t
        }
        "skip" => {
            let n = t.r.len();
            keep_rows(t, (0..n).map(|i| i == 0 || i as u128 > k as u128).collect())
        }
        "take" => {
            let n = t.r.len();
            keep_rows(t, (0..n).map(|i| i == 0 || i as u128 <= k as u128).collect())
        }
        "pick" | "pickt" | "picka" => {
            let mut cs: Vec<(Option<usize>, String)> = vec![];
            let names: &[&str] = if o.s("o") == "pickt" { &[c] } else { &[c, d] };
            for n in names {
                let i = t.col(n);
                if i.is_err() && o.s("o") != "picka" {
                    return Err(());
                }
                cs.push((i.ok(), n.to_string()));
            }
            if o.s("o") == "pickt" {
                let have = cs[0].0;
                cs.extend((0..t.w).filter(|i| Some(*i) != have).map(|i| (Some(i), String::new())));
            }
            let out = t.r.iter().enumerate().map(|(r, row)| cs.iter().map(|(i, n)| match i {
                Some(i) => row[*i].clone(),
                None if r == 0 => C::S(n.clone()),
                None => C::Nil,
            }).collect()).collect();
            T::new(out)
        }
        "ren" => {
            let i = t.col(c)?;
            t.r[0][i] = C::S(d.into());
            t
        }
        "renw" => {
            let mut hs = vec![];
            for h in &t.r[0] {
                match h {
                    C::S(s) => hs.push(C::S(format!("{s}k"))),
                    _ => return Err(()),
                }
            }
            t.r[0] = hs;
            t
        }
        "dedup" => {
            t.r.dedup();
            t
        }
        "dedupc" => {
            let i = t.col(c)?;
            t.r.dedup_by(|a, b| a[i] == b[i]);
            t
        }
        "addrow" => {
            t.add_row((0..k).map(|i| if i % 2 == 0 { C::N(i as f64 + 3.0) } else { C::S(d.into()) }).collect());
            let mut i = 1;
            for h in &mut t.r[0] {
                if *h == C::Nil {
                    *h = C::S(format!("_append{i}"));
                    i += 1;
                }
            }
            t
        }
        "let" => {
            vars[k as usize] = Some(t.clone());
            t
        }
        "back" => vars[k as usize].clone().unwrap(),
        "addt" => {
            let n = vars[k as usize].clone().unwrap();
            let (inter, cols) = (o.s("f").contains("inter"), o.s("f").contains("cols"));
            if cols {
                let len = if inter { t.r.len().min(n.r.len()) } else { t.r.len().max(n.r.len()) };
                let w = t.w + n.w;
                let at = |x: &T, i: usize, j: usize| x.r.get(i).map_or(C::Nil, |r| r[j].clone());
                let out: Vec<Vec<C>> = (0..len).map(|i| (0..t.w).map(|j| at(&t, i, j)).chain((0..n.w).map(|j| at(&n, i, j))).collect()).collect();
                T { w, r: out }
            } else if inter {
                let w = t.w.min(n.w);
                t.r.extend(n.r.iter().skip(1).cloned());
                t.r.iter_mut().for_each(|r| r.truncate(w));
                t.w = w;
                t
            } else {
                for j in t.w..n.w {
                    t.r[0].push(n.r[0][j].clone());
                }
                t.w = t.w.max(n.w);
                t.pad();
                for r in n.r.iter().skip(1) {
                    t.add_row(r.clone());
                }
                t
            }
        }
        "fold" | "foldw" => {
            let mut s = 0.0;
            for r in rows(&t) {
                if o.s("o") == "foldw" && !(s < k as f64) {
                    break;
                }
                s += num(&t, r, c)?;
            }
            return Ok(V::Num(s));
        }
        "nth" => {
            if k as u128 + 1 >= t.r.len() as u128 {
                return Err(());
            }
            return Ok(V::Num(num(&t, k as usize + 1, c)?));
        }
        "len" => return Ok(V::Num(t.r.len() as f64 - 1.0)),
        _ => return Ok(V::Num(t.w as f64)),
    }))
}

/// The commands' effect on a table; the index of the failing command otherwise.
fn model(ops: &[Js], t: T) -> Result<V, usize> {
    let mut vars: Vec<Option<T>> = vec![None; 8];
    vars[0] = Some(t.clone());
    let mut v = V::Tab(t);
    for (i, o) in ops.iter().enumerate() {
        v = match v {
            V::Tab(t) => apply(o, t, &mut vars).map_err(|_| i)?,
            V::Num(_) => unreachable!(),
        }
    }
    Ok(v)
}
fn pipeline(ops: &[Js]) -> String {
    let mut s = "let $t0".to_string();
    for o in ops {
        s += " | ";
        s += &code(o);
    }
    s
}

// ------------------------------------------------------------------ scenarios
fn gen_x(r: &mut Rng, cols: &[&str], small: bool) -> Js {
    let x = *r.pick(&["dbl", "dbl", "def", "str", "len", "dfl", "nth", "tlen", "if", "sub"]);
    let x = if r.chance(1, 20) && small { "tfil" } else { x };
    json!({"x": x, "c": pick_for(r, x, cols), "k": r.below(9)})
}
/// Columns which usually suit the command.
fn pick_for(r: &mut Rng, x: &str, cols: &[&str]) -> String {
    if r.chance(1, 12) {
        return r.pick(cols).to_string();
    }
    match x {
        "str" | "len" | "filters" | "maps" | "grp" => "b",
        "sub" | "maptab" => "value",
        "nth" => *r.pick(&["a", "d"]),
        _ => *r.pick(&["a", "a", "d", "c"]),
    }
    .to_string()
}
/// Commands of which most do not fail on the table.
fn gen_ops(r: &mut Rng, share: bool, max: u64, base: &T) -> Vec<Js> {
    let n = r.range(1, max);
    let mut out: Vec<Js> = vec![];
    for _ in 0..n {
        let mut o = Js::Null;
        for _ in 0..if r.chance(1, 12) { 1 } else { 6 } {
            let lets: Vec<u64> = std::iter::once(0).chain(out.iter().filter(|o| o.s("o") == "let").map(|o| o.u("k"))).collect();
            o = gen_op(r, share, base.r.len() < 22, out.len() as u64 + 1 == n, lets, out.last().map_or("", |o| o.s("o")).starts_with("grp"));
            let mut t = out.clone();
            t.push(o.clone());
            if model(&t, base.clone()).is_ok() {
                break;
            }
        }
        out.push(o);
        if !matches!(model(&out, base.clone()), Ok(V::Tab(_))) {
            break;
        }
    }
    out
}
fn gen_op(r: &mut Rng, share: bool, small: bool, last: bool, lets: Vec<u64>, grouped: bool) -> Js {
    let cols = ["a", "b", "c", "d", "value", "key", "x0", "q", "zz"];
        let o = match r.below(30) {
            _ if grouped && r.chance(1, 2) => {
                if r.chance(1, 2) {
                    "maptab"
                } else {
                    "append"
                }
            }
            0..=4 => "append",
            5 | 6 => "filter",
            7 | 8 => "filterc",
            9 => "filters",
            10 => "fcols",
            11 | 12 => *r.pick(&["map", "maprow", "maps", "mapf"]),
            13 => "sort",
            14 | 15 => "sortby",
            16 => *r.pick(&["grp", "grps"]),
            17 => "grpby",
            18 => *r.pick(&["rev", "revc"]),
            19 => *r.pick(&["skip", "take"]),
            20 => *r.pick(&["pick", "pickt", "picka"]),
            21 => *r.pick(&["ren", "renw"]),
            22 => *r.pick(&["dedup", "dedupc"]),
            23 => "addrow",
            24 if share => "let",
            25 | 26 if share => "back",
            27 | 28 => "addt",
            _ if last => *r.pick(&["fold", "foldw", "nth", "len", "lenc"]),
            _ => *r.pick(&["skip", "take", "rev", "append"]),
        };
        let k = match o {
            "skip" | "take" if r.chance(1, 12) => *r.pick(&[u64::MAX >> 11, 1 << 40]),
            "skip" | "take" | "nth" => r.below(14),
            "addrow" => r.range(1, 6),
            "let" => lets.len() as u64 % 8,
            "back" | "addt" => *r.pick(&lets),
            "foldw" => r.below(500),
            _ => r.below(9),
        };
        let d = match o {
            "append" => "x".to_string(),
            "filters" => "ab".to_string(),
            "ren" => r.pick(&["q", "a", "b"]).to_string(),
            "addrow" => "ab".to_string(),
            "picka" => "zz".to_string(),
            _ => pick_for(r, o, &cols[..4]),
        };
        let mut j = json!({"o": o, "c": pick_for(r, o, &cols), "d": d, "k": k});
        if grouped && o == "append" {
            j["xs"] = json!([{"x": "sub", "c": "value", "k": 0}]);
        } else if o == "append" {
            j["xs"] = (0..r.range(1, 3)).map(|_| gen_x(r, &cols, small)).collect();
        }
        if o == "maptab" {
            j["d"] = json!(*r.pick(&["a", "a", "d"]));
        }
        if o == "sortby" || o == "grpby" {
            let x = *r.pick(&["dbl", "str", "len", "dfl", "if"]);
            j["x"] = json!({"x": x, "c": pick_for(r, x, &cols), "k": r.below(9)});
        }
        if o == "addt" {
            j["f"] = json!(*r.pick(&["", "", "--cols ", "--intersect ", "--cols --intersect ", "--union "]));
        }
    j
}
fn gen_table(r: &mut Rng, big: u64) -> Js {
    let n = match r.below(8) {
        0 => r.below(3),
        1 if big > 50 && r.chance(1, 4) => r.range(100, 320),
        1 => r.range(20, big),
        _ => r.range(2, 14),
    };
    let bad = match r.below(3) {
        0 => 0,
        1 => 2,
        _ => r.below(40),
    };
    let cells: Vec<Js> = (0..n)
        .map(|i| {
            let a = if r.below(1000) < bad * 5 { json!("odd") } else { json!(r.below(12) as i64 - if r.chance(1, 40) { 10 } else { 0 }) };
            let b = if r.below(1000) < bad * 5 { Js::Null } else { json!(*r.pick(&["ab", "b", "cd", "ab", "éx", "z z"])) };
            let c = match r.below(5) {
                0 => Js::Null,
                1 => json!("mix"),
                2 => json!(r.chance(1, 2)),
                _ => json!(r.below(5)),
            };
            json!([a, b, c, i])
        })
        .collect();
    json!({"cells": cells})
}
fn gen19(r: &mut Rng, _t: Tier) -> Js {
    gen_any(r, false)
}
fn gen20(r: &mut Rng, _t: Tier) -> Js {
    gen_any(r, true)
}
fn gen_any(r: &mut Rng, share: bool) -> Js {
    // tables filtered for each row are small ones
    let squared = r.chance(1, 6);
    let table = gen_table(r, if squared { 21 } else { 90 });
    let base = base_of(&table);
    let np = r.range(1, if share { 4 } else { 2 });
    let pipes: Vec<Js> = (0..np)
        .map(|_| {
            let src = *r.pick(if share { &["held", "held", "open", "prev", "own"] } else { &["own", "held", "open", "own", "range"] });
            let most = if squared { 21 } else if r.chance(1, 8) { 330 } else { 120 };
            let (lo, n) = (r.below(40), if r.chance(1, 6) { r.below(3) } else { r.range(3, most) });
            let base = if src == "range" { range_of(lo, n) } else { base.clone() };
            json!({"src": src, "lo": lo, "n": n, "ops": gen_ops(r, share, if share { 8 } else { 6 }, &base)})
        })
        .collect();
    json!({"table": table, "pipes": pipes, "threads": r.range(1, 3), "share": share, "one": r.chance(1, 4)})
}

/// The numbers from `lo`.
fn range_of(lo: u64, n: u64) -> T {
    T::new(std::iter::once(vec![C::S("a".into())]).chain((lo..lo + n).map(|i| vec![C::N(i as f64)])).collect())
}
fn range_code(p: &Js) -> String {
    let (lo, hi) = (p.u("lo"), p.u("lo") + p.u("n"));
    if p.u("n") % 2 == 0 {
        format!("range {lo} {hi} | ren i 'a' | ")
    } else {
        format!("\\ {hi} | range {lo} | ren i 'a' | ")
    }
}
fn base_of(t: &Js) -> T {
    let mut rows = vec![["a", "b", "c", "d"].iter().map(|s| C::S(s.to_string())).collect::<Vec<_>>()];
    for r in t.arr("cells") {
        rows.push(r.as_array().unwrap().iter().map(|c| match c {
            Js::Null => C::Nil,
            Js::Bool(b) => C::B(*b),
            Js::String(s) => C::S(s.clone()),
            n => C::N(n.as_f64().unwrap()),
        }).collect());
    }
    T::new(rows)
}

// ------------------------------------------------------------------ runs
#[derive(Clone, PartialEq)]
enum Out {
    Tab(String),
    Num(f64),
    Err(String),
    Other(String),
}
fn out_of(r: &Res) -> Out {
    match r {
        Ok(Value::Tab(t)) => Out::Tab(of(t).show()),
        Ok(Value::Num(n)) => Out::Num(n.as_f64()),
        Ok(v) => Out::Other(format!("{v:?}")),
        Err(e) => Out::Err(e.to_string()),
    }
}
impl std::fmt::Display for Out {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Out::Tab(s) => write!(f, "table\n{s}"),
            Out::Num(n) => write!(f, "{n}"),
            Out::Err(s) => write!(f, "error {s}"),
            Out::Other(s) => write!(f, "{s}"),
        }
    }
}
fn go(seed: Option<Value>, src: &str, d: &Definitions) -> Res {
    let f = || match seed {
        Some(Value::Tab(t)) => ogma::rt::process_expression(t, src, Location::Shell, d, Path::new("/w"), Path::new("")),
        _ => ogma::rt::process_expression((), src, Location::Shell, d, Path::new("/w"), Path::new("")),
    };
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let p = panics().last().cloned().unwrap();
            fail(panic_sig(&p), format!("{src} panicked: {} at {}", p.msg, p.at))
        }
    }
}

fn run(sc: &Js) {
    let sc: &'static Js = Box::leak(Box::new(sc.clone()));
    let base: &'static T = Box::leak(Box::new(base_of(&sc["table"])));
    // as a file, the booleans being texts there
    let file: &'static T = {
        let mut t = base.clone();
        t.r.iter_mut().flatten().for_each(|c| {
            if let C::B(b) = c {
                *c = C::S(b.to_string())
            }
        });
        let txt: Vec<String> = t.r.iter().map(|r| r.iter().map(|c| match c {
            C::S(s) => s.clone(),
            C::N(n) => n.to_string(),
            _ => String::new(),
        }).collect::<Vec<_>>().join(",")).collect();
        put("/w/t.csv", txt.join("\n"));
        Box::leak(Box::new(t))
    };
    let mut d = defs();
    ogma::lang::process_definition("def twice Num () { * 2 }", Location::Shell, None, &mut d).unwrap_or_else(|e| fail("def-fails", format!("{e}")));
    let d: &'static Definitions = Box::leak(Box::new(d));
    let held: &'static Table = Box::leak(Box::new(build(base)));
    sched::sleep_ns(1_000_000_000);
    // the file is in the cache in half of the runs
    if sc.b("one") {
        let _ = go(None, "open t.csv", d);
    }
    set_phase("evaluating table expressions");
    let n = sc.u("threads") as usize;
    let ths: Vec<_> = (0..n)
        .map(|t| {
            std::thread::spawn(move || {
                let pipes = sc.arr("pipes");
                let mut outs: Vec<Out> = vec![];
                let mut prev: Option<Table> = None;
                for i in 0..pipes.len() {
                    // the threads start at different pipes
                    let p = &pipes[(i + if sc.b("share") { 0 } else { t }) % pipes.len()];
                    let before = prev.as_ref().map(of);
                    let (seed, model_in, pre) = match p.s("src") {
                        "own" => (Some(Value::Tab(build(base))), base.clone(), String::new()),
                        "open" => (None, file.clone(), "open t.csv | ".to_string()),
                        "range" => (None, range_of(p.u("lo"), p.u("n")), range_code(p)),
                        "prev" if prev.is_some() => (Some(Value::Tab(prev.clone().unwrap())), before.clone().unwrap(), String::new()),
                        _ => (Some(Value::Tab(held.clone())), base.clone(), String::new()),
                    };
                    let src = pre + &pipeline(p.arr("ops"));
                    let r = go(seed, &src, d);
                    let got = out_of(&r);
                    log(|| format!("{t}: [{}] {src}: {}", p.s("src"), match &got { Out::Err(_) => "error", _ => "ok" }));
                    match (model(p.arr("ops"), model_in), &r) {
                        (Ok(V::Tab(m)), Ok(Value::Tab(g))) => {
                            if of(g).show() != m.show() {
                                fail("wrong-table", format!("[{}] {src} gives\n{}\nit should be\n{}", p.s("src"), of(g).show(), m.show()));
                            }
                        }
                        (Ok(V::Num(m)), Ok(Value::Num(g))) => {
                            if g.as_f64() != m {
                                fail("wrong-number", format!("[{}] {src} gives {g}, it should be {m}", p.s("src")));
                            }
                        }
                        (Err(_), Err(_)) => (),
                        (Ok(_), Err(e)) if not_compiled(&e.to_string()) => count("not-compiled", 1),
                        (Ok(_), Err(e)) => fail("fails", format!("[{}] {src} gives an error: {e}", p.s("src"))),
                        (Ok(m), Ok(g)) => fail("wrong-type", format!("[{}] {src} gives {g:?}, it should be {m:?}", p.s("src"))),
                        (Err(i), Ok(g)) => fail("succeeds", format!("[{}] {src} gives {}, `{}` fails", p.s("src"), out_of(&Ok(g.clone())), code(&p.arr("ops")[i]))),
                    }
                    if let (Some(b), Some(h)) = (&before, &prev) {
                        if of(h) != *b {
                            fail("held-changed", format!("[{}] {src} changed its input, a result held by the caller, from\n{}\nto\n{}", p.s("src"), b.show(), of(h).show()));
                        }
                    }
                    if let Ok(Value::Tab(t)) = &r {
                        prev = Some(t.clone());
                    }
                    outs.push(got);
                }
                outs
            })
        })
        .collect();
    let outs: Vec<Vec<Out>> = ths.into_iter().map(|t| t.join().unwrap_or_default()).collect();
    if of(held) != *base {
        fail("held-changed", format!("the table held by the caller was changed from\n{}\nto\n{}", base.show(), of(held).show()));
    }
    match go(None, "open t.csv", d) {
        Ok(Value::Tab(t)) => {
            if of(&t).show() != file.show() {
                fail("cached-changed", format!("the file holds\n{}\nopening it gives\n{}", file.show(), of(&t).show()));
            }
        }
        r => fail("open-fails", format!("open t.csv gives {}", show(&r))),
    }
    // a single worker gives the same
    let share = sc.b("share");
    let pipes = sc.arr("pipes");
    let mut errs = 0;
    if !share {
        let pool = libs::rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
        for (i, p) in pipes.iter().enumerate() {
            let (seed, pre) = match p.s("src") {
                "open" => (None, "open t.csv | ".to_string()),
                "range" => (None, range_code(p)),
                _ => (Some(Value::Tab(build(base))), String::new()),
            };
            let src = pre + &pipeline(p.arr("ops"));
            let want = pool.install(|| out_of(&go(seed, &src, d)));
            for (t, o) in outs.iter().enumerate() {
                let o = &o[(i + pipes.len() - t % pipes.len()) % pipes.len()];
                if *o != want {
                    fail("differs", format!("{src} evaluated by thread {t} gives {o}\nevaluated by a single worker it gives {want}"));
                }
            }
            errs += matches!(want, Out::Err(_)) as u64;
        }
    } else {
        for o in &outs[1..] {
            if let Some(i) = (0..o.len()).find(|&i| o[i] != outs[0][i]) {
                fail("differs", format!("pipeline {i} gives {}\nand in another thread {}", outs[0][i], o[i]));
            }
        }
    }
    count("errors-compared", errs);
    if base.r.len() > 2 && pipes.iter().any(|p| p.arr("ops").len() >= 2) {
        nontrivial();
    }
    feature(hash_str(&format!("{:?}", pipes.iter().map(|p| p.arr("ops").iter().map(|o| o.s("o")).collect::<String>()).collect::<Vec<_>>())));
}
/// Expressions which do not compile say nothing.
fn not_compiled(e: &str) -> bool {
    e.starts_with("Semantics") || e.starts_with("Parsing")
}
