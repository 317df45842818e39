//! Common ground of the core simulations.
use kit::simrt::sched;
use ogma::lang::{ast::Location, Definitions, Value};
use std::path::Path;
use std::sync::OnceLock;

pub type Res = Result<Value, ogma::Error>;

static DEFS: OnceLock<Definitions> = OnceLock::new();
/// Build the base definitions once, before the runs are forked off.
pub fn warm() {
    DEFS.get_or_init(Definitions::new);
}
pub fn defs() -> Definitions {
    DEFS.get().unwrap().clone()
}

pub fn eval(src: &str, defs: &Definitions, root: &str, wd: &str) -> Res {
    ogma::rt::process_expression((), src, Location::Shell, defs, Path::new(root), Path::new(wd))
}
pub fn put(path: &str, data: impl AsRef<[u8]>) {
    if let Some(p) = Path::new(path).parent() {
        std::fs::create_dir_all(p).unwrap();
    }
    std::fs::write(path, data).unwrap();
}
pub fn show(r: &Res) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("Err({e})"),
    }
}
pub fn text_of(r: &Res) -> Option<String> {
    match r {
        Ok(Value::Str(s)) => Some(s.to_string()),
        _ => None,
    }
}

/// Evaluate expressions by hand (development aid).
pub fn repl(srcs: &[String]) {
    let cfg = sched::Cfg { seed: 1, max_steps: 50_000_000, ..Default::default() };
    simrt_run(cfg, srcs);
}
fn simrt_run(cfg: sched::Cfg, srcs: &[String]) {
    kit::simrt::start(cfg, |_| std::process::exit(3));
    put("/w/a.csv", "x,y\n1,a\n2,b\n3,\n");
    put("/w/s.txt", "hello");
    let mut d = defs();
    let mut out = String::new();
    for s in srcs {
        let t = kit::simrt::elapsed_ns();
        let n0 = sched::steps();
        let r = if ogma::lang::recognise_definition(s) {
            ogma::lang::process_definition(s, Location::Shell, None, &mut d).map(|x| x.0)
        } else {
            eval(s, &d, "/w", "/w")
        };
        out += &format!("{s}\n   => {}\n   [{} ns, {} steps]\n", show(&r), kit::simrt::elapsed_ns() - t, sched::steps() - n0);
    }
    sched::stop();
    kit::simrt_print(&out);
}

/// The cells of a table.
pub fn cells(t: &table::Table<Value>) -> String {
    rows(t.rows().map(|r| r.map(|e| match e {
        table::Entry::Nil => "~".to_string(),
        table::Entry::Num(n) => format!("#{n}"),
        table::Entry::Obj(Value::Str(s)) => format!("'{s}"),
        table::Entry::Obj(Value::Num(n)) => format!("#{n}"),
        table::Entry::Obj(Value::Nil) => "~".to_string(),
        table::Entry::Obj(Value::Tab(t)) => format!("[{}]", cells(t)),
        table::Entry::Obj(v) => format!("{v:?}"),
    }).collect()))
}
fn rows(i: impl Iterator<Item = Vec<String>>) -> String {
    i.map(|r| r.join("|")).collect::<Vec<_>>().join("\n")
}
/// The cells of the table a text stands for.
pub fn cells_dsv(s: &str) -> String {
    let t = table::parse_dsv(',', s);
    let v = rows(t.rows().map(|r| r.map(|e| match e {
        table::Entry::Nil => "~".to_string(),
        table::Entry::Num(n) => format!("#{n}"),
        table::Entry::Obj(s) => format!("'{s}"),
    }).collect()));
    v
}
