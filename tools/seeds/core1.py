BAT = "ogma/src/rt/bat.rs"
IO = "ogma/src/lang/impls/intrinsics/io.rs"
MO = "ogma/src/lang/impls/intrinsics/morphism.rs"
SH = "ogma-shell/lib.rs"
K = "demo-core"
SPECS = [
dict(id="C11-absolute-shortcut", property="C11", kind=K, demo_file="demo.py",
 needs="an absolute path which starts with the root and then climbs out of it with dots",
 breaks="absolute paths that start with the root are accepted as they are written, so `cd /root/../elsewhere` leaves the root",
 edits=[(SH, """        let wd = match self.tabs.get(&tab_id) {
            Some(p) => self.root.join(p),""", """        let root = self.root.canonicalize().unwrap_or_default();
        if let (true, Ok(below)) = (path.exists(), path.strip_prefix(&root)) {
            return Ok(below.to_path_buf()); // nothing to resolve
        }
        let wd = match self.tabs.get(&tab_id) {
            Some(p) => self.root.join(p),""")],
 demo='''
os.makedirs("root/sub")
os.makedirs("outside/secret-dir")
here = os.path.realpath(".")
s = Shell(cwd="root")
r = s.enter("cd " + here + "/root/sub/../../outside")
r += s.enter("ls")
s.close()
check("secret-dir" not in r, "cd leads above the root directory")
'''),
dict(id="C11-kept-as-typed", property="C11", kind=K, demo_file="demo.py",
 needs="a working directory reached through a symbolic link which is pointed elsewhere later",
 breaks="the working directory is stored as typed, so it moves out of the root when a symbolic link in it is changed",
 edits=[(SH, """        self.tabs.insert(tab_id, wd);
        Ok(())""", """        let wd = match path.is_relative() && !path.starts_with("..") {
            true => self.tab_wd(tab_id).join(path), // shown as it was typed
            false => wd,
        };
        self.tabs.insert(tab_id, wd);
        Ok(())""")],
 demo='''
os.makedirs("root/sub")
os.makedirs("outside/secret-dir")
os.symlink("sub", "root/l")
s = Shell(cwd="root")
s.enter("cd l")
os.remove("root/l")
os.symlink("../outside", "root/l")
r = s.enter("ls")
s.close()
check("secret-dir" not in r, "the working directory moved above the root")
'''),
dict(id="C12-resolved-once", property="C12", kind=K,
 needs="a file opened through a symbolic link that is pointed to another file before it is opened again",
 breaks="the resolved path of each name is remembered, so the file a link used to point to is read",
 edits=[(IO, """    let wd = wd
        .join(path)
        .canonicalize()
        .map_err(|e| io::Error::new(e.kind(), format!("{}: {}", e, path)))?;
""", """    // resolving walks the whole path, do it once
    static RESOLVED: crate::Mutex<Option<HashMap<std::path::PathBuf, std::path::PathBuf>>> =
        crate::Mutex::new(None);
    let named = wd.join(path);
    let known = RESOLVED.lock().get_or_insert_with(Default::default).get(&named).cloned();
    let wd = match known.filter(|x| x.exists()) {
        Some(x) => x,
        None => {
            let x = named
                .canonicalize()
                .map_err(|e| io::Error::new(e.kind(), format!("{}: {}", e, path)))?;
            RESOLVED.lock().get_or_insert_with(Default::default).insert(named, x.clone());
            x
        }
    };
""")],
 demo='''
fn demo() {
    put("a.txt", "first");
    put("b.txt", "second");
    std::os::unix::fs::symlink("a.txt", "l").unwrap();
    check(text(&eval("open --Str l")) == "first", "reads the first file");
    std::fs::remove_file("l").unwrap();
    std::os::unix::fs::symlink("b.txt", "l").unwrap();
    wait(2000);
    check(text(&eval("open --Str l")) == "second", "reads the file the link points to now");
}
'''),
dict(id="C12-read-in-two", property="C12", kind=K,
 needs="a file that is replaced by another one while it is being read",
 breaks="the start of the file is read to recognise its encoding and the rest from the file opened anew, so what is read can be a mixture",
 edits=[(IO, """    decode(&std::fs::read(path)?, DecoderTrap::Strict, UTF_8)""", """    use std::io::{Read, Seek, SeekFrom};
    // a byte order mark decides about the encoding
    let mut bytes = Vec::new();
    std::fs::File::open(&path)?.take(16).read_to_end(&mut bytes)?;
    let encoding = UTF_8;
    let mut rest = std::fs::File::open(&path)?;
    rest.seek(SeekFrom::Start(bytes.len() as u64))?;
    rest.read_to_end(&mut bytes)?;

    decode(&bytes, DecoderTrap::Strict, encoding)""")],
 demo='''
fn demo() {
    let n = 40;
    put("f", "a".repeat(n));
    std::thread::spawn(move || {
        for i in 0.. {
            let c = if i % 2 == 0 { "b" } else { "a" };
            put("g", c.repeat(n));
            std::fs::rename("g", "f").unwrap();
        }
    });
    let ts: Vec<_> = (0..64)
        .map(|_| {
            std::thread::spawn(move || {
                for _ in 0..60 {
                    let s = text(&eval("open --Str f"));
                    check(s == "a".repeat(n) || s == "b".repeat(n), "what is read is one of the files");
                }
            })
        })
        .collect();
    for t in ts {
        t.join().unwrap();
    }
}
'''),
dict(id="C13-cell-error-dropped", property="C13", kind=K,
 needs="a write error in the middle of saving a large table, with later writes succeeding",
 breaks="an error while writing a cell is not reported if the final flush succeeds, so part of the table is missing",
 edits=[(IO, "                    fmt_cell(file, entry, fmtr)?;", "                    fmt_cell(file, entry, fmtr).ok(); // flushing reports what could not be written")],
 demo='''
extern "C" {
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn signal(s: i32, h: usize) -> usize;
}
/// There is room again after one failed write.
extern "C" fn full(_: i32) {
    unsafe { setrlimit(1, &[u64::MAX, u64::MAX]) };
}
fn demo() {
    for k in 1..12 {
        let _ = std::fs::remove_file("t.csv");
        unsafe {
            signal(25, full as *const () as usize);
            setrlimit(1, &[k * 8192 - k * 7, u64::MAX]);
        }
        let r = eval("range 0 40000 | save t.csv");
        unsafe { setrlimit(1, &[u64::MAX, u64::MAX]) };
        if r.is_ok() {
            let s = std::fs::read_to_string("t.csv").unwrap();
            let want: Vec<String> = std::iter::once("i".to_string()).chain((0..40000).map(|x: u32| x.to_string())).collect();
            check(s.lines().count() == want.len(), "every row is there");
            check(s.lines().zip(&want).all(|(a, b)| a.trim_end_matches(".0") == b), "every cell is there");
        }
    }
}
'''),
dict(id="C13-flush-dropped", property="C13", kind=K,
 needs="a disk error which strikes the last buffered part of what is saved",
 breaks="the last part of the file is written when the writer is dropped, where errors are lost",
 edits=[(IO, """    file.flush()
}""", """    Ok(())
}""")],
 demo='''
fn demo() {
    std::os::unix::fs::symlink("/dev/full", "full").unwrap();
    // the root is /, such that the device is below it
    let d = here();
    let r = ogma::rt::process_expression((), "\\\\ 'some text' | save full", Location::Shell, &Definitions::new(), Path::new("/"), d.strip_prefix("/").unwrap());
    check(r.is_err(), "a full disk is reported");
}
'''),
dict(id="C13-same-size-kept", property="C13", kind=K,
 needs="saving text of exactly the length the file already has",
 breaks="a file which already has the length of what is saved is taken to be up to date and not written",
 edits=[(IO, """        let p: Str = filepath.resolve(|| val.clone(), &cx)?.try_into()?;
""", """        let p: Str = filepath.resolve(|| val.clone(), &cx)?.try_into()?;
        if let (Value::Str(s), Ok(p)) = (&val, scrub_savepath(&p, &cx)) {
            // rewriting what is there already would only disturb those watching the file
            if p.metadata().map_or(false, |m| m.is_file() && m.len() == s.len() as u64) {
                return cx.done(val);
            }
        }
""")],
 demo='''
fn demo() {
    eval("\\\\ 'abc' | save f").unwrap();
    eval("\\\\ 'xyz' | save f").unwrap();
    check(std::fs::read_to_string("f").unwrap() == "xyz", "the file has what was saved last");
}
'''),
dict(id="C14-text-prefix", property="C14", kind=K,
 needs="a file in a directory beside the root whose name starts with the root's name",
 breaks="whether a path is below the root is decided on its text, so files in `<root>2` can be read",
 edits=[(IO, """    let wd = wd
        .join(path)
        .canonicalize()
        .map_err(|e| io::Error::new(e.kind(), format!("{}: {}", e, path)))?;
""", """    let wd = wd
        .join(path)
        .canonicalize()
        .map_err(|e| io::Error::new(e.kind(), format!("{}: {}", e, path)))?;
    let (below, top) = (wd.to_string_lossy(), root_dir(cx)?);
    if below.starts_with(&*top.to_string_lossy()) {
        return Ok(wd);
    }
""")],
 demo='''
fn demo() {
    put("root/a.txt", "inside");
    put("root2/b.txt", "outside");
    let r = here().join("root");
    let ev = |s| text(&ogma::rt::process_expression((), s, Location::Shell, &Definitions::new(), &r, Path::new("")));
    check(ev("open --Str a.txt") == "inside", "files in the root are read");
    check(!ev("open --Str '../root2/b.txt'").contains("outside"), "a file outside the root is read");
}
'''),
dict(id="C14-relative-to-process", property="C14", kind=K,
 needs="a link in the path is changed between the path check and the read",
 breaks="the path is checked resolved but then read as written, so a link that is swapped in between leads outside the root",
 edits=[(IO, """    let wd = wd
        .join(path)
        .canonicalize()
        .map_err(|e| io::Error::new(e.kind(), format!("{}: {}", e, path)))?;

    let root = root_dir(cx)?;

    if wd.starts_with(&root) {""", """    let named = wd.join(path);
    let wd = named
        .canonicalize()
        .map_err(|e| io::Error::new(e.kind(), format!("{}: {}", e, path)))?;

    let root = root_dir(cx)?;

    if wd.starts_with(&root) && named.is_absolute() {
        Ok(named)
    } else if wd.starts_with(&root) {""")],
 demo='''
fn demo() {
    put("root/a.txt", "inside");
    put("out.txt", "outside");
    let r = here().join("root");
    std::thread::spawn(|| loop {
        for t in ["a.txt", "../out.txt"] {
            std::os::unix::fs::symlink(t, "root/m").unwrap();
            std::fs::rename("root/m", "root/l").unwrap();
            wait(3);
        }
    });
    wait(20);
    for _ in 0..60 {
        let s = text(&ogma::rt::process_expression((), "open --Str l", Location::Shell, &Definitions::new(), &r, Path::new("")));
        check(!s.contains("outside"), "a file outside the root is read");
    }
}
'''),
dict(id="C15-same-text-once", property="C15", kind=K,
 needs="a batch in which the same expression occurs twice and its outcome changes in between",
 breaks="items with the same text are evaluated once and share the outcome of the first",
 edits=[(BAT, """        let r = rt::process_expression((), expr.code.as_str(), loc, &definitions, root, wd).into();
""", """        let r = match done.lock().contains(expr.code.as_str()) {
            true => Outcome::Success, // nothing to be found by doing it again
            false => {
                rt::process_expression((), expr.code.as_str(), loc, &definitions, root, wd).into()
            }
        };
        if r == Outcome::Success {
            done.lock().insert(expr.code.clone());
        }
"""), (BAT, "    // process the expressions\n", "    // process the expressions\n    let done = Mutex::new(HashSet::default());\n")],
 demo='''
fn demo() {
    put("f", "x");
    put("b.ogma", "# [no-parallelise]\\n\\n\\\\ 'a' | save f\\n\\n\\\\ 'b' | save f\\n\\n\\\\ 'a' | save f\\n");
    let b = ogma::rt::bat::parse_file("b.ogma").unwrap().unwrap();
    check(b.items.len() == 3, "three items");
    let r = ogma::rt::bat::process(&Batch { parallelise: false, ..b }, &here(), &here(), &libs::divvy::ProgressTx::dummy(), Definitions::new());
    check(r.iter().all(|x| x.0 == ogma::rt::bat::Outcome::Success), "all succeed");
    check(std::fs::read_to_string("f").unwrap() == "a", "the last item was processed");
}
use ogma::rt::bat::Batch;
'''),
dict(id="C16-line-of-another", property="C16", kind=K,
 needs="two failing items processed in parallel, the second one starting at the right moment",
 breaks="the location of the item being processed is kept in one place for all workers, so the error of one item can name the line of another",
 edits=[(BAT, """        let loc = Location::File(expr.file.clone(), expr.line);
        let r = rt""", """        *current.lock() = (expr.file.clone(), expr.line);
        let loc = || {
            let (file, line) = &*current.lock();
            Location::File(file.clone(), *line)
        };
        let loc = loc();
        let r = rt"""), (BAT, "    // process the expressions\n", "    // process the expressions\n    let current = Mutex::new((Arc::from(Path::new(\"\")), 0)); // what is being worked on\n")],
 demo='''
use ogma::rt::bat::*;
fn demo() {
    let n = 400;
    let s: String = (0..n).map(|_| "open --Str no-such\\n\\n").collect();
    put("b.ogma", s);
    for _ in 0..10 {
        let b = parse_file("b.ogma").unwrap().unwrap();
        let b = Batch { parallelise: true, fail_fast: false, ..b };
        let r = process(&b, &here(), &here(), &libs::divvy::ProgressTx::dummy(), Definitions::new());
        for (i, (o, _)) in b.items.iter().zip(r) {
            let Outcome::Failed(e) = o else { check(false, "items fail"); return };
            check(matches!(&e.traces[0].loc, Location::File(_, l) if *l == i.line), "an error names its item's line");
        }
    }
}
'''),
dict(id="C17-failures-cancelled", property="C17", kind=K,
 needs="an item fails before the batch is cancelled",
 breaks="when a batch is cancelled, items which have failed already are reported as cancelled too",
 edits=[(BAT, "            .filter(|x| matches!(x, (Outcome::Outstanding, _)))", "            .filter(|x| !matches!(x, (Outcome::Success, _)))")],
 demo='''
use ogma::rt::bat::*;
fn demo() {
    put("b.ogma", "foo-bar\\n\\n\\\\ 5\\n");
    put("x", "y");
    let b = parse_file("b.ogma").unwrap().unwrap();
    let b = Batch { parallelise: false, fail_fast: false, ..b };
    let sw = libs::divvy::Switch::off();
    let (s2, d) = (sw.clone(), here());
    let (p, _) = libs::divvy::ProgressTx::collecting(sw);
    // cancelled while the last item is being processed
    let c = std::thread::spawn(move || {
        wait(200);
        s2.flip_on();
    });
    let b2 = format!("foo-bar\\n\\n{}", "open --Str x | len\\n\\n".repeat(40));
    put("b.ogma", b2);
    let b = Batch { parallelise: false, fail_fast: false, ..parse_file("b.ogma").unwrap().unwrap() };
    let r = process(&b, &d, &d, &p, Definitions::new());
    c.join().unwrap();
    check(matches!(r[0].0, Outcome::Failed(_)), "a failed item is reported as failed");
}
'''),
dict(id="C17-definitions-do-not-stop", property="C17", kind=K,
 needs="a batch with fail-fast whose failing item is a definition",
 breaks="a failing definition does not stop a fail-fast batch",
 edits=[(BAT, """        report_progress(prog, &reporter, idx, &r);
        sw_if_fail(&r);
        results[idx] = (r, instant.elapsed());""", """        report_progress(prog, &reporter, idx, &r);
        results[idx] = (r, instant.elapsed());""")],
 demo='''
use ogma::rt::bat::*;
fn demo() {
    put("b.ogma", "def foo () { no-such-command }\\n\\n\\\\ 5\\n");
    let b = Batch { parallelise: false, fail_fast: true, ..parse_file("b.ogma").unwrap().unwrap() };
    let r = process(&b, &here(), &here(), &libs::divvy::ProgressTx::dummy(), Definitions::new());
    check(matches!(r[0].0, Outcome::Failed(_)), "the definition fails");
    check(r[1].0 == Outcome::Outstanding, "nothing is started after a failure");
}
'''),
dict(id="C18-sent-unlocked", property="C18", kind=K,
 needs="two items finishing at the same time, the later report being sent first",
 breaks="reports are sent after the lock is released, so an older report can follow a newer one and items seem to become unprocessed again",
 edits=[(BAT, """    let results = &mut *results.lock();
    if let Some(x) = results.get_mut(item_idx) {
        x.status = outcome.into();
    }
    let ser = serde_json::to_string(results).unwrap_or_default();
    progress""", """    let ser = {
        let results = &mut *results.lock();
        if let Some(x) = results.get_mut(item_idx) {
            x.status = outcome.into();
        }
        serde_json::to_string(results).unwrap_or_default()
    };
    progress""")],
 demo='''
use ogma::rt::bat::*;
fn demo() {
    put("b.ogma", "\\\\ 5\\n\\n".repeat(300));
    for _ in 0..30 {
        let b = Batch { parallelise: true, fail_fast: false, ..parse_file("b.ogma").unwrap().unwrap() };
        let (p, got) = libs::divvy::ProgressTx::collecting(libs::divvy::Switch::off());
        process(&b, &here(), &here(), &p, Definitions::new());
        wait(50);
        let mut n = 0;
        for (_, t) in got.lock().unwrap().iter() {
            let k = t.matches("\\"Success\\"").count();
            check(k > n, "every report has one more item processed");
            n = k;
        }
    }
}
'''),
dict(id="C18-busy-skipped", property="C18", kind=K,
 needs="two items finishing at the same time",
 breaks="a progress report is left out when another one is being made",
 edits=[(BAT, "    let results = &mut *results.lock();", """    let mut lock = match results.try_lock() {
        Some(lock) => lock,
        None => return, // the next report has it
    };
    let results = &mut *lock;""")],
 demo='''
use ogma::rt::bat::*;
fn demo() {
    put("b.ogma", "\\\\ 5\\n\\n".repeat(300));
    for _ in 0..30 {
        let b = Batch { parallelise: true, fail_fast: false, ..parse_file("b.ogma").unwrap().unwrap() };
        let (p, got) = libs::divvy::ProgressTx::collecting(libs::divvy::Switch::off());
        process(&b, &here(), &here(), &p, Definitions::new());
        wait(50);
        check(got.lock().unwrap().len() == 300, "a report for every item");
    }
}
'''),
]
