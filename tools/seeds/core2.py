MO = "ogma/src/lang/impls/intrinsics/morphism.rs"
PI = "ogma/src/lang/impls/intrinsics/pipeline.rs"
IM = "ogma/src/lang/impls/mod.rs"
LW = "ogma-ls/workspace.rs"
LL = "ogma-ls/lib.rs"
LS = "ogma-ls/server/mod.rs"
B = "bin/main.rs"
K = "demo-core"
SPECS = [
dict(id="C19-counted-rows", property="C19", kind=K,
 needs="the rows of a range being made by several threads",
 breaks="the rows of a range are numbered in the order the threads get to them, not by their position",
 edits=[(PI, "        t.par_extend((from..to).into_par_iter().map(|x| vec![n(x)]));", """        // the same whatever the direction
        let next = crate::Mutex::new(from);
        t.par_extend((from..to).into_par_iter().map(|_| {
            let mut next = next.lock();
            *next += 1;
            vec![n(*next - 1)]
        }));""")],
 demo='''
fn demo() {
    let want = format!("{:?}", eval("range 0 5000").unwrap());
    for _ in 0..40 {
        check(format!("{:?}", eval("range 0 5000").unwrap()) == want, "rows are in order");
    }
}
'''),
dict(id="C19-finished-order", property="C19", kind=K,
 needs="the rows of a table being mapped by several threads which finish in another order",
 breaks="mapped values are gathered in the order in which they become known and not by row",
 edits=[(MO, """        let mut replace_with: Vec<Value> =
            repeat_with(|| Value::Nil).take(table.rows_len()).collect();
        let tf""", """        let mut rows = vec![(); table.rows_len()];
        let replace_with = crate::Mutex::new(Vec::with_capacity(rows.len()));
        replace_with.lock().push(Value::Nil); // header
        let tf"""),
        (MO, "        par_over_tablerows(&mut replace_with, &table, cx, |v, cx, trow| {\n            let trowidx", "        par_over_tablerows(&mut rows, &table, cx, |_, cx, trow| {\n            let trowidx"),
        (MO, "            *v = outv?;\n            Ok(())\n        })?;\n\n        table\n            .make_mut()\n            .col_mut(colidx)", "            let outv = outv?;\n            replace_with.lock().push(outv);\n            Ok(())\n        })?;\n\n        table\n            .make_mut()\n            .col_mut(colidx)"),
        (MO, "            .zip(replace_with.into_iter())", "            .zip(replace_with.into_inner())")],
 demo='''
fn demo() {
    let e = "range 0 4000 | map i { + 1 } | map i { - 1 }";
    let want = format!("{:?}", eval("range 0 4000").unwrap());
    for _ in 0..30 {
        check(format!("{:?}", eval(e).unwrap()) == want, "rows keep their places");
    }
}
'''),
dict(id="C20-reversed-in-place", property="C20", kind=K,
 needs="reversing the columns of a table which one other place holds",
 breaks="columns are reversed in place when only one other reference exists, so the variable or cached file which holds it changes",
 edits=[(MO, "            table.make_mut().reverse_cols_par();", """            // two references: the input, and the one being returned
            let shared = Arc::strong_count(&table.0);
            let t = match shared {
                2 => unsafe { &mut *(Arc::as_ptr(&table.0) as *mut ::table::Table<Value>) },
                _ => table.make_mut(),
            };
            t.reverse_cols_par();""")],
 demo='''
fn demo() {
    put("t.csv", "a,b,c\\n1,2,3\\n");
    wait(1500);
    let want = format!("{:?}", eval("open t.csv").unwrap());
    wait(50);
    eval("open t.csv | rev --cols").unwrap();
    check(format!("{:?}", eval("open t.csv").unwrap()) == want, "what is cached stays as it is");
}
'''),
dict(id="C21-clear-whole-name", property="C21", kind=K,
 needs="a user definition of a built-in command's name for another type, and then clearing",
 breaks="clearing removes every implementation of a name that the user has added one to, built-in ones too",
 edits=[(IM, """        self.0.values_mut().for_each(|m| {
            m.retain(""", """        let builtin = |m: &Keys| !m.tys.values().any(|x| x.0.location() != &Location::Ogma);
        self.0.retain(|_, m| only_files || builtin(m) || m.agnostic.is_some());
        self.0.values_mut().for_each(|m| {
            m.retain(""")],
 demo='''
fn demo() {
    let mut d = Definitions::new();
    let mut def = |d: &mut Definitions, s: &str| ogma::lang::process_definition(s, Location::Shell, None, d).map(|_| ()).map_err(|e| e.to_string());
    let before = text(&eval_with("\\\\ 'abc' | len", &d));
    let e0 = def(&mut d, "def len Num () { + 1 }");
    check(e0.is_ok(), "len can be defined for numbers");
    def(&mut d, "def --clear").unwrap();
    check(text(&eval_with("\\\\ 'abc' | len", &d)) == before, "built-in commands are kept");
}
'''),
dict(id="C21-replaces-others", property="C21", kind=K,
 needs="definitions of one name for a type and for any type, the latter made last",
 breaks="defining a command for any type drops the user's definitions of it for particular types",
 edits=[(IM, "            None => keys.agnostic = Some(impl_),\n        }\n\n        Ok(())", """            None => {
                keys.agnostic = Some(impl_);
                // it applies to all types now
                keys.retain(|ty, im, _, _| ty.is_none() || im.location() == &Location::Ogma);
            }
        }

        Ok(())""")],
 demo='''
fn demo() {
    let mut d = Definitions::new();
    for s in ["def foo Num () { + 1 }", "def foo () { \\\\ 'any' }"] {
        ogma::lang::process_definition(s, Location::Shell, None, &mut d).unwrap();
    }
    check(text(&eval_with("\\\\ 1 | foo", &d)) != "any", "the definition for numbers is kept");
}
'''),
dict(id="C22-ranges-first", property="C22", kind=K,
 needs="one change notification with several edits, a later one behind an earlier one that changes the length",
 breaks="the places of all edits of a notification are found in the text as it was before the first of them",
 edits=[(LW, """    for chg in chgs {
        let range = chg
            .range
            .map(|r| lsp_range_to_range(text, r))
            .unwrap_or(0..text.len());
        text.replace_range(range, &chg.text);
    }""", """    let ranges: Vec<_> = chgs
        .iter()
        .map(|chg| chg.range.map(|r| lsp_range_to_range(text, r)))
        .collect();
    for (chg, range) in chgs.iter().zip(ranges) {
        let (range, len) = (range.unwrap_or(0..text.len()), text.len());
        text.replace_range(range.start.min(len)..range.end.min(len), &chg.text);
    }""")],
 demo='''
fn demo() {
    let mut c = ls::start(&[]);
    let u = "file:///w/a.ogma";
    c.open(u, "foo bar\\n");
    let at = |a: u32, b: u32, t: &str| serde_json::json!({"range": {"start": {"line": 0, "character": a}, "end": {"line": 0, "character": b}}, "text": t});
    c.edit(u, 2, serde_json::json!([at(0, 3, "lengthy"), at(8, 11, "zog")]));
    let h = c.hover(u, 0, 9);
    check(h.contains("`zog`"), "the second edit is made in the text as the first one left it");
    check(c.hover(u, 0, 3).contains("lengthy"), "the first edit is there");
}
'''),
dict(id="C22-reopen-kept", property="C22", kind=K,
 needs="a document that is opened a second time with another text",
 breaks="opening a document again keeps the text it had",
 edits=[(LW, "        self.files.write().insert(url, file);", "        self.files.write().entry(url).or_insert(file); // changes follow separately")],
 demo='''
fn demo() {
    let mut c = ls::start(&[]);
    let u = "file:///w/a.ogma";
    c.open(u, "foo bar\\n");
    c.notify("textDocument/didClose", serde_json::json!({"textDocument": {"uri": u}}));
    c.open(u, "zog bar\\n");
    check(c.hover(u, 0, 1).contains("zog"), "the text is what was opened last");
}
'''),
dict(id="C22-surrogates", property="C22", kind=K,
 needs="an edit behind a character outside the basic plane",
 breaks="characters which take two UTF-16 units are counted as one when edits are placed",
 edits=[(LL, "        co_utf16 += ch.len_utf16();", "        co_utf16 += 1; // one position per character")],
 demo='''
fn demo() {
    let mut c = ls::start(&[]);
    let u = "file:///w/a.ogma";
    c.open(u, "foo '\\u{1F600}' bar\\n");
    let at = |a: u32, b: u32, t: &str| serde_json::json!({"range": {"start": {"line": 0, "character": a}, "end": {"line": 0, "character": b}}, "text": t});
    c.edit(u, 2, serde_json::json!([at(9, 12, "zog")]));
    check(c.hover(u, 0, 10).contains("`zog`"), "the word behind the emoji is replaced");
}
'''),
dict(id="C23-busy-writer", property="C23", kind=K,
 needs="a response becoming ready while the connection is still writing another message",
 breaks="responses are only sent if the connection can take them at once, otherwise they are lost",
 edits=[(LS, "                tx.send(resp.into()).ok();", "                tx.try_send(resp.into()).ok(); // do not hold up the worker")],
 demo='''
fn demo() {
    let mut c = ls::start(&[]);
    let u = "file:///w/a.ogma";
    c.open(u, "foo bar\\n");
    let ids: Vec<i32> = (0..400).map(|_| c.ask("textDocument/hover", serde_json::json!({"textDocument": {"uri": u}, "position": {"line": 0, "character": 1}}))).collect();
    wait(2000);
    check(ids.iter().all(|&i| c.all(i).len() == 1), "each request has one response");
}
'''),
dict(id="C23-superseded", property="C23", kind=K,
 needs="two requests of the same kind, the second one received before the first one's worker starts",
 breaks="a request that is overtaken by a newer one of the same method is not answered",
 edits=[(LS, "            let f = Arc::clone(f);\n            rayon::spawn(move || {\n", """            let f = Arc::clone(f);
            let latest = Arc::clone(&self.latest);
            latest.lock().unwrap().insert(req.method.clone(), req.id.clone());
            rayon::spawn(move || {
                // only the newest answer is of use
                let newest = latest.lock().unwrap().get(&req.method) == Some(&req.id);
                if !newest && req.method.starts_with("textDocument/") {
                    return;
                }
"""), (LS, "    request_handlers: HashMap<&'static str, Arc<dyn RpcRequest>>,", "    latest: Arc<std::sync::Mutex<HashMap<String, lsp_server::RequestId>>>,\n    request_handlers: HashMap<&'static str, Arc<dyn RpcRequest>>,"),
        (LS, "            request_handlers: HashMap::default(),", "            latest: Default::default(),\n            request_handlers: HashMap::default(),")],
 demo='''
fn demo() {
    let mut c = ls::start(&[]);
    let u = "file:///w/a.ogma";
    c.open(u, "foo bar\\n");
    let ids: Vec<i32> = (0..400).map(|_| c.ask("textDocument/completion", serde_json::json!({"textDocument": {"uri": u}, "position": {"line": 0, "character": 2}}))).collect();
    wait(20000);
    check(ids.iter().all(|&i| c.all(i).len() == 1), "each request has one response");
}
'''),
dict(id="C24-saved-only", property="C24", kind=K,
 needs="a definition that is removed from a document before the document is saved",
 breaks="loading does not clear what was loaded before, so removed definitions stay known",
 edits=[(LW, "        defs.clear(false);\n", "        if files.is_empty() {\n            defs.clear(false); // loading replaces those which are there\n        }\n")],
 demo='''
fn demo() {
    let mut c = ls::start(&[]);
    let u = "file:///w/a.ogma";
    c.open(u, "def foo-one () { \\\\ 1 }\\n\\ndef foo-two () { \\\\ 2 }\\n");
    c.edit(u, 2, serde_json::json!([{"text": "def foo-two () { \\\\ 2 }\\n\\n\\n"}]));
    c.save(u);
    let l = c.labels(u, 2, 0);
    check(l.iter().any(|x| x == "foo-two"), "foo-two is known");
    check(!l.iter().any(|x| x == "foo-one"), "foo-one is not known any more");
}
'''),
dict(id="C24-shell-kept", property="C24", kind=K,
 needs="a document given to the server when started that is opened with a different text",
 breaks="a document which was read at start is loaded from its first text even after it is opened with another one",
 edits=[(LW, "        self.files.write().insert(url, file);", """        let mut files = self.files.write();
        match files.get_mut(&url) {
            // keeps the version it is at
            Some(known) if known.version >= file.version => known.text.push_str(""),
            _ => drop(files.insert(url, file)),
        }""")],
 demo='''
fn demo() {
    put("a.ogma", "def foo-one () { \\\\ 1 }\\n");
    let p = here().join("a.ogma");
    let mut c = ls::start(&[p.to_str().unwrap()]);
    let u = format!("file://{}", p.display());
    c.notify("textDocument/didOpen", serde_json::json!({"textDocument": {"uri": u, "languageId": "ogma", "version": 0, "text": "def foo-two () { \\\\ 2 }\\n\\n\\n"}}));
    let l = c.labels(&u, 2, 0);
    check(l.iter().any(|x| x == "foo-two"), "foo-two is known");
    check(!l.iter().any(|x| x == "foo-one"), "foo-one is not known any more");
}
'''),
dict(id="C25-dedup-first", property="C25", kind=K, demo_file="demo.py",
 needs="overlapping patterns which name a file twice, with another one in between",
 breaks="repeated files are only removed if they are named one after the other, others run twice",
 edits=[(B, "    paths.sort();\n    paths.dedup();\n", "    paths.dedup();\n    paths.sort();\n")],
 demo=r'''
put("a.ogma", "\\ 5\n")
put("b.ogma", "\\ 6\n")
r, out, err = cli("*.ogma", "a*")
check(r == 0, "it succeeds")
check(out.count("a.ogma") == 1, "each file runs once")
'''),
dict(id="C25-definitions-pass", property="C25", kind=K, demo_file="demo.py",
 needs="a file with a failing definition and no failing expression",
 breaks="only failing expressions count for the exit status",
 edits=[(B, "        errors = true;\n", "        errors |= ty == ogma::rt::bat::ItemType::Expr;\n")],
 demo=r'''
put("a.ogma", "def foo () { no-such-command }\n\n\\ 5\n")
r, out, err = cli("a.ogma")
check(r != 0, "a failed item fails the program")
put("a.ogma", "def foo () { \\ 5 }\n\n\\ 5\n")
r, out, err = cli("a.ogma")
check(r == 0, "the program succeeds if all items do")
'''),
dict(id="C25-leaks", property="C25", kind=K, demo_file="demo.py",
 needs="a file which uses a definition made by an earlier file",
 breaks="definitions made in one file are visible in the files after it",
 edits=[(B, '''    for (path, batch) in files.iter().zip(batches) {
        process''', '''    for (path, batch) in files.iter().zip(batches) {
        // definitions are checked with the file
        for item in batch.items.iter().filter(|x| x.ty() == ogma::rt::bat::ItemType::Impl) {
            let loc = ogma::lang::ast::Location::File(item.file.clone(), item.line);
            ogma::lang::process_definition(item.code(), loc, None, &mut definitions).ok();
        }
        process''')],
 demo=r'''
put("a.ogma", "def foo () { \\ 5 }\n\nfoo\n")
r, out, err = cli("a.ogma")
check(r == 0, "the first file succeeds")
put("b.ogma", "foo\n")
r, out, err = cli("a.ogma", "b.ogma")
check(r != 0, "what a file defines is not known to the next one")
'''),
]
