//! C05 and C02 at the whole shell: whatever is typed is what is shown, and suggestions keep coming.
use crate::sess::*;
use crossterm::event::{KeyCode, KeyModifiers as M};
use kit::serde_json::{json, Value as Js};
use kit::simrt::{rng::Rng, sched};
use kit::{J, *};

pub fn parts() -> Vec<Part> {
    let part = |name, rule| Part {
        name,
        rule,
        gen,
        run: if name == "C05.shell" { run_line as fn(&Js) } else { run_sug },
        tune: no_tune,
        on_end: default_end,
        max_steps: 30_000_000,
        shrink: &["/lines/*/t", "/lines"],
        runs: (6000, 300_000),
        real: "ogma-shell (shell, interface, highlighting, completer), ogma parser, ogma-ls completions, tui with its crossterm back end, std",
        stub: "thread scheduler, clocks, file system, terminal (keys scripted, screen emulated), crossterm event source, table/kserd/numfmt stand-ins",
    };
    vec![
        part("C05.shell", "a user of the real shell types 1-6 lines of random language fragments (commands, definitions, types, flags, variables, literals, quotes, unicode names, unbalanced brackets), in bursts or key by key, moves about in them and deletes from them; with the shell's own highlighting the line on the screen always reads exactly as typed, and the session survives every line"),
        part("C02.shell", "the same lines typed against the real completer (parser, definitions, paths); afterwards the suggestions for a known command prefix still appear within a bound"),
    ]
}
const TOK: &[&str] = &[
    "len", "get", "open", "ls", "filter", "append", "range 1 3", "def", "def f", "def-ty", "def-ty P", "def f Num", "let", "let $x", "\\", "\\ 1", "|", "|", "{", "}", "(", ")", "()", "{ get", "--", "--a", "--'é x'",
    "--\"a b\"", "--'漢'", "--é", "--Num", "--Str", "$x", "$é", "$", "$x.y", "#t", "#f", "#i", "#b", "#x", "#", "é", "漢字", "😀", "'漢", "'a b'", "\"abc\"", "\"é", "'", "\"", "1", "-1.5e3", "12k", "::", "Ord::Lt", "P::A",
    ":Num", "x:Num", "x:Num y:Str", "=", "!=", ">", "+ 1", "* 2", "-", ".", "..", "/", "a/b", "../", "./é/", "[", "]", ",", "=>", "if", "if {", "and", "or", "map", "--é=", "<", "<T>", "Table", "Nowhere", "cd", "cd é", "run x",
    "def --list", "def --load", "def --clear", "# c", "ns --a", "sort 'é'", "grp", "fold 0 {", "save 'é.csv'", "dot-op", "a.b", "x.é", "\\\\", "~", "`", "@", "%", "^", "&", ";", "é漢|",
];
const ID: &[&str] = &["a", "é", "漢字", "x", "foo-bar", "'a b'", "'漢 é'", "\"q\"", "'😀'", "1", "-2.5", "$x", "$é", "#t", "#i", "Num"];
const CMD: &[&str] = &["len", "get", "open", "filter", "append", "\\", "+", "map", "ls", "é", "漢", "sort-by", "range", "not", "eq", "Tuple", "P::A"];
const FLAG: &[&str] = &["--a", "--'é x'", "--\"b c\"", "--Str", "--漢", "--'漢'", "--é", "--'a'"];
fn expr(r: &mut Rng, depth: u64) -> Vec<String> {
    let mut v = vec![];
    for i in 0..r.range(1, 3) {
        if i > 0 {
            v.push(r.pick(&["| ", " | ", "|"]).to_string());
        }
        if r.chance(1, 10) {
            v.push(format!("{} {} {} ", r.pick(ID), r.pick(&["=", "+", ">", "."]), r.pick(ID)));
            continue;
        }
        v.push(format!("{} ", r.pick(CMD)));
        for _ in 0..r.below(3) {
            match r.below(6) {
                0 | 1 => v.push(format!("{} ", r.pick(FLAG))),
                2 if depth > 0 => {
                    v.push("{".into());
                    v.extend(expr(r, depth - 1));
                    v.push(r.pick(&["} ", "}", " } ", "}:Num ", "}:é "]).to_string());
                }
                _ => v.push(format!("{}{}", r.pick(ID), r.pick(&[" ", " ", "  "]))),
            }
        }
    }
    v
}
fn whole(r: &mut Rng) -> Vec<String> {
    match r.below(6) {
        0 => {
            let mut v = vec![r.pick(&["def f ", "def é ", "def  漢字 Num ", "def foo-é Table ", " def f "]).to_string(), r.pick(&["() ", "(x) ", "(x:Num é) ", "( a:é b:Num )", "(é:Num)"]).to_string(), "{".into()];
            v.extend(expr(r, 1));
            v.push(r.pick(&["}", " }", "}:Num"]).to_string());
            v
        }
        1 => vec!["def-ty ".into(), r.pick(&["P", "é", "漢字"]).to_string(), r.pick(&[" { x:Num }", " { é:Num 漢:Str }", " :: A | B { é:Num }", "::é | 漢 { x:Num y:é }", " { x:Tuple<Num é> }"]).to_string()],
        _ => expr(r, 2),
    }
}
fn gen(r: &mut Rng, _t: Tier) -> Js {
    let lines: Vec<Js> = (0..r.range(1, 6))
        .map(|_| {
            let t: Vec<String> = if r.chance(1, 2) { whole(r) } else { fragments(r) }; 
            json!({"t": t, "burst": r.chance(1, 2), "edit": (0..r.below(6)).map(|_| json!([*r.pick(&["left", "left", "left", "right", "del", "back", "right", "ins"]), r.range(1, 6)])).collect::<Vec<_>>(), "enter": r.chance(1, 8)})
        })
        .collect();
    json!({"lines": lines})
}
fn fragments(r: &mut Rng) -> Vec<String> {
    (0..r.range(1, 9)).map(|_| format!("{}{}", r.pick(TOK), if r.chance(4, 5) { " " } else { "" })).collect()
}
fn run_line(p: &Js) {
    run(p, false)
}
fn run_sug(p: &Js) {
    run(p, true)
}
fn run(p: &Js, sug: bool) {
    std::fs::create_dir_all("/w/root/a/b").unwrap();
    std::fs::create_dir_all("/w/root/é").unwrap();
    std::fs::write("/w/root/漢.csv", "a,b\n1,2\n").unwrap();
    std::fs::write("/w/root/é/x y.csv", "a,b\n1,2\n").unwrap();
    let stall = sched::sim().stall_limit();
    let mut s = Sess::start("/w/root", &[], (170, 40));
    s.alt('h');
    s.wait(SEC, |s| !s.scr.text().contains("toggle help"));
    for l in p.arr("lines") {
        s.prompt = s.input().unwrap_or_default().trim_end().to_string();
        let text: String = l.arr("t").iter().map(|t| t.as_str().unwrap_or("")).collect();
        let mut line: Vec<char> = text.chars().take(110).collect();
        while line.last() == Some(&' ') {
            line.pop();
        }
        let mut pos = line.len();
        if l.b("burst") {
            s.text(&line.iter().collect::<String>());
        } else {
            for i in 0..line.len() {
                s.text(&line[i].to_string());
                if i % 3 == 0 {
                    s.idle(7 * MS);
                }
            }
        }
        settle(&mut s, &line, stall, "typed");
        for e in l.arr("edit") {
            for _ in 0..e[1].as_u64().unwrap_or(1) {
                match e[0].as_str().unwrap_or("") {
                    "left" => {
                        s.key(KeyCode::Left, M::NONE);
                        pos = pos.saturating_sub(1);
                    }
                    "right" => {
                        s.key(KeyCode::Right, M::NONE);
                        pos = (pos + 1).min(line.len());
                    }
                    "del" => {
                        s.key(KeyCode::Delete, M::NONE);
                        if pos < line.len() {
                            line.remove(pos);
                        }
                    }
                    "ins" => {
                        s.text("ü");
                        line.insert(pos, 'ü');
                        pos += 1;
                    }
                    _ => {
                        s.key(KeyCode::Backspace, M::NONE);
                        if pos > 0 {
                            pos -= 1;
                            line.remove(pos);
                        }
                    }
                }
            }
            settle(&mut s, &line, stall, "edited");
        }
        feature(hash_str(&line.iter().collect::<String>()));
        if l.b("enter") {
            s.enter();
            if !s.mark(5 * SEC + 4 * stall) {
                s.down(&format!("`{}` was entered, the next command has not come to an end", line.iter().collect::<String>()));
            }
        } else {
            for _ in pos..line.len() {
                s.key(KeyCode::Right, M::NONE);
            }
            for _ in 0..line.len() {
                s.key(KeyCode::Backspace, M::NONE);
            }
            settle(&mut s, &[], stall, "deleted");
        }
    }
    nontrivial();
    if sug {
        s.text("grp-");
        if !s.wait(5 * SEC + 8 * stall, |s| s.scr.text().contains("grp-by [")) {
            let sig = match panics().iter().find(|p| p.thread.starts_with("completion")) {
                Some(p) => format!("completer ended by a panic: {}", panic_sig(p)),
                None => "no suggestions".into(),
            };
            fail(sig, format!("typed `grp-`, no suggestion of grp-by:\n{}\npanics: {}", s.scr.text(), panics_text()));
        }
    }
    if let Some(_) = s.ended() {
        s.down("typing");
    }
}
/// The line on the screen comes to read as typed.
fn settle(s: &mut Sess, line: &[char], stall: u64, what: &str) {
    let want: String = line.iter().collect();
    let prompt = s.prompt.clone();
    let shown = |s: &Sess| s.input().map(|i| i.strip_prefix(prompt.as_str()).unwrap_or(&i).trim().to_string());
    if !s.wait(SEC + 4 * stall, |s| shown(s).as_deref() == Some(want.trim())) {
        if s.ended().is_some() {
            s.down(&format!("`{want}` {what}"));
        }
        let got = shown(s);
        fail("line reads otherwise", format!("{what} `{want}`, the line reads {got:?}\n{}\npanics: {}", s.scr.text(), panics_text()));
    }
}
