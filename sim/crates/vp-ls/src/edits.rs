//! C22: the server's text equals the editor's.
use super::editor::*;
use kit::serde_json::{json, Value as Js};
use kit::simrt::rng::Rng;
use kit::simrt::sched;
use kit::{J, *};
use std::collections::BTreeMap;

pub fn parts() -> Vec<Part> {
    vec![Part {
        name: "C22.edits",
        rule: "a random editor session over 1-3 documents (text with astral, combining and wide characters, LF and CRLF lines, comments, code and plain words): opens, re-opens, saves, incremental and whole-text changes of one to four edits at random UTF-16 positions (also beyond line and text ends) with consecutive or skipping versions, hovers and completions sent in between without waiting, a slow client, 1-8 workers; every answer is compared with what the parser says of the editor's own text at the moment of asking, and for plain words with the word itself; at the end every position is asked; non-trivial: at least three edits and five compared answers",
        gen,
        run,
        tune: no_tune,
        on_end: default_end,
        max_steps: 20_000_000,
        shrink: &["/ops", "/ops/*/chs", "/slow"],
        runs: (60_000, 3_000_000),
        real: "ogma-ls crate (dispatch, documents, hover, completion), ogma parser and definitions, serde/serde_json/url, crossbeam, rayon, std",
        stub: "thread scheduler, clocks, stdio transport (channels held by the harness), lsp-types stand-in with the same message shapes",
    }]
}

const WORDS: &[&str] = &["ab", "漢字", "𝄞", "é", "e\u{301}x", "b9", "\u{1F469}\u{200D}\u{1F467}", "zq", "ls"];
/// Words of letters and digits alone.
const PLAIN: &[&str] = &["ab", "漢字", "𐐀", "é", "𝐱y", "b9", "zq", "ls"];
const CODE: &[&str] = &["{", "}", "|", "$x", "#t", "#", "'a b'", "\"", "\\", "def f", "(", ")", "--flag", ".", ":", "12", "<", "def-ty T", "Num", "# note", "..", "\t"];
const SEPS: &[&str] = &[" ", " ", " ", "\n", "\n", "\n\n", "  ", "\r\n", "\r\n\r\n"];

fn gen_text(r: &mut Rng, n: u64, code: bool) -> String {
    let mut s = String::new();
    for _ in 0..n {
        if r.chance(1, 2) {
            let w: &&str = if code && r.chance(1, 2) { r.pick(CODE) } else { r.pick(if code { WORDS } else { PLAIN }) };
            s.push_str(w);
        } else {
            let w: &&str = r.pick(SEPS);
            s.push_str(w);
        }
    }
    s
}
fn gen_pos(r: &mut Rng) -> Js {
    let l = if r.chance(1, 30) { r.below(100) } else { r.below(8) };
    let c = if r.chance(1, 20) { *r.pick(&[1000u64, 4294967295]) } else { r.below(12) };
    json!([l, c])
}
fn gen(r: &mut Rng, t: Tier) -> Js {
    let docs = r.range(1, 3);
    let code = r.chance(1, 2);
    let n = if t == Tier::Quick { r.range(4, 24) } else { r.range(4, 50) };
    let reqs = r.range(1, 6);
    let ops: Vec<Js> = (0..n)
        .map(|_| {
            let d = r.below(docs);
            match r.below(8 + reqs) {
                0 => {
                    let n = r.below(14);
                    json!({"op": "open", "d": d, "text": gen_text(r, n, code), "v": r.below(5)})
                }
                1 => json!({"op": "save", "d": d}),
                2 => json!({"op": "pause", "ns": rand_delay(r, 20 * MS)}),
                3 if r.chance(1, 3) => json!({"op": "settle"}),
                3..=7 => {
                    let gap = if r.chance(1, 5) { r.range(2, 9) } else { 1 };
                    let k = if r.chance(1, 3) { r.range(2, 4) } else { 1 };
                    let chs: Vec<Js> = (0..k)
                        .map(|_| {
                            let n = *r.pick(&[0u64, 1, 1, 2, 5]);
                            if r.chance(1, 12) {
                                json!({"t": gen_text(r, n * 2, code)})
                            } else {
                                json!({"a": gen_pos(r), "b": if r.chance(1, 3) { Js::Null } else { gen_pos(r) }, "t": gen_text(r, n, code)})
                            }
                        })
                        .collect();
                    json!({"op": "change", "d": d, "gap": gap, "chs": chs})
                }
                _ => json!({"op": if r.chance(1, 2) { "hover" } else { "completion" }, "d": d, "p": gen_pos(r)}),
            }
        })
        .collect();
    let slow: Vec<u64> = if r.chance(1, 4) { (0..r.range(1, 8)).map(|_| rand_delay(r, 50 * MS)).collect() } else { vec![] };
    json!({"docs": docs, "code": code, "ops": ops, "slow": slow})
}

enum Want {
    Hover(Option<String>),
    Complete(Option<Vec<(String, i64)>>),
}
struct Asked {
    id: String,
    want: Want,
    what: String,
    text: String,
}

pub fn kind_no(k: &ogma_ls::completion::Kind) -> i64 {
    use ogma_ls::completion::Kind::*;
    match k {
        Impl => 3,
        Type => 7,
        File => 17,
        Dir => 19,
        Lit => 21,
    }
}

fn expect(text: &str, what: &str, l: u64, c: u64, words: bool) -> Want {
    let (code, i) = Lines::of(text).part(l as usize);
    let spans = line_spans(&code);
    let cur = match spans.get(i) {
        // the part ends in a line end which is not the document's
        Some(&(a, b)) => a + col(&code[a..b], c).unwrap_or(b - a),
        None => code.len(),
    };
    if what == "hover" {
        let node = plain().parse(&code).ok().and_then(|x| x.node_at_pos(cur)).map(|n| n.tag.str().to_string());
        if words && node.is_some() {
            // plain words: the word under the cursor, whatever the parser says
            let ch = code[cur..].chars().next().unwrap_or(' ');
            if !ch.is_whitespace() {
                let a = code[..cur].rfind(char::is_whitespace).map_or(0, |x| x + 1);
                let b = code[cur..].find(char::is_whitespace).map_or(code.len(), |x| x + cur);
                return Want::Hover(Some(code[a..b].to_string()));
            }
        }
        Want::Hover(node)
    } else {
        let wd = std::path::Path::new("/w");
        Want::Complete(ogma_ls::completion::get(plain(), &code[..cur], Some(wd)).map(|v| {
            let mut v: Vec<_> = v.iter().map(|d| (d.name.clone(), kind_no(&d.kind))).collect();
            v.sort();
            v
        }))
    }
}

fn check(ed: &Editor, a: &Asked) {
    let r = ed.answer(&a.id).unwrap();
    if let Some(e) = &r.error {
        fail("an error for a sound request", format!("{} was answered with error {} {:?}", a.what, e.code, e.message));
    }
    let v = r.result.clone().unwrap_or(Js::Null);
    match &a.want {
        Want::Hover(w) => {
            let got = v.pointer("/contents").map(|x| x.as_str().map(String::from).unwrap_or_else(|| x.to_string()));
            let same = match (w, &got) {
                (None, None) => true,
                (Some(w), Some(g)) => g.starts_with(&format!("`{w}` [_")),
                _ => false,
            };
            if !same {
                fail(
                    "a hover is not of the editor's text",
                    format!("{}: the editor's text was {:?}, where the hover is {:?}; the server says {:?}", a.what, a.text, w, got.map(|g| g.chars().take(60).collect::<String>())),
                );
            }
        }
        Want::Complete(w) => {
            let got: Option<Vec<(String, i64)>> = v.as_array().map(|x| {
                let mut v: Vec<_> = x.iter().map(|i| (i.s("label").to_string(), i["kind"].as_i64().unwrap_or(-1))).collect();
                v.sort();
                v
            });
            if *w != got {
                let brief = |x: &Option<Vec<(String, i64)>>| match x {
                    None => "no completions".to_string(),
                    Some(v) => {
                        let mut k: BTreeMap<i64, usize> = BTreeMap::new();
                        v.iter().for_each(|x| *k.entry(x.1).or_default() += 1);
                        format!("completions of kinds {k:?}")
                    }
                };
                fail(
                    "a completion is not for the editor's text",
                    format!("{}: the editor's text was {:?}, for which it is {}; the server gives {}", a.what, a.text, brief(w), brief(&got)),
                );
            }
        }
    }
}

fn run(sc: &Js) {
    let words = !sc.b("code");
    std::fs::create_dir_all("/w/sub").unwrap();
    std::fs::write("/w/d0.ogma", "").unwrap();
    let slow = sc.arr("slow").iter().map(|x| x.as_u64().unwrap()).collect();
    let mut ed = Editor::start(vec![], slow);
    let url = |d: u64| format!("file:///w/d{d}.ogma");
    let mut docs: BTreeMap<u64, (i64, String)> = BTreeMap::new();
    let mut asked: Vec<Asked> = vec![];
    let mut edits = 0;
    let mut checked = 0;
    for op in sc.arr("ops") {
        let d = op.u("d");
        match op.s("op") {
            "open" => {
                docs.insert(d, (op.i("v"), op.s("text").to_string()));
                ed.open(&url(d), op.i("v"), op.s("text"));
            }
            "pause" => sched::sleep_ns(op.u("ns")),
            "settle" => {
                ed.settle(30_000);
                asked[checked..].iter().for_each(|a| check(&ed, a));
                checked = asked.len();
            }
            "save" => ed.save(&url(d)),
            "change" => {
                let Some((v, t)) = docs.get_mut(&d) else { continue };
                *v += op.i("gap").max(1);
                let mut chs = vec![];
                for ch in op.arr("chs") {
                    edits += 1;
                    let new = ch.s("t");
                    let Some(a) = ch["a"].as_array() else {
                        *t = new.to_string();
                        chs.push(json!({"text": new}));
                        continue;
                    };
                    let p = |x: &Vec<Js>| (x[0].as_u64().unwrap(), x[1].as_u64().unwrap());
                    let (mut a, mut b) = (p(a), ch["b"].as_array().map_or(p(a), p));
                    if b < a {
                        std::mem::swap(&mut a, &mut b);
                    }
                    let (i, ac) = place(t, a.0, a.1);
                    let (j, bc) = place(t, b.0, b.1);
                    chs.push(json!({"range": {"start": {"line": a.0, "character": ac}, "end": {"line": b.0, "character": bc}}, "text": new}));
                    t.replace_range(i..j, new);
                }
                let v = *v;
                ed.notify("textDocument/didChange", json!({"textDocument": {"uri": url(d), "version": v}, "contentChanges": chs}));
            }
            w => {
                let Some((_, t)) = docs.get(&d) else { continue };
                let (l, c) = (op["p"][0].as_u64().unwrap(), op["p"][1].as_u64().unwrap());
                let (_, c) = place(t, l, c);
                let want = expect(t, w, l, c, words);
                let id = ed.at(w, &url(d), l, c);
                asked.push(Asked { what: format!("{w} {id} at {l}:{c} of {}", url(d)), id, want, text: t.clone() });
            }
        }
    }
    set_phase("final");
    for (d, (_, t)) in &docs {
        for (l, &(a, b)) in line_spans(t).iter().enumerate().take(12) {
            let n = t[a..b].encode_utf16().count() as u64;
            for c in (0..=n.min(24)).step_by(if n > 8 { 2 } else { 1 }) {
                let (_, c) = place(t, l as u64, c);
                let want = expect(t, "hover", l as u64, c, words);
                let id = ed.at("hover", &url(*d), l as u64, c);
                asked.push(Asked { what: format!("hover {id} at {l}:{c} of {}", url(*d)), id, want, text: t.clone() });
            }
        }
    }
    ed.settle(60_000);
    asked[checked..].iter().for_each(|a| check(&ed, a));
    count("answers compared", asked.len() as u64);
    count("edits", edits);
    feature(hash_str(&format!("{:?}", docs.values().map(|x| &x.1).collect::<Vec<_>>())));
    if edits >= 3 && asked.len() >= 5 {
        nontrivial();
    }
    ed.hang_up();
}
