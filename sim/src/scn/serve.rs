//! P25: `acorn serve`, the program an editor starts, behind the pipes it is started with.
use super::common::*;
use super::lsp::{acts_of, take_frames, Act, Client, Seen, Tx, REAL_LSP};
use super::world::*;
use crate::cli::{acorn_piped, Ended};
use crate::fs::{FsPlan, MemFs};
use crate::harness::*;
use crate::interpose::{nobody_reads, stdin_pipe, take_stdout};
use crate::lib_ac::Library;
use crate::rt::{self, Rng};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub struct Serve;

const CACHE: &str = "/sim/home/cache";

/// How the editor behaves, apart from what its user does.
#[derive(Clone)]
struct Editor {
    end: String,
    /// After so many bytes it reads nothing for so long.
    stalls: Vec<(u64, u64)>,
    whole: u64,
}

/// Runs an editor until it and the server are done; what happened.
fn edit<F, R>(ed: Editor, ended: Ended, lib: Library, body: F) -> Value
where
    F: FnOnce(Client, Ended) -> R,
    R: std::future::Future<Output = (Client, Value)>,
{
    let seen: Arc<Mutex<Seen>> = Default::default();
    let s2 = seen.clone();
    let stalls = ed.stalls.clone();
    let reader = std::thread::spawn(move || {
        let mut buf = vec![];
        let mut n = 0u64;
        let mut at = 0;
        loop {
            let d = take_stdout(4096);
            if d.is_empty() {
                return;
            }
            n += d.len() as u64;
            buf.extend_from_slice(&d);
            take_frames(&mut buf, &s2);
            if at < stalls.len() && n >= stalls[at].0 {
                rt::probe("editor stalls");
                rt::sleep_ns(stalls[at].1);
                at += 1;
            }
        }
    });
    let rt1 = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    let e2 = ended.clone();
    let over = rt1.block_on(async move {
        let c = Client::new(Tx::Stdin, seen.clone(), lib);
        let (mut c, r) = body(c, e2).await;
        let gone = || ended.lock().unwrap().clone();
        if gone().is_none() && ed.end == "polite" {
            c.call("shutdown", Value::Null).await;
            c.notify("exit", Value::Null).await;
        }
        if ed.end == "polite" {
            tokio::time::sleep(Duration::from_millis(50)).await;
        }
        if ed.end == "dies" {
            nobody_reads();
        }
        stdin_pipe(false);
        for _ in 0..900 {
            if gone().is_some() {
                break;
            }
            tokio::time::sleep(Duration::from_secs(1)).await;
        }
        let how = gone();
        match &how {
            None => c.fail("never-ended", format!("900 simulated seconds after the editor went away ({}) the server still runs", ed.end)),
            Some(v) if ed.end == "polite" && v["exit"] != json!(0) => c.fail("exit", format!("after shutdown and exit the server ended with {v}")),
            Some(v) if ed.end != "dies" && v["exit"] != json!(0) => c.fail("exit", format!("when its input had ended, the server ended with {v}")),
            _ => {}
        }
        let s = seen.lock().unwrap();
        json!({"bad": s.bad, "log": s.log, "pubs": s.n_pubs, "more": r})
    });
    if over["bad"].as_array().unwrap().iter().all(|b| b[0] != "never-ended") {
        let _ = reader.join();
    }
    over
}

/// Everything under a directory, by path.
fn tree(fs: &MemFs, dir: &str) -> BTreeMap<String, Vec<u8>> {
    fs.files(dir)
}

/// What is different, if anything.
fn differs(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>, but: &[String]) -> Option<String> {
    a.keys().chain(b.keys()).find(|k| a.get(*k) != b.get(*k) && !but.contains(k)).cloned()
}

fn file_uri(p: &str) -> String {
    format!("file://{p}")
}

/// The editor shows a project that the server refuses, or cannot find.
async fn refused(mut c: Client, want: &str) -> (Client, Value) {
    let a = c.call("initialize", json!({"capabilities": {}, "rootUri": file_uri(ROOT)})).await;
    let msg = a["error"]["message"].as_str().unwrap_or("").to_string();
    if a["error"]["code"] != json!(-32000) || !msg.contains(want) {
        c.fail("not-refused", format!("initialize was answered {a}; expected an error about {want:?}"));
    }
    let p = format!("{ROOT}/src/m0.ac");
    let text = std::fs::read_to_string(&p).unwrap_or_default();
    c.notify("textDocument/didOpen", json!({"textDocument": {"uri": file_uri(&p), "languageId": "acorn", "version": 1, "text": text}})).await;
    c.notify("textDocument/didSave", json!({"textDocument": {"uri": file_uri(&p)}, "text": text})).await;
    c.call("acorn/progress", json!({})).await;
    c.call("acorn/selection", json!({"uri": file_uri(&p), "version": 1, "selectedLine": 0, "id": 1})).await;
    c.notify("textDocument/didClose", json!({"textDocument": {"uri": file_uri(&p)}})).await;
    tokio::time::sleep(Duration::from_secs(5)).await;
    (c, json!({}))
}

/// The editor has no library of its own, and looks at the packaged one.
async fn packaged(mut c: Client, wrong: bool, doc: String) -> (Client, Value) {
    let a = c.call("initialize", json!({"capabilities": {}, "rootUri": "file:///sim/w"})).await;
    if !a["result"].is_object() {
        c.fail("refused", format!("initialize was answered {a}"));
        return (c, json!({}));
    }
    c.notify("initialized", json!({})).await;
    let mut dir = String::new();
    for e in std::fs::read_dir(CACHE).into_iter().flatten().flatten() {
        let p = e.path().join("acornlib");
        if p.join("acorn.toml").is_file() {
            dir = p.to_string_lossy().into_owned();
        }
    }
    let path = format!("{dir}/src/{doc}");
    let Ok(text) = std::fs::read_to_string(&path) else {
        c.fail("no-library", format!("{path} is not there"));
        return (c, json!({}));
    };
    // What belongs to no library.
    c.saw_saved("file:///sim/w/own.ac", 1);
    c.notify("textDocument/didOpen", json!({"textDocument": {"uri": "file:///sim/w/own.ac", "languageId": "acorn", "version": 1, "text": "let x = 1\n"}})).await;
    c.notify("textDocument/didSave", json!({"textDocument": {"uri": "file:///sim/w/own.ac"}, "text": "let x = 1\n"})).await;
    c.call("textDocument/hover", json!({"textDocument": {"uri": "file:///sim/w/own.ac"}, "position": {"line": 0, "character": 4}})).await;
    c.notify("textDocument/didOpen", json!({"textDocument": {"uri": file_uri(&path), "languageId": "acorn", "version": 1, "text": text}})).await;
    c.saw_saved(&file_uri(&path), 1);
    let mut v = 1;
    let mut text = text;
    let lines = text.matches('\n').count();
    if wrong {
        v = 2;
        text.push_str("\ntheorem not_so {\n    flip(Tok.c0) = Tok.c0\n}\n");
        c.notify("textDocument/didChange", json!({"textDocument": {"uri": file_uri(&path), "version": v}, "contentChanges": [{"text": text}]})).await;
        let _ = std::fs::write(&path, &text);
        c.saw_saved(&file_uri(&path), 2);
    }
    c.notify("textDocument/didSave", json!({"textDocument": {"uri": file_uri(&path)}, "text": text})).await;
    let mut n = 0;
    loop {
        let a = c.call("acorn/selection", json!({"uri": file_uri(&path), "version": v, "selectedLine": 0, "id": 2})).await;
        let p = c.call("acorn/progress", json!({})).await;
        let r = &a["result"];
        if n > 2 && r["loading"] != json!(true) && r["building"] != json!(true) && p["result"]["finished"] == json!(true) {
            break;
        }
        n += 1;
        if n > 6000 {
            c.fail("never-done", format!("600 simulated seconds after the save the build is not finished: {p}"));
            return (c, json!({}));
        }
        tokio::time::sleep(Duration::from_millis(100)).await;
    }
    tokio::time::sleep(Duration::from_secs(2)).await;
    let pubs = c.shown();
    let shown = pubs.get(&file_uri(&path)).cloned().unwrap_or_default();
    let at_claim = shown.iter().any(|d| d.0 <= lines as u32 + 3 && d.1 > lines as u32);
    if wrong && !at_claim {
        c.fail("missing-complaint", format!("the false claim added at line {} of {doc} is not complained about: {shown:?}", lines + 1));
    }
    for (u, ds) in &pubs {
        let other: Vec<_> = ds.iter().filter(|d| !(wrong && *u == file_uri(&path) && d.1 >= lines as u32)).collect();
        if u.contains("/cache/") && !other.is_empty() {
            c.fail("false-complaint", format!("the packaged library is right, but the editor shows {other:?} about {u}"));
        }
    }
    (c, json!({"dir": dir, "doc": if wrong { path.clone() } else { String::new() }}))
}

impl Scenario for Serve {
    fn property(&self) -> &'static str {
        "P25"
    }
    fn rule(&self) -> &'static str {
        "a run is one life of `acorn serve` as an editor starts it - the real main function, its arguments, standard input and output pipes of 64 KiB - on a random project (the workspace root being it, or a directory below), on a project of another format, with no project (the packaged library being unpacked into the cache), or with nothing at all; the editor behaves as in P09, stops reading for a while, and leaves politely, by closing its end of standard input at any moment, or by dying, which breaks all pipes; what comes out must be whole messages, every request must be answered, at rest the editor must show the truth, what is refused must be refused in words and left untouched, the packaged library must not be written to, and the process must end; non-trivial when something was published"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 8000 } else { 250 }
    }
    fn real_components(&self) -> &'static str {
        REAL_LSP
    }
    fn stubs(&self) -> &'static str {
        "disk, clock, entropy, process ids, thread scheduler, pipes and editor of the simulated machine; the neural network runtime; the acornlib submodule that is packaged (a small synthetic library)"
    }
    fn shrink_keys(&self) -> &'static [&'static str] {
        &["acts", "stalls", "jumps"]
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 3);
        let wrong = *r.pick(&[0.0, 0.0, 0.0, 0.1]);
        let lib = Library::random(&mut r, n, wrong);
        let mode = *r.pick(&["project", "project", "project", "project", "format", "packaged", "packaged", "nothing"]);
        let end = *r.pick(&["polite", "polite", "eof", "eof", "dies"]);
        let mut l = lib.clone();
        let wild = r.chance(0.3);
        let mut acts = acts_of(&mut r, &mut l, wild);
        for _ in 0..r.below(3) {
            let at = r.below(acts.len() as u64 + 1) as usize;
            acts.insert(at, Act::Other { kind: r.below(6) as u8, doc: r.below(8) as usize });
        }
        if end != "polite" || r.chance(0.3) {
            acts.truncate(r.range(0, acts.len() as u64) as usize);
        }
        let stalls: Vec<(u64, u64)> = if r.chance(0.3) { (0..r.range(1, 3)).map(|i| (i * 2000 + r.log_range(1, 20_000), r.log_range(1_000_000, 60_000_000_000))).collect() } else { vec![] };
        let root = r.pick(&["", "", "/src", "/build"]).to_string();
        let format = *r.pick(&[1u32, 25, 26, 28, 1000]);
        let doc = r.pick(&["flip.ac", "more/use.ac", "base.ac"]).to_string();
        let wrong_edit = r.chance(0.5);
        let pre = r.chance(0.4);
        let whole = r.next() >> 1;
        plan_of(&mut r, &lib, vec![], 5, json!({"acts": acts, "mode": mode, "end": end, "stalls": stalls, "root": root, "format": format, "doc": doc, "wrong": wrong_edit, "pre": pre, "whole": whole, "jobs": [1, 2, 1]}))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        let mode = plan["mode"].as_str().unwrap().to_string();
        let end = plan["end"].as_str().unwrap().to_string();
        if plan["pre"] == json!(true) {
            let (_, o) = w.run(extra(plan, 4), &Req { handcrafted: false, ..Req::verify(1) }, &FsPlan::default());
            if o.is_none() {
                return w.finish(None);
            }
        }
        w.rep.probe(&mode);
        w.rep.probe(&format!("leaves: {end}"));
        let acts: Vec<Act> = serde_json::from_value(plan["acts"].clone()).unwrap();
        let ed = Editor { end: end.clone(), stalls: serde_json::from_value(plan["stalls"].clone()).unwrap(), whole: plan["whole"].as_u64().unwrap() };
        let mut args = vec!["serve".to_string()];
        let mut fs = copy(&w.fs);
        match &mode[..] {
            "project" => args.extend(["--workspace-root".into(), format!("{ROOT}{}", plan["root"].as_str().unwrap())]),
            "format" => {
                args.extend(["--workspace-root".into(), ROOT.into()]);
                fs.put(&format!("{ROOT}/acorn.toml"), format!("project_format_version = {}\n", plan["format"]).as_bytes());
            }
            _ => {
                fs.mkdirs("/sim/w");
                fs.put("/sim/w/own.ac", b"let x = 1\n");
                args.extend(["--workspace-root".into(), "/sim/w".into()]);
            }
        }
        if mode != "nothing" {
            fs.mkdirs("/sim/home");
            args.push(format!("--acornlib-cache-dir={CACHE}"));
        }
        let before = tree(&fs, "/sim");
        let slot = extra(plan, 3);
        let lib = w.lib.clone();
        let (a2, m2) = (acts.clone(), mode.clone());
        let wrong = plan["wrong"] == json!(true) && plan["doc"] == json!("flip.ac");
        let doc = plan["doc"].as_str().unwrap().to_string();
        let mut p = acorn_piped(fs, &FsPlan::default(), &w.sched(slot), "/sim", &args, move |ended| {
            let whole = ed.whole;
            edit(ed, ended, lib, move |mut c, ended| async move {
                match &m2[..] {
                    "project" => {
                        let (settles, saves) = c.live(&a2, whole, || ended.lock().unwrap().is_some()).await;
                        (c, json!({"settles": settles, "saves": saves}))
                    }
                    "format" => refused(c, "project format").await,
                    "packaged" => packaged(c, wrong, doc).await,
                    _ => refused(c, "acornlib").await,
                }
            })
        });
        w.rep.add(slot, &p);
        if let Some((k, m)) = bad_end(&p) {
            w.fail(&k, format!("{m} (acorn serve)"));
        }
        let Some(v) = p.done().cloned() else { return w.finish(None) };
        if v["bad"].is_null() {
            w.fail("server-gone", format!("the server ended the process: {v}"));
            return w.finish(None);
        }
        if std::env::var_os("SIM_SHOW").is_some() {
            println!("acorn {}\n{}", args.join(" "), p.text);
            for l in v["log"].as_array().unwrap() {
                println!("{}", l.as_str().unwrap());
            }
            println!("{}\n{}", v["bad"], v["more"]);
        }
        w.rep.nontrivial = v["pubs"].as_u64() > Some(0);
        for _ in 0..v["more"]["settles"].as_u64().unwrap_or(0) {
            w.rep.probe("settled and judged");
        }
        // (A program that says something to nobody may fail over that, as many do.)
        if let Some(at) = p.text.find("panicked").filter(|_| end != "dies") {
            let m: String = p.text[at..].chars().take(400).collect();
            w.fail("panic", m);
        }
        for b in v["bad"].as_array().unwrap() {
            w.fail(b[0].as_str().unwrap(), b[1].as_str().unwrap().into());
        }
        if w.failed() {
            return w.finish(None);
        }
        let after = tree(&p.fs, "/sim");
        match &mode[..] {
            "format" | "nothing" => {
                if let Some(k) = differs(&before, &after, &[]) {
                    w.fail("touched", format!("a server that could not start changed {k}"));
                }
            }
            "packaged" => {
                let dir = v["more"]["dir"].as_str().unwrap_or("");
                let user = v["more"]["doc"].as_str().unwrap_or("").strip_prefix("/").unwrap_or("").to_string();
                if let Some(k) = differs(&before, &after, &[]).filter(|k| !k.contains("home/cache/")) {
                    w.fail("touched", format!("with the packaged library in use the server changed {k}"));
                }
                let want = super::install::library();
                let have = p.fs.files(dir);
                for (k, text) in &want {
                    if !user.is_empty() && user.ends_with(&format!("/{k}")) {
                        continue;
                    }
                    if have.get(k) != Some(text) {
                        w.fail("packaged-written", format!("{k} of the packaged library is not what was packaged"));
                    }
                }
                if let Some(k) = have.keys().find(|k| !want.contains_key(*k) && !k.starts_with('.')) {
                    w.fail("packaged-written", format!("{k} was added to the packaged library"));
                }
            }
            _ => {}
        }
        if w.failed() || mode != "project" {
            return w.finish(None);
        }
        for a in &acts {
            if let Act::Edit(e) = a {
                w.lib.apply(e);
            }
        }
        w.fs = std::mem::take(&mut p.fs);
        w.fs.plan = FsPlan::default();
        if end != "polite" || !matches!(acts.last(), Some(Act::Settle)) {
            // The user saves what was not saved by other means.
            put_lib(&mut w.fs, &w.lib);
        }
        let o = w.final_check_with(plan, false, false);
        w.finish(o.as_ref())
    }
}
