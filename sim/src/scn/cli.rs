//! The command lines of the real program: its exit status, what it prints, what it writes.
use super::common::*;
use super::world::*;
use crate::fs::{Fault, FsPlan};
use crate::harness::*;
use crate::lib_ac::{Goal, Library, Module};
use crate::rt::{Rng, Sched};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// P24: the exit status of a command line tells the truth.
pub struct Lines;

const OUT: &str = "/sim/out";

/// One command line, and what it means.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Cmd {
    pub args: Vec<String>,
    pub dir: String,
    #[serde(default)]
    pub stdin: Option<String>,
    /// build: a verify or check; look: shows something; list: of modules; wrong: makes no sense;
    /// cert: checks with a proof from elsewhere; piped: verifies claims read from standard input.
    pub kind: String,
    /// The build it asks for.
    #[serde(default)]
    pub req: Option<Req>,
    /// The lines it is about, as the user counts them.
    #[serde(default)]
    pub lines: Option<(u32, u32)>,
    /// The search is limited more than any true claim allows for.
    #[serde(default)]
    pub limited: bool,
    /// Truth of what comes from the standard input.
    #[serde(default)]
    pub truth: bool,
    #[serde(default)]
    pub pick: u64,
}

impl Cmd {
    fn show(&self) -> String {
        format!("acorn {} in {}", self.args.join(" "), self.dir)
    }
}

/// The module a printed path belongs to.
fn module_of(path: &str) -> String {
    let p = path.trim_start_matches("./");
    let p = p.strip_prefix(ROOT).unwrap_or(p).trim_start_matches('/');
    let p = p.strip_prefix("src/").unwrap_or(p);
    let n = p.trim_end_matches(".ac").replace('/', ".");
    n.strip_suffix(".interface").unwrap_or(&n).to_string()
}

/// The complaints in what was printed.
fn complaints(text: &str) -> Vec<Diag> {
    let mut v = vec![];
    for l in text.lines() {
        let Some((path, rest)) = l.split_once(", line ") else { continue };
        if !path.ends_with(".ac") {
            continue;
        }
        let k = rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len());
        let Ok(n) = rest[..k].parse::<u32>() else { continue };
        v.push(Diag { module: module_of(path), a: n.saturating_sub(1), b: n.saturating_sub(1), error: false, msg: rest[k..].trim_start_matches(": ").to_string() });
    }
    v
}

fn exit_of(p: &Phase) -> Option<i64> {
    p.done().and_then(|v| v["exit"].as_i64())
}

/// All files but those that were asked for.
fn kept(f: &crate::fs::MemFs) -> BTreeMap<String, Vec<u8>> {
    f.files("/sim").into_iter().filter(|(k, _)| !k.starts_with("out/")).collect()
}

fn sources(f: &crate::fs::MemFs) -> BTreeMap<String, Vec<u8>> {
    kept(f).into_iter().filter(|(k, _)| !k.contains("/certs/") && !k.ends_with("manifest.json")).collect()
}

fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

// ---- what to type ----

/// Where to run, and the path of a source file from there.
fn place(r: &mut Rng) -> (String, Vec<String>, String) {
    match r.below(5) {
        0 => (ROOT.into(), vec![], "src/".into()),
        1 => ("/sim".into(), strs(&["--lib", ROOT]), "src/".into()),
        2 => ("/".into(), vec!["--lib".into(), format!("{ROOT}/src")], String::new()),
        3 => (format!("{ROOT}/build"), vec![], format!("{ROOT}/src/")),
        _ => (format!("{ROOT}/src"), vec![], String::new()),
    }
}

fn goals_of(lib: &Library, m: &str) -> Vec<Goal> {
    lib.goals().into_iter().filter(|g| g.module == m).collect()
}

fn a_module<'a>(r: &mut Rng, lib: &'a Library) -> Option<&'a Module> {
    if lib.modules.is_empty() { None } else { Some(r.pick(&lib.modules)) }
}

/// How a target is written: by its name or its file.
fn written(r: &mut Rng, m: &Module, rel: &str) -> String {
    if !m.iface && r.chance(0.4) {
        format!("{rel}{}", Library::path(&m.name))
    } else {
        m.name.clone()
    }
}

fn push(opts: &mut Vec<Vec<String>>, s: String) {
    opts.push(s.split(' ').map(|x| x.to_string()).collect());
}

fn build(r: &mut Rng, lib: &Library) -> Cmd {
    let (dir, mut args, rel) = place(r);
    let mut c = Cmd { kind: "build".into(), dir, ..Default::default() };
    let mut q = Req { handcrafted: false, ..Req::verify(*r.pick(&[1usize, 2, 3, 4])) };
    if r.chance(0.1) {
        // Nothing but the name of the program.
        q.activations = None;
        c.args = args;
        c.req = Some(q);
        return c;
    }
    if r.chance(0.06) {
        args.push("reprove".into());
        q.force_search = true;
        q.read_only = true;
        args.extend(strs(&["--activations", &ACTIVATIONS.to_string()]));
        if let (true, Some(m)) = (r.chance(0.5), a_module(r, lib)) {
            let mut t = written(r, m, &rel);
            q.target = Some(m.name.clone());
            let gs = goals_of(lib, &m.name);
            if !gs.is_empty() && r.chance(0.5) {
                let n = r.pick(&gs).lines.0 + 1;
                q.line = Some(n);
                c.lines = Some((n, n));
                t += &format!(":{n}");
            }
            args.push(t);
        }
        if c.lines.is_none() && r.chance(0.5) {
            q.read_only = false;
            args.push("--save-results".into());
        }
        c.args = args;
        c.req = Some(q);
        return c;
    }
    if r.chance(0.3) {
        q.mode = "check".into();
    }
    let check = q.mode == "check";
    args.push(if check && r.chance(0.2) { "reverify".into() } else { q.mode.clone() });
    let mut opts: Vec<Vec<String>> = vec![];
    let m = if r.chance(0.45) { a_module(r, lib) } else { None };
    let mut line = None;
    if let Some(m) = m {
        let mut t = written(r, m, &rel);
        q.target = Some(m.name.clone());
        let gs = goals_of(lib, &m.name);
        if !gs.is_empty() && r.chance(0.4) {
            let mut g = r.pick(&gs).clone();
            let bad: Vec<&Goal> = gs.iter().filter(|g| !g.truth).collect();
            if !bad.is_empty() && r.chance(0.4) {
                g = (*r.pick(&bad)).clone();
            }
            let mut n = g.lines.0 + 1;
            q.line = Some(n);
            c.lines = Some((n, n));
            match r.below(5) {
                0 => t += &format!(":{n}"),
                1 => line = Some(n.to_string()),
                2 | 3 if !check => {
                    let e = n + r.below(8) as u32;
                    // From the start of some claim before.
                    let before: Vec<u32> = gs.iter().map(|g| g.lines.0 + 1).filter(|l| *l <= n).collect();
                    n = *r.pick(&before);
                    q.line = Some(n);
                    t += &format!(":{n}-{e}");
                    c.lines = Some((n, e));
                    q.force_search = true;
                }
                _ => push(&mut opts, format!("--line {n}")),
            }
        }
        push(&mut opts, t);
    }
    if !check {
        if c.lines.is_none() && r.chance(0.15) {
            q.ignore_hash = true;
            push(&mut opts, r.pick(&["--ignore-hash", "--nohash"]).to_string());
        }
        if q.force_search || r.chance(0.15) {
            q.force_search = true;
            q.read_only = true;
            push(&mut opts, "--force-search".into());
            if c.lines.is_none() && r.chance(0.5) {
                q.read_only = false;
                push(&mut opts, "--save-results".into());
            }
        }
        if r.chance(0.1) && (!q.force_search || q.read_only) {
            q.read_only = true;
            push(&mut opts, "--read-only".into());
        }
        if r.chance(0.1) {
            q.exit_on_warning = true;
            push(&mut opts, "--fail-fast".into());
        }
        if r.chance(0.1) && c.lines.map_or(false, |(a, b)| a == b) {
            push(&mut opts, r.pick(&["--print-proof", "--verbose"]).to_string());
        }
        if r.chance(0.15) {
            c.limited = true;
            match r.below(4) {
                0 => push(&mut opts, "--shallow".into()),
                1 => push(&mut opts, format!("--timeout 0.00{}", r.below(10))),
                2 => push(&mut opts, "--activations 1".into()),
                _ => push(&mut opts, "--activations 3".into()),
            }
        }
        if !opts.iter().any(|o| o[0] == "--activations") {
            if r.chance(0.8) {
                push(&mut opts, format!("--activations {ACTIVATIONS}"));
            } else {
                q.activations = None;
            }
        }
    } else if r.chance(0.15) {
        q.strict = true;
        push(&mut opts, "--strict".into());
    }
    if r.chance(0.7) {
        push(&mut opts, format!("--jobs {}", q.jobs));
    }
    if r.chance(0.1) {
        push(&mut opts, "--timing".into());
    }
    // The order of options is free, but for the line that follows its target.
    for i in (1..opts.len()).rev() {
        opts.swap(i, r.below(i as u64 + 1) as usize);
    }
    if let Some(l) = line {
        let i = opts.iter().position(|o| !o[0].starts_with('-')).unwrap();
        opts[i].push(l);
    }
    args.extend(opts.into_iter().flatten());
    c.args = args;
    c.req = Some(q);
    c
}

fn look(r: &mut Rng, lib: &Library) -> Cmd {
    let (dir, mut args, rel) = place(r);
    let mut c = Cmd { kind: "look".into(), dir, ..Default::default() };
    let m = a_module(r, lib);
    match r.below(9) {
        8 if m.is_some() => {
            args.extend(strs(&["simplify", "--dry-run", &written(r, m.unwrap(), &rel)]));
            if r.chance(0.5) {
                args.extend(strs(&["--activations", "5"]));
            }
        }
        0 => {
            c.kind = "list".into();
            args.push("list".into());
        }
        1 => args.push("citations".into()),
        2 => {
            args.push("lint".into());
            if let (true, Some(m)) = (r.chance(0.5), m) {
                args.push(written(r, m, &rel));
            }
        }
        3 => args.extend(strs(&["docs", OUT])),
        4 => {
            args.extend(strs(&["export", "--output-dir", OUT]));
            for o in ["--pretty", "--type-annotations", "--proof-deps", "--elaborated", "--full"] {
                if r.chance(0.3) {
                    args.push(o.into());
                }
            }
        }
        5 => {
            args.extend(strs(&["eval", "--activations", "30"]));
            if r.chance(0.5) {
                args.extend(strs(&["--policy", *r.pick(&["handcrafted", "depth-first"])]));
            }
            if r.chance(0.3) {
                args.push("--trace-out".into());
                args.push(format!("{OUT}/t.jsonl.zst"));
            }
            if let (true, Some(m)) = (r.chance(0.5), m) {
                args.push(written(r, m, &rel));
            }
        }
        _ => {
            let Some(m) = m else {
                args.push("citations".into());
                c.args = args;
                return c;
            };
            let gs = goals_of(lib, &m.name);
            let n = if gs.is_empty() || r.chance(0.3) { r.range(1, 60) as u32 } else { r.pick(&gs).lines.0 + 1 };
            let t = written(r, m, &rel);
            args.push("select".into());
            match r.below(3) {
                0 => args.push(format!("{t}:{n}")),
                1 => args.extend([t, n.to_string()]),
                _ => args.extend([t, "--line".into(), n.to_string()]),
            }
            c.lines = Some((n, n));
        }
    }
    c.args = args;
    c
}

fn wrong(r: &mut Rng, lib: &Library) -> Cmd {
    let (dir, mut args, _) = place(r);
    let mut c = Cmd { kind: "wrong".into(), dir, ..Default::default() };
    let m = a_module(r, lib).map_or("nosuch".to_string(), |m| m.name.clone());
    let t = format!("{OUT}/t.jsonl.zst");
    let all: Vec<Vec<String>> = vec![
        strs(&["verify", "--jobs", "0"]),
        strs(&["check", "--jobs", "0"]),
        strs(&["eval", "--jobs", "0"]),
        strs(&["verify", "--jobs", "many"]),
        strs(&["verify", "nosuch"]),
        strs(&["check", "no.such"]),
        strs(&["verify", "nosuch.ac"]),
        strs(&["verify", "--line", "3"]),
        strs(&["check", "--line", "3"]),
        strs(&["reprove", "--line", "3"]),
        strs(&["verify", &m, "--line", "0"]),
        strs(&["verify", &format!("{m}:0-4"), "--force-search"]),
        strs(&["check", &format!("{m}:0")]),
        strs(&["select", &m, "0"]),
        strs(&["select", &m]),
        strs(&["select", "nosuch", "4"]),
        strs(&["verify", &format!("{m}:5"), "--line", "5"]),
        strs(&["verify", &m, "5", "--line", "5"]),
        strs(&["verify", &format!("{m}:3-9")]),
        strs(&["check", &format!("{m}:3-9")]),
        strs(&["verify", &format!("{m}:9-3"), "--force-search"]),
        strs(&["verify", "--save-results"]),
        strs(&["verify", "--force-search", "--save-results", "--read-only"]),
        strs(&["verify", &format!("{m}:3"), "--force-search", "--save-results"]),
        strs(&["reprove", &format!("{m}:3"), "--save-results"]),
        strs(&["verify", "--activations", "0"]),
        strs(&["verify", &m, "--goal", "1"]),
        strs(&["verify", &m, "--line", "2", "--goal", "0"]),
        strs(&["verify", "--verbose"]),
        strs(&["verify", "-", "--print-proof"]),
        strs(&["check", "--cert", "{}"]),
        strs(&["check", &m, "--line", "2", "--cert", "not json"]),
        strs(&["eval", "--skip", "x"]),
        strs(&["eval", "--skip", ""]),
        strs(&["eval", "--policy", "nosuch"]),
        strs(&["eval", "--policy", "model"]),
        strs(&["eval", "--policy", "handcrafted", "--model", "/sim/none"]),
        strs(&["eval", "--trace-out", &t, "--trace-shard-rows", "0"]),
        strs(&["eval", "--eval-sample", "9-3"]),
        strs(&["lint", "-"]),
        strs(&["lint", "nosuch"]),
        strs(&["simplify", "nosuch"]),
        strs(&["simplify", "-"]),
        strs(&["simplify", &m, "--activations", "0"]),
        strs(&["docs"]),
        strs(&["frobnicate"]),
        strs(&["verify", "--frobnicate"]),
        strs(&["verify", "--lib", "/sim/none"]),
    ];
    args.extend(r.pick(&all).iter().cloned());
    if r.chance(0.05) {
        c.dir = "/sim".into();
        args = strs(&[*r.pick(&["verify", "check", "list", "lint", "citations"])]);
    }
    c.args = args;
    c
}

fn piped(r: &mut Rng, lib: &Library) -> Cmd {
    let (dir, mut args, rel) = place(r);
    let mut c = Cmd { kind: "piped".into(), dir, ..Default::default() };
    let mut q = Req { handcrafted: false, ..Req::verify(1) };
    c.truth = r.chance(0.5);
    let n = r.range(1, 4);
    let last = if c.truth { n + 1 } else { r.range(1, n) };
    let mut text = String::from("\n");
    for i in 1..=n {
        let body = if i == last { "b" } else { *r.pick(&["b = b", "b or not b", "b and c implies c and b"]) };
        text += &format!("theorem piped_{i}(b: Bool, c: Bool) {{\n    {body}\n}}\n");
        // Text is not always piped with a newline at its end.
        if i < n {
            text.push('\n');
        } else if r.chance(0.3) {
            text.pop();
        }
    }
    c.stdin = Some(text);
    args.push("verify".into());
    if r.chance(0.3) {
        q.read_only = true;
        args.push("--read-only".into());
    }
    args.extend(strs(&["--activations", &ACTIVATIONS.to_string(), "--"]));
    let m = if r.chance(0.8) { a_module(r, lib).filter(|m| !m.iface) } else { None };
    match m {
        Some(m) => {
            q.target = Some(m.name.clone());
            args.push(format!("-:{rel}{}", Library::path(&m.name)));
        }
        None => args.push("-".into()),
    }
    c.args = args;
    c.req = Some(q);
    c
}

fn cert(r: &mut Rng, lib: &Library) -> Option<Cmd> {
    let (dir, mut args, rel) = place(r);
    let mut c = Cmd { kind: "cert".into(), dir, pick: r.next() >> 1, ..Default::default() };
    let m = a_module(r, lib)?;
    let gs = goals_of(lib, &m.name);
    if gs.is_empty() {
        return None;
    }
    let g = r.pick(&gs).clone();
    let n = g.lines.0 + 1;
    args.extend(strs(&["check", &format!("{}:{n}", written(r, m, &rel)), "--cert"]));
    c.args = args;
    c.lines = Some((n, n));
    c.truth = r.chance(0.7);
    c.req = Some(Req { target: Some(m.name.clone()), ..Req::check(1) });
    Some(c)
}

// ---- what must come of it ----

impl Lines {
    fn act(&self, w: &mut World, cmd: &Cmd, slot: usize, fp: &FsPlan) {
        let mut cmd = cmd.clone();
        let q = cmd.req.clone().unwrap_or_default();
        if let Some(t) = &q.target {
            // An edit that the minimiser left out may have made this module.
            if w.lib.module(t).is_none() {
                return;
            }
        }
        if cmd.kind == "cert" {
            // Some stored proof, of whatever goal.
            let certs: Vec<(String, String)> = w
                .certs()
                .into_iter()
                .filter(|(k, _)| k.ends_with(".jsonl"))
                .flat_map(|(k, d)| String::from_utf8_lossy(&d).lines().map(|l| (k.clone(), l.to_string())).collect::<Vec<_>>())
                .collect();
            if certs.is_empty() {
                return;
            }
            let own = format!("{}.jsonl", q.target.as_ref().unwrap().rsplit('.').next().unwrap());
            let goal = w.lib.goals().into_iter().find(|g| Some(&g.module) == q.target.as_ref() && g.lines.0 + 1 == cmd.lines.unwrap().0);
            let mine = goal.and_then(|g| {
                certs.iter().find(|(k, l)| k.ends_with(&own) && serde_json::from_str::<Value>(l).map_or(false, |v| v["goal"] == json!(g.name)))
            });
            let l = match mine {
                Some((_, l)) if cmd.pick % 2 == 0 => l.clone(),
                _ => certs[(cmd.pick / 2) as usize % certs.len()].1.clone(),
            };
            let mut l = l;
            if !cmd.truth {
                // What cannot be read proves nothing.
                if let Ok(mut v) = serde_json::from_str::<Value>(&l) {
                    v["proof"] = json!(["this is not a step"]);
                    l = v.to_string();
                }
            }
            cmd.args.push(l);
        }
        w.fs.put(&format!("{OUT}/_category_.json"), b"{}");
        let before = copy(&w.fs);
        let mut p = crate::cli::acorn(copy(&w.fs), fp, &w.sched(slot), &cmd.dir, &cmd.args, cmd.stdin.as_deref().unwrap_or(""));
        w.rep.add(slot, &p);
        let text = std::mem::take(&mut p.text);
        w.fs = std::mem::take(&mut p.fs);
        w.fs.plan = FsPlan::default();
        for k in w.fs.files(OUT).keys() {
            w.fs.del(&format!("{OUT}/{k}"));
        }
        let how = cmd.show();
        if std::env::var_os("SIM_SHOW").is_some() {
            println!("== {how} {:?} {:?}\n{text}", p.fired, p.out);
        }
        let hurt = !p.fired.is_empty();
        match &p.out {
            Out::Stuck(m) => w.fail("stuck", format!("no progress: {m} (in {how}, faults {:?})", p.fired)),
            Out::Died(m) => w.fail("died", format!("died: {m} (in {how}, faults {:?})", p.fired)),
            Out::Panicked(m) if !hurt => w.fail("panic", format!("panicked: {m} (in {how})")),
            _ => {}
        }
        let Some(exit) = exit_of(&p) else { return };
        w.rep.probe(&format!("{} exit {exit}", cmd.kind));
        w.rep.nontrivial = true;
        let panic = p.done().unwrap()["panic"].as_str().unwrap_or("").to_string();
        if exit == 101 && !hurt {
            w.fail("crash", format!("{how} ends in a panic: {panic}"));
            return;
        }
        let tail: String = text.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
        if exit != 0 && exit != 1 && !(exit == 2 && cmd.kind == "wrong") && !hurt {
            w.fail("status", format!("{how} ends with status {exit}: {tail}"));
        }
        let same = kept(&before) == kept(&w.fs);
        if sources(&before) != sources(&w.fs) {
            w.fail("sources", format!("{how} changed the sources"));
        }
        let reads = cmd.kind != "build" && cmd.kind != "piped" || q.read_only || q.mode == "check" || cmd.lines.is_some();
        if reads && !same {
            let (x, y) = (kept(&before), kept(&w.fs));
            let k: Vec<&String> = x.keys().chain(y.keys()).filter(|k| x.get(*k) != y.get(*k)).collect();
            // A single claim that was found to hold may be stored.
            if cmd.lines.is_none() || q.read_only || q.mode == "check" {
                w.fail("changed", format!("{how} changed {:?}", k.first()));
            }
        }
        match cmd.kind.as_str() {
            "wrong" => {
                if exit == 0 && !hurt {
                    w.fail("accepted", format!("{how} makes no sense but ends with status 0: {tail}"));
                }
            }
            "list" => {
                if hurt {
                    return;
                }
                let want: Vec<String> = w.lib.files().keys().map(|f| module_of(f)).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
                let got: Vec<String> = text.lines().map(|l| l.to_string()).filter(|l| !l.is_empty()).collect();
                if exit != 0 || got != want {
                    w.fail("list", format!("{how} ends with status {exit} and lists {got:?}; the modules are {want:?}"));
                }
            }
            "look" => {
                let all = w.lib.modules.iter().all(|m| !w.lib.fails_to_load(m));
                let sub = cmd.args.iter().find(|a| ["citations", "docs", "export", "eval", "lint", "select", "simplify"].contains(&a.as_str())).unwrap().as_str();
                if all && exit != 0 && !hurt && ["citations", "docs", "export", "eval"].contains(&sub) {
                    w.fail("look", format!("every module loads but {how} ends with status {exit}: {tail}"));
                }
                if !all && exit == 0 && ["citations", "export"].contains(&sub) && w.lib.modules.iter().any(|m| !m.iface && w.lib.fails_to_load(m)) {
                    w.fail("look-broken", format!("a module does not load but {how} ends with status 0"));
                }
            }
            "cert" => {
                let t = q.target.as_ref().unwrap();
                if exit == 0 && !cmd.truth {
                    w.fail("cert", format!("{how} ends with status 0, with a proof that has one step, which is none"));
                }
                let bad = unprovable(&w.lib).into_iter().find(|g| g.module == *t && g.lines.0 + 1 == cmd.lines.unwrap().0);
                if let (0, Some(g)) = (exit, bad) {
                    w.fail("cert", format!("claim {} of {t} is false but {how} ends with status 0", g.name));
                }
            }
            "piped" => {
                let names = match &q.target {
                    Some(t) => {
                        let mut v = w.lib.deps(t);
                        v.push(t.clone());
                        v
                    }
                    None => w.lib.modules.iter().filter(|m| m.name == "prelude").map(|m| m.name.clone()).collect(),
                };
                let loads = names.iter().all(|n| w.lib.module(n).map_or(true, |m| !w.lib.fails_to_load(m)));
                let sound = loads && w.lib.goals().iter().all(|g| g.truth || !names.contains(&g.module));
                if exit == 0 && (!cmd.truth && sound || q.target.is_some() && !unprovable_in(&w.lib, &names).is_empty() && unprovable_in(&w.lib, &names).iter().any(|g| Some(&g.module) == q.target.as_ref())) {
                    w.fail("piped-false", format!("{how} ends with status 0 although a claim is false: {:?}", cmd.stdin));
                }
                if exit != 0 && sound && cmd.truth && !hurt {
                    w.fail("piped-true", format!("every claim holds but {how} ends with status {exit}: {tail}"));
                }
            }
            _ => self.built(w, &cmd, &q, exit, &text, hurt, before, &how),
        }
    }

    fn built(&self, w: &mut World, cmd: &Cmd, q: &Req, exit: i64, text: &str, hurt: bool, before: crate::fs::MemFs, how: &str) {
        let mut o = Outcome { status: if exit == 0 { "Good" } else { "Warning" }.into(), diags: complaints(text), ..Default::default() };
        let n = w.lib.goals().len() as i64;
        for k in ["goals_total", "goals_done", "goals_success"] {
            o.n.insert(k.into(), n);
        }
        // One claim.
        if let (0, Some((a, b))) = (exit, cmd.lines) {
            let t = q.target.as_ref().unwrap();
            if let Some(g) = unprovable(&w.lib).into_iter().find(|g| g.module == *t && (a..=b).contains(&(g.lines.0 + 1))) {
                w.fail("line-false", format!("claim {} of {t} is false but {how} ends with status 0", g.name));
            }
        }
        if hurt || cmd.limited {
            return w.judge_soundness(q, &o);
        }
        if q.strict {
            w.judge_soundness(q, &o);
        } else {
            w.judge(q, &o);
        }
        if w.failed() || cmd.lines.map_or(false, |(a, b)| a != b) {
            return;
        }
        // The same by other means.
        let p = tool(before, &FsPlan::default(), &Sched { hash_seed: 5, ..Sched::default() }, q);
        let Some(m) = Outcome::of(&p) else { return };
        if std::env::var_os("SIM_SHOW").is_some() {
            println!("== {}\n{}", show_req(q), p.text);
        }
        if m.good() != (exit == 0) {
            w.fail("exit", format!("{how} ends with status {exit} but the build is {}: {:?} {:?}", m.class(), m.err, m.diags));
        } else if m.class() != "Error" && !q.exit_on_warning {
            let key = |d: &Diag| (d.module.strip_suffix(".interface").unwrap_or(&d.module).to_string(), d.a);
            let mut x: Vec<_> = m.diags.iter().map(key).collect();
            let mut y: Vec<_> = o.diags.iter().map(key).collect();
            x.sort();
            x.dedup();
            y.sort();
            y.dedup();
            if x != y {
                w.fail("told", format!("{how} prints complaints at {y:?}; the build makes them at {x:?}"));
            }
            let searches = text.split(" searches performed").next().filter(|t| t.len() < text.len()).and_then(|t| t.rsplit(|c: char| !c.is_ascii_digit()).next()?.parse::<i64>().ok());
            let want = m.n.get("searches_total").copied();
            if searches.is_some() && want.is_some() && searches != want {
                w.fail("searches", format!("{how} says that it made {searches:?} searches; the build makes {want:?}"));
            }
            let (a, b) = (kept(&w.fs), kept(&p.fs));
            if let Some(k) = a.keys().chain(b.keys()).find(|k| a.get(*k) != b.get(*k)) {
                w.fail("files", format!("after {how}, {k} differs from what the build leaves"));
            }
        }
    }
}

impl Scenario for Lines {
    fn property(&self) -> &'static str {
        "P24"
    }
    fn rule(&self) -> &'static str {
        "a run is a random project and a history of edits and command lines of the real program's own main function (verify, check, list, select, lint, citations, docs, export, eval, misuse, claims from standard input, proofs given on the command line; options in any order, from several directories, by module name, file, line or range), some hit by disk faults, kills, a closed output or threads that cannot start; the exit status, the printed complaints and the files left behind must agree with the model of which claims hold and with a second build by other means; non-trivial when a command line ran to its end"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 20000 } else { 500 }
    }
    fn real_components(&self) -> &'static str {
        "src/bin/acorn.rs (its main function, arguments to exit status, on the real tokio runtime and argument parser) and everything below it; the disk, clock, threads, entropy, signals and the neural network runtime are simulated"
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 4);
        let falses = *r.pick(&[0.0, 0.0, 0.05, 0.1]);
        let lib = Library::random(&mut r, n, falses);
        let mut l = lib.clone();
        let mut ops = vec![];
        for _ in 0..r.range(2, 6) {
            let n = *r.pick(&[0, 0, 1, 2]);
            some_edits(&mut r, &mut l, n, &mut ops);
            if r.chance(0.06) && !l.modules.is_empty() {
                // A project that is right, but for what only a strict check minds.
                let e = crate::lib_ac::Edit::Axiom { module: r.below(l.modules.len() as u64) as usize, n: r.below(10000) as u32 };
                if l.apply(&e) {
                    ops.push(Op::Edit(e));
                }
                let (dir, args, _) = place(&mut r);
                let typed = |more: &[&str]| {
                    let mut a = args.clone();
                    a.extend(strs(more));
                    a
                };
                let full = Req { handcrafted: false, ..Req::verify(1) };
                let check = Req { handcrafted: false, strict: true, ..Req::check(1) };
                let acts = ACTIVATIONS.to_string();
                for cmd in [
                    Cmd { kind: "build".into(), dir: dir.clone(), args: typed(&["verify", "--activations", &acts]), req: Some(full), ..Default::default() },
                    Cmd { kind: "build".into(), dir: dir.clone(), args: typed(&["check", "--strict"]), req: Some(check), ..Default::default() },
                ] {
                    ops.push(Op::Cli { cmd, slot: 0, fs: FsPlan::default() });
                }
            }
            let mut cmd = match r.below(20) {
                0..=9 => build(&mut r, &l),
                10..=13 => look(&mut r, &l),
                14 | 15 => wrong(&mut r, &l),
                16 | 17 => piped(&mut r, &l),
                _ => match cert(&mut r, &l) {
                    Some(c) => c,
                    None => build(&mut r, &l),
                },
            };
            let mut fs = FsPlan { readdir_seed: r.next() >> 1, ..Default::default() };
            if r.chance(0.25) {
                let fault = match r.below(8) {
                    0 | 1 => Fault { class: "out".into(), nth: r.range(1, 9), act: r.pick(&["epipe", "eio", "enospc"]).to_string(), repeat: *r.pick(&[0, 1000, 1_000_000]), path: String::new(), param: 0 },
                    // The first threads are those the program cannot do without.
                    2 => Fault { class: "thread".into(), nth: r.range(2, 14), act: "eagain".into(), repeat: *r.pick(&[0, 1, 1000]), path: String::new(), param: 0 },
                    3 | 4 => read_fault(&mut r, &l),
                    _ => write_fault(&mut r, n + 2, &["kill", "power", "eio", "enospc", "eacces", "eintr", "short"]),
                };
                fs.faults.push(fault);
            }
            if cmd.dir.is_empty() {
                cmd.dir = ROOT.into();
            }
            ops.push(Op::Cli { cmd, slot: 0, fs });
        }
        let jobs = [r.range(1, 4), r.range(1, 4), r.range(1, 4)];
        plan_of(&mut r, &lib, ops, 3, json!({"jobs": jobs}))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        for op in ops(plan) {
            match op {
                Op::Edit(e) => drop(w.edit(&e)),
                Op::Cli { cmd, slot, fs } => self.act(&mut w, &cmd, slot, &fs),
                _ => {}
            }
            if w.failed() {
                return w.finish(None);
            }
        }
        let o = w.final_check(plan, false);
        w.finish(o.as_ref())
    }
}
