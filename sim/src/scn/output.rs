//! P15: exports, documentation and search traces that are reported as written are complete.
use super::common::*;
use super::world::*;
use crate::fs::{Fault, FsPlan, MemFs};
use crate::harness::*;
use crate::lib_ac::Library;
use crate::rt::{Rng, Sched};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const OUT: &str = "/sim/out";

pub struct Output;

/// What is asked for.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
struct Ask {
    /// export, docs or trace
    kind: String,
    jobs: usize,
    pretty: bool,
    annotations: bool,
    deps: bool,
    elaborated: bool,
    /// Rows per file of a trace.
    shard: Option<usize>,
    module: Option<String>,
}

/// The command line.
fn typed(a: &Ask) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut add = |x: &[&str]| v.extend(x.iter().map(|s| s.to_string()));
    match a.kind.as_str() {
        "docs" => add(&["docs", OUT]),
        "trace" => {
            add(&["eval", "--policy", "handcrafted", "--activations", &ACTIVATIONS.to_string(), "--jobs", &a.jobs.to_string()]);
            add(&["--trace-out", &format!("{OUT}/t.jsonl.zst")]);
            if let Some(n) = a.shard {
                add(&["--trace-shard-rows", &n.to_string()]);
            }
            if let Some(m) = &a.module {
                add(&[m]);
            }
        }
        _ => {
            add(&["export", "--output-dir", OUT]);
            for (b, o) in [(a.pretty, "--pretty"), (a.annotations, "--type-annotations"), (a.deps, "--proof-deps"), (a.elaborated, "--elaborated")] {
                if b {
                    add(&[o]);
                }
            }
            if let Some(m) = &a.module {
                add(&["--module", m]);
            }
        }
    }
    v
}

/// Sources with something to document.
fn extra_sources(r: &mut Rng, n: u64) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for i in 0..n {
        let mut s = String::from("from base import Tok\n");
        for j in 0..r.range(1, 3) {
            let id = format!("{i}x{j}");
            let t = format!("Pair{id}");
            s += &format!("\n/// {}\nstructure {t} {{\n    /// The first of both.\n    left: Tok\n    right: Tok\n}}\n", "A pair of things. ".repeat(r.range(1, 8) as usize));
            s += &format!("\nattributes {t} {{\n");
            for k in 0..r.range(1, 4) {
                if r.chance(0.7) {
                    s += &format!("    /// {}\n", "Turned around. ".repeat(r.range(1, 20) as usize));
                }
                s += &format!("    define swap{k}(self) -> {t} {{\n        {t}.new(self.right, self.left)\n    }}\n");
            }
            s += "}\n";
            s += &format!("\ntheorem twice{id}(p: {t}) {{\n    p.swap0.swap0 = p\n}} by {{\n    p.swap0.left = p.right\n    p.swap0.right = p.left\n}}\n");
            if r.chance(0.6) {
                let c = format!("Marked{id}");
                s += &format!("\n/// Things with a mark.\ntypeclass M: {c} {{\n    /// The mark.\n    mark: M -> Tok\n    same(x: M, y: M) {{\n        x = y implies x.mark = y.mark\n    }}\n}}\n");
            }
        }
        m.insert(format!("src/x{i}.ac"), s);
    }
    m
}

fn with_extra(fs: &mut MemFs, plan: &Value) {
    let m: BTreeMap<String, String> = serde_json::from_value(plan["more"].clone()).unwrap();
    for (k, v) in m {
        fs.put(&format!("{ROOT}/{k}"), v.as_bytes());
    }
}

fn empty_out(fs: &mut MemFs) {
    fs.del(OUT);
    fs.put(&format!("{OUT}/_category_.json"), b"{}");
}

/// All rows of a trace, sorted; or what is wrong with a file.
fn rows(files: &BTreeMap<String, Vec<u8>>) -> Result<Vec<String>, String> {
    let mut v = vec![];
    for (k, d) in files {
        if !k.ends_with(".jsonl.zst") {
            continue;
        }
        let text = zstd::decode_all(&d[..]).map_err(|e| format!("{k} cannot be read: {e}"))?;
        let text = String::from_utf8(text).map_err(|_| format!("{k} is not text"))?;
        if !text.is_empty() && !text.ends_with('\n') {
            return Err(format!("{k} ends in the middle of a row"));
        }
        for l in text.lines() {
            if serde_json::from_str::<Value>(l).is_err() {
                return Err(format!("{k} has a row that cannot be read: {l}"));
            }
            v.push(l.to_string());
        }
        let meta = k.replace(".jsonl.zst", ".meta.json");
        match files.get(&meta).map(|d| serde_json::from_slice::<Value>(d)) {
            Some(Ok(_)) => {}
            _ => return Err(format!("{meta} is missing or cannot be read")),
        }
    }
    v.sort();
    Ok(v)
}

/// How `have` falls short of `want`.
fn short(a: &Ask, want: &BTreeMap<String, Vec<u8>>, have: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    if a.kind == "trace" {
        let w = rows(want).unwrap_or_default();
        return match rows(have) {
            Err(m) => Some(m),
            Ok(h) if h.len() != w.len() => Some(format!("the trace has {} rows instead of {}", h.len(), w.len())),
            Ok(h) => h.iter().zip(&w).find(|(x, y)| x != y).map(|(x, y)| format!("a row of the trace is\n{x}\ninstead of\n{y}")),
        };
    }
    for (k, v) in want {
        match have.get(k) {
            None => return Some(format!("{k} is missing")),
            Some(h) if h != v => {
                let at = h.iter().zip(v).take_while(|(x, y)| x == y).count();
                let t = |d: &[u8]| String::from_utf8_lossy(&d[at.min(d.len())..(at + 80).min(d.len())]).into_owned();
                return Some(format!("{k} has {} bytes instead of {} and differs from byte {at} on: {:?} instead of {:?}", h.len(), v.len(), t(h), t(v)));
            }
            _ => {}
        }
    }
    if a.kind == "docs" {
        return have.keys().find(|k| !want.contains_key(*k)).map(|k| format!("{k} documents nothing"));
    }
    None
}

impl Scenario for Output {
    fn property(&self) -> &'static str {
        "P15"
    }
    fn rule(&self) -> &'static str {
        "a run is a random project with documented types, perhaps verified before, from which an export, the documentation or the search trace of an evaluation with 1-5 workers is made, perhaps over older output, while writes fail or come short, the disk fills up, reads fail or the process is killed; whenever the command succeeds its output has to be what an undisturbed run with one worker produces elsewhere, and an undisturbed run afterwards has to succeed with the same; non-trivial when a fault struck or several workers wrote one trace"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 30000 } else { 900 }
    }
    fn real_components(&self) -> &'static str {
        "src/bin/acorn.rs (its main function) with the exporter, the documentation generator, the evaluation and its trace writer, and everything below them; the disk, clock, threads and entropy are simulated"
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 4);
        let lib = Library::random(&mut r, n, *Rng::new(seed ^ 1).pick(&[0.0, 0.0, 0.05]));
        let mut ops = vec![];
        if r.chance(0.4) {
            ops.push(Op::Run { req: Req::verify(r.range(1, 3) as usize), slot: 0, fs: FsPlan::default() });
        }
        let kind = r.pick(&["export", "export", "docs", "trace"]).to_string();
        let module = if kind != "docs" && r.chance(0.2) { target(&mut r, &lib) } else { None };
        let ask = Ask {
            jobs: r.range(1, 5) as usize,
            pretty: r.chance(0.3),
            annotations: r.chance(0.5),
            deps: r.chance(0.5),
            elaborated: r.chance(0.5),
            shard: if r.chance(0.4) { Some(r.range(1, 40) as usize) } else { None },
            module,
            kind,
        };
        let mut fs = FsPlan { readdir_seed: r.next() >> 1, ..Default::default() };
        for _ in 0..*r.pick(&[0, 1, 1, 1, 2]) {
            let act = r.pick(&["kill", "eio", "eio", "enospc", "enospc", "short", "eintr"]).to_string();
            fs.faults.push(Fault {
                class: "mut".into(),
                nth: r.log_range(1, 60),
                path: r.pick(&["/out", "/out", "index", "meta", ""]).to_string(),
                param: r.next() >> 16,
                repeat: if act == "enospc" || act == "eio" { *r.pick(&[0, 0, 1, 1000]) } else { 0 },
                act,
            });
        }
        if r.chance(0.15) {
            fs.disk_free = Some(r.log_range(1, 20_000));
        }
        if ask.kind != "trace" && r.chance(0.3) {
            fs.faults.push(read_fault(&mut r, &lib));
        }
        let nx = if ask.kind == "trace" { r.range(0, 1) } else { r.range(1, 3) };
        let mut more = extra_sources(&mut r, nx);
        if lib.prelude {
            more.values_mut().for_each(|t| *t = t.replace("from base import Tok\n", ""));
        }
        let before = r.chance(0.4);
        let mut p = plan_of(&mut r, &lib, ops, 4, json!({"ask": ask, "fs": fs, "more": more, "before": before}));
        let a = extra(&p, 1);
        p["scheds"][a] = serde_json::to_value(Sched { hash_seed: 1, ..Sched::default() }).unwrap();
        p
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        with_extra(&mut w.fs, plan);
        for op in ops(plan) {
            if let Op::Run { req, slot, fs } = op {
                w.run(slot, &req, &fs);
            }
        }
        let ask: Ask = serde_json::from_value(plan["ask"].clone()).unwrap();
        if w.failed() || ask.module.as_ref().map_or(false, |t| w.lib.module(t).is_none()) {
            return w.finish(None);
        }
        empty_out(&mut w.fs);
        let show = std::env::var_os("SIM_SHOW").is_some();
        let mut go = |w: &mut World, slot: usize, a: &Ask, fp: &FsPlan, from: &MemFs| -> Phase {
            let mut p = crate::cli::acorn(copy(from), fp, &w.sched(slot), &format!("{ROOT}/src"), &typed(a), "");
            w.rep.add(slot, &p);
            match &p.out {
                Out::Stuck(m) => w.fail("stuck", format!("the command makes no progress: {m} (faults {:?})", p.fired)),
                Out::Died(m) => w.fail("died", format!("the command died: {m} (faults {:?})", p.fired)),
                Out::Panicked(m) if p.fired.is_empty() && fp.disk_free.is_none() => w.fail("panic", format!("the command panicked: {m}")),
                Out::Done(v) if v["exit"] == json!(101) && p.fired.is_empty() && fp.disk_free.is_none() => w.fail("panic", format!("the command panicked: {}", v["panic"])),
                _ => {}
            }
            p.fs.plan = FsPlan::default();
            if show {
                println!("== {:?} {:?} {:?}\n{}", p.out, p.fired, p.fs.files(OUT).iter().map(|(k, v)| (k.clone(), v.len())).collect::<Vec<_>>(), p.text);
            }
            p
        };
        let base = copy(&w.fs);
        // Older output, of the project without the documented types.
        let mut start = copy(&base);
        if plan["before"] == json!(true) {
            let mut old = copy(&base);
            let m: BTreeMap<String, String> = serde_json::from_value(plan["more"].clone()).unwrap();
            let gone = m.keys().next().cloned();
            for k in m.keys() {
                if Some(k) != gone.as_ref() {
                    old.del(&format!("{ROOT}/{k}"));
                }
            }
            let p = go(&mut w, extra(plan, 0), &Ask { jobs: 1, ..ask.clone() }, &FsPlan::default(), &old);
            for (k, v) in p.fs.files(OUT) {
                start.put(&format!("{OUT}/{k}"), &v);
            }
            if ask.kind == "docs" {
                start.put(&format!("{OUT}/Gone.md"), b"of a type that is no more\n");
            }
        }
        // What an undisturbed run writes.
        let good = go(&mut w, extra(plan, 1), &Ask { jobs: 1, ..ask.clone() }, &FsPlan::default(), &base);
        let ok = |p: &Phase| p.done().map_or(false, |v| v["exit"] == json!(0));
        w.rep.probe(&format!("{} {}", ask.kind, if ok(&good) { "possible" } else { "refused" }));
        if w.failed() || !ok(&good) {
            if let (true, Some(v)) = (show, good.done()) {
                println!("{v}");
            }
            return w.finish(None);
        }
        let want = good.fs.files(OUT);
        if ask.kind == "trace" {
            if let Err(m) = rows(&want) {
                w.fail("torn", format!("an undisturbed evaluation succeeded, but {m}"));
            }
        }
        let fp: FsPlan = serde_json::from_value(plan["fs"].clone()).unwrap();
        let hit = go(&mut w, extra(plan, 2), &ask, &fp, &start);
        if !hit.fired.is_empty() || ask.kind == "trace" && ask.jobs > 1 {
            w.rep.nontrivial = true;
        }
        if !hit.fired.is_empty() {
            w.rep.probe(&format!("{} under faults: {}", ask.kind, if ok(&hit) { "succeeded" } else { "failed" }));
        }
        if ok(&hit) {
            if let Some(m) = short(&ask, &want, &hit.fs.files(OUT)) {
                w.fail("short", format!("the {} command succeeded (faults {:?}), but {m}", ask.kind, hit.fired));
            }
        } else if hit.fired.is_empty() && fp.disk_free.is_none() {
            w.fail("refused", format!("the {} command failed undisturbed: {:?}", ask.kind, hit.out));
        }
        if w.failed() {
            return w.finish(None);
        }
        let last = go(&mut w, extra(plan, 3), &ask, &FsPlan::default(), &hit.fs);
        if !ok(&last) {
            w.fail("refused", format!("the {} command failed undisturbed, after one that met {:?}: {:?}", ask.kind, hit.fired, last.out));
        } else if ask.kind != "trace" || ask.shard.is_none() {
            if let Some(m) = short(&ask, &want, &last.fs.files(OUT)) {
                w.fail("after", format!("the {} command succeeded undisturbed, after one that met {:?}, but {m}", ask.kind, hit.fired));
            }
        }
        w.finish(None)
    }
}
