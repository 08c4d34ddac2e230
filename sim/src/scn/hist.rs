//! Properties of whole histories: edits, runs, crashes, faults, concurrent editors and
//! processes.
use super::common::*;
use super::world::*;
use crate::fs::FsPlan;
use crate::harness::*;
use crate::lib_ac::Library;
use crate::rt::Rng;
use serde_json::{json, Value};

pub const REAL: &str = "verifier, builder (serial, batched and pipelined), project loader, build cache, manifests, certificate store, tokenizer, parser, elaborator, prover, certificate checker: all of /repo's library as built from the working tree";

// ---------------------------------------------------------------------------------------
/// P03: whatever the history of edits and runs, a run reports the truth about the sources.
pub struct Incremental;

impl Scenario for Incremental {
    fn property(&self) -> &'static str {
        "P03"
    }
    fn rule(&self) -> &'static str {
        "a run is a random project and a history of 2-5 rounds of edits and tool runs (full, one module, one line, ignoring hashes, forcing search, fail-fast, check; 1-6 workers; random schedules), each outcome held against the model's idea of which claims are true; non-trivial when some run after the first skipped or replayed cached modules"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 20000 } else { 600 }
    }
    fn real_components(&self) -> &'static str {
        REAL
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(2, 5);
        let wrong = *r.pick(&[0.0, 0.0, 0.05, 0.15]);
        let lib = Library::random(&mut r, n, wrong);
        let mut l = lib.clone();
        let mut ops = vec![];
        ops.push(Op::Run { req: rand_verify(&mut r, &l), slot: 0, fs: FsPlan::default() });
        for _ in 0..r.range(2, 5) {
            let n = r.range(1, 3);
            some_edits(&mut r, &mut l, n, &mut ops);
            for _ in 0..r.range(1, 2) {
                let fs = FsPlan { readdir_seed: r.next() >> 1, ..Default::default() };
                ops.push(Op::Run { req: rand_verify(&mut r, &l), slot: 0, fs });
            }
        }
        ops.push(Op::Run { req: Req::verify(r.range(1, 4) as usize), slot: 0, fs: FsPlan::default() });
        plan_of(&mut r, &lib, ops, 0, json!({}))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        let mut last = None;
        for op in ops(plan) {
            match op {
                Op::Edit(e) => drop(w.edit(&e)),
                Op::Run { req, slot, fs } => {
                    if req.target.as_ref().map_or(false, |t| w.lib.module(t).is_none()) {
                        continue;
                    }
                    let (_, o) = w.run(slot, &req, &fs);
                    if let Some(o) = o {
                        w.judge(&req, &o);
                        if o.n.get("modules_cached").map_or(false, |n| *n > 0) {
                            w.rep.probe("run skipped unchanged modules");
                            w.rep.nontrivial = true;
                        }
                        if o.n.get("certs_cached").map_or(false, |n| *n > 0) {
                            w.rep.nontrivial = true;
                        }
                        w.rep.probe(&format!("status {}", o.status));
                        last = Some(o);
                    }
                }
                _ => {}
            }
            if w.failed() {
                break;
            }
        }
        w.finish(last.as_ref())
    }
}

fn crash_ops(r: &mut Rng, l: &mut Library, acts: &[&str]) -> Vec<Op> {
    let mut ops = vec![];
    if r.chance(0.6) {
        ops.push(Op::Run { req: Req::verify(r.range(1, 4) as usize), slot: 0, fs: FsPlan::default() });
    }
    for _ in 0..r.range(1, 3) {
        let n = r.range(0, 2);
        some_edits(r, l, n, &mut ops);
        let mut fs = FsPlan { readdir_seed: r.next() >> 1, ..Default::default() };
        let n = l.modules.len() as u64;
        match r.below(8) {
            0 => fs.power_at_end = Some(r.next() >> 8),
            1 => {
                fs.disk_free = Some(r.below(3000));
            }
            _ => fs.faults.push(write_fault(r, n, acts)),
        }
        let mut req = rand_verify(r, l);
        if req.mode == "check" {
            req.mode = "verify".into();
        }
        ops.push(Op::Run { req, slot: 0, fs });
    }
    let n = r.range(0, 1);
    some_edits(r, l, n, &mut ops);
    ops
}

// ---------------------------------------------------------------------------------------
/// P01: a crash or failed write at any point costs at most repeated work.
pub struct CrashSafe;

impl Scenario for CrashSafe {
    fn property(&self) -> &'static str {
        "P01"
    }
    fn rule(&self) -> &'static str {
        "a run is a random project and a history of edits and tool runs, 1-3 of which are killed, lose power (unsynced data and names lost or torn), run out of space or have writes fail at a random file operation; then an undisturbed verify is held against the model and, if good, a check without proof search must pass; non-trivial when a fault or crash actually happened"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 20000 } else { 700 }
    }
    fn real_components(&self) -> &'static str {
        REAL
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 5);
        let wrong = *r.pick(&[0.0, 0.0, 0.1]);
        let lib = Library::random(&mut r, n, wrong);
        let mut l = lib.clone();
        let acts = ["kill", "kill", "power", "power", "power", "eio", "enospc", "short", "eintr", "eacces", "erofs"];
        let ops = crash_ops(&mut r, &mut l, &acts);
        let jobs = [r.range(1, 4), r.range(1, 4), r.range(1, 4)];
        plan_of(&mut r, &lib, ops, 3, json!({"jobs": jobs}))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        for op in ops(plan) {
            match op {
                Op::Edit(e) => drop(w.edit(&e)),
                Op::Run { req, slot, fs } => {
                    if req.target.as_ref().map_or(false, |t| w.lib.module(t).is_none()) {
                        continue;
                    }
                    let (p, o) = w.run_faulty(slot, &req, &fs);
                    if !p.fired.is_empty() {
                        w.rep.nontrivial = true;
                    }
                    if let Some(o) = o {
                        w.judge_soundness(&req, &o);
                    }
                }
                _ => {}
            }
            if w.failed() {
                return w.finish(None);
            }
        }
        let o = w.final_check(plan, true);
        w.finish(o.as_ref())
    }
}

// ---------------------------------------------------------------------------------------
/// P02: stored certificates survive an interrupted save.
pub struct Survive;

fn is_store(p: &str) -> bool {
    p.ends_with(".jsonl") || p.ends_with("/manifest.json") || p == "manifest.json"
}

/// A manifest may also be its old self without some of its entries for modules: it then vouches
/// for less, and those modules are verified again.
fn only_forgets(now: Option<&Vec<u8>>, old: Option<&Vec<u8>>) -> bool {
    let get = |b: Option<&Vec<u8>>| -> Option<Value> { serde_json::from_slice(b?).ok() };
    let (Some(now), Some(mut old)) = (get(now), get(old)) else { return false };
    for k in ["implementation", "checked_against"] {
        let kept: Vec<String> = now[k].as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
        if let Some(o) = old[k].as_object_mut() {
            o.retain(|key, _| kept.contains(key));
            if o.is_empty() && now.get(k).is_none() {
                old.as_object_mut().unwrap().remove(k);
            }
        }
    }
    now == old
}

impl Scenario for Survive {
    fn property(&self) -> &'static str {
        "P02"
    }
    fn rule(&self) -> &'static str {
        "a run builds a random project, edits it, then performs the next tool run twice from the same disk and schedule: undisturbed, and with a kill, power loss, write error, full disk or short write at a random file operation; every stored certificate file and manifest must hold either its old or its complete new content, and modules whose sources did not change must still pass a check without search if they did before; non-trivial when the fault happened after the first stored file was touched"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 20000 } else { 700 }
    }
    fn real_components(&self) -> &'static str {
        REAL
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 5);
        let wrong = *r.pick(&[0.0, 0.0, 0.1]);
        let lib = Library::random(&mut r, n, wrong);
        let mut l = lib.clone();
        let mut ops = vec![Op::Run { req: Req::verify(r.range(1, 4) as usize), slot: 0, fs: FsPlan::default() }];
        let n = r.range(1, 3);
        some_edits(&mut r, &mut l, n, &mut ops);
        let mut fs = FsPlan { readdir_seed: r.next() >> 1, ..Default::default() };
        let n = l.modules.len() as u64;
        match r.below(10) {
            0 => fs.power_at_end = Some(r.next() >> 8),
            1 | 2 => {
                fs.disk_free = Some(r.below(2000));
            }
            _ => fs.faults.push(write_fault(&mut r, n, &["kill", "kill", "power", "power", "power", "eio", "enospc", "short", "eintr", "eacces"])),
        }
        let mut req = rand_verify(&mut r, &l);
        if req.mode == "check" {
            req.mode = "verify".into();
        }
        if r.chance(0.3) {
            req.force_search = true;
        }
        ops.push(Op::Run { req, slot: 0, fs });
        plan_of(&mut r, &lib, ops, 4, json!({}))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        let ops = ops(plan);
        let mut passed_before: Vec<String> = vec![];
        let mut before = w.lib.clone();
        let mut first = true;
        for op in ops {
            match op {
                Op::Edit(e) => drop(w.edit(&e)),
                Op::Run { req, slot, fs } => {
                    if req.target.as_ref().map_or(false, |t| w.lib.module(t).is_none()) {
                        continue;
                    }
                    if first {
                        first = false;
                        w.run(slot, &req, &fs);
                        before = w.lib.clone();
                        for m in &w.lib.modules.clone() {
                            if passed_before.len() < 3 {
                                let mut q = Req::check(1);
                                q.target = Some(m.name.clone());
                                let p = w.try_run(extra(plan, 0), &q, &FsPlan::default());
                                if Outcome::of(&p).map_or(false, |o| o.good()) {
                                    passed_before.push(m.name.clone());
                                }
                            }
                        }
                        continue;
                    }
                    let old = w.fs.files(ROOT);
                    let pilot_plan = FsPlan { readdir_seed: fs.readdir_seed, ..Default::default() };
                    let pilot = w.try_run(slot, &req, &pilot_plan);
                    if let Some((k, m)) = bad_end(&pilot) {
                        w.fail(&k, m);
                        break;
                    }
                    let new = pilot.fs.files(ROOT);
                    // Faults are placed within the operations of the undisturbed run.
                    let mut fs = fs;
                    for f in &mut fs.faults {
                        let n = pilot.oplog.iter().filter(|o| o.contains(&f.path)).count() as u64;
                        f.nth = 1 + f.nth % n.max(1);
                    }
                    if let Some(d) = &mut fs.disk_free {
                        *d %= 1 + new.values().map(|d| d.len() as u64).sum::<u64>() / 2;
                    }
                    let (p, _) = w.run_faulty(slot, &req, &fs);
                    w.rep.nontrivial |= !p.fired.is_empty() && old != new;
                    let now = w.fs.files(ROOT);
                    let names: std::collections::BTreeSet<&String> = old.keys().chain(new.keys()).chain(now.keys()).filter(|n| is_store(n)).collect();
                    for n in names {
                        let c = now.get(n);
                        if c != old.get(n) && c != new.get(n) && !(n.ends_with("manifest.json") && only_forgets(c, old.get(n))) {
                            w.rep.fail(
                                if n.contains("manifest") { "torn-manifest" } else { "torn-certs" },
                                format!(
                                    "after {:?} {} holds neither its old content ({} bytes) nor its new ({}): {} bytes (in {})",
                                    p.fired,
                                    n,
                                    old.get(n).map_or(-1, |d| d.len() as i64),
                                    new.get(n).map_or(-1, |d| d.len() as i64),
                                    c.map_or(-1, |d| d.len() as i64),
                                    show_req(&req)
                                ),
                            );
                        }
                    }
                }
                _ => {}
            }
            if w.failed() {
                return w.finish(None);
            }
        }
        // What passed before and was not touched since passes still.
        for (i, n) in passed_before.iter().enumerate() {
            let same = |x: &String| match (before.module(x), w.lib.module(x)) {
                (Some(a), Some(b)) => before.render(a).0 == w.lib.render(b).0 && before.render_iface(a) == w.lib.render_iface(b),
                _ => false,
            };
            let mut all = w.lib.deps(n);
            all.push(n.clone());
            if all.iter().all(same) {
                let mut q = Req::check(1);
                q.target = Some(n.clone());
                let p = w.try_run(extra(plan, 1 + i), &q, &FsPlan::default());
                w.rep.probe("untouched module checked again");
                match Outcome::of(&p) {
                    Some(o) if o.good() => {}
                    o => {
                        w.fail("lost-proof", format!("module {n}, unchanged, passed a check before the interrupted run and now: {:?} {:?}", o.map(|o| (o.status, o.err, o.diags)), p.out));
                        break;
                    }
                }
            }
        }
        w.finish(None)
    }
}

// ---------------------------------------------------------------------------------------
/// P08: what verification records, checking accepts; and verifying again changes nothing.
pub struct RoundTrip;

impl Scenario for RoundTrip {
    fn property(&self) -> &'static str {
        "P08"
    }
    fn rule(&self) -> &'static str {
        "a run is a random project and a history of edits and verifies, after which some stored proofs or manifests may be deleted; after the last verify, under other worker counts, schedules, hash seeds and directory orders: a check must pass exactly when the verify was good and search nothing; a second verify must take everything from the cache and leave every file as it was; a verify ignoring hashes must need no search for what had a proof; non-trivial when the project has proofs that needed search"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 20000 } else { 500 }
    }
    fn real_components(&self) -> &'static str {
        REAL
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 6);
        let wrong = *r.pick(&[0.0, 0.0, 0.0, 0.1]);
        let lib = Library::random(&mut r, n, wrong);
        let mut l = lib.clone();
        let mut ops = vec![];
        for _ in 0..r.range(0, 2) {
            ops.push(Op::Run { req: rand_verify(&mut r, &l), slot: 0, fs: FsPlan::default() });
            let n = r.range(1, 2);
            some_edits(&mut r, &mut l, n, &mut ops);
        }
        let jobs: Vec<u64> = (0..4).map(|_| r.range(1, 6)).collect();
        let seeds: Vec<u64> = (0..4).map(|_| r.next() >> 1).collect();
        let force = r.chance(0.2);
        let model = r.chance(0.1);
        // Files of the tool's that the user has deleted (or not put under version control).
        let lost: Vec<u64> = if !ops.is_empty() && r.chance(0.4) { (0..r.range(1, 3)).map(|_| r.below(1000)).collect() } else { vec![] };
        plan_of(&mut r, &lib, ops, 4, json!({"jobs": jobs, "dirs": seeds, "force": force, "model": model, "lost": lost}))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        for op in ops(plan) {
            match op {
                Op::Edit(e) => drop(w.edit(&e)),
                Op::Run { req, slot, fs } => {
                    if req.target.as_ref().map_or(false, |t| w.lib.module(t).is_none()) {
                        continue;
                    }
                    w.run(slot, &req, &fs);
                }
                _ => {}
            }
        }
        for n in plan["lost"].as_array().unwrap_or(&vec![]) {
            let all: Vec<String> = w.certs().into_keys().collect();
            if !all.is_empty() {
                let f = format!("{ROOT}/src/{}", all[n.as_u64().unwrap() as usize % all.len()]);
                w.fs.del(&f);
                w.rep.probe(if f.ends_with(".jsonl") { "stored proofs deleted" } else { "manifest deleted" });
            }
        }
        let jobs: Vec<usize> = serde_json::from_value(plan["jobs"].clone()).unwrap();
        let dirs: Vec<u64> = serde_json::from_value(plan["dirs"].clone()).unwrap();
        let fsp = |i: usize| FsPlan { readdir_seed: dirs[i], ..Default::default() };
        let mut q = Req::verify(jobs[0]);
        q.force_search = plan["force"].as_bool().unwrap();
        q.handcrafted = !plan["model"].as_bool().unwrap();
        let (_, o1) = w.run(extra(plan, 0), &q, &fsp(0));
        let Some(o1) = o1 else { return w.finish(None) };
        w.judge(&q, &o1);
        if o1.err.is_some() || o1.status == "Error" || w.failed() {
            return w.finish(Some(&o1));
        }
        w.rep.nontrivial = o1.n["certs_created"] > 0 || o1.n["certs_cached"] > 0;
        let after1 = w.fs.files(ROOT);
        // The check.
        let q = Req::check(jobs[1]);
        let (_, o2) = w.run(extra(plan, 1), &q, &fsp(1));
        let Some(o2) = o2 else { return w.finish(None) };
        w.judge(&q, &o2);
        if o1.good() != o2.good() {
            w.fail("check-differs", format!("verify ended {} but the check after it {} {:?}, {:?}", o1.status, o2.status, o2.err, o2.diags));
        }
        if o2.n["searches_total"] != 0 {
            w.fail("check-searched", format!("the check performed {} searches", o2.n["searches_total"]));
        }
        if o1.good() && o1.n["goals_success"] != o2.n["goals_success"] {
            w.fail("check-count", format!("verify had {} goals succeed, the check after it {}", o1.n["goals_success"], o2.n["goals_success"]));
        }
        // Again.
        let q = Req::verify(jobs[2]);
        let (_, o3) = w.run(extra(plan, 2), &q, &fsp(2));
        let Some(o3) = o3 else { return w.finish(None) };
        w.judge(&q, &o3);
        let failing = o1.n["goals_total"] - o1.n["goals_success"];
        if o3.status != o1.status || o3.n["searches_total"] > failing || o3.n["goals_success"] < o1.n["goals_success"] {
            w.fail("second-verify", format!("verify ended {} {:?}; the same again {} {:?}", o1.status, o1.n, o3.status, o3.n));
        }
        if o1.good() && o3.n["modules_cached"] != o3.n["modules_total"] {
            w.fail("not-cached", format!("{} of {} unchanged modules were skipped by a second verify", o3.n["modules_cached"], o3.n["modules_total"]));
        }
        let diff = |a: &std::collections::BTreeMap<String, Vec<u8>>, b: &std::collections::BTreeMap<String, Vec<u8>>| -> Vec<String> {
            a.keys().chain(b.keys()).filter(|k| a.get(*k) != b.get(*k)).cloned().collect()
        };
        // After a false claim anything may be found by a search, sooner or later.
        let same = o3.n["certs_created"] == 0;
        let d = diff(&after1, &w.fs.files(ROOT));
        if same && !d.is_empty() {
            w.fail("not-idempotent", format!("a second verify changed {d:?}"));
        }
        // Ignoring hashes.
        let mut q = Req::verify(jobs[3]);
        q.ignore_hash = true;
        let (_, o4) = w.run(extra(plan, 3), &q, &fsp(3));
        let Some(o4) = o4 else { return w.finish(None) };
        w.judge(&q, &o4);
        if o4.status != o1.status || o4.n["searches_total"] > failing || o4.n["goals_success"] < o1.n["goals_success"] {
            w.fail("recheck", format!("verify ended {} {:?}; ignoring hashes {} {:?}", o1.status, o1.n, o4.status, o4.n));
        }
        let d = diff(&after1, &w.fs.files(ROOT));
        if same && o4.n["certs_created"] == 0 && !d.is_empty() {
            w.fail("recheck-changed", format!("a verify ignoring hashes changed {d:?}"));
        }
        w.finish(Some(&o1))
    }
}

// ---------------------------------------------------------------------------------------
/// P12: a text that was replaced while it was being verified is not what gets recorded.
pub struct Race;

impl Scenario for Race {
    fn property(&self) -> &'static str {
        "P12"
    }
    fn rule(&self) -> &'static str {
        "a run is a random project and 1-3 tool runs during each of which an editor, scheduled against the tool's threads, replaces sources (in place or by renaming); afterwards an undisturbed verify is held against the model of the final sources, and if good a check must pass; non-trivial when a source changed between the tool's first read and its end"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 20000 } else { 600 }
    }
    fn real_components(&self) -> &'static str {
        REAL
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 5);
        let wrong = *r.pick(&[0.0, 0.0, 0.1]);
        let lib = Library::random(&mut r, n, wrong);
        let mut l = lib.clone();
        let mut ops = vec![];
        if r.chance(0.5) {
            ops.push(Op::Run { req: Req::verify(r.range(1, 4) as usize), slot: 0, fs: FsPlan::default() });
        }
        for _ in 0..r.range(1, 3) {
            let mut req = rand_verify(&mut r, &l);
            if req.mode == "check" {
                req.mode = "verify".into();
            }
            let mut edits = vec![];
            for _ in 0..r.range(1, 4) {
                let e = l.random_edit(&mut r);
                if l.apply(&e) {
                    edits.push((r.next() >> 1, e));
                }
            }
            ops.push(Op::Race { req, slot: 0, edits, atomic: r.chance(0.5), seed: r.next() >> 1 });
        }
        let jobs = [r.range(1, 4), r.range(1, 4), r.range(1, 4)];
        plan_of(&mut r, &lib, ops, 3, json!({"jobs": jobs}))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        for op in ops(plan) {
            match op {
                Op::Edit(e) => drop(w.edit(&e)),
                Op::Run { req, slot, fs } => drop(w.run(slot, &req, &fs)),
                Op::Cli { .. } => {}
                Op::Race { req, slot, edits, atomic, seed } => {
                    let gone = req.target.as_ref().map_or(false, |t| w.lib.module(t).is_none());
                    let mut before = w.lib.clone();
                    if !gone {
                        let mut p = race(copy(&w.fs), &w.sched(slot), &req, &w.lib, &edits, atomic, seed);
                        w.rep.add(slot, &p);
                        if let Some((k, m)) = bad_end(&p) {
                            w.fail(&k, format!("{m} (in {} while sources changed)", show_req(&req)));
                        }
                        w.rep.nontrivial |= !edits.is_empty();
                        w.fs = std::mem::take(&mut p.fs);
                        w.fs.plan = FsPlan::default();
                    }
                    for (_, e) in &edits {
                        before.apply(e);
                    }
                    w.lib = before;
                    put_lib(&mut w.fs, &w.lib);
                }
            }
            if w.failed() {
                return w.finish(None);
            }
        }
        let o = w.final_check(plan, false);
        w.finish(o.as_ref())
    }
}

// ---------------------------------------------------------------------------------------
/// P16: the tool keeps its hands off what users wrote.
pub struct UserFiles;

fn strip_version(t: &str) -> Vec<String> {
    t.lines()
        .filter_map(|l| {
            if l.trim_start().starts_with("project_format_version") {
                l.find('#').map(|i| l[i..].to_string())
            } else {
                Some(l.to_string())
            }
        })
        .collect()
}

impl Scenario for UserFiles {
    fn property(&self) -> &'static str {
        "P16"
    }
    fn rule(&self) -> &'static str {
        "a run is a random project with hand-written files of other kinds beside the sources and a hand-formatted project file of the current, an older or no format version; edits and tool runs follow, most of them killed, losing power, out of space or with failing reads and writes; after every run all sources and other files must be byte for byte what the user wrote, and the project file too except for the version number; non-trivial when a fault happened or the project file was rewritten"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 20000 } else { 700 }
    }
    fn real_components(&self) -> &'static str {
        REAL
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 4);
        let lib = Library::random(&mut r, n, 0.05);
        let mut l = lib.clone();
        let acts = ["kill", "power", "power", "eio", "enospc", "short", "eintr", "eacces", "erofs"];
        let mut ops = crash_ops(&mut r, &mut l, &acts);
        for o in &mut ops {
            if let Op::Run { req, fs, .. } = o {
                req.update_version = r.chance(0.6);
                if r.chance(0.4) {
                    let n = l.modules.len() as u64;
                    let mut f = read_fault(&mut r, &l);
                    if r.chance(0.4) {
                        f.path = "acorn.toml".into();
                        f.nth = r.range(1, 8);
                    }
                    fs.faults.push(f);
                }
            }
        }
        let v = match r.below(5) {
            0 => "".to_string(),
            1 => "project_format_version = 26\n".into(),
            2 => "project_format_version = 20   # pinned by hand\n".into(),
            3 => "project_format_version=27 # current\n".into(),
            _ => "project_format_version = 27\n".into(),
        };
        let toml = match r.below(5) {
            0 => v,
            1 => format!("# My library\n\n{v}\n[check]\nsurface_check_dirs = []   # none\n"),
            2 => format!("{v}\n# the end"),
            3 => format!("name = 'zoo' # single quotes\n  {v}[extra]\nkey = {{ a = 1,b=2 }}\n"),
            _ => format!("\n\n{v}\n\n[authors]\nlist = [\n  \"x\",  # first\n  \"y\",\n]\n"),
        };
        let mut extras = serde_json::Map::new();
        extras.insert("acorn.toml".into(), json!(toml));
        for f in ["README.md", "src/notes.md", "src/.hidden", "src/sub/data.jsonl", "src/certs/README", "src/m0.ac.orig", "docs/a/b.txt", "src/manifest.json.bak", "build/keep.txt", "src/.manifest.json.user"] {
            if r.chance(0.5) {
                extras.insert(f.into(), json!(format!("written by hand {}\n", r.below(1000))));
            }
        }
        plan_of(&mut r, &lib, ops, 0, json!({"extras": extras}))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        let mut mine: std::collections::BTreeMap<String, String> = serde_json::from_value(plan["extras"].clone()).unwrap();
        for (f, t) in &mine {
            w.fs.put(&format!("{ROOT}/{f}"), t.as_bytes());
        }
        for op in ops(plan) {
            match op {
                Op::Edit(e) => drop(w.edit(&e)),
                Op::Run { req, slot, fs } => {
                    if req.target.as_ref().map_or(false, |t| w.lib.module(t).is_none()) {
                        continue;
                    }
                    let (p, _) = w.run_faulty(slot, &req, &fs);
                    w.rep.nontrivial |= !p.fired.is_empty();
                    let now = w.fs.files(ROOT);
                    let mut want: std::collections::BTreeMap<String, String> = mine.clone();
                    want.extend(w.lib.files().into_iter().map(|(k, v)| (format!("src/{k}"), v)));
                    for (f, t) in &want {
                        let got = now.get(f).map(|d| String::from_utf8_lossy(d).into_owned());
                        if got.as_deref() == Some(t) {
                            continue;
                        }
                        if f == "acorn.toml" {
                            if let Some(g) = &got {
                                w.rep.nontrivial = true;
                                if strip_version(g) == strip_version(t) && g.contains("project_format_version = 27") {
                                    w.rep.probe("project file brought to the current version");
                                    continue;
                                }
                            }
                        }
                        w.rep.fail(
                            if f == "acorn.toml" { "project-file" } else { "user-file" },
                            format!("after {:?} {f} is {:?}, the user wrote {t:?} (in {})", p.fired, got, show_req(&req)),
                        );
                        break;
                    }
                    // From here on the rewritten project file is the user's.
                    if let Some(d) = now.get("acorn.toml") {
                        mine.insert("acorn.toml".into(), String::from_utf8_lossy(d).into_owned());
                    }
                }
                _ => {}
            }
            if w.failed() {
                break;
            }
        }
        w.finish(None)
    }
}

// ---------------------------------------------------------------------------------------
/// P17: what could not be read is not called verified.
pub struct ReadFaults;

impl Scenario for ReadFaults {
    fn property(&self) -> &'static str {
        "P17"
    }
    fn rule(&self) -> &'static str {
        "a run is a random project and a history of edits and tool runs during 1-3 of which opening, reading, listing or inspecting files fails (I/O error, permission, too many files, no memory, interruption, short reads) at random points; a run that reports success must have verified every claim there is, no false claim may be called verified, and afterwards an undisturbed verify and check are held against the model; non-trivial when a fault hit"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 20000 } else { 700 }
    }
    fn real_components(&self) -> &'static str {
        REAL
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 5);
        let wrong = *r.pick(&[0.0, 0.0, 0.1]);
        let lib = Library::random(&mut r, n, wrong);
        let mut l = lib.clone();
        let mut ops = vec![];
        if r.chance(0.6) {
            ops.push(Op::Run { req: Req::verify(r.range(1, 4) as usize), slot: 0, fs: FsPlan::default() });
        }
        for _ in 0..r.range(1, 3) {
            let n = r.range(0, 2);
            some_edits(&mut r, &mut l, n, &mut ops);
            let n = l.modules.len() as u64;
            let mut fs = FsPlan { readdir_seed: r.next() >> 1, ..Default::default() };
            for _ in 0..r.range(1, 2) {
                fs.faults.push(read_fault(&mut r, &l));
            }
            ops.push(Op::Run { req: rand_verify(&mut r, &l), slot: 0, fs });
        }
        let jobs = [r.range(1, 4), r.range(1, 4), r.range(1, 4)];
        plan_of(&mut r, &lib, ops, 3, json!({"jobs": jobs}))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        for op in ops(plan) {
            match op {
                Op::Edit(e) => drop(w.edit(&e)),
                Op::Run { req, slot, fs } => {
                    if req.target.as_ref().map_or(false, |t| w.lib.module(t).is_none()) {
                        continue;
                    }
                    let (p, o) = w.run_faulty(slot, &req, &fs);
                    w.rep.nontrivial |= !p.fired.is_empty();
                    if let Some(o) = o {
                        w.judge_soundness(&req, &o);
                        if o.good() && req.target.is_none() && !w.failed() {
                            w.rep.probe("good in spite of a read fault");
                            if !w.lib.all_good() {
                                w.fail("good-unread", format!("the build succeeded although not every claim of the project holds, after {:?} (in {})", p.fired, show_req(&req)));
                            }
                            let n = w.lib.goals().len() as i64;
                            if o.n["goals_total"] != n {
                                w.fail("good-partial", format!("the build succeeded having seen {} of {} claims, after {:?} (in {})", o.n["goals_total"], n, p.fired, show_req(&req)));
                            }
                        }
                    }
                }
                _ => {}
            }
            if w.failed() {
                return w.finish(None);
            }
        }
        let o = w.final_check(plan, false);
        w.finish(o.as_ref())
    }
}

// ---------------------------------------------------------------------------------------
/// P18: several processes of the tool on one project.
pub struct Crowd;

impl Scenario for Crowd {
    fn property(&self) -> &'static str {
        "P18"
    }
    fn rule(&self) -> &'static str {
        "a run is a random project, perhaps verified before and edited since, on which 2-3 processes of the tool (full, one module, ignoring hashes, forcing search, check) run at the same time under one scheduler, in some runs with failing writes; every verify must report the truth as if alone, and afterwards so must an undisturbed verify, a full re-verify and a check of what it stored; non-trivial when at least two of them stored something"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 20000 } else { 500 }
    }
    fn real_components(&self) -> &'static str {
        REAL
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 4);
        let wrong = *r.pick(&[0.0, 0.0, 0.1]);
        let lib = Library::random(&mut r, n, wrong);
        let mut l = lib.clone();
        let mut ops = vec![];
        if r.chance(0.5) {
            ops.push(Op::Run { req: Req::verify(r.range(1, 3) as usize), slot: 0, fs: FsPlan::default() });
            let n = r.range(1, 3);
            some_edits(&mut r, &mut l, n, &mut ops);
        }
        let reqs: Vec<Req> = (0..r.range(2, 3))
            .map(|_| {
                let mut q = rand_verify(&mut r, &l);
                q.line = None;
                q.jobs = q.jobs.min(3);
                q
            })
            .collect();
        let mut fs = FsPlan { readdir_seed: r.next() >> 1, ..Default::default() };
        if r.chance(0.2) {
            let n = l.modules.len() as u64;
            fs.faults.push(write_fault(&mut r, n, &["eio", "enospc", "short", "eintr", "stall"]));
        }
        let jobs = [r.range(1, 4), r.range(1, 4), r.range(1, 4)];
        plan_of(&mut r, &lib, ops, 5, json!({"jobs": jobs, "reqs": reqs, "fs": fs}))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        for op in ops(plan) {
            match op {
                Op::Edit(e) => drop(w.edit(&e)),
                Op::Run { req, slot, fs } => drop(w.run(slot, &req, &fs)),
                _ => {}
            }
        }
        let reqs: Vec<Req> = serde_json::from_value(plan["reqs"].clone()).unwrap();
        let reqs: Vec<Req> = reqs.into_iter().filter(|q| q.target.as_ref().map_or(true, |t| w.lib.module(t).is_some())).collect();
        let fp: FsPlan = serde_json::from_value(plan["fs"].clone()).unwrap();
        let slot = extra(plan, 3);
        let mut p = crowd(copy(&w.fs), &fp, &w.sched(slot), &reqs);
        w.rep.add(slot, &p);
        if let Some((k, m)) = bad_end(&p) {
            w.fail(&k, m);
            return w.finish(None);
        }
        if std::env::var_os("SIM_SHOW").is_some() {
            println!("== crowd {:?}\n{}", p.fired, p.text);
        }
        let outs = p.done().unwrap().as_array().unwrap().clone();
        let mut saved = 0;
        for (q, v) in reqs.iter().zip(outs) {
            if let Some(m) = v.get("panicked") {
                if p.fired.is_empty() {
                    w.fail("panic", format!("panicked: {m} (in {}, among {} processes)", show_req(q), reqs.len()));
                }
                continue;
            }
            let o: Outcome = serde_json::from_value(v).unwrap();
            saved += (q.mode == "verify" && o.err.is_none() && o.status != "Error") as u32;
            if q.mode == "verify" && p.fired.is_empty() {
                w.judge(q, &o);
            } else {
                w.judge_soundness(q, &o);
            }
        }
        w.rep.nontrivial = saved >= 2;
        w.fs = std::mem::take(&mut p.fs);
        w.fs.plan = FsPlan::default();
        if w.failed() {
            return w.finish(None);
        }
        // The last process to write a module's certificates wins, so a process that searched less
        // (one module, a stalled search) can leave fewer of them than the manifest vouches for. What
        // has to hold is that the tool still tells the truth, and that one full run repairs it.
        let jobs: Vec<usize> = serde_json::from_value(plan["jobs"].clone()).unwrap();
        let q = Req::verify(jobs[2]);
        if let (_, Some(o)) = w.run(extra(plan, 4), &q, &FsPlan::default()) {
            w.judge(&q, &o);
        }
        if w.failed() {
            return w.finish(None);
        }
        let o = w.final_check_with(plan, false, true);
        w.finish(o.as_ref())
    }
}

// ---------------------------------------------------------------------------------------
/// P20: checking changes nothing on disk.
pub struct ReadOnly;

impl Scenario for ReadOnly {
    fn property(&self) -> &'static str {
        "P20"
    }
    fn rule(&self) -> &'static str {
        "a run is a random project in whatever state a history of edits, verifies and crashes left it in, then several checks and read-only verifies (also strict, of one module, with failing reads, with old or missing format versions); none may attempt any operation that changes the disk; non-trivial when stored certificates or manifests were out of date"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 20000 } else { 500 }
    }
    fn real_components(&self) -> &'static str {
        REAL
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 4);
        let lib = Library::random(&mut r, n, 0.05);
        let mut l = lib.clone();
        let mut ops = crash_ops(&mut r, &mut l, &["kill", "power", "eio", "enospc"]);
        let n = r.range(0, 3);
        some_edits(&mut r, &mut l, n, &mut ops);
        for _ in 0..r.range(2, 4) {
            let mut q = rand_verify(&mut r, &l);
            if r.chance(0.7) {
                q.mode = "check".into();
                q.force_search = false;
                q.strict = r.chance(0.3);
            }
            q.read_only = true;
            q.update_version = r.chance(0.3);
            let mut fs = FsPlan { readdir_seed: r.next() >> 1, ..Default::default() };
            if r.chance(0.3) {
                let n = l.modules.len() as u64;
                fs.faults.push(read_fault(&mut r, &l));
            }
            ops.push(Op::Run { req: q, slot: 0, fs });
        }
        let v = *r.pick(&["", "project_format_version = 26\n", "project_format_version = 27\n", "project_format_version = 27 # x\n"]);
        plan_of(&mut r, &lib, ops, 0, json!({"toml": v}))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        let mut set = false;
        for op in ops(plan) {
            match op {
                Op::Edit(e) => drop(w.edit(&e)),
                Op::Run { req, slot, fs } => {
                    if req.target.as_ref().map_or(false, |t| w.lib.module(t).is_none()) {
                        continue;
                    }
                    if req.read_only && !set {
                        set = true;
                        w.fs.put(&format!("{ROOT}/acorn.toml"), plan["toml"].as_str().unwrap().as_bytes());
                    }
                    let before = w.fs.files("/sim");
                    let (p, o) = w.run_faulty(slot, &req, &fs);
                    if req.read_only {
                        if let Some(x) = p.oplog.first() {
                            w.fail("wrote", format!("a run that must not write performed {:?}, {} in all (in {})", x, p.n_mut, show_req(&req)));
                        } else if w.fs.files("/sim") != before {
                            w.fail("changed", format!("a run that must not write changed files (in {})", show_req(&req)));
                        }
                        if let Some(o) = o {
                            w.rep.nontrivial |= !o.good();
                            w.rep.probe(&format!("read-only {}", o.class()));
                        }
                    }
                }
                _ => {}
            }
            if w.failed() {
                break;
            }
        }
        w.finish(None)
    }
}
