//! What runs out: time (P06), threads and output (P14), patience (P05).
use super::common::*;
use super::hist::REAL;
use super::world::*;
use crate::fs::{Fault, FsPlan};
use crate::harness::*;
use crate::lib_ac::Library;
use crate::rt::{self, Rng, Sched};
use acorn::builder::Builder;
use acorn::project::{Project, ProjectConfig, UsageMode};
use acorn::prover::scorer::{ScoringConfig, ScoringPolicy};
use serde_json::{json, Value};
use tokio_util::sync::CancellationToken;

fn clock_jumps(r: &mut Rng, s: &mut Sched) {
    let mut v = vec![];
    for _ in 0..r.range(1, 4) {
        let fwd = match r.below(4) {
            0 => 0,
            1 => r.below(50_000_000),
            2 => r.below(8_000_000_000),
            _ => r.below(100_000_000_000_000),
        };
        let shift = if r.chance(0.5) { 0 } else { r.log_range(1, 1 << 60) as i64 * if r.chance(0.5) { -1 } else { 1 } };
        v.push((r.log_range(1, 5000), fwd, shift));
    }
    v.sort();
    s.jumps = v;
}

// ---------------------------------------------------------------------------------------
/// P06: running out of time, and clocks that jump, only ever cost proofs.
pub struct Time;

impl Scenario for Time {
    fn property(&self) -> &'static str {
        "P06"
    }
    fn rule(&self) -> &'static str {
        "a run is a random project and a history of edits and tool runs with search time limits from microseconds to seconds of simulated time and a processor whose speed varies, during which the clocks jump (the monotonic clock forwards by up to a day, the realtime clock either way) or the process is stalled; no claim may be reported verified that is false, every claim has to be either verified or complained about, and undisturbed runs with ample time must afterwards tell the whole truth; non-trivial when some search ran out of time or a clock jumped"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 20000 } else { 600 }
    }
    fn real_components(&self) -> &'static str {
        REAL
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 4);
        let wrong = *r.pick(&[0.0, 0.05, 0.1]);
        let lib = Library::random(&mut r, n, wrong);
        let mut l = lib.clone();
        let mut ops = vec![];
        if r.chance(0.4) {
            ops.push(Op::Run { req: Req::verify(r.range(1, 3) as usize), slot: 0, fs: FsPlan::default() });
        }
        for _ in 0..r.range(1, 3) {
            let n = r.range(0, 2);
            some_edits(&mut r, &mut l, n, &mut ops);
            let mut req = rand_verify(&mut r, &l);
            if r.chance(0.8) {
                // Simulated microseconds to seconds.
                req.timeout = Some(r.log_range(1, 2_000_000) as f32 / 1e6);
            }
            let mut fs = FsPlan::default();
            if r.chance(0.3) {
                fs.faults.push(Fault {
                    class: "read".into(),
                    nth: r.range(1, 30),
                    act: "stall".into(),
                    param: r.log_range(1000, 50_000_000_000),
                    repeat: r.below(10),
                    ..blank()
                });
            }
            ops.push(Op::Run { req, slot: 0, fs });
        }
        let n = r.range(0, 1);
        some_edits(&mut r, &mut l, n, &mut ops);
        let jobs = [r.range(1, 4), r.range(1, 4), r.range(1, 4)];
        let mut p = plan_of(&mut r, &lib, ops, 3, json!({"jobs": jobs}));
        let k = p["scheds"].as_array().unwrap().len() - 3;
        for i in 0..k {
            let mut s: Sched = serde_json::from_value(p["scheds"][i].clone()).unwrap();
            s.alloc_ns = *r.pick(&[20, 200, 200, 2000, 20_000]);
            if r.chance(0.6) {
                clock_jumps(&mut r, &mut s);
            }
            p["scheds"][i] = serde_json::to_value(s).unwrap();
        }
        p
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        for op in ops(plan) {
            match op {
                Op::Edit(e) => drop(w.edit(&e)),
                Op::Run { req, slot, fs } => {
                    if req.target.as_ref().map_or(false, |t| w.lib.module(t).is_none()) {
                        continue;
                    }
                    let (p, o) = w.run(slot, &req, &fs);
                    if p.stats.clock_jumps > 0 {
                        w.rep.nontrivial = true;
                    }
                    let Some(o) = o else { continue };
                    if o.n.get("timeouts").map_or(false, |n| *n > 0) {
                        w.rep.nontrivial = true;
                        w.rep.probe("a search ran out of time");
                    }
                    w.judge_soundness(&req, &o);
                    self.nothing_left_out(&mut w, &req, &o);
                }
                _ => {}
            }
            if w.failed() {
                return w.finish(None);
            }
        }
        let o = w.final_check(plan, true);
        w.finish(o.as_ref())
    }
}

fn blank() -> Fault {
    Fault { class: String::new(), nth: 1, path: String::new(), act: String::new(), param: 0, repeat: 0 }
}

impl Time {
    /// Success means every claim was verified; every other claim has a complaint.
    fn nothing_left_out(&self, w: &mut World, q: &Req, o: &Outcome) {
        if q.mode != "verify" || q.line.is_some() || q.exit_on_warning || o.class() == "Error" {
            return;
        }
        let scope: Vec<String> = match &q.target {
            Some(t) => vec![t.clone()],
            None => w.lib.modules.iter().map(|m| m.name.clone()).collect(),
        };
        let (t, s) = (o.n["goals_total"], o.n["goals_success"]);
        if o.good() && t != s {
            w.fail("good-short", format!("{} succeeded with {s} of {t} claims verified", show_req(q)));
        }
        if !o.good() && t == s {
            w.fail("bad-full", format!("{} ended {} with all {t} claims verified: {:?}", show_req(q), o.status, o.diags));
        }
        if o.n["goals_done"] != t {
            w.fail("not-done", format!("{} dealt with {} of {t} claims", show_req(q), o.n["goals_done"]));
        }
        if o.n["modules_cached"] > 0 {
            return;
        }
        let mut missing = vec![];
        for g in w.lib.goals() {
            if !scope.contains(&g.module) {
                continue;
            }
            let v = o.verified.iter().any(|(m, a, b)| *m == g.module && (*a, *b) == g.lines);
            let d = o.diags.iter().any(|d| d.module == g.module && d.a <= g.lines.1 && d.b >= g.lines.0);
            if !v && !d {
                missing.push(g);
            }
        }
        if let Some(g) = missing.first() {
            w.fail("left-out", format!("claim {} of {} (lines {:?}) was neither verified nor complained about in {}", g.name, g.module, g.lines, show_req(q)));
        }
    }
}

// ---------------------------------------------------------------------------------------
/// P14: a build ends, whatever the machine refuses it.
pub struct Refused;

impl Scenario for Refused {
    fn property(&self) -> &'static str {
        "P14"
    }
    fn rule(&self) -> &'static str {
        "a run is a random project, perhaps verified before and edited since, on which verify or check runs with 1-6 workers while creating threads fails (once, several times or for good), its standard output is closed or failing from some write on, reads fail or memory to write is short; the run has to end (a panic or an error will do), say nothing false, and leave a state from which undisturbed runs tell the truth; non-trivial when a fault struck"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 20000 } else { 600 }
    }
    fn real_components(&self) -> &'static str {
        REAL
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 6);
        let wrong = *r.pick(&[0.0, 0.05, 0.1]);
        let lib = Library::random(&mut r, n, wrong);
        let mut l = lib.clone();
        let mut ops = vec![];
        if r.chance(0.4) {
            ops.push(Op::Run { req: Req::verify(r.range(1, 3) as usize), slot: 0, fs: FsPlan::default() });
        }
        for _ in 0..r.range(1, 2) {
            let n = r.range(0, 3);
            some_edits(&mut r, &mut l, n, &mut ops);
            let mut req = rand_verify(&mut r, &l);
            if r.chance(0.7) {
                req.jobs = r.range(2, 9) as usize;
            }
            let mut fs = FsPlan { readdir_seed: r.next() >> 1, ..Default::default() };
            for _ in 0..r.range(1, 2) {
                let f = match r.below(10) {
                    // The first thread is the main thread of the tool.
                    0..=4 => Fault {
                        class: "thread".into(),
                        nth: r.range(2, 9),
                        act: "eagain".into(),
                        repeat: *r.pick(&[0, 0, 1, 3, 1000, 1000]),
                        ..blank()
                    },
                    5..=7 => Fault {
                        class: "out".into(),
                        nth: r.range(1, 9),
                        act: r.pick(&["epipe", "epipe", "eio", "enospc"]).to_string(),
                        repeat: *r.pick(&[0, 1000, 1_000_000]),
                        ..blank()
                    },
                    8 => read_fault(&mut r, &l),
                    _ => write_fault(&mut r, n + 1, &["eio", "enospc", "eacces"]),
                };
                fs.faults.push(f);
            }
            ops.push(Op::Run { req, slot: 0, fs });
        }
        let jobs = [r.range(1, 4), r.range(1, 4), r.range(1, 4)];
        plan_of(&mut r, &lib, ops, 3, json!({"jobs": jobs}))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        for op in ops(plan) {
            match op {
                Op::Edit(e) => drop(w.edit(&e)),
                Op::Run { req, slot, fs } => {
                    if req.target.as_ref().map_or(false, |t| w.lib.module(t).is_none()) {
                        continue;
                    }
                    let (p, o) = w.run_faulty(slot, &req, &fs);
                    if !p.fired.is_empty() {
                        w.rep.nontrivial = true;
                    }
                    if let Some(o) = o {
                        w.judge_soundness(&req, &o);
                    }
                }
                _ => {}
            }
            if w.failed() {
                return w.finish(None);
            }
        }
        let o = w.final_check(plan, true);
        w.finish(o.as_ref())
    }
}

// ---------------------------------------------------------------------------------------
/// P05: a build that is cancelled stops soon and leaves nothing false behind.
pub struct Cancel;

/// What the editor does: a build of everything that may be cancelled, whose results are kept
/// if it says they may be.
fn cancelled_build(jobs: usize, wait: u64, seed: u64) -> Value {
    let config = ProjectConfig { usage_mode: UsageMode::Ide, ..ProjectConfig::default() };
    let mut project = match Project::new_local(std::path::Path::new(&format!("{ROOT}/src")), config) {
        Ok(p) => p,
        Err(e) => return json!({"err": e.cli_message()}),
    };
    project.add_src_targets();
    let token = CancellationToken::new();
    let t2 = token.clone();
    let h = std::thread::spawn(move || {
        let mut r = Rng::new(seed);
        for _ in 0..wait {
            if r.chance(0.5) {
                rt::sleep_ns(1 + r.below(100_000));
            } else {
                rt::sched_yield();
            }
        }
        t2.cancel();
        rt::now_mono()
    });
    let mut out = Outcome::default();
    let mut evs = vec![];
    let (status, cache, n) = {
        let mut b = Builder::new(&project, token.clone(), |e| {
            let _q = rt::Quiet::new();
            evs.push((e.module.to_string(), e.verified, e.diagnostic.clone()));
        });
        b.check_hashes = true;
        b.check_jobs = jobs;
        b.activation_limit = ACTIVATIONS;
        b.scoring_config = ScoringConfig::new(ScoringPolicy::Handcrafted);
        b.build();
        let n = (b.metrics.searches_interrupted, b.metrics.goals_total, b.metrics.goals_success);
        (format!("{:?}", b.status), b.into_build_cache(), n)
    };
    let end = rt::now_mono();
    let cancelled = token.is_cancelled();
    let at = h.join().unwrap();
    out.status = status;
    out.n.insert("interrupted".into(), n.0 as i64);
    for (m, v, d) in evs {
        if let Some((a, b)) = v {
            out.verified.push((m.clone(), a, b));
        }
        if let Some(d) = d {
            out.diags.push(Diag { module: m, a: d.range.start.line, b: d.range.end.line, error: false, msg: d.message });
        }
    }
    let kept = cache.is_some();
    if let Some(c) = cache {
        project.update_build_cache(c, true);
    }
    json!({"out": out, "kept": kept, "cancelled": cancelled, "late": end.saturating_sub(at), "total": n.1, "success": n.2})
}

impl Scenario for Cancel {
    fn property(&self) -> &'static str {
        "P05"
    }
    fn rule(&self) -> &'static str {
        "a run is a random project, perhaps verified before and edited since, on which builds as the editor makes them (all modules, 1-4 workers, results kept if the build offers them) are cancelled after a random number of scheduling steps of another thread; such a build has to stop within bounded simulated time of being cancelled, may not report false claims as verified or succeed without having verified every claim, and undisturbed verifies and checks afterwards must tell the truth; non-trivial when the cancellation came before the end of the build"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 20000 } else { 500 }
    }
    fn real_components(&self) -> &'static str {
        REAL
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 5);
        let wrong = *r.pick(&[0.0, 0.05, 0.15]);
        let lib = Library::random(&mut r, n, wrong);
        let mut l = lib.clone();
        let mut ops = vec![];
        if r.chance(0.5) {
            ops.push(Op::Run { req: Req::verify(r.range(1, 3) as usize), slot: 0, fs: FsPlan::default() });
        }
        for _ in 0..r.range(1, 3) {
            let n = r.range(0, 3);
            some_edits(&mut r, &mut l, n, &mut ops);
            // A run request whose schedule is used for a cancelled build.
            let req = Req { mode: "cancel".into(), jobs: r.range(1, 4) as usize, line: Some(r.log_range(1, 3000) as u32), ..Default::default() };
            ops.push(Op::Run { req, slot: 0, fs: FsPlan::default() });
        }
        let n = r.range(0, 1);
        some_edits(&mut r, &mut l, n, &mut ops);
        let jobs = [r.range(1, 4), r.range(1, 4), r.range(1, 4)];
        plan_of(&mut r, &lib, ops, 3, json!({"jobs": jobs}))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        for op in ops(plan) {
            match op {
                Op::Edit(e) => drop(w.edit(&e)),
                Op::Run { req, slot, .. } if req.mode == "cancel" => {
                    let wait = req.line.unwrap_or(1) as u64;
                    let jobs = req.jobs;
                    let mut p = phase(copy(&w.fs), &FsPlan::default(), false, &w.sched(slot), move || cancelled_build(jobs, wait, wait));
                    w.rep.add(slot, &p);
                    if let Some((k, m)) = bad_end(&p) {
                        w.fail(&k, format!("{m} (in a cancelled build)"));
                        break;
                    }
                    let v = p.done().unwrap().clone();
                    w.fs = std::mem::take(&mut p.fs);
                    w.fs.plan = FsPlan::default();
                    if v["err"].is_string() {
                        continue;
                    }
                    let o: Outcome = serde_json::from_value(v["out"].clone()).unwrap();
                    if v["cancelled"] == json!(true) {
                        w.rep.nontrivial = true;
                        *w.rep.fired.entry("cancellation of a build".into()).or_insert(0) += 1;
                        w.rep.probe(&format!("cancelled; {}", if v["kept"] == json!(true) { "results kept" } else { "results dropped" }));
                        // Time passes with work in the simulation: 200 ns per allocation.
                        let late = v["late"].as_u64().unwrap();
                        w.rep.probe(&format!("stopped within 10^{} us", (late / 1000).max(1).ilog10() + 1));
                        if late > 3_000_000_000 {
                            w.fail("late", format!("the build went on for {late} simulated ns after it was cancelled"));
                        }
                    }
                    if let Some(m) = unsound(&w.lib, &o) {
                        w.fail("unsound", format!("{m} (in a build that was {})", if v["cancelled"] == json!(true) { "cancelled" } else { "not cancelled" }));
                    }
                    if o.good() && v["total"] != v["success"] {
                        w.fail("good-short", format!("a build succeeded with {} of {} claims verified", v["success"], v["total"]));
                    }
                }
                Op::Run { req, slot, fs } => {
                    let (_, o) = w.run(slot, &req, &fs);
                    if let Some(o) = o {
                        w.judge(&req, &o);
                    }
                }
                _ => {}
            }
            if w.failed() {
                return w.finish(None);
            }
        }
        let o = w.final_check(plan, true);
        w.finish(o.as_ref())
    }
}
