//! A project living through a history of edits, runs, crashes and faults, and the model that
//! says what each run must report.
use super::common::*;
use crate::fs::{Fault, FsPlan, MemFs};
use crate::harness::*;
use crate::lib_ac::{Edit, Goal, Library};
use crate::rt::{self, Rng, Sched};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Edit(Edit),
    Run {
        req: Req,
        slot: usize,
        #[serde(default)]
        fs: FsPlan,
    },
    /// A run during which somebody edits the sources.
    Race {
        req: Req,
        slot: usize,
        edits: Vec<(u64, Edit)>,
        /// Sources are replaced by renaming, rather than rewritten in place.
        atomic: bool,
        seed: u64,
    },
    /// A command line of the real program.
    Cli {
        cmd: super::cli::Cmd,
        slot: usize,
        #[serde(default)]
        fs: FsPlan,
    },
}

pub struct World<'a> {
    pub plan: &'a Value,
    pub lib: Library,
    pub fs: MemFs,
    pub rep: Report,
    /// The project has more in it than `lib` knows.
    pub loose: bool,
}

pub fn copy(f: &MemFs) -> MemFs {
    MemFs::decode(&f.encode())
}

impl<'a> World<'a> {
    pub fn new(plan: &'a Value) -> World<'a> {
        let lib: Library = serde_json::from_value(plan["lib"].clone()).unwrap();
        let fs = disk(&lib);
        World { plan, lib, fs, rep: Report::default(), loose: false }
    }
    pub fn edit(&mut self, e: &Edit) -> bool {
        let r = self.lib.apply(e);
        put_lib(&mut self.fs, &self.lib);
        r
    }
    pub fn sched(&self, slot: usize) -> Sched {
        sched_of(self.plan, slot)
    }
    /// Runs the tool on a copy of the disk.
    pub fn try_run(&mut self, slot: usize, q: &Req, fp: &FsPlan) -> Phase {
        let p = tool(copy(&self.fs), fp, &self.sched(slot), q);
        self.rep.add(slot, &p);
        p
    }
    pub fn run(&mut self, slot: usize, q: &Req, fp: &FsPlan) -> (Phase, Option<Outcome>) {
        let mut p = self.try_run(slot, q, fp);
        if let Some((k, m)) = bad_end(&p) {
            self.rep.fail(&k, format!("{m} (in {})", show_req(q)));
        }
        self.fs = std::mem::take(&mut p.fs);
        self.fs.plan = FsPlan::default();
        let o = Outcome::of(&p);
        if std::env::var_os("SIM_SHOW").is_some() {
            println!("== {}\n{}", show_req(q), p.text);
            for (k, v) in self.fs.files(ROOT) {
                if k.ends_with("manifest.json") {
                    println!("{}", String::from_utf8_lossy(&v));
                }
            }
        }
        (p, o)
    }
    /// A run hit by faults: it may die or be refused, but may not hang.
    pub fn run_faulty(&mut self, slot: usize, q: &Req, fp: &FsPlan) -> (Phase, Option<Outcome>) {
        let mut p = self.try_run(slot, q, fp);
        match &p.out {
            Out::Stuck(m) => self.rep.fail("stuck", format!("the run makes no progress: {m} (in {}, faults {:?})", show_req(q), p.fired)),
            Out::Died(m) => self.rep.fail("died", format!("died: {m} (in {}, faults {:?})", show_req(q), p.fired)),
            Out::Panicked(m) => {
                self.rep.probe(&format!("panicked: {m}"));
                if p.fired.is_empty() {
                    self.rep.fail("panic", format!("panicked: {m} (in {})", show_req(q)));
                }
            }
            _ => {}
        }
        self.fs = std::mem::take(&mut p.fs);
        self.fs.plan = FsPlan::default();
        let o = Outcome::of(&p);
        if std::env::var_os("SIM_SHOW").is_some() {
            println!("== {} {:?} {:?}\n{}", show_req(q), p.fired, p.out, p.text);
        }
        (p, o)
    }
    /// Even a disturbed run may not call false claims verified.
    pub fn judge_soundness(&mut self, q: &Req, o: &Outcome) {
        if let Some((k, m)) = judge(&self.lib, q, o) {
            if ["false-verified", "good-false", "good-broken"].contains(&k.as_str()) {
                self.fail(&k, format!("{m} (in {})", show_req(q)));
            }
        }
    }
    /// An undisturbed verify tells the truth, whatever came before; what it calls good passes a
    /// check; and a second verify agrees with the first.
    pub fn final_check(&mut self, plan: &Value, twice: bool) -> Option<Outcome> {
        self.final_check_with(plan, twice, false)
    }
    /// `anew`: the verify does not trust the manifests.
    pub fn final_check_with(&mut self, plan: &Value, twice: bool, anew: bool) -> Option<Outcome> {
        let jobs: Vec<usize> = serde_json::from_value(plan["jobs"].clone()).unwrap();
        let mut q = Req::verify(jobs[0]);
        q.ignore_hash = anew;
        let (_, o) = self.run(extra(plan, 0), &q, &FsPlan::default());
        let o = o?;
        self.judge(&q, &o);
        if o.err.is_some() || self.failed() {
            return Some(o);
        }
        self.rep.probe(&format!("final {}", o.status));
        let c = Req::check(jobs[1]);
        let (_, oc) = self.run(extra(plan, 1), &c, &FsPlan::default());
        if let Some(oc) = oc {
            self.judge(&c, &oc);
            if o.good() != oc.good() {
                self.fail("check-differs", format!("verify ended {} but the check after it {} {:?}, {:?}", o.status, oc.status, oc.err, oc.diags));
            }
        }
        if twice {
            let q = Req::verify(jobs[2]);
            let (_, o2) = self.run(extra(plan, 2), &q, &FsPlan::default());
            if let Some(o2) = o2 {
                self.judge(&q, &o2);
                if o2.class() != o.class() {
                    self.fail("second-differs", format!("verify ended {}, the next one {}", o.status, o2.status));
                }
            }
        }
        Some(o)
    }
    pub fn fail(&mut self, key: &str, msg: String) {
        self.rep.fail(key, msg);
    }
    pub fn failed(&self) -> bool {
        self.rep.violation.is_some()
    }
    /// Holds the outcome of an undisturbed run against the model.
    pub fn judge(&mut self, q: &Req, o: &Outcome) {
        if self.loose {
            return self.judge_soundness(q, o);
        }
        if let Some((k, m)) = judge(&self.lib, q, o) {
            self.fail(&k, format!("{m} (in {})", show_req(q)));
        }
    }
    pub fn certs(&self) -> std::collections::BTreeMap<String, Vec<u8>> {
        self.fs.files(&format!("{ROOT}/src")).into_iter().filter(|(k, _)| k.contains("certs/")).collect()
    }
    pub fn finish(mut self, o: Option<&Outcome>) -> Report {
        if let Some(o) = o {
            self.rep.summary = format!("{} {:?} {:?}", o.status, o.err, o.n);
        }
        self.rep
    }
}

pub fn show_req(q: &Req) -> String {
    let mut s = format!("acorn {} --jobs {}", q.mode, q.jobs);
    for (b, n) in [
        (q.ignore_hash, "ignore-hash"),
        (q.force_search, "force-search"),
        (q.strict, "strict"),
        (q.read_only, "read-only"),
        (q.update_version, "update-version"),
        (q.exit_on_warning, "fail-fast"),
    ] {
        if b {
            s += &format!(" --{n}");
        }
    }
    if let Some(t) = &q.target {
        s += &format!(" {t}");
    }
    if let Some(l) = q.line {
        s += &format!(" --line {l}");
    }
    s
}

/// Claims of the scope that are false although everything they may rely on is true.
pub fn unprovable_in(lib: &Library, scope: &[String]) -> Vec<Goal> {
    unprovable(lib).into_iter().filter(|g| scope.contains(&g.module)).collect()
}

/// What the user must be told about `lib`.
pub fn judge(lib: &Library, q: &Req, o: &Outcome) -> Option<(String, String)> {
    let bad = |k: &str, m: String| Some((k.to_string(), m));
    if let Some(m) = &o.progress_bad {
        return bad("progress", m.clone());
    }
    let scope: Vec<String> = match &q.target {
        Some(t) => vec![t.clone()],
        None => lib.modules.iter().map(|m| m.name.clone()).collect(),
    };
    let mut all: BTreeSet<String> = scope.iter().cloned().collect();
    for s in &scope {
        all.extend(lib.deps(s));
    }
    let loads = |n: &String| lib.module(n).map_or(n == "base" && !lib.prelude, |m| !lib.fails_to_load(m));
    let fails: Vec<&String> = all.iter().filter(|n| !loads(n)).collect();
    let false_in = |names: &[String]| -> Vec<Goal> {
        lib.modules
            .iter()
            .filter(|m| names.contains(&m.name) && !lib.fails_to_load(m))
            .flat_map(|m| lib.render(m).1)
            .filter(|g| !g.truth)
            .collect()
    };
    // Nothing false is called verified.
    for g in unprovable(lib) {
        if o.verified.iter().any(|(m, a, b)| *m == g.module && (*a, *b) == g.lines) {
            return bad("false-verified", format!("claim {} of {} (lines {:?}) is false but was reported as verified", g.name, g.module, g.lines));
        }
    }
    if q.line.is_some() {
        return None;
    }
    if !fails.is_empty() {
        // A package's implementation is only looked at when it is built itself; its users see
        // the interface.
        if q.target.is_some() && lib.modules.iter().any(|m| m.iface && fails.contains(&&m.name) && !scope.contains(&m.name)) {
            return None;
        }
        if o.good() && scope.iter().any(|s| !loads(s)) {
            return bad("good-broken", format!("the build succeeded although {:?} does not load", fails));
        }
        return None;
    }
    let up = unprovable_in(lib, &scope);
    if o.good() && !up.is_empty() {
        return bad(
            "good-false",
            format!("the build succeeded although claim {} of {} (lines {:?}) is false", up[0].name, up[0].module, up[0].lines),
        );
    }
    // Modules in which, and below which, everything is true raise no complaint.
    if q.mode == "verify" {
        if let Some(e) = &o.err {
            return bad("err", format!("the run failed: {e}"));
        }
        let all_v: Vec<String> = all.iter().cloned().collect();
        let wrong = false_in(&all_v);
        if wrong.is_empty() && !o.good() {
            return bad("not-good", format!("every claim holds but the status is {}; diagnostics {:?}", o.status, o.diags));
        }
        for d in &o.diags {
            let mut names = lib.deps(&d.module);
            names.push(d.module.clone());
            if all.contains(&d.module) && false_in(&names).is_empty() {
                return bad("diag-true", format!("complaint about {}, where every claim holds: {:?}", d.module, d));
            }
        }
        if !q.exit_on_warning {
            for g in &up {
                if !o.diags.iter().any(|d| d.module == g.module && d.a <= g.lines.1 && d.b >= g.lines.0) {
                    return bad("no-diag", format!("claim {} of {} (lines {:?}) is false but nothing is said about it; status {}", g.name, g.module, g.lines, o.status));
                }
            }
            if q.target.is_none() {
                let n = lib.goals().len() as i64;
                if o.n["goals_total"] != n {
                    return bad("goals-total", format!("{} goals counted, the project has {}", o.n["goals_total"], n));
                }
                if o.n["goals_done"] != n {
                    return bad("goals-done", format!("{} goals done of {}", o.n["goals_done"], n));
                }
            }
            if wrong.is_empty() && o.n["goals_success"] != o.n["goals_total"] {
                return bad("goals-success", format!("{} of {} goals succeeded in a good build", o.n["goals_success"], o.n["goals_total"]));
            }
        }
    }
    None
}

/// Runs the tool while somebody edits; returns the library as the editor left it.
pub fn race(fs: MemFs, sched: &Sched, q: &Req, lib: &Library, edits: &[(u64, Edit)], atomic: bool, seed: u64) -> Phase {
    let q = q.clone();
    let mut lib = lib.clone();
    let edits = edits.to_vec();
    phase(fs, &FsPlan::default(), true, sched, move || {
        let ed = std::thread::spawn(move || {
            rt::set_pid(2);
            let mut r = Rng::new(seed);
            for (wait, e) in edits {
                // Wait for some events of the tool, or some time.
                for _ in 0..wait % 64 {
                    if r.chance(0.5) {
                        rt::sleep_ns(1 + r.below(200_000));
                    } else {
                        rt::sched_yield();
                    }
                }
                let before = lib.files();
                lib.apply(&e);
                let after = lib.files();
                for (p, t) in &after {
                    if before.get(p) != Some(t) {
                        let full = format!("{ROOT}/src/{p}");
                        if let Some(i) = full.rfind('/') {
                            let _ = std::fs::create_dir_all(&full[..i]);
                        }
                        if atomic {
                            let tmp = format!("{full}.swp");
                            let _ = std::fs::write(&tmp, t);
                            let _ = std::fs::rename(&tmp, &full);
                        } else {
                            let _ = std::fs::write(&full, t);
                        }
                        rt::sched_yield();
                    }
                }
                for p in before.keys() {
                    if !after.contains_key(p) {
                        let _ = std::fs::remove_file(format!("{ROOT}/src/{p}"));
                    }
                }
            }
        });
        let o = run_req(&q);
        let _ = ed.join();
        serde_json::to_value(o).unwrap()
    })
}

/// Several processes of the tool at once on the same project.
pub fn crowd(fs: MemFs, fp: &FsPlan, sched: &Sched, reqs: &[Req]) -> Phase {
    let reqs = reqs.to_vec();
    phase(fs, fp, true, sched, move || {
        let hs: Vec<_> = reqs
            .into_iter()
            .enumerate()
            .map(|(i, q)| {
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn(move || {
                        rt::set_pid(2 + i as u32);
                        run_req(&q)
                    })
                    .unwrap()
            })
            .collect();
        let v: Vec<Value> = hs
            .into_iter()
            .map(|h| match h.join() {
                Ok(o) => serde_json::to_value(o).unwrap(),
                Err(e) => json!({ "panicked": crate::harness::panic_text(&e) }),
            })
            .collect();
        Value::Array(v)
    })
}

// ---- plan ingredients ----

pub fn rand_verify(r: &mut Rng, lib: &Library) -> Req {
    let mut q = Req::verify(*r.pick(&[1usize, 1, 2, 3, 4, 6]));
    match r.below(20) {
        0..=9 => {}
        10..=13 => q.target = target(r, lib),
        14 => {
            q.target = target(r, lib);
            if let Some(t) = &q.target {
                let gs: Vec<Goal> = lib.goals().into_iter().filter(|g| g.module == *t).collect();
                if !gs.is_empty() {
                    q.line = Some(r.pick(&gs).lines.0 + 1);
                }
            }
        }
        15 | 16 => q.ignore_hash = true,
        17 => q.force_search = true,
        18 => q.exit_on_warning = true,
        _ => q.mode = "check".into(),
    }
    q
}
pub fn target(r: &mut Rng, lib: &Library) -> Option<String> {
    if lib.modules.is_empty() {
        None
    } else {
        Some(r.pick(&lib.modules).name.clone())
    }
}

/// A fault at a random file-changing operation.
pub fn write_fault(r: &mut Rng, modules: u64, acts: &[&str]) -> Fault {
    let act = r.pick(acts).to_string();
    Fault {
        class: "mut".into(),
        nth: if r.chance(0.4) { r.range(1, 8) } else { r.range(1, 6 + 5 * modules) },
        path: match r.below(8) {
            0 => "manifest".into(),
            1 => ".jsonl".into(),
            2 => "acorn.toml".into(),
            _ => String::new(),
        },
        param: r.next() >> 16,
        repeat: if act == "enospc" || act == "eio" { *r.pick(&[0, 0, 1, 1000]) } else { 0 },
        act,
    }
}
pub fn read_fault(r: &mut Rng, lib: &Library) -> Fault {
    let modules = lib.modules.len() as u64;
    let act = r.pick(&["eio", "eacces", "eintr", "short", "para", "para", "emfile", "enomem"]).to_string();
    if r.chance(0.2) && !lib.modules.is_empty() {
        // A directory nobody may enter: everything below it fails, and keeps failing.
        let m = r.pick(&lib.modules).name.clone();
        let path = match m.rsplit_once('.') {
            Some((dir, _)) => format!("/src/{}", dir.replace('.', "/")),
            None => "/src/certs".into(),
        };
        let act = r.pick(&["eacces", "eio"]).to_string();
        return Fault { class: "read".into(), nth: 1, path, param: 0, repeat: 1_000_000_000, act };
    }
    if act == "para" {
        // Reads of sources and stored proofs that stop between two items.
        let path = r.pick(&[".ac", ".ac", ".jsonl", "manifest", ""]).to_string();
        return Fault { class: "data".into(), nth: r.range(1, 4), path, param: r.below(100), repeat: r.below(60), act };
    }
    Fault {
        class: "data".into(),
        nth: if r.chance(0.3) { r.range(1, 12) } else { r.range(1, 12 + 10 * modules) },
        path: match r.below(8) {
            0 => "manifest".into(),
            1 => ".jsonl".into(),
            2 => "acorn.toml".into(),
            3 | 4 => ".ac".into(),
            _ => String::new(),
        },
        param: r.range(1, 40),
        repeat: if act == "short" || act == "eintr" { r.below(50) } else { *r.pick(&[0, 0, 0, 1, 3, 1000]) },
        act,
    }
}

/// Turns `ops` (whose slots are filled in here) into a plan.
pub fn plan_of(r: &mut Rng, lib: &Library, mut ops: Vec<Op>, extra_slots: usize, more: Value) -> Value {
    let mut scheds: Vec<Sched> = vec![];
    for o in &mut ops {
        match o {
            Op::Run { slot, .. } | Op::Race { slot, .. } | Op::Cli { slot, .. } => {
                *slot = scheds.len();
                scheds.push(rand_sched(r));
            }
            _ => {}
        }
    }
    for _ in 0..extra_slots {
        scheds.push(rand_sched(r));
    }
    let mut v = json!({"lib": lib, "ops": ops, "scheds": scheds, "extra": extra_slots});
    if let Some(m) = more.as_object() {
        for (k, x) in m {
            v[k] = x.clone();
        }
    }
    v
}
/// Slot of the i-th extra schedule.
pub fn extra(plan: &Value, i: usize) -> usize {
    plan["scheds"].as_array().unwrap().len() - plan["extra"].as_u64().unwrap() as usize + i
}
pub fn ops(plan: &Value) -> Vec<Op> {
    serde_json::from_value(plan["ops"].clone()).unwrap()
}

/// Edits a user might make between two runs; `lib` follows.
pub fn some_edits(r: &mut Rng, lib: &mut Library, n: u64, out: &mut Vec<Op>) {
    for _ in 0..n {
        let e = lib.random_edit(r);
        if lib.apply(&e) {
            out.push(Op::Edit(e));
        }
    }
}
