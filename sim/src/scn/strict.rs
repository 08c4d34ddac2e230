//! What a strict check lets pass.
use super::common::*;
use super::hist::REAL;
use super::world::*;
use crate::fs::{FsPlan, MemFs};
use crate::harness::*;
use crate::lib_ac::{Edit, Item, Library};
use crate::rt::{Rng, Sched};
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// P23: a strict check passes exactly when the check does, no axiom is in its way and the
/// records of dependencies are those a verify would write.
pub struct Strict;

/// What the manifests say their packages depend on; what is left of a package without any
/// sources does not count.
fn records(f: &MemFs) -> BTreeMap<String, Value> {
    let files = f.files(&format!("{ROOT}/src"));
    let lives = |k: &str| {
        let dir = k.trim_end_matches("certs/manifest.json");
        files.keys().any(|p| p.starts_with(dir) && p.ends_with(".ac"))
    };
    files
        .iter()
        .filter(|(k, _)| k.ends_with("certs/manifest.json") && lives(k))
        .map(|(k, d)| (k.clone(), d.clone()))
        .filter_map(|(k, d)| serde_json::from_slice::<Value>(&d).ok().map(|v| (k, v["dependencies"].clone())))
        .filter(|(_, v)| v.as_object().map_or(false, |o| !o.is_empty()))
        .collect()
}

fn draft(kind: u64, prelude: bool) -> String {
    let body = match kind % 6 {
        0 => "axiom ax { Tok.c0 = Tok.c0 }\n",
        1 => "axiom ax { Tok.c0 = Tok.c1 }\n\ntheorem th { Tok.c1 = Tok.c0 }\n",
        2 => "theorem th { Tok.c0 = Tok.c1 }\n",
        3 => "forall(x: Tok) {\n    axiom ax { x = x }\n}\n",
        4 => "theorem th { Tok.c0 = nosuchthing }\n",
        _ => "theorem th { = =\n",
    };
    if prelude {
        return body.into();
    }
    format!("from base import Tok\n\n{body}")
}

impl Scenario for Strict {
    fn property(&self) -> &'static str {
        "P23"
    }
    fn rule(&self) -> &'static str {
        "a run is a random project, some of whose modules have axioms at the top level or inside blocks, some of whose parts are packages, perhaps with drafts, perhaps verified before and edited since (some builds killed or refused by the disk); then a strict check of all or one module, by 1-6 workers under a random schedule, some with faults at reads: it may only pass if the plain check passes, no axiom is in what it checks, every draft elaborates and the recorded dependencies are those an undisturbed verify of the same files writes; undisturbed, it must then pass; non-trivial when the plain check passes"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 30000 } else { 900 }
    }
    fn real_components(&self) -> &'static str {
        REAL
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 5);
        let wrong = *r.pick(&[0.0, 0.0, 0.0, 0.05]);
        let mut lib = Library::random(&mut r, n, wrong);
        // Mostly with a package that depends on something outside it.
        let wanted = r.chance(0.6);
        let outside = |l: &Library| -> Vec<usize> {
            let used: Vec<String> = l.modules.iter().filter(|m| m.iface).flat_map(|m| l.deps(&m.name)).collect();
            (0..l.modules.len()).filter(|i| used.contains(&l.modules[*i].name)).collect()
        };
        for _ in 0..20 {
            if wanted && outside(&lib).is_empty() {
                let n = r.range(2, 5);
                lib = Library::random(&mut r, n, wrong);
            }
        }
        let axioms = r.chance(0.5);
        let toggle = |r: &mut Rng, l: &Library| Edit::Axiom { module: r.below(l.modules.len().max(1) as u64) as usize, n: r.below(10000) as u32 };
        if axioms && r.chance(0.6) {
            let e = toggle(&mut r, &lib);
            lib.apply(&e);
            lib.past.clear();
        }
        let mut l = lib.clone();
        let mut ops = vec![];
        for i in 0..r.range(1, 3) {
            if i > 0 {
                let n = r.range(1, 2);
                some_edits(&mut r, &mut l, n, &mut ops);
            }
            if axioms && r.chance(0.3) {
                let e = toggle(&mut r, &l);
                if l.apply(&e) {
                    ops.push(Op::Edit(e));
                }
            }
            let mut req = if r.chance(0.6) { Req::verify(r.range(1, 4) as usize) } else { rand_verify(&mut r, &l) };
            if req.mode == "check" {
                req.mode = "verify".into();
            }
            let mut fs = FsPlan { readdir_seed: r.next() >> 1, ..Default::default() };
            if r.chance(0.15) {
                let n = l.modules.len() as u64;
                fs.faults.push(write_fault(&mut r, n, &["kill", "power", "eio", "enospc", "short", "eacces"]));
            }
            ops.push(Op::Run { req, slot: 0, fs });
        }
        if r.chance(0.25) {
            // A package that no longer needs something outside it.
            for (mi, m) in l.modules.clone().iter().enumerate().filter(|(_, m)| m.iface) {
                let own = |f: &String| m.items.iter().any(|i| matches!(i, Item::Table { name, .. } if name == f));
                let drop: Vec<usize> = (0..m.items.len()).filter(|i| !Library::uses(&m.items[*i]).iter().all(own)).collect();
                for item in drop.into_iter().rev() {
                    let e = Edit::DelItem { module: mi, item };
                    if l.apply(&e) {
                        ops.push(Op::Edit(e));
                    }
                }
            }
        }
        if r.chance(0.4) {
            // Edits that keep the stored proofs good, and the records not.
            for _ in 0..r.range(1, 2) {
                let out = outside(&l);
                let m = if !out.is_empty() && r.chance(0.7) { *r.pick(&out) } else { r.below(l.modules.len().max(1) as u64) as usize };
                let e = if r.chance(0.8) { Edit::Comment { module: m, n: r.below(1000) as u32 } } else { l.random_edit(&mut r) };
                if l.apply(&e) {
                    ops.push(Op::Edit(e));
                }
            }
        }
        if axioms && r.chance(0.3) {
            let e = toggle(&mut r, &l);
            if l.apply(&e) {
                ops.push(Op::Edit(e));
            }
        }
        let mut q = Req::check(r.range(1, 6) as usize);
        q.strict = true;
        if r.chance(0.3) {
            q.target = target(&mut r, &l);
        }
        let mut fs = FsPlan { readdir_seed: r.next() >> 1, ..Default::default() };
        if r.chance(0.3) {
            fs.faults.push(read_fault(&mut r, &l));
        }
        let drafts: Vec<u64> = if r.chance(0.4) { (0..r.range(1, 2)).map(|_| if r.chance(0.8) { r.below(4) } else { r.below(6) }).collect() } else { vec![] };
        let dir = *r.pick(&["pending", "pending", "drafts"]);
        plan_of(&mut r, &lib, ops, 4, json!({"req": q, "fs": fs, "drafts": drafts, "dir": dir}))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        let drafts: Vec<u64> = serde_json::from_value(plan["drafts"].clone()).unwrap();
        let dir = plan["dir"].as_str().unwrap();
        if dir != "pending" {
            w.fs.put(&format!("{ROOT}/acorn.toml"), format!("project_format_version = 27\nsurface_check_dirs = [\"{dir}\"]\n").as_bytes());
        }
        for (i, k) in drafts.iter().enumerate() {
            w.fs.put(&format!("{ROOT}/{dir}/sub{}/d{i}.ac", i % 2), draft(*k, w.lib.prelude).as_bytes());
        }
        for op in ops(plan) {
            match op {
                Op::Edit(e) => drop(w.edit(&e)),
                Op::Run { req, slot, fs } => {
                    if req.target.as_ref().map_or(false, |t| w.lib.module(t).is_none()) {
                        continue;
                    }
                    if fs.faults.is_empty() {
                        w.run(slot, &req, &fs);
                    } else {
                        w.run_faulty(slot, &req, &fs);
                    }
                }
                _ => {}
            }
            if w.failed() {
                return w.finish(None);
            }
        }
        let q: Req = serde_json::from_value(plan["req"].clone()).unwrap();
        if q.target.as_ref().map_or(false, |t| w.lib.module(t).is_none()) {
            return w.finish(None);
        }
        let fp: FsPlan = serde_json::from_value(plan["fs"].clone()).unwrap();
        let scheds: Vec<Sched> = serde_json::from_value(plan["scheds"].clone()).unwrap();
        let image = copy(&w.fs);
        let plain = Req { strict: false, jobs: 1, ..q.clone() };
        let verify = Req { target: q.target.clone(), ..Req::verify(1) };
        let n = tool(copy(&image), &FsPlan::default(), &scheds[extra(plan, 1)], &plain);
        let v = tool(copy(&image), &FsPlan::default(), &scheds[extra(plan, 2)], &verify);
        let (Some(on), Some(ov)) = (Outcome::of(&n), Outcome::of(&v)) else {
            w.fail("bad-end", format!("{:?} {:?}", bad_end(&n), bad_end(&v)));
            return w.finish(None);
        };
        w.judge(&plain, &on);
        w.judge(&verify, &ov);
        let calm = fp.faults.is_empty();
        let slot = extra(plan, 0);
        let (_, o) = if calm { w.run(slot, &q, &fp) } else { w.run_faulty(slot, &q, &fp) };
        let Some(o) = o else { return w.finish(None) };
        w.judge_soundness(&q, &o);
        let how = show_req(&q);
        let with: Vec<String> = w
            .lib
            .modules
            .iter()
            .filter(|m| q.target.as_ref().map_or(true, |t| *t == m.name) && m.items.iter().any(|i| matches!(i, Item::Axiom(_))))
            .map(|m| m.name.clone())
            .collect();
        let bad_draft = q.target.is_none() && drafts.iter().any(|k| k % 6 > 3);
        w.rep.nontrivial = on.good();
        w.rep.probe(&format!("check {}, strict check {}{}", on.class(), o.class(), if with.is_empty() { "" } else { ", axioms" }));
        if w.fs.files(ROOT) != image.files(ROOT) {
            w.fail("writes", format!("a strict check changed files (in {how})"));
        }
        if o.good() && !with.is_empty() {
            w.fail("axiom", format!("passed although {} has axioms (in {how})", with.join(", ")));
        }
        if (o.good() || on.good()) && bad_draft {
            w.fail("draft", format!("passed although a draft does not elaborate (in {how})"));
        }
        if o.good() && !on.good() {
            w.fail("weaker", format!("the strict check passed, the plain one ended {} {:?} {:?} (in {how})", on.status, on.err, on.diags));
        }
        if on.good() && with.is_empty() && ov.good() {
            let (a, b) = (records(&image), records(&v.fs));
            if a != b {
                w.rep.probe("outdated records of dependencies");
            }
            if a != b && o.good() {
                w.fail("outdated", format!("passed although the recorded dependencies are out of date: {a:?}, a verify makes them {b:?} (in {how})"));
            }
            if calm && a == b && !o.good() {
                w.fail("refused", format!("the check passes, there are no axioms and the records are current, but the strict check ended {} {:?} {:?} (in {how})", o.status, o.err, o.diags));
            }
        }
        if calm && on.good() && !with.is_empty() && !o.diags.iter().any(|d| d.error && with.contains(&d.module)) {
            w.fail("untold", format!("refused, but no axiom of {} is pointed at: {:?} {:?} (in {how})", with.join(", "), o.err, o.diags));
        }
        w.finish(Some(&o))
    }
}
