//! P04: what is reported and stored does not depend on the number of workers, their
//! interleaving, hash seeds or directory order.
use super::common::*;
use super::world::*;
use crate::fs::FsPlan;
use crate::harness::*;
use crate::lib_ac::Library;
use crate::rt::{Rng, Sched};
use serde_json::{json, Value};

pub struct Jobs;

impl Scenario for Jobs {
    fn property(&self) -> &'static str {
        "P04"
    }
    fn rule(&self) -> &'static str {
        "a run is a random project, perhaps verified before and edited since, on which one command (verify, with or without old certificates, manifests trusted or not, one module or all, or check) is run twice from the same disk image: with one worker under the plain schedule, and with 2-6 workers under a random or priority schedule, other hash seeds, another directory order and another number of processors; status, diagnostics, verified claims, counts and every file must agree; non-trivial when the second execution switched between threads"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 20000 } else { 700 }
    }
    fn real_components(&self) -> &'static str {
        super::hist::REAL
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(2, 6);
        let wrong = *r.pick(&[0.0, 0.05, 0.1]);
        let lib = Library::random(&mut r, n, wrong);
        let mut l = lib.clone();
        let mut ops = vec![];
        if r.chance(0.5) {
            ops.push(Op::Run { req: Req::verify(r.range(1, 3) as usize), slot: 0, fs: FsPlan::default() });
            let n = r.range(0, 3);
            some_edits(&mut r, &mut l, n, &mut ops);
        }
        let mut q = Req::verify(1);
        match r.below(10) {
            0..=4 => {}
            5 => q.ignore_hash = true,
            6 => q.force_search = true,
            7 => q.target = target(&mut r, &l),
            8 => q.mode = "check".into(),
            _ => q.handcrafted = false,
        }
        let jobs = r.range(2, 6);
        let dirs = r.next() >> 1;
        let mut p = plan_of(&mut r, &lib, ops, 2, json!({"req": q, "jobs2": jobs, "dirs": dirs}));
        let a = extra(&p, 0);
        p["scheds"][a] = serde_json::to_value(Sched { hash_seed: 1, ..Sched::default() }).unwrap();
        p
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        for op in ops(plan) {
            match op {
                Op::Edit(e) => drop(w.edit(&e)),
                Op::Run { req, slot, fs } => drop(w.run(slot, &req, &fs)),
                _ => {}
            }
            if w.failed() {
                return w.finish(None);
            }
        }
        let q: Req = serde_json::from_value(plan["req"].clone()).unwrap();
        if q.target.as_ref().map_or(false, |t| w.lib.module(t).is_none()) {
            return w.finish(None);
        }
        let mut q2 = q.clone();
        q2.jobs = plan["jobs2"].as_u64().unwrap() as usize;
        let fp = FsPlan { readdir_seed: plan["dirs"].as_u64().unwrap(), ..Default::default() };
        let a = w.try_run(extra(plan, 0), &q, &FsPlan::default());
        let b = w.try_run(extra(plan, 1), &q2, &fp);
        w.rep.nontrivial = b.stats.switches > 1;
        for p in [&a, &b] {
            if let Some((k, m)) = bad_end(p) {
                w.fail(&k, m);
            }
        }
        let (Some(oa), Some(ob)) = (Outcome::of(&a), Outcome::of(&b)) else { return w.finish(None) };
        if std::env::var_os("SIM_SHOW").is_some() {
            println!("== {}\n{}\n== {}\n{}", show_req(&q), a.text, show_req(&q2), b.text);
        }
        w.judge(&q, &oa);
        w.judge(&q2, &ob);
        w.rep.probe(&format!("{} {}", q.mode, oa.class()));
        let how = format!("{} and --jobs {}", show_req(&q), q2.jobs);
        // A build that ends early reports what it had found by then.
        if oa.class() != ob.class() {
            w.fail("status", format!("{} or {} ({how}); {:?} {:?} {:?} {:?}", oa.class(), ob.class(), oa.err, oa.diags, ob.err, ob.diags));
        } else if oa.class() != "Error" {
            if oa.diags != ob.diags {
                w.fail("diags", format!("diagnostics differ: {:?} or {:?} ({how})", oa.diags, ob.diags));
            }
            if oa.verified != ob.verified {
                w.fail("verified", format!("verified claims differ: {:?} or {:?} ({how})", oa.verified, ob.verified));
            }
            if oa.n != ob.n {
                w.fail("counts", format!("counts differ: {:?} or {:?} ({how})", oa.n, ob.n));
            }
        }
        let (x, y) = (a.fs.files("/sim"), b.fs.files("/sim"));
        for k in x.keys().chain(y.keys()) {
            if x.get(k) != y.get(k) {
                let t = |v: Option<&Vec<u8>>| v.map(|v| String::from_utf8_lossy(v).into_owned());
                w.fail("files", format!("{k} differs ({how}):\n{:?}\n{:?}", t(x.get(k)), t(y.get(k))));
            }
        }
        w.finish(Some(&oa))
    }
}
