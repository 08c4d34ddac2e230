//! What a build may throw away of the proofs stored before it.
use super::common::*;
use super::hist::REAL;
use super::world::*;
use crate::fs::FsPlan;
use crate::harness::*;
use crate::lib_ac::Library;
use crate::rt::Rng;
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// P22: only a build that succeeds throws stored proofs away.
pub struct Keep;

type Stores = BTreeMap<String, Vec<(String, String)>>;

/// For every file of stored proofs, its proofs as goal and text.
fn stores(files: &BTreeMap<String, Vec<u8>>) -> Stores {
    files
        .iter()
        .filter(|(k, _)| k.ends_with(".jsonl"))
        .map(|(k, d)| {
            let certs = String::from_utf8_lossy(d)
                .lines()
                .filter_map(|l| serde_json::from_str::<Value>(l).ok().map(|v| (v["goal"].as_str().unwrap_or("").to_string(), l.to_string())))
                .collect();
            (k.clone(), certs)
        })
        .collect()
}

/// A proof of `old` that is not in `new`; equal proofs count as often as they are stored.
fn lost(old: &Stores, new: &Stores) -> Option<String> {
    for (f, certs) in old {
        let empty = vec![];
        let mut left: Vec<&(String, String)> = new.get(f).unwrap_or(&empty).iter().collect();
        for c in certs {
            match left.iter().position(|x| *x == c) {
                Some(i) => drop(left.remove(i)),
                None => return Some(format!("{f} has lost a proof of {:?} ({} proofs before, {} now)", c.0, certs.len(), new.get(f).map_or(0, |v| v.len()))),
            }
        }
    }
    None
}

impl Scenario for Keep {
    fn property(&self) -> &'static str {
        "P22"
    }
    fn rule(&self) -> &'static str {
        "a run verifies a random project all of whose claims hold, then makes edits that leave false or unloadable parts and builds in between (full, one module, one line, fail-fast, forced; some killed, without power or refused by the disk): a build that does not succeed may not lose any stored proof; then the user takes the edits back, and one verify with the old sources must succeed without searching for any proof; non-trivial when some build stored anything while the project was wrong"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 20000 } else { 600 }
    }
    fn real_components(&self) -> &'static str {
        REAL
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 4);
        let lib = Library::random(&mut r, n, 0.0);
        let mut l = lib.clone();
        let mut ops = vec![Op::Run { req: Req::verify(r.range(1, 4) as usize), slot: 0, fs: FsPlan::default() }];
        for _ in 0..r.range(1, 3) {
            for _ in 0..8 {
                let n = r.range(1, 2);
                some_edits(&mut r, &mut l, n, &mut ops);
                if !l.all_good() {
                    break;
                }
            }
            for _ in 0..r.range(1, 2) {
                let mut fs = FsPlan { readdir_seed: r.next() >> 1, ..Default::default() };
                let n = l.modules.len() as u64;
                if r.chance(0.25) {
                    fs.faults.push(write_fault(&mut r, n, &["kill", "power", "eio", "enospc", "short", "eacces"]));
                }
                let mut req = rand_verify(&mut r, &l);
                if req.mode == "check" {
                    req.mode = "verify".into();
                }
                ops.push(Op::Run { req, slot: 0, fs });
            }
        }
        let jobs = r.range(1, 4);
        plan_of(&mut r, &lib, ops, 1, json!({ "back_jobs": jobs }))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        let start = w.lib.clone();
        let mut first = true;
        // A build that succeeds on other sources may drop what those do not need.
        let mut kept = true;
        for op in ops(plan) {
            match op {
                Op::Edit(e) => drop(w.edit(&e)),
                Op::Run { req, slot, fs } => {
                    if req.target.as_ref().map_or(false, |t| w.lib.module(t).is_none()) {
                        continue;
                    }
                    let before = w.fs.files(ROOT);
                    let (p, o) = if fs.faults.is_empty() { w.run(slot, &req, &fs) } else { w.run_faulty(slot, &req, &fs) };
                    let good = o.as_ref().map_or(false, |o| o.good());
                    if first {
                        first = false;
                        if !good {
                            w.rep.probe("the project was not good to begin with");
                            return w.finish(o.as_ref());
                        }
                        continue;
                    }
                    let after = w.fs.files(ROOT);
                    // A power loss may leave a whole new file of a build that was about to
                    // succeed; a kill between two files too.
                    let ended = matches!(p.out, Out::Done(_)) && o.is_some();
                    if ended && !good && req.force_search {
                        // Its results replace what was stored.
                        kept = false;
                    } else if ended && !good {
                        w.rep.nontrivial |= before != after;
                        if let Some(m) = lost(&stores(&before), &stores(&after)) {
                            w.fail("lost", format!("{m}, in a build that ended {:?} {:?} (in {})", o.as_ref().map(|o| &o.status), o.as_ref().and_then(|o| o.err.clone()), show_req(&req)));
                        }
                    } else if lost(&stores(&before), &stores(&after)).is_some() {
                        kept = false;
                        w.rep.probe(if ended { "a good build dropped proofs" } else { "a build that was killed dropped proofs" });
                    }
                }
                _ => {}
            }
            if w.failed() {
                return w.finish(None);
            }
        }
        if kept {
            // The user takes everything back.
            w.lib = start;
            put_lib(&mut w.fs, &w.lib);
            let q = Req::verify(plan["back_jobs"].as_u64().unwrap() as usize);
            let (_, o) = w.run(extra(plan, 0), &q, &FsPlan::default());
            if let Some(o) = &o {
                w.judge(&q, o);
                w.rep.probe("the old sources came back");
                if o.good() && o.n["searches_total"] > 0 {
                    w.fail("searched", format!("back at sources that had been verified, without a successful build of others in between, {} claims had to be proved again", o.n["searches_total"]));
                }
            }
            return w.finish(o.as_ref());
        }
        w.finish(None)
    }
}
