//! P21: simplifying a proof removes claims from it and does nothing else.
use super::common::*;
use super::hist::REAL;
use super::world::*;
use crate::fs::{self, Fault, FsPlan, MemFs};
use crate::harness::*;
use crate::lib_ac::Library;
use crate::rt::{self, Quiet, Rng, Sched};
use acorn::simplifier::{simplify_file, SimplifyOptions};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::path::Path;

const FILE: &str = "src/s.ac";

pub struct Simplify;

/// A line of the file that is simplified: its text, and whether it is (part of) a claim inside
/// a proof.  Lines of one claim carry the same number.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Line(String, u64);

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ask {
    #[serde(default)]
    from: String,
    target: String,
    activations: i32,
    dry: bool,
}

/// A module whose proofs hold more than they need.
fn source(r: &mut Rng, lib: &Library) -> Vec<Line> {
    let mut v: Vec<Line> = vec![];
    let mut claim = 0;
    let k = lib.k as u64;
    let fixed = |v: &mut Vec<Line>, s: String| v.push(Line(s, 0));
    fixed(&mut v, if lib.prelude { "// Uses the prelude." } else { "from base import Tok" }.into());
    let nf = r.range(1, 2);
    let mut own: Vec<Vec<u8>> = vec![];
    for f in 0..nf {
        let t: Vec<u8> = (0..k).map(|_| r.below(k) as u8).collect();
        fixed(&mut v, format!("define sf{f}(x: Tok) -> Tok {{"));
        fixed(&mut v, "    match x {".into());
        for (a, b) in t.iter().enumerate() {
            fixed(&mut v, format!("        Tok.c{a} {{ Tok.c{b} }}"));
        }
        fixed(&mut v, "    }".into());
        fixed(&mut v, "}".into());
        own.push(t);
    }
    for t in 0..r.range(1, 3) {
        if r.chance(0.3) {
            fixed(&mut v, format!("// Something about {t}."));
        }
        let (f, g) = (r.below(nf) as usize, r.below(nf) as usize);
        let a = r.below(k) as usize;
        let res = own[g][own[f][a] as usize];
        let all = r.chance(0.5);
        // (With the other statement in front, other cases than its own would be contradictory.)
        let cases = all && r.chance(0.4);
        if cases {
            let v2: Vec<String> = (0..k).map(|c| format!("x = Tok.c{c}")).collect();
            fixed(&mut v, format!("theorem st{t}(x: Tok) {{"));
            fixed(&mut v, format!("    {}", v2.join(" or ")));
        } else if all {
            fixed(&mut v, format!("theorem st{t}(x: Tok) {{"));
            fixed(&mut v, format!("    x = Tok.c{a} implies sf{g}(sf{f}(x)) = Tok.c{res}"));
        } else {
            fixed(&mut v, format!("theorem st{t} {{"));
            fixed(&mut v, format!("    sf{g}(sf{f}(Tok.c{a})) = Tok.c{res}"));
        }
        fixed(&mut v, "} by {".into());
        let mut some = |r: &mut Rng, v: &mut Vec<Line>, ind: &str, n: u64| {
            for _ in 0..n {
                let h = r.below(nf) as usize;
                let b = r.below(k) as usize;
                claim += 1;
                match r.below(6) {
                    0 => {
                        v.push(Line(format!("{ind}sf{h}("), claim));
                        v.push(Line(format!("{ind}    Tok.c{b}"), claim));
                        v.push(Line(format!("{ind}) = Tok.c{}", own[h][b]), claim));
                    }
                    1 => {
                        let c = own[h][b];
                        v.push(Line(format!("{ind}exists(y: Tok) {{ sf{h}(y) = Tok.c{c} }}"), claim));
                    }
                    2 => {
                        v.push(Line(format!("{ind}// Now comes a step."), 0));
                        v.push(Line(format!("{ind}sf{h}(Tok.c{b}) = Tok.c{}", own[h][b]), claim));
                    }
                    _ => v.push(Line(format!("{ind}sf{h}(Tok.c{b}) = Tok.c{}", own[h][b]), claim)),
                }
            }
        };
        let n = r.range(0, 3);
        some(r, &mut v, "    ", n);
        if all && r.chance(0.6) {
            v.push(Line(format!("    if x = Tok.c{a} {{"), 0));
            let n = r.range(1, 2);
            some(r, &mut v, "        ", n);
            v.push(Line("    }".into(), 0));
        }
        if cases {
            v.push(Line("    match x {".into(), 0));
            for c in 0..k {
                v.push(Line(format!("        Tok.c{c} {{"), 0));
                some(r, &mut v, "            ", 1);
                v.push(Line("        }".into(), 0));
            }
            v.push(Line("    }".into(), 0));
        }
        let n = r.range(0, 2);
        some(r, &mut v, "    ", n);
        fixed(&mut v, "}".into());
        if r.chance(0.3) {
            // What this says to the rest of the file is its last claim.
            let (f, a) = (r.below(nf) as usize, r.below(k) as usize);
            fixed(&mut v, "forall(x: Tok) {".into());
            fixed(&mut v, format!("    if x = Tok.c{a} {{"));
            let n = r.range(0, 1);
            let mut more = vec![];
            for _ in 0..n {
                let b = r.below(k) as usize;
                more.push((b, own[f][b]));
            }
            for (b, c) in more {
                v.push(Line(format!("        sf{f}(Tok.c{b}) = Tok.c{c}"), 1_000_000 + v.len() as u64));
            }
            fixed(&mut v, format!("        sf{f}(x) = Tok.c{}", own[f][a]));
            fixed(&mut v, "    }".into());
            fixed(&mut v, "}".into());
        }
    }
    v
}

fn text(v: &[Line]) -> String {
    v.iter().map(|l| format!("{}\n", l.0)).collect()
}

/// What must not be gone, or half gone: `now` has to be `was` without some of its claims.
fn beyond(was: &[Line], now: &str) -> Option<String> {
    let have: Vec<&str> = now.lines().collect();
    // Matches greedily; equal claims cannot be told apart, so any match will do.
    fn go(was: &[Line], have: &[&str]) -> bool {
        let Some(l) = was.first() else { return have.is_empty() };
        if l.1 == 0 {
            return have.first() == Some(&&l.0[..]) && go(&was[1..], &have[1..]);
        }
        let n = was.iter().take_while(|x| x.1 == l.1).count();
        if have.len() >= n && was[..n].iter().zip(have).all(|(a, b)| a.0 == *b) && go(&was[n..], &have[n..]) {
            return true;
        }
        go(&was[n..], have)
    }
    if !now.is_empty() && !now.ends_with('\n') {
        return Some("its last line is torn".into());
    }
    (!go(was, &have)).then(|| format!("it is not the old one without some of the claims:\n{}\nbecame\n{now}", text(was)))
}

fn run_it(a: &Ask) -> Value {
    let o = SimplifyOptions { timeout_secs: 3600.0, activation_limit: a.activations, dry_run: a.dry };
    match simplify_file(&Path::new(ROOT).join(&a.from), &a.target, o) {
        Ok(r) => {
            let _q = Quiet::new();
            let rem: Vec<(u32, u32)> = r.removed.iter().map(|x| (x.first_line, x.last_line)).collect();
            json!({"ok": true, "removed": rem, "considered": r.considered, "path": r.target_path})
        }
        Err(e) => json!({ "err": e }),
    }
}

/// The user adds a line at the top of the file while the tool works on it.  Tells how long after
/// that the tool wrote over it.
fn edited_meanwhile(a: &Ask, wait: u64, seed: u64) -> Value {
    let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let d2 = done.clone();
    let ed = std::thread::spawn(move || {
        rt::set_pid(2);
        let mut r = Rng::new(seed);
        for _ in 0..wait {
            rt::sleep_ns(1 + r.below(400_000));
        }
        let path = format!("{ROOT}/{FILE}");
        if d2.load(std::sync::atomic::Ordering::SeqCst) {
            return json!({});
        }
        let old = std::fs::read_to_string(&path).unwrap_or_default();
        let tmp = format!("{ROOT}/src/.s.ac.swp");
        let _ = std::fs::write(&tmp, format!("// mine\n{old}"));
        let base = fs::fs().get(&path).cloned();
        if base.as_ref().map(|b| &b[..]) != Some(old.as_bytes()) {
            // Written in between; then an editor asks its user, who goes on.
            let _ = std::fs::remove_file(&tmp);
            return json!({});
        }
        let _ = std::fs::rename(&tmp, &path);
        let at = rt::now_mono();
        loop {
            let gone = fs::fs().get(&path).map_or(true, |b| !b.starts_with(b"// mine\n"));
            if gone {
                return json!({"edited": true, "lost": rt::now_mono() - at});
            }
            if d2.load(std::sync::atomic::Ordering::SeqCst) {
                return json!({"edited": true});
            }
            rt::sleep_ns(50_000);
        }
    });
    let o = run_it(a);
    done.store(true, std::sync::atomic::Ordering::SeqCst);
    let e = ed.join().unwrap();
    json!({"out": o, "ed": e})
}

impl Scenario for Simplify {
    fn property(&self) -> &'static str {
        "P21"
    }
    fn rule(&self) -> &'static str {
        "a run is a small project with one module whose proofs hold claims they may not need (in by-blocks, if-blocks, match arms, forall-blocks, some spanning lines), perhaps verified before, that is simplified - undisturbed, as a dry run, and with the process killed, power lost, failing writes, or the user editing the file meanwhile; the file has to stay the old one without some of its claims, whole lines at a time, be one of the states the undisturbed run goes through, and verify; a dry run changes nothing and tells what the real one removes; an edit of the user's is not written over; non-trivial when a claim was removed"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 20000 } else { 500 }
    }
    fn real_components(&self) -> &'static str {
        REAL
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(0, 2);
        let lib = Library::random(&mut r, n, 0.0);
        let mut ops = vec![];
        if r.chance(0.5) {
            ops.push(Op::Run { req: Req::verify(r.range(1, 3) as usize), slot: 0, fs: FsPlan::default() });
        }
        let (from, target) = *r.pick(&[
            ("", "s"),
            ("", "src/s.ac"),
            ("", "./src/s.ac"),
            ("src", "s.ac"),
            ("src", "s"),
            ("src", "./s.ac"),
            ("", "/w/p/src/s.ac"),
        ]);
        let ask = Ask { from: from.into(), target: target.replace("/w/p", ROOT), activations: *r.pick(&[3, 10, 30, 100]), dry: false };
        let mut fs = FsPlan { readdir_seed: r.next() >> 1, ..Default::default() };
        let act = r.pick(&["kill", "kill", "power", "power", "eio", "enospc", "short"]).to_string();
        fs.faults.push(Fault {
            class: "mut".into(),
            nth: r.log_range(1, 60),
            path: r.pick(&["", "", "s.ac", "certs"]).to_string(),
            param: r.next() >> 16,
            repeat: if act == "enospc" || act == "eio" { *r.pick(&[0, 0, 1, 1000]) } else { 0 },
            act,
        });
        let mode = *r.pick(&["fault", "fault", "edit", "dry"]);
        let s = source(&mut r, &lib);
        let wait = r.log_range(1, 3000);
        let jobs = [r.range(1, 3), r.range(1, 3), r.range(1, 3)];
        let mut p = plan_of(&mut r, &lib, ops, 6, json!({"jobs": jobs, "ask": ask, "fs": fs, "mode": mode, "s": s, "wait": wait}));
        let a = extra(&p, 3);
        p["scheds"][a] = serde_json::to_value(Sched { hash_seed: 1, ..Sched::default() }).unwrap();
        p
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        // (The library it has is without the file that is simplified.)
        w.loose = true;
        let was: Vec<Line> = serde_json::from_value(plan["s"].clone()).unwrap();
        let ask: Ask = serde_json::from_value(plan["ask"].clone()).unwrap();
        let full = format!("{ROOT}/{FILE}");
        w.fs.put(&full, text(&was).as_bytes());
        for op in ops(plan) {
            if let Op::Run { req, slot, fs } = op {
                let (_, o) = w.run(slot, &req, &fs);
                if let Some(o) = o {
                    if !o.good() {
                        w.fail("broken", format!("the project does not verify: {} {:?} {:?}", o.status, o.err, o.diags));
                    }
                }
            }
        }
        if w.failed() {
            return w.finish(None);
        }
        let base = copy(&w.fs);
        let sources = |f: &MemFs| -> Vec<(String, Vec<u8>)> {
            f.files(ROOT).into_iter().filter(|(k, _)| k.ends_with(".ac") && k != FILE || k.ends_with(".toml")).collect()
        };
        let file = |f: &MemFs| f.get(&full).map(|d| String::from_utf8_lossy(d).into_owned()).unwrap_or_default();
        let show = std::env::var_os("SIM_SHOW").is_some();
        // Undisturbed.
        let a2 = ask.clone();
        let p = phase(copy(&base), &FsPlan::default(), false, &w.sched(extra(plan, 3)), move || run_it(&a2));
        w.rep.add(extra(plan, 3), &p);
        if let Some((k, m)) = bad_end(&p) {
            w.fail(&k, format!("{m} (in simplify {})", ask.target));
            return w.finish(None);
        }
        let v = p.done().unwrap().clone();
        if show {
            println!("== {v}\n{}\n{}", text(&was), file(&p.fs));
        }
        if let Some(e) = v["err"].as_str() {
            w.fail("refused", format!("simplify failed on a project that verifies: {e}\n{}", text(&was)));
            return w.finish(None);
        }
        let removed: Vec<(usize, usize)> = serde_json::from_value(v["removed"].clone()).unwrap();
        w.rep.nontrivial = !removed.is_empty();
        w.rep.probe(&format!("{} claims removed", removed.len().min(5)));
        // The states the file goes through.
        let mut states = vec![text(&was)];
        for (a, b) in &removed {
            let mut l: Vec<String> = states.last().unwrap().split_inclusive('\n').map(|s| s.to_string()).collect();
            if b >= &l.len() || a > b {
                w.fail("report", format!("simplify says it removed lines {a} to {b} of {}", l.len()));
                return w.finish(None);
            }
            l.drain(*a..=*b);
            states.push(l.concat());
        }
        if file(&p.fs) != *states.last().unwrap() {
            w.fail("report", format!("what simplify says it removed, {removed:?}, does not make\n{}\nof\n{}", file(&p.fs), text(&was)));
        }
        for s in &states {
            if let Some(m) = beyond(&was, s) {
                w.fail("beyond", m);
            }
        }
        if sources(&p.fs) != sources(&base) {
            w.fail("others", "simplify changed other sources".into());
        }
        if w.failed() {
            return w.finish(None);
        }
        let mode = plan["mode"].as_str().unwrap();
        let slot = extra(plan, 4);
        w.rep.probe(mode);
        if mode == "dry" {
            let a2 = Ask { dry: true, ..ask.clone() };
            let p = phase(copy(&base), &FsPlan::default(), false, &w.sched(slot), move || run_it(&a2));
            w.rep.add(slot, &p);
            if p.n_mut > 0 {
                w.fail("dry-writes", format!("a dry run changed the disk: {:?}", p.oplog));
            }
            match p.done() {
                Some(d) if d["removed"] != v["removed"] => {
                    w.fail("dry-differs", format!("a dry run would remove {} but the real one removes {}", d["removed"], v["removed"]))
                }
                None => w.fail("dry-died", format!("a dry run ended as {:?}", p.out)),
                _ => {}
            }
        }
        let edit = mode == "edit";
        let fp: FsPlan = if mode == "fault" { serde_json::from_value(plan["fs"].clone()).unwrap() } else { FsPlan::default() };
        let (a2, wait) = (ask.clone(), plan["wait"].as_u64().unwrap());
        let mut p = phase(copy(&base), &fp, false, &w.sched(slot), move || {
            if edit {
                edited_meanwhile(&a2, wait, wait)
            } else {
                json!({"out": run_it(&a2), "ed": {}})
            }
        });
        w.rep.add(slot, &p);
        if show {
            println!("== {mode} {:?} {:?}\n{}", p.out, p.fired, file(&p.fs));
        }
        match &p.out {
            Out::Stuck(m) => w.fail("stuck", format!("simplify makes no progress: {m}")),
            Out::Died(m) => w.fail("died", format!("simplify died: {m}")),
            Out::Panicked(m) => w.fail("panic", format!("simplify panicked: {m} (faults {:?})", p.fired)),
            _ => {}
        }
        w.fs = std::mem::take(&mut p.fs);
        w.fs.plan = FsPlan::default();
        let now = file(&w.fs);
        let d = p.done().cloned().unwrap_or(Value::Null);
        if d["ed"]["edited"] == json!(true) {
            w.rep.probe("edited meanwhile");
            *w.rep.fired.entry("edit by the user".into()).or_insert(0) += 1;
            if let Some(ns) = d["ed"]["lost"].as_u64() {
                w.rep.probe("edit written over");
                // Between its last look at the file and the replacement of it nothing can be done.
                if ns > 20_000_000 {
                    w.fail("edit-lost", format!("simplify wrote over an edit made {ns} simulated ns before"));
                }
            } else if let Some(m) = beyond(&was, now.strip_prefix("// mine\n").unwrap_or(&now)) {
                w.fail("beyond", m);
            }
        } else {
            if !states.contains(&now) {
                w.fail("state", format!("a disturbed simplify (faults {:?}) left\n{now}\nwhich is none of the states of\n{}", p.fired, text(&was)));
            }
            if d["out"]["ok"] == json!(true) && now != *states.last().unwrap() {
                w.fail("state", format!("simplify succeeded (faults {:?}) and left\n{now}\ninstead of\n{}", p.fired, states.last().unwrap()));
            }
            if p.fired.is_empty() && d["out"]["ok"] != json!(true) {
                w.fail("refused", format!("simplify failed undisturbed: {d}"));
            }
        }
        if sources(&w.fs) != sources(&base) {
            w.fail("others", "simplify changed other sources".into());
        }
        if w.failed() {
            return w.finish(None);
        }
        let o = w.final_check(plan, false);
        if let Some(o) = &o {
            if !o.good() && !w.failed() {
                w.fail("broken", format!("the project does not verify after simplify (faults {:?}): {} {:?} {:?}", p.fired, o.status, o.err, o.diags));
            }
        }
        // The file with what the undisturbed run made of it.
        if !w.failed() && !removed.is_empty() && now != *states.last().unwrap() {
            w.fs = copy(&base);
            w.fs.put(&full, states.last().unwrap().as_bytes());
            if let (_, Some(o)) = w.run(extra(plan, 5), &Req::verify(1), &FsPlan::default()) {
                if !o.good() {
                    w.fail("broken", format!("the project does not verify after simplify: {} {:?} {:?}", o.status, o.err, o.diags));
                }
            }
        }
        w.finish(o.as_ref())
    }
}
