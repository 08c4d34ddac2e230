//! P07: stored proofs that were damaged, mixed up or made up never prove anything false, and
//! never bring the tool down.
use super::common::*;
use super::hist::REAL;
use super::world::*;
use crate::fs::{FsPlan, MemFs};
use crate::harness::*;
use crate::lib_ac::{Edit, Library};
use crate::rt::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub struct Forge;

/// One act of damage; everything it does follows from `kind`, `seed` and the files there are.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damage {
    kind: String,
    seed: u64,
}

const KINDS: [&str; 17] = [
    "flip", "truncate", "zero", "garbage", "delete", "empty", "swap-files", "old-file", "lines", "goal", "steps", "steps", "steps", "constants",
    "constants", "claim", "forge",
];

fn stores(f: &MemFs) -> Vec<String> {
    f.files(&format!("{ROOT}/src"))
        .into_keys()
        .filter(|p| p.ends_with(".jsonl"))
        .map(|p| format!("{ROOT}/src/{p}"))
        .collect()
}
fn manifests(f: &MemFs) -> Vec<String> {
    f.files(&format!("{ROOT}/src"))
        .into_keys()
        .filter(|p| p.ends_with("manifest.json"))
        .map(|p| format!("{ROOT}/src/{p}"))
        .collect()
}

fn lines(b: &[u8]) -> Vec<Value> {
    String::from_utf8_lossy(b).lines().filter_map(|l| serde_json::from_str(l).ok()).collect()
}
fn unlines(v: &[Value]) -> Vec<u8> {
    v.iter().map(|x| format!("{x}\n")).collect::<String>().into_bytes()
}

/// Replaces some or all constants of the text.
fn other_constants(r: &mut Rng, t: &str, k: u8) -> String {
    let (a, b) = (r.below(k as u64), r.below(k as u64));
    let from = format!("Tok.c{a}");
    let to = format!("Tok.c{b}");
    if r.chance(0.5) {
        t.replace(&from, &to)
    } else {
        let n = t.matches(&from).count() as u64;
        if n == 0 {
            return t.into();
        }
        let at = t.match_indices(&from).nth(r.below(n) as usize).unwrap().0;
        format!("{}{}{}", &t[..at], to, &t[at + from.len()..])
    }
}

/// Texts of claims: the false ones of the library among them.
fn claims(lib: &Library) -> Vec<(String, String)> {
    let mut out = vec![];
    for m in &lib.modules {
        let (text, goals) = lib.render(m);
        let ls: Vec<&str> = text.lines().collect();
        for g in goals {
            let l = if g.lines.0 == g.lines.1 { g.lines.0 } else { g.lines.0 + 1 };
            let c = ls.get(l as usize).map_or("", |s| s.trim()).to_string();
            let name = if g.name.contains('/') || g.name == "block" { c.clone() } else { g.name.clone() };
            out.push((name, c));
        }
    }
    out
}

fn random_claim(r: &mut Rng, lib: &Library, all: &[Value]) -> String {
    let cs = claims(lib);
    match r.below(9) {
        0 => "false".into(),
        1 => "true".into(),
        2 if !cs.is_empty() => format!("not ({})", r.pick(&cs).1),
        3..=5 if !cs.is_empty() => r.pick(&cs).1.clone(),
        6 => {
            let n = r.range(1, 200) as usize;
            format!("{}true{}", "(".repeat(n), ")".repeat(n))
        }
        7 => {
            let a = r.below(lib.k as u64);
            let b = r.below(lib.k as u64);
            format!("Tok.c{a} = Tok.c{b}")
        }
        _ => {
            let v: Vec<String> = all
                .iter()
                .flat_map(|c| c["p"].as_array().cloned().unwrap_or_default())
                .filter_map(|s| s["c"].as_str().map(|s| s.to_string()))
                .collect();
            if v.is_empty() {
                "Tok.c0 = Tok.c0".into()
            } else {
                r.pick(&v).clone()
            }
        }
    }
}

fn random_step(r: &mut Rng, lib: &Library, all: &[Value], n: u64) -> Value {
    let mut s = json!({"c": random_claim(r, lib, all)});
    mutate_step(r, &mut s, n);
    s
}
fn mutate_step(r: &mut Rng, s: &mut Value, n: u64) {
    if r.chance(0.7) {
        s["r"] = json!(*r.pick(&["fact", "claim", "br", "br_intro", "eq", "er", "ef", "ext", "inj", "inst", "wit", "contra"]));
    }
    if r.chance(0.5) {
        let k = r.below(4);
        s["f"] = json!((0..k).map(|_| r.below(n + 2)).collect::<Vec<_>>());
    }
    if r.chance(0.3) {
        s["g"] = json!(r.chance(0.5));
    }
    if r.chance(0.3) {
        s["k"] = json!(*r.pick(&["neg_exists", "forall", "exists", "not_exists", "neg_and", "and", "or", "neg_or", "implies", "iff", "neg_iff", "ite"]));
    }
    if r.chance(0.3) {
        s["i"] = json!(r.below(5));
    }
}

fn damage(f: &mut MemFs, lib: &Library, old: &BTreeMap<String, Vec<u8>>, d: &Damage) -> Option<String> {
    let mut r = Rng::new(d.seed);
    let st = stores(f);
    if st.is_empty() {
        return None;
    }
    let bytes = ["flip", "truncate", "zero", "garbage", "delete", "empty"].contains(&d.kind.as_str());
    let ms = manifests(f);
    let path = if bytes && r.chance(0.3) && !ms.is_empty() { r.pick(&ms).clone() } else { r.pick(&st).clone() };
    let mut b = f.get(&path)?.to_vec();
    let all: Vec<Value> = st.iter().flat_map(|p| lines(f.get(p).unwrap())).collect();
    let mut ls = lines(&b);
    match d.kind.as_str() {
        "flip" => {
            for _ in 0..r.range(1, 3) {
                if !b.is_empty() {
                    let i = r.below(b.len() as u64) as usize;
                    b[i] ^= 1 << r.below(8);
                }
            }
        }
        "truncate" => b.truncate(r.below(b.len() as u64 + 1) as usize),
        "zero" => {
            if !b.is_empty() {
                let i = r.below(b.len() as u64) as usize;
                let n = r.range(1, 64) as usize;
                for x in b.iter_mut().skip(i).take(n) {
                    *x = 0;
                }
            }
        }
        "garbage" => {
            let i = r.below(b.len() as u64 + 1) as usize;
            let n = r.range(1, 40);
            let g: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
            b.splice(i..i, g);
        }
        "delete" => {
            f.del(&path);
            return Some(format!("delete {path}"));
        }
        "empty" => b.clear(),
        "swap-files" => {
            let q = r.pick(&st).clone();
            let c = f.get(&q)?.to_vec();
            f.put(&q, &b);
            b = c;
        }
        "old-file" => {
            // A stored file as it was at an earlier time, whatever the others are now.
            let olds: Vec<&String> = old.keys().collect();
            if olds.is_empty() {
                return None;
            }
            let k = (*r.pick(&olds)).clone();
            f.put(&format!("{ROOT}/src/{k}"), &old[&k]);
            return Some(format!("old {k}"));
        }
        "lines" => {
            for _ in 0..r.range(1, 3) {
                let n = ls.len() as u64;
                match r.below(4) {
                    0 if n > 0 => drop(ls.remove(r.below(n) as usize)),
                    1 if n > 0 => {
                        let x = ls[r.below(n) as usize].clone();
                        ls.insert(r.below(n + 1) as usize, x);
                    }
                    2 if n > 1 => ls.swap(r.below(n) as usize, r.below(n) as usize),
                    _ if !all.is_empty() => ls.insert(r.below(n + 1) as usize, r.pick(&all).clone()),
                    _ => {}
                }
            }
            b = unlines(&ls);
        }
        "goal" => {
            let cs = claims(lib);
            if !ls.is_empty() && !cs.is_empty() {
                let i = r.below(ls.len() as u64) as usize;
                ls[i]["goal"] = if r.chance(0.5) { json!(r.pick(&cs).0) } else { r.pick(&all)["goal"].clone() };
            }
            b = unlines(&ls);
        }
        "steps" | "claim" => {
            for _ in 0..r.range(1, 3) {
                let with: Vec<usize> = (0..ls.len()).filter(|i| d.kind == "claim" || ls[*i]["p"].as_array().map_or(false, |p| !p.is_empty())).collect();
                if with.is_empty() {
                    break;
                }
                let i = *r.pick(&with);
                let mut p = ls[i]["p"].as_array().cloned().unwrap_or_default();
                let n = p.len() as u64;
                match r.below(6) {
                    0 if n > 0 => drop(p.remove(r.below(n) as usize)),
                    1 if n > 1 => p.swap(r.below(n) as usize, r.below(n) as usize),
                    2 if n > 0 => {
                        let j = r.below(n) as usize;
                        mutate_step(&mut r, &mut p[j], n)
                    }
                    3 if n > 0 => {
                        let j = r.below(n) as usize;
                        p[j]["c"] = json!(random_claim(&mut r, lib, &all))
                    }
                    4 if !all.is_empty() => {
                        let q = r.pick(&all)["p"].as_array().cloned().unwrap_or_default();
                        p.extend(q);
                    }
                    _ => {
                        let s = random_step(&mut r, lib, &all, n);
                        p.insert(r.below(n + 1) as usize, s);
                    }
                }
                ls[i]["p"] = json!(p);
            }
            b = unlines(&ls);
        }
        "constants" => {
            for _ in 0..r.range(1, 4) {
                if ls.is_empty() {
                    break;
                }
                let i = r.below(ls.len() as u64) as usize;
                let t = other_constants(&mut r, &ls[i].to_string(), lib.k);
                if let Ok(v) = serde_json::from_str(&t) {
                    ls[i] = v;
                }
            }
            b = unlines(&ls);
        }
        "forge" => {
            // A made-up proof of a claim, most often of one that is false.
            let cs = claims(lib);
            let gs = lib.goals();
            let bad: Vec<usize> = (0..gs.len()).filter(|i| !gs[*i].truth).collect();
            if cs.is_empty() {
                return None;
            }
            let gi = if bad.is_empty() { r.below(cs.len() as u64) as usize } else { *r.pick(&bad) };
            let (name, text) = cs[gi.min(cs.len() - 1)].clone();
            let mut p = vec![];
            let n = r.range(0, 4);
            for _ in 0..n {
                p.push(random_step(&mut r, lib, &all, n));
            }
            if r.chance(0.5) {
                let mut s = json!({"c": text});
                mutate_step(&mut r, &mut s, n);
                p.push(s);
            }
            // Into the store of its module, wherever that is.
            let module = &gs[gi.min(gs.len() - 1)].module;
            let (dir, leaf) = module.rsplit_once('.').map_or((String::new(), module.clone()), |(a, b)| (format!("{}/", a.replace('.', "/")), b.to_string()));
            let want = format!("{ROOT}/src/{dir}certs/{leaf}.jsonl");
            let to = if f.get(&want).is_some() { want } else { path.clone() };
            let mut ls = lines(f.get(&to)?);
            let at = if r.chance(0.6) { 0 } else { r.below(ls.len() as u64 + 1) as usize };
            let goal = if r.chance(0.7) { name } else { text };
            if r.chance(0.5) {
                ls.retain(|c| c["goal"] != json!(goal));
            }
            ls.insert(at.min(ls.len()), json!({"goal": goal, "p": p}));
            f.put(&to, &unlines(&ls));
            return Some(format!("forge {goal}"));
        }
        _ => return None,
    }
    f.put(&path, &b);
    Some(format!("{} {path}", d.kind))
}

/// The name under which a goal's proof is stored, and its text.
fn stored_as(lib: &Library, g: &crate::lib_ac::Goal) -> (String, String) {
    let m = lib.module(&g.module).unwrap();
    let text = lib.render(m).0;
    let l = if g.lines.0 == g.lines.1 { g.lines.0 } else { g.lines.0 + 1 };
    let c = text.lines().nth(l as usize).map_or("", |s| s.trim()).to_string();
    (if g.name.contains('/') || g.name == "block" { c.clone() } else { g.name.clone() }, c)
}

/// Puts made-up proofs of false claims in front of what is stored for them.
fn forge(f: &mut MemFs, lib: &Library, seeds: &[u64]) -> u64 {
    let gs = unprovable(lib);
    let mut by: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    if gs.is_empty() {
        return 0;
    }
    for s in seeds {
        let g = &gs[(s % 3) as usize % gs.len()];
        let (name, text) = stored_as(lib, g);
        let (dir, leaf) = g.module.rsplit_once('.').map_or((String::new(), g.module.clone()), |(a, b)| (format!("{}/", a.replace('.', "/")), b.to_string()));
        let p = super::forger::forged(*s, lib, lib.module(&g.module).unwrap(), &text);
        by.entry(format!("{ROOT}/src/{dir}certs/{leaf}.jsonl")).or_default().push(json!({"goal": name, "p": p}));
    }
    for (path, mut v) in by {
        v.extend(f.get(&path).map(|b| lines(b)).unwrap_or_default());
        f.put(&path, &unlines(&v));
    }
    seeds.len() as u64
}

impl Scenario for Forge {
    fn property(&self) -> &'static str {
        "P07"
    }
    fn rule(&self) -> &'static str {
        "a run builds a random project, edits it (often making claims false), then damages stored files 1-8 times: flipped bits, truncation, zeroed ranges, garbage, deletion, files swapped or put back from an earlier state, certificates reordered, duplicated, renamed, moved between modules, with steps dropped, altered or invented, constants exchanged, and made-up certificates for false claims; check and verify in several variants must then neither fall over nor accept a false claim, and a verify that does not trust the manifests must restore a state in which everything is told truthfully and the check agrees; non-trivial when something was damaged"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 30000 } else { 700 }
    }
    fn shrink_keys(&self) -> &'static [&'static str] {
        &["ops", "damage", "reqs", "forged"]
    }
    fn real_components(&self) -> &'static str {
        REAL
    }
    fn gen(&self, seed: u64, th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 4);
        let wrong = *r.pick(&[0.0, 0.0, 0.05]);
        let lib = Library::random(&mut r, n, wrong);
        let mut l = lib.clone();
        let mut ops = vec![Op::Run { req: Req::verify(1), slot: 0, fs: FsPlan::default() }];
        if r.chance(0.3) {
            let n = r.range(1, 2);
            some_edits(&mut r, &mut l, n, &mut ops);
            ops.push(Op::Run { req: Req::verify(2), slot: 0, fs: FsPlan::default() });
        }
        // Claims that become false while their proofs stay.
        let made_up = r.chance(0.5);
        for _ in 0..if made_up { r.range(2, 5) } else { r.below(4) } {
            let ms: Vec<usize> = (0..l.modules.len()).filter(|i| !l.modules[*i].items.is_empty()).collect();
            if ms.is_empty() {
                break;
            }
            let module = *r.pick(&ms);
            let item = r.below(l.modules[module].items.len() as u64) as usize;
            let to = r.below(l.k as u64) as u8;
            let e = if r.chance(0.7) { Edit::SetRes { module, item, to } } else { Edit::SetTable { module, item, at: r.below(l.k as u64) as u8, to } };
            if l.apply(&e) {
                ops.push(Op::Edit(e));
            }
        }
        if r.chance(0.3) {
            some_edits(&mut r, &mut l, 1, &mut ops);
        }
        let dm: Vec<Damage> = (0..r.range(1, 8)).map(|_| Damage { kind: r.pick(&KINDS).to_string(), seed: r.next() >> 8 }).collect();
        let mut reqs = vec![Req::check(*r.pick(&[1, 2, 3]))];
        for _ in 0..r.range(0, 2) {
            reqs.push(match r.below(4) {
                0 => Req { strict: true, ..Req::check(1) },
                1 => Req { target: target(&mut r, &l), ..Req::verify(1) },
                2 => Req { ignore_hash: true, ..Req::verify(2) },
                _ => Req::verify(r.range(1, 3) as usize),
            });
        }
        let jobs = [r.range(1, 4), r.range(1, 4), r.range(1, 4)];
        // In every other run, a hundred made-up proofs instead.
        let mut fg: Vec<u64> = vec![];
        let mut dm = dm;
        if made_up {
            fg = (0..r.range(40, if th { 300 } else { 120 })).map(|_| r.next() >> 8).collect();
            if r.chance(0.8) {
                dm.clear();
            }
            let q = Req { activations: Some(2), ignore_hash: r.chance(0.3), ..Req::verify(r.range(1, 3) as usize) };
            reqs.insert(0, q);
            reqs.truncate(2);
        }
        plan_of(&mut r, &lib, ops, 6, json!({"damage": dm, "reqs": reqs, "jobs": jobs, "forged": fg}))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        let mut old = BTreeMap::new();
        for op in ops(plan) {
            match op {
                Op::Edit(e) => drop(w.edit(&e)),
                Op::Run { req, slot, fs } => {
                    let (_, o) = w.run(slot, &req, &fs);
                    if let Some(o) = o {
                        w.judge(&req, &o);
                    }
                    if old.is_empty() {
                        old = w.certs();
                    }
                }
                _ => {}
            }
            if w.failed() {
                return w.finish(None);
            }
        }
        let dm: Vec<Damage> = serde_json::from_value(plan["damage"].clone()).unwrap();
        let mut what = vec![];
        for d in &dm {
            if let Some(m) = damage(&mut w.fs, &w.lib, &old, d) {
                w.rep.nontrivial = true;
                *w.rep.fired.entry(format!("damage: {}", d.kind)).or_insert(0) += 1;
                w.rep.signature = w.rep.signature.rotate_left(5) ^ hash_str(&m) ^ d.seed;
                what.push(m);
            }
        }
        let fg: Vec<u64> = serde_json::from_value(plan["forged"].clone()).unwrap_or_default();
        let n = forge(&mut w.fs, &w.lib, &fg);
        if n > 0 {
            w.rep.nontrivial = true;
            *w.rep.fired.entry("made-up proof".into()).or_insert(0) += n;
            for s in &fg {
                w.rep.signature = w.rep.signature.rotate_left(5) ^ s;
            }
            what.push(format!("{n} made-up proofs"));
        }
        if std::env::var_os("SIM_SHOW").is_some() {
            println!("{what:?}");
            for (k, v) in w.certs() {
                println!("--- {k}\n{}", String::from_utf8_lossy(&v));
            }
            for m in &w.lib.modules {
                println!("--- {}\n{}", m.name, w.lib.render(m).0);
            }
        }
        let reqs: Vec<Req> = serde_json::from_value(plan["reqs"].clone()).unwrap();
        for (i, q) in reqs.iter().enumerate() {
            if q.target.as_ref().map_or(false, |t| w.lib.module(t).is_none()) {
                continue;
            }
            let (p, o) = w.run(extra(plan, 3 + i.min(2)), q, &FsPlan::default());
            if w.failed() {
                if let Some(v) = &mut w.rep.violation {
                    v.msg += &format!(" after {what:?}; {}", p.text.chars().rev().take(300).collect::<String>().chars().rev().collect::<String>());
                }
                return w.finish(None);
            }
            if let Some(o) = o {
                w.judge_soundness(q, &o);
                w.rep.probe(&format!("{} {}", q.mode, o.class()));
            }
        }
        if w.failed() {
            return w.finish(None);
        }
        let o = w.final_check_with(plan, true, true);
        w.finish(o.as_ref())
    }
}
