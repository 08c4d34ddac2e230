//! P13: the packaged library that is unpacked into the user's cache directory is complete.
use super::common::rand_sched;
use super::world::copy;
use crate::fs::{self, Fault, FsPlan, MemFs};
use crate::harness::*;
use crate::rt::{self, Quiet, Rng};
use acorn::packaged_acornlib::get_or_extract;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;

const CACHE: &str = "/sim/home/cache";

pub struct Install;

/// Some processes that want the library, at about the same time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Start {
    procs: u32,
    slot: usize,
    #[serde(default)]
    fs: FsPlan,
}

/// What the binary was built with: every file of the library, by path.
pub fn library() -> BTreeMap<String, Vec<u8>> {
    fn walk(dir: &Path, rel: &str, out: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(dir).unwrap().flatten() {
            let n = format!("{rel}{}", e.file_name().to_string_lossy());
            if e.path().is_dir() {
                walk(&e.path(), &format!("{n}/"), out);
            } else {
                out.insert(n, std::fs::read(e.path()).unwrap());
            }
        }
    }
    let v = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    let root = Path::new(&v).join("acornlib");
    let mut m = BTreeMap::new();
    m.insert("acorn.toml".into(), std::fs::read(root.join("acorn.toml")).unwrap());
    walk(&root.join("src"), "src/", &mut m);
    m
}

/// How the directory differs from the packaged library.
fn incomplete(fs: &MemFs, dir: &str, want: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    let have = fs.files(dir);
    for (k, v) in want {
        match have.get(k) {
            None => return Some(format!("{k} is missing")),
            Some(h) if h != v => return Some(format!("{k} has {} bytes instead of the {} that were packaged, or others", h.len(), v.len())),
            _ => {}
        }
    }
    have.keys().find(|k| !want.contains_key(*k) && !k.starts_with('.')).map(|k| format!("{k} is not part of the library"))
}

/// The calls, each in a process of its own; what each got, and what was wrong with it.
fn starts(n: u32, want: BTreeMap<String, Vec<u8>>) -> Value {
    let got: std::sync::Arc<std::sync::Mutex<Vec<Value>>> = Default::default();
    for i in 0..n {
        let got = got.clone();
        let want = want.clone();
        std::thread::spawn(move || {
            rt::set_pid(2 + i);
            let r = std::panic::catch_unwind(|| get_or_extract(Path::new(CACHE)));
            let _q = Quiet::new();
            let v = match r {
                Ok(Ok(p)) => json!({"dir": p, "bad": incomplete(fs::fs(), &p.to_string_lossy(), &want)}),
                Ok(Err(e)) => json!({ "err": e }),
                Err(e) => json!({ "panicked": panic_text(&e) }),
            };
            got.lock().unwrap().push(v);
        });
    }
    loop {
        rt::sleep_ns(1_000_000);
        if (0..n).all(|i| rt::pid_gone(2 + i)) {
            break;
        }
    }
    let g = got.lock().unwrap();
    Value::Array(g.clone())
}

impl Scenario for Install {
    fn property(&self) -> &'static str {
        "P13"
    }
    fn rule(&self) -> &'static str {
        "a run is a cache directory that is missing, empty, or holds an entry with files lost, and a sequence of program starts, 1-3 at the same time, that all ask for the packaged library, while writes fail or come short, the disk fills up, processes are killed or power is lost; every directory handed out has to hold every packaged file byte for byte, and to keep holding them while others start; then an undisturbed start has to succeed, and the one after it to change nothing; non-trivial when a fault struck or several processes unpacked"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 60000 } else { 4000 }
    }
    fn real_components(&self) -> &'static str {
        "packaged_acornlib (compiled unchanged, with an archive made by the repository's build script), the tar and flate2 crates, std::fs"
    }
    fn stubs(&self) -> &'static str {
        "disk, clock, process numbers and thread scheduler of the simulated machine; the acornlib submodule that is packaged (a small synthetic library)"
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let mut scheds = vec![];
        let mut ops: Vec<Start> = vec![];
        for _ in 0..r.range(1, 4) {
            let mut f = FsPlan { readdir_seed: r.next() >> 1, ..Default::default() };
            let procs = *r.pick(&[1u32, 1, 2, 2, 3]);
            for _ in 0..*r.pick(&[0, 1, 1, 1, 2]) {
                let act = r.pick(&["kill", "kill", "power", "power", "eio", "enospc", "short", "eintr", "stall"]).to_string();
                f.faults.push(Fault {
                    class: "mut".into(),
                    nth: r.range(1, if procs > 1 { 120 } else { 70 }),
                    path: r.pick(&["", "", "", "", ".ac", "cache.json", "certs"]).to_string(),
                    param: r.next() >> 16,
                    repeat: if act == "enospc" || act == "eio" { *r.pick(&[0, 0, 1, 1000]) } else { 0 },
                    act,
                });
            }
            if r.chance(0.1) {
                f.disk_free = Some(r.below(4000));
            }
            if procs == 1 && r.chance(0.25) {
                f.power_at_end = Some(r.next() >> 16);
            }
            ops.push(Start { procs, slot: scheds.len(), fs: f });
            scheds.push(rand_sched(&mut r));
        }
        for _ in 0..2 {
            scheds.push(rand_sched(&mut r));
        }
        // Files removed by hand before the first start: numbers into the list of files.
        let lost: Vec<u64> = if r.chance(0.4) { (0..r.range(1, 4)).map(|_| r.below(1000)).collect() } else { vec![] };
        json!({"ops": ops, "scheds": scheds, "lost": lost, "meta": r.chance(0.7)})
    }
    fn run(&self, plan: &Value) -> Report {
        let mut rep = Report::default();
        let want = library();
        let mut disk = MemFs::new();
        disk.mkdirs("/sim/home");
        let ops: Vec<Start> = serde_json::from_value(plan["ops"].clone()).unwrap();
        let lost: Vec<u64> = serde_json::from_value(plan["lost"].clone()).unwrap();
        if !lost.is_empty() {
            let w = want.clone();
            let p = phase(copy(&disk), &FsPlan::default(), true, &Default::default(), move || starts(1, w));
            disk = copy(&p.fs);
            // Without the file that vouches for it the entry has to be made anew.
            let names: Vec<String> = disk.files(CACHE).into_keys().collect();
            for n in &names {
                if n.ends_with(".acornlib-cache.json") {
                    disk.del(&format!("{CACHE}/{n}"));
                }
            }
            for k in lost {
                if !names.is_empty() {
                    disk.del(&format!("{CACHE}/{}", names[k as usize % names.len()]));
                }
            }
            rep.probe("an entry with files missing to begin with");
        }
        // Directories handed out that nothing has excused since.
        let mut held: Vec<String> = vec![];
        let n = ops.len();
        let mut all: Vec<Start> = ops;
        for i in 0..2 {
            all.push(Start { procs: 1, slot: plan["scheds"].as_array().unwrap().len() - 2 + i, fs: FsPlan::default() });
        }
        for (i, s) in all.iter().enumerate() {
            let w = want.clone();
            let procs = s.procs;
            let before = disk.files(CACHE);
            let mut p = phase(copy(&disk), &s.fs, true, &sched_of(plan, s.slot), move || starts(procs, w));
            rep.add(s.slot, &p);
            if !p.fired.is_empty() {
                rep.nontrivial = true;
            }
            disk = std::mem::take(&mut p.fs);
            disk.plan = FsPlan::default();
            match &p.out {
                Out::Done(v) => {
                    let v = v.as_array().unwrap();
                    let ok = v.iter().filter(|x| x["dir"].is_string()).count();
                    if ok >= 2 && before.is_empty() {
                        rep.nontrivial = true;
                    }
                    rep.probe(&format!("{procs} started, {ok} got the library"));
                    for x in v {
                        if let Some(m) = x["panicked"].as_str() {
                            rep.fail("panic", format!("a start panicked: {m} (faults {:?})", p.fired));
                        }
                        if let Some(m) = x["bad"].as_str() {
                            rep.fail("incomplete", format!("start {i} of {procs} processes was handed a directory in which {m}"));
                        }
                        if let Some(d) = x["dir"].as_str() {
                            held.push(d.to_string());
                        }
                        if let Some(e) = x["err"].as_str() {
                            if p.fired.is_empty() && s.fs.disk_free.is_none() {
                                rep.fail("refused", format!("start {i} of {procs} undisturbed processes failed: {e}"));
                            }
                        }
                    }
                }
                Out::Crashed(_) => held.clear(),
                Out::Stuck(m) => rep.fail("stuck", format!("a start makes no progress: {m}")),
                Out::Panicked(m) => rep.fail("panic", format!("a start panicked: {m}")),
                Out::Died(m) => rep.fail("died", format!("a start died: {m}")),
            }
            if s.fs.power_at_end.is_some() {
                held.clear();
            }
            for d in &held {
                if let Some(m) = incomplete(&disk, d, &want) {
                    rep.fail("lost", format!("after start {i} of {procs} processes (faults {:?}), {m} in the directory handed out before", p.fired));
                }
            }
            if i == n + 1 && disk.files(CACHE) != before {
                rep.fail("again", "an undisturbed start after a successful one changed the cache".into());
            }
            if rep.violation.is_some() {
                break;
            }
        }
        let left = disk.tree.keys().filter(|k| k.starts_with(&format!("{CACHE}/.acornlib-"))).count();
        if left > 0 {
            rep.probe("leftovers of killed starts remain");
        }
        rep.summary = format!("{} files", disk.files(CACHE).len());
        rep
    }
}
