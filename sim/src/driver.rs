//! Command line: runs the seeds of a property, minimises and records violations, replays
//! them, and writes the evidence.
use crate::harness::{hash_str, Report, Scenario, Violation};
use crate::rt::Rng;
use crate::scn;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or("/verif".into())
}
fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

pub fn main() {
    let a: Vec<String> = crate::cli::own_args();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    unsafe {
        // Children of children must not outlive us.
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let code = match arg(1).as_str() {
        "check" => check(&arg(2)),
        "replay" => replay(&arg(2)),
        "one" => one(&arg(2), &arg(3)),
        "plan" => {
            let s = find(&arg(2));
            let p = s.gen(seed_of(s, arg(3).parse().unwrap_or(0)), thorough());
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            0
        }
        "plans" => run_plan_file(&arg(2), &arg(3)),
        "determinism" => determinism(&arg(2), arg(3).parse().unwrap_or(10)),
        "list" => {
            for s in scn::all() {
                println!("{}", s.property());
            }
            0
        }
        "dev" => scn::dev(&a[2..]),
        _ => {
            eprintln!("usage: acornsim check|replay|one|plan|determinism|list ...");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}

fn find(id: &str) -> &'static dyn Scenario {
    match scn::all().into_iter().find(|s| s.property() == id) {
        Some(s) => s,
        None => {
            eprintln!("no property {id}");
            std::process::exit(2);
        }
    }
}

fn seed_of(s: &dyn Scenario, i: u64) -> u64 {
    let base = env_u64("VERIF_SEED", 1);
    let mut r = Rng::new(base.wrapping_mul(0x9e3779b97f4a7c15) ^ hash_str(s.property()) ^ (i << 20));
    r.next() >> 1
}

fn strip(r: &Report) -> Report {
    let mut r = r.clone();
    r.records.clear();
    r
}

struct Known {
    property: String,
    key: String,
    what: String,
}
fn known() -> Vec<Known> {
    let p = format!("{}/known_findings.txt", verif_dir());
    let mut v = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let property = it.next().unwrap_or("").trim_start_matches("property=").to_string();
            let key = it.next().unwrap_or("").trim_start_matches("key=").to_string();
            v.push(Known { property, key, what: it.next().unwrap_or("").to_string() });
        }
    }
    v
}

fn run_seed(s: &dyn Scenario, i: u64, th: bool) -> (Value, Report) {
    let plan = s.gen(seed_of(s, i), th);
    let rep = s.run(&plan);
    (plan, rep)
}

/// A page shared with the workers.
struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
}
fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        &*(p as *const Shared)
    }
}

fn check(id: &str) -> i32 {
    let s = find(id);
    let th = thorough();
    let t0 = Instant::now();
    let mut budget = s.budget(th);
    if let Ok(n) = std::env::var("SIM_RUNS") {
        budget = n.parse().unwrap_or(budget);
    }
    let cap = Duration::from_secs(env_u64("SIM_TIME", if th { 1500 } else { 150 }));
    let workers = env_u64("SIM_WORKERS", 8) as usize;
    let kn: Vec<Known> = known().into_iter().filter(|k| k.property == id).collect();
    let keys: HashSet<String> = kn.iter().map(|k| k.key.clone()).collect();
    let sh = shared();
    let mut pids = vec![];
    let (tx, rx) = std::sync::mpsc::channel::<String>();
    let mut readers = vec![];
    let mut pipes = vec![];
    for w in 0..workers {
        let mut fds = [0i32; 2];
        unsafe { libc::pipe(fds.as_mut_ptr()) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            let mut out = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[1]) };
            loop {
                let i = sh.next.fetch_add(1, Ordering::SeqCst);
                if i >= budget || sh.stop.load(Ordering::SeqCst) != 0 || t0.elapsed() > cap {
                    break;
                }
                let (plan, rep) = run_seed(s, i, th);
                let mut again = None;
                if i < 4 {
                    // The same seed twice must give the same execution.
                    again = Some(s.run(&plan).hash == rep.hash);
                }
                let bad = rep.violation.as_ref().map_or(false, |v| !keys.contains(&v.key));
                if bad {
                    sh.stop.store(1, Ordering::SeqCst);
                }
                let small = if i < 3 { plan_sample(&plan) } else { Value::Null };
                let rep = if bad { rep } else { strip(&rep) };
                let line = serde_json::to_string(&json!({
                    "i": i, "rep": rep, "plan": if bad { plan } else { Value::Null },
                    "sample": small, "again": again,
                }))
                .unwrap();
                if writeln!(out, "{line}").is_err() {
                    break;
                }
            }
            unsafe { libc::_exit(0) };
        }
        unsafe { libc::close(fds[1]) };
        pids.push(pid);
        let _ = w;
        pipes.push(fds[0]);
    }
    // Only now: a process forked while another thread holds a lock would inherit it locked.
    for fd in pipes {
        let tx = tx.clone();
        readers.push(std::thread::spawn(move || {
            let f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fd) };
            for l in BufReader::new(f).lines().map_while(Result::ok) {
                let _ = tx.send(l);
            }
        }));
    }
    drop(tx);
    let mut runs = 0u64;
    let mut agg = Report::default();
    let mut sigs = HashSet::new();
    let mut all_sigs = HashSet::new();
    let mut samples: BTreeMap<u64, Value> = BTreeMap::new();
    let mut viol: BTreeMap<u64, (Value, Report)> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut det = (0u64, 0u64);
    let mut nontrivial = 0u64;
    while let Ok(l) = rx.recv() {
        let v: Value = match serde_json::from_str(&l) {
            Ok(v) => v,
            Err(_) => continue,
        };
        let i = v["i"].as_u64().unwrap();
        let rep: Report = serde_json::from_value(v["rep"].clone()).unwrap();
        runs += 1;
        merge(&mut agg, &rep);
        all_sigs.insert(rep.signature);
        if rep.nontrivial {
            nontrivial += 1;
            sigs.insert(rep.signature);
        }
        if let Some(a) = v["again"].as_bool() {
            det.0 += 1;
            if !a {
                det.1 += 1;
            }
        }
        if !v["sample"].is_null() {
            samples.insert(i, json!({"run": i, "plan": v["sample"], "outcome": rep.summary}));
        }
        if let Some(x) = &rep.violation {
            if keys.contains(&x.key) {
                *known_hits.entry(x.key.clone()).or_insert(0) += 1;
            } else {
                viol.insert(i, (v["plan"].clone(), rep));
            }
        }
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
    }
    for r in readers {
        let _ = r.join();
    }
    let wall = t0.elapsed().as_secs_f64();
    for k in &kn {
        println!(
            "KNOWN-FINDING: property={} {} (met in {} of {} runs)",
            id,
            k.what,
            known_hits.get(&k.key).unwrap_or(&0),
            runs
        );
    }
    let mut code = 0;
    let mut viols = 0;
    if runs == 0 {
        eprintln!("no run finished");
        return 2;
    }
    if let Some((i, (plan, rep))) = viol.into_iter().next() {
        viols = 1;
        let path = format!("{}/evidence/{}.replay.json", verif_dir(), id);
        let v = rep.violation.clone().unwrap();
        eprintln!("run {i}: {} [{}]; minimising", v.msg, v.key);
        let (min, mrep) = minimise(s, plan, rep, &keys);
        let mv = mrep.violation.clone().unwrap();
        let doc = json!({
            "property": id, "run": i, "seed": seed_of(s, i), "key": mv.key, "msg": mv.msg,
            "hash": mrep.hash, "plan": min,
        });
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
        std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        println!("run {i} (seed {}): {}", seed_of(s, i), mv.msg);
        println!("VIOLATION property={id} replay={path}");
        code = 1;
    }
    write_evidence(s, th, runs, nontrivial, &agg, &sigs, &all_sigs, samples, det, &known_hits, viols, wall);
    println!(
        "{id}: {runs} runs, {} distinct non-trivial, {} faults, {:.1} s",
        sigs.len(),
        agg.fired.values().sum::<u64>(),
        wall
    );
    code
}

/// A plan, with long lists cut, for the evidence.
fn plan_sample(p: &Value) -> Value {
    match p {
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), plan_sample(v))).collect()),
        Value::Array(a) if a.len() > 12 => {
            let mut v: Vec<Value> = a[..12].iter().map(plan_sample).collect();
            v.push(json!(format!("... {} more", a.len() - 12)));
            Value::Array(v)
        }
        Value::Array(a) => Value::Array(a.iter().map(plan_sample).collect()),
        Value::String(s) if s.len() > 400 => json!(format!("{}...", s.chars().take(400).collect::<String>())),
        v => v.clone(),
    }
}

fn merge(a: &mut Report, b: &Report) {
    a.phases += b.phases;
    let (s, t) = (&mut a.stats, &b.stats);
    s.decisions += t.decisions;
    s.switches += t.switches;
    s.alloc_preempts += t.alloc_preempts;
    s.allocs += t.allocs;
    s.threads += t.threads;
    s.futex_waits += t.futex_waits;
    s.spurious += t.spurious;
    s.timeouts += t.timeouts;
    s.clock_reads += t.clock_reads;
    s.clock_jumps += t.clock_jumps;
    s.sim_ns = s.sim_ns.saturating_add(t.sim_ns);
    for (k, v) in &b.probes {
        *a.probes.entry(k.clone()).or_insert(0) += v;
    }
    for (k, v) in &b.fired {
        *a.fired.entry(k.clone()).or_insert(0) += v;
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    s: &dyn Scenario,
    th: bool,
    runs: u64,
    nontrivial: u64,
    agg: &Report,
    sigs: &HashSet<u64>,
    all: &HashSet<u64>,
    samples: BTreeMap<u64, Value>,
    det: (u64, u64),
    known_hits: &BTreeMap<String, u64>,
    viols: u64,
    wall: f64,
) {
    // Fault kinds without the operation, and with it.
    let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
    for (k, v) in &agg.fired {
        *kinds.entry(k.split(" on ").next().unwrap().to_string()).or_insert(0) += v;
    }
    let st = &agg.stats;
    let doc = json!({
        "property": s.property(),
        "tier": if th { "thorough" } else { "quick" },
        "seed": env_u64("VERIF_SEED", 1),
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sigs.len(),
            "rule": s.rule(),
            "samples": samples.into_values().collect::<Vec<_>>(),
            "nontrivial_runs": nontrivial,
            "distinct_executions": all.len(),
            "distinct_measure": "distinct hashes of the sequence of context switches of all simulated processes of a run together with the faults that fired",
            "simulated_process_lives": agg.phases,
            "runs_per_hour": (runs as f64 * 3600.0 / wall.max(0.001)) as u64,
            "simulated_seconds": st.sim_ns as f64 / 1e9,
            "faults_injected": kinds,
            "faults_injected_by_operation": agg.fired,
            "scheduling_decisions": st.decisions,
            "context_switches": st.switches,
            "preemptions_at_allocations": st.alloc_preempts,
            "simulated_threads": st.threads,
            "futex_waits": st.futex_waits,
            "timer_expiries": st.timeouts,
            "clock_reads": st.clock_reads,
            "probes": agg.probes,
            "determinism_reruns": det.0,
            "determinism_mismatches": det.1,
            "known_finding_hits": known_hits,
            "real_components": s.real_components(),
            "stubbed_components": s.stubs(),
        },
        "assumptions": [
            "exploration by seeded search: schedules, faults and inputs not drawn are not covered",
            "threads switch at futex operations, system calls and memory allocations, under sequential consistency; weak-memory reorderings are not simulated",
            "the simulated disk models POSIX semantics with fsync ordering; no particular file system",
        ],
        "wall_s": wall,
        "violations": viols,
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{}.json", s.property()), serde_json::to_string_pretty(&doc).unwrap()).unwrap();
}

// ---- minimisation ----

/// Runs candidates side by side; index of the first that still fails the same way.
fn try_many(s: &dyn Scenario, cands: &[Value], key: &str) -> Option<usize> {
    for chunk in (0..cands.len()).collect::<Vec<_>>().chunks(8) {
        let kids: Vec<(usize, i32)> = chunk
            .iter()
            .map(|i| {
                let pid = unsafe { libc::fork() };
                if pid == 0 {
                    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
                    let r = s.run(&cands[*i]);
                    let hit = r.violation.map_or(false, |v| v.key == key);
                    unsafe { libc::_exit(if hit { 7 } else { 0 }) };
                }
                (*i, pid)
            })
            .collect();
        let mut best = None;
        for (i, pid) in kids {
            let mut st = 0;
            unsafe { libc::waitpid(pid, &mut st, 0) };
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 7 && best.is_none() {
                best = Some(i);
            }
        }
        if best.is_some() {
            return best;
        }
    }
    None
}

fn arrays(v: &Value, keys: &[&str], path: &str, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                let p = format!("{path}/{}", k.replace('~', "~0").replace('/', "~1"));
                if keys.contains(&k.as_str()) && x.as_array().map_or(false, |a| !a.is_empty()) {
                    out.push(p.clone());
                }
                if k != "replay" {
                    arrays(x, keys, &p, out);
                }
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                arrays(x, keys, &format!("{path}/{i}"), out);
            }
        }
        _ => {}
    }
}

fn minimise(s: &'static dyn Scenario, plan: Value, rep: Report, _known: &HashSet<String>) -> (Value, Report) {
    let key = rep.violation.as_ref().unwrap().key.clone();
    let t0 = Instant::now();
    let cap = Duration::from_secs(env_u64("SIM_MIN_TIME", 100));
    let mut cur = plan.clone();
    // Freeze the schedule into a list of choices.
    let mut fixed = cur.clone();
    if let Some(a) = fixed["scheds"].as_array_mut() {
        for (i, sc) in a.iter_mut().enumerate() {
            sc["replay"] = serde_json::to_value(rep.records.get(i).cloned().unwrap_or_default()).unwrap();
        }
    }
    if try_many(s, &[fixed.clone()], &key).is_some() {
        cur = fixed;
    }
    let mut keys: Vec<&str> = s.shrink_keys().to_vec();
    keys.push("replay");
    let mut progress = true;
    while progress && t0.elapsed() < cap {
        progress = false;
        // Drop all, halves, quarters, ... of every list.
        let mut paths = vec![];
        for k in &keys {
            arrays(&cur, &[k], "", &mut paths);
        }
        for p in paths {
            let mut n = 1usize;
            loop {
                if t0.elapsed() > cap {
                    break;
                }
                let Some(len) = cur.pointer(&p).and_then(|v| v.as_array()).map(|a| a.len()) else { break };
                if len == 0 || n > len {
                    break;
                }
                let size = (len + n - 1) / n;
                let mut cands = vec![];
                let mut at = 0;
                while at < len {
                    let mut c = cur.clone();
                    let a = c.pointer_mut(&p).unwrap().as_array_mut().unwrap();
                    a.drain(at..(at + size).min(len));
                    cands.push(c);
                    at += size;
                }
                // Bound the work on very long lists.
                let stop = n > 64;
                match try_many(s, &cands, &key) {
                    Some(i) => {
                        cur = cands.swap_remove(i);
                        progress = true;
                        n = n.max(2) - 1;
                        n = n.max(1);
                    }
                    None => n *= 2,
                }
                if stop {
                    break;
                }
            }
        }
        if t0.elapsed() > cap {
            break;
        }
        let more = s.shrink_more(&cur);
        if let Some(i) = try_many(s, &more, &key) {
            cur = more[i].clone();
            progress = true;
        }
    }
    let rep2 = s.run(&cur);
    if rep2.violation.as_ref().map_or(true, |v| v.key != key) {
        return (plan, rep);
    }
    (cur, rep2)
}

fn replay(path: &str) -> i32 {
    let doc: Value = match std::fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(d) => d,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    let id = doc["property"].as_str().unwrap_or("").to_string();
    let s = find(&id);
    let rep = s.run(&doc["plan"]);
    match &rep.violation {
        Some(Violation { key, msg }) => {
            println!("{msg}");
            let same = doc["hash"].as_u64() == Some(rep.hash) && doc["key"].as_str() == Some(key);
            println!("same execution as recorded: {same}");
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None => {
            println!("{id}: no violation: {}", rep.summary);
            0
        }
    }
}

fn show(rep: &Report) {
    println!(
        "hash {:016x} sig {:016x} nontrivial {} phases {} switches {} decisions {} sim {:.3}s\n  {}\n  fired {:?}\n  probes {:?}",
        rep.hash,
        rep.signature,
        rep.nontrivial,
        rep.phases,
        rep.stats.switches,
        rep.stats.decisions,
        rep.stats.sim_ns as f64 / 1e9,
        rep.summary,
        rep.fired,
        rep.probes
    );
    if let Some(v) = &rep.violation {
        println!("  !! {} [{}]", v.msg, v.key);
    }
}

fn one(id: &str, seed: &str) -> i32 {
    let s = find(id);
    let t = Instant::now();
    let (_, rep) = run_seed(s, seed.parse().unwrap_or(0), thorough());
    show(&rep);
    println!("  {:.3} s", t.elapsed().as_secs_f64());
    rep.violation.is_some() as i32
}

fn run_plan_file(id: &str, path: &str) -> i32 {
    let s = find(id);
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let rep = s.run(&v);
    show(&rep);
    rep.violation.is_some() as i32
}

fn determinism(id: &str, n: u64) -> i32 {
    let s = find(id);
    let mut bad = 0;
    for i in 0..n {
        let (p, a) = run_seed(s, i, thorough());
        let b = s.run(&p);
        // and following the recorded choices
        let mut q = p.clone();
        if let Some(arr) = q["scheds"].as_array_mut() {
            for (i, sc) in arr.iter_mut().enumerate() {
                sc["replay"] = serde_json::to_value(a.records.get(i).cloned().unwrap_or_default()).unwrap();
            }
        }
        let c = s.run(&q);
        let ok = a.hash == b.hash && a.hash == c.hash;
        println!("{i}: {:016x} {:016x} {:016x} {}", a.hash, b.hash, c.hash, if ok { "ok" } else { "DIFFERENT" });
        bad += !ok as i32;
    }
    (bad > 0) as i32
}
