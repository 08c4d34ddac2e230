//! Runs simulated processes ("phases") in forked children, collects what happened.
use crate::fs::{self, FsPlan, MemFs};
use crate::rt::{self, Choice, Sched, Stats};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Out {
    /// The process finished and this is what it reported.
    Done(Value),
    /// Killed (false) or power lost (true), by the fault plan.
    Crashed(bool),
    /// The simulator itself noticed that nothing can make progress.
    Stuck(String),
    /// The main function panicked.
    Panicked(String),
    /// Died in some other way.
    Died(String),
}

#[derive(Serialize, Deserialize)]
struct Head {
    out: Out,
    record: Vec<Choice>,
    stats: Stats,
    probes: BTreeMap<String, u64>,
    n_mut: u64,
    n_read: u64,
    fired: Vec<String>,
    oplog: Vec<String>,
}

pub struct Phase {
    pub out: Out,
    pub fs: MemFs,
    pub record: Vec<Choice>,
    pub stats: Stats,
    pub probes: BTreeMap<String, u64>,
    pub n_mut: u64,
    pub n_read: u64,
    pub fired: Vec<String>,
    pub oplog: Vec<String>,
    pub text: String,
}

impl Phase {
    pub fn done(&self) -> Option<&Value> {
        match &self.out {
            Out::Done(v) => Some(v),
            _ => None,
        }
    }
}

static mut RESULT_FD: i32 = -1;

/// `image`: what is left on disk, when that is not simply the current state.
fn emit(out: Out, image: Option<MemFs>) -> ! {
    let r = rt::rt();
    let f = fs::fs();
    let mut stats = r.stats.clone();
    stats.sim_ns = stats.sim_ns.max(rt::now_mono() - 1_000_000_000_000);
    let h = Head {
        out,
        record: std::mem::take(&mut r.record),
        stats,
        probes: r.probes.clone(),
        n_mut: f.n_mut,
        n_read: f.n_read,
        fired: f.fired.clone(),
        oplog: f.oplog.clone(),
    };
    let head = serde_json::to_vec(&h).unwrap();
    let mut b = (head.len() as u64).to_le_bytes().to_vec();
    b.extend(head);
    b.extend(image.as_ref().unwrap_or(fs::fs()).encode());
    let mut off = 0;
    while off < b.len() {
        let n = rt::raw_syscall(
            libc::SYS_write,
            unsafe { RESULT_FD } as i64,
            b[off..].as_ptr() as i64,
            (b.len() - off) as i64,
            0,
            0,
            0,
        );
        if n <= 0 {
            rt::raw_syscall(libc::SYS_exit_group, 95, 0, 0, 0, 0, 0);
        }
        off += n as usize;
    }
    rt::raw_syscall(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
    unreachable!()
}

/// The simulated process ends, with this as its result.
pub fn exited(v: Value) -> ! {
    let _q = rt::Quiet::new();
    rt::stop();
    let img = fs::fs().plan.power_at_end.map(|seed| {
        fs::fs().fired.push("power:end:".into());
        fs::fs().power_image(seed)
    });
    emit(Out::Done(v), img)
}

fn on_fail(msg: &str) -> ! {
    let m = msg.to_string();
    rt::stop();
    emit(Out::Stuck(m), None)
}
fn on_crash(power: bool, param: u64) -> ! {
    rt::stop();
    let img = if power { Some(fs::fs().power_image(param)) } else { None };
    emit(Out::Crashed(power), img)
}

fn memfd() -> i32 {
    rt::raw_syscall(libc::SYS_memfd_create, c"sim".as_ptr() as i64, 0, 0, 0, 0, 0) as i32
}
fn slurp(fd: i32) -> Vec<u8> {
    let mut v = vec![];
    rt::raw_syscall(libc::SYS_lseek, fd as i64, 0, 0, 0, 0, 0);
    let mut buf = vec![0u8; 1 << 16];
    loop {
        let n = rt::raw_syscall(libc::SYS_read, fd as i64, buf.as_mut_ptr() as i64, buf.len() as i64, 0, 0, 0);
        if n <= 0 {
            break;
        }
        v.extend_from_slice(&buf[..n as usize]);
    }
    rt::raw_syscall(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0);
    v
}

pub const CPU_LIMIT_S: u64 = 120;

/// Waits for the child; false if it neither ends nor uses any processor time for half a minute,
/// which no simulated execution does: then the simulator itself is stuck.
fn wait_child(pid: i32, st: &mut i32) -> bool {
    let used = || -> u64 {
        let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
        let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        g(11) + g(12)
    };
    let fd = unsafe { libc::syscall(libc::SYS_pidfd_open, pid, 0) } as i32;
    if fd < 0 {
        unsafe { libc::waitpid(pid, st, 0) };
        return true;
    }
    let (mut last, mut idle) = (u64::MAX, 0);
    let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
    let alive = loop {
        if unsafe { libc::poll(&mut p, 1, 3000) } > 0 {
            break true;
        }
        let u = used();
        idle = if u == last { idle + 1 } else { 0 };
        last = u;
        if idle >= 10 {
            break false;
        }
    };
    unsafe {
        libc::close(fd);
        if !alive {
            libc::kill(pid, libc::SIGKILL);
        }
        libc::waitpid(pid, st, 0);
    }
    alive
}

/// One simulated process life.
pub fn phase(image: MemFs, plan: &FsPlan, multi: bool, sched: &Sched, f: impl FnOnce() -> Value + Send + 'static) -> Phase {
    let mut once = Some((image, f));
    let mut tries = 0;
    loop {
        if let Some(p) = phase_once(&mut once, plan, multi, sched, tries == 2) {
            return p;
        }
        tries += 1;
        eprintln!("simulator: a simulated process stood still; running it again");
    }
}
fn phase_once<F: FnOnce() -> Value + Send + 'static>(once: &mut Option<(MemFs, F)>, plan: &FsPlan, multi: bool, sched: &Sched, last: bool) -> Option<Phase> {
    let res = memfd();
    let txt = memfd();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        let (image, f) = once.take().unwrap();
        unsafe {
            RESULT_FD = res;
            if std::env::var_os("SIM_STDERR").is_none() {
                libc::dup2(txt, 1);
                libc::dup2(txt, 2);
            }
            let lim = libc::rlimit { rlim_cur: CPU_LIMIT_S, rlim_max: CPU_LIMIT_S };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        }
        let mut img = image;
        img.plan = plan.clone();
        img.multi = multi;
        img.crash = Some(on_crash);
        fs::install(img);
        rt::start(sched.clone(), on_fail);
        // A fresh thread: its thread-local hash keys come from the simulated entropy source.
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(v) => exited(v),
                Err(e) => {
                    let _q = rt::Quiet::new();
                    let m = panic_text(&e);
                    rt::stop();
                    emit(Out::Panicked(m), None)
                }
            }
        });
        let _ = h.unwrap().join();
        rt::raw_syscall(libc::SYS_exit_group, 94, 0, 0, 0, 0, 0);
    }
    let mut st = 0;
    let moved = wait_child(pid, &mut st);
    let blob = slurp(res);
    if !moved && !last {
        drop(slurp(txt));
        return None;
    }
    let text = String::from_utf8_lossy(&slurp(txt)).into_owned();
    if blob.len() < 8 {
        let how = if libc::WIFSIGNALED(st) {
            format!("signal {}", libc::WTERMSIG(st))
        } else {
            format!("exit {}", libc::WEXITSTATUS(st))
        };
        let tail: String = text.chars().rev().take(600).collect::<String>().chars().rev().collect();
        return Some(Phase {
            out: Out::Died(format!("{how}; output: {tail}")),
            fs: MemFs::new(),
            record: vec![],
            stats: Stats::default(),
            probes: BTreeMap::new(),
            n_mut: 0,
            n_read: 0,
            fired: vec![],
            oplog: vec![],
            text,
        });
    }
    let hl = u64::from_le_bytes(blob[..8].try_into().unwrap()) as usize;
    let h: Head = serde_json::from_slice(&blob[8..8 + hl]).expect("phase result");
    Some(Phase {
        out: h.out,
        fs: MemFs::decode(&blob[8 + hl..]),
        record: h.record,
        stats: h.stats,
        probes: h.probes,
        n_mut: h.n_mut,
        n_read: h.n_read,
        fired: h.fired,
        oplog: h.oplog,
        text,
    })
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

// ---------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    /// Stable class of the violation, compared while minimising and with known findings.
    pub key: String,
    pub msg: String,
}

/// What one simulated run (a sequence of phases) amounted to.
#[derive(Default, Serialize, Deserialize, Clone)]
pub struct Report {
    pub violation: Option<Violation>,
    pub records: Vec<Vec<Choice>>,
    pub stats: Stats,
    pub probes: BTreeMap<String, u64>,
    pub fired: BTreeMap<String, u64>,
    pub phases: u64,
    pub nontrivial: bool,
    pub signature: u64,
    pub hash: u64,
    pub summary: String,
}

impl Report {
    pub fn fail(&mut self, key: &str, msg: String) {
        if self.violation.is_none() {
            self.violation = Some(Violation { key: key.into(), msg });
        }
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.into()).or_insert(0) += 1;
    }
    /// Folds a phase into the report.
    pub fn add(&mut self, slot: usize, p: &Phase) {
        while self.records.len() <= slot {
            self.records.push(vec![]);
        }
        self.records[slot] = p.record.clone();
        self.phases += 1;
        let s = &mut self.stats;
        let t = &p.stats;
        s.decisions += t.decisions;
        s.switches += t.switches;
        s.alloc_preempts += t.alloc_preempts;
        s.allocs += t.allocs;
        s.threads += t.threads;
        s.futex_waits += t.futex_waits;
        s.spurious += t.spurious;
        s.timeouts += t.timeouts;
        s.clock_reads += t.clock_reads;
        s.clock_jumps += t.clock_jumps;
        s.sim_ns += t.sim_ns;
        s.sched_hash = s.sched_hash.rotate_left(9) ^ t.sched_hash;
        s.event_hash = s.event_hash.rotate_left(9) ^ t.event_hash;
        self.signature = self.signature.rotate_left(7) ^ t.sched_hash;
        for f in &p.fired {
            let kind = f.split(':').take(2).collect::<Vec<_>>().join(" on ");
            self.signature = self.signature.rotate_left(5) ^ hash_str(f);
            *self.fired.entry(kind).or_insert(0) += 1;
        }
        if t.spurious > 0 {
            *self.fired.entry("spurious wakeup".into()).or_insert(0) += t.spurious;
        }
        if t.clock_jumps > 0 {
            *self.fired.entry("clock jump".into()).or_insert(0) += t.clock_jumps;
        }
        for (k, v) in &p.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        if let Out::Crashed(power) = p.out {
            self.probe(if power { "crash: power loss" } else { "crash: process kill" });
        }
        let o = serde_json::to_string(&p.out).unwrap();
        self.hash = self.hash.rotate_left(11) ^ t.event_hash ^ hash_str(&o) ^ hash_bytes(&p.fs.encode());
    }
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub trait Scenario: Sync {
    fn property(&self) -> &'static str;
    /// How cases are made and what counts as non-trivial.
    fn rule(&self) -> &'static str;
    /// Makes the plan of run `seed`.  Its "scheds" array holds one schedule per phase slot.
    fn gen(&self, seed: u64, thorough: bool) -> Value;
    fn run(&self, plan: &Value) -> Report;
    /// Names of arrays in the plan whose elements may be dropped while minimising.
    fn shrink_keys(&self) -> &'static [&'static str] {
        &["ops", "faults", "jumps"]
    }
    /// Runs in the quick / thorough tier.
    fn budget(&self, thorough: bool) -> u64;
    /// Further simplifications of the plan.
    fn shrink_more(&self, _plan: &Value) -> Vec<Value> {
        vec![]
    }
    fn real_components(&self) -> &'static str;
    fn stubs(&self) -> &'static str {
        "ONNX Runtime (its C API is answered by an in-process evaluator of the embedded model); \
         disk, clock, entropy, CPU count and thread scheduler of the simulated machine; the \
         acornlib submodule (a small synthetic library)"
    }
}

pub fn sched_of(plan: &Value, slot: usize) -> Sched {
    serde_json::from_value(plan["scheds"][slot].clone()).unwrap_or_default()
}
