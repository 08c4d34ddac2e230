//! The simulated machine: one real OS thread runs at a time, and a seeded scheduler decides
//! which one, at every futex operation, file system call, yield, sleep and (at random
//! distances) memory allocation.  The clock is simulated.  Everything random that is decided
//! here is recorded, so that a run can be replayed and minimised choice by choice.
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

pub fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b,
            in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
            lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    ret
}

#[derive(Clone, Copy)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn log_range(&mut self, lo: u64, hi: u64) -> u64 {
        let (a, b) = ((lo as f64).ln(), (hi as f64).ln());
        (a + (b - a) * self.f()).exp().round() as u64
    }
}

/// How one run is scheduled.  Part of the replay file.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched {
    /// Seed of all scheduling choices (ignored when `replay` is set).
    pub seed: u64,
    /// "random", "pct" or "serial" (never preempts; blocks choose the lowest id).
    pub mode: String,
    /// Mean number of allocations between forced preemption points (0: none).
    pub alloc_gap: u64,
    /// Probability of switching at a synchronisation point or system call.
    pub p_sync: f64,
    /// Probability that a futex wait returns spuriously.
    pub p_spur: f64,
    /// Number of priority change points (pct mode).
    pub pct_depth: u32,
    /// Simulated CPUs.
    pub ncpu: u32,
    /// Simulated nanoseconds charged per allocation.
    pub alloc_ns: u64,
    /// Seed for getrandom (hash map keys, tokio).
    pub hash_seed: u64,
    /// Jumps of the clock: (at n-th clock read, forward nanoseconds of the monotonic clock,
    /// signed shift of the realtime clock).
    pub jumps: Vec<(u64, u64, i64)>,
    /// Step budget: allocations plus scheduling decisions.
    pub max_steps: u64,
    /// When set: the recorded non-default choices; nothing is random.
    pub replay: Option<Vec<Choice>>,
}

impl Default for Sched {
    fn default() -> Self {
        Sched {
            seed: 1,
            mode: "serial".into(),
            alloc_gap: 0,
            p_sync: 0.0,
            p_spur: 0.0,
            pct_depth: 0,
            ncpu: 4,
            alloc_ns: 200,
            hash_seed: 1,
            jumps: vec![],
            max_steps: 400_000_000,
            replay: None,
        }
    }
}

impl Sched {
    pub fn random(r: &mut Rng) -> Sched {
        let mut s = Sched { seed: r.next(), hash_seed: r.next(), ..Sched::default() };
        match r.below(10) {
            0 => s.mode = "serial".into(),
            1..=3 => {
                s.mode = "pct".into();
                s.pct_depth = r.range(1, 6) as u32;
                s.alloc_gap = r.log_range(50, 20000);
            }
            _ => {
                s.mode = "random".into();
                s.alloc_gap = if r.chance(0.3) { 0 } else { r.log_range(20, 50000) };
                s.p_sync = [0.02, 0.1, 0.3, 0.6, 0.95][r.below(5) as usize];
            }
        }
        if r.chance(0.25) {
            s.p_spur = 0.05;
        }
        s.ncpu = [1, 2, 3, 4, 8][r.below(5) as usize];
        s
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Choice {
    /// "s": at sync decision `at` run thread `v`; "a": at allocation `at` switch to thread `v`;
    /// "w": at wake decision `at` wake the v-th waiter; "p": spurious wakeup at wait `at`.
    pub k: char,
    pub at: u64,
    pub v: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    Futex { addr: usize, deadline: u64 },
    Sleep { deadline: u64 },
    Join { target: usize },
    Epoll { fd: i32, deadline: u64 },
    Exited,
    Dead,
}

pub struct Th {
    wake: AtomicU32,
    st: St,
    pthread: u64,
    pub pid: u32,
    prio: u64,
    timed_out: bool,
    start: usize,
    arg: usize,
    exit_rounds: u32,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub decisions: u64,
    pub switches: u64,
    pub alloc_preempts: u64,
    pub allocs: u64,
    pub threads: u64,
    pub futex_waits: u64,
    pub spurious: u64,
    pub timeouts: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub sim_ns: u64,
    pub sched_hash: u64,
    pub event_hash: u64,
}

pub struct Rt {
    pub cfg: Sched,
    pub ths: Vec<Box<Th>>,
    pub cur: usize,
    rng: Rng,
    hash_rng: Rng,
    now: u64,
    rt_shift: i64,
    jumps_done: usize,
    n_sync: u64,
    n_alloc: u64,
    n_wake: u64,
    n_pct: u64,
    n_wait: u64,
    next_alloc: u64,
    pct_changes: Vec<u64>,
    low_prio: u64,
    pub record: Vec<Choice>,
    rp_s: HashMap<u64, u64>,
    rp_a: Vec<(u64, u64)>,
    rp_a_pos: usize,
    rp_w: HashMap<u64, u64>,
    rp_p: HashMap<u64, u64>,
    pub stats: Stats,
    epoll_dirty: bool,
    pub trace: bool,
    pub fail: Option<fn(&str) -> !>,
    pub probes: BTreeMap<String, u64>,
    addr_ids: HashMap<usize, u64>,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut RT: *mut Rt = std::ptr::null_mut();
static mut EXIT_KEY: libc::pthread_key_t = 0;
static mut ALLOC_LEFT: u64 = u64::MAX;
static mut ALLOC_CHUNK: u64 = 0;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static NOPREEMPT: Cell<u32> = const { Cell::new(0) };
}

pub fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed) && TID.with(|t| t.get()) != usize::MAX
}
#[allow(static_mut_refs)]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}
pub fn my_tid() -> usize {
    TID.with(|t| t.get())
}

/// No preemption (and no simulated faults) while this guard lives: for code of the harness.
pub struct Quiet;
impl Quiet {
    pub fn new() -> Quiet {
        NOPREEMPT.with(|c| c.set(c.get() + 1));
        Quiet
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        NOPREEMPT.with(|c| c.set(c.get() - 1));
    }
}
pub fn quiet() -> bool {
    NOPREEMPT.with(|c| c.get()) > 0
}

fn raw_wait(w: &AtomicU32) {
    while w.load(Ordering::Acquire) == 0 {
        raw_syscall(202, w as *const _ as i64, 128, 0, 0, 0, 0);
    }
    w.store(0, Ordering::Release);
}
fn raw_wake(w: &AtomicU32) {
    w.store(1, Ordering::Release);
    raw_syscall(202, w as *const _ as i64, 129, 1, 0, 0, 0);
}

extern "C" fn on_thread_exit(_: *mut libc::c_void) {
    if !active() {
        return;
    }
    let me = my_tid();
    let r = rt();
    r.ths[me].exit_rounds += 1;
    if r.ths[me].exit_rounds < 3 {
        // Be the last destructor to run, so that the others run under the scheduler.
        unsafe { libc::pthread_setspecific(EXIT_KEY, 1 as *const _) };
        return;
    }
    let _q = Quiet::new();
    ev("exit", me as u64, 0);
    r.ths[me].st = St::Exited;
    for i in 0..r.ths.len() {
        if r.ths[i].st == (St::Join { target: me }) {
            r.ths[i].st = St::Run;
        }
    }
    let next = pick_next(false);
    TID.with(|t| t.set(usize::MAX));
    hand_over(next);
}

/// Starts the simulation with the calling thread as thread 0.
pub fn start(cfg: Sched, fail: fn(&str) -> !) {
    let mut rp_s = HashMap::new();
    let mut rp_a = vec![];
    let mut rp_w = HashMap::new();
    let mut rp_p = HashMap::new();
    if let Some(cs) = &cfg.replay {
        for c in cs {
            match c.k {
                's' => drop(rp_s.insert(c.at, c.v)),
                'a' => rp_a.push((c.at, c.v)),
                'w' => drop(rp_w.insert(c.at, c.v)),
                _ => drop(rp_p.insert(c.at, c.v)),
            }
        }
        rp_a.sort();
    }
    let mut rng = Rng::new(cfg.seed);
    let pct_changes = (0..cfg.pct_depth).map(|_| rng.log_range(1, 20000)).collect();
    let hash_rng = Rng::new(cfg.hash_seed);
    let r = Box::new(Rt {
        ths: vec![],
        cur: 0,
        rng,
        hash_rng,
        now: 1_000_000_000_000,
        rt_shift: 0,
        jumps_done: 0,
        n_sync: 0,
        n_alloc: 0,
        n_wake: 0,
        n_pct: 0,
        n_wait: 0,
        next_alloc: u64::MAX,
        pct_changes,
        low_prio: 1 << 20,
        record: vec![],
        rp_s,
        rp_a,
        rp_a_pos: 0,
        rp_w,
        rp_p,
        stats: Stats::default(),
        epoll_dirty: false,
        trace: std::env::var_os("SIM_TRACE").is_some(),
        fail: Some(fail),
        probes: BTreeMap::new(),
        addr_ids: HashMap::new(),
        cfg,
    });
    unsafe {
        RT = Box::into_raw(r);
        libc::pthread_key_create(std::ptr::addr_of_mut!(EXIT_KEY), Some(on_thread_exit));
    }
    let r = rt();
    let prio = r.rng.next() | 1 << 40;
    r.ths.push(Box::new(Th {
        wake: AtomicU32::new(0),
        st: St::Run,
        pthread: unsafe { libc::pthread_self() } as u64,
        pid: 4242,
        prio,
        timed_out: false,
        start: 0,
        arg: 0,
        exit_rounds: 0,
    }));
    TID.with(|t| t.set(0));
    set_next_alloc();
    ACTIVE.store(true, Ordering::SeqCst);
}

/// Ends the simulation: the caller keeps running alone; everybody else stays parked for ever.
pub fn stop() {
    settle_allocs();
    ACTIVE.store(false, Ordering::SeqCst);
}

/// Addresses by order of first use: stacks are at random places.
fn addr_id(a: usize) -> u64 {
    let r = rt();
    let n = r.addr_ids.len() as u64;
    *r.addr_ids.entry(a).or_insert(n)
}

pub fn ev(k: &str, a: u64, b: u64) {
    let r = rt();
    let mut h = r.stats.event_hash;
    for x in [k.as_bytes()[0] as u64 | (k.len() as u64) << 8, a, b, r.cur as u64] {
        h = (h ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
    }
    r.stats.event_hash = h;
    if r.trace {
        let s = format!("[{} t{} {}] {} {:x} {:x}\n", r.now, r.cur, r.n_alloc, k, a, b);
        raw_syscall(1, 2, s.as_ptr() as i64, s.len() as i64, 0, 0, 0);
    }
}

pub fn note(s: &str) {
    if !active() {
        return;
    }
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    ev("note", h, 0);
    if rt().trace {
        let s = format!("    {}\n", s);
        raw_syscall(1, 2, s.as_ptr() as i64, s.len() as i64, 0, 0, 0);
    }
}

pub fn probe(name: &str) {
    if ACTIVE.load(Ordering::Relaxed) {
        let _q = Quiet::new();
        *rt().probes.entry(name.to_string()).or_insert(0) += 1;
    }
}

fn fail(msg: &str) -> ! {
    let f = rt().fail.unwrap();
    f(msg)
}

fn settle_allocs() {
    unsafe {
        if ALLOC_LEFT != u64::MAX {
            let used = ALLOC_CHUNK - ALLOC_LEFT;
            let r = rt();
            r.n_alloc += used;
            r.stats.allocs += used;
            r.now += used * r.cfg.alloc_ns;
            ALLOC_CHUNK = ALLOC_LEFT;
        }
    }
}

fn set_next_alloc() {
    let r = rt();
    // Distance to the next allocation preemption; capped so that time and budgets advance.
    let gap = if r.cfg.replay.is_some() {
        match r.rp_a.get(r.rp_a_pos) {
            Some((at, _)) => at.saturating_sub(r.n_alloc).max(1),
            None => u64::MAX,
        }
    } else if r.cfg.alloc_gap == 0 || r.cfg.mode == "serial" {
        u64::MAX
    } else {
        let u = r.rng.f().max(1e-12);
        ((-u.ln()) * r.cfg.alloc_gap as f64) as u64 + 1
    };
    r.next_alloc = r.n_alloc.saturating_add(gap);
    let chunk = gap.min(4096);
    unsafe {
        ALLOC_CHUNK = chunk;
        ALLOC_LEFT = chunk;
    }
}

/// Called on every allocation (any thread, any time).
#[inline]
pub fn on_alloc() {
    if !ACTIVE.load(Ordering::Relaxed) {
        return;
    }
    if TID.with(|t| t.get()) == usize::MAX || quiet() {
        return;
    }
    unsafe {
        ALLOC_LEFT -= 1;
        if ALLOC_LEFT > 0 {
            return;
        }
    }
    alloc_tick();
}

#[cold]
fn alloc_tick() {
    let _q = Quiet::new();
    let r = rt();
    let used = unsafe { ALLOC_CHUNK };
    r.n_alloc += used;
    r.stats.allocs += used;
    r.now += used * r.cfg.alloc_ns;
    unsafe { ALLOC_LEFT = u64::MAX };
    check_budget();
    let due = r.n_alloc >= r.next_alloc;
    if due {
        wake_due();
        let at = r.n_alloc;
        let target = if r.cfg.replay.is_some() {
            let t = r.rp_a.get(r.rp_a_pos).map(|x| x.1);
            r.rp_a_pos += 1;
            t.filter(|t| (*t as usize) < r.ths.len() && runnable(*t as usize)).map(|t| t as usize)
        } else {
            let opts: Vec<usize> = (0..r.ths.len()).filter(|i| runnable(*i)).collect();
            if r.cfg.mode == "pct" {
                pct_tick();
                opts.iter().copied().max_by_key(|i| r.ths[*i].prio)
            } else {
                let k = r.rng.below(opts.len() as u64) as usize;
                Some(opts[k])
            }
        };
        set_next_alloc();
        if let Some(t) = target {
            if t != r.cur {
                r.stats.alloc_preempts += 1;
                r.record.push(Choice { k: 'a', at, v: t as u64 });
                switch_to(t);
            }
        }
    } else {
        let gap = r.next_alloc - r.n_alloc;
        let chunk = gap.min(4096);
        unsafe {
            ALLOC_CHUNK = chunk;
            ALLOC_LEFT = chunk;
        }
    }
}

fn check_budget() {
    let r = rt();
    if r.n_alloc + r.n_sync * 10 > r.cfg.max_steps {
        fail("step budget exhausted: no progress within the bounded number of steps");
    }
}

fn pct_tick() {
    let r = rt();
    r.n_pct += 1;
    let n = r.n_pct;
    if let Some(p) = r.pct_changes.iter().position(|c| *c <= n) {
        r.pct_changes.swap_remove(p);
        r.low_prio -= 1;
        let cur = r.cur;
        r.ths[cur].prio = r.low_prio;
    }
}

fn runnable(i: usize) -> bool {
    rt().ths[i].st == St::Run
}

fn wake_due() {
    let r = rt();
    let now = r.now;
    for t in r.ths.iter_mut() {
        match t.st {
            St::Futex { deadline, .. } | St::Sleep { deadline } | St::Epoll { deadline, .. }
                if deadline <= now =>
            {
                t.timed_out = true;
                t.st = St::Run;
            }
            _ => {}
        }
    }
}

#[repr(C, packed)]
#[derive(Clone, Copy)]
struct EpollEvent {
    events: u32,
    data: u64,
}

fn poll_epolls() {
    let r = rt();
    if !r.epoll_dirty {
        return;
    }
    r.epoll_dirty = false;
    for i in 0..r.ths.len() {
        if let St::Epoll { fd, .. } = r.ths[i].st {
            let mut pfd = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            let n = raw_syscall(7, &mut pfd as *mut _ as i64, 1, 0, 0, 0, 0);
            if n > 0 {
                r.ths[i].st = St::Run;
                r.ths[i].timed_out = false;
            }
        }
    }
}

/// Picks who runs next.  `cur_ok`: the current thread is runnable.
fn pick_next(cur_ok: bool) -> usize {
    settle_allocs();
    check_budget();
    let r = rt();
    wake_due();
    loop {
        let opts: Vec<usize> = (0..r.ths.len()).filter(|i| runnable(*i)).collect();
        if opts.is_empty() {
            r.epoll_dirty = true;
            poll_epolls();
            if (0..r.ths.len()).any(runnable) {
                continue;
            }
            let d = r
                .ths
                .iter()
                .filter_map(|t| match t.st {
                    St::Futex { deadline, .. }
                    | St::Sleep { deadline }
                    | St::Epoll { deadline, .. } => Some(deadline),
                    _ => None,
                })
                .min()
                .unwrap_or(u64::MAX);
            if d == u64::MAX {
                let s: Vec<String> =
                    r.ths.iter().enumerate().map(|(i, t)| format!("t{}:{:?}", i, t.st)).collect();
                fail(&format!("deadlock: every thread is blocked for ever: {}", s.join(" ")));
            }
            if d > r.now {
                r.now = d;
            }
            r.stats.timeouts += 1;
            wake_due();
            continue;
        }
        r.n_sync += 1;
        r.stats.decisions += 1;
        let at = r.n_sync;
        let default = if cur_ok {
            r.cur
        } else {
            opts.iter().copied().find(|i| *i > r.cur).unwrap_or(opts[0])
        };
        let choice = if r.cfg.replay.is_some() {
            match r.rp_s.get(&at) {
                Some(v) if opts.contains(&(*v as usize)) => *v as usize,
                _ => default,
            }
        } else {
            match r.cfg.mode.as_str() {
                "serial" => default,
                "pct" => {
                    pct_tick();
                    *opts.iter().max_by_key(|i| r.ths[**i].prio).unwrap()
                }
                _ => {
                    if cur_ok && !r.rng.chance(r.cfg.p_sync) {
                        default
                    } else {
                        *r.rng.pick(&opts)
                    }
                }
            }
        };
        if choice != default {
            r.record.push(Choice { k: 's', at, v: choice as u64 });
        }
        return choice;
    }
}

fn hand_over(next: usize) {
    let r = rt();
    let prev = r.cur;
    r.cur = next;
    r.stats.switches += 1;
    r.stats.sched_hash =
        (r.stats.sched_hash ^ (next as u64 + 1)).wrapping_mul(0x100000001b3).rotate_left(17) ^ prev as u64;
    raw_wake(&r.ths[next].wake);
}

fn switch_to(next: usize) {
    let r = rt();
    let me = r.cur;
    if next == me {
        return;
    }
    hand_over(next);
    raw_wait(&r.ths[me].wake);
}

/// A scheduling point at which the current thread stays runnable.
pub fn yield_point() {
    if !active() || quiet() {
        return;
    }
    let _q = Quiet::new();
    let n = pick_next(true);
    switch_to(n);
}

fn block(st: St) -> bool {
    let _q = Quiet::new();
    let r = rt();
    let me = r.cur;
    r.ths[me].st = st;
    r.ths[me].timed_out = false;
    let n = pick_next(false);
    switch_to(n);
    r.ths[me].timed_out
}

pub fn now_mono() -> u64 {
    rt().now
}

fn clock_read() -> u64 {
    let _q = Quiet::new();
    settle_allocs();
    let r = rt();
    r.stats.clock_reads += 1;
    r.now += 1000;
    let n = r.stats.clock_reads;
    while let Some((at, fwd, shift)) = r.cfg.jumps.get(r.jumps_done).copied() {
        if at > n {
            break;
        }
        r.now += fwd;
        r.rt_shift += shift;
        r.stats.clock_jumps += 1;
        r.jumps_done += 1;
    }
    r.stats.sim_ns = r.now - 1_000_000_000_000;
    r.now
}

pub fn advance(ns: u64) {
    let r = rt();
    r.now += ns;
}

pub fn clock_gettime(id: i32) -> (i64, i64) {
    let n = clock_read();
    let n = if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        (n as i64 + rt().rt_shift + 1_700_000_000_000_000_000) as u64
    } else {
        n
    };
    ((n / 1_000_000_000) as i64, (n % 1_000_000_000) as i64)
}

pub fn sleep_ns(ns: u64) {
    settle_allocs();
    let d = rt().now.saturating_add(ns);
    block(St::Sleep { deadline: d });
}

pub fn fill_random(buf: &mut [u8]) {
    let _q = Quiet::new();
    let r = rt();
    for b in buf.iter_mut() {
        *b = r.hash_rng.next() as u8;
    }
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e };
}

pub fn futex(addr: usize, op: i64, val: u32, timeout: *const libc::timespec) -> i64 {
    let cmd = op & 0x7f;
    match cmd {
        0 | 9 => {
            let _q = Quiet::new();
            let r = rt();
            r.stats.futex_waits += 1;
            ev("fw", addr_id(addr), val as u64);
            // Somebody may run before the value is compared, as on a real machine.
            let n = pick_next(true);
            switch_to(n);
            let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
            if cur != val {
                set_errno(libc::EAGAIN);
                return -1;
            }
            r.n_wait += 1;
            let at = r.n_wait;
            let spur = if r.cfg.replay.is_some() {
                r.rp_p.contains_key(&at)
            } else {
                r.cfg.p_spur > 0.0 && r.rng.chance(r.cfg.p_spur)
            };
            if spur {
                r.record.push(Choice { k: 'p', at, v: 1 });
                r.stats.spurious += 1;
                return 0;
            }
            let deadline = if timeout.is_null() {
                u64::MAX
            } else {
                settle_allocs();
                let t = unsafe { &*timeout };
                let ns = (t.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(t.tv_nsec as u64);
                if cmd == 0 { r.now.saturating_add(ns) } else { ns }
            };
            if block(St::Futex { addr, deadline }) {
                set_errno(libc::ETIMEDOUT);
                return -1;
            }
            0
        }
        1 | 10 => {
            let woken;
            {
                let _q = Quiet::new();
                let r = rt();
                settle_allocs();
                wake_due();
                let mut n = 0;
                while n < val as usize {
                    let ws: Vec<usize> = (0..r.ths.len())
                        .filter(|i| matches!(r.ths[*i].st, St::Futex { addr: a, .. } if a == addr))
                        .collect();
                    if ws.is_empty() {
                        break;
                    }
                    r.n_wake += 1;
                    let at = r.n_wake;
                    let k = if r.cfg.replay.is_some() {
                        r.rp_w.get(&at).copied().unwrap_or(0).min(ws.len() as u64 - 1)
                    } else if r.cfg.mode == "serial" || ws.len() == 1 {
                        0
                    } else {
                        r.rng.below(ws.len() as u64)
                    };
                    if k != 0 {
                        r.record.push(Choice { k: 'w', at, v: k });
                    }
                    let t = ws[k as usize];
                    r.ths[t].st = St::Run;
                    r.ths[t].timed_out = false;
                    n += 1;
                }
                ev("fk", addr_id(addr), n as u64);
                woken = n as i64;
            }
            yield_point();
            woken
        }
        _ => raw_syscall(202, addr as i64, op, val as i64, timeout as i64, 0, 0),
    }
}

pub fn epoll_wait(fd: i32, evs: *mut libc::epoll_event, max: i32, timeout: i32) -> i32 {
    loop {
        let n = raw_syscall(232, fd as i64, evs as i64, max as i64, 0, 0, 0);
        if n != 0 || timeout == 0 {
            yield_point();
            return n as i32;
        }
        settle_allocs();
        let deadline = if timeout < 0 {
            u64::MAX
        } else {
            rt().now + timeout as u64 * 1_000_000
        };
        if block(St::Epoll { fd, deadline }) {
            return raw_syscall(232, fd as i64, evs as i64, max as i64, 0, 0, 0) as i32;
        }
    }
}

pub fn real_fd_written() {
    if active() {
        let _q = Quiet::new();
        rt().epoll_dirty = true;
        poll_epolls();
    }
    yield_point();
}

/// sched_yield: somebody else runs if anybody can.
pub fn sched_yield() {
    if quiet() {
        return;
    }
    let _q = Quiet::new();
    let r = rt();
    let me = r.cur;
    r.low_prio -= 1;
    r.ths[me].prio = r.low_prio;
    settle_allocs();
    wake_due();
    r.now += 100;
    let others = (0..r.ths.len()).any(|i| i != me && runnable(i));
    if !others {
        r.n_sync += 1;
        check_budget();
        // Only sleepers are left: let time pass so that a spinning loop ends.
        r.now += 20_000;
        return;
    }
    r.ths[me].st = St::Sleep { deadline: u64::MAX };
    let n = pick_next_yield(me);
    switch_to(n);
}

fn pick_next_yield(me: usize) -> usize {
    // The yielder is not an option for this one decision, but is runnable afterwards.
    let n = pick_next(false);
    rt().ths[me].st = St::Run;
    n
}

type StartFn = extern "C" fn(*mut libc::c_void) -> *mut libc::c_void;

extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let tid = p as usize;
    // Wait to be scheduled before touching anything shared.
    let r = rt();
    let th: *const Th = unsafe { *(TH_PTRS[tid].as_ptr() as *const *const Th) };
    raw_wait(unsafe { &(*th).wake });
    TID.with(|t| t.set(tid));
    unsafe { libc::pthread_setspecific(EXIT_KEY, 1 as *const _) };
    let f: StartFn = unsafe { std::mem::transmute((*th).start) };
    let arg = unsafe { (*th).arg };
    let _ = r;
    f(arg as *mut libc::c_void)
}

const MAX_THREADS: usize = 4096;
static mut TH_PTRS: [std::cell::UnsafeCell<usize>; MAX_THREADS] =
    [const { std::cell::UnsafeCell::new(0) }; MAX_THREADS];
trait AsPtr {
    fn as_ptr(&self) -> *mut usize;
}
impl AsPtr for std::cell::UnsafeCell<usize> {
    fn as_ptr(&self) -> *mut usize {
        self.get()
    }
}

pub unsafe fn thread_create(
    real: unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut libc::c_void) -> i32,
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: usize,
    arg: usize,
) -> i32 {
    let rc;
    {
        let _q = Quiet::new();
        let r = rt();
        let tid = r.ths.len();
        if tid >= MAX_THREADS {
            return libc::EAGAIN;
        }
        let prio = r.rng.next() | 1 << 40;
        let pid = r.ths[r.cur].pid;
        r.ths.push(Box::new(Th {
            wake: AtomicU32::new(0),
            st: St::Run,
            pthread: 0,
            pid,
            prio,
            timed_out: false,
            start: f,
            arg,
            exit_rounds: 0,
        }));
        *TH_PTRS[tid].get() = &*r.ths[tid] as *const Th as usize;
        rc = real(out, attr, trampoline, tid as *mut libc::c_void);
        if rc != 0 {
            r.ths.pop();
            return rc;
        }
        r.stats.threads += 1;
        r.ths[tid].pthread = *out as u64;
        ev("spawn", tid as u64, 0);
    }
    yield_point();
    rc
}

/// Blocks until the simulated thread behind `t` has exited.
pub fn thread_join(t: u64) {
    let r = rt();
    let target = (0..r.ths.len()).rev().find(|i| r.ths[*i].pthread == t);
    if let Some(target) = target {
        if r.ths[target].st != St::Exited {
            block(St::Join { target });
        }
        ev("join", target as u64, 0);
    }
}

pub fn my_pid() -> u32 {
    let r = rt();
    r.ths[r.cur].pid
}
/// Moves the calling thread into simulated process `pid` (inherited by threads it spawns).
pub fn set_pid(pid: u32) {
    let r = rt();
    let c = r.cur;
    r.ths[c].pid = pid;
}
/// Kills a simulated process: none of its threads ever runs again.  If the caller belongs to
/// it this does not return.
pub fn kill_pid(pid: u32) {
    let _q = Quiet::new();
    let r = rt();
    ev("kill", pid as u64, 0);
    for t in r.ths.iter_mut() {
        if t.pid == pid && t.st != St::Exited {
            t.st = St::Dead;
        }
    }
    for i in 0..r.ths.len() {
        if let St::Join { target } = r.ths[i].st {
            if r.ths[target].st == St::Dead {
                r.ths[i].st = St::Run;
            }
        }
    }
    let me = r.cur;
    if r.ths[me].st == St::Dead {
        let n = pick_next(false);
        hand_over(n);
        loop {
            raw_wait(&r.ths[me].wake);
        }
    }
}

/// Has every thread of the simulated process ended?
pub fn pid_gone(pid: u32) -> bool {
    let _q = Quiet::new();
    rt().ths.iter().all(|t| t.pid != pid || matches!(t.st, St::Exited | St::Dead))
}

pub fn ncpu() -> u32 {
    rt().cfg.ncpu
}
