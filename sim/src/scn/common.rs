//! What scenarios share: running the real verifier inside a simulated process and reading its
//! outcome.
use crate::fs::{FsPlan, MemFs};
use crate::harness::{phase, Out, Phase};
use crate::lib_ac::{Goal, Library};
use crate::rt::{self, Rng, Sched};
use acorn::project::ProjectConfig;
use acorn::prover::scorer::{ScoringConfig, ScoringPolicy};
use acorn::verifier::{LineSelection, Verifier};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

pub const ROOT: &str = "/sim/p";

/// One command line of the tool.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Req {
    /// "verify" (as `acorn verify`) or "check" (as `acorn check`).
    pub mode: String,
    pub jobs: usize,
    #[serde(default)]
    pub ignore_hash: bool,
    #[serde(default)]
    pub force_search: bool,
    #[serde(default)]
    pub strict: bool,
    #[serde(default)]
    pub target: Option<String>,
    #[serde(default)]
    pub line: Option<u32>,
    #[serde(default)]
    pub handcrafted: bool,
    #[serde(default)]
    pub read_only: bool,
    #[serde(default)]
    pub update_version: bool,
    #[serde(default)]
    pub timeout: Option<f32>,
    #[serde(default)]
    pub exit_on_warning: bool,
    /// Activation limit of each search (deterministic, unlike the time limit).
    #[serde(default)]
    pub activations: Option<i32>,
}

impl Default for Req {
    fn default() -> Self {
        Req {
            mode: "verify".into(),
            jobs: 1,
            ignore_hash: false,
            force_search: false,
            strict: false,
            target: None,
            line: None,
            handcrafted: true,
            read_only: false,
            update_version: false,
            timeout: None,
            exit_on_warning: false,
            activations: Some(ACTIVATIONS),
        }
    }
}

/// Enough for every true claim the generator makes.
pub const ACTIVATIONS: i32 = 60;

impl Req {
    pub fn verify(jobs: usize) -> Req {
        Req { jobs, ..Default::default() }
    }
    pub fn check(jobs: usize) -> Req {
        Req { mode: "check".into(), jobs, ..Default::default() }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, PartialOrd)]
pub struct Diag {
    pub module: String,
    pub a: u32,
    pub b: u32,
    pub error: bool,
    pub msg: String,
}

/// What the tool told its user.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Outcome {
    /// The command failed before producing a result.
    pub err: Option<String>,
    pub status: String,
    pub diags: Vec<Diag>,
    pub verified: Vec<(String, u32, u32)>,
    /// goals_total, goals_done, goals_success, modules_total, modules_cached, searches_total,
    /// searches_success, certs_created, timeouts, certs_cached
    pub n: BTreeMap<String, i64>,
    pub progress_bad: Option<String>,
}

impl Outcome {
    pub fn good(&self) -> bool {
        self.err.is_none() && self.status == "Good"
    }
    pub fn class(&self) -> &str {
        if self.err.is_some() {
            "Error"
        } else {
            &self.status
        }
    }
    pub fn of(p: &Phase) -> Option<Outcome> {
        p.done().map(|v| serde_json::from_value(v.clone()).expect("outcome"))
    }
}

/// Runs the tool in the current simulated process on the project at ROOT.
pub fn run_req(q: &Req) -> Outcome {
    run_req_at(q, &format!("{ROOT}/src"))
}

pub fn run_req_at(q: &Req, dir: &str) -> Outcome {
    let mut config = ProjectConfig::default();
    config.write_cache = !q.read_only;
    config.update_version = q.update_version;
    if q.force_search {
        config.read_cache = false;
    }
    let dir = std::path::PathBuf::from(dir);
    let made = if q.mode == "check" {
        config.write_cache = false;
        Verifier::new_for_check(dir, config, q.target.clone())
    } else {
        Verifier::new(dir, config, q.target.clone())
    };
    let mut v = match made {
        Ok(v) => v,
        Err(e) => return Outcome { err: Some(e.cli_message()), ..Default::default() },
    };
    if q.mode == "check" {
        v.builder.check_mode = true;
        v.builder.check_hashes = false;
        v.builder.operation_verb = "checked";
    } else {
        v.builder.check_mode = false;
        v.builder.check_hashes = !q.force_search && !q.ignore_hash;
    }
    v.builder.strict = q.strict;
    v.builder.force_search = q.force_search;
    v.builder.check_jobs = q.jobs;
    v.exit_on_warning = q.exit_on_warning;
    if let Some(t) = q.timeout {
        v.builder.timeout_secs = t;
    }
    if let Some(n) = q.activations {
        v.builder.activation_limit = n;
    }
    if q.handcrafted {
        v.builder.scoring_config = ScoringConfig::new(ScoringPolicy::Handcrafted);
    }
    if let Some(l) = q.line {
        v.line_selection = Some(LineSelection::Single(l));
    }
    let r = v.run();
    let _q = rt::Quiet::new();
    let o = match r {
        Ok(o) => o,
        Err(e) => return Outcome { err: Some(e), ..Default::default() },
    };
    let mut out = Outcome { status: format!("{:?}", o.status), ..Default::default() };
    let mut last: Option<(i32, i32)> = None;
    for e in &o.events {
        let m = e.module.to_string();
        if let Some(d) = &e.diagnostic {
            out.diags.push(Diag {
                module: m.clone(),
                a: d.range.start.line,
                b: d.range.end.line,
                error: d.severity == Some(tower_lsp::lsp_types::DiagnosticSeverity::ERROR),
                msg: d.message.clone(),
            });
        }
        if let Some((a, b)) = e.verified {
            out.verified.push((m, a, b));
        }
        if let Some((d, t)) = e.progress {
            if d > t && out.progress_bad.is_none() {
                out.progress_bad = Some(format!("progress {d}/{t}"));
            }
            if let Some((ld, _)) = last {
                if d < ld && out.progress_bad.is_none() {
                    out.progress_bad = Some(format!("progress went back from {ld} to {d}"));
                }
            }
            last = Some((d, t));
        }
    }
    let m = &o.metrics;
    for (k, v) in [
        ("goals_total", m.goals_total),
        ("goals_done", m.goals_done),
        ("goals_success", m.goals_success),
        ("modules_total", m.modules_total),
        ("modules_cached", m.modules_cached),
        ("searches_total", m.searches_total),
        ("searches_success", m.searches_success),
        ("certs_created", m.certs_created),
        ("certs_cached", m.certs_cached),
        ("certs_unused", m.certs_unused),
        ("timeouts", m.searches_timeout),
        ("interrupted", m.searches_interrupted),
    ] {
        out.n.insert(k.into(), v as i64);
    }
    out.verified.sort();
    out.diags.sort_by(|a, b| a.partial_cmp(b).unwrap());
    out
}

pub fn tool(image: MemFs, fsplan: &FsPlan, sched: &Sched, q: &Req) -> Phase {
    let q = q.clone();
    phase(image, fsplan, false, sched, move || serde_json::to_value(run_req(&q)).unwrap())
}

/// The disk with a project holding `lib`.
pub fn disk(lib: &Library) -> MemFs {
    let mut f = MemFs::new();
    f.put(&format!("{ROOT}/acorn.toml"), b"project_format_version = 27\n");
    f.mkdirs(&format!("{ROOT}/src"));
    f.mkdirs(&format!("{ROOT}/build"));
    put_lib(&mut f, lib);
    f
}

/// Makes the sources on disk those of `lib` (certificates and manifests stay).
pub fn put_lib(f: &mut MemFs, lib: &Library) {
    let want = lib.files();
    for (p, _) in f.files(&format!("{ROOT}/src")) {
        if p.ends_with(".ac") && !want.contains_key(&p) {
            f.del(&format!("{ROOT}/src/{p}"));
        }
    }
    for (p, t) in want {
        let full = format!("{ROOT}/src/{p}");
        if f.get(&full).map(|d| &d[..]) != Some(t.as_bytes()) {
            f.put(&full, t.as_bytes());
        }
    }
}

/// The first false claim of each module whose imports are all true: these the tool can have no
/// proof of.
pub fn unprovable(lib: &Library) -> Vec<Goal> {
    let mut r = vec![];
    for m in &lib.modules {
        if lib.fails_to_load(m) {
            continue;
        }
        let sound = lib.deps(&m.name).iter().all(|d| {
            lib.module(d).map_or(true, |d| lib.render(d).1.iter().all(|g| g.truth))
        });
        if sound {
            if let Some(g) = lib.render(m).1.into_iter().find(|g| !g.truth) {
                r.push(g);
            }
        }
    }
    r
}

/// Why `o` cannot be a truthful account of `lib`, if so.  Soundness: success only when every
/// claim is true, and no claim reported as verified that has no proof.
pub fn unsound(lib: &Library, o: &Outcome) -> Option<String> {
    if o.err.is_some() {
        return None;
    }
    if o.good() && !lib.all_good() {
        let why: Vec<String> = lib
            .modules
            .iter()
            .filter(|m| lib.fails_to_load(m))
            .map(|m| format!("{} does not load", m.name))
            .chain(lib.goals().iter().filter(|g| !g.truth).map(|g| format!("{}:{} is false", g.module, g.name)))
            .collect();
        return Some(format!("the build succeeded although {}", why.join(", ")));
    }
    for g in unprovable(lib) {
        if o.verified.iter().any(|(m, a, b)| *m == g.module && (*a, *b) == g.lines) {
            return Some(format!("claim {}:{} (lines {:?}) is false but was reported as verified", g.module, g.name, g.lines));
        }
    }
    None
}

pub fn rand_sched(r: &mut Rng) -> Sched {
    Sched::random(r)
}

/// A crash description that is the code's own fault.
pub fn bad_end(p: &Phase) -> Option<(String, String)> {
    match &p.out {
        Out::Stuck(m) => Some(("stuck".into(), format!("the run makes no progress: {m}"))),
        Out::Panicked(m) => Some(("panic".into(), format!("panicked: {m}"))),
        Out::Died(m) => Some(("died".into(), format!("died: {m}"))),
        _ => None,
    }
}

pub fn dev(args: &[String]) -> i32 {
    match args.first().map(|s| s.as_str()) {
        Some("ops") => {
            show_ops();
            0
        }
        Some("acornlib") => make_acornlib(),
        Some("cli") => {
            let mut r = Rng::new(std::env::var("SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(5));
            let lib = Library::random(&mut r, 3, 0.1);
            let t = std::time::Instant::now();
            let p = crate::cli::acorn(disk(&lib), &FsPlan::default(), &Sched::default(), &format!("{ROOT}/src"), &args[1..], "");
            println!("{}\n{:?} {:?} {:?}", p.text, p.out, p.stats, t.elapsed());
            println!("{:?}", p.oplog);
            0
        }
        Some("calib") => calib(args.get(1).and_then(|s| s.parse().ok()).unwrap_or(20)),
        _ => {
            eprintln!("dev calib N");
            2
        }
    }
}

/// Compares the tool with the generator's idea of truth.
fn calib(n: u64) -> i32 {
    let mut bad = 0;
    for i in 0..n {
        let mut r = Rng::new(77000 + i);
        let k = r.range(1, 4);
        let lib = Library::random(&mut r, k, 0.1);
        let mut sc = Sched { hash_seed: r.next(), ..Sched::default() };
        sc.ncpu = 2;
        let q = Req { jobs: 1 + r.below(3) as usize, handcrafted: r.chance(0.7), activations: std::env::var("ACT").ok().and_then(|s| s.parse().ok()), ..Default::default() };
        let t = std::time::Instant::now();
        let p = tool(disk(&lib), &FsPlan::default(), &sc, &q);
        let ms = t.elapsed().as_millis();
        let Some(o) = Outcome::of(&p) else {
            println!("{i}: {:?}", p.out);
            bad += 1;
            continue;
        };
        let mut msgs = vec![];
        if let Some(m) = unsound(&lib, &o) {
            msgs.push(m);
        }
        if let Some(e) = &o.err {
            msgs.push(format!("err {e}"));
        }
        for g in lib.goals() {
            let v = o.verified.iter().any(|(m, a, b)| *m == g.module && (*a, *b) == g.lines);
            let sound = lib.goals().iter().all(|h| h.truth || (h.module != g.module && !lib.deps(&g.module).contains(&h.module)));
            if g.truth && !v && sound {
                msgs.push(format!("true {}:{} {:?} not verified", g.module, g.name, g.lines));
            }
        }
        println!("{i}: {ms} ms allocs {} status {} n {:?}", p.stats.allocs, o.status, o.n);
        if !msgs.is_empty() {
            bad += 1;
            println!("   {}", msgs.join("\n   "));
            for d in &o.diags {
                println!("   {:?}", d);
            }
            println!("   verified {:?}", o.verified);
            if std::env::var_os("SHOW").is_some() {
                for (f, t) in lib.files() {
                    println!("--- {f}\n{t}");
                }
            }
        }
    }
    println!("{bad} of {n} odd");
    (bad > 0) as i32
}

/// Verifies /verif/acornlib and stores the certificates beside the sources.
fn make_acornlib() -> i32 {
    let root = format!("{}/acornlib", std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    let mut f = MemFs::new();
    fn walk(f: &mut MemFs, dir: &std::path::Path, at: &str) {
        for e in std::fs::read_dir(dir).unwrap().flatten() {
            let p = e.path();
            let to = format!("{at}/{}", e.file_name().to_string_lossy());
            if p.is_dir() {
                if e.file_name() != "certs" {
                    walk(f, &p, &to);
                }
            } else {
                f.put(&to, &std::fs::read(&p).unwrap());
            }
        }
    }
    walk(&mut f, std::path::Path::new(&root), ROOT);
    let p = tool(f, &FsPlan::default(), &Sched::default(), &Req::verify(1));
    println!("{:?}", p.out);
    for (k, v) in p.fs.files(ROOT) {
        if k.contains("certs/") {
            let to = format!("{root}/{k}");
            std::fs::create_dir_all(std::path::Path::new(&to).parent().unwrap()).unwrap();
            std::fs::write(&to, v).unwrap();
            println!("{to}");
        }
    }
    0
}

pub fn show_ops() {
    let mut r = Rng::new(5);
    let lib = Library::random(&mut r, 3, 0.0);
    let p = tool(disk(&lib), &FsPlan::default(), &Sched::default(), &Req::verify(2));
    println!("{}", p.text);
    for o in &p.oplog {
        println!("{o}");
    }
    println!("reads {}", p.n_read);
    for (k, v) in p.fs.files("/sim") {
        println!("--- {k}\n{}", String::from_utf8_lossy(&v));
    }
    let p = tool(p.fs, &FsPlan::default(), &Sched::default(), &Req::verify(2));
    for o in &p.oplog {
        println!("{o}");
    }
    println!("{:?}", p.out);
}
