//! The command line of the real binary (its `main`), run inside a simulated process: arguments
//! are put where the standard library looks for them, and ending the process ends the phase.
use crate::fs::{FsPlan, MemFs};
use crate::harness::{exited, phase, Phase};
use crate::rt::Sched;
use serde_json::json;
use std::ffi::CString;
use std::sync::atomic::{AtomicPtr, Ordering};

#[path = "../../work/acorn_cli.rs"]
#[allow(warnings)]
mod acorn_cli;

/// An argument that only makes room.
pub const PAD: &str = "-- -";
const ROOM: usize = 40;

static ARGV: AtomicPtr<*const libc::c_char> = AtomicPtr::new(std::ptr::null_mut());

extern "C" fn keep_argv(_n: i32, argv: *mut *const libc::c_char, _env: *const *const libc::c_char) {
    ARGV.store(argv, Ordering::Relaxed);
}
#[used]
#[link_section = ".init_array"]
static KEEP: extern "C" fn(i32, *mut *const libc::c_char, *const *const libc::c_char) = keep_argv;

/// The arguments of this program; starts it again with room for those of simulated processes.
pub fn own_args() -> Vec<String> {
    let a: Vec<String> = std::env::args().collect();
    if a.iter().any(|x| x == PAD) {
        return a.into_iter().filter(|x| x != PAD).collect();
    }
    let exe = std::fs::read_link("/proc/self/exe").unwrap();
    use std::os::unix::process::CommandExt;
    let e = std::process::Command::new(exe).args(&a[1..]).args(std::iter::repeat(PAD).take(ROOM)).exec();
    panic!("cannot start again: {e}");
}

fn set_args(args: &[String]) {
    assert!(args.len() < ROOM);
    let argv = ARGV.load(Ordering::Relaxed);
    for (i, a) in args.iter().enumerate() {
        unsafe { *argv.add(i) = CString::new(a.as_str()).unwrap().into_raw() };
    }
    unsafe { *argv.add(args.len()) = std::ptr::null() };
}

/// `acorn ARGS`, in a directory.  Its result is `{"exit": status}`.
pub fn acorn(image: MemFs, fp: &FsPlan, sched: &Sched, dir: &str, args: &[String], stdin: &str) -> Phase {
    let mut all = vec!["acorn".to_string()];
    all.extend(args.iter().cloned());
    let dir = dir.to_string();
    let stdin = stdin.to_string();
    phase(image, fp, false, sched, move || {
        set_args(&all);
        crate::interpose::set_cwd(&dir);
        crate::interpose::set_stdin(stdin.as_bytes());
        match std::panic::catch_unwind(acorn_cli::run_command_line) {
            Ok(true) => json!({"exit": 0}),
            Ok(false) => json!({"exit": 1}),
            // What a panicking main function amounts to.
            Err(e) => json!({"exit": 101, "panic": crate::harness::panic_text(&e)}),
        }
    })
}

/// How a process that was started beside others ended, once it has.
pub type Ended = std::sync::Arc<std::sync::Mutex<Option<serde_json::Value>>>;

/// `acorn ARGS` as a process of its own, its standard input and output pipes that `user` holds.
pub fn acorn_piped(image: MemFs, fp: &FsPlan, sched: &Sched, dir: &str, args: &[String], user: impl FnOnce(Ended) -> serde_json::Value + Send + 'static) -> Phase {
    let mut all = vec!["acorn".to_string()];
    all.extend(args.iter().cloned());
    let dir = dir.to_string();
    phase(image, fp, true, sched, move || {
        set_args(&all);
        crate::interpose::set_cwd(&dir);
        crate::interpose::stdin_pipe(true);
        crate::interpose::stdout_pipe(true);
        let ended: Ended = Default::default();
        let _ = BESIDE.set(ended.clone());
        let e2 = ended.clone();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                crate::rt::set_pid(2);
                let v = match std::panic::catch_unwind(acorn_cli::run_command_line) {
                    Ok(ok) => json!({"exit": if ok { 0 } else { 1 }}),
                    Err(e) => json!({"exit": 101, "panic": crate::harness::panic_text(&e)}),
                };
                // Its end of the pipe closes.
                *e2.lock().unwrap() = Some(v);
                crate::interpose::stdout_pipe(false);
            })
            .unwrap();
        user(ended)
    })
}

static BESIDE: std::sync::OnceLock<Ended> = std::sync::OnceLock::new();

/// The process that was started beside others ends at once.
fn end_beside(v: serde_json::Value) -> ! {
    if let Some(e) = BESIDE.get() {
        *e.lock().unwrap() = Some(v);
    }
    crate::interpose::stdout_pipe(false);
    crate::rt::kill_pid(2);
    unreachable!()
}

/// Called instead of `abort` there.
pub fn abort() -> ! {
    end_beside(json!({"exit": 134}))
}

/// Called instead of `exit` in a simulated process.
pub fn exit(code: i32) -> ! {
    if crate::rt::my_pid() == 2 && BESIDE.get().is_some() {
        end_beside(json!({"exit": code}));
    }
    exited(json!({"exit": code}))
}
