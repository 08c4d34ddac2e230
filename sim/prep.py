#!/usr/bin/env python3
"""Lays out /verif/work/acorn: a package whose sources ARE /repo's (symlinks into /repo), with
the one thing the checkout lacks (the acornlib submodule, replaced by /verif/acornlib) so that
/repo's own build.rs, packaged_acornlib, server and lib all compile unchanged."""
import hashlib, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
W = os.path.join(V, "work", "acorn")

def put(path, text):
    try:
        if not os.path.islink(path) and open(path).read() == text:
            return
    except OSError:
        pass
    if os.path.lexists(path):
        os.remove(path)
    with open(path, "w") as f:
        f.write(text)

def link(src, dst):
    if os.path.islink(dst) and os.readlink(dst) == src:
        return
    if os.path.lexists(dst):
        os.remove(dst)
    os.symlink(src, dst)

def main():
    os.makedirs(W, exist_ok=True)
    for name in sorted(os.listdir(R)):
        if name in (".git", "target", "acornlib", "Cargo.toml", "Cargo.lock"):
            continue
        link(os.path.join(R, name), os.path.join(W, name))
    link(os.path.join(V, "acornlib"), os.path.join(W, "acornlib"))
    toml = open(os.path.join(R, "Cargo.toml")).read()
    put(os.path.join(W, "Cargo.toml"), toml)
    # The command line itself: its main function, with the simulator's allocator in place of its own.
    cli = open(os.path.join(R, "src", "bin", "acorn.rs")).read()
    cli = re.sub(r"(?m)^#!\[.*\]\s*$", "", cli)
    cli = re.sub(r"(?m)^\s*#\[global_allocator\]\s*$", "", cli)
    cli += "\n/// Runs the command line; its exit status.\npub fn run_command_line() -> bool {\n"
    cli += "    std::process::Termination::report(main()) == std::process::ExitCode::SUCCESS\n}\n"
    put(os.path.join(V, "work", "acorn_cli.rs"), cli)
    lock = os.path.join(V, "sim", "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(R, "Cargo.lock"), lock)
    # content stamp: cargo judges freshness by mtime only; force a rebuild when content differs
    h = hashlib.sha256()
    for root in ("src", "files", "build.rs", "Cargo.toml"):
        p = os.path.join(R, root)
        fs = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff)
        for f in fs:
            h.update(f.encode()); h.update(open(f, "rb").read())
    tgt = os.environ.get("SIM_TARGET", os.path.join(V, "work", "target"))
    os.makedirs(tgt, exist_ok=True)
    stamp = os.path.join(tgt, "repo.stamp")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h.hexdigest():
        for prof in ("debug", "release"):
            fp = os.path.join(tgt, prof, ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if re.match(r"acorn-[0-9a-f]+$", d):
                        shutil.rmtree(os.path.join(fp, d))
        open(stamp, "w").write(h.hexdigest())
    print(h.hexdigest()[:16])

main()
