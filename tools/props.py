#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, quant, why, files, mech, observe, state=(), note="", hook="none", claimed=True):
    P.append(dict(claimed=claimed, note=note, p=dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook))))

TECH = "deterministic simulation with fault injection: seeded search over "

prop("P01", "A crash at any point leaves a proof cache that never turns false claims true",
  "Whatever point a build is killed at, or the machine loses power at, the next build of the same project reports success only if every claim of it holds, reports every claim that holds as verified, and ends as if there had been no crash. Afterwards a certificate-only check agrees with that build.",
  ["crash_points", "histories", "inputs"],
  "every project, every history of edits and builds, every operation on the disk at which the process dies or power fails, every subset of unforced writes that survives",
  "A test can kill a build at one or two points; the guarantee is about each of the disk operations of every build, and about which unsynced data a power failure keeps.",
  ["src/build_cache.rs", "src/manifest.rs", "src/certificate.rs", "src/project.rs", "src/builder.rs"],
  [("certificates are written before the manifest that vouches for them", "src/build_cache.rs save_merging_old"),
   ("files are replaced through a temporary file and a rename", "src/atomic_file.rs write"),
   ("a module is skipped only if its hash and those of what it uses are recorded", "src/builder.rs prepare_loaded_module_work, src/build_cache.rs manifest_matches")],
  ["what Verifier::run returns", "files under src after a simulated crash and restart"],
  state=[("package manifest", "hashes of the sources last verified", "certs/manifest.json"), ("certificate store", "one proof per claim", "certs/*.jsonl")],
  note="crash points, fault kinds and histories are sampled by seed; the simulated disk keeps per-file page cache and durable contents apart, and orders metadata as a journalling file system does")

prop("P02", "Stored proofs survive interrupted and failed saves",
  "A build that is killed, loses power or meets a full, failing or read-only disk never leaves a stored proof file that is torn or empty: each such file holds either what it held before or what the build wanted to write (a manifest may also have lost entries of its modules, which then count as unverified). A project that was fully verified before such a build can still be checked from its stored proofs if its sources did not change.",
  ["crash_points", "fault_sequences", "histories"],
  "every project and history, every disk operation of a save as the point of failure, every fault kind and combination",
  "Tests save to a disk that works; the loss shows only for a failure between two particular system calls.",
  ["src/certificate.rs", "src/build_cache.rs", "src/atomic_file.rs"],
  [("certificate files are replaced atomically", "src/certificate.rs CertificateStore::save"), ("save order and error propagation", "src/build_cache.rs save_merging_old")],
  ["bytes of certs/*.jsonl and certs/manifest.json after the fault", "outcome of a check run afterwards"],
  note="faults injected at every kind of mutating call: EIO, ENOSPC, EACCES, EROFS, EINTR, short writes, kill, power loss")

prop("P03", "Incremental builds never skip what has to be rechecked",
  "After any sequence of edits, renames, additions and removals of modules, interleaved with full, partial, line-selected, fail-fast and forced builds that may fail or be killed, a build that reuses earlier results reports success only if every claim of the current sources holds, and complains about every claim that does not. No claim is reported as verified on the strength of a proof of a different statement.",
  ["histories", "inputs", "configurations"],
  "every sequence of edits and tool runs with any options",
  "Unit tests check one edit after one build; stale reuse needs particular sequences such as verifying a dependency alone between two edits.",
  ["src/builder.rs", "src/build_cache.rs", "src/manifest.rs", "src/project.rs", "src/verifier.rs"],
  [("hash comparison before skipping a module", "src/builder.rs prepare_loaded_module_work"), ("merging of old and new manifests", "src/build_cache.rs save_merging_old, src/manifest.rs merge_missing_from")],
  ["status, diagnostics and verified claims returned by Verifier::run"],
  state=[("implementation and checked_against hashes", "what each module was verified as and against", "src/manifest.rs PackageManifest")],
  note="judged against a model that knows which claims of the generated project hold")

prop("P04", "Results do not depend on workers, interleaving, hash seeds or file order",
  "Verifying or checking one project state with the same options yields the same status and byte-identical stored proofs and manifests, whatever the number of workers, the thread interleaving, the hash seeds of the process and the order in which directories list their entries. Unless the build is refused outright, the diagnostics, the verified claims and the counts are the same too.",
  ["schedules", "inputs", "configurations"],
  "every project, every number of workers, every interleaving, every hash seed and directory order",
  "The tests run a handful of projects under the schedules the machine happens to produce, almost all with one worker.",
  ["src/builder.rs", "src/project.rs", "src/build_cache.rs", "src/certificate.rs", "src/verifier.rs"],
  [("parallel and pipelined builds merge worker results in module order", "src/builder.rs build_modules_parallel, process_module_work_pipeline"), ("worker deques", "src/worker_deque.rs"), ("parallel loader", "src/project.rs ParallelProjectLoader")],
  ["what Verifier::run returns", "files under the certs directories"],
  note="two executions of one command on one disk image are compared")

prop("P08", "What a build proves, a check accepts, and a second build has nothing to do",
  "After a build reports success, a certificate-only check of the unchanged project succeeds, verifies the same claims without any proof search, and leaves every file alone. A second build succeeds without proof search and changes no stored proof, however many workers either of them uses.",
  ["inputs", "schedules", "histories"],
  "every project, every history of earlier states of it, every pair of schedules and numbers of workers",
  "Tests check single certificates; the guarantee joins search, serialization, storage order, merging of old certificates and replay over whole projects and histories.",
  ["src/certificate.rs", "src/builder.rs", "src/build_cache.rs", "src/checker.rs"],
  [("certificates are matched to goals in order and unused ones kept or trimmed", "src/certificate.rs CertificateWorklist"), ("replay instead of search", "src/builder.rs verify_goal / check mode")],
  ["status and counts of verify, check, verify", "bytes of certs/*.jsonl"],
  note="search, storage and replay are all the real code")

prop("P12", "Sources edited during a build are not recorded as verified",
  "If source files change while a build runs, whatever it then stores never makes a later build report success for claims of the new text that do not hold, nor leave out complaints about them. What the running build itself reports as verified was true of the old text or of the new one.",
  ["schedules", "histories", "inputs"],
  "every project, every moment at which an editor rewrites, renames or deletes files under a running build, in place or by renaming",
  "The race between reading a file, hashing it and recording its hash has windows no test can hit on purpose.",
  ["src/project.rs", "src/builder.rs", "src/build_cache.rs"],
  [("the hash recorded is that of the text that was parsed", "src/project.rs load_module, content hash"), ("module hash recorded after verification", "src/builder.rs insert into build cache")],
  ["outcome of the disturbed build and of an undisturbed one after it"],
  note="the editor is a simulated process under the same scheduler, interleaved at system-call granularity")

prop("P16", "The user's own files survive every run of the tool",
  "Whatever the tool does and however it fails, is killed or loses power, source files keep their contents, and the project file keeps all its contents except its format version. A failed read of a file never leads to that file being overwritten.",
  ["crash_points", "fault_sequences", "histories"],
  "every project, every fault at every disk operation, with and without permission to update the format version",
  "Data loss needs a fault between particular operations on one particular file, which no test injects.",
  ["src/project.rs", "src/atomic_file.rs", "src/build_cache.rs"],
  [("only the version in acorn.toml is rewritten", "src/project.rs write_project_format_version"), ("certs directories are the only others written", "src/build_cache.rs save_merging_old")],
  ["bytes of every file outside certs after each run"],
  note="acorn.toml is generated with comments, other keys, old and missing versions")

prop("P17", "What could not be read is not called verified",
  "If listing, opening or reading any part of the project fails during a build, the build reports success only if it verified every claim of the project. Later undisturbed builds tell the truth.",
  ["fault_sequences", "inputs", "histories"],
  "every project and history, every failing read, listing or open, once, several times or for good, and every directory that may not be entered",
  "Tests read from a healthy disk; ignoring one failed directory listing silently shrinks what is verified.",
  ["src/project.rs", "src/verifier.rs", "src/build_cache.rs", "src/builder.rs"],
  [("source files are listed", "src/project.rs src_target_paths"), ("targets that did not load", "src/builder.rs log_unprocessed_target_states")],
  ["status and number of claims seen"],
  note="metadata queries fail only as part of a directory that may not be entered: the code treats a file it cannot stat as absent")

prop("P18", "Several processes on one project do not corrupt it or mislead each other",
  "When several builds of one project run at the same time, each reports the truth about it, and whatever they leave behind, later builds report success only if every claim holds. Every stored file is one that a single process wrote whole, and one full build repairs whatever they left.",
  ["schedules", "fault_sequences", "histories"],
  "every set of two or three concurrent commands, every interleaving of their system calls, with and without disk faults",
  "Inter-process interleavings cannot be arranged from a unit test, and shared temporary names collide only in narrow windows.",
  ["src/build_cache.rs", "src/manifest.rs", "src/certificate.rs", "src/atomic_file.rs"],
  [("temporary names unique to a process", "src/atomic_file.rs write"), ("caches are loaded once and written whole", "src/build_cache.rs load, save_merging_old")],
  ["outcome of each process and of builds after them"],
  note="processes are simulated threads with their own process ids on one simulated disk; process-wide globals are shared between them")

prop("P20", "Checking and read-only runs change nothing on disk",
  "A certificate check, and any build asked not to write, performs no operation that could change the disk, whatever state the project, its stored proofs and its format version are in and whatever reads fail.",
  ["histories", "inputs", "fault_sequences", "configurations"],
  "every project state left by any history of edits, builds and crashes, every option",
  "A test looks for particular files; here every system call that could change the disk is observed in every state.",
  ["src/project.rs", "src/verifier.rs", "src/build_cache.rs"],
  [("write_cache switch", "src/project.rs update_build_cache"), ("check turns writing off", "src/verifier.rs Verifier::new_for_check, src/bin/acorn.rs")],
  ["the log of mutating file-system operations of the simulated disk"],
  note="the simulated disk records every mutating call")

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

NA = [
  ("K01", "kernel"),
]
SEARCH = {
 "P01": "crash points, power loss and histories; model oracle", "P02": "write faults and crash points; invariant on stored files and check oracle",
 "P03": "histories of edits and runs; model oracle", "P04": "schedules, workers, hash seeds and directory orders; differential oracle",
 "P08": "schedules and histories; round-trip oracle", "P12": "interleavings of an editor with a build; model oracle",
 "P16": "crash points and I/O faults; file-content invariant", "P17": "read faults; model oracle",
 "P18": "interleavings of processes and write faults; model oracle", "P20": "histories and read faults; invariant that no call changes the disk",
}
if "MORE_SEARCH" in globals():
    SEARCH.update(MORE_SEARCH)
P.sort(key=lambda x: x["p"]["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["p"]["title"]) <= 80, x["p"]["title"]
        assert x["p"]["statement"].count(". ") <= 2, x["p"]["id"]
        f.write(json.dumps(x["p"]) + "\n")
m = dict(version=1, setup_cmd="bash sim/build.sh", hooks=dict(guard="none", enable="none needed", source_commits=[]),
  checks=[dict(property=x["p"]["id"], quick_cmd=f"bash check.sh {x['p']['id']} quick", thorough_cmd=f"bash check.sh {x['p']['id']} thorough",
    evidence_file=f"evidence/{x['p']['id']}.json", technique=TECH + SEARCH[x["p"]["id"]], level="exploration", level_note="seeded search; " + x["note"])
    for x in P if x["claimed"]],
  not_applicable=[dict(property=x["p"]["id"], reason=x["note"]) for x in P if not x["claimed"]],
  notes="Every seam the simulator needs is at the libc boundary (symbols interposed at link time in the harness), so /repo carries no hooks; its commits on top of the base are fixes only. DESIGN.md describes them.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
