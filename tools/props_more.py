# More properties; executed by props.py.
MORE_SEARCH = {}

prop("P09", "The editor ends up showing the truth about the saved text",
  "Whatever sequence of opening, editing, saving, closing, searching and cancelling an editor sends, once everything is saved and the server reports that it finished, the diagnostics last published tell the truth: every claim that does not hold has a complaint, every document that does not load has an error, and nothing is left where all holds. No claim that does not hold is shown as verified. A command-line build afterwards is not misled by what the editor's builds stored.",
  ["schedules", "histories", "inputs"],
  "every project, every history of editor messages, every delay between them and every interleaving of the server's tasks, builds and searches",
  "Each build, reload and save runs as a task of its own and overtakes others; the tests drive the server with one message at a time and wait for each build.",
  ["src/server.rs", "src/project.rs", "src/project_manager.rs", "src/builder.rs"],
  [("saves start a build of what changed", "src/server.rs did_save, start_build"), ("a change cancels the build of the old text", "src/project_manager.rs mutate_if_epoch"), ("build events become diagnostics", "src/server.rs run_build, BuildInfo")],
  ["textDocument/publishDiagnostics notifications", "acorn/progress answers", "a Verifier::run afterwards"],
  state=[("open documents and their saved versions", "what the editor holds", "src/server.rs AcornLanguageServer.documents"), ("project and its epoch", "the text builds use", "src/project_manager.rs")],
  note="the whole server runs under a simulated tower-lsp client; the editor's delays are simulated time")
MORE_SEARCH["P09"] = "schedules, delays and histories of editor messages; model oracle"

prop("P10", "What the editor shows belongs to the text it was computed from",
  "Every publication of diagnostics names a version of the document that was saved, never an older one than before, and its complaints lie on claims of that version. At every moment the progress shown lies between zero and its total, and what it lists as verified was true of a text the document had.",
  ["schedules", "histories", "inputs"],
  "every project, every history of editor messages, every interleaving of builds, reloads and requests",
  "Mixing up the results of two builds needs the second to start between two particular events of the first.",
  ["src/server.rs", "src/project_manager.rs", "src/builder.rs"],
  [("build events carry the build's id and version", "src/server.rs BuildInfo.handle_event"), ("a document's builds replace its diagnostics", "src/server.rs")],
  ["textDocument/publishDiagnostics notifications", "acorn/progress answers"],
  note="checked as the run proceeds on every notification and answer")
MORE_SEARCH["P10"] = "schedules, delays and histories of editor messages; invariant on every publication"

prop("P11", "The language server answers every request and finishes every build",
  "Every request gets one answer, whatever the position or document it names and whatever other requests, edits, builds and cancellations are under way. No request makes the server panic or stop, and once the editor is quiet the server reports within bounded time that it has finished.",
  ["schedules", "histories", "inputs"],
  "every history of editor messages including withdrawn ones and ones about unknown documents or positions, every interleaving of the server's tasks and threads",
  "A deadlock between two requests, or an answer that waits for a build that was cancelled, shows only under particular schedules.",
  ["src/server.rs", "src/project_manager.rs"],
  [("searches run in tasks and can be replaced", "src/server.rs search handling"), ("documents are shared between tasks", "src/server.rs documents map"), ("read and write locks with epochs", "src/project_manager.rs")],
  ["answers and notifications of the server", "threads of the simulated process that never finish"],
  note="liveness is bounded: a run fails when no thread can proceed, or when the server is not done within a simulated time limit after the last message")
MORE_SEARCH["P11"] = "schedules, delays and histories of editor messages; bounded liveness"

prop("P05", "A cancelled build stops soon and claims nothing it did not establish",
  "A build that is cancelled, as the editor does on every change, ends within bounded time of the cancellation, whatever its workers are doing. It neither reports success nor reports a claim as verified that it did not verify, and what it stores, if anything, never makes a later build or check tell less than the truth.",
  ["schedules", "inputs"],
  "every project, every number of workers, every moment of the cancellation",
  "Tests cancel before a build or not at all; the guarantee is about each point in between, in several threads at once.",
  ["src/builder.rs", "src/prover/mod.rs", "src/processor.rs", "src/project.rs"],
  [("builds share a cancellation token with their searches", "src/builder.rs set_cancellation_token, src/prover"), ("an interrupted build has no cache to store", "src/builder.rs into_build_cache")],
  ["status and events of the Builder", "files stored from it", "Verifier::run afterwards"],
  note="the moment of cancellation is a number of scheduling decisions, so it falls inside every part of a build")
MORE_SEARCH["P05"] = "schedules and moments of cancellation; model oracle, bounded liveness"

prop("P06", "Time limits and clock jumps cost proofs, never the truth",
  "Whatever time limit a build is given, however slow the machine, however often it stalls and wherever its clocks jump, no claim that does not hold is reported as verified and every claim is either verified or complained about. The build ends, and one with ample time afterwards tells the whole truth.",
  ["schedules", "fault_sequences", "configurations"],
  "every project and history of builds, every time limit, every sequence of clock jumps and stalls",
  "Tests run with the real clock and default limits; a search that runs out of time at each particular point cannot be arranged with it.",
  ["src/prover/saturation.rs", "src/prover/mod.rs", "src/builder.rs", "src/verifier.rs"],
  [("searches stop at a limit of time or steps", "src/prover"), ("outcomes become warnings", "src/builder.rs log_search_outcome")],
  ["what Verifier::run returns", "files under the certs directories"],
  note="clock_gettime is simulated; it jumps forwards (monotonic) and both ways (realtime)")
MORE_SEARCH["P06"] = "time limits, clock jumps and stalls; model oracle"

prop("P07", "Damaged, stale or made-up stored proofs never prove a false claim",
  "Whatever the stored proof files contain - truncated or corrupted data, proofs of other claims, from other modules or earlier versions of the sources, or proofs made up to deceive - and however a manifest was damaged, no check and no build reports a claim that does not hold as verified. The tool neither crashes nor hangs on them, and a build that does not trust the manifests restores stored proofs that a check accepts.",
  ["inputs", "fault_sequences", "histories"],
  "every content of the stored files, every project and history",
  "Tests hold a handful of malformed certificates; the proof checker is the last line of defence against every content whatever.",
  ["src/certificate.rs", "src/kernel/certificate_step.rs", "src/kernel/checker.rs", "src/claim_codec.rs", "src/build_cache.rs", "src/manifest.rs"],
  [("certificates are parsed and each step is checked", "src/kernel/checker.rs, src/kernel/certificate_step.rs"), ("certificates are looked up by the name of the goal", "src/certificate.rs CertificateWorklist")],
  ["what Verifier::run returns after the files were damaged"],
  note="stored files are the seam: corruption of the medium and forgeries of every step kind; the kernel itself is real code")
MORE_SEARCH["P07"] = "corruptions and forgeries of stored files over histories; model oracle"

prop("P14", "A machine that refuses resources cannot make the tool hang or lie",
  "When threads cannot be created, standard output is closed or fails, files cannot be read or there is no room to write, verify and check still end - with an error, a panic or a result. No claim that does not hold is reported as verified, and undisturbed runs afterwards tell the truth.",
  ["fault_sequences", "schedules", "inputs"],
  "every project, every number of workers, every combination of refused system calls",
  "No test makes a system call fail; what the other threads of a build do when one of them gives up shows only then.",
  ["src/builder.rs", "src/project.rs", "src/verifier.rs", "src/build_cache.rs"],
  [("workers wait on a shared queue until it is closed", "src/builder.rs process_module_work_pipeline"), ("loader threads hand modules to the main thread", "src/project.rs ParallelProjectLoader")],
  ["that Verifier::run returns or panics", "what it returns", "what later runs return"],
  note="faults at pthread_create, write to standard output, read, and every call that writes")
MORE_SEARCH["P14"] = "refused system calls and schedules; bounded liveness and model oracle"

prop("P13", "The packaged library handed out is complete, after any interruption",
  "A directory that packaged_acornlib::get_or_extract returns holds every packaged file byte for byte, whether calls came one after another or from several processes at once, and whatever kills, power losses and write errors earlier calls met. Others starting up do not take it away or change it. An undisturbed call succeeds.",
  ["crash_points", "fault_sequences", "schedules"],
  "every number of processes, every interleaving of their system calls, every crash point, every set of bytes a power loss leaves behind",
  "The one test extracts once into an empty directory; what a later start makes of a half-removed or half-written entry depends on where the earlier one was interrupted.",
  ["src/packaged_acornlib.rs", "build.rs"],
  [("the entry is renamed into place and vouched for by its metadata file", "src/packaged_acornlib.rs install_temp_cache, cache_is_valid"), ("the archive and its hash", "build.rs write_archive")],
  ["the directory returned, compared with the library that was packaged"],
  note="1-4 rounds of 1-3 processes; advisory locks, directory renames and removal are modelled; files and names not forced to disk may be lost, emptied, truncated or zeroed by a power loss")
MORE_SEARCH["P13"] = "crash points and schedules of installing processes; byte comparison"

prop("P15", "Exports, documentation and traces reported as written are complete",
  "When the export, the documentation generator or an evaluation that records its searches succeeds, its output is what it would have been without any fault: every file and every row, once each, intact, whatever write errors, full disks or short writes it met, and whatever older output was there. An evaluation's trace has the same rows for every number of workers. After a failed or killed attempt the next undisturbed one succeeds with complete output.",
  ["fault_sequences", "schedules", "inputs"],
  "every project, every sequence of failing writes and reads, every number of workers writing one trace",
  "No test makes a write fail, and buffered writers lose exactly the errors that come last; the trace is shared by worker threads whose interleaving tests do not choose.",
  ["src/exporter.rs", "src/doc_generator.rs", "src/prover/trace.rs", "src/builder.rs"],
  [("one file per module and an index", "src/exporter.rs export_project, write_jsonl"), ("one page per type", "src/doc_generator.rs generate"), ("one locked, compressed, sharded stream", "src/prover/trace.rs SearchTraceWriter")],
  ["whether the call returned success, and the bytes of its output compared with those of an undisturbed run with one worker"],
  note="1-4 generated modules plus up to 3 with documented structures and typeclasses; faults at every call that writes; faults at reads for exports and documentation")
MORE_SEARCH["P15"] = "write and read faults and schedules; output compared with an undisturbed run's"

prop("P21", "Simplifying removes unneeded claims, and nothing else",
  "When simplify succeeds, the file is the old one without the claims it reports removed, whole lines at a time, no other source has changed, and the project verifies. Killed, out of power or refused by the disk at any point, it leaves the file in one of the states it reports going through. A dry run changes nothing and reports what the real one does; an edit the user makes meanwhile is neither written over nor damaged.",
  ["crash_points", "fault_sequences", "schedules", "inputs"],
  "every module, every activation limit, every crash point and failing write, every moment at which the user's editor replaces the file",
  "Tests simplify a fixed file that nothing else touches; what a crash or an editor meets between search, verification and replacement depends on the moment.",
  ["src/simplifier.rs", "src/atomic_file.rs", "src/project.rs"],
  [("search, verify the edited text, replace the file, again", "src/simplifier.rs simplify_file"), ("line numbers of claims", "src/simplifier.rs collect_candidates, remove_line_range")],
  ["the bytes of the file, the report, whether the project verifies afterwards"],
  note="one module beside 0-2 others; claims in by, if, match and forall blocks, some of several lines; one fault or one edit per run")
MORE_SEARCH["P21"] = "crash points, write faults and edits at every moment; comparison with the undisturbed run's states"

prop("P19", "The editor stays truthful beside crashes, full disks and other builds",
  "A language server whose stored proofs cannot be written still shows the truth once it is at rest, and so does one started after the machine was killed or lost power in an earlier session, or beside command-line builds of the same project. Whatever all of them left on disk, later verifies tell the truth and a check agrees with them.",
  ["crash_points", "fault_sequences", "schedules", "histories"],
  "every session, every crash point and failing write in it, every moment at which a command-line build starts, every later session on any of the states the sources had",
  "No test lets a server's save fail or runs it beside another process; what its memory and the disk then disagree on shows only in later builds.",
  ["src/server.rs", "src/server", "src/project.rs", "src/build_cache.rs"],
  [("the cache in the server's memory, taken for what is on disk", "src/project.rs update_build_cache"), ("manifests merged with older ones", "src/build_cache.rs save_merging_old")],
  ["published diagnostics, progress, and results of later verifies and checks"],
  note="two sessions of up to about 25 actions; 1-2 write faults or one crash or 1-2 command-line processes per run; beside other processes P18's narrowing applies to stored proofs")
MORE_SEARCH["P19"] = "sessions, crash points, write faults and schedules of server and command line; model oracle"

prop("P22", "A build that does not succeed throws no stored proof away",
  "After a build that ended with a warning or an error, or failed to save, every proof that was stored before is still stored - of the modules it looked at and of all others. So taking back an edit brings back a project that verifies without searching for any proof, unless a build of the edited sources succeeded in between.",
  ["histories", "fault_sequences", "schedules"],
  "every project, every history of edits and builds that do not succeed, every number of workers",
  "Tests look at what one build of one text stores; what a mistake costs shows only when it has been built and taken back, and depends on which facts the proof found meanwhile used.",
  ["src/builder.rs", "src/certificate.rs", "src/build_cache.rs"],
  [("stored proofs are cut to what was used only when the build is good", "src/builder.rs trim_unused_certificates"), ("the rest of a worklist is kept", "src/certificate.rs CertificateWorklist"), ("caches of several builds are merged", "src/build_cache.rs save_merging_old")],
  ["the stored proofs before and after each build; searches of a build of the old sources"],
  note="searches forced by the user replace what was stored and are left out")
MORE_SEARCH["P22"] = "histories of edits, failing builds and write faults; comparison of stored proofs"

prop("P23", "A strict check passes only without axioms and with current records",
  "`acorn check --strict` succeeds only if the plain check does, no axiom statement is in any module it checks, at whatever depth and however many workers check it, every draft elaborates, and the dependencies recorded for each package are those a verify would record now. When all of that holds and nothing fails, it does succeed; when an axiom is in the way, the error names the module. It changes no file.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "every project, every history of verifies and edits, every number of workers, every failing read",
  "Tests have one axiom at the top level of one module and one outdated record; whether every worker, block, package and earlier history is covered is not sampled.",
  ["src/builder.rs", "src/elaborator/environment/mod.rs", "src/build_cache.rs", "src/project.rs"],
  [("ranges of axioms are collected while lowering", "src/elaborator/environment/mod.rs lower_nodes_pass"), ("workers inherit strictness", "src/builder.rs ModuleWorkerConfig"), ("records compared with the manifests", "src/build_cache.rs dependency_manifests_needing_update")],
  ["what Verifier::run returns; manifests an undisturbed verify of a copy writes"],
  note="axioms are seven forms of statement at the top level and in forall, if, else and by blocks; `type T: axiom` and constants without value are not in its scope")
prop("P24", "The exit status of a command line tells the truth about the project",
  "`acorn`, `acorn verify` and `acorn check`, from whatever directory, in whatever order of options and for whatever target (module, file, line, range, standard input, a proof given with --cert), exit with 0 only if every claim asked about holds; undisturbed, they exit with 0 if all do, and otherwise print a complaint at each false claim. Commands that only show or check something, and command lines that make no sense, change nothing in the project; the latter exit with another status than 0, never by a crash. `acorn list` lists exactly the modules there are.",
  ["inputs", "histories", "schedules", "fault_sequences", "crash_points"],
  "every project, history, command line, schedule and fault",
  "Tests call a few argument helpers and the verifier as a library; none runs the program, so what its flags, exit statuses and output amount to is not sampled at all.",
  ["src/bin/acorn.rs", "src/verifier.rs", "src/builder.rs", "src/project.rs"],
  [("one arm per command sets the builder's flags", "src/bin/acorn.rs main"), ("exit statuses", "src/bin/acorn.rs std::process::exit"), ("targets by name, path and standard input", "src/verifier.rs Verifier::new_inner")],
  ["exit status, printed text, files"],
  note="Serve is driven through its language server in P09-P11, P14 and P19; simplify in P21; the neural network runtime is a stub with weights of its own")
MORE_SEARCH["P24"] = "histories of command lines, schedules, faults and kills; comparison with the model of truth and with a second build by other means"
MORE_SEARCH["P23"] = "histories, schedules and read faults; comparison with plain check and fresh verify"

prop("P25", "The server an editor starts speaks only LSP, refuses in words, and ends",
  "`acorn serve`, over its standard input and output, writes nothing but whole LSP messages to the latter whatever editors send, answers every request, shows the truth at rest, and ends by itself within bounded time once its input has ended, also in the middle of a build and while messages to the editor are under way. For a project of another format, or with no library to be found, it answers initialize with an error that says why, keeps answering, and changes no file. With the packaged library it verifies without writing to it.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "every project, editor session, moment and manner of its end, schedule and stall of the reader",
  "Tests call the server's handlers with a fake client; nothing runs the process, its pipes, its refusals or its end.",
  ["src/bin/acorn.rs", "src/server.rs", "src/server/project_manager.rs", "src/packaged_acornlib.rs"],
  [("service over standard input and output", "src/server.rs run_server"), ("where the library is looked for, and whether it is written to", "src/server.rs find_acorn_library"), ("a server that only explains itself", "src/server.rs from_initialization_error"), ("where diagnostics of the program go", "src/bin/acorn.rs main")],
  ["bytes on standard output, exit status, files"],
  note="The time in which the process must end counts from the closing of its standard input: on the exit notification alone tower-lsp does not stop reading, and an editor closes the pipe; an editor that dies may make the process abort (it cannot print), which counts as an end")
MORE_SEARCH["P25"] = "editor sessions, schedules, stalls and ends; comparison with the model of truth and with what was packaged"

prop("P26", "The editor starts only a whole, executable server, whatever stopped a download",
  "Whatever windows start together, whatever downloads fail or stop half-way, and whatever crash or power loss hits them, no window ever starts a server binary that is incomplete, of another version, not executable or still being written. A window that meets no fault itself gets its server running, also beside others that download, fail or die. After any history an undisturbed window starts the server, without another download once there is a binary, and a download leaves no old binaries behind.",
  ["fault_sequences", "crash_points", "schedules", "histories"],
  "every number of windows and versions, every fault of disk and network, every moment of a kill or power loss, every interleaving of the windows' file operations",
  "No test runs the extension; two downloads into one directory, or a power loss between writing and renaming, cannot be arranged by hand.",
  ["vscode/extension/src/extension.ts"],
  [("a download goes to a temporary file that is renamed", "vscode/extension/src/extension.ts downloadFile"), ("a binary that exists is taken as it is", "vscode/extension/src/extension.ts getServerPath"), ("old binaries are removed after a download", "vscode/extension/src/extension.ts getServerPath")],
  ["the file a language client is told to run, at the moment it starts it", "the storage directory", "whether activation succeeds"],
  state=[("the storage directory", "binaries and temporary files shared by all windows", "vscode/extension/src/extension.ts getServerPath")],
  note="the extension's own code runs, bundled from the working tree, in simulated windows over a simulated disk and network; windows of different versions at the same time may remove each other's binaries, as designed, and are exempt from the second sentence")
MORE_SEARCH["P26"] = "windows, interleavings of file operations, network and disk faults, kills and power loss; judged at every start of the server"

prop("P28", "Asked about a saved claim, the editor server answers about that very claim",
  "While a document is saved and loads, a selection request for its version on a line of a claim is answered with the goals of that claim, or with `loading` until the server has taken the save in - never with a failure, also while other documents are saved, built and closed. For a version that was not saved it never answers with goals of another text. At rest every verified claim is shown with a stored proof, and no false claim has one.",
  ["schedules", "histories"],
  "every project, editor session, and moment of a request between save, reload, build and the end of the build",
  "Tests ask once, after a build of one module has ended; what a request meets between a save and the reload, or after the save of another document, is a matter of moments and of dependencies.",
  ["src/server.rs", "src/server/live_document.rs", "src/project.rs"],
  [("answers by version", "src/server.rs handle_selection_request"), ("a save drops the modules, a background task reloads what is needed", "src/project.rs update_file_for_ide"), ("a goal's stored proof is looked up and checked", "src/project.rs find_cert")],
  ["answers to acorn/selection, asked for as the extension does: again while loading or building, no more after a failure"],
  note="documents saved since they were opened; judged strictly while no saved text fails to load")
MORE_SEARCH["P28"] = "editor sessions and schedules with requests at every moment; comparison with the model's claims"

prop("P27", "What the extension shows is what the server last said about that text",
  "Once a session is quiet, the gutter marks of every visible document are exactly the verified lines of the last build of its version, the assistant shows the answer for the selected line, the progress bar is gone and the server is no longer asked. At no moment is a line marked that no build of the shown version verified, or an answer shown for a selection other than the current one. Failed requests, stalls and clock jumps spoil this only until the next save.",
  ["schedules", "histories", "fault_sequences"],
  "every session of a user, every delay and order of messages and events, every duration of builds and moment of a save relative to polling",
  "No test runs the extension; a save that falls into the last round of polling is a matter of milliseconds.",
  ["vscode/extension/src/extension.ts", "vscode/extension/src/assistant.ts"],
  [("polling for the progress of builds", "vscode/extension/src/extension.ts ProgressTracker"), ("selection requests repeat until the answer is final", "vscode/extension/src/assistant.ts sendSelectionRequest"), ("marks are drawn for the version they belong to", "vscode/extension/src/extension.ts updateDecorations")],
  ["decorations, webview messages and progress notifications of the editor", "requests to the server"],
  note="the server is a model of src/server.rs that reacts to a save within 1.5 s; the real server is under test in P09 to P11 and P25")
MORE_SEARCH["P27"] = "user sessions, delays and orders of events, failed requests, stalls and clock jumps; judged at every message and at rest"

NA = "a pure function of its input: no schedule, clock, I/O, fault or second party takes part, so there is nothing for a simulator to vary; differential testing or proof would be the technique"
prop("N01", "Proof search finds proofs, and every inference rule is valid for all terms",
  "For every set of facts and every goal, each rule of the prover (resolution, rewriting, specialisation, injectivity, extensionality) derives only consequences, and the certificate made of a finished search is accepted by the checker. What a certificate on disk can make the checker accept is P07.",
  ["inputs"], "every term, every clause set", "Tests sample a few hundred goals.",
  ["src/prover", "src/kernel", "src/processor.rs"], [("passive and active clause sets", "src/prover")], ["clauses derived"], claimed=False, note=NA)
prop("N02", "Parsing, elaboration and printing agree with each other",
  "Every accepted source text elaborates to the statement it says, and what the code generator prints for a term parses and elaborates back to that term in the same environment.",
  ["inputs"], "every source text, every term", "Tests hold fixed texts.",
  ["src/syntax", "src/elaborator", "src/code_generator.rs", "src/claim_codec.rs"], [("names in scope", "src/elaborator/bindings.rs")], ["terms and printed code"], claimed=False, note=NA)
prop("N03", "Type inference, unification and normalisation preserve meaning",
  "Unification returns a most general unifier or none, inferred types are the ones the rules give, and clausal normal forms are equisatisfiable with the formulas they were made from.",
  ["inputs"], "every type, term and formula", "Tests hold fixed formulas.",
  ["src/kernel", "src/elaborator"], [("unifier scopes", "src/kernel/unifier.rs")], ["substitutions, clauses"], claimed=False, note=NA)
prop("N04", "Term indices return what a linear scan would",
  "The pattern tree, fingerprint and literal indices find exactly the stored terms that match, generalise or unify with a query, after any sequence of insertions.",
  ["inputs"], "every sequence of insertions and queries", "Tests hold fixed sets of terms.",
  ["src/kernel"], [("trie of patterns", "src/kernel/pdt.rs")], ["matches returned"], claimed=False, note=NA)
prop("N05", "Splitting goals for training and evaluation loses and repeats none",
  "Every goal of a project belongs to exactly one part of a split, and a goal keeps its part when others are added.",
  ["inputs"], "every goal, every number of parts", "Tests hold a few names.",
  ["src/goal_partition.rs"], [("hash of the goal's name", "src/goal_partition.rs")], ["the part a goal is in"], claimed=False, note=NA)
