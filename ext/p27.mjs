// P27: what the extension shows. One window with a user in it and a language server that builds.
import { Machine, Process, Rng, axiosModule, hash } from "./world.mjs";
import { Editor, Position, Range } from "./editor.mjs";

export const id = "P27";
export const keep = ["seed", "docs", "timing"];
export const rule =
  "a run is a random session in one editor window: documents opened, edited, saved, closed, shown side by side, lines selected, the assistant opened and closed, over a server that queues, cancels and finishes builds, with random delays of every message and, in some runs, requests that fail, a stalled server or a clock that jumps (then healed by an edit and a save); every message shown is judged, and what is shown once all is quiet; a run counts as non-trivial when a build overlapped something the user did";
export const real = "vscode/extension/src (extension.ts, assistant.ts and what they import), bundled with esbuild from /repo's working tree";
export const stubs = ["vscode API: a model of documents, editors, decorations, progress and webviews", "vscode-languageclient and the language server: a model of the builds, versions and answers of src/server.rs", "fs, timers, Date: simulated"];
export const assumptions = ["the server reacts to a save, and reports the first event of its build, within 1.5 s; the extension stops waiting for a build after 2 s"];

export function gen(seed, thorough) {
  const r = new Rng("P27 " + seed);
  const docs = [];
  for (let i = 0, n = r.range(1, 3); i < n; i++) docs.push({ name: `d${i}.ac`, lines: r.range(2, 12), language: "acorn" });
  if (r.chance(0.3)) docs.push({ name: "notes.md", lines: 4, language: "markdown" });
  if (r.chance(0.2)) docs.push({ name: "Untitled-1", lines: 2, language: "acorn", untitled: true });
  const timing = {
    react: r.logRange(1, 700), // from a save, which queues a build, to its modules being loaded
    first: r.logRange(1, 600), // from there to its first event
    step: r.logRange(1, 900), // between events
    after: r.logRange(1, 200), // from the last event to "finished", and from there to "not building"
    wire: r.logRange(1, 120),
    answer: r.logRange(1, 150),
  };
  const p = { seed, docs, timing, steps: [], faults: [], calm: false };
  const n = r.range(3, thorough ? 26 : 16);
  let t = r.range(0, 4000);
  const rhythm = r.pick([30, 300, 3000]);
  for (let i = 0; i < n; i++) {
    const d = r.below(docs.length);
    const k = r.below(20);
    if (k < 2) p.steps.push({ at: t, do: "open", d, column: r.pick([1, 1, 2]) });
    else if (k < 6) p.steps.push({ at: t, do: "edit", d });
    else if (k < 11) {
      p.steps.push({ at: t, do: "edit", d });
      t += r.logRange(1, rhythm);
      p.steps.push({ at: t, do: "save", d });
    } else if (k < 12) p.steps.push({ at: t, do: "save", d });
    else if (k < 16) p.steps.push({ at: t, do: "select", d, line: r.below(12), kind: r.pick([1, 2, 2, 2, 3]) });
    else if (k < 17) p.steps.push({ at: t, do: r.pick(["toggle", "dispose", "assistant", "assistant"]) });
    else if (k < 18) p.steps.push({ at: t, do: "close", d });
    else p.steps.push({ at: t, do: "switch", d, column: r.pick([1, 1, 2]) });
    // Often right around the moments at which the extension gives up or polls.
    t += r.chance(0.25) ? Math.max(1, 2000 - r.range(0, 200) + r.range(0, 200)) : r.logRange(1, rhythm);
  }
  if (r.chance(0.35))
    for (let i = 0; i < r.range(1, 2); i++)
      p.faults.push(
        r.pick([
          { kind: "reject", method: r.pick(["acorn/progress", "acorn/selection"]), nth: r.logRange(1, 40) },
          { kind: "clock", at: r.logRange(1, 8000), by: r.pick([-3_600_000, -5000, 5000, 3_600_000]) },
          { kind: "stall", at: r.logRange(1, 8000), ms: r.logRange(100, 9000) },
          { kind: "cancel", at: r.logRange(1, 8000) },
        ]),
      );
  return p;
}

// The goals of a line, and which of them hold, in a version of a document.
const goalAt = (plan, doc, version, line) => hash("goal", plan.seed, doc, version, line) % 4 !== 0;
const holds = (plan, doc, version, line) => hash("holds", plan.seed, doc, version, line) % 4 !== 0;

// The server: what src/server.rs tells a client about its builds.
class Server {
  constructor(m, plan) {
    this.m = m;
    this.plan = plan;
    this.t = plan.timing;
    this.generation = 0;
    this.id = null;
    this.ids = 0;
    this.done = this.total = 0;
    this.finished = false;
    this.building = false;
    this.docs = new Map(); // uri -> {version, verified} as last built
    this.live = new Map(); // uri -> {version, lines} as the client has told
    this.saved = new Map(); // uri -> {version, lines} of the project
    this.loaded = true;
    this.stalled = 0;
    this.events = 0;
  }
  later(kind, max, f) {
    const n = this.events++;
    this.m.after(1 + this.m.delay("server", kind, n, max), null, kind, () => {
      if (this.m.now < this.stalled) this.m.at(this.stalled + 1, null, kind, f);
      else f();
    });
  }
  notify(what, uri, d) {
    if (what === "open" || what === "change") this.live.set(uri, d);
    else if (what === "close") {
      this.live.delete(uri);
      if (!this.saved.delete(uri)) return;
      const doc = this.docs.get(uri);
      if (doc) doc.version = null;
      if (this.building) this.build();
    } else if (what === "save") {
      const known = this.saved.get(uri);
      if (!this.live.has(uri) || (known && known.version >= d.version)) return;
      this.saved.set(uri, d);
      this.build();
    }
  }
  // The text of a save is known at once; the modules are loaded and built in the background.
  build() {
    const g = ++this.generation;
    this.m.probe(this.building ? "builds that replaced another" : "builds");
    this.building = true;
    this.loaded = false;
    this.id = null;
    this.done = this.total = 0;
    this.finished = false;
    this.m.note("server queues build", g);
    this.later("load", this.t.react, () => {
      if (g !== this.generation) return;
      this.loaded = true;
      this.reset(g);
    });
  }
  reset(g) {
    const events = [];
    for (const [uri, d] of this.saved)
      for (let line = 0; line < d.lines; line++) if (goalAt(this.plan, uri, d.version, line)) events.push([uri, d.version, line]);
    this.docs = new Map();
    for (const [uri, d] of this.saved) this.docs.set(uri, { version: d.version, verified: [] });
    this.later("first", this.t.first, () => {
      if (g !== this.generation) return;
      let i = 0;
      const step = () => {
        if (g !== this.generation) return;
        if (events.length) {
          this.id ??= ++this.ids;
          this.total = events.length;
          this.done = i;
        }
        if (i < events.length) {
          const [uri, version, line] = events[i++];
          this.done = i;
          const doc = this.docs.get(uri);
          if (doc && doc.version === version && holds(this.plan, uri, version, line)) doc.verified.push([line, line]);
          return this.later("event", Math.min(this.t.step, 6000 / events.length), step);
        }
        this.later("end", this.t.after, () => {
          if (g !== this.generation) return;
          this.finished = true;
          this.m.note("server finishes build", g, "id", this.id);
          this.later("rest", this.t.after, () => {
            if (g === this.generation) this.building = false;
          });
        });
      };
      step();
    });
  }
  progress() {
    const docs = {};
    if (this.id !== null) for (const [uri, d] of this.docs) if (d.version !== null) docs[uri] = { version: d.version, verified: d.verified.map((x) => [...x]) };
    return { buildId: this.id, done: this.done, total: this.total, finished: this.finished, docs };
  }
  select(p) {
    const r = { uri: p.uri, version: p.version, failure: null, loading: false, building: this.building, goalRange: null, goals: [], citation: null, id: p.id };
    const d = this.saved.get(p.uri);
    if (d) {
      if (p.version < d.version) return { ...r, failure: "unexpected: old version" };
      if (p.version > d.version) return { ...r, loading: true };
    }
    if (!this.loaded) return { ...r, loading: true };
    const v = d ? d.version : 1;
    if (!goalAt(this.plan, p.uri, v, p.selectedLine)) return { ...r, failure: "no goal here" };
    return { ...r, goals: [{ goalName: `goal ${p.uri} v${v} line ${p.selectedLine}`, hasCachedProof: true, steps: [] }] };
  }
}

export async function run(plan, code) {
  const m = new Machine(plan);
  m.fs.put("/ext/build/assistant/index.html", Buffer.from("<html><head></head></html>"));
  m.power = () => {};
  const w = new Process(m, "w", {});
  w.env = { SERVER_PATH: "/bin/acorn" };
  const server = new Server(m, plan);
  const count = {};
  const asked = {};
  let openProgress = 0;
  let healing = false;
  // The selection the user made last, as far as it concerns the assistant.
  let wanted = null;
  let overlapped = false;
  const channel = { up: 0, down: 0 };
  const wire = (dir, f) => {
    const n = (count[dir] = (count[dir] ?? 0) + 1);
    const t = Math.max(channel[dir] ?? 0, m.now + m.delay("wire", dir, n, plan.timing.wire));
    channel[dir] = t;
    (channel[dir + "q"] ??= []).push(f);
    const deliver = () => {
      if (m.now < server.stalled) m.at(server.stalled, null, dir, deliver);
      else channel[dir + "q"].shift()();
    };
    m.at(t, null, dir, deliver);
  };
  const editor = new Editor(w, {
    version: "0.2.6",
    storage: "/store",
    extension: "/ext",
    folder: "/w",
    start: () => new Promise((res) => m.after(30, w, "server up", res)),
    request: (client, method, params) => {
      const n = (count[method] = (count[method] ?? 0) + 1);
      asked[method] = m.now;
      const f = !healing && plan.faults.find((x) => x.kind === "reject" && x.method === method && x.nth === n);
      return new Promise((res, rej) => {
        wire("up", () => {
          // Requests are handled beside each other.
          server.later("answer", plan.timing.answer, () => {
            const answer = method === "acorn/progress" ? server.progress() : method === "acorn/selection" ? server.select(params) : null;
            const text = JSON.stringify(answer);
            wire("down", () => {
              if (!w.alive) return;
              if (f) {
                m.fired("request fails");
                rej(new Error("Request cancelled"));
              } else {
                if (method === "acorn/progress") m.note("progress", text.slice(0, 90));
                else m.note("selection", params.id, text.slice(0, 120));
                res(JSON.parse(text));
              }
            });
          });
        });
      });
    },
    onMessage: (panel, msg) => {
      m.note("webview <-", JSON.stringify(msg).slice(0, 130));
      if (msg.type !== "selection") return;
      const a = msg.response;
      if (a.loading || a.failure) return;
      m.probe("answers shown");
      if (panel !== editor.panels[editor.panels.length - 1]) m.fail("old-panel", "an answer went to a panel that is closed");
      const cur = wanted;
      if (!cur) return m.fail("unasked", `an answer for ${a.uri} line ${a.goals[0]?.goalName} though nothing was selected`);
      const shown = a.goals[0]?.goalName ?? "";
      if (a.uri !== cur.uri || !shown.endsWith(` line ${cur.line}`)) m.fail("stale-answer", `the assistant was given "${shown}" while ${cur.uri.split("/").pop()} line ${cur.line} is selected`);
    },
    onMarks: (ed, type, list) => {
      if (type.opt.gutterIconSize === undefined) return;
      const d = ed.document;
      m.note("marks", d.fileName, "v" + d.version, list.map((x) => x.start.line).join(","));
      for (const x of list) {
        const line = x.start.line;
        const uri = d.uri.toString();
        if (!goalAt(plan, uri, d.version, line) || !holds(plan, uri, d.version, line)) m.fail("wrong-mark", `${d.fileName} version ${d.version} is marked as verified on line ${line}, which no build of that version verified`);
      }
    },
    onProgress: (p, what, v) => {
      if (what === "open") {
        openProgress++;
        m.probe("progress bars");
        if (openProgress > 1) m.fail("two-bars", "two progress bars at once");
      } else if (what === "close") openProgress--;
      else if (p.sum > 100.001) m.fail("over-100", `a progress bar at ${p.sum} percent`);
      m.note("bar", what, v ? JSON.stringify(v) : "");
    },
  });
  const ext = w.load(code, editor.modules({ axios: axiosModule(w, () => null) }));

  const documents = plan.docs.map((d) => {
    const lines = Array.from({ length: d.lines }, (_, i) => (hash("text", plan.seed, d.name, i) % 5 === 0 ? "// comment" : `theorem t${i} { true }`));
    const doc = editor.document(d.name, d.untitled ? "untitled" : "file", d.language, lines);
    doc.open = false;
    return doc;
  });
  const isAcorn = (d) => d.languageId === "acorn";
  const state = (d) => ({ version: d.version, lines: d.lines.length });
  // What the language client tells the server, in the order of the events.
  const inform = (what, d) => {
    if (!isAcorn(d)) return;
    const s = state(d);
    const uri = d.uri.toString();
    wire("up", () => {
      if (d.uri.scheme === "file" || what !== "save") server.notify(what, uri, s);
    });
  };
  const panel = () => {
    const p = editor.panels[editor.panels.length - 1];
    return p?.open ? p : null;
  };
  // A trigger of the assistant, as the user means it: the line that is now selected.
  const trigger = (ed, save) => {
    if (!ed || !panel()) return;
    const d = ed.document;
    if (!isAcorn(d) || d.uri.scheme !== "file") return;
    wanted = { uri: d.uri.toString(), line: ed.selection.start.line, version: d.version, doc: d, save, at: m.now, panel: panel(), clean: !d.isDirty };
  };
  const openDoc = (d, column) => {
    if (!d.open) {
      d.open = true;
      d.version = 1;
      editor.documents.push(d);
      editor.tell("open", () => {
        inform("open", d);
        editor.on.open.fire(d);
      });
    }
    editor.show(d, column);
  };
  // The assistant opens by itself with the first Acorn document: what is selected then counts.
  const watchPanels = () => {
    const before = editor.newPanel.bind(editor);
    editor.newPanel = (show) => {
      const p = before(show);
      trigger(editor.active, false);
      return p;
    };
  };
  watchPanels();

  const busy = () => server.building;
  const act = {
    open: (s) => openDoc(documents[s.d], s.column),
    switch: (s) => openDoc(documents[s.d], s.column),
    edit: (s) => {
      const d = documents[s.d];
      if (!d.open) return;
      d.version++;
      d.isDirty = true;
      if (hash("grow", plan.seed, s.at) % 3 === 0) d.lines = [...d.lines, "theorem new { true }"];
      editor.tell("change", () => {
        inform("change", d);
        editor.on.change.fire({ document: d, contentChanges: [] });
      });
    },
    save: (s) => {
      const d = documents[s.d];
      if (!d.open || d.isUntitled) return;
      d.isDirty = false;
      const at = state(d);
      editor.tell("save", () => {
        if (isAcorn(d)) {
          const uri = d.uri.toString();
          wire("up", () => server.notify("save", uri, at));
        }
        trigger(editor.active, true);
        editor.on.save.fire(d);
      });
    },
    select: (s) => {
      const d = documents[s.d];
      const ed = editor.visible.find((x) => x.document === d);
      if (!ed) return;
      if (editor.active !== ed) editor.show(d, ed.viewColumn);
      const line = s.line % d.lines.length;
      const pos = new Position(line, 0);
      editor.tell("selection", () => {
        ed.selection = { start: pos, end: pos, active: pos, anchor: pos };
        if (s.kind !== 3) {
          // The extension asks about the editor that is active by then; for the line that is
          // shown already there is no new question.
          const now = editor.active;
          const same = now && wanted && panel() && wanted.uri === now.document.uri.toString() && wanted.line === now.selection.start.line;
          if (!same) trigger(now, false);
        }
        editor.on.selection.fire({ textEditor: ed, selections: [ed.selection], kind: s.kind });
      });
    },
    toggle: () => editor.tell("toggle", () => editor.commands.get("acornprover.toggleAssistant")?.()),
    assistant: () =>
      editor.tell("assistant", () => {
        const f = editor.commands.get("acornprover.showAssistant");
        if (!f || !editor.active) return;
        try {
          f();
        } catch (e) {
          w.uncaught(e);
        }
        if (!panel()) m.fail("no-panel", "the command that shows the assistant left it closed");
      }),
    dispose: () => editor.tell("dispose", () => panel()?.dispose()),
    close: (s) => {
      const d = documents[s.d];
      if (!d.open) return;
      d.open = false;
      d.isDirty = false;
      if (wanted?.doc === d) wanted = { ...wanted, clean: false, closed: true };
      editor.documents = editor.documents.filter((x) => x !== d);
      for (const ed of editor.visible) if (ed.document === d) ed.gone = true;
      editor.visible = editor.visible.filter((x) => x.document !== d);
      if (editor.active?.document === d) editor.active = editor.visible[0];
      const now = [...editor.visible];
      const active = editor.active;
      editor.tell("close", () => {
        inform("close", d);
        editor.on.close.fire(d);
      });
      editor.tell("visible editors", () => editor.on.visibleEditors.fire(now));
      editor.tell("active editor", () => editor.on.activeEditor.fire(active));
    },
  };
  m.at(m.start, null, "activate", () => {
    openDoc(documents[0], 1);
    Promise.resolve(ext.activate(editor.context())).then(undefined, (e) => m.fail("activation", `activation failed: ${e.message}`));
  });
  for (const s of plan.steps)
    m.at(m.start + s.at + 100, null, s.do, () => {
      if (busy()) overlapped = true;
      m.note("user:", s.do, s.d ?? "", s.line ?? "");
      act[s.do](s);
    });
  for (const f of plan.faults) {
    if (f.kind === "clock")
      m.at(m.start + f.at, null, "clock", () => {
        m.fired("clock jump");
        m.skew += f.by;
      });
    else if (f.kind === "stall")
      m.at(m.start + f.at, null, "stall", () => {
        m.fired("server stall");
        server.stalled = m.now + f.ms;
      });
    else if (f.kind === "cancel")
      m.at(m.start + f.at, null, "cancel", () => {
        const p = editor.progress.find((x) => x.open);
        if (!p) return;
        m.fired("progress bar cancelled by the user");
        p.cancel();
      });
  }
  const last = Math.max(0, ...plan.steps.map((s) => s.at));
  const quiet = 60_000;
  const limit = last + quiet;
  await m.run(limit);
  let end = limit;
  if (plan.faults.some((f) => f.kind !== "cancel") && !m.violation) {
    // The faults are over: an edit and a save have to put everything right.
    const t = m.now - m.start;
    healing = true;
    let base = Math.max(limit, t);
    documents.forEach((d, i) => {
      if (!d.open || !isAcorn(d) || d.isUntitled) return;
      m.at(m.start + base, null, "heal", () => act.edit({ d: i, at: base }));
      m.at(m.start + base + 50, null, "heal", () => act.save({ d: i }));
      base += 8000;
    });
    end = base + quiet;
    await m.run(end);
  }
  if (!m.violation) m.now = Math.max(m.now, m.start + end);
  if (!m.violation) settled(m, plan, editor, server, { asked: asked, openProgress, wanted, panel: panel() });
  for (const e of w.errors) m.probe("errors nobody handled: " + String(e?.message).slice(0, 60));
  return { machine: m, nontrivial: overlapped };
}

// Once all is quiet.
function settled(m, plan, editor, server, s) {
  if (!server.finished && server.generation > 0) throw new Error("the server of the model did not finish");
  if (s.openProgress) return m.fail("bar-stays", "the progress bar is still open though the build finished");
  const recent = (method) => m.now - (s.asked[method] ?? 0) < 20_000;
  if (recent("acorn/progress")) return m.fail("keeps-asking", "the extension still asks for the progress of the build at the end of a minute of quiet");
  // About a text that is not saved it asks until it is.
  if (recent("acorn/selection") && !unsaved(editor, server) && !s.wanted?.closed) return m.fail("keeps-polling", "the extension still asks about the selection at the end of a minute of quiet");
  const truth = server.progress();
  for (const ed of editor.visible) {
    const d = ed.document;
    if (d.languageId !== "acorn") continue;
    const now = truth.docs[d.uri.toString()];
    if (!now || now.version !== d.version) continue;
    const type = [...ed.marks.values()].find((x) => x.type.opt.gutterIconSize !== undefined || x.type.opt.light || x.type.opt.gutterIconPath);
    const shown = (type?.list ?? []).map((x) => x.start.line).sort((a, b) => a - b);
    const want = now.verified.map((x) => x[0]).sort((a, b) => a - b);
    m.probe("documents whose marks were compared");
    if (JSON.stringify(shown) !== JSON.stringify(want)) return m.fail("marks", `${d.fileName} version ${d.version} shows marks on lines [${shown}], but the build that finished verified lines [${want}]`);
  }
  const p = s.panel;
  const q = s.wanted;
  if (p && q && q.panel === p && q.clean && editor.active?.document === q.doc && q.doc.open) {
    const saved = server.saved.get(q.uri);
    const version = saved ? saved.version : 1;
    if (q.version !== version || q.doc.version !== version) return;
    const a = server.select({ uri: q.uri, selectedLine: q.line, version, id: 0 });
    if (a.failure || a.loading) return;
    const shown = p.messages.filter((x) => x.type === "selection").pop()?.response;
    m.probe("assistants compared");
    const is = shown ? `"${shown.goals[0]?.goalName}"${shown.building ? " (still building)" : ""}` : "nothing";
    if (!shown || shown.building || shown.goals[0]?.goalName !== a.goals[0].goalName) m.fail("assistant", `the assistant shows ${is} for ${q.uri.split("/").pop()} version ${version} line ${q.line}, whose answer is "${a.goals[0].goalName}"`);
  }
}

// The extension asks for as long as the selection is in a text that is not saved.
function unsaved(editor, server) {
  return editor.documents.some((d) => d.languageId === "acorn" && (server.saved.get(d.uri.toString())?.version ?? 1) !== d.version);
}
