// The editor as an extension sees it: the `vscode` module, the client of the language server, and a
// user who opens, edits, saves, selects and looks around.
import { Uri, lenient } from "./world.mjs";

export class Position {
  constructor(line, character) {
    this.line = line;
    this.character = character;
  }
}

export class Range {
  constructor(a, b, c, d) {
    if (typeof a === "number") {
      this.start = new Position(a, b);
      this.end = new Position(c, d);
    } else {
      this.start = a;
      this.end = b;
    }
  }
}

class Emitter {
  constructor(w) {
    this.w = w;
    this.fs = [];
    this.event = (f, self, list) => {
      w.check();
      const g = self ? f.bind(self) : f;
      this.fs.push(g);
      const d = { dispose: () => (this.fs = this.fs.filter((x) => x !== g)) };
      if (Array.isArray(list)) list.push(d);
      return d;
    };
  }
  fire(x) {
    for (const f of [...this.fs]) {
      if (!this.w.alive) return;
      try {
        const r = f(x);
        if (r && typeof r.then === "function") r.then(undefined, (e) => this.w.uncaught(e));
      } catch (e) {
        this.w.uncaught(e);
      }
    }
  }
}

export class Editor {
  // `w` is the process of the extension; `o` tells what it finds.
  constructor(w, o) {
    this.w = w;
    this.m = w.m;
    this.o = o;
    this.commands = new Map();
    this.messages = [];
    this.progress = []; // notifications of progress, open or closed
    this.documents = [];
    this.visible = [];
    this.active = undefined;
    this.panels = [];
    this.clients = [];
    this.types = 0;
    const names = ["open", "close", "change", "save", "activeEditor", "visibleEditors", "selection"];
    this.on = Object.fromEntries(names.map((x) => [x, new Emitter(w)]));
    this.last = 0;
  }
  // Things the user did reach the extension host one after the other.
  tell(what, f) {
    const n = (this.told = (this.told ?? 0) + 1);
    const t = Math.max(this.last, this.m.now + this.m.delay(this.w.id, "event", n, this.o.eventDelay ?? 5));
    this.last = t;
    // Order among equal times is kept by telling one at a time.
    this.queue ??= [];
    this.queue.push(f);
    this.m.at(t, this.w, what, () => this.queue.shift()());
  }
  context() {
    const o = this.o;
    return {
      subscriptions: [],
      extension: { id: "acorn.acornprover", packageJSON: { version: o.version } },
      globalStorageUri: Uri.file(o.storage),
      globalStoragePath: o.storage,
      extensionUri: Uri.file(o.extension),
      extensionPath: o.extension,
      asAbsolutePath: (p) => o.extension + "/" + p,
      globalState: { get: (k, d) => d, update: async () => {}, keys: () => [] },
      workspaceState: { get: (k, d) => d, update: async () => {}, keys: () => [] },
      extensionMode: 1,
    };
  }
  module() {
    const e = this;
    const w = this.w;
    const none = () => new Emitter(w).event;
    const window = lenient({
      createOutputChannel: (name) => ({ name, lines: [], appendLine: (s) => (w.check(), e.m.note(w.id, "log:", s.slice(0, 120))), append() {}, show() {}, hide() {}, clear() {}, dispose() {} }),
      createTextEditorDecorationType: (opt) => (w.check(), { key: "deco" + e.types++, opt, dispose() {} }),
      onDidChangeVisibleTextEditors: e.on.visibleEditors.event,
      onDidChangeActiveTextEditor: e.on.activeEditor.event,
      onDidChangeTextEditorSelection: e.on.selection.event,
      get visibleTextEditors() {
        return [...e.visible];
      },
      get activeTextEditor() {
        return e.active;
      },
      withProgress: (opt, task) => {
        w.check();
        const p = { opt, open: true, sum: 0, reports: [], at: e.m.now };
        e.progress.push(p);
        e.o.onProgress?.(p, "open");
        const cancel = new Emitter(w);
        const token = { isCancellationRequested: false, onCancellationRequested: cancel.event };
        p.cancel = () => {
          token.isCancellationRequested = true;
          p.cancelled = true;
          cancel.fire();
        };
        const report = {
          report: (v) => {
            p.reports.push(v);
            if (typeof v?.increment === "number") p.sum += v.increment;
            e.o.onProgress?.(p, "report", v);
          },
        };
        const end = () => {
          p.open = false;
          e.o.onProgress?.(p, "close");
        };
        let r;
        try {
          r = Promise.resolve(task(report, token));
        } catch (x) {
          r = Promise.reject(x);
        }
        return r.then(
          (v) => (end(), v),
          (x) => {
            end();
            throw x;
          },
        );
      },
      showErrorMessage: (msg) => (w.check(), e.messages.push(msg), e.m.note(w.id, "error message:", msg), Promise.resolve(undefined)),
      showInformationMessage: () => Promise.resolve(undefined),
      showWarningMessage: () => Promise.resolve(undefined),
      createWebviewPanel: (type, title, show, opt) => (w.check(), e.newPanel(show)),
      showTextDocument: async (d, c) => e.show(d, typeof c === "number" ? c : c?.viewColumn),
    });
    const workspace = lenient({
      workspaceFolders: e.o.folder ? [{ uri: Uri.file(e.o.folder), name: "w", index: 0 }] : undefined,
      get textDocuments() {
        return [...e.documents];
      },
      createFileSystemWatcher: () => ({ dispose() {}, onDidChange: none(), onDidCreate: none(), onDidDelete: none() }),
      onDidOpenTextDocument: e.on.open.event,
      onDidCloseTextDocument: e.on.close.event,
      onDidChangeTextDocument: e.on.change.event,
      onDidSaveTextDocument: e.on.save.event,
      openTextDocument: async (u) => e.documents.find((d) => d.uri.toString() === u.toString()),
      getConfiguration: () => lenient({ get: (k, d) => d, has: () => false }),
    });
    const commands = lenient({
      registerCommand: (id, f) => (w.check(), e.commands.set(id, f), { dispose: () => e.commands.delete(id) }),
      registerTextEditorCommand: (id, f) => (w.check(), e.commands.set(id, () => (e.active ? f(e.active) : undefined)), { dispose: () => e.commands.delete(id) }),
      executeCommand: async (id, ...a) => {
        w.check();
        e.m.note(w.id, "command", id);
        if (e.commands.has(id)) return e.commands.get(id)(...a);
        return e.o.onCommand?.(id, ...a);
      },
    });
    class EventEmitter extends Emitter {
      constructor() {
        super(w);
      }
      dispose() {}
    }
    class Disposable {
      constructor(f) {
        this.dispose = f ?? (() => {});
      }
      static from(...ds) {
        return new Disposable(() => ds.forEach((d) => d.dispose()));
      }
    }
    return {
      window,
      workspace,
      commands,
      extensions: { getExtension: (id) => e.context().extension },
      env: lenient({ appName: "sim" }),
      languages: lenient({}),
      Uri,
      Range,
      Position,
      Selection: Range,
      EventEmitter,
      Disposable,
      ViewColumn: { Active: -1, Beside: -2, One: 1, Two: 2, Three: 3 },
      ProgressLocation: { SourceControl: 1, Window: 10, Notification: 15 },
      TextEditorRevealType: { Default: 0, InCenter: 1, InCenterIfOutsideViewport: 2, AtTop: 3 },
      TextEditorSelectionChangeKind: { Keyboard: 1, Mouse: 2, Command: 3 },
      ExtensionMode: { Production: 1, Development: 2, Test: 3 },
      StatusBarAlignment: { Left: 1, Right: 2 },
      CancellationTokenSource: class {
        constructor() {
          this.token = { isCancellationRequested: false, onCancellationRequested: none() };
        }
        cancel() {
          this.token.isCancellationRequested = true;
        }
        dispose() {}
      },
    };
  }
  clientModule() {
    const e = this;
    const w = this.w;
    class LanguageClient {
      constructor(id, name, server, opt) {
        w.check();
        this.server = server;
        this.opt = opt ?? {};
        this.outputChannel = { show() {}, appendLine() {}, append() {} };
        this.up = false;
        e.clients.push(this);
      }
      start() {
        w.check();
        return e.o.start(this).then(() => {
          this.up = true;
        });
      }
      isRunning() {
        return this.up;
      }
      get state() {
        return this.up ? 2 : 1;
      }
      stop() {
        this.up = false;
        return Promise.resolve();
      }
      dispose() {
        return this.stop();
      }
      sendRequest(method, params) {
        w.check();
        const name = typeof method === "string" ? method : method.method;
        return e.o.request(this, name, params === undefined ? undefined : JSON.parse(JSON.stringify(params)));
      }
      sendNotification() {
        return Promise.resolve();
      }
      onNotification() {
        return { dispose() {} };
      }
      onRequest() {
        return { dispose() {} };
      }
      onDidChangeState() {
        return { dispose() {} };
      }
    }
    return {
      LanguageClient,
      State: { Stopped: 1, Starting: 3, Running: 2 },
      CloseAction: { DoNotRestart: 1, Restart: 2 },
      ErrorAction: { Continue: 1, Shutdown: 2 },
      TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 },
      RevealOutputChannelOn: { Info: 1, Warn: 2, Error: 3, Never: 4 },
    };
  }
  modules(extra) {
    const client = this.clientModule();
    return { vscode: this.module(), "vscode-languageclient/node": client, "vscode-languageclient": client, ...extra };
  }

  // ---------------- documents, editors, panels

  document(name, scheme = "file", languageId = "acorn", lines = []) {
    const d = {
      uri: scheme === "file" ? Uri.file("/w/" + name) : new Uri(scheme, name),
      languageId,
      version: 1,
      isDirty: false,
      isClosed: false,
      isUntitled: scheme !== "file",
      lines,
      get fileName() {
        return this.uri.fsPath;
      },
      get lineCount() {
        return this.lines.length;
      },
      lineAt(i) {
        return { text: this.lines[typeof i === "number" ? i : i.line], lineNumber: i };
      },
      getText() {
        return this.lines.join("\n");
      },
    };
    return d;
  }
  editorOf(document, column) {
    const e = this;
    return {
      document,
      viewColumn: column,
      selection: { start: new Position(0, 0), end: new Position(0, 0), active: new Position(0, 0), anchor: new Position(0, 0) },
      marks: new Map(),
      gone: false,
      setDecorations(type, list) {
        e.w.check();
        if (this.gone) return;
        const ranges = list.map((x) => x.range ?? x);
        this.marks.set(type.key, { type, list: ranges });
        e.o.onMarks?.(this, type, ranges);
      },
      revealRange() {},
      edit: async () => true,
    };
  }
  show(document, column = 1) {
    let ed = this.visible.find((x) => x.document === document && x.viewColumn === column);
    if (!ed) {
      const old = this.visible.find((x) => x.viewColumn === column);
      if (old) old.gone = true;
      this.visible = this.visible.filter((x) => x.viewColumn !== column);
      ed = this.editorOf(document, column);
      this.visible.push(ed);
      const now = [...this.visible];
      this.tell("visible editors", () => this.on.visibleEditors.fire(now));
    }
    if (this.active !== ed) {
      this.active = ed;
      this.tell("active editor", () => this.on.activeEditor.fire(ed));
    }
    return ed;
  }
  newPanel(show) {
    const e = this;
    const received = new Emitter(e.w);
    const disposed = new Emitter(e.w);
    const p = {
      shown: show?.viewColumn ?? show,
      open: true,
      messages: [],
      webview: {
        html: "",
        onDidReceiveMessage: received.event,
        asWebviewUri: (u) => u,
        cspSource: "",
        postMessage: (msg) => {
          e.w.check();
          if (!p.open) throw new Error("Webview is disposed");
          const copy = JSON.parse(JSON.stringify(msg));
          p.messages.push(copy);
          e.o.onMessage?.(p, copy);
          return Promise.resolve(true);
        },
      },
      onDidDispose: disposed.event,
      reveal() {
        if (!p.open) throw new Error("Webview is disposed");
      },
      visible: true,
      dispose() {
        if (!p.open) return;
        p.open = false;
        disposed.fire();
      },
      received,
    };
    this.panels.push(p);
    return p;
  }
}
