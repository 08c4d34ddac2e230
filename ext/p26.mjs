// P26: the extension and the server binary it downloads. Several windows share one storage directory.
import { Machine, Process, Rng, axiosModule, hash, errno } from "./world.mjs";
import { Editor } from "./editor.mjs";

export const id = "P26";
export const keep = ["seed", "versions", "final"];
export const rule =
  "a run is a random history of editor windows (starting together or apart, of one or two versions of the extension, killed, reloaded, clearing the binary cache) over one simulated disk and network, with faults at drawn operations; every start of the server is judged, and at the end undisturbed windows must start it; a run counts as non-trivial when two windows overlapped, a fault fired, or a window ended early";
export const real = "vscode/extension/src (extension.ts and what it imports), bundled with esbuild from /repo's working tree; Node's stream library";
export const stubs = ["vscode API: a model of the calls the extension makes", "vscode-languageclient: starting it judges the file it would run", "axios: a simulated network serving the releases", "fs, os, timers, Date, Math.random, crypto, process: simulated"];

export function release(version, platform) {
  const h = hash("release", version, platform);
  const n = 40 + (h % 900);
  const out = Buffer.alloc(n);
  for (let i = 0; i < n; i++) out[i] = 1 + (hash("byte", h, i >> 2) >> (8 * (i & 3))) % 255;
  return out;
}

export function gen(seed, thorough) {
  const r = new Rng("P26 " + seed);
  const platform = r.pick(["linux", "linux", "linux", "darwin", "win32"]);
  const versions = r.chance(0.3) ? ["0.2.5", "0.2.6"] : ["0.2.6"];
  const p = { seed, platform, versions, umask: r.pick([0o022, 0o022, 0o077, 0o002]), before: [], windows: [], steps: [], faults: [], net: [], calm: false };
  // What earlier sessions left.
  if (r.chance(0.4)) p.before.push({ kind: r.pick(["old", "old", "temp", "same-temp"]), n: r.below(900) });
  const n = r.pick([1, 2, 2, 2, 3, 3, 4]);
  const together = r.chance(0.6);
  let t = 0;
  const many = versions.length > 1;
  for (let i = 0; i < n; i++) {
    // An update reaches new windows only.
    const version = versions[many && i >= n / 2 ? 1 : 0];
    p.windows.push({ id: "w" + i, at: t, version, chunk: r.logRange(8, 400), slow: r.logRange(2, 400) });
    t += together ? r.logRange(1, 300) - 1 : r.logRange(100, 40_000);
  }
  const mode = r.below(10);
  const faults = mode < 3 ? 0 : mode < 8 ? 1 : r.range(2, thorough ? 5 : 3);
  for (let i = 0; i < faults; i++) {
    const win = "w" + r.below(n);
    const which = r.below(10);
    if (which < 3) p.net.push({ win, nth: 1, kind: r.pick(["refuse", "status", "reset", "reset", "stall", "stall"]), at: r.below(1000), ms: r.logRange(100, 60_000) });
    else if (which < 6) p.faults.push({ win, op: "any", nth: r.logRange(1, 60), kind: r.pick(["kill", "kill", "power"]), after: r.chance(0.5) });
    else if (which < 8) p.faults.push({ win, op: r.pick(["write", "write", "open", "rename", "chmod", "unlink", "readdir", "mkdir", "fsync", "close"]), nth: r.pick([1, 1, 1, 2, 3, 7]), kind: r.pick(["EIO", "ENOSPC", "ENOSPC", "EACCES", "short", "kill", "power"]), after: r.chance(0.5) });
    else if (which === 8) p.steps.push({ at: r.logRange(1, 20_000), do: r.pick(["kill", "kill", "reload"]), win });
    else p.steps.push({ at: r.logRange(1, 20_000), do: r.pick(["power", "clear"]), win });
  }
  p.final = r.pick(versions);
  return p;
}

const STORE = "/store/acorn";

export async function run(plan, code) {
  const m = new Machine(plan);
  m.fs.mkdirp("/store");
  m.fs.mkdirp("/ext/build/assistant");
  m.fs.put("/ext/build/assistant/index.html", Buffer.from("<html><head></head></html>"));
  const name = (v) => `acorn-${v}-${plan.platform}-x64${plan.platform === "win32" ? ".exe" : ""}`;
  for (const b of plan.before) {
    const dir = STORE + "/bin/";
    if (b.kind === "old") m.fs.put(dir + name("0.1." + (b.n % 10)), release("0.1.0", plan.platform), 0o755);
    else if (b.kind === "temp") m.fs.put(dir + name("0.1.9") + ".tmp", release("0.1.9", plan.platform).subarray(0, b.n));
    else m.fs.put(dir + name(plan.versions[0]) + ".tmp", release(plan.versions[0], plan.platform).subarray(0, b.n % 40));
  }
  const serve = (url) => {
    const u = /^https:\/\/github\.com\/acornprover\/acorn\/releases\/download\/v([^/]+)\/acorn-([^/]+)-([a-z0-9]+)-x64(\.exe)?$/.exec(url);
    if (!u || u[1] !== u[2] || u[3] !== plan.platform || (u[3] === "win32") !== !!u[4]) return null;
    return release(u[1], u[3]);
  };
  let cleared = -1;
  let removed = new Map(); // path -> version of the window that removed it, or "clear"
  let clearing = null;
  m.onUnlink = (w, p) => removed.set(p, clearing === w ? "clear" : w.version);
  m.onRename = (w, a) => removed.set(a, w.version);
  m.power = () => {
    for (const w of m.windows) w.kill();
    m.fs.powerLoss();
    m.powered = true;
  };
  const windows = [];
  const open = (spec, quiet) => {
    const w = new Process(m, spec.id, {
      platform: plan.platform,
      umask: plan.umask,
      faults: quiet ? [] : plan.faults.filter((f) => f.win === spec.id),
    });
    w.netFaults = quiet ? [] : plan.net.filter((f) => f.win === spec.id).map((f) => ({ ...f }));
    w.version = spec.version;
    w.chunk = spec.chunk;
    w.slow = spec.slow;
    w.started = m.now;
    windows.push(w);
    const editor = new Editor(w, {
      version: spec.version,
      storage: STORE,
      extension: "/ext",
      folder: "/w",
      onCommand: (id) => {
        if (id !== "workbench.action.reloadWindow") return;
        m.after(5, null, "reload", () => reload(w, spec));
      },
      start: (client) => start(w, client),
      request: () => new Promise(() => {}),
    });
    w.editor = editor;
    m.note(w.id, "starts, version", spec.version);
    const ext = w.load(code, editor.modules({ axios: axiosModule(w, serve) }));
    w.state = "starting";
    Promise.resolve(ext.activate(editor.context())).then(
      () => {
        if (w.state === "starting") w.state = "gave up";
      },
      (e) => {
        w.state = "failed";
        w.error = e?.message;
        m.note(w.id, "activation failed:", e?.message);
      },
    );
    return w;
  };
  let generation = 0;
  const reload = (w, spec) => {
    if (!w.alive) return;
    w.kill();
    open({ ...spec, id: spec.id + "r" + ++generation }, true);
  };
  const start = (w, client) => {
    const exec = client.server.run ?? client.server;
    const path = exec.command;
    const n = m.fs.nodes.get(path);
    const what = `${w.id} starts ${String(path).split("/").pop()}`;
    const fail = (code) => Promise.reject(errno(code, "spawn", path));
    const args = (exec.args ?? []).join(" ");
    if (args !== `serve --acornlib-cache-dir ${STORE}/acornlib --workspace-root /w`) m.fail("arguments", `${what} with the arguments ${args}`);
    if (!n) {
      const by = removed.get(path);
      if (by === undefined || by === w.version) m.fail("missing", `${what}, which is not there`);
      else m.probe("binary removed by another version or by the user before its start");
      return fail("ENOENT");
    }
    if (n.dir || !n.data.equals(release(w.version, plan.platform))) {
      m.fail("wrong-binary", `${what}, ${n.dir ? "a directory" : `${n.data.length} bytes that are not the release of ${w.version} (${release(w.version, plan.platform).length} bytes)`}`);
      return fail("ENOEXEC");
    }
    if (plan.platform !== "win32" && !(n.mode & 0o100)) {
      m.fail("not-executable", `${what}, whose mode is ${n.mode.toString(8)}`);
      return fail("EACCES");
    }
    if (m.fs.openWriters.get(n)) {
      m.fail("busy", `${what}, which is still open for writing`);
      return fail("ETXTBSY");
    }
    m.fs.users.set(n, (m.fs.users.get(n) ?? 0) + 1);
    w.running.push(n);
    m.note(what, "well");
    return new Promise((res) =>
      m.after(20, w, "server up", () => {
        w.state = "up";
        m.probe("servers started");
        res();
      }),
    );
  };
  for (const s of plan.windows) m.at(m.start + s.at, null, "open " + s.id, () => open(s));
  for (const s of plan.steps)
    m.at(m.start + s.at, null, s.do, () => {
      const w = windows.find((x) => x.id === s.win && x.alive);
      if (s.do === "power") {
        m.fired("power loss");
        m.power();
      } else if (!w) return;
      else if (s.do === "kill") {
        m.fired("kill");
        w.kill();
      } else if (s.do === "reload") reload(w, plan.windows.find((x) => x.id === s.win));
      else if (s.do === "clear") {
        const f = w.editor.commands.get("acornprover.clearBinaryCache");
        if (!f) return;
        m.note(w.id, "clears the binary cache");
        m.cleared = true;
        clearing = w;
        Promise.resolve(f()).then(
          () => {},
          () => {},
        );
      }
    });
  await m.run(400_000);
  const overlap = windows.some((a, i) => windows.some((b, j) => j > i && Math.abs(a.started - b.started) < 2000));
  // What did not meet a fault must have worked.
  const mixed = new Set(windows.map((w) => w.version)).size > 1;
  if (!m.violation)
    for (const w of windows) {
      if (!w.alive || w.disturbed || m.cleared) continue;
      if (w.state === "up") continue;
      if (mixed) {
        m.probe("windows that failed beside another version");
        continue;
      }
      m.fail("window-failed", `${w.id} met no fault of its own and ended ${w.state}${w.error ? ": " + w.error : ""}`);
    }
  if (plan.calm !== "power-at-end" && hash("lights", plan.seed) % 4 === 0 && !m.violation) {
    m.fired("power loss at the end");
    m.power();
  }
  const finals = [];
  for (let i = 0; i < 2 && !m.violation; i++) {
    for (const w of m.windows) w.kill();
    m.heap = [];
    clearing = null;
    const w = open({ id: "final" + i, version: plan.final, chunk: 64, slow: 10 }, true);
    finals.push(w);
    const t = m.now - m.start;
    await m.run(t + 120_000);
    if (m.violation) break;
    if (w.state !== "up") m.fail("final-failed", `after everything, an undisturbed ${w.id} of version ${w.version} ended ${w.state}${w.error ? ": " + w.error : ""}`);
    else if (i === 1 && (w.requests ?? 0) > 0) m.fail("downloads-again", `${w.id} downloaded the binary again`);
    else if (w.requests) {
      const left = m.fs.list(STORE + "/bin").filter((x) => x !== name(plan.final));
      if (left.length) m.fail("leftovers", `after the download of ${name(plan.final)} by an undisturbed window, ${left.join(", ")} still lie beside it`);
      else m.probe("final downloads");
    } else m.probe("final windows that found the binary");
  }
  const ended = windows.filter((w) => !w.alive).length;
  return { machine: m, nontrivial: overlap || Object.keys(m.faults).length > 0 || ended > 0 };
}
