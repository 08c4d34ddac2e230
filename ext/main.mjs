// Driver of the simulations of the editor extension: check, replay, one, plan.
//   node main.mjs check P26 | replay FILE | one P26 SEED | determinism P26 N
import { fork } from "node:child_process";
import { createRequire } from "node:module";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { Rng, hash } from "./world.mjs";
import * as p26 from "./p26.mjs";
import * as p27 from "./p27.mjs";

const HERE = path.dirname(fileURLToPath(import.meta.url));
const V = process.env.VERIF_DIR ?? path.dirname(HERE);
const REPO = process.env.SIM_REPO ?? "/repo";
const SCENARIOS = { P26: p26, P27: p27 };
const BUDGET = { P26: { quick: 15_000, thorough: 600_000 }, P27: { quick: 15_000, thorough: 800_000 } };

// The extension as its build makes it, except that nothing is written into /repo.
async function bundle() {
  const require = createRequire("/opt/veriftools/node/package.json");
  const { build } = require("esbuild");
  const r = await build({
    entryPoints: [REPO + "/vscode/extension/src/extension.ts"],
    bundle: true,
    write: false,
    format: "cjs",
    platform: "node",
    target: "es2020",
    external: ["vscode", "vscode-languageclient", "vscode-languageclient/node", "axios"],
    logLevel: "error",
  });
  return r.outputFiles[0].text;
}

const inform = (...a) => console.log(...a);

async function execute(s, plan, code) {
  try {
    return await s.run(JSON.parse(JSON.stringify(plan)), code);
  } catch (e) {
    if (process.env.SIM_SHOW) console.error(e);
    throw e;
  }
}

const seedOf = (id, base, i) => hash("run", id, base, i) * 1048576 + i;

// ---------------------------------------------------------------- workers

async function worker() {
  const { id, code, base, from, step, runs, until, thorough } = await new Promise((r) => process.once("message", r));
  const s = SCENARIOS[id];
  const sum = { runs: 0, nontrivial: 0, traces: [], nontrivialTraces: [], faults: {}, probes: {}, simulated: 0, events: 0, switches: 0, failures: [], mismatches: 0, reruns: 0 };
  process.on("unhandledRejection", () => {});
  for (let i = from; i < runs && Date.now() < until; i += step) {
    const plan = s.gen(seedOf(id, base, i), thorough);
    const r = await execute(s, plan, code);
    const m = r.machine;
    sum.runs++;
    sum.traces.push(m.trace);
    if (r.nontrivial) {
      sum.nontrivial++;
      sum.nontrivialTraces.push(m.trace);
    }
    for (const [k, v] of Object.entries(m.faults)) sum.faults[k] = (sum.faults[k] ?? 0) + v;
    for (const [k, v] of Object.entries(m.probes)) sum.probes[k] = (sum.probes[k] ?? 0) + v;
    sum.simulated += m.now - m.start;
    sum.events += m.events;
    sum.switches += m.switches;
    if (i % 97 === 0) {
      sum.reruns++;
      const again = await execute(s, plan, code);
      if (again.machine.trace !== m.trace) sum.mismatches++;
    }
    if (m.violation) {
      sum.failures.push({ i, plan, ...m.violation });
      break;
    }
  }
  process.send(sum, () => process.exit(0));
}

function start(job) {
  return new Promise((res, rej) => {
    const c = fork(fileURLToPath(import.meta.url), ["worker"], { stdio: ["ignore", "inherit", "inherit", "ipc"] });
    let got = null;
    c.on("message", (x) => (got = x));
    c.on("exit", (status) => (got ? res(got) : rej(new Error(`a worker ended with status ${status}`))));
    c.send(job);
  });
}

// ---------------------------------------------------------------- minimising

// Drops and simplifies parts of a plan as long as the same violation remains.
async function minimise(s, plan, key, code) {
  let best = plan;
  const deadline = Date.now() + 20_000;
  const fails = async (p) => {
    try {
      return (await execute(s, p, code)).machine.violation?.key === key;
    } catch {
      return false;
    }
  };
  const attempt = async (p) => {
    if (Date.now() > deadline) return false;
    if (!(await fails(p))) return false;
    best = p;
    return true;
  };
  await attempt({ ...best, calm: true });
  let again = true;
  while (again && Date.now() < deadline) {
    again = false;
    for (const k of Object.keys(best)) {
      if (s.keep.includes(k) || !Array.isArray(best[k])) continue;
      for (let size = Math.max(1, best[k].length >> 1); size >= 1; size >>= 1)
        for (let at = 0; at < best[k].length; ) {
          const p = { ...best, [k]: [...best[k].slice(0, at), ...best[k].slice(at + size)] };
          if (await attempt(p)) again = true;
          else at += size;
        }
    }
  }
  // Rounder times.
  for (const k of Object.keys(best)) {
    if (!Array.isArray(best[k])) continue;
    for (let i = 0; i < best[k].length; i++)
      for (const f of ["at", "slow", "nth", "ms"])
        for (const v of [0, 1, 100, 1000]) {
          const x = best[k][i];
          if (typeof x[f] !== "number" || x[f] <= v || (f !== "at" && v === 0)) continue;
          const list = [...best[k]];
          list[i] = { ...x, [f]: v };
          if (await attempt({ ...best, [k]: list })) break;
        }
  }
  return best;
}

// ---------------------------------------------------------------- commands

async function check(id) {
  const t0 = Date.now();
  const tier = process.env.VERIF_TIER === "thorough" ? "thorough" : "quick";
  const base = Number(process.env.VERIF_SEED ?? 1);
  const s = SCENARIOS[id];
  const code = await bundle();
  const workers = Number(process.env.SIM_WORKERS ?? Math.min(8, os.cpus().length));
  const runs = Number(process.env.SIM_RUNS ?? BUDGET[id][tier]);
  const cap = Number(process.env.SIM_TIME ?? (tier === "quick" ? 120 : 1500));
  const until = Date.now() + cap * 1000;
  const sums = await Promise.all(Array.from({ length: workers }, (_, k) => start({ id, code, base, from: k, step: workers, runs, until, thorough: tier === "thorough" })));
  const all = { runs: 0, nontrivial: 0, simulated: 0, events: 0, switches: 0, mismatches: 0, reruns: 0 };
  const faults = {}, probes = {};
  const traces = new Set(), nontrivial = new Set();
  let failures = [];
  for (const x of sums) {
    for (const k of Object.keys(all)) all[k] += x[k];
    for (const [k, v] of Object.entries(x.faults)) faults[k] = (faults[k] ?? 0) + v;
    for (const [k, v] of Object.entries(x.probes)) probes[k] = (probes[k] ?? 0) + v;
    x.traces.forEach((t) => traces.add(t));
    x.nontrivialTraces.forEach((t) => nontrivial.add(t));
    failures.push(...x.failures);
  }
  failures.sort((a, b) => a.i - b.i);
  const known = fs.readFileSync(V + "/known_findings.txt", "utf8").split("\n").filter((l) => l.startsWith(`finding: property=${id} `)).map((l) => /key=(\S+)/.exec(l)?.[1]);
  const fresh = failures.filter((f) => !known.includes(f.key));
  for (const f of failures.filter((f) => known.includes(f.key))) inform(`KNOWN-FINDING: property=${id} ${f.msg}`);
  const wall = (Date.now() - t0) / 1000;
  const samples = [];
  for (let i = 0; i < 2; i++) samples.push(s.gen(seedOf(id, base, i), tier === "thorough"));
  const evidence = {
    property: id,
    tier,
    seed: base,
    level: "exploration",
    coverage: {
      evaluations: all.runs,
      distinct_nontrivial: nontrivial.size,
      nontrivial_runs: all.nontrivial,
      rule: s.rule,
      samples,
      distinct_executions: traces.size,
      distinct_measure: "distinct hashes of the sequence of events (which process, what, when), operations on the disk and faults of a run",
      runs_per_hour: Math.round((all.runs * 3600) / wall),
      seeds_per_hour: Math.round((all.runs * 3600) / wall),
      simulated_seconds: Math.round(all.simulated / 1000),
      events: all.events,
      switches_between_processes: all.switches,
      faults_injected: faults,
      probes,
      determinism_reruns: all.reruns,
      determinism_mismatches: all.mismatches,
      real_components: s.real,
      stubbed_components: s.stubs,
    },
    assumptions: ["exploration by seeded search: histories, delays and faults not drawn are not covered", ...(s.assumptions ?? [])],
    wall_s: wall,
    violations: fresh.length,
  };
  fs.mkdirSync(V + "/evidence", { recursive: true });
  const write = () => fs.writeFileSync(`${V}/evidence/${id}.json`, JSON.stringify(evidence, null, 1));
  write();
  if (all.mismatches) {
    console.error(`${all.mismatches} of ${all.reruns} repeated runs differed from the first: the simulation is not deterministic`);
    process.exit(2);
  }
  if (!fresh.length) {
    inform(`${id}: ${all.runs} runs, ${nontrivial.size} distinct non-trivial, ${wall.toFixed(1)} s, no violation`);
    process.exit(0);
  }
  const f = fresh[0];
  inform(`run ${f.i} (seed ${f.plan.seed}): ${f.msg}; minimising`);
  const plan = await minimise(s, f.plan, f.key, code);
  const r = await execute(s, plan, code);
  const v = r.machine.violation;
  const replay = `${V}/evidence/${id}.replay.json`;
  fs.writeFileSync(replay, JSON.stringify({ property: id, key: v.key, msg: v.msg, trace: r.machine.trace, plan, log: r.machine.log }, null, 1));
  inform(`${id}: ${v.msg}`);
  inform(`VIOLATION property=${id} replay=${replay}`);
  process.exit(1);
}

async function main() {
  const [cmd, a, b] = process.argv.slice(2);
  process.on("unhandledRejection", (e) => {
    if (process.env.SIM_SHOW) console.error("unhandled:", e?.message);
  });
  if (cmd === "worker") return worker();
  if (cmd === "check") return check(a);
  const code = await bundle();
  if (cmd === "replay") {
    const file = JSON.parse(fs.readFileSync(a, "utf8"));
    const r = await execute(SCENARIOS[file.property], file.plan, code);
    const v = r.machine.violation;
    if (!v) return inform("no violation"), process.exit(0);
    inform(r.machine.log.join("\n"));
    inform(v.msg, v.key === file.key && r.machine.trace === file.trace ? "(exactly as recorded)" : "(not as recorded)");
    inform(`VIOLATION property=${file.property} replay=${a}`);
    process.exit(1);
  }
  if (cmd === "one" || cmd === "survey") {
    const s = SCENARIOS[a];
    const [from, to] = cmd === "one" ? [Number(b), Number(b) + 1] : [0, Number(b)];
    const base = Number(process.env.VERIF_SEED ?? 1);
    const keys = {};
    for (let i = from; i < to; i++) {
      const plan = s.gen(seedOf(a, base, i), process.env.VERIF_TIER === "thorough");
      const r = await execute(s, plan, code);
      if (cmd === "one") {
        inform(JSON.stringify(plan));
        inform(r.machine.log.join("\n"));
        inform("violation:", r.machine.violation, r.machine.faults, r.machine.probes);
      } else if (r.machine.violation) {
        const k = r.machine.violation.key;
        keys[k] = (keys[k] ?? 0) + 1;
        if (keys[k] <= 3) inform(i, k, r.machine.violation.msg);
      }
    }
    if (cmd === "survey") inform(keys);
    process.exit(0);
  }
  console.error("unknown command");
  process.exit(2);
}

await main();
