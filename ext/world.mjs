// A simulated machine for the VS Code extension: virtual time, a seeded order of events, a disk that
// loses what was not synced, a network, and windows (extension hosts) that can be killed.
// The extension's own code runs unchanged; everything it can reach is in here.
import { Readable, Writable } from "node:stream";
import nodePath from "node:path";
import nodeStream from "node:stream";
import nodeStreamPromises from "node:stream/promises";
import nodeEvents from "node:events";
import nodeUtil from "node:util";
import nodeUrl from "node:url";
import nodeAssert from "node:assert";
import nodeCrypto from "node:crypto";

// ---------------------------------------------------------------- seeded choices

export function hash(...xs) {
  let h = 0x811c9dc5;
  for (const c of xs.join("\u0001")) {
    h ^= c.codePointAt(0);
    h = Math.imul(h, 0x01000193) >>> 0;
  }
  h ^= h >>> 15;
  h = Math.imul(h, 0x2c1b3c6d) >>> 0;
  h ^= h >>> 12;
  h = Math.imul(h, 0x297a2d39) >>> 0;
  h ^= h >>> 15;
  return h >>> 0;
}

export class Rng {
  constructor(seed) {
    this.s = hash("rng", seed);
  }
  next() {
    this.s = (this.s + 0x6d2b79f5) >>> 0;
    let t = this.s;
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return (t ^ (t >>> 14)) >>> 0;
  }
  below(n) {
    return this.next() % n;
  }
  range(a, b) {
    return a + this.below(b - a + 1);
  }
  chance(p) {
    return this.next() / 4294967296 < p;
  }
  pick(xs) {
    return xs[this.below(xs.length)];
  }
  logRange(a, b) {
    const r = this.next() / 4294967296;
    return Math.round(a * Math.pow(b / a, r));
  }
}

// ---------------------------------------------------------------- the machine

export class Killed extends Error {
  constructor() {
    super("this process is dead");
  }
}

const turn = () => new Promise((r) => setImmediate(r));

export class Machine {
  // delays: how long things take: "calm" makes every one of them constant.
  constructor(plan) {
    this.plan = plan;
    this.seed = plan.seed;
    this.now = 1_700_000_000_000;
    this.start = this.now;
    this.skew = 0;
    this.heap = [];
    this.order = 0;
    this.trace = 0;
    this.lastOwner = null;
    this.events = 0;
    this.switches = 0;
    this.faults = {};
    this.probes = {};
    this.violation = null;
    this.log = [];
    this.windows = [];
    this.fs = new Disk(this);
    this.disturbed = 0;
  }
  note(...xs) {
    if (this.log.length < 4000) this.log.push(`${(this.now - this.start).toString().padStart(7)} ${xs.join(" ")}`);
    this.trace = hash(this.trace, this.now - this.start, ...xs);
  }
  probe(what) {
    this.probes[what] = (this.probes[what] ?? 0) + 1;
  }
  fired(what) {
    this.faults[what] = (this.faults[what] ?? 0) + 1;
    this.note("FAULT", what);
  }
  fail(key, msg) {
    if (this.violation) return;
    this.violation = { key, msg };
    this.note("VIOLATION", key, msg);
  }
  // How long something takes, in ms: decided by what it is, not by what came before.
  delay(owner, kind, n, max) {
    if (this.plan.calm) return 1;
    const h = hash("delay", this.seed, owner, kind, n);
    const r = h / 4294967296;
    if (h % 16 === 3) return 1 + Math.round(r * max);
    return Math.round(r * r * r * r * max);
  }
  at(time, owner, what, f) {
    const e = { time: Math.max(time, this.now), tie: this.plan.calm ? 0 : hash("tie", this.seed, this.order), order: this.order++, owner, what, f, live: true };
    const h = this.heap;
    let i = h.length;
    h.push(e);
    while (i > 0) {
      const p = (i - 1) >> 1;
      if (!before(e, h[p])) break;
      h[i] = h[p];
      i = p;
    }
    h[i] = e;
    return e;
  }
  after(ms, owner, what, f) {
    return this.at(this.now + ms, owner, what, f);
  }
  pop() {
    const h = this.heap;
    const top = h[0];
    const last = h.pop();
    if (h.length) {
      let i = 0;
      for (;;) {
        let c = 2 * i + 1;
        if (c >= h.length) break;
        if (c + 1 < h.length && before(h[c + 1], h[c])) c++;
        if (!before(h[c], last)) break;
        h[i] = h[c];
        i = c;
      }
      h[i] = last;
    }
    return top;
  }
  // Runs until nothing is left to happen, or until the limit of time.
  async run(limit) {
    await turn();
    while (this.heap.length && !this.violation) {
      if (this.heap[0].time - this.start > limit) break;
      const e = this.pop();
      if (!e.live || (e.owner && !e.owner.alive)) continue;
      this.now = e.time;
      this.events++;
      if (e.owner !== this.lastOwner) this.switches++;
      this.lastOwner = e.owner;
      this.trace = hash(this.trace, e.owner ? e.owner.id : "-", e.what);
      if (this.events > 60_000) throw new Error("a run without end");
      try {
        e.f();
      } catch (x) {
        if (!(x instanceof Killed)) {
          if (e.owner) e.owner.uncaught(x);
          else throw x;
        }
      }
      await turn();
    }
  }
}

function before(a, b) {
  if (a.time !== b.time) return a.time < b.time;
  if (a.tie !== b.tie) return a.tie < b.tie;
  return a.order < b.order;
}

// ---------------------------------------------------------------- the disk

const CODES = { ENOENT: -2, EIO: -5, EACCES: -13, EEXIST: -17, ENOTDIR: -20, EISDIR: -21, EMFILE: -24, ENOSPC: -28, EROFS: -30, ENOTEMPTY: -39, EBADF: -9, EPERM: -1, EBUSY: -16, EINVAL: -22 };

export function errno(code, op, path) {
  const e = new Error(`${code}: ${op}${path ? ` '${path}'` : ""}`);
  e.code = code;
  e.errno = CODES[code] ?? -1;
  e.syscall = op;
  if (path) e.path = path;
  return e;
}

// Files are inodes with contents the kernel has and contents the disk has; names are in one map.
// What changes names, modes and directories reaches the disk in order, as a journal does.
export class Disk {
  constructor(m) {
    this.m = m;
    this.nodes = new Map(); // path -> inode
    this.journal = []; // what the disk does not surely have yet: functions on `durable`
    this.durable = new Map(); // path -> {node, dir, mode}
    this.ino = 1;
    this.openWriters = new Map(); // inode -> number of descriptors open for writing
    this.users = new Map(); // inode -> number of live processes running it
    this.mkdirp("/");
  }
  mkdirp(path) {
    const parts = path.split("/").filter(Boolean);
    let p = "";
    for (const x of ["", ...parts]) {
      p = x === "" ? "/" : p === "/" ? "/" + x : p + "/" + x;
      if (!this.nodes.has(p)) this.link(p, { ino: this.ino++, dir: true, mode: 0o755 });
    }
    this.settle();
  }
  link(path, node) {
    this.nodes.set(path, node);
    const mode = node.mode;
    this.journal.push((d) => d.set(path, { node, mode }));
  }
  drop(path) {
    this.nodes.delete(path);
    this.journal.push((d) => d.delete(path));
  }
  settle() {
    for (const f of this.journal) f(this.durable);
    this.journal = [];
  }
  // The power goes out: some prefix of the journal made it, and of each file what was synced
  // plus anything between nothing and all of the rest.
  powerLoss() {
    const m = this.m;
    const n = this.journal.length;
    const kept = m.plan.calm ? n : hash("journal", m.seed, n, m.now) % (n + 1);
    for (const f of this.journal.slice(0, kept)) f(this.durable);
    this.journal = [];
    this.nodes = new Map();
    const seen = new Map();
    for (const [path, { node, mode }] of this.durable) {
      let back = seen.get(node);
      if (!back) {
        back = { ino: node.ino, dir: node.dir, mode };
        if (!node.dir) {
          const whole = node.data;
          const safe = node.synced ?? Buffer.alloc(0);
          if (safe.equals(whole)) back.data = whole;
          else {
            const h = hash("page", m.seed, node.ino, whole.length);
            const len = m.plan.calm ? 0 : h % (whole.length + 1);
            back.data = Buffer.from(whole.subarray(0, Math.max(len, Math.min(safe.length, whole.length))));
          }
          back.synced = back.data;
        }
        seen.set(node, back);
      }
      this.nodes.set(path, back);
    }
    for (const [path, node] of this.nodes) this.durable.set(path, { node, mode: node.mode });
    this.openWriters = new Map();
    this.users = new Map();
  }
  put(path, data, mode = 0o644) {
    this.mkdirp(nodePath.posix.dirname(path));
    this.link(path, { ino: this.ino++, data, synced: data, mode });
    this.settle();
  }
  list(dir) {
    const pre = dir === "/" ? "/" : dir + "/";
    const out = [];
    for (const p of this.nodes.keys()) if (p !== "/" && p.startsWith(pre) && !p.slice(pre.length).includes("/")) out.push(p.slice(pre.length));
    return out.sort();
  }
  parent(path, op) {
    const d = nodePath.posix.dirname(path);
    const n = this.nodes.get(d);
    if (!n) throw errno("ENOENT", op, path);
    if (!n.dir) throw errno("ENOTDIR", op, path);
  }
}

function norm(p) {
  if (p instanceof URL) p = nodeUrl.fileURLToPath(p);
  if (Buffer.isBuffer(p)) p = p.toString();
  if (typeof p !== "string") throw new TypeError("path must be a string");
  p = nodePath.posix.normalize(p);
  return p.length > 1 && p.endsWith("/") ? p.slice(0, -1) : p;
}

class Stats {
  constructor(n) {
    this.n = n;
    this.ino = n.ino;
    this.mode = (n.dir ? 0o040000 : 0o100000) | n.mode;
    this.size = n.dir ? 4096 : n.data.length;
    this.mtimeMs = this.ctimeMs = this.atimeMs = this.birthtimeMs = n.mtime ?? 0;
    this.mtime = new Date(this.mtimeMs);
    this.ctime = this.atime = this.birthtime = this.mtime;
  }
  isFile() {
    return !this.n.dir;
  }
  isDirectory() {
    return !!this.n.dir;
  }
  isSymbolicLink() {
    return false;
  }
}

// The operations of one process on the disk; each is atomic, and each may meet a fault.
function diskOps(w) {
  const m = w.m;
  const d = m.fs;
  const fds = w.fds;
  const get = (p, op) => {
    const n = d.nodes.get(p);
    if (!n) throw errno("ENOENT", op, p);
    return n;
  };
  const fd = (x, op) => {
    const f = fds.get(x);
    if (!f) throw errno("EBADF", op);
    return f;
  };
  const writer = (node, by) => {
    const n = (d.openWriters.get(node) ?? 0) + by;
    if (n > 0) d.openWriters.set(node, n);
    else d.openWriters.delete(node);
  };
  const toBuf = (x, enc) => (typeof x === "string" ? Buffer.from(x, enc ?? "utf8") : Buffer.from(x.buffer, x.byteOffset, x.byteLength));
  const encOf = (o) => (typeof o === "string" ? o : o?.encoding);
  const ops = {
    stat(p) {
      return new Stats(get(norm(p), "stat"));
    },
    access(p, mode = 0) {
      const n = get(norm(p), "access");
      if (mode & 1 && !n.dir && !(n.mode & 0o100)) throw errno("EACCES", "access", norm(p));
    },
    mkdir(p, o) {
      p = norm(p);
      if (o?.recursive) {
        let q = "";
        let first;
        for (const x of p.split("/").filter(Boolean)) {
          q += "/" + x;
          const n = d.nodes.get(q);
          if (n && !n.dir) throw errno("ENOTDIR", "mkdir", q);
          if (!n) {
            d.link(q, { ino: d.ino++, dir: true, mode: 0o755 });
            first ??= q;
          }
        }
        return first;
      }
      if (d.nodes.has(p)) throw errno("EEXIST", "mkdir", p);
      d.parent(p, "mkdir");
      d.link(p, { ino: d.ino++, dir: true, mode: 0o755 });
    },
    mkdtemp(p) {
      const q = norm(p) + (hash("mkdtemp", m.seed, w.id, w.ops) % 0xffffff).toString(16).padStart(6, "0");
      ops.mkdir(q);
      return q;
    },
    readdir(p, o) {
      p = norm(p);
      const n = get(p, "scandir");
      if (!n.dir) throw errno("ENOTDIR", "scandir", p);
      const names = d.list(p);
      if (!o?.withFileTypes) return names;
      return names.map((name) => {
        const c = d.nodes.get(p === "/" ? "/" + name : p + "/" + name);
        return { name, parentPath: p, path: p, isFile: () => !c.dir, isDirectory: () => !!c.dir, isSymbolicLink: () => false };
      });
    },
    unlink(p) {
      p = norm(p);
      const n = get(p, "unlink");
      if (n.dir) throw errno("EPERM", "unlink", p);
      if (w.platform === "win32" && d.users.get(n)) throw errno("EPERM", "unlink", p);
      d.drop(p);
      m.onUnlink?.(w, p);
    },
    rm(p, o) {
      p = norm(p);
      const n = d.nodes.get(p);
      if (!n) {
        if (o?.force) return;
        throw errno("ENOENT", "rm", p);
      }
      if (!n.dir) return ops.unlink(p);
      if (!o?.recursive) throw errno("EISDIR", "rm", p);
      for (const x of d.list(p)) ops.rm(p + "/" + x, o);
      d.drop(p);
    },
    rmdir(p) {
      p = norm(p);
      if (!get(p, "rmdir").dir) throw errno("ENOTDIR", "rmdir", p);
      if (d.list(p).length) throw errno("ENOTEMPTY", "rmdir", p);
      d.drop(p);
    },
    rename(a, b) {
      a = norm(a);
      b = norm(b);
      const n = get(a, "rename");
      d.parent(b, "rename");
      const old = d.nodes.get(b);
      if (old?.dir || n.dir) throw errno("EISDIR", "rename", b);
      if (w.platform === "win32" && old && old !== n && d.users.get(old)) throw errno("EPERM", "rename", b);
      if (a === b) return;
      d.nodes.delete(a);
      d.nodes.set(b, n);
      const mode = n.mode;
      d.journal.push((x) => {
        x.delete(a);
        x.set(b, { node: n, mode });
      });
      m.onRename?.(w, a, b, n);
    },
    link(a, b) {
      a = norm(a);
      b = norm(b);
      const n = get(a, "link");
      d.parent(b, "link");
      if (d.nodes.has(b)) throw errno("EEXIST", "link", b);
      d.link(b, n);
    },
    chmod(p, mode) {
      p = norm(p);
      const n = get(p, "chmod");
      n.mode = typeof mode === "string" ? parseInt(mode, 8) : mode;
      d.journal.push((x) => {
        for (const e of x.values()) if (e.node === n) e.mode = n.mode;
      });
    },
    utimes(p) {
      get(norm(p), "utime");
    },
    truncate(p, len = 0) {
      const n = get(norm(p), "truncate");
      n.data = Buffer.from(n.data.subarray(0, len));
    },
    open(p, flags = "r", mode = 0o666) {
      p = norm(p);
      if (typeof flags === "number") {
        const acc = flags & 3;
        flags = (flags & 0o2000 ? "a" : flags & 0o1000 || flags & 0o100 ? "w" : "r") + (flags & 0o200 ? "x" : "") + (acc === 2 ? "+" : "");
      }
      let n = d.nodes.get(p);
      const kind = flags[0];
      if (kind === "r" && !n) throw errno("ENOENT", "open", p);
      if (flags.includes("x") && n) throw errno("EEXIST", "open", p);
      if (n?.dir && (kind !== "r" || flags.includes("+"))) throw errno("EISDIR", "open", p);
      const writes = kind !== "r" || flags.includes("+");
      if (writes && n && d.users.get(n)) throw errno(w.platform === "win32" ? "EBUSY" : "ETXTBSY", "open", p);
      if (!n) {
        d.parent(p, "open");
        const bits = typeof mode === "string" ? parseInt(mode, 8) : mode ?? 0o666;
        n = { ino: d.ino++, data: Buffer.alloc(0), synced: Buffer.alloc(0), mode: bits & ~w.umask };
        d.link(p, n);
      } else if (kind === "w") n.data = Buffer.alloc(0);
      const id = w.nextFd++;
      fds.set(id, { node: n, pos: kind === "a" ? n.data?.length ?? 0 : 0, append: kind === "a", writes, path: p });
      if (writes) writer(n, 1);
      return id;
    },
    close(x) {
      const f = fd(x, "close");
      fds.delete(x);
      if (f.writes) writer(f.node, -1);
    },
    write(x, data, a, b, c) {
      const f = fd(x, "write");
      if (!f.writes) throw errno("EBADF", "write");
      let buf, pos;
      if (typeof data === "string") {
        buf = Buffer.from(data, b ?? "utf8");
        pos = a;
      } else {
        if (a && typeof a === "object") ({ offset: a, length: b, position: c } = a);
        buf = toBuf(data).subarray(a ?? 0, (a ?? 0) + (b ?? data.byteLength - (a ?? 0)));
        pos = c;
      }
      if (w.shortWrite) {
        w.shortWrite = false;
        if (buf.length > 1) buf = buf.subarray(0, 1 + (hash("short", m.seed, w.ops) % (buf.length - 1)));
      }
      const at = typeof pos === "number" ? pos : f.append ? f.node.data.length : f.pos;
      const end = at + buf.length;
      const out = Buffer.alloc(Math.max(end, f.node.data.length));
      f.node.data.copy(out);
      buf.copy(out, at);
      f.node.data = out;
      f.node.mtime = m.now;
      if (typeof pos !== "number") f.pos = end;
      return buf.length;
    },
    read(x, buf, off = 0, len, pos) {
      const f = fd(x, "read");
      const at = typeof pos === "number" ? pos : f.pos;
      const part = f.node.data.subarray(at, at + (len ?? buf.byteLength - off));
      part.copy(buf, off);
      if (typeof pos !== "number") f.pos += part.length;
      return part.length;
    },
    fsync(x) {
      const f = fd(x, "fsync");
      f.node.synced = f.node.data;
      d.settle();
    },
    fdatasync(x) {
      const f = fd(x, "fdatasync");
      f.node.synced = f.node.data;
    },
    fstat(x) {
      return new Stats(fd(x, "fstat").node);
    },
    fchmod(x, mode) {
      const f = fd(x, "fchmod");
      f.node.mode = mode;
      d.journal.push((y) => {
        for (const e of y.values()) if (e.node === f.node) e.mode = mode;
      });
    },
    ftruncate(x, len = 0) {
      const f = fd(x, "ftruncate");
      f.node.data = Buffer.from(f.node.data.subarray(0, len));
    },
    readFile(p, o) {
      const n = typeof p === "number" ? fd(p, "read").node : get(norm(p), "open");
      if (n.dir) throw errno("EISDIR", "read", p);
      const e = encOf(o);
      return e ? n.data.toString(e) : Buffer.from(n.data);
    },
    writeFile(p, data, o) {
      const own = typeof p !== "number";
      const f = own ? ops.open(p, o?.flag ?? "w", o?.mode ?? 0o666) : p;
      try {
        ops.write(f, typeof data === "string" ? Buffer.from(data, encOf(o) ?? "utf8") : data);
        if (o?.flush) ops.fsync(f);
      } finally {
        if (own) ops.close(f);
      }
    },
    appendFile(p, data, o) {
      ops.writeFile(p, data, { ...(typeof o === "object" ? o : {}), flag: "a" });
    },
    copyFile(a, b, flags = 0) {
      const n = get(norm(a), "copyfile");
      const f = ops.open(b, flags & 1 ? "wx" : "w", n.mode);
      ops.write(f, n.data);
      ops.close(f);
    },
    realpath(p) {
      get(norm(p), "realpath");
      return norm(p);
    },
  };
  ops.lstat = ops.stat;
  ops.cp = ops.copyFile;
  return ops;
}

// Builds the `fs` module a process sees, in its three styles, from the operations.
function fsModule(w) {
  const m = w.m;
  const ops = diskOps(w);
  const once = (op, args) => {
    w.check();
    const n = (w.count[op] = (w.count[op] ?? 0) + 1);
    w.ops++;
    const f = w.faultFor(op, n);
    if (f) {
      if (f.kind === "kill" && !f.after) {
        m.fired(`kill before ${op}`);
        w.kill();
        throw new Killed();
      }
      if (f.kind === "power" && !f.after) {
        m.fired(`power loss before ${op}`);
        m.power();
        throw new Killed();
      }
      if (f.kind === "short" && op === "write") {
        m.fired("short write");
        w.shortWrite = true;
      } else if (f.kind.startsWith("E")) {
        m.fired(`${f.kind} on ${op}`);
        w.disturbed = true;
        if (f.kind === "ENOSPC" && op === "write" && args[1]?.byteLength > 1) {
          // A full disk takes what still fits.
          w.shortWrite = true;
          ops[op](...args);
        }
        throw errno(f.kind, op, typeof args[0] === "string" ? args[0] : undefined);
      }
    }
    let out, err;
    try {
      out = ops[op](...args);
    } catch (e) {
      err = e;
    }
    const shown = args.filter((x) => typeof x === "string" || typeof x === "number").map((x) => (typeof x === "string" ? x.split("/").pop() : x));
    m.note(w.id, op, ...shown, err ? err.code ?? err.message : "");
    if (f && (f.kind === "kill" || f.kind === "power") && f.after) {
      m.fired(`${f.kind === "kill" ? "kill" : "power loss"} after ${op}`);
      if (f.kind === "kill") w.kill();
      else m.power();
      throw new Killed();
    }
    if (err) throw err;
    return out;
  };
  // Later than now: the operation happens when its event comes up, its result arrives with another.
  const later = (op, args, done) => {
    w.check();
    const n = w.async++;
    m.after(m.delay(w.id, "disk", n, 40), w, op, () => {
      let out, err;
      try {
        out = once(op, args);
      } catch (e) {
        if (e instanceof Killed) throw e;
        err = e;
      }
      m.after(m.delay(w.id, "reply", n, 8), w, op + " done", () => done(err, out));
    });
  };
  const promised = (op, args) => new Promise((res, rej) => later(op, args, (e, x) => (e ? rej(e) : res(x))));
  w.disk = { later, promised, once };

  class WriteStream extends Writable {
    constructor(path, o) {
      if (typeof o === "string") o = { encoding: o };
      super({ highWaterMark: o?.highWaterMark ?? 16384, autoDestroy: o?.autoClose ?? true, emitClose: o?.emitClose ?? true });
      this.path = path;
      this.opt = o ?? {};
      this.fd = typeof this.opt.fd === "number" ? this.opt.fd : null;
      this.bytesWritten = 0;
      this.pos = this.opt.start;
      this.busy = false;
    }
    _construct(cb) {
      if (this.fd !== null) return cb();
      this.opening = true;
      later("open", [this.path, this.opt.flags ?? "w", this.opt.mode ?? 0o666], (e, fd) => {
        if (e) return cb(e);
        this.fd = fd;
        this.emit("open", fd);
        this.emit("ready");
        cb();
      });
    }
    _write(chunk, enc, cb) {
      const left = (buf) => {
        this.busy = true;
        later("write", [this.fd, buf, 0, buf.length, this.pos], (e, n) => {
          this.busy = false;
          if (this.destroyed && this.closeWhenIdle) {
            cb(e ?? new Error("destroyed"));
            return this.closeWhenIdle();
          }
          if (e) return cb(e);
          this.bytesWritten += n;
          if (this.pos !== undefined) this.pos += n;
          if (n < buf.length) return left(buf.subarray(n));
          cb();
        });
      };
      left(Buffer.isBuffer(chunk) ? chunk : Buffer.from(chunk, enc));
    }
    _destroy(err, cb) {
      const close = () => {
        if (this.fd === null) return cb(err);
        const fd = this.fd;
        this.fd = null;
        const shut = () => later("close", [fd], (e) => cb(err ?? e));
        if (this.opt.flush) later("fsync", [fd], (e) => (e ? (err ??= e, shut()) : shut()));
        else shut();
      };
      if (this.busy) this.closeWhenIdle = close;
      else close();
    }
    close(cb) {
      if (cb) {
        if (this.closed) return process.nextTick(cb);
        this.on("close", cb);
      }
      this.end();
    }
  }
  class ReadStream extends Readable {
    constructor(path, o) {
      super({ ...(typeof o === "string" ? { encoding: o } : o) });
      this.path = path;
    }
    _construct(cb) {
      later("open", [this.path, "r"], (e, fd) => {
        this.fd = fd;
        cb(e);
      });
    }
    _read() {
      const buf = Buffer.alloc(64);
      later("read", [this.fd, buf, 0, 64], (e, n) => (e ? this.destroy(e) : this.push(n ? buf.subarray(0, n) : null)));
    }
    _destroy(err, cb) {
      if (this.fd === undefined) return cb(err);
      later("close", [this.fd], (e) => cb(err ?? e));
    }
  }

  class FileHandle extends nodeEvents {
    constructor(fd) {
      super();
      this.fd = fd;
    }
    async close() {
      const fd = this.fd;
      this.fd = -1;
      if (fd >= 0) await promised("close", [fd]);
      this.emit("close");
    }
    sync() {
      return promised("fsync", [this.fd]);
    }
    datasync() {
      return promised("fdatasync", [this.fd]);
    }
    stat() {
      return promised("fstat", [this.fd]);
    }
    chmod(mode) {
      return promised("fchmod", [this.fd, mode]);
    }
    truncate(len) {
      return promised("ftruncate", [this.fd, len]);
    }
    async write(buf, ...a) {
      return { bytesWritten: await promised("write", [this.fd, buf, ...a]), buffer: buf };
    }
    async read(buf, ...a) {
      return { bytesRead: await promised("read", [this.fd, buf, ...a]), buffer: buf };
    }
    readFile(o) {
      return promised("readFile", [this.fd, o]);
    }
    async writeFile(data, o) {
      const buf = typeof data === "string" ? Buffer.from(data) : data;
      for (let at = 0; at < buf.length; ) at += await promised("write", [this.fd, buf, at, buf.length - at]);
    }
    appendFile(data, o) {
      return this.writeFile(data, o);
    }
    createWriteStream(o) {
      return new WriteStream("", { ...o, fd: this.fd });
    }
    [Symbol.asyncDispose]() {
      return this.close();
    }
  }

  const constants = { F_OK: 0, X_OK: 1, W_OK: 2, R_OK: 4, COPYFILE_EXCL: 1, O_RDONLY: 0, O_WRONLY: 1, O_RDWR: 2, O_CREAT: 0o100, O_EXCL: 0o200, O_TRUNC: 0o1000, O_APPEND: 0o2000 };
  const mod = { constants, WriteStream, ReadStream, Stats };
  const promises = { constants };
  for (const op of Object.keys(ops)) {
    const byFd = ["close", "write", "read", "fsync", "fdatasync", "fstat", "fchmod", "ftruncate"].includes(op);
    mod[op + "Sync"] = (...a) => once(op, a);
    const cbStyle = (...a) => {
      const cb = a.pop();
      if (typeof cb !== "function") throw new TypeError("callback must be a function");
      later(op, a, (e, x) => (e ? cb(e) : op === "write" || op === "read" ? cb(null, x, a[1]) : cb(null, x)));
    };
    cbStyle[nodeUtil.promisify.custom] = (...a) => promised(op, a);
    mod[op] = cbStyle;
    if (!byFd) promises[op] = (...a) => promised(op, a);
  }
  mod.readvSync = undefined;
  mod.existsSync = (p) => {
    w.check();
    w.ops++;
    let there = false;
    try {
      there = m.fs.nodes.has(norm(p));
    } catch {}
    m.note(w.id, "exists", String(p).split("/").pop(), there);
    return there;
  };
  mod.exists = (p, cb) => later("stat", [p], (e) => cb(!e));
  mod.exists[nodeUtil.promisify.custom] = (p) => promised("stat", [p]).then(() => true, () => false);
  mod.statSync = (p, o) => {
    try {
      return once("stat", [p]);
    } catch (e) {
      if (e.code === "ENOENT" && o?.throwIfNoEntry === false) return undefined;
      throw e;
    }
  };
  // Whole-file writes are several operations, as they are in a real process.
  const wholeWrite = async (p, data, o) => {
    const buf = typeof data === "string" ? Buffer.from(data) : data;
    if (buf && typeof buf.pipe === "function") return nodeStreamPromises.pipeline(buf, new WriteStream(p, o));
    const fd = typeof p === "number" ? p : await promised("open", [p, o?.flag ?? "w", o?.mode ?? 0o666]);
    try {
      for (let at = 0; at < buf.length; ) at += await promised("write", [fd, buf, at, Math.min(64, buf.length - at)]);
      if (o?.flush) await promised("fsync", [fd]);
    } finally {
      if (typeof p !== "number") await promised("close", [fd]);
    }
  };
  promises.writeFile = wholeWrite;
  mod.writeFile = (p, data, o, cb) => {
    if (typeof o === "function") [o, cb] = [undefined, o];
    wholeWrite(p, data, o).then(() => cb(null), cb);
  };
  const wholeWriteSync = (p, data, o) => {
    const buf = typeof data === "string" ? Buffer.from(data) : data;
    const fd = once("open", [p, o?.flag ?? "w", o?.mode ?? 0o666]);
    try {
      for (let at = 0; at < buf.length; ) at += once("write", [fd, buf, at, Math.min(64, buf.length - at)]);
      if (o?.flush) once("fsync", [fd]);
    } finally {
      if (w.alive) once("close", [fd]);
    }
  };
  mod.writeFileSync = wholeWriteSync;
  promises.open = async (p, flags, mode) => new FileHandle(await promised("open", [p, flags, mode]));
  mod.createWriteStream = (p, o) => {
    w.check();
    return new WriteStream(p, o);
  };
  mod.createReadStream = (p, o) => {
    w.check();
    return new ReadStream(p, o);
  };
  mod.promises = promises;
  mod.watch = () => ({ close() {}, on() {} });
  mod.default = mod;
  promises.default = promises;
  return mod;
}

// ---------------------------------------------------------------- a process (extension host)

// Anything of an API that is not modelled does nothing.
export function lenient(known, name = "api") {
  return new Proxy(known, {
    get(t, k) {
      if (k in t) return t[k];
      if (typeof k === "symbol" || k === "then" || k === "toJSON") return undefined;
      const f = function () {
        return lenient({ dispose() {} }, name + "." + String(k));
      };
      return lenient(f, name + "." + String(k));
    },
  });
}

export class Process {
  constructor(m, id, o = {}) {
    this.m = m;
    this.id = id;
    this.alive = true;
    this.platform = o.platform ?? "linux";
    this.umask = o.umask ?? 0o022;
    this.pid = o.pid ?? 1000 + m.windows.length * 7;
    this.faults = o.faults ?? [];
    this.count = {};
    this.ops = 0;
    this.async = 0;
    this.timers = 0;
    this.fds = new Map();
    this.nextFd = 20;
    this.disturbed = false;
    this.errors = [];
    this.running = []; // inodes it runs
    this.fsMod = fsModule(this);
    m.windows.push(this);
  }
  check() {
    if (!this.alive) throw new Killed();
  }
  faultFor(op, n) {
    for (const f of this.faults) if ((f.op === op && f.nth === n) || (f.op === "any" && f.nth === this.ops)) return f;
    return null;
  }
  uncaught(e) {
    this.errors.push(e);
    this.m.note(this.id, "uncaught", e?.message);
  }
  kill() {
    if (!this.alive) return;
    this.alive = false;
    const d = this.m.fs;
    for (const f of this.fds.values())
      if (f.writes) {
        const n = (d.openWriters.get(f.node) ?? 0) - 1;
        if (n > 0) d.openWriters.set(f.node, n);
        else d.openWriters.delete(f.node);
      }
    this.fds.clear();
    for (const n of this.running) {
      const c = (d.users.get(n) ?? 0) - 1;
      if (c > 0) d.users.set(n, c);
      else d.users.delete(n);
    }
    this.running = [];
    this.m.note(this.id, "ends");
  }
  // What the code of this process finds in place of its surroundings.
  globals(modules) {
    const w = this;
    const m = this.m;
    const setT = (f, ms, ...a) => {
      w.check();
      const n = w.timers++;
      const late = m.plan.calm ? 0 : m.delay(w.id, "timer", n, 15);
      const t = m.after(Math.max(1, Number(ms) || 1) + late, w, "timer", () => f(...a));
      return { t, unref() { return this; }, ref() { return this; }, hasRef: () => true, [Symbol.toPrimitive]: () => n };
    };
    const clear = (h) => {
      if (h?.t) h.t.live = false;
    };
    const setI = (f, ms, ...a) => {
      const h = { unref() { return this; }, ref() { return this; } };
      const again = () => {
        h.t = setT(() => {
          again();
          f(...a);
        }, ms).t;
      };
      again();
      return h;
    };
    class SimDate extends Date {
      constructor(...a) {
        if (a.length) super(...a);
        else super(m.now + m.skew);
      }
      static now() {
        return m.now + m.skew;
      }
    }
    const rnd = new Rng(`${m.seed} ${w.id} random`);
    const SimMath = Object.create(Math, { random: { value: () => rnd.next() / 4294967296 } });
    const bytes = (n) => Buffer.from(Array.from({ length: n }, () => rnd.below(256)));
    const uuid = () => bytes(16).toString("hex").replace(/^(.{8})(.{4})(.{4})(.{4})(.*)$/, "$1-$2-$3-$4-$5");
    const proc = lenient(
      {
        env: w.env ?? {},
        pid: w.pid,
        ppid: 1,
        platform: w.platform,
        arch: "x64",
        version: "v20.10.0",
        versions: { node: "20.10.0" },
        argv: [],
        cwd: () => "/",
        nextTick: (f, ...a) => process.nextTick(() => w.alive && f(...a)),
        hrtime: Object.assign(() => [Math.floor(m.now / 1000), (m.now % 1000) * 1e6], { bigint: () => BigInt(m.now) * 1000000n }),
        uptime: () => (m.now - m.start) / 1000,
        on() {},
        once() {},
        umask: () => w.umask,
      },
      "process",
    );
    const crypto = { randomBytes: bytes, randomUUID: uuid, randomInt: (a, b) => (b === undefined ? rnd.below(a) : a + rnd.below(b - a)), createHash: nodeCrypto.createHash, webcrypto: {} };
    const os = { platform: () => w.platform, arch: () => "x64", tmpdir: () => "/tmp", homedir: () => "/home/u", type: () => "Linux", release: () => "6", EOL: "\n", hostname: () => "sim", cpus: () => [{}], userInfo: () => ({ username: "u" }) };
    const timersPromises = { setTimeout: (ms, v) => new Promise((r) => setT(() => r(v), ms)) };
    const table = {
      fs: w.fsMod,
      "fs/promises": w.fsMod.promises,
      os,
      path: nodePath.posix,
      stream: nodeStream,
      "stream/promises": nodeStreamPromises,
      events: nodeEvents,
      util: nodeUtil,
      url: nodeUrl,
      assert: nodeAssert,
      crypto,
      timers: { setTimeout: setT, clearTimeout: clear, setInterval: setI, clearInterval: clear },
      "timers/promises": timersPromises,
      process: proc,
      buffer: { Buffer },
      ...modules,
    };
    const require = (name) => {
      const x = table[name.replace(/^node:/, "")];
      if (!x) throw new Error(`the simulator has no module ${name}`);
      return x;
    };
    const say = (...a) => m.note(w.id, "console:", a.map((x) => (x instanceof Error ? x.message : typeof x === "string" ? x : JSON.stringify(x))).join(" ").slice(0, 160));
    const console = lenient({ log: say, error: say, warn: say, info: say, debug: say }, "console");
    return {
      require,
      setTimeout: setT,
      clearTimeout: clear,
      setInterval: setI,
      clearInterval: clear,
      setImmediate: (f, ...a) => setT(f, 0, ...a),
      clearImmediate: clear,
      Date: SimDate,
      Math: SimMath,
      process: proc,
      console,
      performance: { now: () => m.now - m.start },
      crypto,
      Buffer,
    };
  }
  // Runs a bundled module in this process; returns its exports.
  load(code, modules, file = "extension.js") {
    const g = this.globals(modules);
    const module = { exports: {} };
    const names = ["module", "exports", "__filename", "__dirname", ...Object.keys(g)];
    const f = compiled(code, names);
    f(module, module.exports, "/ext/" + file, "/ext", ...Object.values(g));
    return module.exports;
  }
}

const cache = new Map();
function compiled(code, names) {
  const key = names.join(",");
  let f = cache.get(code);
  if (!f || f.key !== key) {
    f = { key, f: new Function(...names, code) };
    cache.set(code, f);
  }
  return f.f;
}

// ---------------------------------------------------------------- the network

// axios, as far as an extension uses it: `serve(url)` decides what the other side has.
export function axiosModule(w, serve) {
  const m = w.m;
  const request = (url, o = {}) => {
    w.check();
    const n = (w.requests = (w.requests ?? 0) + 1);
    const f = (w.netFaults ?? []).find((x) => x.nth === n);
    return new Promise((res, rej) => {
      const fail = (msg, code, response) => {
        const e = new Error(msg);
        e.code = code;
        e.isAxiosError = true;
        if (response) e.response = response;
        rej(e);
      };
      m.note(w.id, "GET", url.split("/").pop());
      m.after(1 + m.delay(w.id, "connect", n, 300), w, "response", () => {
        if (f?.kind === "refuse") {
          m.fired("connection refused");
          w.disturbed = true;
          return fail("connect ECONNREFUSED", "ECONNREFUSED");
        }
        if (f?.kind === "status") {
          m.fired("HTTP error status");
          w.disturbed = true;
          return fail("Request failed with status code 503", "ERR_BAD_RESPONSE", { status: 503, data: null });
        }
        const whole = serve(url);
        if (!whole) return fail("Request failed with status code 404", "ERR_BAD_REQUEST", { status: 404 });
        const size = w.chunk ?? 32;
        let at = 0;
        let count = 0;
        let asked = false;
        const step = () => {
          asked = true;
          const d = m.delay(w.id, "net" + n, count++, w.slow ?? 40);
          const stall = f?.kind === "stall" && at >= (f.at % (whole.length + 1)) && !f.done;
          if (stall) {
            f.done = true;
            m.fired("network stall");
          }
          m.after((stall ? f.ms : 0) + d, w, "data", () => {
            asked = false;
            if (f?.kind === "reset" && at >= f.at % (whole.length + 1)) {
              m.fired("connection reset in mid-transfer");
              w.disturbed = true;
              const e = new Error("aborted");
              e.code = "ECONNRESET";
              return data.destroy(e);
            }
            if (at >= whole.length) return data.push(null);
            const part = whole.subarray(at, at + size);
            at += part.length;
            if (data.push(part)) step();
          });
        };
        const data = new Readable({
          highWaterMark: 64,
          read() {
            if (!asked) step();
          },
        });
        const finish = (body) => res({ status: 200, statusText: "OK", headers: { "content-length": String(whole.length) }, config: o, data: body });
        if (o.responseType === "stream") return finish(data);
        const parts = [];
        data.on("data", (x) => parts.push(x));
        data.on("error", (e) => fail(e.message, e.code));
        data.on("end", () => {
          const b = Buffer.concat(parts);
          finish(o.responseType === "arraybuffer" ? b : b.toString());
        });
      });
    });
  };
  const axios = Object.assign((a, b) => (typeof a === "string" ? request(a, b) : request(a.url, a)), {
    get: request,
    request: (o) => request(o.url, o),
    create: () => axios,
    isAxiosError: (e) => !!e?.isAxiosError,
    interceptors: lenient({}),
    defaults: {},
  });
  axios.default = axios;
  axios.__esModule = true;
  return axios;
}

// ---------------------------------------------------------------- URIs

export class Uri {
  constructor(scheme, path) {
    this.scheme = scheme;
    this.path = path;
    this.authority = this.query = this.fragment = "";
  }
  get fsPath() {
    return this.path;
  }
  toString() {
    return this.scheme === "file" ? "file://" + this.path : this.scheme + ":" + this.path;
  }
  with(c) {
    return new Uri(c.scheme ?? this.scheme, c.path ?? this.path);
  }
  static file(p) {
    return new Uri("file", p);
  }
  static parse(s) {
    const m = /^([a-z-]+):(\/\/)?(.*)$/s.exec(s);
    return m ? new Uri(m[1], m[3]) : new Uri("file", s);
  }
  static joinPath(u, ...p) {
    return new Uri(u.scheme, nodePath.posix.join(u.path, ...p));
  }
  static from(c) {
    return new Uri(c.scheme, c.path);
  }
}
