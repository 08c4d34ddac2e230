//! In-memory file system of the simulated machine, rooted at /sim.  It keeps apart what is in
//! the page cache and what has reached the disk, and injects I/O faults and crashes.
use crate::rt::{self, Quiet, Rng};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub const FD0: i32 = 1_000_000;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    /// "mut": counts operations that change the file system; "read": those that read it;
    /// "data": those that read it, without asking for metadata; "out": writes to the standard
    /// output and error streams; "thread": creation of threads.
    pub class: String,
    /// Fires at the nth matching operation (1-based).
    pub nth: u64,
    /// Only operations whose path contains this count.
    #[serde(default)]
    pub path: String,
    /// eio, enospc, eintr, eacces, short (partial transfer), kill (the process dies; what it
    /// wrote survives), power (only what was forced to disk surely survives), flip (a bit of
    /// what is read is flipped), stall (the operation takes `param` ns)
    pub act: String,
    /// Byte count for torn writes, bit for flips, seed of the crash image, ...
    #[serde(default)]
    pub param: u64,
    /// For how many further matching operations the fault stays (0: fires once).
    #[serde(default)]
    pub repeat: u64,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct FsPlan {
    pub faults: Vec<Fault>,
    /// Bytes that can still be written before the disk is full.
    pub disk_free: Option<u64>,
    /// Seed of the (arbitrary) order in which directories list their entries.
    pub readdir_seed: u64,
    /// The machine loses power right after the process ended normally.
    #[serde(default)]
    pub power_at_end: Option<u64>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Inode {
    pub dir: bool,
    pub data: Vec<u8>,
    pub synced: Option<Vec<u8>>,
    pub dirty: bool,
    pub mtime: u64,
}

#[derive(Clone, Debug)]
enum Meta {
    Link(String, u64),
    Unlink(String),
    Rename(String, String),
}

struct Open {
    ino: u64,
    path: String,
    pos: usize,
    append: bool,
    write: bool,
    used: bool,
}

#[derive(Default)]
pub struct MemFs {
    pub tree: BTreeMap<String, u64>,
    pub inodes: BTreeMap<u64, Inode>,
    durable: BTreeMap<String, u64>,
    journal: Vec<Meta>,
    next_ino: u64,
    open: Vec<Open>,
    pub plan: FsPlan,
    counts: Vec<u64>,
    pub n_mut: u64,
    pub n_read: u64,
    pub oplog: Vec<String>,
    pub fired: Vec<String>,
    pub log_on: bool,
    pub used_bytes: u64,
    pub readdir_n: u64,
    /// pid-level crash instead of machine-level crash
    pub multi: bool,
    /// Advisory locks: inode, holder's descriptor, holder's process, exclusive.
    locks: Vec<(u64, i32, u32, bool)>,
    /// log of (path, op) by mutation for the harness
    pub crash: Option<fn(power: bool, param: u64) -> !>,
}

static mut FS: *mut MemFs = std::ptr::null_mut();

#[allow(static_mut_refs)]
pub fn fs() -> &'static mut MemFs {
    unsafe {
        if FS.is_null() {
            FS = Box::into_raw(Box::new(MemFs::new()));
        }
        &mut *FS
    }
}
pub fn reset() {
    *fs() = MemFs::new();
}
pub fn install(f: MemFs) {
    *fs() = f;
}

pub fn is_sim(p: &str) -> bool {
    p == "/sim" || p.starts_with("/sim/")
}

pub fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}
fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".into(),
        Some(i) => p[..i].to_string(),
    }
}

type R<T> = Result<T, i32>;

impl MemFs {
    pub fn new() -> MemFs {
        let mut f = MemFs { next_ino: 2, log_on: true, ..Default::default() };
        f.inodes.insert(1, Inode { dir: true, ..Default::default() });
        f.tree.insert("/sim".into(), 1);
        f.durable = f.tree.clone();
        f
    }

    // ---- direct access for the harness (no faults, everything durable) ----
    pub fn put(&mut self, path: &str, data: &[u8]) {
        let p = norm(path);
        self.mkdirs(&parent(&p));
        let ino = match self.tree.get(&p) {
            Some(i) => *i,
            None => {
                let i = self.alloc(false);
                self.tree.insert(p, i);
                i
            }
        };
        let n = self.inodes.get_mut(&ino).unwrap();
        n.data = data.to_vec();
        n.synced = Some(data.to_vec());
        n.dirty = false;
        self.sync_all();
    }
    pub fn mkdirs(&mut self, path: &str) {
        let mut cur = String::new();
        for c in norm(path).split('/').filter(|c| !c.is_empty()) {
            cur = format!("{cur}/{c}");
            if !self.tree.contains_key(&cur) {
                let i = self.alloc(true);
                self.tree.insert(cur.clone(), i);
            }
        }
        self.durable = self.tree.clone();
        self.journal.clear();
    }
    pub fn get(&self, path: &str) -> Option<&Vec<u8>> {
        let i = self.tree.get(&norm(path))?;
        let n = &self.inodes[i];
        if n.dir { None } else { Some(&n.data) }
    }
    pub fn del(&mut self, path: &str) {
        let p = norm(path);
        let pre = format!("{p}/");
        self.tree.retain(|k, _| *k != p && !k.starts_with(&pre));
        self.sync_all();
    }
    pub fn exists(&self, path: &str) -> bool {
        self.tree.contains_key(&norm(path))
    }
    pub fn sync_all(&mut self) {
        for n in self.inodes.values_mut() {
            if n.dirty || n.synced.is_none() {
                n.synced = Some(n.data.clone());
                n.dirty = false;
            }
        }
        self.durable = self.tree.clone();
        self.journal.clear();
    }
    /// All regular files below `prefix`, as path -> content.
    pub fn files(&self, prefix: &str) -> BTreeMap<String, Vec<u8>> {
        let pre = format!("{}/", norm(prefix));
        self.tree
            .iter()
            .filter(|(k, i)| k.starts_with(&pre) && !self.inodes[i].dir)
            .map(|(k, i)| (k[pre.len()..].to_string(), self.inodes[i].data.clone()))
            .collect()
    }

    /// What a power loss may leave: a prefix of the unjournaled name changes, and for files
    /// never forced to disk any of several mixes of old and new content.
    pub fn power_image(&self, seed: u64) -> MemFs {
        let mut r = Rng::new(seed);
        let mut f = MemFs::new();
        f.inodes = self.inodes.clone();
        f.next_ino = self.next_ino;
        f.plan = FsPlan { readdir_seed: self.plan.readdir_seed, ..Default::default() };
        let mut tree = self.durable.clone();
        let k = match r.below(4) {
            0 => self.journal.len(),
            1 => 0,
            _ => r.below(self.journal.len() as u64 + 1) as usize,
        };
        for m in &self.journal[..k] {
            apply(&mut tree, m);
        }
        let style = r.below(5);
        for n in f.inodes.values_mut() {
            if n.dir || !n.dirty {
                continue;
            }
            let old = n.synced.clone().unwrap_or_default();
            let new = n.data.clone();
            let how = if style < 4 { style } else { r.below(4) };
            n.data = match how {
                0 => old,
                1 => new,
                2 => {
                    let l = r.below(new.len() as u64 + 1) as usize;
                    new[..l].to_vec()
                }
                _ => {
                    let l = r.below(new.len() as u64 + 1) as usize;
                    let mut d = new;
                    for b in &mut d[l..] {
                        *b = 0;
                    }
                    d
                }
            };
            n.synced = Some(n.data.clone());
            n.dirty = false;
        }
        f.tree = tree;
        f.sync_all();
        f
    }

    pub fn encode(&self) -> Vec<u8> {
        fn s(o: &mut Vec<u8>, b: &[u8]) {
            o.extend((b.len() as u32).to_le_bytes());
            o.extend(b);
        }
        let mut o = vec![];
        o.extend((self.tree.len() as u32).to_le_bytes());
        for (k, i) in &self.tree {
            let n = &self.inodes[i];
            s(&mut o, k.as_bytes());
            o.push(n.dir as u8);
            s(&mut o, &n.data);
        }
        o
    }
    pub fn decode(b: &[u8]) -> MemFs {
        let mut f = MemFs::new();
        let mut p = 4;
        let cnt = u32::from_le_bytes(b[0..4].try_into().unwrap());
        let mut take = |p: &mut usize| {
            let l = u32::from_le_bytes(b[*p..*p + 4].try_into().unwrap()) as usize;
            let r = b[*p + 4..*p + 4 + l].to_vec();
            *p += 4 + l;
            r
        };
        for _ in 0..cnt {
            let k = String::from_utf8(take(&mut p)).unwrap();
            let dir = b[p] == 1;
            p += 1;
            let d = take(&mut p);
            if dir {
                f.mkdirs(&k);
            } else {
                let i = f.alloc(false);
                f.inodes.get_mut(&i).unwrap().data = d;
                f.tree.insert(k, i);
            }
        }
        f.sync_all();
        f
    }

    fn alloc(&mut self, dir: bool) -> u64 {
        let i = self.next_ino;
        self.next_ino += 1;
        self.inodes.insert(i, Inode { dir, synced: None, ..Default::default() });
        i
    }
    fn meta(&mut self, m: Meta) {
        apply(&mut self.tree, &m);
        self.journal.push(m);
    }

    /// Counts an operation and says which fault, if any, hits it.
    fn fault(&mut self, class: &str, what: &str, path: &str) -> Option<Fault> {
        match class {
            "mut" => {
                self.n_mut += 1;
                if self.log_on {
                    let n = self.n_mut;
                    self.oplog.push(format!("{n} {what} {path}"));
                }
            }
            "out" | "thread" => {}
            _ => self.n_read += 1,
        }
        if self.counts.len() < self.plan.faults.len() {
            self.counts.resize(self.plan.faults.len(), 0);
        }
        let mut hit = None;
        for (i, f) in self.plan.faults.iter().enumerate() {
            let same = f.class == class || f.class == "data" && class == "read" && what != "stat";
            if same && (f.path.is_empty() || path.contains(&f.path)) {
                self.counts[i] += 1;
                let c = self.counts[i];
                if c >= f.nth && c <= f.nth + f.repeat && hit.is_none() {
                    hit = Some(f.clone());
                }
            }
        }
        if let Some(f) = &hit {
            self.fired.push(format!("{}:{}:{}", f.act, what, path));
            rt::note(&format!("FAULT {} at {} {}", f.act, what, path));
        }
        hit
    }

    fn die(&mut self, f: &Fault) {
        if self.multi && f.act != "power" {
            let pid = rt::my_pid();
            self.locks.retain(|l| l.2 != pid);
            rt::kill_pid(pid);
        } else {
            let c = self.crash.unwrap();
            c(f.act == "power", f.param);
        }
    }

    /// Applies an errno-style fault, or dies; Ok(()) means carry on.
    fn simple_fault(&mut self, class: &str, what: &str, path: &str) -> R<()> {
        if let Some(f) = self.fault(class, what, path) {
            match f.act.as_str() {
                "kill" | "power" => self.die(&f),
                "stall" => rt::advance(f.param),
                "short" | "para" | "flip" => {}
                a => return Err(errno(a)),
            }
        }
        Ok(())
    }
}

fn errno(a: &str) -> i32 {
    match a {
        "eio" => libc::EIO,
        "enospc" => libc::ENOSPC,
        "eintr" => libc::EINTR,
        "eacces" => libc::EACCES,
        "emfile" => libc::EMFILE,
        "enomem" => libc::ENOMEM,
        "erofs" => libc::EROFS,
        "epipe" => libc::EPIPE,
        "eagain" => libc::EAGAIN,
        _ => libc::EIO,
    }
}

fn apply(tree: &mut BTreeMap<String, u64>, m: &Meta) {
    match m {
        Meta::Link(p, i) => drop(tree.insert(p.clone(), *i)),
        Meta::Unlink(p) => drop(tree.remove(p)),
        Meta::Rename(a, b) => {
            let pre = format!("{a}/");
            let moved: Vec<(String, u64)> = tree
                .iter()
                .filter(|(k, _)| *k == a || k.starts_with(&pre))
                .map(|(k, i)| (k.clone(), *i))
                .collect();
            for (k, _) in &moved {
                tree.remove(k);
            }
            for (k, i) in moved {
                tree.insert(format!("{b}{}", &k[a.len()..]), i);
            }
        }
    }
}

pub struct Stat {
    pub ino: u64,
    pub dir: bool,
    pub size: u64,
    pub mtime: u64,
}

// ---- operations called by the interposed libc functions ----
fn enter() -> Quiet {
    rt::yield_point();
    Quiet::new()
}

fn wall() -> u64 {
    rt::now_mono() + 1_700_000_000_000_000_000
}

fn new_fd(f: &mut MemFs, o: Open) -> i32 {
    for (i, s) in f.open.iter_mut().enumerate() {
        if !s.used {
            *s = o;
            return FD0 + i as i32;
        }
    }
    f.open.push(o);
    FD0 + f.open.len() as i32 - 1
}

/// Does this write to a standard stream, or creation of a thread, fail?
pub fn other_fault(class: &str, what: &str) -> R<()> {
    if fs().plan.faults.iter().all(|f| f.class != class) {
        return Ok(());
    }
    let _q = Quiet::new();
    fs().simple_fault(class, what, "")
}

pub fn is_fd(fd: i32) -> bool {
    fd >= FD0 && fd < FD0 + 500_000
}

pub fn fd_path(fd: i32) -> Option<String> {
    let f = fs();
    let o = f.open.get((fd - FD0) as usize)?;
    if !o.used {
        return None;
    }
    // Follow renames of directories: look the inode up again.
    if f.tree.get(&o.path) == Some(&o.ino) {
        return Some(o.path.clone());
    }
    f.tree.iter().find(|(_, i)| **i == o.ino).map(|(k, _)| k.clone())
}

pub fn open(path: &str, flags: i32) -> R<i32> {
    let _q = enter();
    let f = fs();
    let p = norm(path);
    let writes = flags & (libc::O_WRONLY | libc::O_RDWR) != 0;
    let creat = flags & libc::O_CREAT != 0;
    let exists = f.tree.get(&p).copied();
    if creat && (exists.is_none() || flags & libc::O_TRUNC != 0) || (writes && flags & libc::O_TRUNC != 0) {
        f.simple_fault("mut", if exists.is_none() { "create" } else { "trunc" }, &p)?;
    } else {
        f.simple_fault("read", "open", &p)?;
    }
    rt::note(&format!("open {p} {flags:x}"));
    let ino = match exists {
        Some(i) => {
            if creat && flags & libc::O_EXCL != 0 {
                return Err(libc::EEXIST);
            }
            let n = f.inodes.get_mut(&i).unwrap();
            if n.dir && writes {
                return Err(libc::EISDIR);
            }
            if !n.dir && flags & libc::O_DIRECTORY != 0 {
                return Err(libc::ENOTDIR);
            }
            if flags & libc::O_TRUNC != 0 && !n.dir {
                if !n.data.is_empty() {
                    n.dirty = true;
                }
                f.used_bytes = f.used_bytes.saturating_sub(n.data.len() as u64);
                n.data.clear();
                n.mtime = wall();
            }
            i
        }
        None => {
            if !creat {
                return Err(path_err(f, &p));
            }
            let par = parent(&p);
            match f.tree.get(&par) {
                Some(i) if f.inodes[i].dir => {}
                Some(_) => return Err(libc::ENOTDIR),
                None => return Err(libc::ENOENT),
            }
            if f.plan.disk_free == Some(0) {
                f.fired.push(format!("full:create:{p}"));
                return Err(libc::ENOSPC);
            }
            let i = f.alloc(false);
            let n = f.inodes.get_mut(&i).unwrap();
            n.mtime = wall();
            n.synced = None;
            f.meta(Meta::Link(p.clone(), i));
            i
        }
    };
    Ok(new_fd(
        f,
        Open { ino, path: p, pos: 0, append: flags & libc::O_APPEND != 0, write: writes, used: true },
    ))
}

fn path_err(f: &MemFs, p: &str) -> i32 {
    // ENOTDIR when some prefix is a regular file.
    let mut cur = p.to_string();
    while cur.len() > 1 {
        cur = parent(&cur);
        if let Some(i) = f.tree.get(&cur) {
            return if f.inodes[i].dir { libc::ENOENT } else { libc::ENOTDIR };
        }
    }
    libc::ENOENT
}

fn ofd(fd: i32) -> R<&'static mut Open> {
    match fs().open.get_mut((fd - FD0) as usize) {
        Some(o) if o.used => Ok(o),
        _ => Err(libc::EBADF),
    }
}

pub fn read(fd: i32, buf: &mut [u8], at: Option<usize>) -> R<usize> {
    let _q = enter();
    let o = ofd(fd)?;
    let f = fs();
    let mut cap = buf.len();
    let mut flip = None;
    let mut para = None;
    if let Some(ft) = f.fault("read", "read", &o.path.clone()) {
        match ft.act.as_str() {
            "para" => para = Some(ft.param),
            "short" => cap = cap.min((ft.param as usize).max(1)),
            "flip" => flip = Some(ft.param),
            "kill" | "power" => f.die(&ft),
            "stall" => rt::advance(ft.param),
            a => return Err(errno(a)),
        }
    }
    let n = &f.inodes[&o.ino];
    if n.dir {
        return Err(libc::EISDIR);
    }
    let pos = at.unwrap_or(o.pos);
    let mut l = n.data.len().saturating_sub(pos).min(cap);
    if let Some(k) = para {
        // Stop after one of the blank lines (or else lines) of what is there.
        let d = &n.data[pos.min(n.data.len())..pos.min(n.data.len()) + l];
        let mut cuts: Vec<usize> = (2..d.len()).filter(|i| &d[i - 2..*i] == b"\n\n").collect();
        if cuts.is_empty() {
            cuts = (1..d.len()).filter(|i| d[i - 1] == b'\n').collect();
        }
        if !cuts.is_empty() {
            l = cuts[k as usize % cuts.len()];
        }
    }
    buf[..l].copy_from_slice(&n.data[pos.min(n.data.len())..pos.min(n.data.len()) + l]);
    if let (Some(b), true) = (flip, l > 0) {
        buf[(b / 8) as usize % l] ^= 1 << (b % 8);
    }
    if at.is_none() {
        o.pos += l;
    }
    Ok(l)
}

pub fn write(fd: i32, buf: &[u8], at: Option<usize>) -> R<usize> {
    let _q = enter();
    let o = ofd(fd)?;
    if !o.write {
        return Err(libc::EBADF);
    }
    let f = fs();
    let mut len = buf.len();
    let mut death = None;
    if let Some(ft) = f.fault("mut", "write", &o.path.clone()) {
        match ft.act.as_str() {
            "short" => len = len.min((ft.param as usize).max(1)),
            "kill" | "power" => {
                // Some prefix of this write makes it.
                len = (ft.param % (len as u64 + 1)) as usize;
                death = Some(ft);
            }
            "stall" => rt::advance(ft.param),
            "flip" => {}
            a => return Err(errno(a)),
        }
    }
    if let Some(free) = f.plan.disk_free {
        let free = free.saturating_sub(f.used_bytes) as usize;
        if free < len {
            f.fired.push(format!("full:write:{}", o.path));
            if free == 0 && len > 0 {
                return Err(libc::ENOSPC);
            }
            len = free;
        }
    }
    let n = f.inodes.get_mut(&o.ino).unwrap();
    let pos = at.unwrap_or(if o.append { n.data.len() } else { o.pos });
    if pos > n.data.len() {
        n.data.resize(pos, 0);
    }
    let end = pos + len;
    if end > n.data.len() {
        f.used_bytes += (end - n.data.len()) as u64;
        n.data.resize(end, 0);
    }
    n.data[pos..end].copy_from_slice(&buf[..len]);
    n.dirty = true;
    n.mtime = wall();
    if at.is_none() {
        o.pos = end;
    }
    rt::ev("write", len as u64, o.ino);
    if let Some(ft) = death {
        f.die(&ft);
    }
    Ok(len)
}

pub fn lseek(fd: i32, off: i64, whence: i32) -> R<i64> {
    let _q = Quiet::new();
    let o = ofd(fd)?;
    let base = match whence {
        libc::SEEK_SET => 0,
        libc::SEEK_CUR => o.pos as i64,
        libc::SEEK_END => fs().inodes[&o.ino].data.len() as i64,
        _ => return Err(libc::EINVAL),
    };
    if base + off < 0 {
        return Err(libc::EINVAL);
    }
    o.pos = (base + off) as usize;
    Ok(base + off)
}

pub fn close(fd: i32) -> R<()> {
    let _q = Quiet::new();
    let o = ofd(fd)?;
    o.used = false;
    fs().locks.retain(|l| l.1 != fd);
    Ok(())
}

/// Advisory whole-file locks.
pub fn flock(fd: i32, op: i32) -> R<()> {
    let ino = ofd(fd)?.ino;
    loop {
        {
            let _q = enter();
            let f = fs();
            f.locks.retain(|l| l.1 != fd);
            if op & libc::LOCK_UN != 0 {
                return Ok(());
            }
            let excl = op & libc::LOCK_EX != 0;
            if !f.locks.iter().any(|l| l.0 == ino && (excl || l.3)) {
                f.locks.push((ino, fd, rt::my_pid(), excl));
                return Ok(());
            }
        }
        if op & libc::LOCK_NB != 0 {
            return Err(libc::EWOULDBLOCK);
        }
        rt::sleep_ns(1_000_000);
    }
}

pub fn dup(fd: i32) -> R<i32> {
    let _q = Quiet::new();
    let o = ofd(fd)?;
    let c = Open { ino: o.ino, path: o.path.clone(), pos: o.pos, append: o.append, write: o.write, used: true };
    Ok(new_fd(fs(), c))
}

pub fn fsync(fd: i32) -> R<()> {
    let _q = enter();
    let o = ofd(fd)?;
    let f = fs();
    f.simple_fault("mut", "fsync", &o.path.clone())?;
    let n = f.inodes.get_mut(&o.ino).unwrap();
    n.synced = Some(n.data.clone());
    n.dirty = false;
    f.durable = f.tree.clone();
    f.journal.clear();
    Ok(())
}

pub fn ftruncate(fd: i32, len: i64) -> R<()> {
    let _q = enter();
    let o = ofd(fd)?;
    let f = fs();
    f.simple_fault("mut", "ftruncate", &o.path.clone())?;
    let n = f.inodes.get_mut(&o.ino).unwrap();
    n.data.resize(len as usize, 0);
    n.dirty = true;
    n.mtime = wall();
    Ok(())
}

fn st(i: u64, n: &Inode) -> Stat {
    Stat { ino: i, dir: n.dir, size: n.data.len() as u64, mtime: n.mtime }
}
pub fn stat(path: &str) -> R<Stat> {
    let _q = enter();
    let f = fs();
    let p = norm(path);
    f.simple_fault("read", "stat", &p)?;
    match f.tree.get(&p) {
        Some(i) => Ok(st(*i, &f.inodes[i])),
        None => Err(path_err(f, &p)),
    }
}
pub fn fstat(fd: i32) -> R<Stat> {
    let _q = Quiet::new();
    let o = ofd(fd)?;
    Ok(st(o.ino, &fs().inodes[&o.ino]))
}

pub fn mkdir(path: &str) -> R<()> {
    let _q = enter();
    let f = fs();
    let p = norm(path);
    if f.tree.contains_key(&p) {
        return Err(libc::EEXIST);
    }
    match f.tree.get(&parent(&p)) {
        Some(i) if f.inodes[i].dir => {}
        Some(_) => return Err(libc::ENOTDIR),
        None => return Err(path_err(f, &p)),
    }
    f.simple_fault("mut", "mkdir", &p)?;
    if f.plan.disk_free == Some(0) {
        return Err(libc::ENOSPC);
    }
    let i = f.alloc(true);
    f.meta(Meta::Link(p, i));
    Ok(())
}

pub fn unlink(path: &str, dir: bool) -> R<()> {
    let _q = enter();
    let f = fs();
    let p = norm(path);
    let Some(i) = f.tree.get(&p).copied() else { return Err(path_err(f, &p)) };
    let n = &f.inodes[&i];
    if n.dir && !dir {
        return Err(libc::EISDIR);
    }
    if !n.dir && dir {
        return Err(libc::ENOTDIR);
    }
    if n.dir {
        let pre = format!("{p}/");
        if f.tree.range(pre.clone()..).next().map_or(false, |(k, _)| k.starts_with(&pre)) {
            return Err(libc::ENOTEMPTY);
        }
    }
    let sz = n.data.len() as u64;
    f.simple_fault("mut", if dir { "rmdir" } else { "unlink" }, &p)?;
    f.used_bytes = f.used_bytes.saturating_sub(sz);
    f.meta(Meta::Unlink(p));
    Ok(())
}

pub fn rename(a: &str, b: &str) -> R<()> {
    let _q = enter();
    let f = fs();
    let (a, b) = (norm(a), norm(b));
    let Some(i) = f.tree.get(&a).copied() else { return Err(path_err(f, &a)) };
    match f.tree.get(&parent(&b)) {
        Some(p) if f.inodes[p].dir => {}
        Some(_) => return Err(libc::ENOTDIR),
        None => return Err(libc::ENOENT),
    }
    let adir = f.inodes[&i].dir;
    if let Some(j) = f.tree.get(&b) {
        let bdir = f.inodes[j].dir;
        if adir && !bdir {
            return Err(libc::ENOTDIR);
        }
        if !adir && bdir {
            return Err(libc::EISDIR);
        }
        if bdir {
            let pre = format!("{b}/");
            if f.tree.keys().any(|k| k.starts_with(&pre)) {
                return Err(libc::ENOTEMPTY);
            }
        }
    }
    f.simple_fault("mut", "rename", &b)?;
    if a != b {
        f.meta(Meta::Rename(a, b));
    }
    Ok(())
}

/// Directory listing, in an arbitrary but seeded order.
pub fn readdir(path: &str) -> R<Vec<(String, bool, u64)>> {
    let _q = enter();
    let f = fs();
    let p = norm(path);
    f.simple_fault("read", "readdir", &p)?;
    let Some(i) = f.tree.get(&p) else { return Err(path_err(f, &p)) };
    if !f.inodes[i].dir {
        return Err(libc::ENOTDIR);
    }
    let pre = format!("{p}/");
    let mut v: Vec<(String, bool, u64)> = f
        .tree
        .range(pre.clone()..)
        .take_while(|(k, _)| k.starts_with(&pre))
        .filter(|(k, _)| !k[pre.len()..].contains('/'))
        .map(|(k, i)| (k[pre.len()..].to_string(), f.inodes[i].dir, *i))
        .collect();
    f.readdir_n += 1;
    if f.plan.readdir_seed != 0 {
        let mut r = Rng::new(f.plan.readdir_seed ^ f.readdir_n);
        for k in (1..v.len()).rev() {
            v.swap(k, r.below(k as u64 + 1) as usize);
        }
    }
    Ok(v)
}

/// chmod, utimes, ...: accepted and ignored.
pub fn touch_meta(path: &str) -> R<()> {
    let _q = enter();
    let f = fs();
    let p = norm(path);
    f.simple_fault("mut", "chmeta", &p)?;
    if f.tree.contains_key(&p) { Ok(()) } else { Err(path_err(f, &p)) }
}
