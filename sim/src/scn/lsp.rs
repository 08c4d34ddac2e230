//! The language server: the real one, behind the real tower-lsp, talking framed JSON over an
//! in-memory pipe with a simulated editor.
use super::common::*;
use super::world::*;
use crate::fs::FsPlan;
use crate::harness::*;
use crate::lib_ac::{Edit, Library};
use crate::rt::{self, Rng};
use acorn::server::{AcornLanguageServer, ServerArgs};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

/// What the user of the editor does.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Edit(Edit),
    Open(usize),
    /// Saves the n-th of the changed documents.
    Save(usize),
    SaveAll,
    /// Saves a document that has no changes.
    SaveAgain(usize),
    Close(usize),
    Wait(u64),
    Ask { kind: u8, doc: usize, line: u32, ch: u32, wait: bool },
    /// Withdraws the last request, answered or not.
    Withdraw,
    /// Something a confused editor might send.
    Odd { kind: u8, doc: usize },
    /// What this server does nothing about, but editors send.
    Other { kind: u8, doc: usize },
    /// Puts the cursor on a claim and follows what the server says about it, as the extension
    /// does; `polls` answers at most.
    Follow { doc: usize, claim: usize, polls: u32 },
    Settle,
}

#[derive(Clone, Default)]
struct Doc {
    version: i32,
    text: String,
    saved_version: i32,
    saved_text: String,
    /// Text by version, as saved.
    versions: BTreeMap<i32, String>,
    open: bool,
    ever_saved: bool,
    /// Saved with changes since it was opened.
    known: bool,
}

#[derive(Default)]
pub struct Seen {
    /// path -> (version, diagnostics) last published
    pub pubs: BTreeMap<String, (Option<i32>, Vec<(u32, u32, bool, String)>)>,
    order: Vec<(String, Option<i32>)>,
    pub answers: BTreeMap<i64, Value>,
    pub log: Vec<String>,
    pub bad: Vec<(String, String)>,
    /// Versions of each document that a save announced.
    saved: BTreeMap<String, BTreeMap<i32, Vec<(u32, u32)>>>,
    pub n_pubs: u64,
}

/// The editor's way to the server.
pub enum Tx {
    Pipe(tokio::io::WriteHalf<tokio::io::DuplexStream>),
    Stdin,
}

pub struct Client {
    tx: Tx,
    seen: Arc<Mutex<Seen>>,
    next: i64,
    docs: BTreeMap<String, Doc>,
    lib: Library,
    saves: u64,
    closes: u64,
    /// Requests sent and not waited for.
    out: Vec<(i64, String)>,
    /// Asks about every claim when things have come to rest.
    curious: bool,
    /// Something that was saved since things were last at rest may not have loaded.
    shaky: bool,
}

fn uri(path: &str) -> String {
    format!("file://{ROOT}/src/{path}")
}

impl Client {
    pub fn new(tx: Tx, seen: Arc<Mutex<Seen>>, lib: Library) -> Client {
        Client { tx, seen, next: 0, docs: BTreeMap::new(), lib, saves: 0, closes: 0, out: vec![], curious: false, shaky: true }
    }
    /// A version of a document, about which there are no claims to compare, may be spoken of.
    pub fn saw_saved(&mut self, uri: &str, version: i32) {
        self.seen.lock().unwrap().saved.entry(uri.into()).or_default().insert(version, vec![]);
    }
    /// What the editor shows, by document.
    pub fn shown(&self) -> BTreeMap<String, Vec<(u32, u32, bool, String)>> {
        self.seen.lock().unwrap().pubs.iter().map(|(k, v)| (k.clone(), v.1.clone())).collect()
    }
    /// From the start of the server through everything the user does; how often things came to
    /// rest, and how many documents were saved.
    pub async fn live(&mut self, acts: &[Act], whole: u64, gone: impl Fn() -> bool) -> (u64, u64) {
        self.call("initialize", json!({"capabilities": {}, "rootUri": format!("file://{ROOT}")})).await;
        self.notify("initialized", json!({})).await;
        let mut r = Rng::new(whole);
        let mut settles = 0;
        self.shaky = self.lib.modules.iter().any(|m| self.lib.fails_to_load(m));
        self.curious = acts.iter().any(|a| matches!(a, Act::Follow { .. }));
        for a in acts {
            act(self, a, &mut r, &mut settles).await;
            if gone() {
                self.fail("server-gone", format!("the server stopped at {a:?}"));
                break;
            }
            if !self.seen.lock().unwrap().bad.is_empty() {
                break;
            }
        }
        (settles, self.saves)
    }
    async fn send(&mut self, v: Value) {
        let s = v.to_string();
        let m = format!("Content-Length: {}\r\n\r\n{}", s.len(), s);
        match &mut self.tx {
            Tx::Pipe(tx) => drop(tx.write_all(m.as_bytes()).await),
            Tx::Stdin => crate::interpose::feed_stdin(m.as_bytes()),
        }
    }
    pub async fn notify(&mut self, method: &str, params: Value) {
        self.seen.lock().unwrap().log.push(format!("-> {method} {}", brief(&params)));
        let mut v = json!({"jsonrpc": "2.0", "method": method});
        if !params.is_null() {
            v["params"] = params;
        }
        self.send(v).await;
    }
    pub async fn request(&mut self, method: &str, params: Value) -> i64 {
        self.next += 1;
        let id = self.next;
        self.seen.lock().unwrap().log.push(format!("-> {id} {method} {}", brief(&params)));
        let mut v = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if !params.is_null() {
            v["params"] = params;
        }
        self.send(v).await;
        id
    }
    /// Waits (in simulated time) for the answer to request `id`.
    pub async fn answer(&mut self, id: i64, limit_s: u64) -> Option<Value> {
        let mut waited = 0u64;
        let mut step = 1_000_000;
        loop {
            if let Some(v) = self.seen.lock().unwrap().answers.get(&id) {
                return Some(v.clone());
            }
            if waited > limit_s * 1_000_000_000 {
                return None;
            }
            tokio::time::sleep(std::time::Duration::from_nanos(step)).await;
            waited += step;
            step = (step * 2).min(200_000_000);
        }
    }
    pub async fn call(&mut self, method: &str, params: Value) -> Value {
        let id = self.request(method, params).await;
        match self.answer(id, 600).await {
            Some(v) => v,
            None => {
                self.fail("no-answer", format!("request {id} {method} was not answered within 600 simulated seconds"));
                Value::Null
            }
        }
    }
    pub fn fail(&mut self, k: &str, m: String) {
        self.seen.lock().unwrap().bad.push((k.into(), m));
    }
    fn on_disk(&self, path: &str) -> String {
        std::fs::read_to_string(format!("{ROOT}/src/{path}")).unwrap_or_default()
    }
    async fn open(&mut self, path: &str) {
        if self.docs.get(path).map_or(false, |d| d.open) {
            return;
        }
        let text = self.on_disk(path);
        let d = self.docs.entry(path.into()).or_default();
        d.version += 1;
        d.text = text.clone();
        d.saved_text = text.clone();
        d.saved_version = d.version;
        d.versions.insert(d.version, text.clone());
        d.open = true;
        d.known = false;
        let v = d.version;
        self.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri(path), "languageId": "acorn", "version": v, "text": text}})).await;
    }
    async fn change(&mut self, path: &str, new: &str, whole: bool) {
        self.open(path).await;
        let d = self.docs.get_mut(path).unwrap();
        if d.text == new {
            return;
        }
        let old = std::mem::replace(&mut d.text, new.to_string());
        d.version += 1;
        let v = d.version;
        let change = if whole {
            json!({ "text": new })
        } else {
            let a: Vec<&str> = old.split('\n').collect();
            let b: Vec<&str> = new.split('\n').collect();
            let mut p = 0;
            while p < a.len() - 1 && p < b.len() - 1 && a[p] == b[p] {
                p += 1;
            }
            let mut s = 0;
            while s < a.len() - p - 1 && s < b.len() - p - 1 && a[a.len() - 1 - s] == b[b.len() - 1 - s] {
                s += 1;
            }
            let end = a.len() - 1 - s;
            json!({"range": {"start": {"line": p, "character": 0}, "end": {"line": end, "character": a[end].len()}}, "text": b[p..b.len() - s].join("\n")})
        };
        self.notify("textDocument/didChange", json!({"textDocument": {"uri": uri(path), "version": v}, "contentChanges": [change]})).await;
    }
    async fn save(&mut self, path: &str) {
        let Some(d) = self.docs.get_mut(path) else { return };
        if !d.open {
            return;
        }
        let changed = d.saved_version != d.version;
        d.saved_version = d.version;
        d.saved_text = d.text.clone();
        d.versions.insert(d.version, d.text.clone());
        d.ever_saved |= changed;
        d.known |= changed;
        let (text, v) = (d.text.clone(), d.version);
        let full = format!("{ROOT}/src/{path}");
        if let Some(i) = full.rfind('/') {
            let _ = std::fs::create_dir_all(&full[..i]);
        }
        if std::fs::read_to_string(&full).ok().as_deref() != Some(&text[..]) {
            let _ = std::fs::write(&full, &text);
        }
        let ranges = goals_in(&self.lib, path, &text);
        self.seen.lock().unwrap().saved.entry(path.into()).or_default().insert(v, ranges);
        self.saves += changed as u64;
        self.shaky |= !self.dirty().is_empty() || self.lib.modules.iter().any(|m| self.lib.fails_to_load(m));
        self.notify("textDocument/didSave", json!({"textDocument": {"uri": uri(path)}, "text": text})).await;
    }
    async fn close(&mut self, path: &str) {
        let Some(d) = self.docs.get_mut(path) else { return };
        if !d.open {
            return;
        }
        d.open = false;
        self.closes += 1;
        d.text = d.saved_text.clone();
        self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri(path)}})).await;
    }
    fn dirty(&self) -> Vec<String> {
        self.docs.iter().filter(|(_, d)| d.open && d.version != d.saved_version).map(|(p, _)| p.clone()).collect()
    }
    fn opened(&self) -> Vec<String> {
        self.docs.iter().filter(|(_, d)| d.open).map(|(p, _)| p.clone()).collect()
    }
    async fn progress(&mut self) -> Value {
        let v = self.call("acorn/progress", json!({})).await;
        let r = &v["result"];
        if !v.is_null() && !r.is_object() {
            self.fail("progress-error", format!("progress request answered {v}"));
        }
        if r["done"].as_i64() > r["total"].as_i64() {
            self.fail("progress", format!("progress {} of {}", r["done"], r["total"]));
        }
        r.clone()
    }
    /// Saves everything and waits until the server is done with it.
    async fn settle(&mut self) -> Option<Value> {
        for p in self.dirty() {
            self.save(&p).await;
        }
        for (id, method) in std::mem::take(&mut self.out) {
            if self.answer(id, 600).await.is_none() {
                self.fail("no-answer", format!("request {id} {method} was not answered within 600 simulated seconds"));
                return None;
            }
        }
        if self.saves == 0 {
            return None;
        }
        // Once the saves have been taken in, what the server says must be about them.
        let acked = self.taken_in().await;
        let mut spent = 0u64;
        let mut p;
        loop {
            p = self.progress().await;
            if p["finished"] == json!(true) {
                break;
            }
            if spent > 1200 * 10 || self.seen.lock().unwrap().bad.iter().any(|b| b.0 == "no-answer") {
                self.fail("never-done", format!("1200 simulated seconds after the last save the build is not finished: {p}"));
                return None;
            }
            tokio::time::sleep(std::time::Duration::from_millis(100)).await;
            spent += 1;
        }
        let first = (p, self.seen.lock().unwrap().pubs.clone());
        tokio::time::sleep(std::time::Duration::from_secs(2)).await;
        let doc = self.opened().first().cloned();
        if let Some(doc) = doc {
            let v = self.docs[&doc].version;
            let mut n = 0;
            loop {
                let a = self.call("acorn/selection", json!({"uri": uri(&doc), "version": v, "selectedLine": 0, "id": 1})).await;
                if a["result"]["building"] != json!(true) {
                    break;
                }
                n += 1;
                if n > 600 {
                    self.fail("building-forever", format!("600 simulated seconds after the build finished the server still says that it is building: {}", a["result"]));
                    break;
                }
                tokio::time::sleep(std::time::Duration::from_secs(1)).await;
            }
        }
        let last = self.progress().await;
        if acked && (&first.0 != &last) {
            self.fail("finished-early", format!("the server said that it had finished, with {}, and later {last}", first.0));
        }
        let changed: Vec<String> = {
            let now = &self.seen.lock().unwrap().pubs;
            now.iter().filter(|(k, v)| first.1.get(*k) != Some(v)).map(|(k, v)| format!("{k}: {:?}, then {v:?}", first.1.get(k))).collect()
        };
        if acked && !changed.is_empty() {
            self.fail("finished-early", format!("what the editor shows changed after the server had said that it had finished: {}", changed.join("; ")));
        }
        Some(last)
    }
    /// Waits until the server has the last saved text of every document it has.
    async fn taken_in(&mut self) -> bool {
        for p in self.opened() {
            let d = &self.docs[&p];
            if !d.ever_saved {
                continue;
            }
            let v = d.version;
            let mut n = 0;
            loop {
                let a = self.call("acorn/selection", json!({"uri": uri(&p), "version": v, "selectedLine": 0, "id": 2})).await;
                if a["result"]["loading"] != json!(true) {
                    break;
                }
                n += 1;
                if n > 600 {
                    return false;
                }
                tokio::time::sleep(std::time::Duration::from_millis(100)).await;
            }
        }
        // (Nothing tells when a document that was closed is taken in.)
        tokio::time::sleep(std::time::Duration::from_millis(if self.closes > 0 { 5000 } else { 100 })).await;
        self.closes = 0;
        true
    }
    /// Whether the server has to know about the claims of `path`, as saved.
    fn answerable(&self, path: &str) -> bool {
        let Some(d) = self.docs.get(path) else { return false };
        let Some(m) = self.lib.modules.iter().find(|m| Library::path(&m.name) == path) else { return false };
        let mut all = self.lib.deps(&m.name);
        all.push(m.name.clone());
        let ready = all.iter().all(|n| {
            let x = self.lib.module(n);
            x.map_or(true, |x| !self.lib.fails_to_load(x)) && self.docs.get(&Library::path(n)).map_or(true, |d| !d.open || d.version == d.saved_version)
        });
        let ready = ready && !self.shaky;
        d.open && d.known && ready && !m.iface && !m.drift
    }
    /// The cursor is on `claim`: asks about it as the extension does, until there is an answer.
    async fn follow(&mut self, path: &str, claim: (u32, u32), polls: u32) -> Option<Value> {
        let Some(d) = self.docs.get(path).filter(|d| d.open) else { return None };
        let (v, clean) = (d.version, d.version == d.saved_version);
        let mut waited = 0;
        for _ in 0..polls {
            let a = self.call("acorn/selection", json!({"uri": uri(path), "version": v, "selectedLine": claim.0, "id": 9})).await;
            let a = &a["result"];
            if a.is_null() {
                return None;
            }
            let at = format!("the claim at lines {claim:?} of version {v} of {path}");
            let goals = a["goals"].as_array().map_or(0, |g| g.len());
            if goals > 0 && !clean {
                self.fail("stale-goals", format!("asked about {at}, which has not been saved yet, the server answers with {}", brief(a)));
                return None;
            }
            let range = (a["goalRange"]["start"]["line"].as_u64().unwrap_or(9999) as u32, a["goalRange"]["end"]["line"].as_u64().unwrap_or(0) as u32);
            if goals > 0 && (range.0 > claim.1 || range.1 < claim.0) {
                self.fail("wrong-goal", format!("asked about {at}, the server answers with {}", brief(a)));
                return None;
            }
            if !a["failure"].is_null() {
                if self.answerable(path) {
                    self.fail("goal-lost", format!("asked about {at}, which is saved and loads, the server answers with {}", brief(a)));
                }
                return None;
            }
            let loading = a["loading"] == json!(true);
            if !loading && goals == 0 {
                if self.answerable(path) {
                    self.fail("goal-lost", format!("asked about {at}, which is saved and loads, the server answers with {}", brief(a)));
                }
                return None;
            }
            if !loading && a["building"] != json!(true) {
                return Some(a.clone());
            }
            if !clean {
                return None;
            }
            if waited > 1_800_000 {
                let m = format!("1800 simulated seconds after {at} was saved the server still answers with {}", brief(a));
                self.fail("loading-forever", m);
                return None;
            }
            let ms = if loading { 50 } else { 1000 };
            waited += ms;
            tokio::time::sleep(std::time::Duration::from_millis(ms)).await;
        }
        None
    }
    /// At rest, the assistant knows all about the saved documents.
    async fn ask_all(&mut self, r: &mut Rng) {
        let up = unprovable(&self.lib);
        let lib = self.lib.clone();
        // (While a module does not load, a build that has to do with it verifies nothing.)
        let broken = lib.modules.iter().any(|m| lib.fails_to_load(m));
        for m in &lib.modules {
            let path = Library::path(&m.name);
            if !self.answerable(&path) {
                continue;
            }
            let mut all = lib.deps(&m.name);
            all.push(m.name.clone());
            let clean = all.iter().all(|n| lib.module(n).map_or(true, |x| lib.render(x).1.iter().all(|g| g.truth)));
            let goals = lib.render(m).1;
            for g in goals.iter().filter(|_| r.chance(0.6)) {
                let Some(a) = self.follow(&path, g.lines, 100_000).await else { continue };
                let gs = a["goals"].as_array().unwrap();
                let proved = gs.iter().filter(|x| x["hasCachedProof"] == json!(true)).count();
                if clean && !broken && proved < gs.len() {
                    self.fail("no-proof", format!("{} and what it needs is verified, but the server has no proof for claim {} (lines {:?}): {}", m.name, g.name, g.lines, brief(&a)));
                }
                let start = a["goalRange"]["start"]["line"].as_u64().unwrap_or(0) as u32;
                let end = a["goalRange"]["end"]["line"].as_u64().unwrap_or(0) as u32;
                let this = gs.len() == 1 && start >= g.lines.0 && end <= g.lines.1;
                if this && proved > 0 && up.iter().any(|u| u.module == m.name && u.name == g.name && u.lines == g.lines) {
                    self.fail("false-proof", format!("claim {} of {} (lines {:?}) is false, but the server says that it has a proof: {}", g.name, m.name, g.lines, brief(&a)));
                }
                if gs.len() == 1 && proved > 0 && gs[0]["steps"].is_null() {
                    self.fail("no-proof", format!("claim {} of {} has a proof without steps: {}", g.name, m.name, brief(&a)));
                }
            }
        }
    }
    /// With everything saved and nothing going on, the editor must be showing the truth.
    fn judge(&mut self, progress: &Value) {
        let _q = rt::Quiet::new();
        let lib = self.lib.clone();
        let any_broken = lib.modules.iter().any(|m| lib.fails_to_load(m));
        let up = unprovable(&lib);
        let mut bad = vec![];
        let seen = self.seen.lock().unwrap();
        for m in &lib.modules {
            if m.iface || m.drift {
                continue;
            }
            let path = Library::path(&m.name);
            let empty = (None, vec![]);
            let (ver, diags) = seen.pubs.get(&path).unwrap_or(&empty);
            let doc = self.docs.get(&path);
            let open = doc.map_or(false, |d| d.open && d.ever_saved);
            let mut all = lib.deps(&m.name);
            all.push(m.name.clone());
            let clean = all.iter().all(|n| {
                lib.module(n).map_or(true, |x| !lib.fails_to_load(x) && lib.render(x).1.iter().all(|g| g.truth))
            });
            if clean && !diags.is_empty() {
                bad.push(("false-complaint", format!("every claim of {} holds but the editor shows {:?} (version {ver:?}, open {open})", m.name, diags)));
            }
            // (An import of a module that does not load is complained about in that module.)
            let own = !lib.deps(&m.name).iter().any(|n| lib.module(n).map_or(false, |x| lib.fails_to_load(x)));
            if open && own && lib.broken(m) && !diags.iter().any(|d| d.2) {
                bad.push(("missing-error", format!("{} does not load but the editor shows {:?}", m.name, diags)));
            }
            if open && !any_broken {
                for g in up.iter().filter(|g| g.module == m.name) {
                    if !diags.iter().any(|d| d.0 <= g.lines.1 && d.1 >= g.lines.0) {
                        bad.push(("missing-complaint", format!("claim {} of {} (lines {:?}) is false but the editor shows {:?}", g.name, m.name, g.lines, diags)));
                    }
                }
            }
            let shown: Vec<(u32, u32)> = serde_json::from_value(progress["docs"][uri(&path)]["verified"].clone()).unwrap_or_default();
            for d in diags.iter().filter(|d| open && d.3.contains("could not be verified")) {
                if let Some(v) = shown.iter().find(|v| v.0 <= d.1 && v.1 >= d.0) {
                    bad.push(("verified-complaint", format!("lines {v:?} of {} are shown as verified, and so is the complaint {d:?}", m.name)));
                }
            }
            if let Some((v, x)) = shown.iter().enumerate().flat_map(|(i, v)| shown[i + 1..].iter().map(move |x| (v, x))).find(|(v, x)| v.0 >= x.0 && v.1 <= x.1) {
                bad.push(("verified-twice", format!("lines {v:?} and {x:?} of {} are both shown as verified", m.name)));
            }
            for g in up.iter().filter(|g| g.module == m.name) {
                if shown.contains(&g.lines) {
                    bad.push(("false-verified", format!("claim {} of {} (lines {:?}) is false but shown as verified", g.name, m.name, g.lines)));
                }
            }
        }
        drop(seen);
        for (k, m) in bad {
            self.fail(k, m);
        }
    }
}

/// Line ranges of the claims in `text`, if it is what the model has for this path.
fn goals_in(lib: &Library, path: &str, text: &str) -> Vec<(u32, u32)> {
    lib.modules
        .iter()
        .filter(|m| Library::path(&m.name) == path)
        .map(|m| lib.render(m))
        .filter(|(t, _)| t == text)
        .flat_map(|(_, g)| g.into_iter().map(|g| g.lines))
        .collect()
}

fn brief(v: &Value) -> String {
    let s = v.to_string();
    s.chars().take(300).collect()
}

async fn reader(mut rx: tokio::io::ReadHalf<tokio::io::DuplexStream>, seen: Arc<Mutex<Seen>>) {
    let mut buf: Vec<u8> = vec![];
    let mut chunk = [0u8; 4096];
    loop {
        let n = match rx.read(&mut chunk).await {
            Ok(0) | Err(_) => return,
            Ok(n) => n,
        };
        buf.extend_from_slice(&chunk[..n]);
        take_frames(&mut buf, &seen);
    }
}

/// Takes whole messages off the front; anything else is not what an editor can read.
pub fn take_frames(buf: &mut Vec<u8>, seen: &Arc<Mutex<Seen>>) {
    let garbled = |what: String, buf: &mut Vec<u8>| {
        let start = String::from_utf8_lossy(&buf[..buf.len().min(200)]).into_owned();
        seen.lock().unwrap().bad.push(("garbled".into(), format!("{what}: {start:?}")));
        buf.clear();
    };
    loop {
        let Some(h) = buf.windows(4).position(|w| w == b"\r\n\r\n") else {
            let k = buf.len().min(15);
            if buf[..k] != b"Content-Length:"[..k] || buf.len() > 200 {
                garbled("this is not the header of a message".into(), buf);
            }
            return;
        };
        let head = String::from_utf8_lossy(&buf[..h]).into_owned();
        let len: Option<usize> = head.strip_prefix("Content-Length:").and_then(|s| s.split("\r\n").next().unwrap().trim().parse().ok());
        let Some(len) = len else { return garbled("this is not the header of a message".into(), buf) };
        if buf.len() < h + 4 + len {
            return;
        }
        match serde_json::from_slice::<Value>(&buf[h + 4..h + 4 + len]) {
            Ok(v) => {
                buf.drain(..h + 4 + len);
                on_message(v, seen);
            }
            Err(e) => return garbled(format!("this message is not JSON ({e})"), buf),
        }
    }
}

fn on_message(v: Value, seen: &Arc<Mutex<Seen>>) {
    let mut s = seen.lock().unwrap();
    s.log.push(format!("<- {}", brief(&v)));
    if v["method"] == json!("textDocument/publishDiagnostics") {
        let u = v["params"]["uri"].as_str().unwrap_or("").to_string();
        let path = u.strip_prefix(&format!("file://{ROOT}/src/")).unwrap_or(&u).to_string();
        let version = v["params"]["version"].as_i64().map(|x| x as i32);
        let diags: Vec<(u32, u32, bool, String)> = v["params"]["diagnostics"]
            .as_array()
            .map(|a| {
                a.iter()
                    .map(|d| {
                        (
                            d["range"]["start"]["line"].as_u64().unwrap_or(0) as u32,
                            d["range"]["end"]["line"].as_u64().unwrap_or(0) as u32,
                            d["severity"] == json!(1),
                            d["message"].as_str().unwrap_or("").to_string(),
                        )
                    })
                    .collect()
            })
            .unwrap_or_default();
        s.n_pubs += 1;
        if let Some(ver) = version {
            let known = s.saved.get(&path).map_or(false, |m| m.contains_key(&ver));
            if !known {
                let m = format!("diagnostics of {path} for version {ver}, which was never saved (saved: {:?})", s.saved.get(&path).map(|m| m.keys().collect::<Vec<_>>()));
                s.bad.push(("unknown-version".into(), m));
            } else {
                let goals = s.saved[&path][&ver].clone();
                for d in &diags {
                    if d.3.contains("could not be verified") && !goals.is_empty() && !goals.iter().any(|g| d.0 <= g.1 && d.1 >= g.0) {
                        let m = format!("complaint {d:?} about {path} version {ver}, which has no claim there (claims {goals:?})");
                        s.bad.push(("misplaced".into(), m));
                    }
                }
            }
            let last = s.order.iter().rev().find(|o| o.0 == path && o.1.is_some()).and_then(|o| o.1);
            if last.map_or(false, |l| l > ver) {
                let m = format!("diagnostics of {path} for version {ver} after some for version {last:?}");
                s.bad.push(("stale".into(), m));
            }
        }
        s.order.push((path.clone(), version));
        s.pubs.insert(path, (version, diags));
    } else if let Some(id) = v["id"].as_i64() {
        if v.get("method").is_none() {
            s.answers.insert(id, v);
        }
    }
}

/// One life of the server; returns what went wrong, and what happened.
pub fn session(lib: Library, acts: Vec<Act>, workers: usize, whole: u64) -> Value {
    let seen = Arc::new(Mutex::new(Seen::default()));
    let rtm = tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_time().thread_stack_size(32 << 20).build().unwrap();
    let s2 = seen.clone();
    let last = rtm.block_on(async move {
        let (mine, theirs) = tokio::io::duplex(1 << 16);
        let (srx, stx) = tokio::io::split(theirs);
        let (crx, ctx) = tokio::io::split(mine);
        let args = ServerArgs { workspace_root: Some(ROOT.into()), acornlib_cache_dir: Some("/sim/cache".into()) };
        let (service, socket) = tower_lsp::LspService::build(move |client| AcornLanguageServer::new(Arc::new(client), &args).unwrap_or_else(|e| panic!("server setup: {e}")))
            .custom_method("acorn/progress", AcornLanguageServer::handle_progress_request)
            .custom_method("acorn/selection", AcornLanguageServer::handle_selection_request)
            .finish();
        let server = tokio::spawn(async move { tower_lsp::Server::new(srx, stx, socket).serve(service).await });
        tokio::spawn(reader(crx, s2.clone()));
        let mut c = Client::new(Tx::Pipe(ctx), s2, lib);
        let (settles, _) = c.live(&acts, whole, || server.is_finished()).await;
        if !server.is_finished() {
            c.call("shutdown", Value::Null).await;
            c.notify("exit", Value::Null).await;
        }
        json!({"settles": settles, "saves": c.saves})
    });
    rtm.shutdown_timeout(std::time::Duration::from_secs(5));
    let s = seen.lock().unwrap();
    json!({"bad": s.bad, "log": s.log, "pubs": s.n_pubs, "settles": last["settles"], "saves": last["saves"]})
}

async fn act(c: &mut Client, a: &Act, r: &mut Rng, settles: &mut u64) {
    let path_of = |c: &Client, n: usize| -> Option<String> {
        let m = &c.lib.modules;
        if m.is_empty() { None } else { Some(Library::path(&m[n % m.len()].name)) }
    };
    match a {
        Act::Edit(e) => {
            let before = c.lib.files();
            c.lib.apply(e);
            let after = c.lib.files();
            for (p, t) in &after {
                if before.get(p) != Some(t) {
                    let whole = r.chance(0.3);
                    c.change(p, t, whole).await;
                }
            }
        }
        Act::Open(n) => {
            if let Some(p) = path_of(c, *n) {
                c.open(&p).await
            }
        }
        Act::Save(n) => {
            let d = c.dirty();
            if !d.is_empty() {
                c.save(&d[n % d.len()]).await;
            }
        }
        Act::SaveAll => {
            for p in c.dirty() {
                c.save(&p).await;
            }
        }
        Act::SaveAgain(n) => {
            let d: Vec<String> = c.opened().into_iter().filter(|p| !c.dirty().contains(p)).collect();
            if !d.is_empty() {
                let p = d[n % d.len()].clone();
                c.save(&p).await;
            }
        }
        Act::Close(n) => {
            // The editor asks to save changes first.
            let o = c.opened();
            if !o.is_empty() {
                let p = o[n % o.len()].clone();
                c.save(&p).await;
                c.close(&p).await;
            }
        }
        Act::Wait(ns) => tokio::time::sleep(std::time::Duration::from_nanos(*ns)).await,
        Act::Withdraw => {
            let id = c.next;
            c.notify("$/cancelRequest", json!({ "id": id })).await
        }
        Act::Ask { kind, doc, line, ch, wait } => {
            let o = c.opened();
            if o.is_empty() {
                return;
            }
            let p = o[doc % o.len()].clone();
            let v = c.docs[&p].version;
            let at = json!({"textDocument": {"uri": uri(&p)}, "position": {"line": line, "character": ch}});
            let (method, params) = match kind % 5 {
                0 => ("textDocument/hover", at),
                1 => ("textDocument/completion", at),
                2 => ("textDocument/definition", at),
                3 => ("acorn/selection", json!({"uri": uri(&p), "version": v, "selectedLine": line, "id": 7})),
                _ => ("acorn/progress", json!({})),
            };
            if *wait {
                c.call(method, params).await;
            } else {
                let id = c.request(method, params).await;
                c.out.push((id, method.into()));
            }
        }
        Act::Odd { kind, doc } => {
            let o = c.opened();
            let p = o.get(doc % o.len().max(1)).cloned().unwrap_or("nowhere.ac".into());
            match kind % 6 {
                0 => c.notify("textDocument/didSave", json!({"textDocument": {"uri": uri(&p)}})).await,
                1 => c.notify("textDocument/didSave", json!({"textDocument": {"uri": uri("never/opened.ac")}, "text": "x"})).await,
                2 => c.notify("textDocument/didChange", json!({"textDocument": {"uri": uri("never/opened.ac"), "version": 9}, "contentChanges": [{"text": "y"}]})).await,
                3 => c.notify("textDocument/didClose", json!({"textDocument": {"uri": uri("never/opened.ac")}})).await,
                4 => drop(c.call("acorn/selection", json!({"uri": uri(&p), "version": 100000, "selectedLine": 4_000_000_000u32, "id": 7})).await),
                _ => drop(c.call("textDocument/hover", json!({"textDocument": {"uri": "untitled:Untitled-1"}, "position": {"line": 3, "character": 4}})).await),
            }
        }
        Act::Other { kind, doc } => {
            let o = c.opened();
            let p = o.get(doc % o.len().max(1)).cloned().unwrap_or("nowhere.ac".into());
            match kind % 6 {
                0 => c.notify("workspace/didChangeConfiguration", json!({"settings": {"acornprover": {}}})).await,
                1 => c.notify("workspace/didChangeWatchedFiles", json!({"changes": [{"uri": uri(&p), "type": 2}]})).await,
                2 => c.notify("textDocument/willSave", json!({"textDocument": {"uri": uri(&p)}, "reason": 1})).await,
                3 => c.notify("$/setTrace", json!({"value": "off"})).await,
                4 => drop(c.call("textDocument/documentSymbol", json!({"textDocument": {"uri": uri(&p)}})).await),
                _ => drop(c.call("acorn/nothing", json!({})).await),
            }
        }
        Act::Follow { doc, claim, polls } => {
            let o = c.opened();
            if o.is_empty() {
                return;
            }
            let p = o[doc % o.len()].clone();
            let g = goals_in(&c.lib, &p, &c.docs[&p].text);
            if !g.is_empty() {
                c.follow(&p, g[claim % g.len()], *polls).await;
            }
        }
        Act::Settle => {
            if let Some(p) = c.settle().await {
                *settles += 1;
                c.judge(&p);
                c.shaky = c.lib.modules.iter().any(|m| c.lib.fails_to_load(m));
                if c.curious {
                    c.ask_all(r).await;
                }
            }
        }
    }
}

pub fn acts_of(r: &mut Rng, l: &mut Library, wild: bool) -> Vec<Act> {
    let mut acts = vec![];
    let editable = |e: &Edit, l: &Library| -> bool {
        // The editor edits and adds files here; it removes none.
        let before = l.files();
        let mut l = l.clone();
        if !l.apply(e) {
            return false;
        }
        let after = l.files();
        before.keys().all(|k| after.contains_key(k))
    };
    for _ in 0..r.range(1, 3) {
        for _ in 0..r.range(1, if wild { 8 } else { 5 }) {
            if wild && r.chance(0.4) {
                // A burst of what editors ask while somebody types.
                let doc = r.below(8) as usize;
                for _ in 0..r.range(1, 4) {
                    acts.push(Act::Ask { kind: *r.pick(&[0, 1, 1, 2, 3]), doc, line: r.below(30) as u32, ch: r.below(20) as u32, wait: false });
                    if r.chance(0.1) {
                        acts.push(Act::Withdraw);
                    }
                }
            }
            match r.below(if wild { 14 } else { 11 }) {
                0..=4 => {
                    let e = l.random_edit(r);
                    if editable(&e, l) {
                        l.apply(&e);
                        acts.push(Act::Edit(e));
                        match r.below(4) {
                            0 => {}
                            1 => acts.push(Act::Save(r.below(8) as usize)),
                            _ => acts.push(Act::SaveAll),
                        }
                    }
                }
                5 => acts.push(Act::Open(r.below(8) as usize)),
                6 => acts.push(Act::Save(r.below(8) as usize)),
                7 => acts.push(Act::Wait(r.log_range(1, 20_000_000_000))),
                8 => acts.push(Act::Wait(r.log_range(1, 50_000_000))),
                9 => acts.push(Act::Ask { kind: r.below(5) as u8, doc: r.below(8) as usize, line: r.below(30) as u32, ch: r.below(20) as u32, wait: r.chance(0.3) }),
                10 => acts.push(if r.chance(0.5) { Act::Close(r.below(8) as usize) } else { Act::SaveAgain(r.below(8) as usize) }),
                _ => acts.push(Act::Odd { kind: r.below(6) as u8, doc: r.below(8) as usize }),
            }
        }
        acts.push(Act::Settle);
    }
    acts
}

pub const REAL_LSP: &str = "the language server (AcornLanguageServer, project manager, live documents) behind the real tower-lsp service and JSON framing, on the real tokio multi-threaded runtime; project, loader, builder, prover, build cache: all of /repo's library as built from the working tree";

pub struct Lsp(pub &'static str);

impl Scenario for Lsp {
    fn property(&self) -> &'static str {
        self.0
    }
    fn rule(&self) -> &'static str {
        match self.0 {
            "P09" => "a run is a session of an editor with the language server on a random project (perhaps verified before): documents are opened, changed, saved, closed and asked about, with random pauses and thread interleavings; whenever everything is saved and the server says it is finished, what was last published for every document must be the truth about the saved text, and a verify from the command line afterwards must agree with the model; non-trivial when builds were overtaken by later saves",
 "P28" => "as P09, with a cursor: at random moments, mostly just after a save, the selection on a claim of a document is asked for as the extension asks, again while the server is loading or building; a document that is saved and loads is answered with the goals of that claim, an unsaved version never with goals of another text, and at rest every claim has its proof, a false one none; non-trivial when builds were overtaken or more than one document was published",
            "P10" => "as P09, with saves in quick succession; every publication must be for a version that was saved, never older than an earlier one for the same document, with complaints that fit that version's text, and progress never exceeds its total",
            _ => "as P09, with requests and notifications at any time, odd ones among them (unknown or untitled documents, no text, far-off positions); every request must be answered, the server must not stop, and every build must finish and be reported as finished within bounded simulated time",
        }
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 8000 } else if self.0 == "P28" { 200 } else { 150 }
    }
    fn real_components(&self) -> &'static str {
        REAL_LSP
    }
    fn shrink_keys(&self) -> &'static [&'static str] {
        &["acts", "faults", "jumps"]
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 4);
        let wrong = *r.pick(if self.0 == "P10" { &[0.0, 0.0, 0.1, 0.25] } else { &[0.0, 0.0, 0.0, 0.1] });
        let lib = Library::random(&mut r, n, wrong);
        let mut l = lib.clone();
        let mut acts = acts_of(&mut r, &mut l, self.0 == "P11");
        if self.0 == "P10" {
            acts.retain(|a| !matches!(a, Act::Wait(n) if *n > 1_000_000));
        }
        if self.0 == "P28" {
            let mut with = vec![];
            for a in acts {
                let p = match a {
                    Act::Save(_) | Act::SaveAll | Act::SaveAgain(_) => 0.7,
                    Act::Settle => 0.0,
                    _ => 0.3,
                };
                with.push(a);
                while r.chance(p) {
                    with.push(Act::Follow { doc: r.below(8) as usize, claim: r.below(20) as usize, polls: *r.pick(&[1, 1, 1, 2, 4, 100_000]) });
                    if r.chance(0.4) {
                        with.push(Act::Wait(r.log_range(1, 50_000_000)));
                    }
                }
            }
            acts = with;
        }
        let pre = r.chance(0.4);
        let workers = r.range(1, 4);
        let whole = r.next() >> 1;
        plan_of(&mut r, &lib, vec![], 5, json!({"acts": acts, "pre": pre, "workers": workers, "whole": whole, "jobs": [1, 2, 1]}))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        if plan["pre"] == json!(true) {
            let (_, o) = w.run(extra(plan, 4), &Req { handcrafted: false, ..Req::verify(1) }, &FsPlan::default());
            if o.is_none() {
                return w.finish(None);
            }
        }
        let acts: Vec<Act> = serde_json::from_value(plan["acts"].clone()).unwrap();
        let workers = plan["workers"].as_u64().unwrap() as usize;
        let whole = plan["whole"].as_u64().unwrap();
        let slot = extra(plan, 3);
        let lib = w.lib.clone();
        let a2 = acts.clone();
        let mut p = phase(copy(&w.fs), &FsPlan::default(), true, &w.sched(slot), move || session(lib, a2, workers, whole));
        w.rep.add(slot, &p);
        if let Some((k, m)) = bad_end(&p) {
            w.fail(&k, format!("{m} (language server session)"));
        }
        let Some(v) = p.done().cloned() else { return w.finish(None) };
        if std::env::var_os("SIM_SHOW").is_some() {
            println!("{}", p.text);
            for l in v["log"].as_array().unwrap() {
                println!("{}", l.as_str().unwrap());
            }
            println!("{}", v["bad"]);
        }
        w.rep.nontrivial = p.text.contains("project changed") || v["pubs"].as_u64() > Some(1);
        for (t, k) in [("project changed before reload", "save overtaken before reload"), ("project changed after reload", "save overtaken after reload"), ("newer progress generation", "newer generation"), ("project changed during build", "save during build")] {
            if p.text.contains(t) {
                w.rep.probe(k);
            }
        }
        if p.text.contains("panicked at") {
            let at = p.text.find("panicked at").unwrap();
            let m: String = p.text[at..].chars().take(300).collect();
            w.fail("panic", m);
        }
        for _ in 0..v["settles"].as_u64().unwrap() {
            w.rep.probe("settled and judged");
        }
        let mine = |k: &str| -> bool {
            match self.0 {
                "P10" => ["unknown-version", "misplaced", "stale", "progress", "false-verified", "verified-complaint", "verified-twice"].contains(&k),
                "P28" => ["goal-lost", "stale-goals", "wrong-goal", "loading-forever", "no-proof", "false-proof"].contains(&k),
                "P11" => ["no-answer", "never-done", "server-gone", "building-forever", "progress-error"].contains(&k),
                _ => true,
            }
        };
        for b in v["bad"].as_array().unwrap() {
            let k = b[0].as_str().unwrap();
            if mine(k) {
                w.fail(k, b[1].as_str().unwrap().into());
            }
        }
        if w.failed() || self.0 != "P09" {
            return w.finish(None);
        }
        // What the session left on disk serves the command line.
        for a in &acts {
            if let Act::Edit(e) = a {
                w.lib.apply(e);
            }
        }
        w.fs = std::mem::take(&mut p.fs);
        w.fs.plan = FsPlan::default();
        let o = w.final_check_with(plan, false, false);
        w.finish(o.as_ref())
    }
}

/// The language server beside a failing disk, crashes, and the tool on the command line.
pub struct Beside;

impl Scenario for Beside {
    fn property(&self) -> &'static str {
        "P19"
    }
    fn rule(&self) -> &'static str {
        "a run is a session of an editor with the language server as in P09, during which storing proofs fails (I/O error, full disk, short writes), or the machine is killed or loses power at any file operation and a second session follows on the sources as some of the edits left them, or 1-2 processes of the tool verify or check the project from the command line at random moments; whatever an undisturbed editor shows at rest must be the truth, and verifies and checks afterwards must tell it; non-trivial when a fault struck or a command-line build stored something during the session"
    }
    fn budget(&self, th: bool) -> u64 {
        if th { 8000 } else { 200 }
    }
    fn real_components(&self) -> &'static str {
        REAL_LSP
    }
    fn shrink_keys(&self) -> &'static [&'static str] {
        &["acts", "more", "faults", "jumps"]
    }
    fn gen(&self, seed: u64, _th: bool) -> Value {
        let mut r = Rng::new(seed);
        let n = r.range(1, 4);
        let wrong = *r.pick(&[0.0, 0.0, 0.0, 0.1]);
        let lib = Library::random(&mut r, n, wrong);
        let mut l = lib.clone();
        let acts = acts_of(&mut r, &mut l, false);
        let edits = acts.iter().filter(|a| matches!(a, Act::Edit(_))).count() as u64;
        let keep = if r.chance(0.4) { edits } else { r.range(0, edits) };
        let mut l = lib.clone();
        for a in acts.iter().filter(|a| matches!(a, Act::Edit(_))).take(keep as usize) {
            if let Act::Edit(e) = a {
                l.apply(e);
            }
        }
        let mode = *r.pick(&["fail", "crash", "crash", "cli", "cli"]);
        let mut fs = FsPlan { readdir_seed: r.next() >> 1, ..Default::default() };
        let mut reqs = vec![];
        match mode {
            "fail" => {
                for _ in 0..r.range(1, 2) {
                    let mut f = write_fault(&mut r, 4, &["eio", "enospc", "short", "eintr", "eacces"]);
                    f.path = "certs".into();
                    fs.faults.push(f);
                }
            }
            "crash" => {
                let mut f = write_fault(&mut r, 8, &["kill", "power"]);
                if r.chance(0.6) {
                    f.path = "certs".into();
                }
                fs.faults.push(f)
            }
            _ => {
                for _ in 0..r.range(1, 2) {
                    let mut q = rand_verify(&mut r, &lib);
                    q.line = None;
                    q.jobs = q.jobs.min(3);
                    reqs.push((r.log_range(1, 20_000_000_000), q));
                }
            }
        }
        let more = if mode == "crash" || r.chance(0.3) { acts_of(&mut r, &mut l, false) } else { vec![] };
        let pre = r.chance(0.4);
        let workers = r.range(1, 4);
        let whole = r.next() >> 1;
        plan_of(&mut r, &lib, vec![], 6, json!({"acts": acts, "more": more, "keep": keep, "mode": mode, "reqs": reqs, "fs": fs, "pre": pre, "workers": workers, "whole": whole, "jobs": [1, 2, 1]}))
    }
    fn run(&self, plan: &Value) -> Report {
        let mut w = World::new(plan);
        if plan["pre"] == json!(true) {
            let (_, o) = w.run(extra(plan, 4), &Req { handcrafted: false, ..Req::verify(1) }, &FsPlan::default());
            if o.is_none() {
                return w.finish(None);
            }
        }
        let acts: Vec<Act> = serde_json::from_value(plan["acts"].clone()).unwrap();
        let more: Vec<Act> = serde_json::from_value(plan["more"].clone()).unwrap();
        let reqs: Vec<(u64, Req)> = serde_json::from_value(plan["reqs"].clone()).unwrap();
        let fp: FsPlan = serde_json::from_value(plan["fs"].clone()).unwrap();
        let mode = plan["mode"].as_str().unwrap();
        let workers = plan["workers"].as_u64().unwrap() as usize;
        let whole = plan["whole"].as_u64().unwrap();
        let slot = extra(plan, 3);
        let (lib, a2) = (w.lib.clone(), acts.clone());
        // (A kill is one of the machine, the editor with it.)
        let mut p = phase(copy(&w.fs), &fp, mode == "cli", &w.sched(slot), move || {
            let hs: Vec<_> = reqs
                .into_iter()
                .enumerate()
                .map(|(i, (wait, q))| {
                    std::thread::Builder::new()
                        .stack_size(32 << 20)
                        .spawn(move || {
                            rt::set_pid(2 + i as u32);
                            rt::sleep_ns(wait);
                            run_req(&q)
                        })
                        .unwrap()
                })
                .collect();
            let v = session(lib, a2, workers, whole);
            let o: Vec<Value> = hs.into_iter().map(|h| h.join().map_or(json!("panicked"), |o| serde_json::to_value(o).unwrap())).collect();
            json!({"session": v, "cli": o})
        });
        w.rep.add(slot, &p);
        w.rep.probe(mode);
        let crashed = matches!(p.out, Out::Crashed(_));
        w.rep.nontrivial = !p.fired.is_empty();
        if !crashed {
            if let Some((k, m)) = bad_end(&p) {
                w.fail(&k, format!("{m} (language server session)"));
            }
            let Some(v) = p.done().cloned() else { return w.finish(None) };
            show(&p.text, &v["session"]);
            self.verdict(&mut w, &p.text, &v["session"]);
            for o in v["cli"].as_array().unwrap() {
                if o == "panicked" {
                    w.fail("panic", "a command-line build beside the language server panicked".into());
                    continue;
                }
                let saved = o["err"].is_null() && o["status"] != "Error";
                w.rep.nontrivial |= saved;
                w.rep.probe(&format!("command line {}", o["status"].as_str().unwrap_or("?")));
            }
        }
        w.fs = std::mem::take(&mut p.fs);
        w.fs.plan = FsPlan::default();
        if w.failed() {
            return w.finish(None);
        }
        // What the user goes on with: everything, or less of it.
        let all = acts.iter().filter(|a| matches!(a, Act::Edit(_))).count() as u64;
        let keep = if crashed || !more.is_empty() { plan["keep"].as_u64().unwrap() } else { all };
        for a in acts.iter().filter(|a| matches!(a, Act::Edit(_))).take(keep as usize) {
            if let Act::Edit(e) = a {
                w.lib.apply(e);
            }
        }
        if crashed || !more.is_empty() {
            put_lib(&mut w.fs, &w.lib);
        }
        if !more.is_empty() {
            let (lib, a2) = (w.lib.clone(), more.clone());
            let slot = extra(plan, 5);
            let mut p = phase(copy(&w.fs), &FsPlan::default(), true, &w.sched(slot), move || session(lib, a2, workers, whole ^ 1));
            w.rep.add(slot, &p);
            if let Some((k, m)) = bad_end(&p) {
                w.fail(&k, format!("{m} (second language server session)"));
            }
            let Some(v) = p.done().cloned() else { return w.finish(None) };
            show(&p.text, &v);
            self.verdict(&mut w, &p.text, &v);
            for a in &more {
                if let Act::Edit(e) = a {
                    w.lib.apply(e);
                }
            }
            w.fs = std::mem::take(&mut p.fs);
            w.fs.plan = FsPlan::default();
        }
        if w.failed() {
            return w.finish(None);
        }
        if mode == "cli" {
            // As with several processes of the tool (P18): true, whoever stored last; repaired by one full run.
            let q = Req::verify(1);
            let (_, o) = w.run(extra(plan, 2), &q, &FsPlan::default());
            if let Some(o) = o {
                w.judge(&q, &o);
            }
        }
        let o = if w.failed() { None } else { w.final_check_with(plan, false, mode == "cli") };
        w.finish(o.as_ref())
    }
}

fn show(text: &str, v: &Value) {
    if std::env::var_os("SIM_SHOW").is_some() {
        println!("{text}");
        for l in v["log"].as_array().unwrap() {
            println!("{}", l.as_str().unwrap());
        }
        println!("{}", v["bad"]);
    }
}

impl Beside {
    fn verdict(&self, w: &mut World, text: &str, v: &Value) {
        if let Some(at) = text.find("panicked at") {
            w.fail("panic", text[at..].chars().take(300).collect());
        }
        for _ in 0..v["settles"].as_u64().unwrap() {
            w.rep.probe("settled and judged");
        }
        for b in v["bad"].as_array().unwrap() {
            w.fail(b[0].as_str().unwrap(), b[1].as_str().unwrap().into());
        }
    }
}
