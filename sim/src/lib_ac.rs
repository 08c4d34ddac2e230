//! Generated Acorn libraries together with an independent model of which of their claims are
//! true: functions on a small finite type given by tables, and statements about them whose
//! truth is computed from the tables.
use crate::rt::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Item {
    /// A function T -> T given by its table.
    Table { name: String, table: Vec<u8> },
    /// theorem: f1(f2(..(c))) = d
    Chain { name: String, fs: Vec<String>, arg: u8, res: u8 },
    /// theorem with a by block that states each intermediate value; `res[i]` is claimed for the
    /// i-th application.
    Steps { name: String, fs: Vec<String>, arg: u8, res: Vec<u8> },
    /// theorem (x: Tok) { x = c implies f(x) = d }
    Hyp { name: String, f: String, arg: u8, res: u8 },
    /// theorem: f(c) != d
    Neq { name: String, f: String, arg: u8, res: u8 },
    /// top-level anonymous claims in a forall block
    Block { f: String, arg: u8, res: u8 },
    /// theorem: exists(x: Tok) { f(x) = d }
    Ex { name: String, f: String, res: u8 },
    /// A structure with a projection theorem.
    Struct { name: String, ok: bool },
    /// Polymorphic function and an instance of it.
    Poly { name: String, arg: u8, res: u8 },
    /// Peano numbers, with a theorem by induction.
    Nat { name: String, ok: bool },
    /// A typeclass with one axiom, a derived theorem and an instance.
    Class { name: String, f: String, res: u8 },
    /// attributes on T
    Attr { name: String, f: String, arg: u8, res: u8 },
    /// let v: Tok satisfy { f(v) = d }
    Sat { name: String, f: String, res: u8 },
    /// A comment line.
    Comment(u32),
    /// Does not parse / does not elaborate.
    Broken(u32),
    /// An axiom (a true one), at the top level or somewhere inside a block.
    Axiom(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Module {
    /// Dotted name.
    pub name: String,
    pub items: Vec<Item>,
    /// The one implementation module of a package (`NAME.impl`), whose interface declares its
    /// tables and the simple theorems about them; other modules see only the interface.
    #[serde(default)]
    pub iface: bool,
    /// The interface does not match the implementation.
    #[serde(default)]
    pub drift: bool,
}

impl Module {
    /// What other modules import it as.
    pub fn import_name(&self) -> String {
        if self.iface {
            self.name.trim_end_matches(".impl").to_string()
        } else {
            self.name.clone()
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Library {
    pub k: u8,
    pub modules: Vec<Module>,
    /// `Tok` is in a module named `prelude`, which every other module imports without saying so;
    /// otherwise it is in `base`.
    #[serde(default)]
    pub prelude: bool,
    /// What it was before each edit, for undoing some.
    #[serde(skip)]
    pub past: Vec<std::sync::Arc<Vec<Module>>>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Goal {
    pub module: String,
    pub name: String,
    /// First and last source line (0-based) of the claim.
    pub lines: (u32, u32),
    pub truth: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    SetTable { module: usize, item: usize, at: u8, to: u8 },
    SetRes { module: usize, item: usize, to: u8 },
    /// Make every claim of the module true (as of now).
    Repair { module: usize },
    Comment { module: usize, n: u32 },
    Break { module: usize, n: u32 },
    Unbreak { module: usize },
    /// Makes the module use a function of any other module, cycles included.
    Use { module: usize, seed: u64 },
    /// Makes the interface of a package disagree with its implementation, or agree again.
    Drift { module: usize },
    AddItem { module: usize, seed: u64 },
    DelItem { module: usize, item: usize },
    AddModule { seed: u64 },
    DelModule { module: usize },
    /// Adds an axiom to the module, or takes out those it has.
    Axiom { module: usize, n: u32 },
    /// Takes back the last edits, as with a version control system.
    Undo { n: usize },
}

fn c(v: u8) -> String {
    format!("Tok.c{v}")
}

impl Library {
    pub fn path(name: &str) -> String {
        format!("{}.ac", name.replace('.', "/"))
    }
    fn home(&self, f: &str) -> Option<(&Module, &Vec<u8>)> {
        for m in &self.modules {
            for i in &m.items {
                if let Item::Table { name, table } = i {
                    if name == f {
                        return Some((m, table));
                    }
                }
            }
        }
        None
    }
    pub fn table(&self, f: &str) -> Option<&Vec<u8>> {
        self.home(f).map(|x| x.1)
    }
    pub fn broken(&self, m: &Module) -> bool {
        m.drift || m.items.iter().any(|i| matches!(i, Item::Broken(_)))
    }
    pub fn uses(i: &Item) -> Vec<String> {
        match i {
            Item::Chain { fs, .. } | Item::Steps { fs, .. } => fs.clone(),
            Item::Hyp { f, .. }
            | Item::Neq { f, .. }
            | Item::Block { f, .. }
            | Item::Ex { f, .. }
            | Item::Class { f, .. }
            | Item::Attr { f, .. }
            | Item::Sat { f, .. } => vec![f.clone()],
            _ => vec![],
        }
    }
    /// Direct imports of a module, sorted.
    pub fn imports(&self, m: &Module) -> BTreeMap<String, Vec<String>> {
        let mut r: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for i in &m.items {
            for f in Self::uses(i) {
                if let Some((h, _)) = self.home(&f) {
                    if h.name != m.name && !(self.prelude && h.name == "prelude") {
                        let v = r.entry(h.name.clone()).or_default();
                        if !v.contains(&f) {
                            v.push(f);
                        }
                    }
                }
            }
        }
        r
    }
    pub fn module(&self, name: &str) -> Option<&Module> {
        self.modules.iter().find(|m| m.name == name)
    }
    /// Does the module need anything that is in the prelude?
    fn uses_prelude(&self, m: &Module) -> bool {
        self.prelude && m.name != "prelude" && m.items.iter().any(|i| !matches!(i, Item::Nat { .. } | Item::Comment(_)))
    }
    /// Does `m` or anything it (transitively) imports fail to elaborate?
    pub fn fails_to_load(&self, m: &Module) -> bool {
        let mut seen = vec![m.name.clone()];
        let mut todo = vec![m.name.clone()];
        while let Some(n) = todo.pop() {
            let Some(m) = self.module(&n) else { return true };
            if self.broken(m) || m.items.iter().flat_map(Self::uses).any(|f| self.home(&f).is_none()) {
                return true;
            }
            if self.cyclic(&n) {
                return true;
            }
            if self.prelude && n == "prelude" && !self.imports(m).is_empty() {
                // What it imports would have to import it.
                return true;
            }
            if self.uses_prelude(m) && !seen.contains(&"prelude".to_string()) {
                seen.push("prelude".into());
                todo.push("prelude".into());
            }
            for d in self.imports(m).into_keys() {
                if !seen.contains(&d) {
                    seen.push(d.clone());
                    todo.push(d);
                }
            }
        }
        false
    }
    /// Does the module import itself?  A package is only seen through its interface, which
    /// imports nothing but base.
    fn cyclic(&self, name: &str) -> bool {
        let mut seen: Vec<String> = vec![];
        let mut todo = vec![name.to_string()];
        while let Some(n) = todo.pop() {
            let Some(m) = self.module(&n) else { continue };
            for d in self.imports(m).into_keys() {
                if d == name && !m.iface {
                    return self.module(&d).map_or(false, |m| !m.iface);
                }
                if !seen.contains(&d) && self.module(&d).map_or(false, |m| !m.iface) {
                    seen.push(d.clone());
                    todo.push(d);
                }
            }
        }
        false
    }
    pub fn deps(&self, name: &str) -> Vec<String> {
        let mut seen: Vec<String> = vec![];
        let mut todo = vec![name.to_string()];
        if self.prelude && name != "prelude" {
            seen.push("prelude".into());
            todo.push("prelude".into());
        }
        while let Some(n) = todo.pop() {
            if let Some(m) = self.module(&n) {
                for d in self.imports(m).into_keys() {
                    if !seen.contains(&d) {
                        seen.push(d.clone());
                        todo.push(d);
                    }
                }
            }
        }
        seen
    }

    pub fn render_base(&self) -> String {
        let mut s = String::from("inductive Tok {\n");
        for v in 0..self.k {
            s += &format!("    c{v}\n");
        }
        s += "}\n";
        s
    }

    /// Source text and the claims in it.
    pub fn render(&self, m: &Module) -> (String, Vec<Goal>) {
        let mut s = match (self.prelude, m.name == "prelude") {
            (false, _) => String::from("from base import Tok\n"),
            (true, true) => self.render_base(),
            (true, false) => String::new(),
        };
        for (d, fs) in self.imports(m) {
            let d = self.module(&d).map_or(d, |m| m.import_name());
            s += &format!("from {d} import {}\n", fs.join(", "));
        }
        let mut goals = vec![];
        let tab = |f: &str| self.table(f).cloned().unwrap_or(vec![0; self.k as usize]);
        let ap = |fs: &[String], a: u8| -> u8 {
            let mut v = a;
            for f in fs {
                v = tab(f)[v as usize];
            }
            v
        };
        fn expr(fs: &[String], a: u8) -> String {
            let mut e = c(a);
            for f in fs {
                e = format!("{f}({e})");
            }
            e
        }
        for i in &m.items {
            s.push('\n');
            let start = s.matches('\n').count() as u32;
            let mut goal = |name: &str, a: u32, b: u32, truth: bool| {
                goals.push(Goal { module: m.name.clone(), name: name.into(), lines: (start + a, start + b), truth })
            };
            match i {
                Item::Table { name, table } => {
                    s += &format!("define {name}(x: Tok) -> Tok {{\n    match x {{\n");
                    for (v, r) in table.iter().enumerate() {
                        s += &format!("        {} {{ {} }}\n", c(v as u8), c(*r));
                    }
                    s += "    }\n}\n";
                }
                Item::Chain { name, fs, arg, res } => {
                    s += &format!("theorem {name} {{\n    {} = {}\n}}\n", expr(fs, *arg), c(*res));
                    goal(name, 0, 2, ap(fs, *arg) == *res);
                }
                Item::Steps { name, fs, arg, res } => {
                    let last = *res.last().unwrap();
                    s += &format!("theorem {name} {{\n    {} = {}\n}} by {{\n", expr(fs, *arg), c(last));
                    // Every claim is judged given the earlier ones; once one is false, what
                    // follows from it is left open (None) by using truth = actual truth of the
                    // claim, and the oracle only looks at the first false one.
                    let mut v = *arg;
                    let mut l = 3;
                    for (n, f) in fs.iter().enumerate() {
                        s += &format!("    {f}({}) = {}\n", c(v), c(res[n]));
                        goal(&format!("{name}/{n}"), l, l, tab(f)[v as usize] == res[n]);
                        v = res[n];
                        l += 1;
                    }
                    s += "}\n";
                    goal(name, 0, 2, ap(fs, *arg) == last);
                }
                Item::Hyp { name, f, arg, res } => {
                    s += &format!(
                        "theorem {name}(x: Tok) {{\n    x = {} implies {f}(x) = {}\n}}\n",
                        c(*arg),
                        c(*res)
                    );
                    goal(name, 0, 2, tab(f)[*arg as usize] == *res);
                }
                Item::Neq { name, f, arg, res } => {
                    s += &format!("theorem {name} {{\n    {f}({}) != {}\n}}\n", c(*arg), c(*res));
                    goal(name, 0, 2, tab(f)[*arg as usize] != *res);
                }
                Item::Block { f, arg, res } => {
                    s += &format!(
                        "forall(x: Tok) {{\n    if x = {} {{\n        {f}(x) = {}\n    }}\n}}\n",
                        c(*arg),
                        c(*res)
                    );
                    goal("block", 2, 2, tab(f)[*arg as usize] == *res);
                }
                Item::Ex { name, f, res } => {
                    s += &format!("theorem {name} {{\n    exists(x: Tok) {{ {f}(x) = {} }}\n}}\n", c(*res));
                    goal(name, 0, 2, tab(f).contains(res));
                }
                Item::Struct { name, ok } => {
                    let n = format!("S{name}");
                    let r = if *ok { "a" } else { "b" };
                    s += &format!(
                        "structure {n} {{\n    fst: Tok\n    snd: Tok\n}}\ntheorem proj_{name}(a: Tok, b: Tok) {{\n    {n}.new(a, b).fst = {r}\n}}\n"
                    );
                    goal(&format!("proj_{name}"), 4, 6, *ok);
                }
                Item::Poly { name, arg, res } => {
                    s += &format!(
                        "define id_{name}[A](x: A) -> A {{\n    x\n}}\ntheorem poly_{name} {{\n    id_{name}({}) = {}\n}}\n",
                        c(*arg),
                        c(*res)
                    );
                    goal(&format!("poly_{name}"), 3, 5, arg == res);
                }
                Item::Nat { name, ok } => {
                    let n = format!("N{name}");
                    let r = if *ok { "a" } else { "a.suc" };
                    s += &format!(
                        "inductive {n} {{\n    zero\n    suc({n})\n}}\ndefine add_{name}(a: {n}, b: {n}) -> {n} {{\n    match a {{\n        {n}.zero {{ b }}\n        {n}.suc(p) {{ add_{name}(p, b).suc }}\n    }}\n}}\ntheorem left_{name}(a: {n}) {{\n    add_{name}({n}.zero, a) = {r}\n}}\n"
                    );
                    goal(&format!("left_{name}"), 10, 12, *ok);
                }
                Item::Class { name, f, res } => {
                    let n = format!("C{name}");
                    s += &format!(
                        "typeclass X: {n} {{\n    op_{name}: X -> X\n    fix_{name}(x: X) {{\n        X.op_{name}(x) = x\n    }}\n}}\ntheorem twice_{name}[X: {n}](x: X) {{\n    X.op_{name}(X.op_{name}(x)) = x\n}}\ntheorem use_{name} {{\n    {f}({}) = {}\n}}\n",
                        c(0),
                        c(*res)
                    );
                    goal(&format!("twice_{name}"), 6, 8, true);
                    goal(&format!("use_{name}"), 9, 11, tab(f)[0] == *res);
                }
                Item::Attr { name, f, arg, res } => {
                    s += &format!(
                        "attributes Tok {{\n    define at_{name}(self) -> Tok {{\n        {f}(self)\n    }}\n}}\ntheorem attr_{name} {{\n    {}.at_{name} = {}\n}}\n",
                        c(*arg),
                        c(*res)
                    );
                    goal(&format!("attr_{name}"), 5, 7, tab(f)[*arg as usize] == *res);
                }
                Item::Sat { name, f, res } => {
                    s += &format!("let v_{name}: Tok satisfy {{\n    {f}(v_{name}) = {}\n}}\n", c(*res));
                    goal(&format!("v_{name}"), 1, 1, tab(f).contains(res));
                }
                Item::Comment(n) => s += &format!("// note {n}\n"),
                Item::Axiom(n) => match n % 7 {
                    0 => s += &format!("axiom ax_{n} {{\n    {} = {}\n}}\n", c(0), c(0)),
                    1 => s += &format!("axiom ax_{n}(x: Tok) {{\n    x = x\n}}\n"),
                    2 => s += &format!("forall(x: Tok) {{\n    axiom ax_{n} {{\n        x = x\n    }}\n}}\n"),
                    3 => s += &format!("if {} = {} {{\n    axiom ax_{n} {{\n        {} = {}\n    }}\n}}\n", c(0), c(0), c(1), c(1)),
                    4 => {
                        s += &format!("theorem th_{n} {{\n    {} = {}\n}} by {{\n    forall(x: Tok) {{\n        axiom ax_{n} {{\n            x = x\n        }}\n    }}\n}}\n", c(0), c(0));
                        goal(&format!("th_{n}"), 0, 2, true);
                    }
                    5 => s += &format!("axiom ax_{n}[T](x: T) {{\n    x = x\n}}\n"),
                    _ => s += &format!("forall(x: Tok) {{\n    if x = {} {{\n        axiom ax_{n}(y: Tok) {{\n            y = y\n        }}\n    }} else {{\n        axiom bx_{n} {{\n            x = x\n        }}\n    }}\n}}\n", c(0)),
                },
                Item::Broken(n) => {
                    match n % 4 {
                        0 => s += &format!("theorem broken_{n} {{\n    nosuchthing_{n} = {}\n}}\n", c(0)),
                        1 => s += &format!("theorem broken_{n} {{ = = \n"),
                        2 => s += &format!("from nosuch{n} import nothing\n"),
                        _ => s += &format!("from base import nothing{n}\n"),
                    }
                }
            }
        }
        (s, goals)
    }

    /// The interface of a package: the tables of its implementation and the statements of the
    /// chain theorems that only use those.
    pub fn render_iface(&self, m: &Module) -> String {
        let own: Vec<&String> = m.items.iter().filter_map(|i| match i {
            Item::Table { name, .. } => Some(name),
            _ => None,
        }).collect();
        let items = m.items.iter().filter(|i| match i {
            Item::Table { .. } => true,
            Item::Chain { fs, .. } => fs.iter().all(|f| own.contains(&f)),
            _ => false,
        }).cloned().map(|i| match i {
            Item::Table { name, mut table } if m.drift => {
                table[0] = (table[0] + 1) % self.k;
                Item::Table { name, table }
            }
            i => i,
        }).collect();
        // Rendered as if it were the module itself, so that its own tables are not imported.
        self.render(&Module { name: m.name.clone(), items, iface: true, drift: false }).0
    }

    /// path (below src/) -> text
    pub fn files(&self) -> BTreeMap<String, String> {
        let mut r = BTreeMap::new();
        if !self.prelude {
            r.insert("base.ac".to_string(), self.render_base());
        }
        for m in &self.modules {
            r.insert(Self::path(&m.name), self.render(m).0);
            if m.iface {
                r.insert(format!("{}/interface.ac", m.import_name().replace('.', "/")), self.render_iface(m));
            }
        }
        r
    }
    /// All goals of modules that load.
    pub fn goals(&self) -> Vec<Goal> {
        self.modules
            .iter()
            .filter(|m| !self.fails_to_load(m))
            .flat_map(|m| self.render(m).1)
            .collect()
    }
    pub fn all_good(&self) -> bool {
        self.modules.iter().all(|m| !self.fails_to_load(m)) && self.goals().iter().all(|g| g.truth)
    }

    // ---- generation ----
    pub fn random(r: &mut Rng, n_modules: u64, wrong: f64) -> Library {
        let mut lib = Library { k: r.range(2, 3) as u8, modules: vec![], prelude: r.chance(0.15), past: vec![] };
        if lib.prelude {
            lib.modules.push(Module { name: "prelude".into(), items: vec![], iface: false, drift: false });
            lib.add_table(r, 0);
            for _ in 0..r.range(0, 2) {
                lib.add_claim(r, 0, wrong);
            }
        }
        for i in 0..n_modules {
            lib.add_module(r, i, wrong);
        }
        lib
    }
    fn fresh(&self) -> u64 {
        let mut n = 0;
        for m in &self.modules {
            for i in &m.items {
                let s = serde_json::to_string(i).unwrap();
                for t in s.split(|c: char| !c.is_ascii_digit()) {
                    if let Ok(x) = t.parse::<u64>() {
                        if x < 100000 {
                            n = n.max(x + 1);
                        }
                    }
                }
            }
        }
        n
    }
    pub fn add_module(&mut self, r: &mut Rng, i: u64, wrong: f64) {
        let name = match r.below(6) {
            0 => format!("sub.m{i}"),
            1 => format!("sub.deep.m{i}"),
            _ => format!("m{i}"),
        };
        if self.module(&name).is_some() {
            return;
        }
        let iface = r.chance(0.2);
        let name = if iface { format!("{}.impl", name.replace('m', "pk")) } else { name };
        let idx = self.modules.len();
        self.modules.push(Module { name, items: vec![], iface, drift: false });
        let nf = r.range(1, 2);
        for _ in 0..nf {
            self.add_table(r, idx);
        }
        let n = r.range(1, 5);
        for _ in 0..n {
            self.add_claim(r, idx, wrong);
        }
    }
    fn add_table(&mut self, r: &mut Rng, idx: usize) {
        let n = self.fresh();
        let table = (0..self.k).map(|_| r.below(self.k as u64) as u8).collect();
        self.modules[idx].items.push(Item::Table { name: format!("f{n}"), table });
    }
    /// Functions usable in module `idx`: its own and those of earlier modules (no cycles).
    fn usable(&self, idx: usize) -> Vec<String> {
        let mut v = vec![];
        for m in &self.modules[..=idx] {
            for i in &m.items {
                if let Item::Table { name, .. } = i {
                    v.push(name.clone());
                }
            }
        }
        v
    }
    pub fn add_claim(&mut self, r: &mut Rng, idx: usize, wrong: f64) {
        let n = self.fresh();
        let fs = self.usable(idx);
        if fs.is_empty() {
            return;
        }
        let k = self.k as u64;
        let arg = r.below(k) as u8;
        let f = r.pick(&fs).clone();
        let bad = r.chance(wrong);
        let t = self.table(&f).unwrap().clone();
        let good = t[arg as usize];
        let other = ((good as u64 + 1 + r.below(k - 1)) % k) as u8;
        let res = if bad { other } else { good };
        let chain: Vec<String> = (0..r.range(1, 3)).map(|_| r.pick(&fs).clone()).collect();
        let name = format!("t{n}");
        let item = match r.below(16) {
            0..=3 => {
                let mut v = arg;
                for f in &chain {
                    v = self.table(f).unwrap()[v as usize];
                }
                Item::Chain { name, fs: chain, arg, res: if bad { (v + 1) % self.k } else { v } }
            }
            4..=6 => {
                let mut v = arg;
                let mut res = vec![];
                for f in &chain {
                    v = self.table(f).unwrap()[v as usize];
                    res.push(v);
                }
                if bad {
                    let l = res.len() - 1;
                    res[l] = (res[l] + 1) % self.k;
                }
                Item::Steps { name, fs: chain, arg, res }
            }
            7 => Item::Hyp { name, f, arg, res },
            8 => Item::Neq { name, f, arg, res: if bad { good } else { other } },
            9 => Item::Block { f, arg, res },
            10 => Item::Poly { name: format!("{n}"), arg, res: if bad { (arg + 1) % self.k } else { arg } },
            11 => Item::Struct { name: format!("{n}"), ok: !bad },
            12 => Item::Nat { name: format!("{n}"), ok: !bad },
            13 => Item::Class {
                name: format!("{n}"),
                res: if bad { (t[0] + 1) % self.k } else { t[0] },
                f,
            },
            14 => Item::Attr { name: format!("{n}"), f, arg, res },
            _ => {
                let missing = (0..self.k).find(|v| !t.contains(v));
                match (bad, missing) {
                    (true, Some(v)) => Item::Ex { name, f, res: v },
                    _ => {
                        if r.chance(0.5) {
                            Item::Ex { name, f, res: good }
                        } else {
                            Item::Sat { name: format!("{n}"), f, res: good }
                        }
                    }
                }
            }
        };
        self.modules[idx].items.push(item);
    }

    pub fn random_edit(&self, r: &mut Rng) -> Edit {
        let nm = self.modules.len() as u64;
        let module = r.below(nm.max(1)) as usize;
        let ni = self.modules.get(module).map_or(1, |m| m.items.len().max(1)) as u64;
        let item = r.below(ni) as usize;
        if !self.past.is_empty() && r.chance(0.12) {
            return Edit::Undo { n: r.range(1, 2) as usize };
        }
        match r.below(20) {
            0..=4 => {
                // Prefer a table somebody depends on.
                let mut cands = vec![];
                for (mi, m) in self.modules.iter().enumerate() {
                    for (ii, i) in m.items.iter().enumerate() {
                        if matches!(i, Item::Table { .. }) {
                            cands.push((mi, ii));
                        }
                    }
                }
                if cands.is_empty() {
                    return Edit::Comment { module, n: r.below(1000) as u32 };
                }
                let (mi, ii) = *r.pick(&cands);
                Edit::SetTable { module: mi, item: ii, at: r.below(self.k as u64) as u8, to: r.below(self.k as u64) as u8 }
            }
            5..=7 => Edit::SetRes { module, item, to: r.below(self.k as u64) as u8 },
            8..=11 => Edit::Repair { module },
            12 | 13 => Edit::Comment { module, n: r.below(1000) as u32 },
            14 if self.modules.get(module).map_or(false, |m| m.iface) => Edit::Drift { module },
            14 => Edit::Break { module, n: r.below(10) as u32 },
            15 => if r.chance(0.6) { Edit::Unbreak { module } } else { Edit::Use { module, seed: r.next() >> 12 } },
            16 | 17 => Edit::AddItem { module, seed: r.next() >> 12 },
            18 => Edit::DelItem { module, item },
            _ => {
                if r.chance(0.5) || nm < 3 {
                    Edit::AddModule { seed: r.next() >> 12 }
                } else {
                    Edit::DelModule { module }
                }
            }
        }
    }

    /// Applies an edit; false when it changes nothing.
    pub fn apply(&mut self, e: &Edit) -> bool {
        let before = std::sync::Arc::new(self.modules.clone());
        match e {
            Edit::Undo { n } => {
                for _ in 0..*n {
                    if let Some(m) = self.past.pop() {
                        self.modules = (*m).clone();
                    }
                }
                return self.modules != *before;
            }
            Edit::SetTable { module, item, at, to } => {
                if let Some(Item::Table { table, .. }) = self.modules.get_mut(*module).and_then(|m| m.items.get_mut(*item)) {
                    if (*at as usize) < table.len() && *to < self.k {
                        table[*at as usize] = *to;
                    }
                }
            }
            Edit::SetRes { module, item, to } => {
                let k = self.k;
                if let Some(i) = self.modules.get_mut(*module).and_then(|m| m.items.get_mut(*item)) {
                    if *to < k {
                        match i {
                            Item::Chain { res, .. }
                            | Item::Hyp { res, .. }
                            | Item::Neq { res, .. }
                            | Item::Block { res, .. }
                            | Item::Poly { res, .. }
                            | Item::Class { res, .. }
                            | Item::Attr { res, .. } => *res = *to,
                            Item::Steps { res, .. } => *res.last_mut().unwrap() = *to,
                            Item::Struct { ok, .. } | Item::Nat { ok, .. } => *ok = *to % 2 == 0,
                            _ => {}
                        }
                    }
                }
            }
            Edit::Repair { module } => {
                if *module < self.modules.len() {
                    self.repair(*module);
                }
            }
            Edit::Comment { module, n } => {
                if let Some(m) = self.modules.get_mut(*module) {
                    m.items.push(Item::Comment(*n));
                }
            }
            Edit::Break { module, n } => {
                if let Some(m) = self.modules.get_mut(*module) {
                    m.items.push(Item::Broken(*n));
                }
            }
            Edit::Unbreak { module } => {
                if let Some(m) = self.modules.get_mut(*module) {
                    m.items.retain(|i| !matches!(i, Item::Broken(_)));
                    m.drift = false;
                }
            }
            Edit::Drift { module } => {
                if let Some(m) = self.modules.get_mut(*module) {
                    if m.iface && m.items.iter().any(|i| matches!(i, Item::Table { .. })) {
                        m.drift = !m.drift;
                    }
                }
            }
            Edit::AddItem { module, seed } => {
                if *module < self.modules.len() {
                    let mut r = Rng::new(*seed);
                    self.add_claim(&mut r, *module, 0.2);
                }
            }
            Edit::Use { module, seed } => {
                let mut r = Rng::new(*seed);
                let all: Vec<String> = if *module < self.modules.len() { self.usable(self.modules.len() - 1) } else { vec![] };
                if !all.is_empty() {
                    let n = self.fresh();
                    let f = r.pick(&all).clone();
                    let res = self.table(&f).unwrap()[0];
                    self.modules[*module].items.push(Item::Chain { name: format!("t{n}"), fs: vec![f], arg: 0, res });
                }
            }
            Edit::Axiom { module, n } => {
                if let Some(m) = self.modules.get_mut(*module) {
                    if m.items.iter().any(|i| matches!(i, Item::Axiom(_))) {
                        m.items.retain(|i| !matches!(i, Item::Axiom(_)));
                    } else {
                        let at = *n as usize % (m.items.len() + 1);
                        m.items.insert(at, Item::Axiom(*n));
                    }
                }
            }
            Edit::DelItem { module, item } => {
                if let Some(m) = self.modules.get_mut(*module) {
                    if *item < m.items.len() {
                        m.items.remove(*item);
                    }
                }
            }
            Edit::AddModule { seed } => {
                let mut r = Rng::new(*seed);
                let i = self.fresh();
                self.add_module(&mut r, i, 0.1);
            }
            Edit::DelModule { module } => {
                if *module < self.modules.len() {
                    self.modules.remove(*module);
                }
            }
        }
        if self.modules == *before {
            return false;
        }
        self.past.push(before);
        true
    }

    fn repair(&mut self, mi: usize) {
        let snap = self.clone();
        let k = self.k;
        let tab = |f: &str| snap.table(f).cloned().unwrap_or(vec![0; k as usize]);
        let m = &mut self.modules[mi];
        m.drift = false;
        m.items.retain(|i| !matches!(i, Item::Broken(_)) && Self::uses(i).iter().all(|f| snap.home(f).is_some()));
        for i in &mut m.items {
            match i {
                Item::Chain { fs, arg, res, .. } => {
                    let mut v = *arg;
                    for f in fs.iter() {
                        v = tab(f)[v as usize];
                    }
                    *res = v;
                }
                Item::Steps { fs, arg, res, .. } => {
                    let mut v = *arg;
                    for (n, f) in fs.iter().enumerate() {
                        v = tab(f)[v as usize];
                        res[n] = v;
                    }
                }
                Item::Hyp { f, arg, res, .. } | Item::Block { f, arg, res } | Item::Attr { f, arg, res, .. } => {
                    *res = tab(f)[*arg as usize]
                }
                Item::Neq { f, arg, res, .. } => *res = (tab(f)[*arg as usize] + 1) % k,
                Item::Ex { f, res, .. } | Item::Sat { f, res, .. } => *res = tab(f)[0],
                Item::Class { f, res, .. } => *res = tab(f)[0],
                Item::Poly { arg, res, .. } => *res = *arg,
                Item::Struct { ok, .. } | Item::Nat { ok, .. } => *ok = true,
                _ => {}
            }
        }
    }
}
