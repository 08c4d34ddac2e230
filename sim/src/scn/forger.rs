//! Makes up proofs of false claims: a step or two that hold, then steps that do not follow.
use crate::lib_ac::{Item, Library, Module};
use crate::rt::Rng;
use serde_json::{json, Value};

#[derive(Clone)]
enum E {
    V(usize),
    C(u8),
    X,
    W(usize),
    Ap(usize, Box<E>),
}
#[derive(Clone)]
enum F {
    Eq(E, E),
    Ne(E, E),
    Not(Box<F>),
    And(Box<F>, Box<F>),
    Or(Box<F>, Box<F>),
    Imp(Box<F>, Box<F>),
    Iff(Box<F>, Box<F>),
    Ite(Box<F>, Box<F>, Box<F>),
}
#[derive(Clone)]
enum Cl {
    Plain(F),
    Fun(usize, F, Vec<E>),
    All(usize, F),
    Ex(F),
    NotAll(F),
    NotEx(F),
    Let(usize, F),
    Text(String),
}

struct G<'a> {
    fs: Vec<(String, Vec<u8>)>,
    k: u8,
    /// The claim's own variable, if it has one, with the value its hypothesis gives it.
    x: Option<u8>,
    ws: Vec<u8>,
    goal: &'a str,
}

impl G<'_> {
    fn ev(&self, e: &E, v: &[u8]) -> u8 {
        match e {
            E::V(i) => v.get(*i).copied().unwrap_or(0),
            E::C(c) => *c,
            E::X => self.x.unwrap_or(0),
            E::W(i) => self.ws.get(*i).copied().unwrap_or(0),
            E::Ap(f, a) => self.fs[*f].1[self.ev(a, v) as usize],
        }
    }
    fn holds(&self, f: &F, v: &[u8]) -> bool {
        match f {
            F::Eq(a, b) => self.ev(a, v) == self.ev(b, v),
            F::Ne(a, b) => self.ev(a, v) != self.ev(b, v),
            F::Not(a) => !self.holds(a, v),
            F::And(a, b) => self.holds(a, v) && self.holds(b, v),
            F::Or(a, b) => self.holds(a, v) || self.holds(b, v),
            F::Imp(a, b) => !self.holds(a, v) || self.holds(b, v),
            F::Iff(a, b) => self.holds(a, v) == self.holds(b, v),
            F::Ite(c, a, b) => if self.holds(c, v) { self.holds(a, v) } else { self.holds(b, v) },
        }
    }
    fn all(&self, n: usize, f: &F) -> bool {
        let k = self.k;
        (0..k).all(|a| if n < 2 { self.holds(f, &[a]) } else { (0..k).all(|b| self.holds(f, &[a, b])) })
    }
    fn true_(&self, c: &Cl) -> bool {
        match c {
            Cl::Plain(f) => self.holds(f, &[]),
            Cl::Fun(_, f, a) => {
                let v: Vec<u8> = a.iter().map(|e| self.ev(e, &[])).collect();
                self.holds(f, &v)
            }
            Cl::All(n, f) => self.all(*n, f),
            Cl::NotAll(f) => !self.all(1, f),
            Cl::Ex(f) | Cl::Let(_, f) => (0..self.k).any(|a| self.holds(f, &[a])),
            Cl::NotEx(f) => !(0..self.k).any(|a| self.holds(f, &[a])),
            Cl::Text(_) => false,
        }
    }
    fn te(&self, e: &E, p: char) -> String {
        match e {
            E::V(i) => format!("{p}{i}"),
            E::C(c) => format!("Tok.c{c}"),
            E::X => "x".into(),
            E::W(i) => format!("w{i}"),
            E::Ap(f, a) => format!("{}({})", self.fs[*f].0, self.te(a, p)),
        }
    }
    fn tf(&self, f: &F, p: char) -> String {
        let t = |f: &F| match f {
            F::Eq(..) | F::Ne(..) => self.tf(f, p),
            _ => format!("({})", self.tf(f, p)),
        };
        match f {
            F::Eq(a, b) => format!("{} = {}", self.te(a, p), self.te(b, p)),
            F::Ne(a, b) => format!("{} != {}", self.te(a, p), self.te(b, p)),
            F::Not(a) => format!("not ({})", self.tf(a, p)),
            F::And(a, b) => format!("{} and {}", t(a), t(b)),
            F::Or(a, b) => format!("{} or {}", t(a), t(b)),
            F::Imp(a, b) => format!("{} implies {}", t(a), t(b)),
            F::Iff(a, b) => format!("({}) = ({})", self.tf(a, p), self.tf(b, p)),
            F::Ite(c, a, b) => format!("if {} {{ {} }} else {{ {} }}", self.tf(c, p), self.tf(a, p), self.tf(b, p)),
        }
    }
    fn text(&self, c: &Cl) -> String {
        let vars = |n: usize, p: char| (0..n).map(|i| format!("{p}{i}: Tok")).collect::<Vec<_>>().join(", ");
        match c {
            Cl::Plain(f) => self.tf(f, 'x'),
            Cl::Fun(n, f, a) => {
                let a: Vec<String> = a.iter().map(|e| self.te(e, 'x')).collect();
                format!("function({}) {{ {} }}({})", vars(*n, 'x'), self.tf(f, 'x'), a.join(", "))
            }
            Cl::All(n, f) => format!("forall({}) {{ {} }}", vars(*n, 'x'), self.tf(f, 'x')),
            Cl::Ex(f) => format!("exists({}) {{ {} }}", vars(1, 'k'), self.tf(f, 'k')),
            Cl::NotAll(f) => format!("not forall({}) {{ {} }}", vars(1, 'x'), self.tf(f, 'x')),
            Cl::NotEx(f) => format!("not exists({}) {{ {} }}", vars(1, 'k'), self.tf(f, 'k')),
            // The witness goes by its own name within its condition.
            Cl::Let(i, f) => format!("let w{i}: Tok satisfy {{ {} }}", self.tf(f, 'v').replace("v0", &format!("w{i}"))),
            Cl::Text(t) => t.clone(),
        }
    }

    fn e(&self, r: &mut Rng, vars: usize, d: u64) -> E {
        if d > 0 && !self.fs.is_empty() && r.chance(0.5) {
            return E::Ap(r.below(self.fs.len() as u64) as usize, Box::new(self.e(r, vars, d - 1)));
        }
        match r.below(6) {
            0..=2 if vars > 0 => E::V(r.below(vars as u64) as usize),
            3 if self.x.is_some() => E::X,
            4 if !self.ws.is_empty() => E::W(r.below(self.ws.len() as u64) as usize),
            _ => E::C(r.below(self.k as u64) as u8),
        }
    }
    fn f(&self, r: &mut Rng, vars: usize, d: u64) -> F {
        if d == 0 || r.chance(0.5) {
            let (a, b) = (self.e(r, vars, 2), self.e(r, vars, 1));
            return if r.chance(0.7) { F::Eq(a, b) } else { F::Ne(a, b) };
        }
        let a = Box::new(self.f(r, vars, d - 1));
        if r.chance(0.2) {
            return F::Not(a);
        }
        let b = Box::new(self.f(r, vars, d - 1));
        match r.below(5) {
            0 => F::And(a, b),
            1 => F::Or(a, b),
            2 => F::Imp(a, b),
            3 => F::Iff(a, b),
            _ => F::Ite(Box::new(self.f(r, vars, 0)), a, b),
        }
    }
    fn args(&self, r: &mut Rng, n: usize) -> Vec<E> {
        (0..n).map(|_| self.e(r, 0, 1)).collect()
    }
    fn claim(&self, r: &mut Rng) -> Cl {
        let d = r.below(3);
        match r.below(10) {
            0..=2 => Cl::Plain(self.f(r, 0, d)),
            3..=6 => {
                let n = if r.chance(0.8) { 1 } else { 2 };
                Cl::Fun(n, self.f(r, n, d), self.args(r, n))
            }
            7 => Cl::All(1, self.f(r, 1, d)),
            8 => Cl::Ex(self.f(r, 1, d)),
            _ => match r.below(2) {
                0 => Cl::NotAll(self.f(r, 1, d)),
                _ => Cl::NotEx(self.f(r, 1, d)),
            },
        }
    }
    fn wanted(&self, r: &mut Rng, truth: bool) -> Cl {
        let mut c = self.claim(r);
        for _ in 0..20 {
            if self.true_(&c) == truth {
                break;
            }
            c = self.claim(r);
        }
        c
    }
    /// A part of a formula, its negation, or the formula with something changed.
    fn part(&self, r: &mut Rng, f: &F) -> F {
        let g = match f {
            F::Not(a) => (**a).clone(),
            F::And(a, b) | F::Or(a, b) | F::Imp(a, b) | F::Iff(a, b) | F::Ite(_, a, b) => {
                if r.chance(0.5) { (**a).clone() } else { (**b).clone() }
            }
            F::Eq(a, b) | F::Ne(a, b) => match (a, b, r.below(3)) {
                // f(s) = f(t) to s = t
                (E::Ap(_, s), E::Ap(_, t), _) => F::Eq((**s).clone(), (**t).clone()),
                (_, _, 0) => F::Eq(a.clone(), b.clone()),
                (_, _, 1) => F::Ne(a.clone(), b.clone()),
                _ => F::Eq(b.clone(), E::C(r.below(self.k as u64) as u8)),
            },
        };
        if r.chance(0.25) { F::Not(Box::new(g)) } else { g }
    }
    /// What follows from `c` by taking its outermost connective apart.
    fn unfold(&self, r: &mut Rng, c: &Cl) -> Option<(Cl, &'static str)> {
        let not = |f: &F| F::Not(Box::new(f.clone()));
        let or = |a: F, b: F| F::Or(Box::new(a), Box::new(b));
        let left = r.chance(0.5);
        let go = |f: &F| -> Option<(F, &'static str)> {
            Some(match f {
                F::And(a, _) if left => ((**a).clone(), "pos_and_left"),
                F::And(_, b) => ((**b).clone(), "pos_and_right"),
                F::Or(a, b) => (or((**a).clone(), (**b).clone()), "pos_or"),
                F::Imp(a, b) => (or(not(a), (**b).clone()), "pos_or"),
                F::Iff(a, b) if left => (or((**a).clone(), not(b)), "bool_eq_l_or_not_r"),
                F::Iff(a, b) => (or(not(a), (**b).clone()), "bool_eq_not_l_or_r"),
                F::Not(n) => match &**n {
                    F::And(a, b) => (or(not(a), not(b)), "neg_and"),
                    F::Or(a, _) if left => (not(a), "neg_or_left"),
                    F::Or(_, b) => (not(b), "neg_or_right"),
                    _ => return None,
                },
                _ => return None,
            })
        };
        Some(match c {
            Cl::Plain(f) => go(f).map(|(f, k)| (Cl::Plain(f), k))?,
            Cl::Fun(n, f, a) => go(f).map(|(f, k)| (Cl::Fun(*n, f, a.clone()), k))?,
            Cl::All(n, f) => (Cl::Fun(*n, f.clone(), self.args(r, *n)), "pos_forall"),
            Cl::Ex(f) => (Cl::Fun(1, f.clone(), self.args(r, 1)), "pos_exists"),
            Cl::NotAll(f) => (Cl::Ex(not(f)), "neg_forall_exists"),
            Cl::NotEx(f) => (Cl::Fun(1, not(f), self.args(r, 1)), "neg_exists"),
            _ => return None,
        })
    }
    /// Something that might be taken to follow from `c`.
    fn leap(&self, r: &mut Rng, c: &Cl) -> Cl {
        let whole = r.chance(0.5);
        let wider = r.chance(0.25);
        let vars = if matches!(c, Cl::Plain(_)) { 0 } else { 1 };
        let mut body = |f: &F| {
            if wider {
                let (a, b) = (Box::new(f.clone()), Box::new(self.f(r, vars, 0)));
                match r.below(6) {
                    0 | 1 => F::And(a, b),
                    2 => F::And(b, a),
                    3 => F::Iff(a, b),
                    4 => F::Imp(a, b),
                    _ => F::Ite(Box::new(self.f(r, vars, 0)), a, b),
                }
            } else if whole {
                f.clone()
            } else {
                self.part(r, f)
            }
        };
        let (n, f) = match c {
            Cl::Plain(f) => (0, body(f)),
            Cl::Fun(n, f, _) | Cl::All(n, f) => (*n, body(f)),
            Cl::Ex(f) | Cl::NotAll(f) | Cl::NotEx(f) | Cl::Let(_, f) => (1, body(f)),
            Cl::Text(_) => return self.wanted(r, false),
        };
        if n == 0 {
            return match r.below(4) {
                0 if !wider => Cl::Plain(self.f(r, 0, 1)),
                _ => Cl::Plain(f),
            };
        }
        match r.below(9) {
            0..=3 => Cl::Fun(n, f, self.args(r, n)),
            4 => Cl::All(n, f),
            5 if n == 1 => Cl::Ex(f),
            6 if n == 1 => Cl::NotEx(f),
            7 if n == 1 => Cl::NotAll(f),
            _ => Cl::Fun(n, F::Not(Box::new(f)), self.args(r, n)),
        }
    }
}

const KS: [&str; 25] = [
    "false_lit", "ite_left", "ite_right", "ite_left_then", "ite_left_else", "ite_right_then", "ite_right_else", "fn_neq_exists", "signed_not",
    "bool_eq_to_eq", "pos_forall", "pos_exists_wit", "pos_exists", "neg_forall_exists", "neg_exists", "pos_and_left", "pos_and_right", "neg_and",
    "pos_or", "neg_or_left", "neg_or_right", "bool_eq_l_or_not_r", "bool_eq_not_l_or_r", "bool_neq_not_l_or_not_r", "bool_neq_l_or_r",
];

fn rule(r: &mut Rng, s: &mut Value, from: u64, n: u64) {
    let k = *r.pick(&["", "", "fact", "inst", "inst", "inst", "br", "br", "br", "br_intro", "br_intro", "eq", "eq", "er", "ef", "ext", "inj", "contra"]);
    if !k.is_empty() {
        s["r"] = json!(k);
    }
    if k != "" && k != "fact" {
        let mut f = vec![from];
        while r.chance(0.2) || (k == "contra" && f.len() < 2 && r.chance(0.7)) {
            f.push(r.below(n.max(1)));
        }
        if r.chance(0.1) {
            f.clear();
        }
        s["f"] = json!(f);
    }
    if k == "br" {
        s["k"] = json!(*r.pick(&KS));
        s["i"] = json!(r.below(2));
    }
    if r.chance(0.3) {
        s["g"] = json!(true);
    }
}

/// A made-up proof, from its seed, of a claim of the module.
pub fn forged(seed: u64, lib: &Library, m: &Module, goal: &str) -> Value {
    let mut r = Rng::new(seed);
    let mut fs: Vec<(String, Vec<u8>)> = vec![];
    for i in &m.items {
        if let Item::Table { name, table } = i {
            fs.push((name.clone(), table.clone()));
        }
    }
    for (_, v) in lib.imports(m) {
        for f in v {
            if let Some(t) = lib.table(&f) {
                fs.push((f.clone(), t.clone()));
            }
        }
    }
    // Mostly what the claim is about.
    if r.chance(0.7) {
        let used: Vec<_> = fs.iter().filter(|(f, _)| goal.contains(&format!("{f}("))).cloned().collect();
        if !used.is_empty() {
            fs = used;
        }
    }
    let x = goal.strip_prefix("x = Tok.c").and_then(|t| t.chars().next()).and_then(|c| c.to_digit(10)).map(|d| d as u8);
    let mut g = G { fs, k: lib.k, x, ws: vec![], goal };
    let mut cs: Vec<Cl> = vec![];
    let mut p: Vec<Value> = vec![];
    for _ in 0..r.range(0, 2) {
        let c = g.wanted(&mut r, true);
        let mut s = json!({"c": g.text(&c)});
        if r.chance(0.1) {
            s["r"] = json!("fact");
        }
        if r.chance(0.1) {
            s["g"] = json!(true);
        }
        p.push(s);
        cs.push(c);
    }
    for _ in 0..r.range(1, 3) {
        let n = cs.len() as u64;
        let from = if n > 0 { r.below(n) } else { 0 };
        let c = match r.below(10) {
            0..=5 if n > 0 => {
                let mut c = g.leap(&mut r, &cs[from as usize]);
                for _ in 0..6 {
                    if !g.true_(&c) {
                        break;
                    }
                    c = g.leap(&mut r, &cs[from as usize]);
                }
                c
            }
            6 => {
                let f = match cs.get(from as usize) {
                    Some(Cl::Ex(f) | Cl::All(_, f) | Cl::NotEx(f) | Cl::NotAll(f)) if r.chance(0.7) => f.clone(),
                    _ => g.f(&mut r, 1, 1),
                };
                Cl::Let(g.ws.len(), f)
            }
            7 => Cl::Text(g.goal.to_string()),
            8 => Cl::Text("false".into()),
            _ => g.wanted(&mut r, false),
        };
        let mut s = json!({"c": g.text(&c)});
        if let Cl::Let(_, f) = &c {
            s["r"] = json!("wit");
            let v = (0..g.k).find(|a| g.holds(f, &[*a])).unwrap_or(0);
            g.ws.push(v);
        } else {
            rule(&mut r, &mut s, from, n);
        }
        p.push(s);
        cs.push(c);
        while r.chance(0.5) {
            let from = cs.len() - 1;
            let Some((c, k)) = g.unfold(&mut r, &cs[from]) else { break };
            p.push(json!({"c": g.text(&c), "r": "br", "f": [from], "k": k, "i": 0}));
            cs.push(c);
        }
    }
    if r.chance(0.3) {
        let n = p.len() as u64;
        p.push(json!({"c": "false", "r": "contra", "f": [r.below(n), r.below(n)]}));
    }
    json!(p)
}
