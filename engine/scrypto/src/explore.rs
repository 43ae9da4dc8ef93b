//! Path exploration: the code under test is executed natively on symbolic numbers; every comparison of symbolic values
//! is a fork decided by the solver. Paths are re-executed from their decision prefix, in parallel.
use crate::solver::*;
use crate::term::*;
use num_bigint::BigInt;
use num_traits::{One, Signed, Zero};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct PathEnd;
/// Something the engine cannot model (never a property of the code under test): ends the run as an error.
pub struct EngineError(pub String);
pub fn engine_error(m: &str) -> ! { panic_any(EngineError(m.to_string())) }

#[derive(Clone, Debug, Default)]
pub struct Cex {
    pub label: String,
    pub detail: String,
    pub assign: BTreeMap<String, BigInt>,
    pub choices: Vec<(String, u16)>,
    pub notes: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub name: String,
    pub paths: u64,
    pub aborted: u64,
    pub checks: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub violations: Vec<Cex>,
    pub undecided: BTreeMap<String, u64>,
    pub undecided_cex: Vec<Cex>,
    pub by_level: BTreeMap<String, u64>,
    pub funcs: BTreeSet<String>,
    pub errors: Vec<String>,
    pub unexplored: u64,
    pub queries: u64,
    pub solver_ms: u64,
    pub ms: u64,
    pub bounds: BTreeMap<String, String>,
    pub abort_msgs: BTreeMap<String, u64>,
    pub forks: BTreeMap<String, u64>,
    /// paths whose model was executed natively with the same outcome
    pub validated: u64,
    pub mismatches: Vec<Cex>,
    pub samples: Vec<Cex>,
    pub branches: u64,
}

#[derive(Clone)]
pub struct Cfg {
    pub name: String,
    pub threads: usize,
    pub time: Duration,
    pub max_paths: u64,
    pub branch_ms: u64,
    pub check_ms: u64,
    pub profile: Option<usize>,
    pub max_violations: usize,
    pub known: HashSet<String>,
    pub validate: u64,
}

enum Mode { Sym, Conc }

pub struct Ctx {
    mode: Mode,
    prefix: Vec<u16>,
    decisions: Vec<u16>,
    alts: Vec<Vec<u16>>,
    pc: Vec<Form>,
    sent: usize,
    memo: HashMap<Form, bool>,
    solver: Option<Solver>,
    vars: Vec<(String, Option<BigInt>, Option<BigInt>, Vec<BigInt>)>,
    assign: BTreeMap<String, BigInt>,
    choices: Vec<(String, u16)>,
    given: Vec<(String, u16)>,
    given_used: Vec<bool>,
    cfg: Cfg,
    pub funcs: BTreeSet<String>,
    checks: Vec<(String, u64)>,
    covers: BTreeSet<String>,
    fails: Vec<Cex>,
    cands: Vec<Cex>,
    undecided: Vec<Cex>,
    levels: BTreeMap<String, u64>,
    aborts: Vec<String>,
    pub notes: Vec<String>,
    pub in_tx: bool,
    pub rev: bool,
    site: String,
    forks: BTreeMap<String, u64>,
    stop: bool,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = RefCell::new(None);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
pub fn with_ctx<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("no exploration context")))
}
pub fn has_ctx() -> bool { CTX.with(|c| c.borrow().is_some()) }
pub fn concrete() -> bool { with_ctx(|c| matches!(c.mode, Mode::Conc)) }

impl Ctx {
    fn new(mode: Mode, cfg: &Cfg) -> Ctx {
        Ctx {
            mode, prefix: vec![], decisions: vec![], alts: vec![], pc: vec![], sent: 0, memo: HashMap::new(), solver: None,
            vars: vec![], assign: BTreeMap::new(), choices: vec![], given: vec![], given_used: vec![], cfg: cfg.clone(),
            funcs: Default::default(), checks: vec![], covers: Default::default(), fails: vec![], cands: vec![], undecided: vec![],
            levels: Default::default(), aborts: vec![], notes: vec![], in_tx: false, rev: false, site: String::new(), forks: Default::default(), stop: false,
        }
    }
    fn learn(&mut self, f: &Form, b: bool) {
        self.memo.insert(f.clone(), b);
        self.memo.insert(f.clone().not(), !b);
    }
    fn assume(&mut self, f: Form) {
        match &f { Form::And(v) => for x in v { self.learn(x, true) }, _ => {} }
        self.learn(&f, true);
        self.pc.push(f);
    }
    fn sync(&mut self) {
        let s = self.solver.as_mut().unwrap();
        while self.sent < self.pc.len() { s.assert(&self.pc[self.sent]); self.sent += 1; }
    }
    fn query(&mut self, f: &Form, ms: u64) -> Res {
        self.sync();
        let s = self.solver.as_mut().unwrap();
        s.push();
        s.assert(f);
        let r = s.check(ms);
        s.pop();
        r
    }
    fn branch(&mut self, f: Form) -> bool {
        match f { Form::True => return true, Form::False => return false, _ => {} }
        if let Mode::Conc = self.mode { engine_error(&format!("symbolic branch in concrete mode: {}", f.show())); }
        if let Some(b) = self.memo.get(&f) { return *b; }
        let i = self.decisions.len();
        let (b, forced) = if i < self.prefix.len() {
            let d = self.prefix[i];
            (d & 1 == 1, d & 2 == 2)
        } else {
            let ms = self.cfg.branch_ms;
            let t = self.query(&f, ms);
            if t == Res::Unsat { (false, true) } else {
                let e = self.query(&f.clone().not(), ms);
                if e == Res::Unsat { (true, true) } else {
                    let mut alt = self.decisions.clone();
                    alt.push(0);
                    self.alts.push(alt);
                    *self.forks.entry(self.site.clone()).or_default() += 1;
                    (true, false)
                }
            }
        };
        self.decisions.push(b as u16 | if forced { 2 } else { 0 });
        if forced { self.learn(&f, b); } else { self.assume(if b { f } else { f.not() }); }
        b
    }
}

/// The innermost max(x, 0) atoms of a formula.
fn pos_atoms(f: &Form) -> Vec<(A, T)> {
    let (mut seen, mut at, mut ts) = (HashSet::new(), vec![], vec![]);
    f.terms(&mut ts);
    for t in ts { collect_atoms(t, &mut seen, &mut at); }
    at.into_iter().filter_map(|a| if let Atom::Pos(t) = atom_of(a) { Some((a, t)) } else { None }).collect()
}
impl Ctx {
    /// Decides the formula on this path by resolving max/min/abs terms: by the path where it fixes their sign, by cases otherwise.
    fn split(&mut self, f: &Form, hyps: &[Form], depth: usize, budget: &mut i32) -> bool {
        let mut f = f.clone();
        let ms = self.cfg.branch_ms;
        let q = |c: &mut Ctx, g: Form, extra: &[Form], budget: &mut i32| -> bool { *budget -= 1; let mut v = hyps.to_vec(); v.extend(extra.iter().cloned()); v.push(g); let g = all(v); if g == Form::False { return true; } c.query(&g, ms) == Res::Unsat };
        let env = HashMap::new();
        let mut undecided: Vec<(A, T)> = vec![];
        let mut resolved: HashMap<A, Val> = HashMap::new();
        let mut extra: Vec<Form> = vec![]; // the path condition in resolved form
        let last = depth == 0 || pos_atoms(&f).is_empty();
        loop {
            let next = pos_atoms(&f).into_iter().find(|p| !undecided.contains(p)).or_else(|| {
                // then those of the path condition
                if !last { return None; }
                pos_atoms(&all(self.pc.clone())).into_iter().find(|p| !undecided.contains(p) && !resolved.contains_key(&p.0))
            });
            let (a, t) = match next { Some(x) => x, None => break };
            if *budget <= 0 { break; }
            let (up, down) = (ge0(&Val::T(t)), ge0(&neg(&Val::T(t))));
            let v = if hyps.contains(&up) || q(self, up.clone().not(), &extra, budget) { Val::T(t) }
                else if hyps.contains(&down) || q(self, down.clone().not(), &extra, budget) { Val::C(BigInt::zero()) }
                else { undecided.push((a, t)); continue };
            resolved.insert(a, v);
            let mut s = Subst::new(&env);
            s.memo_a = resolved.clone();
            f = s.f(&f);
            extra.clear();
            for p in &self.pc {
                let mut g = p.clone();
                for _ in 0..6 { let h = s.f(&g); if h == g { break; } g = h; } // resolving an inner term makes new outer ones
                if g != *p { extra.push(g); }
            }
            if q(self, Form::True, &extra, budget) { return true; } // the path does not exist
        }
        if f == Form::True { return true; }
        if (!resolved.is_empty() || !hyps.is_empty()) && q(self, f.clone().not(), &extra, budget) { return true; }
        if depth == 0 || undecided.is_empty() {
            if std::env::var("SYM_DEBUG").is_ok() { eprintln!("residual budget {} depth {} {}\n  hyps {}\n   extra {}\n  pc {}\nEND", budget, depth, f.show(), all(hyps.to_vec()).show(), extra.iter().map(|x| x.show()).collect::<Vec<_>>().join("\n     "), self.pc.iter().map(|x| x.show()).collect::<Vec<_>>().join("\n     ")); }
            return false;
        }
        let t = undecided[0].1;
        for h in [ge0(&Val::T(t)), ge0(&neg(&Val::T(t)))] {
            let mut hy = hyps.to_vec();
            hy.push(h);
            if !self.split(&f, &hy, depth - 1, budget) { return false; }
        }
        true
    }
}

pub fn branch(f: Form) -> bool {
    match f { Form::True => true, Form::False => false, f => with_ctx(|c| c.branch(f)) }
}
/// Does the formula hold on every state of this path (no fork)?
pub fn must(f: Form) -> bool {
    match f {
        Form::True => true,
        Form::False => false,
        f => with_ctx(|c| {
            if let Some(b) = c.memo.get(&f) { return *b; }
            let i = c.decisions.len();
            let b = if i < c.prefix.len() { c.prefix[i] & 1 == 1 } else {
                let ms = c.cfg.branch_ms;
                c.query(&f.clone().not(), ms) == Res::Unsat
            };
            c.decisions.push(b as u16 | 4);
            if b { c.learn(&f, true); }
            b
        }),
    }
}
pub fn assume(f: Form) {
    match f {
        Form::True => {}
        Form::False => end_path(),
        f => {
            let stop = with_ctx(|c| {
                if let Some(b) = c.memo.get(&f) { return !*b; }
                c.assume(f);
                false
            });
            if stop { end_path(); }
        }
    }
}
/// Assumption followed by a feasibility query (paths that cannot exist end here).
pub fn assume_now(f: Form) {
    assume(f);
    let dead = with_ctx(|c| {
        if let Mode::Conc = c.mode { return false; }
        let i = c.decisions.len();
        let dead = if i < c.prefix.len() { c.prefix[i] & 1 == 0 } else {
            let ms = c.cfg.branch_ms;
            c.query(&Form::True, ms) == Res::Unsat
        };
        c.decisions.push(!dead as u16 | 8);
        dead
    });
    if dead { end_path(); }
}
pub fn end_path() -> ! { panic_any(PathEnd) }

/// Non-deterministic choice among n alternatives.
pub fn choose(n: usize, name: &str) -> usize {
    if n <= 1 { return 0; }
    with_ctx(|c| match c.mode {
        Mode::Conc => {
            for i in 0..c.given.len() {
                if !c.given_used[i] && c.given[i].0 == name { c.given_used[i] = true; let k = c.given[i].1; c.choices.push((name.to_string(), k)); return (k as usize).min(n - 1); }
            }
            c.choices.push((name.to_string(), 0));
            0
        }
        Mode::Sym => {
            let i = c.decisions.len();
            let k = if i < c.prefix.len() { c.prefix[i] >> 4 } else {
                for k in 1..n { let mut alt = c.decisions.clone(); alt.push((k as u16) << 4); c.alts.push(alt); }
                0
            };
            c.decisions.push(k << 4);
            c.choices.push((name.to_string(), k));
            k as usize
        }
    })
}
pub fn fresh(name: &str, lo: Option<BigInt>, hi: Option<BigInt>, samples: Vec<BigInt>) -> Val {
    with_ctx(|c| {
        let mut n = name.to_string();
        let mut i = 1;
        while c.vars.iter().any(|v| v.0 == n) { i += 1; n = format!("{}#{}", name, i); }
        c.vars.push((n.clone(), lo.clone(), hi.clone(), samples.clone()));
        match c.mode {
            Mode::Conc => {
                let v = c.assign.get(&n).cloned().unwrap_or_else(|| {
                    let d = samples.first().cloned().unwrap_or_default();
                    match (&lo, &hi) { (Some(l), _) if &d < l => l.clone(), (_, Some(h)) if &d > h => h.clone(), _ => d }
                });
                c.assign.insert(n, v.clone());
                Val::C(v)
            }
            Mode::Sym => {
                if let Some(k) = c.cfg.profile {
                    if !samples.is_empty() { return Val::C(samples[k % samples.len()].clone()); }
                }
                if lo.is_some() && lo == hi { return Val::C(lo.unwrap()); }
                var(&n, lo, hi)
            }
        }
    })
}
pub fn note(s: impl Into<String>) { let s = s.into(); with_ctx(|c| c.notes.push(s)); }
pub fn set_site(s: &str) { if has_ctx() { with_ctx(|c| c.site = s.to_string()); } }
pub fn cover(label: &str) {
    with_ctx(|c| { c.covers.insert(label.to_string()); });
}
pub fn reversed_maps() -> bool { CTX.with(|c| c.try_borrow().ok().and_then(|c| c.as_ref().map(|c| c.rev)).unwrap_or(false)) }
pub fn set_reversed_maps(b: bool) { with_ctx(|c| c.rev = b) }
pub fn record_fn(n: &str) { if has_ctx() { with_ctx(|c| { if !c.funcs.contains(n) { c.funcs.insert(n.to_string()); } }); } }

/// The property assertion: must hold for every value on this path.
pub fn check(label: &str, f: Form) { check_d(label, f, String::new) }
pub fn check_d(label: &str, f: Form, detail: impl FnOnce() -> String) {
    with_ctx(|c| match c.mode {
        Mode::Conc => match f {
            Form::True => {}
            Form::False => { let d = detail(); c.fails.push(Cex { label: label.into(), detail: d, assign: c.assign.clone(), choices: c.choices.clone(), notes: c.notes.clone() }); }
            f => engine_error(&format!("symbolic check in concrete mode {}", f.show())),
        },
        Mode::Sym => {
            c.checks.push((label.to_string(), 1));
            if f == Form::True { *c.levels.entry("simplified".into()).or_default() += 1; return; }
            if c.stop { return; }
            if c.memo.get(&f) == Some(&true) { *c.levels.entry("path".into()).or_default() += 1; return; }
            let neg = f.clone().not();
            let r = c.query(&neg, c.cfg.check_ms);
            if r == Res::Unsat { *c.levels.entry("linear".into()).or_default() += 1; c.learn(&f, true); return; }
            let mut budget = 60;
            if c.split(&f, &[], 4, &mut budget) { *c.levels.entry("case split".into()).or_default() += 1; c.assume(f); return; }
            let mut goals = c.pc.clone();
            goals.push(neg);
            let vars = c.vars.clone();
            match escalate(&goals, &vars, c.cfg.check_ms) {
                Outcome::Unsat(l) => { *c.levels.entry(l.into()).or_default() += 1; c.assume(f); } // a proven fact helps later queries
                Outcome::Cands(v) => {
                    for a in v {
                        c.cands.push(Cex { label: label.into(), detail: String::new(), assign: a, choices: c.choices.clone(), notes: vec![] });
                    }
                    let d = format!("{}", f.show());
                    c.undecided.push(Cex { label: label.into(), detail: d, assign: Default::default(), choices: c.choices.clone(), notes: c.notes.clone() });
                }
            }
        }
    })
}

enum Outcome { Unsat(&'static str), Cands(Vec<BTreeMap<String, BigInt>>) }

/// Replaces variables by constants and rebuilds (and so re-simplifies) the terms.
pub struct Subst<'a> { env: &'a HashMap<String, BigInt>, memo_a: HashMap<A, Val>, memo_t: HashMap<T, Val> }
impl<'a> Subst<'a> {
    pub fn new(env: &'a HashMap<String, BigInt>) -> Self { Subst { env, memo_a: HashMap::new(), memo_t: HashMap::new() } }
    pub fn t(&mut self, t: T) -> Val {
        if let Some(v) = self.memo_t.get(&t) { return v.clone(); }
        let l = lin_t(t);
        let mut r = Val::C(l.c.clone());
        for (a, k) in &l.t { let v = self.a(*a); r = add(&r, &scale(&v, k)); }
        self.memo_t.insert(t, r.clone());
        r
    }
    fn a(&mut self, a: A) -> Val {
        if let Some(v) = self.memo_a.get(&a) { return v.clone(); }
        let v = match atom_of(a) {
            Atom::Var(n) => match self.env.get(&n) { Some(c) => Val::C(c.clone()), None => atom_val(a) },
            Atom::Mono(f) => f.iter().fold(Val::C(BigInt::one()), |p, x| { let v = self.a(*x); mul(&p, &v) }),
            Atom::TDiv(t, d) => { let v = self.t(t); tdiv_c(&v, &d) }
            Atom::FDiv(t, d) => { let v = self.t(t); fdiv_c(&v, &d) }
            Atom::QDiv(x, y) => { let (x, y) = (self.t(x), self.t(y)); if y == Val::C(BigInt::zero()) { y } else { qdiv(&x, &y) } }
            Atom::Pos(t) => { let v = self.t(t); pos(&v) }
            Atom::Alias(t) => self.t(t),
        };
        self.memo_a.insert(a, v.clone());
        v
    }
    pub fn f(&mut self, f: &Form) -> Form {
        match f {
            Form::True | Form::False => f.clone(),
            Form::Ge(t) => { let v = self.t(*t); ge0(&v) }
            Form::Eq(t) => { let v = self.t(*t); eq0(&v) }
            Form::Not(g) => self.f(g).not(),
            Form::And(v) => all(v.iter().map(|x| self.f(x)).collect()),
            Form::Or(v) => any(v.iter().map(|x| self.f(x)).collect()),
        }
    }
}

fn solve(goals: &[Form], level: Level, ms: u64) -> (Res, HashMap<A, BigInt>, Vec<A>) {
    let mut s = Solver::new(level);
    for g in goals { s.assert(g); }
    let r = s.check(ms);
    let (mut seen, mut atoms) = (HashSet::new(), vec![]);
    for g in goals { let mut ts = vec![]; g.terms(&mut ts); for t in ts { collect_atoms(t, &mut seen, &mut atoms); } }
    let vals = if r == Res::Sat { s.values(&atoms) } else { HashMap::new() };
    (r, vals, atoms)
}
fn var_values(vals: &HashMap<A, BigInt>) -> HashMap<String, BigInt> {
    vals.iter().filter_map(|(a, v)| if let Atom::Var(n) = atom_of(*a) { Some((n, v.clone())) } else { None }).collect()
}

/// Restricts the goals to the conjuncts connected to the last one is not needed: path conditions are small.
fn escalate(goals: &[Form], vars: &[(String, Option<BigInt>, Option<BigInt>, Vec<BigInt>)], ms: u64) -> Outcome {
    let mut cands = vec![];
    let accept = |env: &HashMap<String, BigInt>, cands: &mut Vec<BTreeMap<String, BigInt>>| -> bool {
        let mut memo = HashMap::new();
        let ok = goals.iter().all(|g| g.eval(env, &mut memo));
        if ok { cands.push(env.iter().map(|(k, v)| (k.clone(), v.clone())).collect()); }
        ok
    };
    // integers, products opaque
    let (r, lra_vals, atoms) = solve(goals, Level::Lia, ms);
    if r == Res::Unsat { return Outcome::Unsat("integers"); }
    let nonlinear = atoms.iter().any(|a| matches!(atom_of(*a), Atom::Mono(_) | Atom::QDiv(..)));
    if r == Res::Sat && accept(&var_values(&lra_vals), &mut cands) { return Outcome::Cands(cands); }
    if nonlinear {
        let (r, _, _) = solve(goals, Level::Nra, ms);
        if r == Res::Unsat { return Outcome::Unsat("nonlinear reals"); }
        let (r, v, _) = solve(goals, Level::Nia, ms);
        if r == Res::Unsat { return Outcome::Unsat("nonlinear integers"); }
        if r == Res::Sat && accept(&var_values(&v), &mut cands) { return Outcome::Cands(cands); }
    }
    // counterexample search: pin the variables that occur in products and solve the linear rest
    let mut weight: BTreeMap<String, usize> = BTreeMap::new();
    for a in &atoms {
        let (mut seen, mut sub) = (HashSet::new(), vec![]);
        match atom_of(*a) {
            Atom::Mono(f) => for x in f { collect_atom(x, &mut seen, &mut sub) },
            Atom::QDiv(_, y) => collect_atoms(y, &mut seen, &mut sub),
            _ => {}
        }
        for x in sub { if let Atom::Var(n) = atom_of(x) { *weight.entry(n).or_default() += 1; } }
    }
    let mut cover_sets: Vec<Vec<String>> = vec![];
    // greedy: pin variables until linear
    {
        let mut env: HashMap<String, BigInt> = HashMap::new();
        let mut pinned = vec![];
        loop {
            let mut s = Subst::new(&env);
            let g2: Vec<Form> = goals.iter().map(|g| s.f(g)).collect();
            let (mut seen, mut at) = (HashSet::new(), vec![]);
            for g in &g2 { let mut ts = vec![]; g.terms(&mut ts); for t in ts { collect_atoms(t, &mut seen, &mut at); } }
            let mut w: BTreeMap<String, usize> = BTreeMap::new();
            for a in &at {
                let (mut seen, mut sub) = (HashSet::new(), vec![]);
                match atom_of(*a) {
                    Atom::Mono(f) => for x in f { collect_atom(x, &mut seen, &mut sub) },
                    Atom::QDiv(_, y) => collect_atoms(y, &mut seen, &mut sub),
                    _ => {}
                }
                for x in sub { if let Atom::Var(n) = atom_of(x) { *w.entry(n).or_default() += 1; } }
            }
            // prefer variables with samples (declared as scale factors)
            let best = w.iter().max_by_key(|(n, k)| { let s = vars.iter().find(|v| &v.0 == *n).map_or(0, |v| !v.3.is_empty() as usize); (s, **k, std::cmp::Reverse((*n).clone())) });
            match best {
                None => break,
                Some((n, _)) => {
                    let v = vars.iter().find(|v| &v.0 == n);
                    let val = v.and_then(|v| v.3.get(1).or(v.3.first()).cloned()).unwrap_or_else(|| e18() * 7);
                    env.insert(n.clone(), val);
                    pinned.push(n.clone());
                }
            }
            if pinned.len() > 60 { break; }
        }
        cover_sets.push(pinned);
    }
    let model = var_values(&lra_vals);
    let t0 = Instant::now();
    for set in &cover_sets {
        for k in 0..14usize {
            if t0.elapsed() > Duration::from_secs(20) { break; }
            let mut env: HashMap<String, BigInt> = HashMap::new();
            for (j, n) in set.iter().enumerate() {
                let v = vars.iter().find(|v| &v.0 == n);
                let (lo, hi, samples) = v.map(|v| (v.1.clone(), v.2.clone(), v.3.clone())).unwrap_or((None, None, vec![]));
                let generic = [e18(), e18() * 2, e18() / 2, e18() * 1000, e18() / 100, BigInt::from(60), -e18(), e18() / 3, e18() * 10];
                let mut x = match k {
                    0 => model.get(n).cloned().unwrap_or_else(e18),
                    _ => {
                        let pool: Vec<BigInt> = if samples.is_empty() { generic.to_vec() } else { samples.clone() };
                        let idx = match k { 1 => 0, 2 => 1, 3 => 2, 4 => pool.len() - 1, _ => (j * 7 + k * 3 + (j * k) % 5) as usize };
                        pool[idx % pool.len()].clone()
                    }
                };
                if let Some(l) = &lo { if &x < l { x = l.clone(); } }
                if let Some(h) = &hi { if &x > h { x = h.clone(); } }
                env.insert(n.clone(), x);
            }
            let mut s = Subst::new(&env);
            let mut g2: Vec<Form> = goals.iter().map(|g| s.f(g)).collect();
            if g2.iter().any(|g| *g == Form::False) { continue; }
            // bounds of the variables that were simplified away stay valid by construction
            g2.retain(|g| *g != Form::True);
            let (r, v, _) = solve(&g2, Level::Lia, ms.min(1500));
            if r == Res::Sat {
                let mut full = var_values(&v);
                for (n, x) in &env { full.insert(n.clone(), x.clone()); }
                for v in vars { if !full.contains_key(&v.0) { let d = v.3.first().cloned().or(v.1.clone()).unwrap_or_default(); full.insert(v.0.clone(), d); } }
                if accept(&full, &mut cands) && cands.len() >= 2 { return Outcome::Cands(cands); }
            }
        }
    }
    let _ = weight;
    Outcome::Cands(cands)
}

/// Runs a transaction of the code under test: a panic inside it is an aborted (rolled back) transaction.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let was = with_ctx(|c| std::mem::replace(&mut c.in_tx, true));
    let r = catch_unwind(AssertUnwindSafe(f));
    with_ctx(|c| c.in_tx = was);
    match r {
        Ok(v) => Ok(v),
        Err(e) => {
            if e.is::<PathEnd>() || e.is::<EngineError>() { resume_unwind(e); }
            let m = LAST_PANIC.with(|l| l.borrow().clone());
            with_ctx(|c| c.aborts.push(m.clone()));
            Err(m)
        }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let s = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else if let Some(s) = p.downcast_ref::<EngineError>() { format!("ENGINE {}", s.0) } else { String::new() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{} @ {}", s, loc));
    }));
}

struct Queue { work: Vec<Vec<u16>>, active: usize, paths: u64, stop: bool }

pub fn explore(cfg: &Cfg, f: &(dyn Fn() + Sync)) -> Report {
    install_hook();
    let t0 = Instant::now();
    let q0 = QUERIES.load(std::sync::atomic::Ordering::Relaxed);
    let s0 = SOLVER_US.load(std::sync::atomic::Ordering::Relaxed);
    let queue = Mutex::new(Queue { work: vec![vec![]], active: 0, paths: 0, stop: false });
    let cv = Condvar::new();
    let report = Mutex::new(Report { name: cfg.name.clone(), ..Default::default() });
    std::thread::scope(|sc| {
        for _ in 0..cfg.threads {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || {
                let mut solver: Option<Solver> = None;
                loop {
                    let prefix = {
                        let mut q = queue.lock().unwrap();
                        loop {
                            if q.stop || (q.work.is_empty() && q.active == 0) { cv.notify_all(); return; }
                            if t0.elapsed() > cfg.time || q.paths >= cfg.max_paths {
                                q.stop = true;
                                report.lock().unwrap().unexplored += q.work.len() as u64;
                                cv.notify_all();
                                return;
                            }
                            if let Some(p) = q.work.pop() { q.active += 1; q.paths += 1; break p; }
                            q = cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
                        }
                    };
                    reset_arena();
                    crate::reset_world();
                    let mut s = match solver.take() { Some(s) if !s.dead => s, _ => Solver::new(Level::Lra) };
                    s.reset_path();
                    let mut ctx = Ctx::new(Mode::Sym, cfg);
                    ctx.prefix = prefix;
                    ctx.solver = Some(s);
                    CTX.with(|c| *c.borrow_mut() = Some(ctx));
                    let r = catch_unwind(AssertUnwindSafe(|| f()));
                    let mut ctx = CTX.with(|c| c.borrow_mut().take()).unwrap();
                    solver = ctx.solver.take();
                    let mut err = None;
                    if let Err(e) = r {
                        if !e.is::<PathEnd>() { err = Some(LAST_PANIC.with(|l| l.borrow().clone())); }
                    }
                    // concrete replay of the candidates
                    let cands = std::mem::take(&mut ctx.cands);
                    let mut confirmed: Vec<Cex> = vec![];
                    for c in &cands {
                        if confirmed.iter().any(|x| x.label == c.label) { continue; }
                        let (fails, _, _) = replay(cfg, f, c);
                        if let Some(x) = fails.into_iter().find(|x| x.label == c.label) { confirmed.push(x); }
                    }
                    // validation of the encoding: run a model of this path natively and compare what it reached
                    let (mut val, mut mis, mut smp) = (0, None, None);
                    let want = { let r = report.lock().unwrap(); cfg.profile.is_none() && err.is_none() && !ctx.checks.is_empty() && r.validated + (r.mismatches.len() as u64) < cfg.validate && (r.paths % 7 == 0 || r.paths < 4) };
                    if want {
                        if let Outcome::Cands(v) = escalate(&ctx.pc, &ctx.vars, 400) {
                            if let Some(a) = v.into_iter().next() {
                                let c = Cex { label: "validation".into(), detail: format!("{:?}", ctx.covers), assign: a, choices: ctx.choices.clone(), notes: vec![] };
                                let (fails, e, cov) = replay(cfg, f, &c);
                                if e.is_none() && fails.is_empty() && cov == ctx.covers { val = 1; smp = Some(c); }
                                else if confirmed.is_empty() { let mut c = c; c.notes = vec![format!("replay reached {:?} error {:?} failures {:?}", cov, e, fails.iter().map(|f| f.label.clone()).collect::<Vec<_>>())]; mis = Some(c); }
                            }
                        }
                    }
                    crate::reset_world();
                    let mut stop = false;
                    {
                        let mut r = report.lock().unwrap();
                        r.paths += 1;
                        r.branches += ctx.decisions.len() as u64;
                        r.validated += val;
                        if let Some(c) = mis { r.mismatches.push(c); }
                        if let Some(c) = smp { if r.samples.len() < 3 { r.samples.push(c); } }
                        if !ctx.aborts.is_empty() { r.aborted += 1; }
                        for a in &ctx.aborts { let k: String = a.split(", VALUE").next().unwrap_or("").chars().take(100).collect(); let k = if a.contains(", VALUE") { k } else { a.chars().take(160).collect() }; *r.abort_msgs.entry(k).or_default() += 1; }
                        for (l, n) in &ctx.checks { *r.checks.entry(l.clone()).or_default() += n; }
                        for l in &ctx.covers { *r.covers.entry(l.clone()).or_default() += 1; }
                        for (l, n) in &ctx.levels { *r.by_level.entry(l.clone()).or_default() += n; }
                        for (l, n) in &ctx.forks { *r.forks.entry(l.clone()).or_default() += n; }
                        r.funcs.extend(ctx.funcs.iter().cloned());
                        for v in &ctx.vars {
                            if !r.bounds.contains_key(&v.0) {
                                let s = |x: &Option<BigInt>| x.as_ref().map(fmt_num).unwrap_or("-".into());
                                r.bounds.insert(v.0.clone(), format!("[{}, {}]", s(&v.1), s(&v.2)));
                            }
                        }
                        for u in &ctx.undecided {
                            if confirmed.iter().any(|c| c.label == u.label) { continue; }
                            *r.undecided.entry(u.label.clone()).or_default() += 1;
                            if r.undecided_cex.len() < 20 { let mut u = u.clone(); u.notes.push(format!("candidates {}", cands.iter().filter(|c| c.label == u.label).count())); r.undecided_cex.push(u); }
                        }
                        if let Some(e) = err { if r.errors.len() < 10 { r.errors.push(e); } }
                        r.violations.extend(confirmed);
                        let fresh = r.violations.iter().filter(|v| !cfg.known.contains(&v.label)).count();
                        if fresh >= cfg.max_violations { stop = true; }
                        if r.errors.len() >= 10 { stop = true; }
                    }
                    let mut q = queue.lock().unwrap();
                    q.active -= 1;
                    q.work.extend(ctx.alts.drain(..));
                    if stop { q.stop = true; }
                    cv.notify_all();
                }
            }).unwrap();
        }
    });
    let mut r = report.into_inner().unwrap();
    r.queries = QUERIES.load(std::sync::atomic::Ordering::Relaxed) - q0;
    r.solver_ms = (SOLVER_US.load(std::sync::atomic::Ordering::Relaxed) - s0) / 1000;
    r.ms = t0.elapsed().as_millis() as u64;
    r
}

pub fn fmt_num(x: &BigInt) -> String {
    let e = BigInt::from(1_000_000_000_000_000u64);
    if x.abs() > e && (x % &e).is_zero() {
        let (i, f) = (x / e18(), (x % e18()).abs());
        if f.is_zero() { format!("{}e18", i) } else { format!("{}{}.{:018}e18", if x.is_negative() { "-" } else { "" }, (x / e18()).abs(), f) }
    } else { x.to_string() }
}

/// Native run of the harness on concrete inputs (real Radix arithmetic): returns the failed checks.
pub fn replay(cfg: &Cfg, f: &(dyn Fn() + Sync), c: &Cex) -> (Vec<Cex>, Option<String>, BTreeSet<String>) {
    install_hook();
    reset_arena_keep();
    crate::reset_world();
    let mut ctx = Ctx::new(Mode::Conc, cfg);
    ctx.assign = c.assign.clone();
    ctx.given = c.choices.clone();
    ctx.given_used = vec![false; c.choices.len()];
    CTX.with(|x| *x.borrow_mut() = Some(ctx));
    let r = catch_unwind(AssertUnwindSafe(|| f()));
    let ctx = CTX.with(|x| x.borrow_mut().take()).unwrap();
    let mut err = None;
    if let Err(e) = r { if !e.is::<PathEnd>() { err = Some(LAST_PANIC.with(|l| l.borrow().clone())); } }
    let covers = ctx.covers.clone();
    let mut fails = ctx.fails;
    for x in fails.iter_mut() { x.notes = ctx.notes.clone(); x.notes.extend(ctx.aborts.iter().map(|a| format!("aborted: {}", a))); }
    (fails, err, covers)
}
fn reset_arena_keep() {}
thread_local! { static IDEAL: std::cell::Cell<bool> = std::cell::Cell::new(true); }
/// Is configuration compression modelled as lossless?
pub fn ideal_compression() -> bool { IDEAL.with(|i| i.get()) }
pub fn set_ideal_compression(b: bool) { IDEAL.with(|i| i.set(b)) }
