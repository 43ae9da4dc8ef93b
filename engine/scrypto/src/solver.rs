//! SMT back end: one persistent solver process per worker thread (SMT-LIB 2 over a pipe).
use crate::term::*;
use num_bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Form {
    True,
    False,
    /// lin >= 0
    Ge(T),
    /// lin = 0
    Eq(T),
    Not(Box<Form>),
    And(Vec<Form>),
    Or(Vec<Form>),
}
impl Form {
    pub fn of(b: bool) -> Form { if b { Form::True } else { Form::False } }
    pub fn not(self) -> Form {
        match self {
            Form::True => Form::False,
            Form::False => Form::True,
            Form::Not(f) => *f,
            f => Form::Not(Box::new(f)),
        }
    }
    pub fn and(self, o: Form) -> Form { all(vec![self, o]) }
    pub fn or(self, o: Form) -> Form { any(vec![self, o]) }
    pub fn implies(self, o: Form) -> Form { self.not().or(o) }
    pub fn iff(self, o: Form) -> Form { self.clone().implies(o.clone()).and(o.implies(self)) }
    pub fn terms(&self, out: &mut Vec<T>) {
        match self {
            Form::Ge(t) | Form::Eq(t) => out.push(*t),
            Form::Not(f) => f.terms(out),
            Form::And(v) | Form::Or(v) => v.iter().for_each(|f| f.terms(out)),
            _ => {}
        }
    }
    pub fn eval(&self, env: &HashMap<String, BigInt>, memo: &mut HashMap<A, BigInt>) -> bool {
        match self {
            Form::True => true,
            Form::False => false,
            Form::Ge(t) => !eval_t(*t, env, memo).is_negative(),
            Form::Eq(t) => eval_t(*t, env, memo).is_zero(),
            Form::Not(f) => !f.eval(env, memo),
            Form::And(v) => v.iter().all(|f| f.eval(env, memo)),
            Form::Or(v) => v.iter().any(|f| f.eval(env, memo)),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Form::True => "true".into(),
            Form::False => "false".into(),
            Form::Ge(t) => format!("({} >= 0)", show(&Val::T(*t))),
            Form::Eq(t) => format!("({} = 0)", show(&Val::T(*t))),
            Form::Not(f) => format!("!{}", f.show()),
            Form::And(v) => format!("({})", v.iter().map(|f| f.show()).collect::<Vec<_>>().join(" & ")),
            Form::Or(v) => format!("({})", v.iter().map(|f| f.show()).collect::<Vec<_>>().join(" | ")),
        }
    }
}
pub fn all(v: Vec<Form>) -> Form {
    let mut o = vec![];
    for f in v {
        match f { Form::True => {}, Form::False => return Form::False, Form::And(x) => o.extend(x), f => o.push(f) }
    }
    match o.len() { 0 => Form::True, 1 => o.pop().unwrap(), _ => Form::And(o) }
}
pub fn any(v: Vec<Form>) -> Form {
    let mut o = vec![];
    for f in v {
        match f { Form::False => {}, Form::True => return Form::True, Form::Or(x) => o.extend(x), f => o.push(f) }
    }
    match o.len() { 0 => Form::False, 1 => o.pop().unwrap(), _ => Form::Or(o) }
}
pub fn ge0(v: &Val) -> Form { match norm_ge(v) { Ok(t) => Form::Ge(t), Err(b) => Form::of(b) } }
pub fn eq0(v: &Val) -> Form { match norm_eq(v) { Ok(t) => Form::Eq(t), Err(b) => Form::of(b) } }
pub fn ge(a: &Val, b: &Val) -> Form { ge0(&sub(a, b)) }
pub fn le(a: &Val, b: &Val) -> Form { ge(b, a) }
pub fn gt(a: &Val, b: &Val) -> Form { ge0(&sub(&sub(a, b), &Val::C(BigInt::one()))) }
pub fn lt(a: &Val, b: &Val) -> Form { gt(b, a) }
pub fn eq(a: &Val, b: &Val) -> Form { eq0(&sub(a, b)) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Res { Sat, Unsat, Unknown }

pub static QUERIES: AtomicU64 = AtomicU64::new(0);
pub static SOLVER_US: AtomicU64 = AtomicU64::new(0);
pub static UNKNOWNS: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Level {
    /// reals, products opaque with lemma instances (linear arithmetic)
    Lra,
    /// integers, products opaque
    Lia,
    /// reals, genuine products
    Nra,
    /// integers, genuine products
    Nia,
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<std::process::ChildStdout>,
    buf: String,
    level: Level,
    declared: Vec<HashSet<A>>,
    depth: usize,
    pub dead: bool,
}

fn num(n: &BigInt, real: bool) -> String {
    let s = if real { format!("{}.0", n.abs()) } else { n.abs().to_string() };
    if n.is_negative() { format!("(- {})", s) } else { s }
}

impl Drop for Solver {
    fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); }
}

impl Solver {
    pub fn new(level: Level) -> Solver {
        let bin = std::env::var("SYM_SOLVER").unwrap_or_else(|_| "z3-new".into());
        let mut child = Command::new(&bin).arg("-in").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()
            .or_else(|_| Command::new("z3").arg("-in").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn())
            .expect("no SMT solver");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Solver { child, inp, out, buf: String::new(), level, declared: vec![HashSet::new()], depth: 0, dead: false };
        s.send("(set-option :print-success false)");
        s.send("(set-option :produce-models true)");
        s
    }
    pub fn level(&self) -> Level { self.level }
    fn real(&self) -> bool { matches!(self.level, Level::Lra | Level::Nra) }
    fn products(&self) -> bool { matches!(self.level, Level::Nia | Level::Nra) }
    fn send(&mut self, s: &str) { self.buf.push_str(s); self.buf.push('\n'); }
    fn flush(&mut self) {
        if self.dead { self.buf.clear(); return; }
        if self.inp.write_all(self.buf.as_bytes()).is_err() || self.inp.flush().is_err() { self.dead = true; }
        self.buf.clear();
    }
    pub fn push(&mut self) { self.send("(push 1)"); self.depth += 1; self.declared.push(HashSet::new()); }
    pub fn pop(&mut self) { self.send("(pop 1)"); self.depth -= 1; self.declared.pop(); }
    pub fn reset_path(&mut self) {
        while self.depth > 0 { self.pop(); }
        self.push();
    }
    fn known(&self, a: A) -> bool { self.declared.iter().any(|s| s.contains(&a)) }

    fn lin_str(&self, l: &Lin) -> String {
        let r = self.real();
        let mut parts = vec![];
        if !l.c.is_zero() || l.t.is_empty() { parts.push(num(&l.c, r)); }
        for (a, k) in &l.t {
            if k.is_one() { parts.push(format!("a{}", a)); } else { parts.push(format!("(* {} a{})", num(k, r), a)); }
        }
        if parts.len() == 1 { parts.pop().unwrap() } else { format!("(+ {})", parts.join(" ")) }
    }
    fn form_str(&self, f: &Form) -> String {
        let z = if self.real() { "0.0" } else { "0" };
        match f {
            Form::True => "true".into(),
            Form::False => "false".into(),
            Form::Ge(t) => format!("(>= {} {})", self.lin_str(&lin_t(*t)), z),
            Form::Eq(t) => format!("(= {} {})", self.lin_str(&lin_t(*t)), z),
            Form::Not(g) => match &**g {
                // integers: not (x >= 0) is -x - 1 >= 0
                Form::Ge(t) => format!("(<= {} {})", self.lin_str(&lin_t(*t)), num(&BigInt::from(-1), self.real())),
                Form::Eq(t) => {
                    let s = self.lin_str(&lin_t(*t));
                    format!("(or (>= {} {}) (<= {} {}))", s, num(&BigInt::one(), self.real()), s, num(&BigInt::from(-1), self.real()))
                }
                Form::And(v) => format!("(or {})", v.iter().map(|x| self.form_str(&x.clone().not())).collect::<Vec<_>>().join(" ")),
                Form::Or(v) => format!("(and {})", v.iter().map(|x| self.form_str(&x.clone().not())).collect::<Vec<_>>().join(" ")),
                Form::True => "false".into(),
                Form::False => "true".into(),
                Form::Not(h) => self.form_str(h),
            },
            Form::And(v) => format!("(and {})", v.iter().map(|x| self.form_str(x)).collect::<Vec<_>>().join(" ")),
            Form::Or(v) => format!("(or {})", v.iter().map(|x| self.form_str(x)).collect::<Vec<_>>().join(" ")),
        }
    }
    fn declare_for(&mut self, f: &Form) {
        let mut ts = vec![];
        f.terms(&mut ts);
        for t in ts { self.declare_t(t); }
    }
    fn declare_t(&mut self, t: T) {
        let l = lin_t(t);
        for (a, _) in &l.t { self.declare_a(*a); }
    }
    fn declare_a(&mut self, a: A) {
        if self.known(a) { return; }
        self.declared.last_mut().unwrap().insert(a);
        let sort = if self.real() { "Real" } else { "Int" };
        self.send(&format!("(declare-const a{} {})", a, sort));
        let at = atom_of(a);
        let iv = atom_interval(a);
        if let Some(lo) = &iv.0 { let s = format!("(assert (>= a{} {}))", a, num(lo, self.real())); self.send(&s); }
        if let Some(hi) = &iv.1 { let s = format!("(assert (<= a{} {}))", a, num(hi, self.real())); self.send(&s); }
        if let Atom::Mono(f) = &at {
            for x in f { self.declare_a(*x); }
            if self.products() {
                let s = format!("(assert (= a{} (* {})))", a, f.iter().map(|x| format!("a{}", x)).collect::<Vec<_>>().join(" "));
                self.send(&s);
                return;
            }
        }
        for f in facts(a, &at) { self.assert(&f); }
    }
    pub fn assert(&mut self, f: &Form) {
        if let Form::True = f { return; }
        self.declare_for(f);
        let s = format!("(assert {})", self.form_str(f));
        self.send(&s);
    }
    pub fn check(&mut self, ms: u64) -> Res {
        self.send(&format!("(set-option :timeout {})", ms));
        self.send("(check-sat)");
        self.flush();
        let t0 = Instant::now();
        let l = self.read_line();
        SOLVER_US.fetch_add(t0.elapsed().as_micros() as u64, Ordering::Relaxed);
        QUERIES.fetch_add(1, Ordering::Relaxed);
        match l.trim() {
            "sat" => Res::Sat,
            "unsat" => Res::Unsat,
            x => {
                if x.starts_with("(error") { eprintln!("solver error: {}", x); }
                UNKNOWNS.fetch_add(1, Ordering::Relaxed);
                Res::Unknown
            }
        }
    }
    fn read_line(&mut self) -> String {
        let mut s = String::new();
        if self.dead || self.out.read_line(&mut s).unwrap_or(0) == 0 { self.dead = true; return "unknown".into(); }
        s
    }
    /// Values of the given atoms in the current model (floor of rationals).
    pub fn values(&mut self, atoms: &[A]) -> HashMap<A, BigInt> {
        let mut r = HashMap::new();
        let known: Vec<A> = atoms.iter().cloned().filter(|a| self.known(*a)).collect();
        if known.is_empty() { return r; }
        let q = format!("(get-value ({}))", known.iter().map(|a| format!("a{}", a)).collect::<Vec<_>>().join(" "));
        self.send(&q);
        self.flush();
        let mut text = String::new();
        let mut bal = 0i32;
        loop {
            let l = self.read_line();
            if self.dead { return r; }
            for c in l.chars() { if c == '(' { bal += 1 } else if c == ')' { bal -= 1 } }
            text.push_str(&l);
            if bal <= 0 { break; }
        }
        let toks = tokens(&text);
        let mut p = 0;
        let e = parse(&toks, &mut p);
        if let Sx::L(items) = e {
            for it in items {
                if let Sx::L(kv) = it {
                    if kv.len() == 2 {
                        if let Sx::S(n) = &kv[0] {
                            if let (Some(id), Some((num, den))) = (n[1..].parse::<A>().ok(), rat(&kv[1])) {
                                use num_integer::Integer;
                                r.insert(id, num.div_floor(&den));
                            }
                        }
                    }
                }
            }
        }
        r
    }
}

enum Sx { S(String), L(Vec<Sx>) }
fn tokens(s: &str) -> Vec<String> {
    s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|x| x.to_string()).collect()
}
fn parse(t: &[String], p: &mut usize) -> Sx {
    if *p >= t.len() { return Sx::L(vec![]); }
    if t[*p] == "(" {
        *p += 1;
        let mut v = vec![];
        while *p < t.len() && t[*p] != ")" { v.push(parse(t, p)); }
        *p += 1;
        Sx::L(v)
    } else { *p += 1; Sx::S(t[*p - 1].clone()) }
}
fn rat(e: &Sx) -> Option<(BigInt, BigInt)> {
    match e {
        Sx::S(s) => {
            let s = s.trim_end_matches('?');
            if let Some((i, f)) = s.split_once('.') {
                let den = num_traits::pow(BigInt::from(10), f.len());
                let n: BigInt = format!("{}{}", i, f).parse().ok()?;
                Some((n, den))
            } else { Some((s.parse().ok()?, BigInt::one())) }
        }
        Sx::L(v) => match v.as_slice() {
            [Sx::S(o), x] if o == "-" => rat(x).map(|(n, d)| (-n, d)),
            [Sx::S(o), x, y] if o == "/" => { let (a, b) = rat(x)?; let (c, d) = rat(y)?; let (n, m) = (a * d, b * c); if m.is_negative() { Some((-n, -m)) } else { Some((n, m)) } }
            _ => None,
        },
    }
}

/// Facts (valid over the integers) that tie an atom to its arguments.
pub fn facts(a: A, at: &Atom) -> Vec<Form> {
    let q = atom_val(a);
    let zero = Val::C(BigInt::zero());
    let one = Val::C(BigInt::one());
    let mut out = vec![];
    match at {
        Atom::Var(_) => {}
        Atom::Alias(t) => out.push(eq(&q, &Val::T(*t))),
        Atom::Pos(t) => {
            let x = Val::T(*t);
            out.push(ge(&q, &x));
            out.push(eq(&q, &zero).or(eq(&q, &x)));
        }
        Atom::TDiv(t, d) => {
            let n = Val::T(*t);
            let r = sub(&n, &scale(&q, d));
            let m = Val::C(d - BigInt::one());
            out.push(le(&r, &m));
            out.push(ge(&r, &neg(&m)));
            out.push(ge(&n, &zero).implies(all(vec![ge(&r, &zero), ge(&q, &zero)])));
            out.push(le(&n, &zero).implies(all(vec![le(&r, &zero), le(&q, &zero)])));
        }
        Atom::FDiv(t, d) => {
            let r = sub(&Val::T(*t), &scale(&q, d));
            out.push(ge(&r, &zero));
            out.push(le(&r, &Val::C(d - BigInt::one())));
        }
        Atom::QDiv(x, y) => {
            let (x, y) = (Val::T(*x), Val::T(*y));
            let p = mul(&q, &y);
            let r = sub(&x, &p);
            let (xp, xn) = (ge(&x, &zero), le(&x, &zero));
            let (yp, yn) = (gt(&y, &zero), lt(&y, &zero));
            // y > 0
            out.push(yp.clone().and(xp.clone()).implies(all(vec![ge(&r, &zero), le(&r, &sub(&y, &one)), ge(&q, &zero), le(&q, &x)])));
            out.push(yp.clone().and(xn.clone()).implies(all(vec![le(&r, &zero), ge(&r, &sub(&one, &y)), le(&q, &zero), ge(&q, &x)])));
            // y < 0: x/y = -(x / -y)
            out.push(yn.clone().and(xp.clone()).implies(all(vec![ge(&r, &zero), le(&r, &sub(&neg(&y), &one)), le(&q, &zero), ge(&q, &neg(&x))])));
            out.push(yn.clone().and(xn.clone()).implies(all(vec![le(&r, &zero), ge(&r, &add(&y, &one)), ge(&q, &zero), le(&q, &neg(&x))])));
            // comparisons of the quotient with 10^18 (ratio one)
            let e = Val::C(e18());
            let ye = scale(&y, &e18());
            out.push(yp.clone().implies(le(&x, &ye).implies(le(&q, &e))));
            out.push(yp.implies(ge(&x, &ye).implies(ge(&q, &e))));
        }
        Atom::Mono(f) => {
            // every split of one factor against the rest
            let mut done = HashSet::new();
            for i in 0..f.len() {
                if !done.insert(f[i]) { continue; }
                let x = atom_val(f[i]);
                let mut rest = f.clone();
                rest.remove(i);
                let y = rest.iter().skip(1).fold(atom_val(rest[0]), |p, b| mul(&p, &atom_val(*b)));
                out.push(all(vec![ge(&x, &zero), ge(&y, &zero)]).implies(ge(&q, &zero)));
                out.push(all(vec![le(&x, &zero), le(&y, &zero)]).implies(ge(&q, &zero)));
                out.push(all(vec![ge(&x, &zero), le(&y, &zero)]).implies(le(&q, &zero)));
                out.push(all(vec![le(&x, &zero), ge(&y, &zero)]).implies(le(&q, &zero)));
                let (ix, iy) = (interval(&x), interval(&y));
                let mc = |ax: &Option<BigInt>, ay: &Option<BigInt>, lower: bool, out: &mut Vec<Form>| {
                    if let (Some(bx), Some(by)) = (ax, ay) {
                        // (x - bx)(y - by) sign known
                        let rhs = sub(&add(&scale(&y, bx), &scale(&x, by)), &Val::C(bx * by));
                        out.push(if lower { ge(&q, &rhs) } else { le(&q, &rhs) });
                    }
                };
                mc(&ix.0, &iy.0, true, &mut out);
                mc(&ix.1, &iy.1, true, &mut out);
                mc(&ix.0, &iy.1, false, &mut out);
                mc(&ix.1, &iy.0, false, &mut out);
                // one-sided constant bound on x, sign of y unknown
                for (b, up) in [(&ix.0, false), (&ix.1, true)] {
                    if let Some(b) = b {
                        let by = scale(&y, b);
                        if up {
                            out.push(ge(&y, &zero).implies(le(&q, &by)));
                            out.push(le(&y, &zero).implies(ge(&q, &by)));
                        } else {
                            out.push(ge(&y, &zero).implies(ge(&q, &by)));
                            out.push(le(&y, &zero).implies(le(&q, &by)));
                        }
                    }
                }
                // unit comparison: x against 10^18
                let e = e18();
                let ey = scale(&y, &e);
                let ec = Val::C(e);
                out.push(all(vec![ge(&y, &zero), le(&x, &ec)]).implies(le(&q, &ey)));
                out.push(all(vec![ge(&y, &zero), ge(&x, &ec)]).implies(ge(&q, &ey)));
                if f.len() > 2 { /* one split per distinct factor is enough */ }
            }
            out.retain(|x| *x != Form::True);
            let mut seen = HashSet::new();
            out.retain(|x| seen.insert(x.clone()));
        }
    }
    out
}
pub fn approx(v: &BigInt) -> f64 { v.to_f64().unwrap_or(f64::NAN) }
