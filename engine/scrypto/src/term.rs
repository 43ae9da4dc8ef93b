//! Symbolic terms: hash-consed linear forms with big-integer coefficients over atoms.
//! Every number of the code under test is an integer (Decimal = integer / 10^18); an atom is a variable, a monomial
//! (product of atoms), a truncated/floored division, a quotient, or pos(x) = max(x, 0).
use num_bigint::{BigInt, Sign};
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;
pub type A = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Lin {
    pub c: BigInt,
    pub t: Vec<(A, BigInt)>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    Var(String),
    Mono(Vec<A>),
    /// truncated division of a linear form by a positive constant
    TDiv(T, BigInt),
    /// floored division of a linear form by a positive constant
    FDiv(T, BigInt),
    /// truncated quotient of two linear forms
    QDiv(T, T),
    /// max(x, 0)
    Pos(T),
    /// alias of a linear form (keeps products small)
    Alias(T),
}

pub type Iv = (Option<BigInt>, Option<BigInt>);

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    C(BigInt),
    T(T),
}

#[derive(Default)]
pub struct Arena {
    pub lins: Vec<Rc<Lin>>,
    lin_ids: HashMap<Rc<Lin>, T>,
    pub atoms: Vec<Atom>,
    pub atom_iv: Vec<Iv>,
    atom_ids: HashMap<Atom, A>,
    lin_iv: HashMap<T, Iv>,
}

thread_local! {
    pub static ARENA: RefCell<Arena> = RefCell::new(Arena::default());
}

pub fn reset_arena() {
    ARENA.with(|a| *a.borrow_mut() = Arena::default());
}
pub fn arena_size() -> usize {
    ARENA.with(|a| a.borrow().lins.len())
}

fn with<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    ARENA.with(|a| f(&mut a.borrow_mut()))
}

pub fn big(x: i128) -> BigInt {
    BigInt::from(x)
}
pub fn e18() -> BigInt {
    BigInt::from(1_000_000_000_000_000_000u64)
}

pub fn iv_add(a: &Iv, b: &Iv) -> Iv {
    (
        match (&a.0, &b.0) { (Some(x), Some(y)) => Some(x + y), _ => None },
        match (&a.1, &b.1) { (Some(x), Some(y)) => Some(x + y), _ => None },
    )
}
pub fn iv_scale(a: &Iv, k: &BigInt) -> Iv {
    if k.is_zero() { return (Some(BigInt::zero()), Some(BigInt::zero())); }
    let lo = a.0.as_ref().map(|x| x * k);
    let hi = a.1.as_ref().map(|x| x * k);
    if k.is_positive() { (lo, hi) } else { (hi, lo) }
}
pub fn iv_mul(a: &Iv, b: &Iv) -> Iv {
    if let ((Some(a0), Some(a1)), (Some(b0), Some(b1))) = ((&a.0, &a.1), (&b.0, &b.1)) {
        let ps = [a0 * b0, a0 * b1, a1 * b0, a1 * b1];
        return (ps.iter().min().cloned(), ps.iter().max().cloned());
    }
    // signs only
    let nn = |i: &Iv| i.0.as_ref().map_or(false, |x| !x.is_negative());
    let np = |i: &Iv| i.1.as_ref().map_or(false, |x| !x.is_positive());
    if (nn(a) && nn(b)) || (np(a) && np(b)) { return (Some(BigInt::zero()), None); }
    if (nn(a) && np(b)) || (np(a) && nn(b)) { return (None, Some(BigInt::zero())); }
    (None, None)
}
pub fn tdiv(a: &BigInt, b: &BigInt) -> BigInt { a / b }
pub fn fdiv(a: &BigInt, b: &BigInt) -> BigInt { a.div_floor(b) }

impl Arena {
    fn intern(&mut self, l: Lin) -> T {
        if let Some(i) = self.lin_ids.get(&l) { return *i; }
        let id = self.lins.len() as T;
        let r = Rc::new(l);
        self.lins.push(r.clone());
        self.lin_ids.insert(r, id);
        id
    }
    fn val(&mut self, l: Lin) -> Val {
        if l.t.is_empty() { Val::C(l.c) } else { Val::T(self.intern(l)) }
    }
    fn lin_of(&self, v: &Val) -> Lin {
        match v {
            Val::C(c) => Lin { c: c.clone(), t: vec![] },
            Val::T(t) => (*self.lins[*t as usize]).clone(),
        }
    }
    fn atom(&mut self, a: Atom, iv: impl FnOnce(&mut Arena) -> Iv) -> A {
        if let Some(i) = self.atom_ids.get(&a) { return *i; }
        let iv = iv(self);
        let id = self.atoms.len() as A;
        self.atoms.push(a.clone());
        self.atom_iv.push(iv);
        self.atom_ids.insert(a, id);
        id
    }
    fn iv_lin(&mut self, t: T) -> Iv {
        if let Some(i) = self.lin_iv.get(&t) { return i.clone(); }
        let l = self.lins[t as usize].clone();
        let mut r: Iv = (Some(l.c.clone()), Some(l.c.clone()));
        for (a, k) in &l.t {
            let s = iv_scale(&self.atom_iv[*a as usize], k);
            r = iv_add(&r, &s);
        }
        self.lin_iv.insert(t, r.clone());
        r
    }
    fn iv_val(&mut self, v: &Val) -> Iv {
        match v { Val::C(c) => (Some(c.clone()), Some(c.clone())), Val::T(t) => self.iv_lin(*t) }
    }
    fn of_atom(&mut self, a: A) -> Val {
        self.val(Lin { c: BigInt::zero(), t: vec![(a, BigInt::one())] })
    }
}

fn add_lin(a: &Lin, b: &Lin, kb: &BigInt) -> Lin {
    let mut t = Vec::with_capacity(a.t.len() + b.t.len());
    let (mut i, mut j) = (0, 0);
    while i < a.t.len() || j < b.t.len() {
        if j >= b.t.len() || (i < a.t.len() && a.t[i].0 < b.t[j].0) {
            t.push(a.t[i].clone()); i += 1;
        } else if i >= a.t.len() || b.t[j].0 < a.t[i].0 {
            t.push((b.t[j].0, &b.t[j].1 * kb)); j += 1;
        } else {
            let k = &a.t[i].1 + &b.t[j].1 * kb;
            if !k.is_zero() { t.push((a.t[i].0, k)); }
            i += 1; j += 1;
        }
    }
    Lin { c: &a.c + &b.c * kb, t }
}

pub fn lin(v: &Val) -> Lin { with(|a| a.lin_of(v)) }
pub fn lin_t(t: T) -> Rc<Lin> { with(|a| a.lins[t as usize].clone()) }
pub fn mk(l: Lin) -> Val { with(|a| a.val(l)) }
pub fn interval(v: &Val) -> Iv { with(|a| a.iv_val(v)) }
pub fn atom_of(a: A) -> Atom { with(|x| x.atoms[a as usize].clone()) }
pub fn atom_interval(a: A) -> Iv { with(|x| x.atom_iv[a as usize].clone()) }
pub fn atom_val(a: A) -> Val { with(|x| x.of_atom(a)) }

pub fn var(name: &str, lo: Option<BigInt>, hi: Option<BigInt>) -> Val {
    with(|a| {
        let id = a.atom(Atom::Var(name.to_string()), |_| (lo, hi));
        a.of_atom(id)
    })
}
pub fn add(x: &Val, y: &Val) -> Val {
    with(|a| { let l = add_lin(&a.lin_of(x), &a.lin_of(y), &BigInt::one()); a.val(l) })
}
pub fn sub(x: &Val, y: &Val) -> Val {
    with(|a| { let l = add_lin(&a.lin_of(x), &a.lin_of(y), &BigInt::from(-1)); a.val(l) })
}
pub fn scale(x: &Val, k: &BigInt) -> Val {
    if k.is_zero() { return Val::C(BigInt::zero()); }
    with(|a| {
        let mut l = a.lin_of(x);
        l.c *= k;
        for p in l.t.iter_mut() { p.1 *= k; }
        a.val(l)
    })
}
pub fn neg(x: &Val) -> Val { scale(x, &BigInt::from(-1)) }

fn mono_factors(a: &Arena, id: A) -> Vec<A> {
    match &a.atoms[id as usize] { Atom::Mono(v) => v.clone(), _ => vec![id] }
}

/// Exact integer product, expanded into monomials. The second component tells whether the result is a genuine
/// product of two non-constant forms (for which the caller emits sign facts).
pub fn mul(x: &Val, y: &Val) -> Val {
    match (x, y) {
        (Val::C(c), _) => return scale(y, c),
        (_, Val::C(c)) => return scale(x, c),
        _ => {}
    }
    let (mut lx, mut ly) = (lin(x), lin(y));
    let deg = |l: &Lin| with(|a| l.t.iter().map(|(i, _)| mono_factors(a, *i).len()).max().unwrap_or(0));
    if lx.t.len() * ly.t.len() > 60 || deg(&lx) + deg(&ly) > 4 {
        // keep the expansion small: name the larger factor (or both)
        if lx.t.len() > 1 || deg(&lx) > 1 { lx = lin(&alias(x)); }
        if (ly.t.len() > 1 || deg(&ly) > 1) && lx.t.len() * ly.t.len() > 60 { ly = lin(&alias(y)); }
        if deg(&lx) + deg(&ly) > 4 { ly = lin(&alias(y)); }
    }
    with(|a| {
        let mut acc: std::collections::BTreeMap<A, BigInt> = Default::default();
        for (p, k) in &lx.t {
            if !ly.c.is_zero() { *acc.entry(*p).or_default() += k * &ly.c; }
            for (q, m) in &ly.t {
                let mut f = mono_factors(a, *p);
                f.extend(mono_factors(a, *q));
                f.sort();
                let f2 = f.clone();
                let id = a.atom(Atom::Mono(f), |a| {
                    // squares are non-negative: group equal factors in pairs
                    let mut iv: Iv = (Some(BigInt::one()), Some(BigInt::one()));
                    let mut i = 0;
                    while i < f2.len() {
                        let mut n = 1;
                        while i + n < f2.len() && f2[i + n] == f2[i] { n += 1; }
                        let one = a.atom_iv[f2[i] as usize].clone();
                        let mut p: Iv = one.clone();
                        for _ in 1..n { p = iv_mul(&p, &one); }
                        if n % 2 == 0 {
                            let lo = match &p.0 { Some(x) if x.is_positive() => x.clone(), _ => BigInt::zero() };
                            p.0 = Some(lo);
                        }
                        iv = iv_mul(&iv, &p);
                        i += n;
                    }
                    iv
                });
                *acc.entry(id).or_default() += k * m;
            }
        }
        if !lx.c.is_zero() {
            for (q, m) in &ly.t { *acc.entry(*q).or_default() += m * &lx.c; }
        }
        let l = Lin { c: &lx.c * &ly.c, t: acc.into_iter().filter(|(_, k)| !k.is_zero()).collect() };
        a.val(l)
    })
}

pub fn alias(x: &Val) -> Val {
    match x {
        Val::C(_) => x.clone(),
        Val::T(t) => {
            let l = lin_t(*t);
            if l.c.is_zero() && l.t.len() == 1 && l.t[0].1.is_one()
                && !matches!(atom_of(l.t[0].0), Atom::Mono(_)) { return x.clone(); }
            with(|a| {
                let id = a.atom(Atom::Alias(*t), |a| a.iv_lin(*t));
                a.of_atom(id)
            })
        }
    }
}

fn content(l: &Lin) -> BigInt {
    let mut g = l.c.abs();
    for (_, k) in &l.t { g = g.gcd(k); }
    g
}
fn leading_negative(l: &Lin) -> bool {
    l.t.first().map_or(l.c.is_negative(), |(_, k)| k.is_negative())
}

/// trunc(x / d) for a non-zero constant d
pub fn tdiv_c(x: &Val, d: &BigInt) -> Val {
    assert!(!d.is_zero());
    if d.is_negative() { return tdiv_c(&neg(x), &-d); }
    match x {
        Val::C(c) => Val::C(tdiv(c, d)),
        Val::T(t) => {
            let l = lin_t(*t);
            let g = content(&l).gcd(d);
            let l2 = Lin { c: &l.c / &g, t: l.t.iter().map(|(a, k)| (*a, k / &g)).collect() };
            let d2 = d / &g;
            if d2.is_one() { return mk(l2); }
            let negd = leading_negative(&l2);
            let n = if negd { neg(&mk(l2)) } else { mk(l2) };
            let nt = match n { Val::T(t) => t, Val::C(_) => unreachable!() };
            let r = with(|a| {
                let id = a.atom(Atom::TDiv(nt, d2.clone()), |a| {
                    let iv = a.iv_lin(nt);
                    (iv.0.map(|x| tdiv(&x, &d2)), iv.1.map(|x| tdiv(&x, &d2)))
                });
                a.of_atom(id)
            });
            if negd { neg(&r) } else { r }
        }
    }
}
/// floor(x / d) for a positive constant d
pub fn fdiv_c(x: &Val, d: &BigInt) -> Val {
    assert!(d.is_positive());
    match x {
        Val::C(c) => Val::C(fdiv(c, d)),
        Val::T(t) => {
            let l = lin_t(*t);
            // split off the part that is divisible by d
            let mut out = Lin { c: fdiv(&l.c, d), t: vec![] };
            let mut rest = Lin { c: l.c.mod_floor(d), t: vec![] };
            for (a, k) in &l.t {
                let (q, r) = k.div_mod_floor(d);
                if !q.is_zero() { out.t.push((*a, q)); }
                if !r.is_zero() { rest.t.push((*a, r)); }
            }
            let out = mk(out);
            if rest.t.is_empty() { return out; }
            // interval shortcut
            let rv = mk(rest.clone());
            let iv = interval(&rv);
            if let (Some(lo), Some(hi)) = (&iv.0, &iv.1) {
                if fdiv(lo, d) == fdiv(hi, d) { return add(&out, &Val::C(fdiv(lo, d))); }
            }
            let g = content(&rest).gcd(d);
            let r2 = mk(Lin { c: &rest.c / &g, t: rest.t.iter().map(|(a, k)| (*a, k / &g)).collect() });
            let d2 = d / &g;
            if d2.is_one() { return add(&out, &r2); }
            let nt = match r2 { Val::T(t) => t, Val::C(c) => return add(&out, &Val::C(fdiv(&c, &d2))) };
            let r = with(|a| {
                let id = a.atom(Atom::FDiv(nt, d2.clone()), |a| {
                    let iv = a.iv_lin(nt);
                    (iv.0.map(|x| fdiv(&x, &d2)), iv.1.map(|x| fdiv(&x, &d2)))
                });
                a.of_atom(id)
            });
            add(&out, &r)
        }
    }
}
/// trunc(x / y), y known (by the path) to be non-zero
pub fn qdiv(x: &Val, y: &Val) -> Val {
    if let Val::C(d) = y { return tdiv_c(x, d); }
    if let Val::C(c) = x { if c.is_zero() { return x.clone(); } }
    if x == y { return Val::C(BigInt::one()); }
    let (lx, ly) = (lin(x), lin(y));
    let (cx, cy) = (content(&lx), content(&ly));
    let g = cx.gcd(&cy);
    let div = |l: &Lin, g: &BigInt| Lin { c: &l.c / g, t: l.t.iter().map(|(a, k)| (*a, k / g)).collect() };
    let (mut nx, mut ny) = (div(&lx, &g), div(&ly, &g));
    let mut sign = false;
    if leading_negative(&nx) { nx = lin(&neg(&mk(nx))); sign = !sign; }
    if leading_negative(&ny) { ny = lin(&neg(&mk(ny))); sign = !sign; }
    // exact multiple: k*y / y
    let pny = { let c = content(&ny); div(&ny, &c) };
    let pnx = { let c = content(&nx); div(&nx, &c) };
    if pny == pnx {
        let r = tdiv(&content(&nx), &content(&ny));
        return Val::C(if sign { -r } else { r });
    }
    let r = with(|a| {
        let tx = a.intern(nx); let ty = a.intern(ny);
        let id = a.atom(Atom::QDiv(tx, ty), |a| {
            let (ix, iy) = (a.iv_lin(tx), a.iv_lin(ty));
            // only for strictly positive denominators
            match &iy.0 {
                Some(d0) if d0.is_positive() => {
                    let hi = ix.1.as_ref().map(|h| if h.is_positive() { tdiv(h, d0) } else if let Some(d1) = &iy.1 { tdiv(h, d1) } else { BigInt::zero() });
                    let lo = ix.0.as_ref().map(|l| if l.is_negative() { tdiv(l, d0) } else if let Some(d1) = &iy.1 { tdiv(l, d1) } else { BigInt::zero() });
                    (lo, hi)
                }
                _ => (None, None),
            }
        });
        a.of_atom(id)
    });
    if sign { neg(&r) } else { r }
}
/// max(x, 0)
pub fn pos(x: &Val) -> Val {
    match x {
        Val::C(c) => Val::C(if c.is_negative() { BigInt::zero() } else { c.clone() }),
        Val::T(t) => {
            let iv = interval(x);
            if iv.0.as_ref().map_or(false, |l| !l.is_negative()) { return x.clone(); }
            if iv.1.as_ref().map_or(false, |h| !h.is_positive()) { return Val::C(BigInt::zero()); }
            let l = lin_t(*t);
            let g = content(&l);
            let p = Lin { c: &l.c / &g, t: l.t.iter().map(|(a, k)| (*a, k / &g)).collect() };
            let ng = leading_negative(&p);
            let base = if ng { neg(&mk(p)) } else { mk(p) };
            let bt = match base { Val::T(t) => t, Val::C(_) => unreachable!() };
            let a = with(|a| {
                let id = a.atom(Atom::Pos(bt), |a| {
                    let iv = a.iv_lin(bt);
                    (Some(iv.0.filter(|x| x.is_positive()).unwrap_or_default()), iv.1)
                });
                a.of_atom(id)
            });
            // pos(-b) = pos(b) - b
            let r = if ng { sub(&a, &base) } else { a };
            scale(&r, &g)
        }
    }
}
pub fn vmax(x: &Val, y: &Val) -> Val { add(y, &pos(&sub(x, y))) }
pub fn vmin(x: &Val, y: &Val) -> Val { sub(x, &pos(&sub(x, y))) }
pub fn vabs(x: &Val) -> Val { sub(&scale(&pos(x), &big(2)), x) }

/// Normalised literal `lin >= 0`: divided by the gcd of the coefficients, constant tightened to integers.
pub fn norm_ge(x: &Val) -> Result<T, bool> {
    match x {
        Val::C(c) => Err(!c.is_negative()),
        Val::T(t) => {
            let iv = interval(x);
            if iv.0.as_ref().map_or(false, |l| !l.is_negative()) { return Err(true); }
            if iv.1.as_ref().map_or(false, |h| h.is_negative()) { return Err(false); }
            let l = lin_t(*t);
            let mut g = BigInt::zero();
            for (_, k) in &l.t { g = g.gcd(k); }
            let r = Lin { c: l.c.div_floor(&g), t: l.t.iter().map(|(a, k)| (*a, k / &g)).collect() };
            match mk(r) { Val::T(t) => Ok(t), Val::C(_) => unreachable!() }
        }
    }
}
/// Normalised literal `lin = 0` with positive leading coefficient.
pub fn norm_eq(x: &Val) -> Result<T, bool> {
    match x {
        Val::C(c) => Err(c.is_zero()),
        Val::T(t) => {
            let iv = interval(x);
            if iv.0.as_ref().map_or(false, |l| l.is_positive()) { return Err(false); }
            if iv.1.as_ref().map_or(false, |h| h.is_negative()) { return Err(false); }
            let l = lin_t(*t);
            let mut g = BigInt::zero();
            for (_, k) in &l.t { g = g.gcd(k); }
            if !(&l.c % &g).is_zero() { return Err(false); }
            if leading_negative(&l) { g = -g; }
            let r = Lin { c: &l.c / &g, t: l.t.iter().map(|(a, k)| (*a, k / &g)).collect() };
            match mk(r) { Val::T(t) => Ok(t), Val::C(_) => unreachable!() }
        }
    }
}

/// All atoms a term depends on, innermost first.
pub fn collect_atoms(t: T, seen: &mut std::collections::HashSet<A>, out: &mut Vec<A>) {
    let l = lin_t(t);
    for (a, _) in &l.t { collect_atom(*a, seen, out); }
}
pub fn collect_atom(a: A, seen: &mut std::collections::HashSet<A>, out: &mut Vec<A>) {
    if !seen.insert(a) { return; }
    match atom_of(a) {
        Atom::Var(_) => {}
        Atom::Mono(f) => for x in f { collect_atom(x, seen, out) },
        Atom::TDiv(t, _) | Atom::FDiv(t, _) | Atom::Pos(t) | Atom::Alias(t) => collect_atoms(t, seen, out),
        Atom::QDiv(x, y) => { collect_atoms(x, seen, out); collect_atoms(y, seen, out) }
    }
    out.push(a);
}

/// Evaluate a term under an assignment of the variables (exact integer semantics).
pub fn eval_t(t: T, env: &HashMap<String, BigInt>, memo: &mut HashMap<A, BigInt>) -> BigInt {
    let l = lin_t(t);
    let mut r = l.c.clone();
    for (a, k) in &l.t { r += k * eval_a(*a, env, memo); }
    r
}
fn eval_a(a: A, env: &HashMap<String, BigInt>, memo: &mut HashMap<A, BigInt>) -> BigInt {
    if let Some(v) = memo.get(&a) { return v.clone(); }
    let v = match atom_of(a) {
        Atom::Var(n) => env.get(&n).cloned().unwrap_or_default(),
        Atom::Mono(f) => f.iter().fold(BigInt::one(), |p, x| p * eval_a(*x, env, memo)),
        Atom::TDiv(t, d) => tdiv(&eval_t(t, env, memo), &d),
        Atom::FDiv(t, d) => fdiv(&eval_t(t, env, memo), &d),
        Atom::QDiv(x, y) => { let d = eval_t(y, env, memo); if d.is_zero() { BigInt::zero() } else { tdiv(&eval_t(x, env, memo), &d) } }
        Atom::Pos(t) => { let v = eval_t(t, env, memo); if v.is_negative() { BigInt::zero() } else { v } }
        Atom::Alias(t) => eval_t(t, env, memo),
    };
    memo.insert(a, v.clone());
    v
}

pub fn show(v: &Val) -> String {
    match v {
        Val::C(c) => c.to_string(),
        Val::T(t) => show_t(*t, 0),
    }
}
fn show_t(t: T, depth: usize) -> String {
    if depth > if std::env::var("SYM_DEBUG").is_ok() { 14 } else { 4 } { return format!("t{}", t); }
    let l = lin_t(t);
    let mut s = vec![];
    if !l.c.is_zero() { s.push(l.c.to_string()); }
    for (a, k) in &l.t {
        let n = show_a(*a, depth + 1);
        s.push(if k.is_one() { n } else { format!("{}*{}", k, n) });
    }
    s.join(" + ")
}
pub fn show_a(a: A, depth: usize) -> String {
    match atom_of(a) {
        Atom::Var(n) => n,
        Atom::Mono(f) => f.iter().map(|x| show_a(*x, depth + 1)).collect::<Vec<_>>().join("·"),
        Atom::TDiv(t, d) => format!("tdiv({}, {})", show_t(t, depth), d),
        Atom::FDiv(t, d) => format!("fdiv({}, {})", show_t(t, depth), d),
        Atom::QDiv(x, y) => format!("qdiv({}, {})", show_t(x, depth), show_t(y, depth)),
        Atom::Pos(t) => format!("pos({})", show_t(t, depth)),
        Atom::Alias(t) => format!("({})", show_t(t, depth)),
    }
}
pub fn sign_of(v: &Val) -> Option<Sign> {
    let iv = interval(v);
    match (&iv.0, &iv.1) {
        (Some(l), Some(h)) if l.is_zero() && h.is_zero() => Some(Sign::NoSign),
        (Some(l), _) if !l.is_negative() => Some(Sign::Plus),
        (_, Some(h)) if !h.is_positive() => Some(Sign::Minus),
        _ => None,
    }
}
