//! Numbers seen by the code under test. A number is either concrete (real Radix arithmetic) or a symbolic term.
use crate::explore::*;
use crate::solver as sv;
use crate::term::{self, Val};
use num_bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};
use radix_common::math::{Decimal as RDec, I192 as RI, RoundingMode, CheckedAdd as _, CheckedSub as _, CheckedMul as _, CheckedDiv as _, CheckedNeg as _};
use std::cmp::Ordering;
use std::fmt;
use std::iter::Sum;
use std::ops::*;
use std::str::FromStr;

#[derive(Clone, Copy)]
pub enum Rep { C(RI), S(term::T) }
#[derive(Clone, Copy)]
pub struct I192(pub Rep);
#[derive(Clone, Copy)]
pub struct Decimal(pub I192);

pub fn ri_big(x: RI) -> BigInt { BigInt::from_signed_bytes_le(&x.to_le_bytes()) }
pub fn big_ri(x: &BigInt) -> Option<RI> {
    let mut b = x.to_signed_bytes_le();
    if b.len() > 24 { return None; }
    let ext = if x.is_negative() { 255 } else { 0 };
    while b.len() < 24 { b.push(ext); }
    Some(RI::from_le_bytes(&b))
}
fn overflow() -> ! { panic!("Overflow") }

impl I192 {
    pub const ZERO: I192 = I192(Rep::C(RI::ZERO));
    pub const ONE: I192 = I192(Rep::C(RI::ONE));
    pub const TEN: I192 = I192(Rep::C(RI::from_digits([10, 0, 0])));
    pub const MAX: I192 = I192(Rep::C(RI::MAX));
    pub const MIN: I192 = I192(Rep::C(RI::MIN));
    pub const BITS: u32k = u32k::c(192);
    pub const fn from_digits(d: [u64; 3]) -> I192 { I192(Rep::C(RI::from_digits(d))) }
    pub fn val(&self) -> Val { match self.0 { Rep::C(x) => Val::C(ri_big(x)), Rep::S(t) => Val::T(t) } }
    pub fn of(v: &Val) -> I192 {
        match v {
            Val::C(c) => I192(Rep::C(big_ri(c).unwrap_or_else(|| overflow()))),
            Val::T(t) => {
                // bounds of the 192-bit representation: values outside abort the transaction
                let iv = term::interval(v);
                let m = max192();
                if iv.0.as_ref().map_or(false, |l| l > &m) || iv.1.as_ref().map_or(false, |h| h < &-&m) { overflow() }
                I192(Rep::S(*t))
            }
        }
    }
    pub fn is_zero(&self) -> bool { branch(sv::eq0(&self.val())) }
    pub fn is_positive(&self) -> bool { branch(sv::gt(&self.val(), &zero())) }
    pub fn is_negative(&self) -> bool { branch(sv::lt(&self.val(), &zero())) }
    pub fn abs(self) -> I192 { I192::of(&term::vabs(&self.val())) }
    pub fn signum(self) -> I192 { if self.is_zero() { I192::ZERO } else if self.is_positive() { I192::ONE } else { I192(Rep::C(-RI::ONE)) } }
    pub fn pow<E: Into<i128k>>(self, e: E) -> I192 {
        let e = e.into().0.concrete_i128("I192::pow exponent") as u32;
        match self.0 {
            Rep::C(x) => { let b = num_traits::pow(ri_big(x), e as usize); I192(Rep::C(big_ri(&b).unwrap_or_else(|| overflow()))) }
            Rep::S(_) => { let mut r = I192::ONE; for _ in 0..e { r = r * self; } r }
        }
    }
    pub fn leading_zeros(self) -> u32k {
        let v = self.val();
        match &v {
            Val::C(c) => u32k::from_i(if c.is_negative() { 0 } else { 192 - c.bits() as i128 }),
            Val::T(_) => {
                if branch(sv::lt(&v, &zero())) { return u32k::from_i(0); }
                // fork over the bit length, largest first bounded by the interval
                let hi = term::interval(&v).1.map(|h| h.bits()).unwrap_or(191).min(191);
                for b in (1..=hi).rev() {
                    if branch(sv::ge(&v, &Val::C(BigInt::one() << (b - 1)))) { return u32k::from_i(192 - b as i128); }
                }
                u32k::from_i(192)
            }
        }
    }
    fn narrow(&self, bits: u32, signed: bool) -> Option<Val> {
        let v = self.val();
        let (lo, hi) = range(bits, signed);
        if !branch(sv::ge(&v, &Val::C(lo))) || !branch(sv::le(&v, &Val::C(hi))) { return None; }
        Some(v)
    }
    pub fn to_i16(&self) -> Option<i16k> { self.narrow(16, true).map(|v| Int::of(&v)) }
    pub fn to_u16(&self) -> Option<u16k> { self.narrow(16, false).map(|v| Int::of(&v)) }
    pub fn to_i32(&self) -> Option<i32> { self.narrow(32, true).map(|v| Int::<64, true>::of(&v).concrete_i128("i32") as i32) }
    pub fn to_u32(&self) -> Option<u32k> { self.narrow(32, false).map(|v| Int::of(&v)) }
    pub fn to_i64(&self) -> Option<i64k> { self.narrow(64, true).map(|v| Int::of(&v)) }
    pub fn to_u64(&self) -> Option<u64k> { self.narrow(64, false).map(|v| Int::of(&v)) }
    pub fn checked_add(self, o: I192) -> Option<I192> { chk(&term::add(&self.val(), &o.val())) }
    pub fn checked_sub(self, o: I192) -> Option<I192> { chk(&term::sub(&self.val(), &o.val())) }
    pub fn checked_mul(self, o: I192) -> Option<I192> { chk(&term::mul(&self.val(), &o.val())) }
    pub fn checked_div(self, o: I192) -> Option<I192> { if o.is_zero() { None } else { Some(self / o) } }
}
fn max192() -> BigInt { (BigInt::one() << 191) - 1 }
fn zero() -> Val { Val::C(BigInt::zero()) }
fn chk(v: &Val) -> Option<I192> {
    match v { Val::C(c) => big_ri(c).map(|x| I192(Rep::C(x))), Val::T(_) => Some(I192::of(v)) }
}
macro_rules! i192_op { ($tr:ident, $f:ident, $tra:ident, $fa:ident, |$a:ident, $b:ident| $e:expr) => {
    impl $tr for I192 { type Output = I192; fn $f(self, o: I192) -> I192 { let ($a, $b) = (self, o); $e } }
    impl $tra for I192 { fn $fa(&mut self, o: I192) { *self = $tr::$f(*self, o); } }
} }
i192_op!(Add, add, AddAssign, add_assign, |a, b| I192::of(&term::add(&a.val(), &b.val())));
i192_op!(Sub, sub, SubAssign, sub_assign, |a, b| I192::of(&term::sub(&a.val(), &b.val())));
i192_op!(Mul, mul, MulAssign, mul_assign, |a, b| I192::of(&term::mul(&a.val(), &b.val())));
i192_op!(Div, div, DivAssign, div_assign, |a, b| { if b.is_zero() { panic!("attempt to divide by zero") } I192::of(&term::qdiv(&a.val(), &b.val())) });
i192_op!(Rem, rem, RemAssign, rem_assign, |a, b| { if b.is_zero() { panic!("attempt to divide by zero") } let q = term::qdiv(&a.val(), &b.val()); I192::of(&term::sub(&a.val(), &term::mul(&q, &b.val()))) });
impl Neg for I192 { type Output = I192; fn neg(self) -> I192 { I192::of(&term::neg(&self.val())) } }
impl PartialEq for I192 { fn eq(&self, o: &I192) -> bool { branch(sv::eq(&self.val(), &o.val())) } }
impl Eq for I192 {}
impl PartialOrd for I192 {
    fn partial_cmp(&self, o: &I192) -> Option<Ordering> { Some(self.cmp(o)) }
    fn lt(&self, o: &I192) -> bool { branch(sv::lt(&self.val(), &o.val())) }
    fn le(&self, o: &I192) -> bool { branch(sv::le(&self.val(), &o.val())) }
    fn gt(&self, o: &I192) -> bool { branch(sv::gt(&self.val(), &o.val())) }
    fn ge(&self, o: &I192) -> bool { branch(sv::ge(&self.val(), &o.val())) }
}
impl Ord for I192 {
    fn cmp(&self, o: &I192) -> Ordering { if self < o { Ordering::Less } else if self == o { Ordering::Equal } else { Ordering::Greater } }
    fn max(self, o: I192) -> I192 { I192::of(&term::vmax(&self.val(), &o.val())) }
    fn min(self, o: I192) -> I192 { I192::of(&term::vmin(&self.val(), &o.val())) }
}
impl Default for I192 { fn default() -> Self { I192::ZERO } }
impl fmt::Debug for I192 { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { match self.0 { Rep::C(x) => write!(f, "{}", x), Rep::S(_) => write!(f, "?") } } }
impl fmt::Display for I192 { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Debug::fmt(self, f) } }
macro_rules! i192_from { ($($t:ty),*) => { $( impl From<$t> for I192 { fn from(x: $t) -> I192 { I192(Rep::C(RI::from(x))) } } )* } }
i192_from!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl<const B: u32, const S: bool> From<Int<B, S>> for I192 { fn from(x: Int<B, S>) -> I192 { I192::of(&x.val()) } }
impl From<bool> for I192 { fn from(x: bool) -> I192 { if x { I192::ONE } else { I192::ZERO } } }

const ONE_D: RI = RI::from_digits([1_000_000_000_000_000_000, 0, 0]);

impl Decimal {
    pub const ZERO: Decimal = Decimal(I192::ZERO);
    pub const ONE: Decimal = Decimal(I192(Rep::C(ONE_D)));
    pub const TEN: Decimal = Decimal(I192::from_digits([10_000_000_000_000_000_000, 0, 0]));
    pub const ONE_HUNDRED: Decimal = Decimal(I192::from_digits([7_766_279_631_452_241_920, 5, 0]));
    pub const MAX: Decimal = Decimal(I192::MAX);
    pub const MIN: Decimal = Decimal(I192::MIN);
    pub const SCALE: u32k = u32k::c(18);
    pub const ATTO: Decimal = Decimal(I192::ONE);
    pub const fn zero() -> Decimal { Self::ZERO }
    pub const fn one() -> Decimal { Self::ONE }
    pub const fn from_limbs(d: [u64; 3]) -> Decimal { Decimal(I192::from_digits(d)) }
    pub fn val(&self) -> Val { self.0.val() }
    pub fn of(v: &Val) -> Decimal { Decimal(I192::of(v)) }
    pub fn rdec(&self) -> Option<RDec> { match self.0 .0 { Rep::C(x) => Some(RDec(x)), _ => None } }
    pub fn from_rdec(d: RDec) -> Decimal { Decimal(I192(Rep::C(d.0))) }
    pub fn is_const(&self) -> bool { matches!(self.0 .0, Rep::C(_)) }
    pub fn is_zero(&self) -> bool { self.0.is_zero() }
    pub fn is_positive(&self) -> bool { self.0.is_positive() }
    pub fn is_negative(&self) -> bool { self.0.is_negative() }
    pub fn abs(self) -> Decimal { Decimal(self.0.abs()) }
    pub fn checked_abs(&self) -> Option<Decimal> { match self.rdec() { Some(d) => d.checked_abs().map(Self::from_rdec), None => Some(self.abs()) } }
    pub fn checked_neg(&self) -> Option<Decimal> { match self.rdec() { Some(d) => d.checked_neg().map(Self::from_rdec), None => Some(-*self) } }
    pub fn max(self, o: Decimal) -> Decimal { Decimal::of(&term::vmax(&self.val(), &o.val())) }
    pub fn min(self, o: Decimal) -> Decimal { Decimal::of(&term::vmin(&self.val(), &o.val())) }
    pub fn clamp(self, lo: Decimal, hi: Decimal) -> Decimal {
        // std: panics when lo > hi
        if lo > hi { panic!("assertion failed: min <= max") }
        self.max(lo).min(hi)
    }
    fn unit(places: i64) -> BigInt { num_traits::pow(BigInt::from(10), (18 - places) as usize) }
    pub fn checked_floor(&self) -> Option<Decimal> { self.checked_round(0i32, RoundingMode::ToNegativeInfinity) }
    pub fn checked_ceiling(&self) -> Option<Decimal> { self.checked_round(0i32, RoundingMode::ToPositiveInfinity) }
    pub fn checked_truncate(&self, mode: RoundingMode) -> Option<Decimal> { self.checked_round(0i32, mode) }
    pub fn checked_round<E: Into<i128k>>(&self, places: E, mode: RoundingMode) -> Option<Decimal> {
        let places = places.into().0.concrete_i128("rounding places") as i64;
        if let Some(d) = self.rdec() { return d.checked_round(places as i32, mode).map(Self::from_rdec); }
        assert!((0..=18).contains(&places));
        if places == 18 { return Some(*self); }
        let u = Self::unit(places);
        let v = self.val();
        let q = match mode {
            RoundingMode::ToZero => term::tdiv_c(&v, &u),
            RoundingMode::ToNegativeInfinity => term::fdiv_c(&v, &u),
            RoundingMode::ToPositiveInfinity => term::neg(&term::fdiv_c(&term::neg(&v), &u)),
            RoundingMode::AwayFromZero => if self.is_negative() { term::fdiv_c(&v, &u) } else { term::neg(&term::fdiv_c(&term::neg(&v), &u)) },
            _ => { // nearest: ties resolved by sign cases
                let half: BigInt = &u / 2;
                let away = |neg: bool| if neg { term::neg(&term::fdiv_c(&term::add(&term::neg(&v), &Val::C(half.clone())), &u)) } else { term::fdiv_c(&term::add(&v, &Val::C(half.clone())), &u) };
                away(self.is_negative())
            }
        };
        Some(Decimal::of(&term::scale(&q, &u)))
    }
    pub fn checked_add<D: Into<Decimal>>(self, o: D) -> Option<Decimal> { let o = o.into(); match (self.rdec(), o.rdec()) { (Some(a), Some(b)) => a.checked_add(b).map(Self::from_rdec), _ => Some(self + o) } }
    pub fn checked_sub<D: Into<Decimal>>(self, o: D) -> Option<Decimal> { let o = o.into(); match (self.rdec(), o.rdec()) { (Some(a), Some(b)) => a.checked_sub(b).map(Self::from_rdec), _ => Some(self - o) } }
    pub fn checked_mul<D: Into<Decimal>>(self, o: D) -> Option<Decimal> { let o = o.into(); match (self.rdec(), o.rdec()) { (Some(a), Some(b)) => a.checked_mul(b).map(Self::from_rdec), _ => Some(self * o) } }
    pub fn checked_div<D: Into<Decimal>>(self, o: D) -> Option<Decimal> { let o = o.into(); if o.is_zero() { return None; } match (self.rdec(), o.rdec()) { (Some(a), Some(b)) => a.checked_div(b).map(Self::from_rdec), _ => Some(self / o) } }
    pub fn checked_powi<E: Into<i128k>>(&self, e: E) -> Option<Decimal> {
        let e = e.into().0.concrete_i128("powi exponent") as i64;
        if let Some(d) = self.rdec() { return d.checked_powi(e).map(Self::from_rdec); }
        // same recursion as the real implementation
        if e == 0 { return Some(Decimal::ONE); }
        if e == 1 { return Some(*self); }
        if e < 0 { return (Decimal::ONE / *self).checked_powi(-e); }
        if e % 2 == 0 { (*self * *self).checked_powi(e / 2) } else { Some(*self * (*self * *self).checked_powi((e - 1) / 2)?) }
    }
    pub fn checked_sqrt(&self) -> Option<Decimal> { self.rdec().expect("symbolic sqrt unsupported").checked_sqrt().map(Self::from_rdec) }
    pub fn attos(&self) -> I192 { self.0 }
    pub fn to_vec(&self) -> Vec<u8> { self.rdec().map(|d| d.to_vec()).unwrap_or_default() }
    // symbolic formulas for harnesses
    pub fn f_ge(&self, o: Decimal) -> sv::Form { sv::ge(&self.val(), &o.val()) }
    pub fn f_gt(&self, o: Decimal) -> sv::Form { sv::gt(&self.val(), &o.val()) }
    pub fn f_le(&self, o: Decimal) -> sv::Form { sv::le(&self.val(), &o.val()) }
    pub fn f_lt(&self, o: Decimal) -> sv::Form { sv::lt(&self.val(), &o.val()) }
    pub fn f_eq(&self, o: Decimal) -> sv::Form { sv::eq(&self.val(), &o.val()) }
}
macro_rules! dec_op { ($tr:ident, $f:ident, $tra:ident, $fa:ident, |$a:ident, $b:ident| $e:expr) => {
    impl $tr for Decimal { type Output = Decimal; fn $f(self, o: Decimal) -> Decimal {
        if let (Some(x), Some(y)) = (self.rdec(), o.rdec()) { return Decimal::from_rdec($tr::$f(x, y)); }
        let ($a, $b) = (self, o); $e
    } }
    impl<'a> $tr<&'a Decimal> for Decimal { type Output = Decimal; fn $f(self, o: &'a Decimal) -> Decimal { $tr::$f(self, *o) } }
    impl<'a> $tr<Decimal> for &'a Decimal { type Output = Decimal; fn $f(self, o: Decimal) -> Decimal { $tr::$f(*self, o) } }
    impl<'a, 'b> $tr<&'b Decimal> for &'a Decimal { type Output = Decimal; fn $f(self, o: &'b Decimal) -> Decimal { $tr::$f(*self, *o) } }
    impl $tra for Decimal { fn $fa(&mut self, o: Decimal) { *self = $tr::$f(*self, o); } }
    impl<const B: u32, const S: bool> $tr<Int<B, S>> for Decimal { type Output = Decimal; fn $f(self, o: Int<B, S>) -> Decimal { $tr::$f(self, Decimal::from(o)) } }
    impl<const B: u32, const S: bool> $tr<Decimal> for Int<B, S> { type Output = Decimal; fn $f(self, o: Decimal) -> Decimal { $tr::$f(Decimal::from(self), o) } }
    impl<const B: u32, const S: bool> $tra<Int<B, S>> for Decimal { fn $fa(&mut self, o: Int<B, S>) { *self = $tr::$f(*self, Decimal::from(o)); } }
    dec_op!(@nat $tr, $f, $tra, $fa, i32, usize);
};
(@nat $tr:ident, $f:ident, $tra:ident, $fa:ident, $($t:ty),*) => { $(
    impl $tr<$t> for Decimal { type Output = Decimal; fn $f(self, o: $t) -> Decimal { $tr::$f(self, Decimal::from(o)) } }
    impl $tr<Decimal> for $t { type Output = Decimal; fn $f(self, o: Decimal) -> Decimal { $tr::$f(Decimal::from(self), o) } }
    impl $tra<$t> for Decimal { fn $fa(&mut self, o: $t) { *self = $tr::$f(*self, Decimal::from(o)); } }
)* } }
dec_op!(Add, add, AddAssign, add_assign, |a, b| Decimal::of(&term::add(&a.val(), &b.val())));
dec_op!(Sub, sub, SubAssign, sub_assign, |a, b| Decimal::of(&term::sub(&a.val(), &b.val())));
dec_op!(Mul, mul, MulAssign, mul_assign, |a, b| Decimal::of(&term::tdiv_c(&term::mul(&a.val(), &b.val()), &term::e18())));
dec_op!(Div, div, DivAssign, div_assign, |a, b| {
    if b.is_zero() { panic!("division by zero") }
    Decimal::of(&term::qdiv(&term::scale(&a.val(), &term::e18()), &b.val()))
});
impl Neg for Decimal { type Output = Decimal; fn neg(self) -> Decimal { Decimal::of(&term::neg(&self.val())) } }
impl<'a> Neg for &'a Decimal { type Output = Decimal; fn neg(self) -> Decimal { -*self } }
impl Sum for Decimal { fn sum<I: Iterator<Item = Decimal>>(it: I) -> Decimal { it.fold(Decimal::ZERO, |a, b| a + b) } }
impl<'a> Sum<&'a Decimal> for Decimal { fn sum<I: Iterator<Item = &'a Decimal>>(it: I) -> Decimal { it.fold(Decimal::ZERO, |a, b| a + *b) } }
impl PartialEq for Decimal { fn eq(&self, o: &Decimal) -> bool { self.0 == o.0 } }
impl Eq for Decimal {}
impl PartialOrd for Decimal {
    fn partial_cmp(&self, o: &Decimal) -> Option<Ordering> { Some(self.cmp(o)) }
    fn lt(&self, o: &Decimal) -> bool { self.0 < o.0 }
    fn le(&self, o: &Decimal) -> bool { self.0 <= o.0 }
    fn gt(&self, o: &Decimal) -> bool { self.0 > o.0 }
    fn ge(&self, o: &Decimal) -> bool { self.0 >= o.0 }
}
impl Ord for Decimal {
    fn cmp(&self, o: &Decimal) -> Ordering { self.0.cmp(&o.0) }
    fn max(self, o: Decimal) -> Decimal { Decimal::max(self, o) }
    fn min(self, o: Decimal) -> Decimal { Decimal::min(self, o) }
    fn clamp(self, a: Decimal, b: Decimal) -> Decimal { Decimal::clamp(self, a, b) }
}
impl Default for Decimal { fn default() -> Self { Decimal::ZERO } }
impl std::hash::Hash for Decimal { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { if let Some(d) = self.rdec() { d.hash(h) } } }
impl fmt::Display for Decimal { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { match self.rdec() { Some(d) => write!(f, "{}", d), None => write!(f, "?") } } }
impl fmt::Debug for Decimal { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { match self.rdec() { Some(d) => write!(f, "{}", d), None => write!(f, "{}", term::show(&self.val())) } } }
impl FromStr for Decimal { type Err = radix_common::math::ParseDecimalError; fn from_str(s: &str) -> Result<Self, Self::Err> { RDec::from_str(s).map(Decimal::from_rdec) } }
impl TryFrom<&str> for Decimal { type Error = radix_common::math::ParseDecimalError; fn try_from(s: &str) -> Result<Self, Self::Error> { Self::from_str(s) } }
macro_rules! dec_from { ($($t:ty),*) => { $( impl From<$t> for Decimal { fn from(x: $t) -> Decimal { Decimal::from_rdec(RDec::from(x)) } } )* } }
dec_from!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, bool);
impl<const B: u32, const S: bool> From<Int<B, S>> for Decimal {
    fn from(x: Int<B, S>) -> Decimal { Decimal::of(&term::scale(&x.val(), &term::e18())) }
}
impl From<RDec> for Decimal { fn from(x: RDec) -> Decimal { Decimal::from_rdec(x) } }
impl From<Decimal> for RDec { fn from(x: Decimal) -> RDec { x.rdec().expect("symbolic decimal where the platform needs a constant") } }

// ------------------------------------------------------------------------------------------------ machine integers
#[derive(Clone, Copy)]
pub enum IR { C(i128), S(term::T) }
#[derive(Clone, Copy)]
pub struct Int<const BITS: u32, const SIGNED: bool>(pub IR);
#[allow(non_camel_case_types)] pub type u16k = Int<16, false>;
#[allow(non_camel_case_types)] pub type u32k = Int<32, false>;
#[allow(non_camel_case_types)] pub type u64k = Int<64, false>;
#[allow(non_camel_case_types)] pub type i16k = Int<16, true>;
#[allow(non_camel_case_types)] pub type i64k = Int<64, true>;
/// exponent-like arguments: anything integral
#[allow(non_camel_case_types)] pub struct i128k(pub Int<64, true>);
macro_rules! i128k_from { ($($t:ty),*) => { $( impl From<$t> for i128k { fn from(x: $t) -> i128k { i128k(Int(IR::C(x as i128))) } } )* } }
i128k_from!(u8, u16, u32, u64, usize, i8, i16, i32, i64);
impl<const B: u32, const S: bool> From<Int<B, S>> for i128k { fn from(x: Int<B, S>) -> i128k { i128k(Int(x.0)) } }

pub fn range(bits: u32, signed: bool) -> (BigInt, BigInt) {
    if signed { (-(BigInt::one() << (bits - 1)), (BigInt::one() << (bits - 1)) - 1) } else { (BigInt::zero(), (BigInt::one() << bits) - 1) }
}
impl<const B: u32, const S: bool> Int<B, S> {
    pub const BITS: u32 = B;
    pub const MAX: Self = Int(IR::C(if S { (1i128 << (B - 1)) - 1 } else { (1i128 << B) - 1 }));
    pub const MIN: Self = Int(IR::C(if S { -(1i128 << (B - 1)) } else { 0 }));
    pub const fn c(x: i128) -> Self { Int(IR::C(x)) }
    pub fn from_i(x: i128) -> Self { Int(IR::C(x)) }
    pub fn val(&self) -> Val { match self.0 { IR::C(x) => Val::C(BigInt::from(x)), IR::S(t) => Val::T(t) } }
    /// value known to be in range
    pub fn of(v: &Val) -> Self { match v { Val::C(c) => Int(IR::C(c.to_i128().expect("integer range"))), Val::T(t) => Int(IR::S(*t)) } }
    pub fn fits(v: &Val) -> bool {
        let (lo, hi) = range(B, S);
        branch(sv::ge(v, &Val::C(lo))) && branch(sv::le(v, &Val::C(hi)))
    }
    pub fn checked_of(v: &Val) -> Option<Self> { if Self::fits(v) { Some(Self::of(v)) } else { None } }
    pub fn panicking(v: &Val, what: &str) -> Self { Self::checked_of(v).unwrap_or_else(|| panic!("attempt to {} with overflow", what)) }
    pub fn wrap(v: &Val) -> Self {
        let (lo, hi) = range(B, S);
        let iv = term::interval(v);
        if iv.0.map_or(false, |l| l >= lo) && iv.1.map_or(false, |h| h <= hi) { return Self::of(v); }
        if Self::fits(v) { return Self::of(v); }
        let m = BigInt::one() << B;
        // v - 2^B * floor((v - lo) / 2^B)
        let q = term::fdiv_c(&term::sub(v, &Val::C(lo)), &m);
        Self::of(&term::sub(v, &term::scale(&q, &m)))
    }
    /// Enumerates the values (forking) when symbolic; only for small ranges.
    pub fn concrete_i128(&self, what: &str) -> i128 {
        match self.0 {
            IR::C(x) => x,
            IR::S(t) => {
                let iv = term::interval(&Val::T(t));
                let (mut lo, mut n) = (iv.0.as_ref().and_then(|x| x.to_i128()).unwrap_or(0), 64);
                let small = matches!((&iv.0, &iv.1), (Some(a), Some(b)) if (b - a) < BigInt::from(64));
                if !small {
                    // what the path knows
                    for w in [32i128, 64, 256] {
                        if crate::explore::must(sv::ge(&self.val(), &zero()).and(sv::lt(&self.val(), &Val::C(w.into())))) { lo = 0; n = w; break; }
                    }
                }
                for k in 0..n { let x = lo + k; if branch(sv::eq(&self.val(), &Val::C(BigInt::from(x)))) { return x; } }
                engine_error(&format!("symbolic integer needs a concrete value: {} {}", what, term::show(&self.val())))
            }
        }
    }
    pub fn is_const(&self) -> bool { matches!(self.0, IR::C(_)) }
    pub fn min(self, o: Self) -> Self { Self::of(&term::vmin(&self.val(), &o.val())) }
    pub fn max(self, o: Self) -> Self { Self::of(&term::vmax(&self.val(), &o.val())) }
    pub fn clamp(self, a: Self, b: Self) -> Self { if a > b { panic!("assertion failed: min <= max") } self.max(a).min(b) }
    pub fn abs(self) -> Self { Self::panicking(&term::vabs(&self.val()), "negate") }
    pub fn is_positive(self) -> bool { self > 0 }
    pub fn is_negative(self) -> bool { self < 0 }
    pub fn is_zero(&self) -> bool { *self == 0 }
    pub fn signum(self) -> Self { if self > 0 { Self::c(1) } else if self < 0 { Self::c(-1) } else { Self::c(0) } }
    pub fn checked_add(self, o: Self) -> Option<Self> { Self::checked_of(&term::add(&self.val(), &o.val())) }
    pub fn checked_sub(self, o: Self) -> Option<Self> { Self::checked_of(&term::sub(&self.val(), &o.val())) }
    pub fn checked_mul(self, o: Self) -> Option<Self> { Self::checked_of(&term::mul(&self.val(), &o.val())) }
    pub fn checked_div(self, o: Self) -> Option<Self> { if o == 0 { None } else { Self::checked_of(&term::qdiv(&self.val(), &o.val())) } }
    pub fn checked_rem(self, o: Self) -> Option<Self> { if o == 0 { None } else { Some(self % o) } }
    pub fn checked_abs(self) -> Option<Self> { Self::checked_of(&term::vabs(&self.val())) }
    pub fn unsigned_abs(self) -> Int<B, false> { Int::of(&term::vabs(&self.val())) }
    pub fn div_ceil(self, o: Self) -> Self { let q = self / o; if self % o != 0 { q + 1 } else { q } }
    pub fn rem_euclid(self, o: Self) -> Self { let r = self % o; if r < 0 { r + o.abs() } else { r } }
    pub fn overflowing_add(self, o: Self) -> (Self, bool) { match self.checked_add(o) { Some(x) => (x, false), None => (self.wrapping_add(o), true) } }
    pub fn overflowing_sub(self, o: Self) -> (Self, bool) { match self.checked_sub(o) { Some(x) => (x, false), None => (self.wrapping_sub(o), true) } }
    pub fn checked_neg(self) -> Option<Self> { Self::checked_of(&term::neg(&self.val())) }
    pub fn saturating_add(self, o: Self) -> Self { Self::sat(&term::add(&self.val(), &o.val())) }
    pub fn saturating_sub(self, o: Self) -> Self { Self::sat(&term::sub(&self.val(), &o.val())) }
    pub fn saturating_mul(self, o: Self) -> Self { Self::sat(&term::mul(&self.val(), &o.val())) }
    fn sat(v: &Val) -> Self { let (lo, hi) = range(B, S); Self::of(&term::vmax(&Val::C(lo), &term::vmin(&Val::C(hi), v))) }
    pub fn wrapping_add(self, o: Self) -> Self { Self::wrap(&term::add(&self.val(), &o.val())) }
    pub fn wrapping_sub(self, o: Self) -> Self { Self::wrap(&term::sub(&self.val(), &o.val())) }
    pub fn wrapping_mul(self, o: Self) -> Self { Self::wrap(&term::mul(&self.val(), &o.val())) }
    pub fn abs_diff(self, o: Self) -> Self { Self::of(&term::vabs(&term::sub(&self.val(), &o.val()))) }
    pub fn pow<E: Into<i128k>>(self, e: E) -> Self { let e = e.into().0.concrete_i128("pow"); let mut r = Self::c(1); for _ in 0..e { r = r * self; } r }
    pub fn to_string(&self) -> String { format!("{}", self) }
    pub fn leading_zeros(self) -> u32k { u32k::from_i(match self.0 { IR::C(x) => B as i128 - (BigInt::from(x).bits() as i128), _ => engine_error("symbolic leading_zeros") }) }
    pub fn f_eq(&self, o: Self) -> sv::Form { sv::eq(&self.val(), &o.val()) }
    pub fn f_le(&self, o: Self) -> sv::Form { sv::le(&self.val(), &o.val()) }
    pub fn f_lt(&self, o: Self) -> sv::Form { sv::lt(&self.val(), &o.val()) }
    pub fn f_ge(&self, o: Self) -> sv::Form { sv::ge(&self.val(), &o.val()) }
    pub fn f_gt(&self, o: Self) -> sv::Form { sv::gt(&self.val(), &o.val()) }
    fn rem_val(self, o: Self) -> Val {
        if o == 0 { panic!("attempt to calculate the remainder with a divisor of zero") }
        let q = term::qdiv(&self.val(), &o.val());
        term::sub(&self.val(), &term::mul(&q, &o.val()))
    }
    fn bit_and(self, o: Self) -> Self {
        match (self.0, o.0) {
            (IR::C(a), IR::C(b)) => Self::wrap(&Val::C(BigInt::from(a & b))),
            (IR::C(_), _) => o.bit_and(self),
            (IR::S(_), IR::C(m)) => {
                if m >= 0 && (m & (m + 1)) == 0 {
                    let k = BigInt::from(m + 1);
                    let v = self.val();
                    return Self::of(&term::sub(&v, &term::scale(&term::fdiv_c(&v, &k), &k)));
                }
                engine_error("symbolic bit-and with a mask that is not 2^k-1")
            }
            _ => engine_error("symbolic bit-and"),
        }
    }
    fn bit_or(self, o: Self) -> Self {
        match (self.0, o.0) {
            (IR::C(a), IR::C(b)) => Self::wrap(&Val::C(BigInt::from(a | b))),
            (IR::C(_), _) => o.bit_or(self),
            _ => {
                // disjoint ranges: one operand is below 2^k, the other a multiple of 2^k
                for (a, b) in [(self, o), (o, self)] {
                    let iv = term::interval(&a.val());
                    if let (Some(lo), Some(hi)) = iv {
                        if !lo.is_negative() {
                            let k = BigInt::one() << hi.bits();
                            let bv = b.val();
                            let r = term::sub(&bv, &term::scale(&term::fdiv_c(&bv, &k), &k));
                            if r == Val::C(BigInt::zero()) || must(sv::eq0(&r)) { return Self::of(&term::add(&self.val(), &o.val())); }
                        }
                    }
                }
                // fall back: is a provably below 2^k for the granularity of b?
                for (a, b) in [(self, o), (o, self)] {
                    for k in (1..B).rev() {
                        let p = BigInt::one() << k;
                        let bv = b.val();
                        let r = term::sub(&bv, &term::scale(&term::fdiv_c(&bv, &p), &p));
                        if r == Val::C(BigInt::zero()) {
                            if must(sv::lt(&a.val(), &Val::C(p)).and(sv::ge(&a.val(), &zero()))) { return Self::of(&term::add(&self.val(), &o.val())); }
                        }
                    }
                }
                engine_error("symbolic bit-or of overlapping ranges")
            }
        }
    }
    fn shl(self, k: u32) -> Self {
        assert!(k < B, "attempt to shift left with overflow");
        Self::wrap(&term::scale(&self.val(), &(BigInt::one() << k)))
    }
    fn shr(self, k: u32) -> Self {
        assert!(k < B, "attempt to shift right with overflow");
        Self::of(&term::fdiv_c(&self.val(), &(BigInt::one() << k)))
    }
}
macro_rules! int_op { ($tr:ident, $f:ident, $tra:ident, $fa:ident, |$a:ident, $b:ident| $e:expr) => {
    impl<const B: u32, const S: bool> $tr for Int<B, S> { type Output = Self; fn $f(self, o: Self) -> Self { let ($a, $b) = (self, o); $e } }
    impl<const B: u32, const S: bool> $tr<i32> for Int<B, S> { type Output = Self; fn $f(self, o: i32) -> Self { $tr::$f(self, Self::c(o as i128)) } }
    impl<const B: u32, const S: bool> $tr<Int<B, S>> for i32 { type Output = Int<B, S>; fn $f(self, o: Int<B, S>) -> Int<B, S> { $tr::$f(Int::<B, S>::c(self as i128), o) } }
    impl<'a, const B: u32, const S: bool> $tr<&'a Int<B, S>> for Int<B, S> { type Output = Self; fn $f(self, o: &'a Self) -> Self { $tr::$f(self, *o) } }
    impl<'a, const B: u32, const S: bool> $tr<Int<B, S>> for &'a Int<B, S> { type Output = Int<B, S>; fn $f(self, o: Int<B, S>) -> Int<B, S> { $tr::$f(*self, o) } }
    impl<'a, const B: u32, const S: bool> $tr<i32> for &'a Int<B, S> { type Output = Int<B, S>; fn $f(self, o: i32) -> Int<B, S> { $tr::$f(*self, o) } }
    impl<const B: u32, const S: bool> $tra for Int<B, S> { fn $fa(&mut self, o: Self) { *self = $tr::$f(*self, o); } }
    impl<const B: u32, const S: bool> $tra<i32> for Int<B, S> { fn $fa(&mut self, o: i32) { *self = $tr::$f(*self, o); } }
} }
int_op!(Add, add, AddAssign, add_assign, |a, b| Self::panicking(&term::add(&a.val(), &b.val()), "add"));
int_op!(Sub, sub, SubAssign, sub_assign, |a, b| Self::panicking(&term::sub(&a.val(), &b.val()), "subtract"));
int_op!(Mul, mul, MulAssign, mul_assign, |a, b| Self::panicking(&term::mul(&a.val(), &b.val()), "multiply"));
int_op!(Div, div, DivAssign, div_assign, |a, b| { if b == 0 { panic!("attempt to divide by zero") } Self::panicking(&term::qdiv(&a.val(), &b.val()), "divide") });
int_op!(Rem, rem, RemAssign, rem_assign, |a, b| Self::of(&a.rem_val(b)));
int_op!(BitAnd, bitand, BitAndAssign, bitand_assign, |a, b| a.bit_and(b));
int_op!(BitOr, bitor, BitOrAssign, bitor_assign, |a, b| a.bit_or(b));
impl<const B: u32, const S: bool> Shl<i32> for Int<B, S> { type Output = Self; fn shl(self, k: i32) -> Self { Int::shl(self, k as u32) } }
impl<const B: u32, const S: bool> Shr<i32> for Int<B, S> { type Output = Self; fn shr(self, k: i32) -> Self { Int::shr(self, k as u32) } }
impl<const B: u32, const S: bool, const C: u32, const D: bool> Shl<Int<C, D>> for Int<B, S> { type Output = Self; fn shl(self, k: Int<C, D>) -> Self { Int::shl(self, k.concrete_i128("shift") as u32) } }
impl<const B: u32, const S: bool, const C: u32, const D: bool> Shr<Int<C, D>> for Int<B, S> { type Output = Self; fn shr(self, k: Int<C, D>) -> Self { Int::shr(self, k.concrete_i128("shift") as u32) } }
impl<const B: u32, const S: bool> ShlAssign<i32> for Int<B, S> { fn shl_assign(&mut self, k: i32) { *self = *self << k; } }
impl<const B: u32, const S: bool> ShrAssign<i32> for Int<B, S> { fn shr_assign(&mut self, k: i32) { *self = *self >> k; } }
impl<const B: u32, const S: bool> Neg for Int<B, S> { type Output = Self; fn neg(self) -> Self { Self::panicking(&term::neg(&self.val()), "negate") } }
impl<'a, const B: u32, const S: bool> Neg for &'a Int<B, S> { type Output = Int<B, S>; fn neg(self) -> Int<B, S> { -*self } }
impl<const B: u32, const S: bool> PartialEq for Int<B, S> { fn eq(&self, o: &Self) -> bool { branch(sv::eq(&self.val(), &o.val())) } }
impl<const B: u32, const S: bool> Eq for Int<B, S> {}
impl<const B: u32, const S: bool> PartialEq<i32> for Int<B, S> { fn eq(&self, o: &i32) -> bool { *self == Self::c(*o as i128) } }
impl<const B: u32, const S: bool> PartialEq<Int<B, S>> for i32 { fn eq(&self, o: &Int<B, S>) -> bool { Int::<B, S>::c(*self as i128) == *o } }
impl<const B: u32, const S: bool> PartialOrd<Int<B, S>> for i32 {
    fn partial_cmp(&self, o: &Int<B, S>) -> Option<Ordering> { Some(Int::<B, S>::c(*self as i128).cmp(o)) }
    fn lt(&self, o: &Int<B, S>) -> bool { Int::<B, S>::c(*self as i128) < *o }
    fn le(&self, o: &Int<B, S>) -> bool { Int::<B, S>::c(*self as i128) <= *o }
    fn gt(&self, o: &Int<B, S>) -> bool { Int::<B, S>::c(*self as i128) > *o }
    fn ge(&self, o: &Int<B, S>) -> bool { Int::<B, S>::c(*self as i128) >= *o }
}
impl<const B: u32, const S: bool> PartialOrd for Int<B, S> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
    fn lt(&self, o: &Self) -> bool { branch(sv::lt(&self.val(), &o.val())) }
    fn le(&self, o: &Self) -> bool { branch(sv::le(&self.val(), &o.val())) }
    fn gt(&self, o: &Self) -> bool { branch(sv::gt(&self.val(), &o.val())) }
    fn ge(&self, o: &Self) -> bool { branch(sv::ge(&self.val(), &o.val())) }
}
impl<const B: u32, const S: bool> PartialOrd<i32> for Int<B, S> {
    fn partial_cmp(&self, o: &i32) -> Option<Ordering> { Some(self.cmp(&Self::c(*o as i128))) }
    fn lt(&self, o: &i32) -> bool { *self < Self::c(*o as i128) }
    fn le(&self, o: &i32) -> bool { *self <= Self::c(*o as i128) }
    fn gt(&self, o: &i32) -> bool { *self > Self::c(*o as i128) }
    fn ge(&self, o: &i32) -> bool { *self >= Self::c(*o as i128) }
}
impl<const B: u32, const S: bool> Ord for Int<B, S> {
    fn cmp(&self, o: &Self) -> Ordering { if self < o { Ordering::Less } else if self == o { Ordering::Equal } else { Ordering::Greater } }
    fn max(self, o: Self) -> Self { Int::max(self, o) }
    fn min(self, o: Self) -> Self { Int::min(self, o) }
}
impl<const B: u32, const S: bool> std::hash::Hash for Int<B, S> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { if let IR::C(x) = self.0 { x.hash(h) } } }
impl<const B: u32, const S: bool> Default for Int<B, S> { fn default() -> Self { Self::c(0) } }
impl<const B: u32, const S: bool> fmt::Display for Int<B, S> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { match self.0 { IR::C(x) => write!(f, "{}", x), IR::S(_) => write!(f, "?") } } }
impl<const B: u32, const S: bool> fmt::Debug for Int<B, S> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(self, f) } }
impl<const B: u32, const S: bool> Sum for Int<B, S> { fn sum<I: Iterator<Item = Self>>(it: I) -> Self { it.fold(Self::c(0), |a, b| a + b) } }
impl<'a, const B: u32, const S: bool> Sum<&'a Int<B, S>> for Int<B, S> { fn sum<I: Iterator<Item = &'a Self>>(it: I) -> Self { it.fold(Self::c(0), |a, b| a + *b) } }
macro_rules! int_from { ($($t:ty),*) => { $( impl<const B: u32, const S: bool> From<$t> for Int<B, S> { fn from(x: $t) -> Self { Self::checked_of(&Val::C(BigInt::from(x))).expect("conversion") } } )* } }
int_from!(u8, u16, u32, u64, i8, i16, i32, i64, usize, bool);
macro_rules! widen { ($($a:ty => $b:ty),*) => { $( impl From<$a> for $b { fn from(x: $a) -> $b { Int(x.0) } } )* } }
widen!(u16k => u32k, u16k => u64k, u16k => i64k, u32k => u64k, u32k => i64k, i16k => i64k);
macro_rules! narrow { ($($a:ty => $b:ty),*) => { $( impl TryFrom<$a> for $b { type Error = std::num::TryFromIntError; fn try_from(x: $a) -> Result<$b, Self::Error> { <$b>::checked_of(&x.val()).ok_or_else(|| u8::try_from(256u16).unwrap_err()) } } )* } }
narrow!(u64k => u32k, u64k => u16k, u64k => i64k, u64k => i16k, i64k => u64k, i64k => u32k, i64k => u16k, i64k => i16k, u32k => u16k, u32k => i16k, u16k => i16k, i16k => u16k, i16k => u32k, i16k => u64k);
impl<const B: u32, const S: bool> TryFrom<Int<B, S>> for usize { type Error = std::num::TryFromIntError; fn try_from(x: Int<B, S>) -> Result<usize, Self::Error> { usize::try_from(x.concrete_i128("usize")) } }

/// `as` casts
pub trait CastFrom<X> { fn cast_from(x: X) -> Self; }
pub fn cast<X, Y: CastFrom<X>>(x: X) -> Y { Y::cast_from(x) }
impl<const B: u32, const S: bool, const C: u32, const D: bool> CastFrom<Int<C, D>> for Int<B, S> { fn cast_from(x: Int<C, D>) -> Self { Self::wrap(&x.val()) } }
macro_rules! cast_nat { ($($t:ty),*) => { $(
    impl<const B: u32, const S: bool> CastFrom<$t> for Int<B, S> { fn cast_from(x: $t) -> Self { Self::wrap(&Val::C(BigInt::from(x))) } }
    impl<const B: u32, const S: bool> CastFrom<Int<B, S>> for $t { fn cast_from(x: Int<B, S>) -> $t { x.concrete_i128("cast to a native integer") as $t } }
)* } }
cast_nat!(u8, i8, i32, usize, u128, isize);
/// tells a value apart at the given cuts: a representative of the stretch between two of them
pub fn choose<const B: u32, const S: bool>(x: Int<B, S>, at: &[i128]) -> i128 {
    if let IR::C(c) = x.0 { return c; }
    for (i, k) in at.iter().enumerate() { if x < Int::c(*k) { return if i == 0 { *k - 1 } else { at[i - 1] }; } }
    *at.last().unwrap()
}
impl<const B: u32, const S: bool> CastFrom<bool> for Int<B, S> { fn cast_from(x: bool) -> Self { Self::c(x as i128) } }

/// `a..b` over machine integers
impl<const B: u32, const S: bool> std::iter::Step for Int<B, S> {
    // a hint only: the length may be symbolic
    fn steps_between(_: &Self, _: &Self) -> Option<usize> { Some(0) }
    fn forward_checked(x: Self, n: usize) -> Option<Self> { x.checked_add(Self::c(n as i128)) }
    fn backward_checked(x: Self, n: usize) -> Option<Self> { x.checked_sub(Self::c(n as i128)) }
}
pub struct Rng<const B: u32, const S: bool> { pub start: Int<B, S>, pub end: Int<B, S> }
pub fn rng<const B: u32, const S: bool>(a: Int<B, S>, b: Int<B, S>) -> Rng<B, S> { Rng { start: a, end: b } }
pub fn rng_incl<const B: u32, const S: bool>(a: Int<B, S>, b: Int<B, S>) -> Rng<B, S> { Rng { start: a, end: b + 1 } }
impl<const B: u32, const S: bool> Iterator for Rng<B, S> {
    type Item = Int<B, S>;
    fn next(&mut self) -> Option<Int<B, S>> { if self.start < self.end { let r = self.start; self.start = r + 1; Some(r) } else { None } }
}
impl<const B: u32, const S: bool> DoubleEndedIterator for Rng<B, S> {
    fn next_back(&mut self) -> Option<Int<B, S>> { if self.start < self.end { self.end = self.end - 1; Some(self.end) } else { None } }
}
impl<const B: u32, const S: bool> ExactSizeIterator for Rng<B, S> { fn len(&self) -> usize { if self.start < self.end { (self.end - self.start).concrete_i128("range length") as usize } else { 0 } } }
impl<const B: u32, const S: bool> Rng<B, S> { pub fn contains(&self, x: &Int<B, S>) -> bool { *x >= self.start && *x < self.end } }

// ------------------------------------------------------------------------------------------------ time
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Instant { pub seconds_since_unix_epoch: i64k }
pub use radix_common::prelude::TimeComparisonOperator;
impl Instant {
    pub fn new<X: Into<i64k>>(s: X) -> Instant { Instant { seconds_since_unix_epoch: s.into() } }
    pub fn compare(&self, o: Instant, op: TimeComparisonOperator) -> bool {
        let (a, b) = (self.seconds_since_unix_epoch, o.seconds_since_unix_epoch);
        match op {
            TimeComparisonOperator::Eq => a == b,
            TimeComparisonOperator::Lt => a < b,
            TimeComparisonOperator::Lte => a <= b,
            TimeComparisonOperator::Gt => a > b,
            TimeComparisonOperator::Gte => a >= b,
        }
    }
    pub fn add_seconds(&self, s: impl Into<i64k>) -> Option<Instant> { self.seconds_since_unix_epoch.checked_add(s.into()).map(|s| Instant { seconds_since_unix_epoch: s }) }
    pub fn add_minutes(&self, m: impl Into<i64k>) -> Option<Instant> { m.into().checked_mul(i64k::c(60)).and_then(|s| self.add_seconds(s)) }
    pub fn add_hours(&self, m: impl Into<i64k>) -> Option<Instant> { m.into().checked_mul(i64k::c(3600)).and_then(|s| self.add_seconds(s)) }
    pub fn add_days(&self, m: impl Into<i64k>) -> Option<Instant> { m.into().checked_mul(i64k::c(86400)).and_then(|s| self.add_seconds(s)) }
}
