// The real compression lives in `real`; in worlds with symbolic configuration the compression is modelled as lossless
// (property C23 decides the real one).
use scrypto::prelude::*;
#[path = "d_float_real.rs"]
pub mod real;
#[derive(ScryptoSbor, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum DFloat16 { Real(real::DFloat16), Ideal(Decimal) }
impl DFloat16 {
    pub fn new(exp: i16, sig: i16) -> Self { DFloat16::Real(real::DFloat16::new(exp, sig)) }
}
impl Into<Decimal> for DFloat16 {
    fn into(self) -> Decimal { match self { DFloat16::Real(r) => r.into(), DFloat16::Ideal(d) => d } }
}
impl From<Decimal> for DFloat16 {
    fn from(value: Decimal) -> Self {
        if value.is_const() {
            let r = real::DFloat16::from(value);
            let back: Decimal = r.into();
            if !::scrypto::explore::ideal_compression() || back == value { return DFloat16::Real(r); }
        } else if !::scrypto::explore::ideal_compression() { return DFloat16::Real(real::DFloat16::from(value)); }
        DFloat16::Ideal(value)
    }
}
