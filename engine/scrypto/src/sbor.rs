//! Stand-in for SBOR: structural copy and structural equality of values (the encoding itself is modelled as ideal).
use crate::coll::{HashMap, HashSet, IndexMap, IndexSet};
use crate::num::*;
use radix_common::prelude::*;
use radix_engine_interface::prelude::*;
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;

pub trait ScryptoSbor: 'static {
    fn dup(&self) -> Self where Self: Sized;
    fn sbor_eq(&self, o: &Self) -> bool where Self: Sized;
}
#[macro_export]
macro_rules! sbor_eq_clone { ($($t:ty),* $(,)?) => { $(
    impl $crate::sbor::ScryptoSbor for $t { fn dup(&self) -> Self { self.clone() } fn sbor_eq(&self, o: &Self) -> bool { self == o } }
)* } }
sbor_eq_clone!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, bool, char, String, (), crate::num::Decimal, crate::num::I192, crate::num::Instant,
    ResourceAddress, ComponentAddress, PackageAddress, GlobalAddress, InternalAddress, NonFungibleLocalId, NonFungibleGlobalId, Hash, AccessRule, AccessRuleNode,
    OwnerRole, ResourceOrNonFungible, Bls12381G1PublicKey, Bls12381G2Signature, UncheckedUrl, UncheckedOrigin, WithdrawStrategy, RoundingMode);
impl<const B: u32, const S: bool> ScryptoSbor for Int<B, S> { fn dup(&self) -> Self { *self } fn sbor_eq(&self, o: &Self) -> bool { self == o } }
impl<T: ScryptoSbor> ScryptoSbor for Vec<T> {
    fn dup(&self) -> Self { self.iter().map(|x| x.dup()).collect() }
    fn sbor_eq(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.sbor_eq(b)) }
}
impl<T: ScryptoSbor> ScryptoSbor for Option<T> {
    fn dup(&self) -> Self { self.as_ref().map(|x| x.dup()) }
    fn sbor_eq(&self, o: &Self) -> bool { match (self, o) { (Some(a), Some(b)) => a.sbor_eq(b), (None, None) => true, _ => false } }
}
impl<T: ScryptoSbor> ScryptoSbor for Box<T> { fn dup(&self) -> Self { Box::new((**self).dup()) } fn sbor_eq(&self, o: &Self) -> bool { (**self).sbor_eq(o) } }
impl<T: ScryptoSbor, const N: usize> ScryptoSbor for [T; N] {
    fn dup(&self) -> Self { std::array::from_fn(|i| self[i].dup()) }
    fn sbor_eq(&self, o: &Self) -> bool { self.iter().zip(o).all(|(a, b)| a.sbor_eq(b)) }
}
impl<T: ScryptoSbor, E: ScryptoSbor> ScryptoSbor for Result<T, E> {
    fn dup(&self) -> Self { match self { Ok(x) => Ok(x.dup()), Err(e) => Err(e.dup()) } }
    fn sbor_eq(&self, o: &Self) -> bool { match (self, o) { (Ok(a), Ok(b)) => a.sbor_eq(b), (Err(a), Err(b)) => a.sbor_eq(b), _ => false } }
}
macro_rules! sbor_maps { ($m:ident $s:ident) => {
impl<K: ScryptoSbor + Eq, V: ScryptoSbor> ScryptoSbor for $m<K, V> {
    fn dup(&self) -> Self { let mut m = $m::new(); for (k, v) in self.entries() { m.insert(k.dup(), v.dup()); } m }
    fn sbor_eq(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).map_or(false, |w| v.sbor_eq(w))) }
}
impl<K: ScryptoSbor + Eq> ScryptoSbor for $s<K> {
    fn dup(&self) -> Self { self.entries().iter().map(|k| k.dup()).collect() }
    fn sbor_eq(&self, o: &Self) -> bool { self == o }
}
} }
sbor_maps!(HashMap HashSet);
sbor_maps!(IndexMap IndexSet);
impl<K: ScryptoSbor + Ord, V: ScryptoSbor> ScryptoSbor for std::collections::BTreeMap<K, V> {
    fn dup(&self) -> Self { self.iter().map(|(k, v)| (k.dup(), v.dup())).collect() }
    fn sbor_eq(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.0 == b.0 && a.1.sbor_eq(b.1)) }
}
impl<K: ScryptoSbor + Ord> ScryptoSbor for std::collections::BTreeSet<K> {
    fn dup(&self) -> Self { self.iter().map(|k| k.dup()).collect() }
    fn sbor_eq(&self, o: &Self) -> bool { self == o }
}
macro_rules! tup { ($($n:ident $i:tt),*) => {
    impl<$($n: ScryptoSbor),*> ScryptoSbor for ($($n,)*) {
        fn dup(&self) -> Self { ($(self.$i.dup(),)*) }
        fn sbor_eq(&self, o: &Self) -> bool { $(self.$i.sbor_eq(&o.$i) &&)* true }
    }
} }
tup!(A 0);
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);

thread_local! { static HANDLES: RefCell<Vec<Rc<dyn Any>>> = RefCell::new(vec![]); }
pub fn reset_handles() { HANDLES.with(|h| h.borrow_mut().clear()) }
#[derive(Debug, Clone)]
pub struct EncodeError;
#[derive(Debug, Clone)]
pub struct DecodeError;
const MAGIC: [u8; 4] = [0x5c, 0x21, 0x07, 0x4d];

pub fn scrypto_encode<T: ScryptoSbor>(x: &T) -> Result<Vec<u8>, EncodeError> {
    let d: Rc<dyn Any> = Rc::new(x.dup());
    HANDLES.with(|h| {
        let mut h = h.borrow_mut();
        h.push(d);
        let mut v = MAGIC.to_vec();
        v.extend((h.len() as u64 - 1).to_le_bytes());
        Ok(v)
    })
}
pub fn scrypto_decode<T: ScryptoSbor>(b: &[u8]) -> Result<T, DecodeError> {
    if b.len() != 12 || b[..4] != MAGIC { return Err(DecodeError); }
    let i = u64::from_le_bytes(b[4..].try_into().unwrap()) as usize;
    let d = HANDLES.with(|h| h.borrow().get(i).cloned()).ok_or(DecodeError)?;
    d.downcast_ref::<T>().map(|x| x.dup()).ok_or(DecodeError)
}
