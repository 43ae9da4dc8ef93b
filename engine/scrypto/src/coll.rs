//! Collections with value semantics that only need `Eq` on keys (keys may be symbolic). Hashed collections are walked in insertion order
//! or its reverse when the exploration asks for it (the code under test must not depend on it).
use crate::explore::reversed_maps;
pub mod hashed { use super::{reversed_maps as backwards, Either}; use std::borrow::Borrow; use std::fmt::Debug; include!("coll_body.rs"); }
/// indexed collections keep their order of insertion
pub mod indexed { use super::Either; use std::borrow::Borrow; use std::fmt::Debug; fn backwards() -> bool { false } include!("coll_body.rs"); }
pub use hashed::{HashMap, HashSet, Entry};
pub use indexed::{HashMap as IndexMap, HashSet as IndexSet};
pub type NonIterMap<K, V> = HashMap<K, V>;
pub fn hash_map_new<K, V>() -> HashMap<K, V> { HashMap::default() }
pub fn index_map_new<K, V>() -> IndexMap<K, V> { IndexMap::default() }
pub fn hash_set_new<K>() -> HashSet<K> { HashSet::default() }
pub fn index_set_new<K>() -> IndexSet<K> { IndexSet::default() }

pub enum Either<A, B> { L(A), R(B) }
impl<T, A: Iterator<Item = T>, B: Iterator<Item = T>> Iterator for Either<A, B> {
    type Item = T;
    fn next(&mut self) -> Option<T> { match self { Either::L(a) => a.next(), Either::R(b) => b.next() } }
    fn size_hint(&self) -> (usize, Option<usize>) { match self { Either::L(a) => a.size_hint(), Either::R(b) => b.size_hint() } }
}
impl<T, A: ExactSizeIterator<Item = T>, B: ExactSizeIterator<Item = T>> ExactSizeIterator for Either<A, B> {}
impl<T, A: DoubleEndedIterator<Item = T>, B: DoubleEndedIterator<Item = T>> DoubleEndedIterator for Either<A, B> {
    fn next_back(&mut self) -> Option<T> { match self { Either::L(a) => a.next_back(), Either::R(b) => b.next_back() } }
}
impl<A: Clone, B: Clone> Clone for Either<A, B> { fn clone(&self) -> Self { match self { Either::L(a) => Either::L(a.clone()), Either::R(b) => Either::R(b.clone()) } } }

#[macro_export] macro_rules! hashmap { () => { $crate::coll::HashMap::new() }; ($($k:expr => $v:expr),+ $(,)?) => {{ let mut m = $crate::coll::HashMap::new(); $( m.insert($k, $v); )+ m }} }
#[macro_export] macro_rules! indexmap { () => { $crate::coll::IndexMap::new() }; ($($k:expr => $v:expr),+ $(,)?) => {{ let mut m = $crate::coll::IndexMap::new(); $( m.insert($k, $v); )+ m }} }
#[macro_export] macro_rules! hashset { () => { $crate::coll::HashSet::new() }; ($($k:expr),+ $(,)?) => {{ let mut m = $crate::coll::HashSet::new(); $( m.insert($k); )+ m }} }
#[macro_export] macro_rules! indexset { () => { $crate::coll::IndexSet::new() }; ($($k:expr),+ $(,)?) => {{ let mut m = $crate::coll::IndexSet::new(); $( m.insert($k); )+ m }} }
