// The body of both kinds of collections; `backwards()` says whether they are walked from the end.
fn ord<I: DoubleEndedIterator>(i: I) -> Either<I, std::iter::Rev<I>> { if backwards() { Either::R(i.rev()) } else { Either::L(i) } }
#[derive(Clone)]
pub struct HashMap<K, V> { v: Vec<(K, V)> }
#[derive(Clone)]
pub struct HashSet<K> { v: Vec<K> }

impl<K, V> Default for HashMap<K, V> { fn default() -> Self { HashMap { v: vec![] } } }
impl<K> Default for HashSet<K> { fn default() -> Self { HashSet { v: vec![] } } }



impl<K, V> HashMap<K, V> {
    /// the entries as they were inserted
    pub fn entries(&self) -> &[(K, V)] { &self.v }
    pub fn new() -> Self { Self::default() }
    pub fn with_capacity(_: usize) -> Self { Self::default() }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn iter(&self) -> impl DoubleEndedIterator<Item = (&K, &V)> + ExactSizeIterator + Clone { ord(self.v.iter().map((|p| (&p.0, &p.1)) as fn(&(K, V)) -> (&K, &V))) }
    pub fn iter_mut(&mut self) -> impl DoubleEndedIterator<Item = (&K, &mut V)> + ExactSizeIterator { ord(self.v.iter_mut().map(|p| (&p.0, &mut p.1))) }
    pub fn keys(&self) -> Keys<'_, K, V> { Keys(self, 0) }
    pub fn values(&self) -> impl DoubleEndedIterator<Item = &V> + ExactSizeIterator { ord(self.v.iter().map(|p| &p.1)) }
    pub fn values_mut(&mut self) -> impl DoubleEndedIterator<Item = &mut V> + ExactSizeIterator { ord(self.v.iter_mut().map(|p| &mut p.1)) }
    pub fn into_keys(self) -> impl Iterator<Item = K> { self.into_iter().map(|p| p.0) }
    pub fn into_values(self) -> impl Iterator<Item = V> { self.into_iter().map(|p| p.1) }
    pub fn clear(&mut self) { self.v.clear() }
    pub fn drain(&mut self) -> impl Iterator<Item = (K, V)> { std::mem::take(self).into_iter() }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) { self.v.retain_mut(|p| f(&p.0, &mut p.1)) }
    pub fn reserve(&mut self, _: usize) {}
}
impl<K: Eq, V> HashMap<K, V> {
    fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> { self.v.iter().position(|p| p.0.borrow() == k) }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.pos(&k) { Some(i) => Some(std::mem::replace(&mut self.v[i].1, v)), None => { self.v.push((k, v)); None } }
    }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { self.pos(k).map(|i| &self.v[i].1) }
    pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { self.pos(k).map(|i| &mut self.v[i].1) }
    pub fn get_key_value<Q: ?Sized + Eq>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> { self.pos(k).map(|i| (&self.v[i].0, &self.v[i].1)) }
    pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.pos(k).is_some() }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.pos(k).map(|i| self.v.remove(i).1) }
    pub fn swap_remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.remove(k) }
    pub fn shift_remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.remove(k) }
    pub fn remove_entry<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { self.pos(k).map(|i| self.v.remove(i)) }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match self.pos(&k) { Some(i) => Entry::Occupied(Occupied { m: self, i, k }), None => Entry::Vacant(Vacant { m: self, k }) }
    }
}
pub struct Keys<'a, K, V>(&'a HashMap<K, V>, usize);
impl<'a, K, V> Clone for Keys<'a, K, V> { fn clone(&self) -> Self { Keys(self.0, self.1) } }
impl<'a, K, V> Iterator for Keys<'a, K, V> {
    type Item = &'a K;
    fn next(&mut self) -> Option<&'a K> {
        let n = self.0.v.len();
        if self.1 >= n { return None; }
        let i = if backwards() { n - 1 - self.1 } else { self.1 };
        self.1 += 1;
        Some(&self.0.v[i].0)
    }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = self.0.v.len() - self.1; (n, Some(n)) }
}
impl<'a, K, V> ExactSizeIterator for Keys<'a, K, V> {}
impl<'a, K: Debug, V> Debug for Keys<'a, K, V> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.debug_list().entries(self.clone()).finish() } }

pub struct Occupied<'a, K, V> { m: &'a mut HashMap<K, V>, i: usize, k: K }
pub struct Vacant<'a, K, V> { m: &'a mut HashMap<K, V>, k: K }
pub enum Entry<'a, K, V> { Occupied(Occupied<'a, K, V>), Vacant(Vacant<'a, K, V>) }
impl<'a, K, V> Occupied<'a, K, V> {
    pub fn get(&self) -> &V { &self.m.v[self.i].1 }
    pub fn get_mut(&mut self) -> &mut V { &mut self.m.v[self.i].1 }
    pub fn into_mut(self) -> &'a mut V { &mut self.m.v[self.i].1 }
    pub fn insert(&mut self, v: V) -> V { std::mem::replace(&mut self.m.v[self.i].1, v) }
    pub fn remove(self) -> V { self.m.v.remove(self.i).1 }
    pub fn key(&self) -> &K { &self.k }
}
impl<'a, K, V> Vacant<'a, K, V> {
    pub fn insert(self, v: V) -> &'a mut V { self.m.v.push((self.k, v)); &mut self.m.v.last_mut().unwrap().1 }
    pub fn key(&self) -> &K { &self.k }
    pub fn into_key(self) -> K { self.k }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, v: V) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(v) } }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(f()) } }
    pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(o) = &mut self { f(o.get_mut()) } self }
    pub fn key(&self) -> &K { match self { Entry::Occupied(o) => &o.k, Entry::Vacant(e) => &e.k } }
}
impl<K, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = Either<std::vec::IntoIter<(K, V)>, std::iter::Rev<std::vec::IntoIter<(K, V)>>>;
    fn into_iter(self) -> Self::IntoIter { ord(self.v.into_iter()) }
}
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = std::vec::IntoIter<(&'a K, &'a V)>;
    fn into_iter(self) -> Self::IntoIter { self.iter().collect::<Vec<_>>().into_iter() }
}
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = std::vec::IntoIter<(&'a K, &'a mut V)>;
    fn into_iter(self) -> Self::IntoIter { self.iter_mut().collect::<Vec<_>>().into_iter() }
}
impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::new(); for (k, v) in it { m.insert(k, v); } m } }
impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } } }
impl<'a, K: Eq + Copy, V: Copy> Extend<(&'a K, &'a V)> for HashMap<K, V> { fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) { for (k, v) in it { self.insert(*k, *v); } } }
impl<K: Eq + Borrow<Q>, Q: ?Sized + Eq, V> std::ops::Index<&Q> for HashMap<K, V> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") } }
impl<K: Debug, V: Debug> Debug for HashMap<K, V> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.debug_map().entries(self.v.iter().map(|p| (&p.0, &p.1))).finish() } }
impl<K: Eq, V: PartialEq> PartialEq for HashMap<K, V> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.v.iter().all(|(k, v)| o.get(k).map_or(false, |w| v == w)) } }
impl<K: Eq, V: Eq> Eq for HashMap<K, V> {}
impl<K: Eq, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }

impl<K> HashSet<K> {
    pub fn entries(&self) -> &[K] { &self.v }
    pub fn new() -> Self { Self::default() }
    pub fn with_capacity(_: usize) -> Self { Self::default() }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn iter(&self) -> impl DoubleEndedIterator<Item = &K> + ExactSizeIterator + Clone { ord(self.v.iter()) }
    pub fn clear(&mut self) { self.v.clear() }
    pub fn drain(&mut self) -> impl Iterator<Item = K> { std::mem::take(self).into_iter() }
    pub fn retain<F: FnMut(&K) -> bool>(&mut self, f: F) { self.v.retain(f) }
}
impl<K: Eq> HashSet<K> {
    pub fn insert(&mut self, k: K) -> bool { if self.contains(&k) { false } else { self.v.push(k); true } }
    pub fn contains<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.v.iter().any(|p| p.borrow() == k) }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&K> where K: Borrow<Q> { self.v.iter().find(|p| (*p).borrow() == k) }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> bool where K: Borrow<Q> { match self.v.iter().position(|p| p.borrow() == k) { Some(i) => { self.v.remove(i); true } None => false } }
    pub fn shift_remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> bool where K: Borrow<Q> { self.remove(k) }
    pub fn swap_remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> bool where K: Borrow<Q> { self.remove(k) }
    pub fn take<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<K> where K: Borrow<Q> { self.v.iter().position(|p| p.borrow() == k).map(|i| self.v.remove(i)) }
    pub fn union<'a>(&'a self, o: &'a HashSet<K>) -> impl Iterator<Item = &'a K> { self.v.iter().chain(o.v.iter().filter(move |k| !self.contains(*k))) }
    pub fn intersection<'a>(&'a self, o: &'a HashSet<K>) -> impl Iterator<Item = &'a K> { self.v.iter().filter(move |k| o.contains(*k)) }
    pub fn difference<'a>(&'a self, o: &'a HashSet<K>) -> impl Iterator<Item = &'a K> { self.v.iter().filter(move |k| !o.contains(*k)) }
    pub fn is_subset(&self, o: &HashSet<K>) -> bool { self.v.iter().all(|k| o.contains(k)) }
    pub fn is_superset(&self, o: &HashSet<K>) -> bool { o.is_subset(self) }
    pub fn is_disjoint(&self, o: &HashSet<K>) -> bool { !self.v.iter().any(|k| o.contains(k)) }
}
impl<K> IntoIterator for HashSet<K> {
    type Item = K;
    type IntoIter = Either<std::vec::IntoIter<K>, std::iter::Rev<std::vec::IntoIter<K>>>;
    fn into_iter(self) -> Self::IntoIter { ord(self.v.into_iter()) }
}
impl<'a, K> IntoIterator for &'a HashSet<K> {
    type Item = &'a K;
    type IntoIter = Either<std::slice::Iter<'a, K>, std::iter::Rev<std::slice::Iter<'a, K>>>;
    fn into_iter(self) -> Self::IntoIter { ord(self.v.iter()) }
}
impl<K: Eq> FromIterator<K> for HashSet<K> { fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self { let mut m = Self::new(); for k in it { m.insert(k); } m } }
impl<K: Eq> Extend<K> for HashSet<K> { fn extend<I: IntoIterator<Item = K>>(&mut self, it: I) { for k in it { self.insert(k); } } }
impl<'a, K: Eq + Copy + 'a> Extend<&'a K> for HashSet<K> { fn extend<I: IntoIterator<Item = &'a K>>(&mut self, it: I) { for k in it { self.insert(*k); } } }
impl<K: Debug> Debug for HashSet<K> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.debug_set().entries(self.v.iter()).finish() } }
impl<K: Eq> PartialEq for HashSet<K> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.is_subset(o) } }
impl<K: Eq> Eq for HashSet<K> {}
impl<K: Eq, const N: usize> From<[K; N]> for HashSet<K> { fn from(a: [K; N]) -> Self { a.into_iter().collect() } }
