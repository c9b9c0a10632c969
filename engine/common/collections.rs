// std collections with a deterministic (but selectable) hash order, so that re-execution follows
// the same path. Everything else is std's own implementation.
pub use std::collections::*;
use std::cell::Cell;
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::{Deref, DerefMut, Index};

thread_local! { static SEED: Cell<u64> = Cell::new(0); }
pub fn set_hash_seed(s: u64) {
    SEED.with(|c| c.set(s))
}

#[derive(Clone)]
pub struct S(u64);
impl Default for S {
    fn default() -> S {
        S(SEED.with(|c| c.get()))
    }
}
pub struct H(u64);
impl BuildHasher for S {
    type Hasher = H;
    fn build_hasher(&self) -> H {
        H(0x9E3779B97F4A7C15u64 ^ self.0.wrapping_mul(0xD1342543DE82EF95))
    }
}
impl Hasher for H {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001B3).rotate_left(5);
        }
    }
}

pub struct HashMap<K, V>(std::collections::HashMap<K, V, S>);
pub struct HashSet<K>(std::collections::HashSet<K, S>);

impl<K, V> HashMap<K, V> {
    pub fn new() -> Self {
        HashMap(std::collections::HashMap::with_hasher(S::default()))
    }
    pub fn with_capacity(n: usize) -> Self {
        HashMap(std::collections::HashMap::with_capacity_and_hasher(n, S::default()))
    }
    pub fn into_keys(self) -> impl Iterator<Item = K> {
        self.0.into_keys()
    }
    pub fn into_values(self) -> impl Iterator<Item = V> {
        self.0.into_values()
    }
}
impl<K> HashSet<K> {
    pub fn new() -> Self {
        HashSet(std::collections::HashSet::with_hasher(S::default()))
    }
    pub fn with_capacity(n: usize) -> Self {
        HashSet(std::collections::HashSet::with_capacity_and_hasher(n, S::default()))
    }
}
impl<K, V> Deref for HashMap<K, V> {
    type Target = std::collections::HashMap<K, V, S>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K, V> DerefMut for HashMap<K, V> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<K> Deref for HashSet<K> {
    type Target = std::collections::HashSet<K, S>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K> DerefMut for HashSet<K> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<K, V> Default for HashMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K> Default for HashSet<K> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Clone, V: Clone> Clone for HashMap<K, V> {
    fn clone(&self) -> Self {
        HashMap(self.0.clone())
    }
}
impl<K: Clone> Clone for HashSet<K> {
    fn clone(&self) -> Self {
        HashSet(self.0.clone())
    }
}
impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for HashMap<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<K: fmt::Debug> fmt::Debug for HashSet<K> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K: Eq + Hash, V: Eq> Eq for HashMap<K, V> {}
impl<K: Eq + Hash> PartialEq for HashSet<K> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K: Eq + Hash> Eq for HashSet<K> {}
impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        let mut m = Self::new();
        m.0.extend(i);
        m
    }
}
impl<K: Eq + Hash> FromIterator<K> for HashSet<K> {
    fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self {
        let mut m = Self::new();
        m.0.extend(i);
        m
    }
}
impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<K: Eq + Hash> Extend<K> for HashSet<K> {
    fn extend<I: IntoIterator<Item = K>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Eq + Hash, const N: usize> From<[K; N]> for HashSet<K> {
    fn from(a: [K; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = hash_map::IntoIter<K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = hash_map::Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = hash_map::IterMut<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter_mut()
    }
}
impl<K> IntoIterator for HashSet<K> {
    type Item = K;
    type IntoIter = hash_set::IntoIter<K>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, K> IntoIterator for &'a HashSet<K> {
    type Item = &'a K;
    type IntoIter = hash_set::Iter<'a, K>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<'a, K: Eq + Hash, V> Index<&'a K> for HashMap<K, V> {
    type Output = V;
    fn index(&self, k: &K) -> &V {
        &self.0[k]
    }
}
