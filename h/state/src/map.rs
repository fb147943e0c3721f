//! A map for the encoder: `std`'s HashMap seeds its hasher at random and probes by pointer, which
//! the solver cannot follow; this one has the same contract over a short list.
pub use std::collections::*;
pub const CAP: usize = 8;
#[derive(Clone, Debug)]
pub struct HashMap<K, V> {
    e: [Option<(K, V)>; CAP],
    n: usize,
}
impl<K: PartialEq, V> Default for HashMap<K, V> {
    fn default() -> Self {
        Self { e: [None, None, None, None, None, None, None, None], n: 0 }
    }
}
impl<K: PartialEq, V> HashMap<K, V> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
    fn at(&self, k: &K) -> usize {
        let mut i = 0;
        let mut f = CAP;
        while i < CAP {
            if f == CAP && matches!(&self.e[i], Some((x, _)) if x == k) {
                f = i;
            }
            i += 1;
        }
        f
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let f = self.at(&k);
        let (at, new) = if f < CAP { (f, false) } else { (self.n, true) };
        self.n += new as usize;
        self.e[at].replace((k, v)).map(|x| x.1)
    }
    pub fn get(&self, k: &K) -> Option<&V> {
        let f = self.at(k);
        if f < CAP { self.e[f].as_ref().map(|x| &x.1) } else { None }
    }
    pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
        let f = self.at(k);
        if f < CAP { self.e[f].as_mut().map(|x| &mut x.1) } else { None }
    }
    pub fn contains_key(&self, k: &K) -> bool {
        self.at(k) < CAP
    }
    pub fn len(&self) -> usize {
        self.n
    }
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.e.iter().flatten().map(|x| (&x.0, &x.1))
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        Entry { m: self, k }
    }
}
pub struct Entry<'a, K, V> {
    m: &'a mut HashMap<K, V>,
    k: K,
}
impl<'a, K: PartialEq, V> Entry<'a, K, V> {
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        let i = self.m.at(&self.k);
        if i < CAP {
            return &mut self.m.e[i].as_mut().unwrap().1;
        }
        let n = self.m.n;
        self.m.n += 1;
        self.m.e[n] = Some((self.k, f()));
        &mut self.m.e[n].as_mut().unwrap().1
    }
    pub fn or_insert(self, v: V) -> &'a mut V {
        self.or_insert_with(|| v)
    }
}
impl<K: PartialEq, V> Extend<(K, V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<K: PartialEq, V> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = Self::default();
        m.extend(it);
        m
    }
}
impl<K: PartialEq, V> core::ops::Index<&K> for HashMap<K, V> {
    type Output = V;
    fn index(&self, k: &K) -> &V {
        self.get(k).expect("no entry")
    }
}
