//! Stand-in for lru 0.7: a bounded map that evicts the least recently used entry.
use std::borrow::Borrow;
use std::collections::HashMap;
use std::hash::{BuildHasher, Hash};
use std::collections::hash_map::RandomState;
pub type DefaultHasher = RandomState;
#[derive(Debug, Clone)]
pub struct LruCache<K, V, S = DefaultHasher> {
    map: HashMap<K, (u64, V), S>,
    cap: usize,
    tick: u64,
}
impl<K: Hash + Eq + Clone, V> LruCache<K, V> {
    pub fn new(cap: usize) -> Self {
        LruCache { map: HashMap::new(), cap, tick: 0 }
    }
    pub fn unbounded() -> Self {
        Self::new(usize::MAX)
    }
}
impl<K: Hash + Eq + Clone, V, S: BuildHasher> LruCache<K, V, S> {
    pub fn with_hasher(cap: usize, s: S) -> Self {
        LruCache { map: HashMap::with_hasher(s), cap, tick: 0 }
    }
    fn t(&mut self) -> u64 {
        sched::point();
        self.tick += 1;
        self.tick
    }
    fn oldest(&self) -> Option<K> {
        self.map.iter().min_by_key(|(_, v)| v.0).map(|(k, _)| k.clone())
    }
    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        let t = self.t();
        if !self.map.contains_key(&k) {
            if self.cap == 0 {
                return None;
            }
            if self.map.len() >= self.cap {
                let o = self.oldest().unwrap();
                self.map.remove(&o);
            }
        }
        self.map.insert(k, (t, v)).map(|x| x.1)
    }
    pub fn push(&mut self, k: K, v: V) -> Option<(K, V)> {
        let t = self.t();
        if let Some((kk, _)) = self.map.get_key_value(&k) {
            let kk = kk.clone();
            return self.map.insert(k, (t, v)).map(|x| (kk, x.1));
        }
        if self.cap == 0 {
            return Some((k, v));
        }
        let mut r = None;
        if self.map.len() >= self.cap {
            let o = self.oldest().unwrap();
            r = self.map.remove_entry(&o).map(|(k, x)| (k, x.1));
        }
        self.map.insert(k, (t, v));
        r
    }
    pub fn get<'a, Q: Hash + Eq + ?Sized>(&'a mut self, k: &Q) -> Option<&'a V>
    where
        K: Borrow<Q>,
    {
        let t = self.t();
        self.map.get_mut(k).map(|x| {
            x.0 = t;
            &x.1
        })
    }
    pub fn get_mut<'a, Q: Hash + Eq + ?Sized>(&'a mut self, k: &Q) -> Option<&'a mut V>
    where
        K: Borrow<Q>,
    {
        let t = self.t();
        self.map.get_mut(k).map(|x| {
            x.0 = t;
            &mut x.1
        })
    }
    pub fn get_or_insert<'a, F: FnOnce() -> V>(&'a mut self, k: K, f: F) -> Option<&'a V> {
        if !self.map.contains_key(&k) {
            self.put(k.clone(), f());
        }
        self.get(&k)
    }
    pub fn peek<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.map.get(k).map(|x| &x.1)
    }
    pub fn peek_mut<Q: Hash + Eq + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        self.map.get_mut(k).map(|x| &mut x.1)
    }
    pub fn contains<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.map.contains_key(k)
    }
    pub fn pop<Q: Hash + Eq + ?Sized>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.map.remove(k).map(|x| x.1)
    }
    pub fn pop_lru(&mut self) -> Option<(K, V)> {
        let o = self.oldest()?;
        self.map.remove_entry(&o).map(|(k, x)| (k, x.1))
    }
    pub fn len(&self) -> usize {
        self.map.len()
    }
    pub fn is_empty(&self) -> bool {
        self.map.is_empty()
    }
    pub fn cap(&self) -> usize {
        self.cap
    }
    pub fn resize(&mut self, cap: usize) {
        while self.map.len() > cap {
            self.pop_lru();
        }
        self.cap = cap;
    }
    pub fn clear(&mut self) {
        sched::point();
        self.map.clear()
    }
    /// most recently used first
    pub fn iter(&self) -> std::vec::IntoIter<(&K, &V)> {
        let mut v: Vec<_> = self.map.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse((x.1).0));
        v.into_iter().map(|(k, x)| (k, &x.1)).collect::<Vec<_>>().into_iter()
    }
}
