//! Stand-in for `slotmap::DenseSlotMap`, with the same order of keys, reuse of slots and order of iteration.
use std::marker::PhantomData;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct KeyData {
    pub idx: u32,
    pub version: u32,
}
pub trait Key: Copy + Default + Eq + std::hash::Hash + Ord + std::fmt::Debug + From<KeyData> {
    fn data(&self) -> KeyData;
}
#[macro_export]
macro_rules! new_key_type {
    ($($(#[$m:meta])* $vis:vis struct $name:ident;)*) => { $(
        $(#[$m])*
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
        #[repr(transparent)]
        $vis struct $name($crate::KeyData);
        impl From<$crate::KeyData> for $name {
            fn from(d: $crate::KeyData) -> Self { $name(d) }
        }
        impl $crate::Key for $name {
            fn data(&self) -> $crate::KeyData { self.0 }
        }
    )* };
}
#[derive(Clone, Debug)]
struct Slot {
    /// Odd while the slot is occupied.
    version: u32,
    /// Where the value is while occupied, the next free slot otherwise.
    at: u32,
}
#[derive(Clone, Debug)]
pub struct DenseSlotMap<K: Key, V> {
    keys: Vec<K>,
    values: Vec<V>,
    slots: Vec<Slot>,
    free_head: u32,
    key: PhantomData<K>,
}
impl<K: Key, V> Default for DenseSlotMap<K, V> {
    fn default() -> Self {
        Self { keys: vec![], values: vec![], slots: vec![Slot { version: 0, at: 1 }], free_head: 1, key: PhantomData }
    }
}
impl<K: Key, V> DenseSlotMap<K, V> {
    pub fn with_key() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.values.len()
    }
    pub fn is_empty(&self) -> bool {
        self.values.is_empty()
    }
    fn position(&self, k: K) -> Option<usize> {
        let d = k.data();
        let s = self.slots.get(d.idx as usize)?;
        (d.version % 2 == 1 && s.version == d.version).then_some(s.at as usize)
    }
    pub fn contains_key(&self, k: K) -> bool {
        self.position(k).is_some()
    }
    pub fn insert(&mut self, v: V) -> K {
        let idx = self.free_head;
        let at = self.values.len() as u32;
        let version = if let Some(s) = self.slots.get_mut(idx as usize) {
            self.free_head = s.at;
            s.version += 1;
            s.at = at;
            s.version
        } else {
            self.slots.push(Slot { version: 1, at });
            self.free_head = self.slots.len() as u32;
            1
        };
        let k = K::from(KeyData { idx, version });
        self.keys.push(k);
        self.values.push(v);
        k
    }
    pub fn remove(&mut self, k: K) -> Option<V> {
        let at = self.position(k)?;
        let idx = k.data().idx;
        let s = &mut self.slots[idx as usize];
        s.version += 1;
        s.at = self.free_head;
        self.free_head = idx;
        self.keys.swap_remove(at);
        let v = self.values.swap_remove(at);
        if let Some(moved) = self.keys.get(at) {
            self.slots[moved.data().idx as usize].at = at as u32;
        }
        Some(v)
    }
    pub fn retain(&mut self, mut f: impl FnMut(K, &mut V) -> bool) {
        let mut i = 0;
        while i < self.keys.len() {
            if f(self.keys[i], &mut self.values[i]) {
                i += 1;
            } else {
                self.remove(self.keys[i]);
            }
        }
    }
    pub fn clear(&mut self) {
        self.retain(|_, _| false);
    }
    pub fn get(&self, k: K) -> Option<&V> {
        self.position(k).map(|at| &self.values[at])
    }
    pub fn get_mut(&mut self, k: K) -> Option<&mut V> {
        self.position(k).map(|at| &mut self.values[at])
    }
    pub fn keys(&self) -> impl Iterator<Item = K> + Clone + '_ {
        self.keys.iter().copied()
    }
    pub fn values(&self) -> std::slice::Iter<'_, V> {
        self.values.iter()
    }
    pub fn values_mut(&mut self) -> std::slice::IterMut<'_, V> {
        self.values.iter_mut()
    }
    pub fn iter(&self) -> impl Iterator<Item = (K, &V)> + '_ {
        self.keys.iter().copied().zip(self.values.iter())
    }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (K, &mut V)> + '_ {
        self.keys.iter().copied().zip(self.values.iter_mut())
    }
}
impl<K: Key, V> std::ops::Index<K> for DenseSlotMap<K, V> {
    type Output = V;
    fn index(&self, k: K) -> &V {
        self.get(k).expect("invalid DenseSlotMap key used")
    }
}
impl<K: Key, V> std::ops::IndexMut<K> for DenseSlotMap<K, V> {
    fn index_mut(&mut self, k: K) -> &mut V {
        self.get_mut(k).expect("invalid DenseSlotMap key used")
    }
}
