//! `fnv` for the symbolic build: the same types, every hash 0. A constant is a legal hash function;
//! it keeps symbolic keys out of the probe sequence, so a hash map forks on key equality alone.
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Clone, Copy, Default)]
pub struct FnvHasher(());
impl FnvHasher {
    pub fn with_key(_: u64) -> FnvHasher {
        FnvHasher(())
    }
}
impl Hasher for FnvHasher {
    #[inline]
    fn finish(&self) -> u64 {
        0
    }
    #[inline]
    fn write(&mut self, _: &[u8]) {}
}
pub type FnvBuildHasher = BuildHasherDefault<FnvHasher>;
pub type FnvHashMap<K, V> = HashMap<K, V, FnvBuildHasher>;
pub type FnvHashSet<T> = HashSet<T, FnvBuildHasher>;
