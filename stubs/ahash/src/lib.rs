//! `ahash` for the symbolic build: `hash_map.rs` and `hash_set.rs` are the files
//! of ahash 0.7.6 (thin wrappers around the standard library's `HashMap` and
//! `HashSet`); only the hash function is replaced.  Here every key of a map has
//! the *same* hash - a legitimate, if slow, hash function - so a look-up compares
//! keys with `==` only, and symbolic keys are no obstacle.
//!
//! Which constant it is decides in which slot of the table the first key lands,
//! and with it the order in which the map iterates.  `set_order` makes that an
//! input of the check, and maps made one after another get different constants.
//! (Two keys: both orders. Three keys: the three cyclic ones.)
#![allow(clippy::all)]
mod hash_map;
mod hash_set;
pub use crate::hash_map::AHashMap;
pub use crate::hash_set::AHashSet;

use std::hash::{BuildHasher, Hasher};

static mut BASE: u64 = 0;
static mut STEP: u64 = 0;

/// Chooses the iteration order of the maps made from now on.
pub fn set_order(k: u64) {
    unsafe {
        BASE = k;
        STEP = k;
    }
}

#[derive(Clone, Debug)]
pub struct RandomState(u64);
impl RandomState {
    pub fn new() -> Self {
        unsafe {
            STEP = (STEP + BASE) % 3;
            RandomState(0u64.wrapping_sub(STEP))
        }
    }
    pub fn with_seeds(_: u64, _: u64, _: u64, _: u64) -> Self {
        Self::new()
    }
}
impl Default for RandomState {
    fn default() -> Self {
        Self::new()
    }
}
impl BuildHasher for RandomState {
    type Hasher = AHasher;
    #[inline(always)]
    fn build_hasher(&self) -> AHasher {
        AHasher(self.0)
    }
}

#[derive(Clone, Debug)]
pub struct AHasher(u64);
impl Default for AHasher {
    fn default() -> Self {
        AHasher(0)
    }
}
impl Hasher for AHasher {
    #[inline(always)]
    fn finish(&self) -> u64 {
        self.0
    }
    #[inline(always)]
    fn write(&mut self, _: &[u8]) {}
    #[inline(always)]
    fn write_u8(&mut self, _: u8) {}
    #[inline(always)]
    fn write_u32(&mut self, _: u32) {}
    #[inline(always)]
    fn write_u64(&mut self, _: u64) {}
    #[inline(always)]
    fn write_usize(&mut self, _: usize) {}
}
