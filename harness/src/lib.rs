#![allow(dead_code)]
#[macro_use]
mod macros {
    /// The entry points of a property: exported by name in the symbolic build,
    /// listed in `ENTRIES` for the native one.
    macro_rules! entries { ($(fn $n:ident() $b:block)*) => {
        $(pub fn $n() $b)*
        #[cfg(not(indexer_verif_map))]
        pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($n), $n)),*];
        #[cfg(indexer_verif_map)]
        mod exported { $(#[no_mangle] pub extern "C" fn $n() { super::$n() })* }
    } }
}
pub mod nd;
pub mod same;
pub mod world;

/// Forgets what an earlier run of the native build left behind.
pub fn fresh() { js_sys::clear_calls() }

macro_rules! props { ($($m:ident $f:literal)*) => {
    $(#[cfg(feature = $f)] pub mod $m;)*
    #[cfg(not(indexer_verif_map))]
    pub fn entry(name: &str) -> Option<fn()> {
        let lists: &[&[(&str, fn())]] = &[$(#[cfg(feature = $f)] $m::ENTRIES),*];
        lists.iter().flat_map(|l| l.iter()).find(|e| e.0 == name).map(|e| e.1)
    }
} }
props! {
    c01 "c01"
    c02 "c02"
    c03 "c03"
    c04 "c04"
    c05 "c05"
    c06 "c06"
    c07 "c07"
    c08 "c08"
    c09 "c09"
    c10 "c10"
    c11 "c11"
    c12 "c12"
    c13 "c13"
    c14 "c14"
    c15 "c15"
    c16 "c16"
    c17 "c17"
    c18 "c18"
    c19 "c19"
    c20 "c20"
    c21 "c21"
    c22 "c22"
    c23 "c23"
    c24 "c24"
    c25 "c25"
    c26 "c26"
    c27 "c27"
    c28 "c28"
    c29 "c29"
    c30 "c30"
    c31 "c31"
    c32 "c32"
    c33 "c33"
    c34 "c34"
    c35 "c35"
}
