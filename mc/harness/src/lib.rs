//! Shared pieces of the harness binaries: thin wrappers over the public API.
#[macro_use]
pub mod types;
#[macro_use]
pub mod pairs;
pub use engine::{self, *};
pub use packed_simd;

/// Read argument `slot` as `T` (any plain-old-data type).
#[inline(always)]
pub unsafe fn ld<T>(p: *const u8, slot: usize) -> T {
    std::ptr::read_unaligned(p.add(SLOT * slot) as *const T)
}
/// Write result `slot`.
#[inline(always)]
pub unsafe fn st<T>(o: *mut u8, slot: usize, v: T) {
    assert!(std::mem::size_of::<T>() <= SLOT);
    std::ptr::write_unaligned(o.add(SLOT * slot) as *mut T, v)
}

/// `w!(|p, o| { ... })`: a capture-free wrapper function.
#[macro_export]
macro_rules! w {
    (|$p:ident, $o:ident| $b:block) => {{
        #[allow(unused_unsafe, unused_variables)]
        fn f($p: *const u8, $o: *mut u8) {
            unsafe { $b }
        }
        f as $crate::F
    }};
}

pub fn f32b(x: f32) -> u128 {
    x.to_bits() as u128
}
pub fn f64b(x: f64) -> u128 {
    x.to_bits() as u128
}
