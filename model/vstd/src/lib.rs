//! Stand-in for `std` seen by /repo's crates in the symbolic build: everything is the real standard
//! library except `collections::HashMap` / `HashSet`, which are replaced by association lists that
//! look keys up by equality and iterate in an order chosen by `order::HOOK` (append, prepend, or any
//! insertion position, decided by the symbolic engine).
pub use ::std::*;

pub mod order {
    /// 0 = append, 1 = prepend, 2 = any position (HOOK decides).
    pub static mut MODE: u8 = 0;
    pub static mut HOOK: Option<fn(usize) -> usize> = None;
    #[inline]
    pub(crate) fn pos(len: usize) -> usize {
        unsafe {
            match MODE {
                0 => len,
                1 => 0,
                _ => match HOOK {
                    Some(f) if len > 0 => f(len + 1),
                    _ => len,
                },
            }
        }
    }
}

pub mod collections {
    pub use self::hash_map::HashMap;
    pub use self::hash_set::HashSet;
    pub use ::std::collections::*;
    pub mod hash_map;
    pub mod hash_set;
}
