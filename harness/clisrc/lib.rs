#![allow(static_mut_refs)]
#[path = "../src/gen.rs"]
pub mod gen;
#[path = "../src/sem.rs"]
pub mod sem;
#[path = "../src/sx.rs"]
pub mod sx;
pub mod base;
pub mod cli;
pub mod query;
pub mod rnd;
pub mod safe;
pub mod seq;
pub mod upd;

#[cfg(not(feature = "symbolic"))]
pub fn all() -> Vec<(&'static str, fn())> {
    let mut v: Vec<(&'static str, fn())> = vec![];
    v.extend_from_slice(query::LIST);
    v.extend_from_slice(rnd::LIST);
    v.extend_from_slice(safe::LIST);
    v.extend_from_slice(seq::LIST);
    v.extend_from_slice(upd::LIST);
    v
}

/// `harness! { name => body; ... }` defines the entry points of a module
#[macro_export]
macro_rules! harness {
    ($($name:ident => $body:expr;)*) => {
        $(
            #[cfg(feature = "symbolic")]
            #[no_mangle]
            pub extern "C" fn $name() { $crate::sx::enter(); $crate::cli::start(); $body }
            #[cfg(not(feature = "symbolic"))]
            fn $name() { $crate::sx::enter(); $crate::cli::start(); $body }
        )*
        #[cfg(not(feature = "symbolic"))]
        pub static LIST: &[(&'static str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
