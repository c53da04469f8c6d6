#![allow(static_mut_refs)]
pub mod sx;
pub mod gen;
pub mod sem;
pub mod store;
pub mod cmds;
pub mod topo;
pub mod search;
pub mod weighted;
pub mod constr;
pub mod cycles;
pub mod flow;
pub mod queues;
pub mod format;

#[cfg(not(feature = "symbolic"))]
pub fn all() -> Vec<(&'static str, fn())> {
    let mut v: Vec<(&'static str, fn())> = vec![];
    v.extend_from_slice(store::LIST);
    v.extend_from_slice(cmds::LIST);
    v.extend_from_slice(topo::LIST);
    v.extend_from_slice(search::LIST);
    v.extend_from_slice(weighted::LIST);
    v.extend_from_slice(constr::LIST);
    v.extend_from_slice(cycles::LIST);
    v.extend_from_slice(flow::LIST);
    v.extend_from_slice(queues::LIST);
    v.extend_from_slice(format::LIST);
    v
}

/// `harness! { name => body; ... }` defines the entry points of a module
#[macro_export]
macro_rules! harness {
    ($($name:ident => $body:expr;)*) => {
        $(
            #[cfg(feature = "symbolic")]
            #[no_mangle]
            pub extern "C" fn $name() { $crate::sx::enter(); $body }
            #[cfg(not(feature = "symbolic"))]
            fn $name() { $crate::sx::enter(); $body }
        )*
        #[cfg(not(feature = "symbolic"))]
        pub static LIST: &[(&'static str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}
