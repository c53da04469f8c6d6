//! Interface between the harnesses and the environment that runs them: the symbolic engine, or the
//! native replayer (which feeds recorded values).
#[cfg(feature = "symbolic")]
mod imp {
    extern "C" {
        fn symx_sym(w: u32) -> u64;
        fn symx_choose(n: u64) -> u64;
        fn symx_choose_env(n: u64) -> u64;
        fn symx_assume(c: bool);
        fn symx_assert(c: bool, m: *const u8, l: usize);
        fn symx_cover(k: u32);
        fn symx_note(t: u64, v: u64);
        fn symx_limit(n: u64);
        fn symx_fs_read(p: *const u8, l: usize, b: *mut u8, cap: usize) -> i64;
        fn symx_fs_write(p: *const u8, l: usize, b: *const u8, n: usize);
        fn symx_panic_loc(p: *const u8, l: usize, line: u64);
    }
    pub fn bits(w: u32) -> u64 {
        unsafe { symx_sym(w) }
    }
    pub fn choose(n: usize) -> usize {
        unsafe { symx_choose(n as u64) as usize }
    }
    fn hook(n: usize) -> usize {
        unsafe { symx_choose_env(n as u64) as usize }
    }
    pub fn assume(c: bool) {
        unsafe { symx_assume(c) }
    }
    pub fn check(c: bool, m: &str) {
        unsafe { symx_assert(c, m.as_ptr(), m.len()) }
    }
    pub fn cover(k: u32) {
        unsafe { symx_cover(k) }
    }
    pub fn note(t: u64, v: u64) {
        unsafe { symx_note(t, v) }
    }
    pub fn limit(n: u64) {
        unsafe { symx_limit(n) }
    }
    /// Iteration order of hash maps from here on: 0 insertion order, 1 reverse, 2 every order
    pub fn order(m: u8) {
        unsafe {
            vstd::order::HOOK = Some(hook);
            vstd::order::MODE = m;
        }
    }
    /// insertion order or its reverse, decided by the engine
    pub fn order_any2() {
        unsafe { vstd::order::MODE = symx_choose_env(2) as u8 }
    }
    /// name of a scratch file
    pub fn path(name: &str) -> String {
        format!("/w/{}", name)
    }
    pub fn put(name: &str, b: &[u8]) {
        let p = path(name);
        unsafe { symx_fs_write(p.as_ptr(), p.len(), b.as_ptr(), b.len()) }
    }
    pub fn get(name: &str) -> Option<Vec<u8>> {
        let p = path(name);
        let mut b = vec![0u8; 4096];
        let mut n = unsafe { symx_fs_read(p.as_ptr(), p.len(), b.as_mut_ptr(), b.len()) };
        if n < 0 {
            return None;
        }
        if n as usize >= b.len() {
            b = vec![0u8; 1 << 17];
            n = unsafe { symx_fs_read(p.as_ptr(), p.len(), b.as_mut_ptr(), b.len()) };
        }
        b.truncate(n as usize);
        Some(b)
    }
    pub fn enter() {
        std::panic::set_hook(Box::new(|i| {
            if let Some(l) = i.location() {
                unsafe { symx_panic_loc(l.file().as_ptr(), l.file().len(), l.line() as u64) }
            }
        }));
    }
}
#[cfg(not(feature = "symbolic"))]
mod imp {
    use std::cell::RefCell;
    pub struct Rep {
        pub inputs: Vec<u64>,
        pub i: usize,
        pub notes: Vec<(u64, u64)>,
        pub fails: Vec<String>,
        pub underrun: bool,
        /// what becomes of file system calls ("n:kind,...") and the order of the calls of two processes
        pub io: String,
        pub sched: Vec<u8>,
    }
    thread_local! { pub static R: RefCell<Rep> = RefCell::new(Rep{inputs: vec![], i: 0, notes: vec![], fails: vec![], underrun: false, io: String::new(), sched: vec![]}); }
    /// thrown to end a replay (failed assumption or failed assertion)
    pub struct Stop(pub &'static str);
    fn next() -> u64 {
        R.with(|r| {
            let mut r = r.borrow_mut();
            let k = r.i;
            r.i += 1;
            match r.inputs.get(k) {
                Some(v) => *v,
                None => {
                    r.underrun = true;
                    0
                }
            }
        })
    }
    pub fn bits(w: u32) -> u64 {
        let v = next();
        if w >= 64 {
            v
        } else {
            v & ((1u64 << w) - 1)
        }
    }
    pub fn choose(n: usize) -> usize {
        let v = next() as usize;
        if v >= n {
            0
        } else {
            v
        }
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(Stop("assume")));
        }
    }
    pub fn check(c: bool, m: &str) {
        if !c {
            R.with(|r| r.borrow_mut().fails.push(m.to_string()));
            std::panic::resume_unwind(Box::new(Stop("assert")));
        }
    }
    pub fn cover(_k: u32) {}
    pub fn note(t: u64, v: u64) {
        R.with(|r| r.borrow_mut().notes.push((t, v)));
    }
    pub fn limit(_n: u64) {}
    pub fn order(_m: u8) {}
    pub fn order_any2() {}
    pub fn path(name: &str) -> String {
        let d = std::env::temp_dir().join(format!("gcs{}", std::process::id()));
        let _ = std::fs::create_dir_all(&d);
        d.join(name).to_string_lossy().to_string()
    }
    pub fn put(name: &str, b: &[u8]) {
        std::fs::write(path(name), b).expect("scratch file");
    }
    pub fn get(name: &str) -> Option<Vec<u8>> {
        std::fs::read(path(name)).ok()
    }
    pub fn enter() {}
}
pub use imp::*;

pub fn u64v() -> u64 {
    bits(64)
}
pub fn u8v() -> u8 {
    bits(8) as u8
}
pub fn flag() -> bool {
    bits(1) == 1
}
/// symbolic value in 0..=max (no fork)
pub fn upto(max: u64) -> u64 {
    let v = bits(64);
    assume(v <= max);
    v
}
/// symbolic signed value in lo..=hi (no fork)
pub fn range(lo: i64, hi: i64) -> i64 {
    let v = bits(64) as i64;
    assume(v >= lo && v <= hi);
    v
}
