//! Running the command-line tools: each run is a process of its own on a shared file system.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bin {
    Add,
    Build,
    Clean,
    Csp,
    Cycle,
    Delete,
    Desc,
    Init,
    Lib,
    Random,
    ShortPath,
    TopoSort,
}
use Bin::*;
pub fn name(b: Bin) -> &'static str {
    match b {
        Add => "gc-add",
        Build => "gc-build",
        Clean => "gc-clean",
        Csp => "gc-csp",
        Cycle => "gc-cycle",
        Delete => "gc-delete",
        Desc => "gc-desc",
        Init => "gc-init",
        Lib => "gc-lib",
        Random => "gc-random",
        ShortPath => "gc-short-path",
        TopoSort => "gc-topo-sort",
    }
}
pub struct Out {
    pub code: i32,
    pub out: Vec<u8>,
}

pub type Args<'a> = &'a [&'a [u8]];

#[cfg(feature = "symbolic")]
mod imp {
    use super::*;
    extern "C" {
        fn symx_run(f: extern "C" fn(*const u8), d: *const u8) -> u64;
        fn symx_par(f: extern "C" fn(*const u8), d0: *const u8, d1: *const u8, switches: u64, codes: *mut u64);
        fn symx_par_out(i: u64, b: *mut u8, cap: usize) -> u64;
        fn symx_set_args(p: *const [usize; 2], n: usize);
        fn symx_stdout(b: *mut u8, cap: usize) -> u64;
        fn symx_stdin(b: *const u8, l: usize);
        fn symx_sym(w: u32) -> u64;
        fn symx_fs_mkdir(p: *const u8, l: usize);
        fn symx_faults(n: u64);
        fn symx_crashes(n: u64);
        fn exit(c: i32) -> !;
    }
    struct P {
        b: Bin,
        args: Vec<[usize; 2]>,
    }
    fn proc(b: Bin, args: Args) -> P {
        let n = name(b).as_bytes();
        let mut v: Vec<[usize; 2]> = vec![[n.as_ptr() as usize, n.len()]];
        for a in args {
            v.push([a.as_ptr() as usize, a.len()]);
        }
        P { b, args: v }
    }
    extern "C" fn entry(d: *const u8) {
        let p = unsafe { &*(d as *const P) };
        unsafe { symx_set_args(p.args.as_ptr(), p.args.len()) }
        let c = match p.b {
            Add => bin_gc_add::__symx_entry(),
            Build => bin_gc_build::__symx_entry(),
            Clean => bin_gc_clean::__symx_entry(),
            Csp => bin_gc_csp::__symx_entry(),
            Cycle => bin_gc_cycle::__symx_entry(),
            Delete => bin_gc_delete::__symx_entry(),
            Desc => bin_gc_desc::__symx_entry(),
            Init => bin_gc_init::__symx_entry(),
            Lib => bin_gc_lib::__symx_entry(),
            Random => bin_gc_random::__symx_entry(),
            ShortPath => bin_gc_short_path::__symx_entry(),
            TopoSort => bin_gc_topo_sort::__symx_entry(),
        };
        unsafe { exit(c) }
    }
    static mut LEFT: usize = 0;
    static mut MAX: u64 = 0;
    /// bounds the random numbers of the next run: at most k numbers up to max
    pub fn draws(k: usize, max: u64) {
        unsafe {
            LEFT = k;
            MAX = max;
            FREE = usize::MAX
        }
    }
    static mut FREE: usize = 0;
    static mut DRAWN: usize = 0;
    static mut MIRROR: u64 = 0;
    /// at most k numbers, that are given except for the one at position `free`, arbitrary up to max
    pub fn draws_given(k: usize, max: u64, free: usize) {
        unsafe {
            LEFT = k;
            MAX = max;
            FREE = free;
            MIRROR = 0;
            DRAWN = 0
        }
    }
    /// the i-th of every n - 1 numbers drawn is n - i, but for the free one
    pub fn draws_mirror(k: usize, n: usize, max: u64, free: usize) {
        draws_given(k, max, free);
        unsafe { MIRROR = n as u64 }
    }
    fn draw() -> u64 {
        unsafe {
            crate::sx::assume(LEFT > 0);
            LEFT -= 1;
            let x = symx_sym(64);
            if FREE != usize::MAX {
                DRAWN += 1;
                if DRAWN - 1 != FREE {
                    let i = DRAWN as u64;
                    let c = if MIRROR > 0 { MIRROR - 1 - (i - 1) % (MIRROR - 1) } else if i % 7 == 3 { (1 << 40) + i } else { (i * i * 37 + i * 11) % 61 };
                    crate::sx::assume(x == c);
                    return c;
                }
            }
            crate::sx::assume(x <= MAX);
            x
        }
    }
    pub fn start() {
        unsafe { rand::SOURCE = Some(draw) }
    }
    pub fn mkdir(p: &str) {
        let p = crate::sx::path(p);
        unsafe { symx_fs_mkdir(p.as_ptr(), p.len()) }
    }
    pub fn run(b: Bin, args: Args) -> Out {
        run_with(b, args, b"", 0, 0)
    }
    pub fn run_with(b: Bin, args: Args, stdin: &[u8], faults: u64, crashes: u64) -> Out {
        let p = proc(b, args);
        unsafe {
            symx_stdin(stdin.as_ptr(), stdin.len());
            symx_faults(faults);
            symx_crashes(crashes);
            let code = symx_run(entry, &p as *const P as *const u8) as i32;
            symx_faults(0);
            symx_crashes(0);
            let mut out = vec![0u8; 4096];
            let k = symx_stdout(out.as_mut_ptr(), out.len());
            out.truncate(k as usize);
            crate::sx::note(1, code as u64);
            Out { code, out }
        }
    }
    pub fn run_par(a: (Bin, Args), b: (Bin, Args), switches: u64) -> [Out; 2] {
        let (p, q) = (proc(a.0, a.1), proc(b.0, b.1));
        let mut codes = [0u64; 2];
        unsafe {
            symx_stdin(b"".as_ptr(), 0);
            symx_par(entry, &p as *const P as *const u8, &q as *const P as *const u8, switches, codes.as_mut_ptr());
            let f = |i: usize| {
                let mut out = vec![0u8; 4096];
                let k = symx_par_out(i as u64, out.as_mut_ptr(), out.len());
                out.truncate(k as usize);
                crate::sx::note(1, codes[i]);
                Out { code: codes[i] as i32, out }
            };
            [f(0), f(1)]
        }
    }
}
#[cfg(not(feature = "symbolic"))]
mod imp {
    use super::*;
    use crate::sx::R;
    use std::io::{Read, Write};
    use std::os::unix::ffi::OsStrExt;
    use std::os::unix::net::{UnixListener, UnixStream};
    use std::os::unix::process::ExitStatusExt;
    use std::process::*;
    pub fn start() {
        let d = crate::sx::path("");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch directory");
    }
    pub fn draws(_k: usize, _max: u64) {}
    pub fn draws_given(_k: usize, _max: u64, _free: usize) {}
    pub fn draws_mirror(_k: usize, _n: usize, _max: u64, _free: usize) {}
    pub fn mkdir(p: &str) {
        std::fs::create_dir_all(crate::sx::path(p)).expect("scratch directory");
    }
    fn command(b: Bin, args: Args) -> Command {
        let dir = std::env::var("GC_BINS").expect("GC_BINS");
        let mut c = Command::new(format!("{}/{}", dir, name(b)));
        c.args(args.iter().map(|a| std::ffi::OsStr::from_bytes(a))).current_dir(crate::sx::path("")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).env_remove("GC_BINS");
        if b == Random {
            // the numbers drawn are the inputs that follow
            let v: Vec<String> = R.with(|r| {
                let r = r.borrow();
                r.inputs[r.i.min(r.inputs.len())..].iter().map(|x| x.to_string()).collect()
            });
            c.env("SYMX_RAND", v.join(" "));
        }
        c
    }
    fn wait(mut k: Child, stdin: &[u8]) -> Out {
        let _ = k.stdin.take().unwrap().write_all(stdin);
        let o = k.wait_with_output().expect("running a command");
        let code = o.status.code().unwrap_or_else(|| 128 + o.status.signal().unwrap_or(0));
        crate::sx::note(1, code as u64);
        Out { code, out: o.stdout }
    }
    pub fn run(b: Bin, args: Args) -> Out {
        wait(command(b, args).spawn().expect("running a command"), b"")
    }
    pub fn run_with(b: Bin, args: Args, stdin: &[u8], faults: u64, crashes: u64) -> Out {
        let mut c = command(b, args);
        if faults + crashes > 0 {
            c.env("LD_PRELOAD", std::env::var("GC_SHIM").expect("GC_SHIM"));
            c.env("GC_SHIM_IO", R.with(|r| r.borrow().io.clone()));
        }
        let o = wait(c.spawn().expect("running a command"), stdin);
        if b == Random {
            R.with(|r| {
                let mut r = r.borrow_mut();
                r.i = r.inputs.len();
            });
        }
        o
    }
    pub fn run_par(a: (Bin, Args), b: (Bin, Args), _switches: u64) -> [Out; 2] {
        let sp = format!("{}.sock", crate::sx::path("").trim_end_matches('/'));
        let _ = std::fs::remove_file(&sp);
        let l = UnixListener::bind(&sp).expect("socket");
        let mut kids = vec![];
        let mut conn: [Option<UnixStream>; 2] = [None, None];
        for (i, (bin, args)) in [a, b].into_iter().enumerate() {
            let mut c = command(bin, args);
            c.env("LD_PRELOAD", std::env::var("GC_SHIM").expect("GC_SHIM")).env("GC_SHIM_SOCK", &sp).env("GC_SHIM_ID", i.to_string());
            kids.push(c.spawn().expect("running a command"));
            let (mut s, _) = l.accept().expect("connection");
            let mut id = [0u8];
            s.read_exact(&mut id).expect("id");
            conn[(id[0] - b'0') as usize] = Some(s);
        }
        // state of a process: waiting at a call, or ended
        let arrive = |c: &mut Option<UnixStream>| {
            let mut x = [0u8];
            if let Some(s) = c {
                if s.read_exact(&mut x).is_err() {
                    *c = None;
                }
            }
        };
        arrive(&mut conn[0]);
        arrive(&mut conn[1]);
        let sched = R.with(|r| r.borrow().sched.clone());
        let mut step = |i: usize| {
            if let Some(s) = &mut conn[i] {
                let _ = s.write_all(b"g");
                arrive(&mut conn[i]);
                true
            } else {
                false
            }
        };
        for i in sched {
            step(i as usize);
        }
        while step(0) {}
        while step(1) {}
        let mut o = kids.into_iter().map(|k| wait(k, b""));
        let _ = std::fs::remove_file(&sp);
        [o.next().unwrap(), o.next().unwrap()]
    }
}
pub use imp::*;
