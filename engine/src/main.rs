//! symx: symbolic execution of LLVM IR with Z3.
mod exec;
mod expr;
mod ext;
mod fs;
mod ir;
mod lia;
mod mem;
mod solver;

use exec::*;
use ir::*;
use std::collections::BTreeSet;
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32;
    fn _exit(c: i32) -> !;
    fn kill(p: i32, s: i32) -> i32;
    fn setpgid(p: i32, g: i32) -> i32;
}

#[repr(C)]
struct Shared {
    live: AtomicI64,
    stop: AtomicI64,
    paths: AtomicU64,
    assumed: AtomicU64,
    insts: AtomicU64,
    forks: AtomicU64,
    branches: AtomicU64,
    queries: AtomicU64,
    sat: AtomicU64,
    unsat: AtomicU64,
    unknown: AtomicU64,
    cached: AtomicU64,
    eqfast: AtomicU64,
    solver_ns: AtomicU64,
    cover: AtomicU64,
    viols: AtomicU64,
    engv: AtomicU64,
    asserts: AtomicU64,
    assert_sym: AtomicU64,
    maxdepth: AtomicU64,
    incomplete: AtomicU64,
    procs: AtomicU64,
    finished_ok: AtomicU64,
    lia: AtomicU64,
    maxinsts: AtomicU64,
}

struct Opts {
    ll: String,
    entry: String,
    out: String,
    jobs: i64,
    max_insts: u64,
    deadline: f64,
    max_viol: u64,
    dump: Option<String>,
    prof: bool,
    repo: String,
}

fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r
}
fn scheds(v: &[u8]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn ios(v: &[(u32, u32)]) -> String {
    v.iter().map(|(i, o)| format!("[{},{}]", i, o)).collect::<Vec<_>>().join(",")
}
fn nums(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn init_state(e: &mut Eng) -> State {
    let mut m = mem::Mem::new(e.m.global_end);
    for g in 0..e.m.globals.len() {
        let (addr, init) = (e.m.globals[g].addr, e.m.globals[g].init);
        if let Some((a, b)) = init {
            let mut lx = Lex::new(e.m.text, a, b);
            let ty = e.m.ty(&mut lx);
            let mut v = vec![];
            e.m.constant(&mut lx, &ty, &mut v);
            let mut fl = vec![];
            ty.flat(0, &mut fl);
            for (x, (o, t)) in v.iter().zip(fl) {
                let w = t.w();
                let val = if w > 64 { Val::S(e.ar.cst(w, *x)) } else { Val::I(*x as u64) };
                m.write(&mut e.ar, addr + o, w, val).unwrap();
            }
        }
    }
    e.errno = m.malloc(16, 16);
    State {
        frames: vec![],
        regs: vec![],
        mem: m,
        sp: mem::STACK_BASE + 64,
        pcs: vec![],
        known: Default::default(),
        subst: Default::default(),
        model: Rc::new(vec![]),
        inputs: vec![],
        notes: vec![],
        out: Rc::new(vec![]),
        fs: Rc::new(fs::Fs::new()),
        insts: 0,
        exc: 0,
        panic_loc: "".into(),
        cover: 0,
        faults: 0,
        spare: false,
        crashes: 0,
        depth: 0,
        limit: e.max_insts,
        fresh: 0,
        io_n: 0,
        io_log: vec![],
        par: None,
        par_outs: [Rc::new(vec![]), Rc::new(vec![])],
        sched: vec![],
    }
}

struct Proc {
    buf: String,
    npaths: u64,
    seen: BTreeSet<String>,
}

fn worker(e: &mut Eng, sh: &Shared, o: &Opts, t0: std::time::Instant) -> Proc {
    let mut p = Proc { buf: String::new(), npaths: 0, seen: BTreeSet::new() };
    let mut tick = 0u64;
    while let Some(mut st) = e.work.pop() {
        let v0 = e.viols.len();
        let end = e.run(&mut st);
        p.npaths += 1;
        tick += 1;
        let mut finished = false;
        match end {
            End::Done => finished = true,
            End::Assumed => {
                sh.assumed.fetch_add(1, SeqCst);
            }
            End::ViolationOnly => {}
            End::Panic(loc) => e.violation(&st, "panic", format!("panic at {}", loc)),
            End::Abort(m) => e.violation(&st, "abort", m),
            End::Budget => {
                let bt = e.backtrace(&st);
                e.violation(&st, "hang", format!("no result within {} instructions{}", st.insts, bt))
            }
            End::Exit(c) => e.violation(&st, "exit", format!("process exit {}", c)),
            End::Engine(m) => e.violation(&st, "engine", m),
            End::Unknown => {
                sh.unknown.fetch_add(1, SeqCst);
                sh.incomplete.fetch_or(2, SeqCst);
            }
        }
        sh.maxdepth.fetch_max(st.depth as u64, SeqCst);
        sh.maxinsts.fetch_max(st.insts, SeqCst);
        sh.cover.fetch_or(st.cover, SeqCst);
        if finished {
            sh.paths.fetch_add(1, SeqCst);
            // sample: the first few paths, then at growing intervals
            if p.npaths <= 2 || p.npaths.is_power_of_two() || p.npaths % 509 == 0 {
                let ins = e.input_values(&st);
                let mut nv = vec![];
                for (k, v) in st.notes.clone() {
                    let x = match v {
                        Val::I(x) => x,
                        Val::S(x) => e.model_eval(&st, x) as u64,
                    };
                    nv.push(format!("[{},{}]", k, x));
                }
                p.buf.push_str(&format!("{{\"t\":\"sample\",\"inputs\":[{}],\"notes\":[{}],\"io\":[{}],\"sched\":[{}],\"depth\":{}}}\n", nums(&ins), nv.join(","), ios(&st.io_log), scheds(&st.sched), st.depth));
            }
        }
        for v in e.viols.drain(v0..) {
            let key = format!("{}|{}", v.kind, v.msg.lines().next().unwrap_or(""));
            let eng = v.kind == "engine";
            let n = if eng { &sh.engv } else { &sh.viols }.fetch_add(1, SeqCst);
            if p.seen.len() < 400 && (p.seen.insert(key) || n < 40) {
                part(o, &format!("{{\"t\":\"viol\",\"kind\":\"{}\",\"msg\":\"{}\",\"loc\":\"{}\",\"inputs\":[{}],\"io\":[{}],\"sched\":[{}]}}\n", esc(&v.kind), esc(&v.msg), esc(&v.loc), nums(&v.inputs), ios(&v.io), scheds(&v.sched)));
            }
            if n + 1 >= if eng { 100 * o.max_viol } else { o.max_viol } {
                sh.stop.store(1, SeqCst);
            }
        }
        drop(st);
        let stop = sh.stop.load(SeqCst);
        if stop != 0 {
            sh.incomplete.fetch_or(if stop == 2 { 1 } else { 4 }, SeqCst);
            break;
        }
        if t0.elapsed().as_secs_f64() > o.deadline {
            sh.incomplete.fetch_or(1, SeqCst);
            sh.stop.store(2, SeqCst);
            break;
        }
        let _ = tick;
        if e.work.len() >= 2 && sh.live.load(SeqCst) < o.jobs {
            if sh.live.fetch_add(1, SeqCst) < o.jobs {
                let half = (e.work.len() + 1) / 2;
                let pid = unsafe { fork() };
                if pid == 0 {
                    e.work.truncate(half);
                    reset_stats(e);
                    p.buf.clear();
                    p.seen.clear();
                    p.npaths = 0;
                    sh.procs.fetch_add(1, SeqCst);
                } else if pid > 0 {
                    e.work.drain(..half);
                } else {
                    sh.live.fetch_sub(1, SeqCst);
                }
            } else {
                sh.live.fetch_sub(1, SeqCst);
            }
        }
    }
    p
}


fn reset_stats(e: &mut Eng) {
    e.total_insts = 0;
    e.forks = 0;
    e.branches = 0;
    e.asserts = 0;
    e.assert_sym = 0;
    e.sol.st = Default::default();
    e.prof.clear();
}

fn part(o: &Opts, t: &str) {
    let path = format!("{}.parts/{}", o.out, std::process::id());
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(path).expect("part");
    f.write_all(t.as_bytes()).unwrap();
}

fn flush(e: &Eng, sh: &Shared, o: &Opts, p: &mut Proc) {
    sh.insts.fetch_add(e.total_insts, SeqCst);
    sh.forks.fetch_add(e.forks, SeqCst);
    sh.branches.fetch_add(e.branches, SeqCst);
    sh.queries.fetch_add(e.sol.st.queries, SeqCst);
    sh.sat.fetch_add(e.sol.st.sat, SeqCst);
    sh.unsat.fetch_add(e.sol.st.unsat, SeqCst);
    sh.cached.fetch_add(e.sol.st.cache, SeqCst);
    sh.eqfast.fetch_add(e.sol.st.eqfast, SeqCst);
    sh.lia.fetch_add(e.sol.st.lia, SeqCst);
    sh.solver_ns.fetch_add(e.sol.st.ns, SeqCst);
    sh.asserts.fetch_add(e.asserts, SeqCst);
    sh.assert_sym.fetch_add(e.assert_sym, SeqCst);
    // functions reached, by debug location, restricted to the repository
    let mut fns: BTreeSet<String> = BTreeSet::new();
    for id in &e.used {
        let d = &e.m.funcs[*id as usize];
        if let Some((n, f, l)) = e.m.subprograms.get(&d.dbg) {
            if f.starts_with(&o.repo) {
                fns.insert(format!("{}:{} {}", f, l, n));
            }
        }
    }
    for f in fns {
        p.buf.push_str(&format!("{{\"t\":\"fn\",\"name\":\"{}\"}}\n", esc(&f)));
    }
    if e.profiling {
        let mut v: Vec<_> = e.prof.iter().collect();
        v.sort_by_key(|(_, n)| std::cmp::Reverse(**n));
        for ((f, pc), n) in v.into_iter().take(12) {
            p.buf.push_str(&format!("{{\"t\":\"prof\",\"f\":\"{} @{}\",\"n\":{}}}\n", esc(&e.m.funcs[*f as usize].name), pc, n));
        }
    }
    part(o, &p.buf);
    sh.finished_ok.fetch_add(1, SeqCst);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let o = Opts {
        ll: a[1].clone(),
        entry: get("--entry").expect("--entry"),
        out: get("--out").expect("--out"),
        jobs: get("--jobs").map_or(8, |x| x.parse().unwrap()),
        max_insts: get("--max-insts").map_or(200_000_000, |x| x.parse().unwrap()),
        deadline: get("--deadline").map_or(600.0, |x| x.parse().unwrap()),
        max_viol: get("--max-viol").map_or(64, |x| x.parse().unwrap()),
        dump: get("--dump"),
        prof: a.iter().any(|x| x == "--prof"),
        repo: get("--repo").unwrap_or("/repo/".into()),
    };
    let t0 = std::time::Instant::now();
    let m = Module::load(&o.ll);
    let nf = m.funcs.len();
    let extv: Vec<Option<ExtFn>> = m.funcs.iter().map(|f| ext::lookup(&f.name)).collect();
    let mut e = Eng {
        m,
        ar: expr::Arena::new(),
        sol: solver::Solver::new(),
        funcs: vec![None; nf],
        ext: extv,
        work: vec![],
        total_insts: 0,
        forks: 0,
        branches: 0,
        viols: vec![],
        unknowns: 0,
        max_insts: o.max_insts,
        errno: 0,
        used: Default::default(),
        trace: false,
        asserts: 0,
        assert_sym: 0,
        path_assumed: 0,
        memo: Default::default(),
        prof: Default::default(),
        profiling: o.prof,
        max_iteval: 256,
        disp: vec![],
        disp_byval: vec![],
        pad_integral: None,
    };
    e.find_display();
    e.sol.dump = o.dump.clone();
    let mut st = init_state(&mut e);
    let id = match e.m.fmap.get(o.entry.as_str()) {
        Some(i) => *i,
        None => {
            eprintln!("no entry {}", o.entry);
            std::process::exit(3);
        }
    };
    e.push_call(&mut st, id, &[], 0, 0, None, None).ok();
    e.work.push(st);
    let _ = std::fs::remove_dir_all(format!("{}.parts", o.out));
    std::fs::create_dir_all(format!("{}.parts", o.out)).expect("parts dir");
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &*(p as *const Shared)
    };
    sh.live.store(1, SeqCst);
    sh.procs.store(1, SeqCst);
    unsafe {
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
    }
    let load_s = t0.elapsed().as_secs_f64();
    e.sol.until = Some(t0 + std::time::Duration::from_secs_f64(o.deadline));
    // the root only supervises; the first worker forks the others
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe { setpgid(0, 0) };
        let mut p = worker(&mut e, sh, &o, t0);
        flush(&e, sh, &o, &mut p);
        sh.live.fetch_sub(1, SeqCst);
        unsafe { _exit(0) }
    }
    unsafe { setpgid(pid, pid) };
    let mut bad = 0;
    loop {
        let mut s = 0;
        let r = unsafe { waitpid(-1, &mut s, 1) };
        if r < 0 {
            break;
        }
        if r == 0 {
            if t0.elapsed().as_secs_f64() > o.deadline + 4.0 {
                sh.incomplete.fetch_or(8, SeqCst);
                unsafe { kill(-pid, 9) };
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
            continue;
        }
        if s != 0 {
            bad += 1;
            // a dead worker holds a token
            sh.live.fetch_sub(1, SeqCst);
        }
    }
    let mut lines: Vec<String> = vec![];
    for f in std::fs::read_dir(format!("{}.parts", o.out)).unwrap() {
        let t = std::fs::read_to_string(f.unwrap().path()).unwrap();
        lines.extend(t.lines().map(|x| x.to_string()));
    }
    let _ = std::fs::remove_dir_all(format!("{}.parts", o.out));
    lines.sort();
    lines.dedup();
    let pick = |k: &str| lines.iter().filter(|l| l.starts_with(&format!("{{\"t\":\"{}\"", k))).cloned().collect::<Vec<_>>().join(",\n");
    let l = |x: &AtomicU64| x.load(SeqCst);
    let complete = l(&sh.incomplete) == 0 && bad == 0 && l(&sh.finished_ok) == l(&sh.procs);
    let out = format!(
        "{{\"entry\":\"{}\",\"complete\":{},\"incomplete_bits\":{},\"dead_workers\":{},\"paths\":{},\"assumed\":{},\"insts\":{},\"forks\":{},\"sym_branches\":{},\"z3_queries\":{},\"z3_sat\":{},\"z3_unsat\":{},\"unknown\":{},\"cache_hits\":{},\"eq_queries\":{},\"int_queries\":{},\"solver_s\":{:.3},\"asserts\":{},\"asserts_symbolic\":{},\"cover\":{},\"violation_count\":{},\"max_depth\":{},\"max_path_insts\":{},\"procs\":{},\"load_s\":{:.3},\"wall_s\":{:.3},\n\"violations\":[{}],\n\"samples\":[{}],\n\"functions\":[{}],\n\"prof\":[{}]}}\n",
        esc(&o.entry), complete, l(&sh.incomplete), bad, l(&sh.paths), l(&sh.assumed), l(&sh.insts), l(&sh.forks), l(&sh.branches), l(&sh.queries), l(&sh.sat), l(&sh.unsat), l(&sh.unknown), l(&sh.cached), l(&sh.eqfast), l(&sh.lia), l(&sh.solver_ns) as f64 / 1e9, l(&sh.asserts), l(&sh.assert_sym), l(&sh.cover), l(&sh.viols) + l(&sh.engv), l(&sh.maxdepth), l(&sh.maxinsts), l(&sh.procs), load_s, t0.elapsed().as_secs_f64(), pick("viol"), pick("sample"), pick("fn"), pick("prof")
    );
    std::fs::write(&o.out, out).expect("write out");
    if !complete {
        std::process::exit(4);
    }
}
