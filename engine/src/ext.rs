//! Environment model: libc, unwinder, symx_* intrinsics.
use crate::exec::*;
use crate::expr::*;
use crate::fs::*;
use crate::ir::*;
use std::rc::Rc;

macro_rules! tr {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(e) => return X::End(e),
        }
    };
}
macro_rules! mem {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(b) => return X::End(End::Engine(format!("bad address {:#x} in environment call", b.0))),
        }
    };
}

fn cst(e: &mut Eng, st: &mut State, v: Val) -> Result<u64, End> {
    e.conc(st, v, 64)
}
fn c32(e: &mut Eng, st: &mut State, v: Val) -> Result<i32, End> {
    Ok(e.conc(st, v, 32)? as u32 as i32)
}
fn cstr(e: &mut Eng, st: &mut State, a: u64) -> Result<String, End> {
    let mut v = vec![];
    let mut p = a;
    loop {
        let b = st.mem.byte(p).map_err(|b| End::Engine(format!("bad cstr {:#x}", b.0)))?;
        let c = if b.1 == 0 {
            b.0
        } else {
            let x = crate::mem::byte_expr(&mut e.ar, b);
            e.conc(st, Val::S(x), 8)? as u8
        };
        if c == 0 {
            break;
        }
        v.push(c);
        p += 1;
    }
    Ok(String::from_utf8_lossy(&v).to_string())
}
fn bytes(e: &mut Eng, st: &mut State, a: u64, n: u64) -> Result<String, End> {
    let mut v = vec![];
    for k in 0..n {
        let b = st.mem.byte(a + k).map_err(|b| End::Engine(format!("bad str {:#x}", b.0)))?;
        let c = if b.1 == 0 {
            b.0
        } else {
            let x = crate::mem::byte_expr(&mut e.ar, b);
            e.conc(st, Val::S(x), 8)? as u8
        };
        v.push(c);
    }
    Ok(String::from_utf8_lossy(&v).to_string())
}
fn set_errno(e: &mut Eng, st: &mut State, v: i32) {
    let a = e.errno;
    let _ = st.mem.write(&mut e.ar, a, 32, Val::I(v as u32 as u64));
}
fn ret32(e: &mut Eng, st: &mut State, r: Result<i32, i32>) -> X {
    match r {
        Ok(v) => X::Ret(Val::I(v as u32 as u64)),
        Err(n) => {
            set_errno(e, st, n);
            X::Ret(Val::I(0xffff_ffff))
        }
    }
}
fn ret64(e: &mut Eng, st: &mut State, r: Result<i64, i32>) -> X {
    match r {
        Ok(v) => X::Ret(Val::I(v as u64)),
        Err(n) => {
            set_errno(e, st, n);
            X::Ret(Val::I(u64::MAX))
        }
    }
}
fn zero(_: &mut Eng, _: &mut State, _: &[Val], _: u8) -> X {
    X::Ret(Val::I(0))
}
fn fresh(e: &mut Eng, st: &mut State, w: u8) -> E {
    let v = e.ar.input_var(st.inputs.len() as u32, w);
    st.inputs.push(Input { env: 0, w, e: Val::S(v) });
    v
}

// ------------------------------------------------------------- symx intrinsics

fn x_sym(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    // symx_sym(width) -> u64
    let w = tr!(c32(e, st, a[0])) as u8;
    let v = fresh(e, st, w);
    let z = e.ar.zext(v, 64);
    X::Ret(Val::S(z))
}
fn x_choose(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    choose(e, st, a, 0)
}
/// like symx_choose, but a decision of the environment (hash iteration order), not replayed
fn x_choose_env(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    choose(e, st, a, 1)
}
fn choose(e: &mut Eng, st: &mut State, a: &[Val], env: u8) -> X {
    // concrete choice 0..n, forks
    let n = tr!(cst(e, st, a[0]));
    if n <= 1 {
        st.inputs.push(Input { env, w: 32, e: Val::I(0) });
        return X::Ret(Val::I(0));
    }
    let v = e.ar.input_var(st.inputs.len() as u32, 32);
    let k = e.ar.cst(32, n as u128);
    let c = e.ar.bin(Op::Ult, v, k);
    tr!(e.assume(st, c));
    // `conc` makes the sibling re-execute this call, so register the input only afterwards
    let r = tr!(e.conc(st, Val::S(v), 32));
    st.inputs.push(Input { env, w: 32, e: Val::I(r) });
    X::Ret(Val::I(r))
}
fn x_assume(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    match a[0] {
        Val::I(0) => X::End(End::Assumed),
        Val::I(_) => X::Void,
        Val::S(c) => {
            tr!(e.assume(st, c));
            X::Void
        }
    }
}
fn x_assert(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[1]));
    let n = tr!(cst(e, st, a[2]));
    let msg = tr!(bytes(e, st, p, n));
    let c = e.to_e(a[0], 1);
    tr!(e.assert(st, c, msg));
    X::Void
}
fn x_cover(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let k = tr!(cst(e, st, a[0]));
    st.cover |= 1 << (k & 63);
    X::Void
}
fn x_note(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let k = tr!(cst(e, st, a[0]));
    st.notes.push((k, a[1]));
    X::Void
}
fn x_conc(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let v = tr!(cst(e, st, a[0]));
    X::Ret(Val::I(v))
}
fn x_is_sym(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    if let Val::S(x) = a[0] {
        let x = e.simp(st, x);
        return X::Ret(Val::I(e.ar.as_const(x).is_none() as u64));
    }
    X::Ret(Val::I(0))
}
fn x_ite(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    // branch-free choice: (cond, a, b)
    let _ = st;
    match a[0] {
        Val::I(c) => X::Ret(if c != 0 { a[1] } else { a[2] }),
        Val::S(c) => {
            let x = e.to_e(a[1], 64);
            let y = e.to_e(a[2], 64);
            let r = e.ar.ite(c, x, y);
            X::Ret(e.norm(r))
        }
    }
}
fn x_active(_: &mut Eng, _: &mut State, _: &[Val], _: u8) -> X {
    X::Ret(Val::I(1))
}
fn x_run(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    // symx_run(fn, data) -> exit code ; memory is isolated like a process
    let f = tr!(cst(e, st, a[0]));
    let id = ((f - FUNC_BASE) / 16 - 1) as u32;
    let fds = st.fs.fds.len();
    let mk = Marker { mem: st.mem.clone(), sp: st.sp, fds, par: false };
    // destination register of this call
    let (d, _) = cur_call(st);
    tr!(e.push_call(st, id, &a[1..2], d, 1, None, Some(Rc::new(mk))));
    X::Jump
}
/// symx_par(fn, data0, data1, switches, codes): two processes, interleaved at system calls
fn x_par(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let f = tr!(cst(e, st, a[0]));
    let id = ((f - FUNC_BASE) / 16 - 1) as u32;
    let sw = tr!(cst(e, st, a[3])) as u32;
    let res = tr!(cst(e, st, a[4]));
    let fds = st.fs.fds.clone();
    let parent = Ctx { frames: vec![], regs: vec![], mem: st.mem.clone(), sp: st.sp, exc: st.exc, fds, out: st.out.clone(), granted: false };
    let (nf, nr) = (st.frames.len(), st.regs.len());
    let mk = Rc::new(Marker { mem: st.mem.clone(), sp: st.sp, fds: 0, par: true });
    let none = Rc::new(vec![]);
    st.out = none.clone();
    tr!(e.push_call(st, id, &a[2..3], 0, 0, None, Some(mk.clone())));
    let other = e.suspend(st, nf, nr, false);
    st.out = none.clone();
    tr!(e.push_call(st, id, &a[1..2], 0, 0, None, Some(mk)));
    st.par = Some(Rc::new(Par { parent, cur: 0, other: Some(other), granted: false, switches: sw, codes: [0; 2], outs: [none.clone(), none], res }));
    X::Jump
}
fn x_par_out(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    // (which, buf, cap) -> len
    let i = tr!(cst(e, st, a[0])) as usize;
    let p = tr!(cst(e, st, a[1]));
    let n = tr!(cst(e, st, a[2])) as usize;
    let o = st.par_outs[i].clone();
    for (k, b) in o.iter().enumerate().take(n) {
        mem!(st.mem.set_byte(p + k as u64, *b));
    }
    X::Ret(Val::I(o.len() as u64))
}
fn x_stdin(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let (b, c) = (tr!(cst(e, st, a[0])), tr!(cst(e, st, a[1])));
    let mut d = vec![];
    for k in 0..c {
        d.push(mem!(st.mem.byte(b + k)));
    }
    let fs = Rc::make_mut(&mut st.fs);
    let ino = fs.inodes.len();
    fs.inodes.push(Some(Rc::new(d)));
    fs.fds[0] = Some(crate::fs::Fd { ino, pos: 0, read: true, write: false, append: false, dir: None });
    X::Void
}
fn cur_call(st: &State) -> (u32, u32) {
    let fr = st.frames.last().unwrap();
    match &fr.f.code[fr.pc as usize] {
        I::Call { d, nret, .. } => (*d, *nret),
        _ => panic!("cur_call"),
    }
}
fn x_panic_loc(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[0]));
    let n = tr!(cst(e, st, a[1]));
    let l = tr!(cst(e, st, a[2]));
    let s = tr!(bytes(e, st, p, n));
    st.panic_loc = format!("{}:{}", s, l).into();
    X::Void
}
fn x_set_args(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    // (ptr to [ptr,len] pairs, n)
    let p = tr!(cst(e, st, a[0]));
    let n = tr!(cst(e, st, a[1]));
    let argv = st.mem.malloc((n + 2) * 8, 8);
    for k in 0..n {
        let q = mem!(st.mem.read(&mut e.ar, p + 16 * k, 64));
        let l = mem!(st.mem.read(&mut e.ar, p + 16 * k + 8, 64));
        let (q, l) = (tr!(cst(e, st, q)), tr!(cst(e, st, l)));
        let s = st.mem.malloc(l + 1, 8);
        mem!(st.mem.copy(s, q, l));
        mem!(st.mem.write(&mut e.ar, s + l, 8, Val::I(0)));
        mem!(st.mem.write(&mut e.ar, argv + 8 * k, 64, Val::I(s)));
    }
    mem!(st.mem.write(&mut e.ar, argv + 8 * n, 64, Val::I(0)));
    mem!(st.mem.write(&mut e.ar, argv + 8 * n + 8, 64, Val::I(0)));
    // run the .init_array initialiser of std (stores argc/argv)
    let g = e.m.globals.iter().find(|g| g.section_init_array).map(|g| g.addr);
    if let Some(g) = g {
        let f = mem!(st.mem.read(&mut e.ar, g, 64));
        let f = tr!(cst(e, st, f));
        let id = ((f - FUNC_BASE) / 16 - 1) as u32;
        tr!(e.push_call(st, id, &[Val::I(n), Val::I(argv), Val::I(argv + 8 * n + 8)], 0, 0, None, None));
        return X::Jump;
    }
    X::Void
}
fn x_stdout(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    // (buf, cap) -> len ; then clears
    let p = tr!(cst(e, st, a[0]));
    let n = tr!(cst(e, st, a[1])) as usize;
    let o = st.out.clone();
    for (k, b) in o.iter().enumerate().take(n) {
        mem!(st.mem.set_byte(p + k as u64, *b));
    }
    st.out = Rc::new(vec![]);
    X::Ret(Val::I(o.len() as u64))
}
fn x_fs_read(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    // (path,len,buf,cap) -> len or -1
    let (p, n) = (tr!(cst(e, st, a[0])), tr!(cst(e, st, a[1])));
    let path = tr!(bytes(e, st, p, n));
    let (b, c) = (tr!(cst(e, st, a[2])), tr!(cst(e, st, a[3])));
    match st.fs.lookup(&path) {
        Ok(i) => match st.fs.inodes[i].clone() {
            Some(d) => {
                for (k, x) in d.iter().enumerate().take(c as usize) {
                    mem!(st.mem.set_byte(b + k as u64, *x));
                }
                X::Ret(Val::I(d.len() as u64))
            }
            None => X::Ret(Val::I(-2i64 as u64)),
        },
        Err(_) => X::Ret(Val::I(u64::MAX)),
    }
}
fn x_fs_write(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let (p, n) = (tr!(cst(e, st, a[0])), tr!(cst(e, st, a[1])));
    let path = tr!(bytes(e, st, p, n));
    let (b, c) = (tr!(cst(e, st, a[2])), tr!(cst(e, st, a[3])));
    let mut d = vec![];
    for k in 0..c {
        d.push(mem!(st.mem.byte(b + k)));
    }
    Rc::make_mut(&mut st.fs).put(&path, d);
    X::Void
}
fn x_fs_mkdir(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let (p, n) = (tr!(cst(e, st, a[0])), tr!(cst(e, st, a[1])));
    let path = tr!(bytes(e, st, p, n));
    let _ = Rc::make_mut(&mut st.fs).mkdir(&path);
    X::Void
}
fn x_faults(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let n = tr!(cst(e, st, a[0]));
    st.faults = (n & 0xffff) as u32;
    st.spare = n >> 16 == 1;
    st.io_n = 0;
    X::Void
}
fn x_crashes(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    st.crashes = tr!(cst(e, st, a[0])) as u32;
    st.io_n = 0;
    X::Void
}
fn x_faults_left(_: &mut Eng, st: &mut State, _: &[Val], _: u8) -> X {
    X::Ret(Val::I(st.faults as u64))
}
fn x_log(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let (p, n) = (tr!(cst(e, st, a[0])), tr!(cst(e, st, a[1])));
    let s = tr!(bytes(e, st, p, n));
    eprintln!("[log] {}", s);
    X::Void
}
fn x_limit(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let k = tr!(cst(e, st, a[0]));
    st.limit = st.insts + k;
    X::Void
}

// ------------------------------------------------------------- memory

fn malloc(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let n = tr!(cst(e, st, a[0]));
    if n > 1 << 30 {
        return X::Ret(Val::I(0));
    }
    X::Ret(Val::I(st.mem.malloc(n, 16)))
}
fn calloc(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let n = tr!(cst(e, st, a[0])).wrapping_mul(tr!(cst(e, st, a[1])));
    if n > 1 << 30 {
        return X::Ret(Val::I(0));
    }
    let p = st.mem.malloc(n, 16);
    for k in 0..n {
        mem!(st.mem.set_byte(p + k, (0, 0, 0)));
    }
    X::Ret(Val::I(p))
}
fn posix_memalign(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let al = tr!(cst(e, st, a[1]));
    let n = tr!(cst(e, st, a[2]));
    let p = st.mem.malloc(n, al);
    let o = tr!(cst(e, st, a[0]));
    mem!(st.mem.write(&mut e.ar, o, 64, Val::I(p)));
    X::Ret(Val::I(0))
}
fn realloc(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[0]));
    let n = tr!(cst(e, st, a[1]));
    if n > 1 << 30 {
        return X::Ret(Val::I(0));
    }
    if p == 0 {
        return X::Ret(Val::I(st.mem.malloc(n, 16)));
    }
    let old = st.mem.block_size(p);
    if n <= st.mem.block_cap(p) {
        st.mem.set_block_size(p, n);
        return X::Ret(Val::I(p));
    }
    let q = st.mem.malloc(n, 16);
    mem!(st.mem.copy(q, p, old.min(n)));
    st.mem.free(p);
    X::Ret(Val::I(q))
}
fn free(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[0]));
    st.mem.free(p);
    X::Void
}
fn bcmp(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let n = tr!(cst(e, st, a[2]));
    if n == 0 {
        return X::Ret(Val::I(0));
    }
    let (p, q) = (tr!(cst(e, st, a[0])), tr!(cst(e, st, a[1])));
    let mut c = e.ar.t;
    for k in 0..n {
        let x = mem!(st.mem.byte(p + k));
        let y = mem!(st.mem.byte(q + k));
        if x.1 == 0 && y.1 == 0 {
            if x.0 != y.0 {
                return X::Ret(Val::I(1));
            }
        } else {
            let ex = crate::mem::byte_expr(&mut e.ar, x);
            let ey = crate::mem::byte_expr(&mut e.ar, y);
            let q = e.ar.eq(ex, ey);
            c = e.ar.bin(Op::And, c, q);
        }
    }
    let nc = e.ar.not(c);
    let z = e.ar.zext(nc, 32);
    X::Ret(e.norm(z))
}
fn memcmp(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let n = tr!(cst(e, st, a[2]));
    if n == 0 {
        return X::Ret(Val::I(0));
    }
    let (p, q) = (tr!(cst(e, st, a[0])), tr!(cst(e, st, a[1])));
    let mut items = vec![];
    for k in 0..n {
        let x = mem!(st.mem.byte(p + k));
        let y = mem!(st.mem.byte(q + k));
        if x.1 == 0 && y.1 == 0 {
            if x.0 != y.0 {
                items.push((0, 0, Some(if x.0 < y.0 { u32::MAX } else { 1 })));
                break;
            }
        } else {
            let ex = crate::mem::byte_expr(&mut e.ar, x);
            let ey = crate::mem::byte_expr(&mut e.ar, y);
            items.push((ex, ey, None));
        }
    }
    let mut r = e.ar.cst(32, 0);
    for (x, y, k) in items.into_iter().rev() {
        match k {
            Some(v) => r = e.ar.cst(32, v as u128),
            None => {
                let lt = e.ar.bin(Op::Ult, x, y);
                let gt = e.ar.bin(Op::Ult, y, x);
                let m1 = e.ar.cst(32, 0xffff_ffff);
                let p1 = e.ar.cst(32, 1);
                let t = e.ar.ite(gt, p1, r);
                r = e.ar.ite(lt, m1, t);
            }
        }
    }
    X::Ret(e.norm(r))
}
fn memmove(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let n = tr!(cst(e, st, a[2]));
    let (p, q) = (tr!(cst(e, st, a[0])), tr!(cst(e, st, a[1])));
    mem!(st.mem.copy(p, q, n));
    X::Ret(Val::I(p))
}
fn memset(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let n = tr!(cst(e, st, a[2]));
    let p = tr!(cst(e, st, a[0]));
    let c = tr!(c32(e, st, a[1])) as u8;
    for k in 0..n {
        mem!(st.mem.set_byte(p + k, (c, 0, 0)));
    }
    X::Ret(Val::I(p))
}
fn strlen(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[0]));
    let mut k = 0;
    loop {
        let b = mem!(st.mem.byte(p + k));
        let z = if b.1 == 0 {
            b.0 == 0
        } else {
            let x = crate::mem::byte_expr(&mut e.ar, b);
            let zz = e.ar.cst(8, 0);
            let c = e.ar.eq(x, zz);
            tr!(e.decide(st, c))
        };
        if z {
            return X::Ret(Val::I(k));
        }
        k += 1;
    }
}
fn memchr_impl(e: &mut Eng, st: &mut State, a: &[Val], rev: bool) -> X {
    let p = tr!(cst(e, st, a[0]));
    let c = tr!(c32(e, st, a[1])) as u8;
    let n = tr!(cst(e, st, a[2]));
    for i in 0..n {
        let k = if rev { n - 1 - i } else { i };
        let b = mem!(st.mem.byte(p + k));
        let z = if b.1 == 0 {
            b.0 == c
        } else {
            let x = crate::mem::byte_expr(&mut e.ar, b);
            let zz = e.ar.cst(8, c as u128);
            let q = e.ar.eq(x, zz);
            tr!(e.decide(st, q))
        };
        if z {
            return X::Ret(Val::I(p + k));
        }
    }
    X::Ret(Val::I(0))
}
fn memchr(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    memchr_impl(e, st, a, false)
}
fn memrchr(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    memchr_impl(e, st, a, true)
}
fn errno_loc(e: &mut Eng, _: &mut State, _: &[Val], _: u8) -> X {
    X::Ret(Val::I(e.errno))
}

// ------------------------------------------------------------- process

fn exit(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let c = tr!(c32(e, st, a[0]));
    match e.do_exit(st, c as u32 as u64) {
        Some(x) => X::End(x),
        None => X::Jump,
    }
}
fn abort(e: &mut Eng, st: &mut State, _: &[Val], _: u8) -> X {
    if st.frames.iter().any(|f| f.marker.is_some()) {
        return match e.do_exit(st, 134) {
            Some(x) => X::End(x),
            None => X::Jump,
        };
    }
    X::End(End::Abort(format!("abort {}{}", st.panic_loc, e.backtrace(st))))
}
fn raise(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    st.exc = tr!(cst(e, st, a[0]));
    let fr = st.frames.last().unwrap();
    if let I::Call { unwind: Some(u), .. } = &fr.f.code[fr.pc as usize] {
        let u = u.clone();
        take_edge(st, &u.1);
        return X::Jump;
    }
    match e.do_unwind(st) {
        Some(x) => X::End(x),
        None => X::Jump,
    }
}
fn unwind_bt(_: &mut Eng, _: &mut State, _: &[Val], _: u8) -> X {
    X::Ret(Val::I(5))
}
fn getenv(_: &mut Eng, _: &mut State, _: &[Val], _: u8) -> X {
    X::Ret(Val::I(0))
}
fn syscall(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let n = tr!(cst(e, st, a[0]));
    match n {
        202 => X::Ret(Val::I(0)),      // futex
        186 => X::Ret(Val::I(1)),      // gettid
        318 => {
            // getrandom
            let p = tr!(cst(e, st, a[1]));
            let l = tr!(cst(e, st, a[2]));
            for k in 0..l {
                mem!(st.mem.set_byte(p + k, (17, 0, 0)));
            }
            X::Ret(Val::I(l))
        }
        _ => {
            set_errno(e, st, 38);
            X::Ret(Val::I(u64::MAX))
        }
    }
}
fn getrandom(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[0]));
    let l = tr!(cst(e, st, a[1]));
    for k in 0..l {
        mem!(st.mem.set_byte(p + k, (17, 0, 0)));
    }
    X::Ret(Val::I(l))
}
fn getcwd(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[0]));
    let n = tr!(cst(e, st, a[1]));
    let c = st.fs.cwd.clone();
    if c.len() as u64 + 1 > n {
        set_errno(e, st, 34);
        return X::Ret(Val::I(0));
    }
    for (k, b) in c.bytes().chain(std::iter::once(0)).enumerate() {
        mem!(st.mem.set_byte(p + k as u64, (b, 0, 0)));
    }
    X::Ret(Val::I(p))
}
fn strerror_r(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[1]));
    for (k, b) in b"error\0".iter().enumerate() {
        mem!(st.mem.set_byte(p + k as u64, (*b, 0, 0)));
    }
    X::Ret(Val::I(0))
}
fn sysconf(_: &mut Eng, _: &mut State, _: &[Val], _: u8) -> X {
    X::Ret(Val::I(4096))
}
fn one(_: &mut Eng, _: &mut State, _: &[Val], _: u8) -> X {
    X::Ret(Val::I(1))
}
fn ioctl_fail(e: &mut Eng, st: &mut State, _: &[Val], _: u8) -> X {
    ret32(e, st, Err(25))
}
fn isatty(e: &mut Eng, st: &mut State, _: &[Val], _: u8) -> X {
    set_errno(e, st, 25);
    X::Ret(Val::I(0))
}

// ------------------------------------------------------------- files

#[derive(Clone, Copy, PartialEq, Debug)]
enum Io {
    Ok,
    Fail,
    /// fails with another error (access denied; for a write: an input/output error)
    Alt,
    Crash,
    Short,
    /// a prefix of that length reaches the file, then the process dies
    Torn(usize),
    /// another process runs first
    Switched,
}
/// symbolic environment decision for one system call on files: which process runs next, or what
/// becomes of the call (fork over what the remaining budgets allow). `write`: length of the data
fn io(e: &mut Eng, st: &mut State, mutating: bool, write: usize) -> Result<Io, End> {
    if let Some(par) = st.par.clone() {
        if par.granted {
            Rc::make_mut(st.par.as_mut().unwrap()).granted = false;
        } else if par.switches > 0 && par.other.is_some() {
            let v = e.ar.input_var(st.inputs.len() as u32, 32);
            let k = e.ar.cst(32, 2);
            let c = e.ar.bin(Op::Ult, v, k);
            e.assume(st, c)?;
            let r = e.conc(st, Val::S(v), 32)?;
            st.inputs.push(Input { env: 2, w: 32, e: Val::I(r) });
            if r == 1 {
                // frames and registers below the processes belong to the parent
                let m = st.frames.iter().position(|f| f.marker.as_ref().map_or(false, |m| m.par)).unwrap();
                let nr = st.frames[m].base as usize;
                let mut par = st.par.take().unwrap();
                let me = e.suspend(st, m, nr, true);
                let p = Rc::make_mut(&mut par);
                let o = p.other.replace(me).unwrap();
                p.granted = o.granted;
                p.cur = 1 - p.cur;
                p.switches -= 1;
                e.resume(st, o);
                st.par = Some(par);
                return Ok(Io::Switched);
            }
        }
        let c = st.par.as_ref().unwrap().cur;
        st.sched.push(c as u8);
        return Ok(Io::Ok);
    }
    let mut opts = vec![Io::Ok];
    if st.faults > 0 {
        opts.push(Io::Fail);
        opts.push(Io::Alt);
        if write > 1 {
            opts.push(Io::Short)
        }
    }
    if st.crashes > 0 && mutating {
        opts.push(Io::Crash);
        // every length of a short write, a spread of lengths of a long one
        for n in 1..write {
            if write <= 128 || n <= 16 || n + 16 >= write || n % 199 == 0 {
                opts.push(Io::Torn(n))
            }
        }
    }
    if opts.len() == 1 {
        st.io_n += 1;
        return Ok(Io::Ok);
    }
    let v = e.ar.input_var(st.inputs.len() as u32, 32);
    let k = e.ar.cst(32, opts.len() as u128);
    let c = e.ar.bin(Op::Ult, v, k);
    e.assume(st, c)?;
    let r = e.conc(st, Val::S(v), 32)?;
    st.inputs.push(Input { env: 2, w: 32, e: Val::I(r) });
    let o = opts[r as usize];
    let n = st.io_n;
    match o {
        Io::Fail | Io::Alt | Io::Short => st.faults -= 1,
        Io::Crash | Io::Torn(_) => st.crashes -= 1,
        _ => {}
    }
    match o {
        Io::Fail => st.io_log.push((n, 1)),
        Io::Crash => st.io_log.push((n, 2)),
        Io::Short => st.io_log.push((n, 3)),
        Io::Alt => st.io_log.push((n, 4)),
        Io::Torn(l) => st.io_log.push((n, 100 + l as u32)),
        _ => {}
    }
    st.io_n += 1;
    Ok(o)
}
fn do_crash(e: &mut Eng, st: &mut State) -> X {
    match e.do_exit(st, 137) {
        Some(x) => X::End(x),
        None => X::Jump,
    }
}
macro_rules! io_point {
    ($e:expr, $st:expr, $err:expr, $ret:ident) => {
        io_point!($e, $st, $err, $ret, true)
    };
    ($e:expr, $st:expr, $err:expr, $ret:ident, $mutating:expr) => {
        match tr!(io($e, $st, $mutating, 0)) {
            Io::Ok => {}
            Io::Fail => return $ret($e, $st, Err($err)),
            Io::Alt => return $ret($e, $st, Err(EACCES)),
            Io::Switched => return X::Jump,
            _ => return do_crash($e, $st),
        }
    };
}

fn open64(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[0]));
    let fl = tr!(c32(e, st, a[1]));
    let path = tr!(cstr(e, st, p));
    io_point!(e, st, if fl & 0o100 != 0 { ENOSPC } else { EIO }, ret32, fl & 3 != 0);
    let r = Rc::make_mut(&mut st.fs).open(&path, fl);
    ret32(e, st, r)
}
fn openat64(e: &mut Eng, st: &mut State, a: &[Val], r: u8) -> X {
    let d = tr!(c32(e, st, a[0]));
    let p = tr!(cst(e, st, a[1]));
    let fl = tr!(c32(e, st, a[2]));
    let path = tr!(at_path(e, st, d, p));
    let _ = r;
    io_point!(e, st, EIO, ret32, fl & 3 != 0);
    let r = Rc::make_mut(&mut st.fs).open(&path, fl);
    ret32(e, st, r)
}
fn at_path(e: &mut Eng, st: &mut State, d: i32, p: u64) -> Result<String, End> {
    let path = cstr(e, st, p)?;
    if path.starts_with('/') || d == -100 {
        return Ok(path);
    }
    if let Some(Some(f)) = st.fs.fds.get(d as usize) {
        if let Some((n, _)) = st.fs.names.iter().find(|(_, i)| **i == f.ino) {
            return Ok(format!("{}/{}", n, path));
        }
    }
    Ok(path)
}
fn close(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let fd = tr!(c32(e, st, a[0]));
    if let Some(f) = Rc::make_mut(&mut st.fs).fds.get_mut(fd as usize) {
        *f = None;
    }
    X::Ret(Val::I(0))
}
fn do_write(e: &mut Eng, st: &mut State, fd: i32, data: Vec<B>) -> X {
    if fd == 1 || fd == 2 {
        if fd == 1 {
            Rc::make_mut(&mut st.out).extend_from_slice(&data);
        }
        return X::Ret(Val::I(data.len() as u64));
    }
    let mut data = data;
    match tr!(io(e, st, true, data.len())) {
        Io::Ok => {}
        Io::Switched => return X::Jump,
        Io::Fail => return ret64(e, st, Err(ENOSPC)),
        Io::Alt => return ret64(e, st, Err(EIO)),
        Io::Crash => return do_crash(e, st),
        Io::Short => data.truncate(data.len() / 2),
        Io::Torn(n) => {
            let _ = Rc::make_mut(&mut st.fs).write(fd, &data[..n]);
            return do_crash(e, st);
        }
    }
    let r = Rc::make_mut(&mut st.fs).write(fd, &data);
    ret64(e, st, r.map(|x| x as i64))
}
fn write(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let fd = tr!(c32(e, st, a[0]));
    let p = tr!(cst(e, st, a[1]));
    let n = tr!(cst(e, st, a[2]));
    let mut d = vec![];
    for k in 0..n {
        d.push(mem!(st.mem.byte(p + k)));
    }
    do_write(e, st, fd, d)
}
fn writev(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let fd = tr!(c32(e, st, a[0]));
    let p = tr!(cst(e, st, a[1]));
    let n = tr!(c32(e, st, a[2])) as u64;
    let mut d = vec![];
    for i in 0..n {
        let b = mem!(st.mem.read(&mut e.ar, p + 16 * i, 64));
        let l = mem!(st.mem.read(&mut e.ar, p + 16 * i + 8, 64));
        let (b, l) = (tr!(cst(e, st, b)), tr!(cst(e, st, l)));
        for k in 0..l {
            d.push(mem!(st.mem.byte(b + k)));
        }
    }
    do_write(e, st, fd, d)
}
fn read(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let fd = tr!(c32(e, st, a[0]));
    let p = tr!(cst(e, st, a[1]));
    let n = tr!(cst(e, st, a[2]));
    if fd > 2 {
        io_point!(e, st, EIO, ret64, false);
    }
    match Rc::make_mut(&mut st.fs).read(fd, n as usize) {
        Ok(v) => {
            for (k, b) in v.iter().enumerate() {
                mem!(st.mem.set_byte(p + k as u64, *b));
            }
            X::Ret(Val::I(v.len() as u64))
        }
        Err(x) => ret64(e, st, Err(x)),
    }
}
fn lseek64(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let fd = tr!(c32(e, st, a[0]));
    let off = tr!(cst(e, st, a[1])) as i64;
    let wh = tr!(c32(e, st, a[2]));
    let fs = Rc::make_mut(&mut st.fs);
    let (ino, pos) = match fs.fd(fd) {
        Ok(f) => (f.ino, f.pos as i64),
        Err(x) => return ret64(e, st, Err(x)),
    };
    let len = fs.inodes[ino].as_ref().map_or(0, |f| f.len()) as i64;
    let np = match wh {
        0 => off,
        1 => pos + off,
        _ => len + off,
    };
    if np < 0 {
        return ret64(e, st, Err(EINVAL));
    }
    fs.fd(fd).unwrap().pos = np as usize;
    X::Ret(Val::I(np as u64))
}
fn put_stat(e: &mut Eng, st: &mut State, ino: usize, b: u64) -> X {
    for k in 0..144 {
        mem!(st.mem.set_byte(b + k, (0, 0, 0)));
    }
    let (mode, size) = match &st.fs.inodes[ino] {
        Some(f) => (0o100644u64, f.len() as u64),
        None => (0o040755, 4096),
    };
    mem!(st.mem.write(&mut e.ar, b, 64, Val::I(1)));
    mem!(st.mem.write(&mut e.ar, b + 8, 64, Val::I(ino as u64 + 1)));
    mem!(st.mem.write(&mut e.ar, b + 16, 64, Val::I(1)));
    mem!(st.mem.write(&mut e.ar, b + 24, 32, Val::I(mode)));
    mem!(st.mem.write(&mut e.ar, b + 48, 64, Val::I(size)));
    mem!(st.mem.write(&mut e.ar, b + 56, 64, Val::I(4096)));
    X::Ret(Val::I(0))
}
fn stat64(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[0]));
    let b = tr!(cst(e, st, a[1]));
    let path = tr!(cstr(e, st, p));
    io_point!(e, st, EIO, ret32, false);
    match st.fs.lookup(&path) {
        Ok(i) => put_stat(e, st, i, b),
        Err(x) => ret32(e, st, Err(x)),
    }
}
fn fstat64(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let fd = tr!(c32(e, st, a[0]));
    let b = tr!(cst(e, st, a[1]));
    match Rc::make_mut(&mut st.fs).fd(fd).map(|f| f.ino) {
        Ok(i) => put_stat(e, st, i, b),
        Err(x) => ret32(e, st, Err(x)),
    }
}
fn fstatat64(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let d = tr!(c32(e, st, a[0]));
    let p = tr!(cst(e, st, a[1]));
    let b = tr!(cst(e, st, a[2]));
    let path = tr!(at_path(e, st, d, p));
    io_point!(e, st, EIO, ret32, false);
    match st.fs.lookup(&path) {
        Ok(i) => put_stat(e, st, i, b),
        Err(x) => ret32(e, st, Err(x)),
    }
}
fn mkdir(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[0]));
    let path = tr!(cstr(e, st, p));
    io_point!(e, st, ENOSPC, ret32);
    let r = Rc::make_mut(&mut st.fs).mkdir(&path).map(|_| 0);
    ret32(e, st, r)
}
fn unlink(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[0]));
    let path = tr!(cstr(e, st, p));
    if st.spare {
        st.io_n += 1;
    } else {
        io_point!(e, st, EIO, ret32);
    }
    let r = Rc::make_mut(&mut st.fs).unlink(&path).map(|_| 0);
    ret32(e, st, r)
}
fn rmdir(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[0]));
    let path = tr!(cstr(e, st, p));
    io_point!(e, st, EIO, ret32);
    let r = Rc::make_mut(&mut st.fs).rmdir(&path).map(|_| 0);
    ret32(e, st, r)
}
fn unlinkat(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let d = tr!(c32(e, st, a[0]));
    let p = tr!(cst(e, st, a[1]));
    let fl = tr!(c32(e, st, a[2]));
    let path = tr!(at_path(e, st, d, p));
    io_point!(e, st, EIO, ret32);
    let fs = Rc::make_mut(&mut st.fs);
    let r = if fl & 0x200 != 0 { fs.rmdir(&path) } else { fs.unlink(&path) }.map(|_| 0);
    ret32(e, st, r)
}
fn rename(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let (p, q) = (tr!(cst(e, st, a[0])), tr!(cst(e, st, a[1])));
    let (p, q) = (tr!(cstr(e, st, p)), tr!(cstr(e, st, q)));
    io_point!(e, st, EIO, ret32);
    let r = Rc::make_mut(&mut st.fs).rename(&p, &q).map(|_| 0);
    ret32(e, st, r)
}
fn link(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let (p, q) = (tr!(cst(e, st, a[0])), tr!(cst(e, st, a[1])));
    let (p, q) = (tr!(cstr(e, st, p)), tr!(cstr(e, st, q)));
    io_point!(e, st, EIO, ret32);
    let fs = Rc::make_mut(&mut st.fs);
    let r = (|| {
        let i = fs.lookup(&p)?;
        let n = fs.norm(&q);
        if fs.names.contains_key(&n) {
            return Err(EEXIST);
        }
        fs.check_parent(&n)?;
        fs.names.insert(n, i);
        Ok(0)
    })();
    ret32(e, st, r)
}
fn ftruncate64(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let fd = tr!(c32(e, st, a[0]));
    let n = tr!(cst(e, st, a[1])) as usize;
    io_point!(e, st, EIO, ret32);
    let fs = Rc::make_mut(&mut st.fs);
    let r = fs.fd(fd).map(|f| f.ino);
    match r {
        Ok(i) => {
            if let Some(f) = &mut fs.inodes[i] {
                Rc::make_mut(f).resize(n, (0, 0, 0));
            }
            X::Ret(Val::I(0))
        }
        Err(x) => ret32(e, st, Err(x)),
    }
}
fn fsync(e: &mut Eng, st: &mut State, _: &[Val], _: u8) -> X {
    io_point!(e, st, EIO, ret32);
    X::Ret(Val::I(0))
}
fn fcntl(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let fd = tr!(c32(e, st, a[0]));
    let cmd = tr!(c32(e, st, a[1]));
    if cmd == 1030 || cmd == 0 {
        // F_DUPFD(_CLOEXEC)
        let fs = Rc::make_mut(&mut st.fs);
        let r = match fs.fd(fd).map(|f| f.clone()) {
            Ok(f) => Ok(fs.alloc_fd(f)),
            Err(x) => Err(x),
        };
        return ret32(e, st, r);
    }
    X::Ret(Val::I(0))
}
fn mk_dir(e: &mut Eng, st: &mut State, fd: i32) -> X {
    let fs = Rc::make_mut(&mut st.fs);
    let ino = match fs.fd(fd) {
        Ok(f) => f.ino,
        Err(x) => {
            set_errno(e, st, x);
            return X::Ret(Val::I(0));
        }
    };
    let name = fs.names.iter().find(|(_, i)| **i == ino).map(|(n, _)| n.clone()).unwrap_or_default();
    let ch = fs.children(&name);
    let f = fs.fd(fd).unwrap();
    f.dir = Some(Rc::new(ch));
    f.pos = 0;
    let p = st.mem.malloc(8 + 320, 16);
    mem!(st.mem.write(&mut e.ar, p, 64, Val::I(fd as u64)));
    X::Ret(Val::I(p))
}
fn opendir(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[0]));
    let path = tr!(cstr(e, st, p));
    let r = Rc::make_mut(&mut st.fs).open(&path, 0o200000);
    match r {
        Ok(fd) => mk_dir(e, st, fd),
        Err(x) => {
            set_errno(e, st, x);
            X::Ret(Val::I(0))
        }
    }
}
fn fdopendir(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let fd = tr!(c32(e, st, a[0]));
    mk_dir(e, st, fd)
}
fn readdir64(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[0]));
    let fd = mem!(st.mem.read(&mut e.ar, p, 64));
    let fd = tr!(cst(e, st, fd)) as i32;
    let fs = Rc::make_mut(&mut st.fs);
    let f = match fs.fd(fd) {
        Ok(f) => f,
        Err(_) => return X::Ret(Val::I(0)),
    };
    let d = f.dir.clone().unwrap_or_default();
    if f.pos >= d.len() {
        return X::Ret(Val::I(0));
    }
    let (n, isdir, ino) = d[f.pos].clone();
    f.pos += 1;
    let q = p + 8;
    mem!(st.mem.write(&mut e.ar, q, 64, Val::I(ino as u64 + 1)));
    mem!(st.mem.write(&mut e.ar, q + 8, 64, Val::I(0)));
    mem!(st.mem.write(&mut e.ar, q + 16, 16, Val::I(280)));
    mem!(st.mem.write(&mut e.ar, q + 18, 8, Val::I(if isdir { 4 } else { 8 })));
    for (k, b) in n.bytes().chain(std::iter::once(0)).enumerate() {
        mem!(st.mem.set_byte(q + 19 + k as u64, (b, 0, 0)));
    }
    X::Ret(Val::I(q))
}
fn closedir(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[0]));
    let fd = mem!(st.mem.read(&mut e.ar, p, 64));
    let fd = tr!(cst(e, st, fd)) as usize;
    if let Some(f) = Rc::make_mut(&mut st.fs).fds.get_mut(fd) {
        *f = None;
    }
    X::Ret(Val::I(0))
}
fn dirfd(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[0]));
    let fd = mem!(st.mem.read(&mut e.ar, p, 64));
    let fd = tr!(cst(e, st, fd));
    X::Ret(Val::I(fd))
}
fn flock(_: &mut Eng, _: &mut State, _: &[Val], _: u8) -> X {
    X::Ret(Val::I(0))
}
fn access(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[0]));
    let path = tr!(cstr(e, st, p));
    io_point!(e, st, EIO, ret32, false);
    let r = st.fs.lookup(&path).map(|_| 0);
    ret32(e, st, r)
}
fn enosys64(e: &mut Eng, st: &mut State, _: &[Val], _: u8) -> X {
    ret64(e, st, Err(38))
}
fn clock_gettime(e: &mut Eng, st: &mut State, a: &[Val], _: u8) -> X {
    let p = tr!(cst(e, st, a[1]));
    mem!(st.mem.write(&mut e.ar, p, 64, Val::I(1_700_000_000)));
    mem!(st.mem.write(&mut e.ar, p + 8, 64, Val::I(0)));
    X::Ret(Val::I(0))
}

pub fn lookup(n: &str) -> Option<ExtFn> {
    Some(match n {
        "symx_sym" => x_sym,
        "symx_choose" => x_choose,
        "symx_choose_env" => x_choose_env,
        "symx_assume" => x_assume,
        "symx_assert" => x_assert,
        "symx_cover" => x_cover,
        "symx_note" => x_note,
        "symx_conc" => x_conc,
        "symx_is_sym" => x_is_sym,
        "symx_ite" => x_ite,
        "symx_active" => x_active,
        "symx_run" => x_run,
        "symx_par" => x_par,
        "symx_par_out" => x_par_out,
        "symx_stdin" => x_stdin,
        "symx_panic_loc" => x_panic_loc,
        "symx_set_args" => x_set_args,
        "symx_stdout" => x_stdout,
        "symx_fs_read" => x_fs_read,
        "symx_fs_write" => x_fs_write,
        "symx_fs_mkdir" => x_fs_mkdir,
        "symx_faults" => x_faults,
        "symx_faults_left" => x_faults_left,
        "symx_crashes" => x_crashes,
        "symx_log" => x_log,
        "symx_limit" => x_limit,
        "malloc" => malloc,
        "calloc" => calloc,
        "realloc" => realloc,
        "posix_memalign" => posix_memalign,
        "free" => free,
        "bcmp" => bcmp,
        "memcmp" => memcmp,
        "memcpy" | "memmove" => memmove,
        "memset" => memset,
        "strlen" => strlen,
        "memchr" => memchr,
        "memrchr" => memrchr,
        "__errno_location" => errno_loc,
        "exit" | "_exit" => exit,
        "abort" => abort,
        "_Unwind_RaiseException" => raise,
        "_Unwind_Backtrace" => unwind_bt,
        "_Unwind_DeleteException" => zero,
        "getenv" => getenv,
        "syscall" => syscall,
        "getrandom" => getrandom,
        "getcwd" => getcwd,
        "__xpg_strerror_r" => strerror_r,
        "sysconf" => sysconf,
        "isatty" => isatty,
        "ioctl" => ioctl_fail,
        "open64" => open64,
        "openat64" => openat64,
        "close" => close,
        "read" => read,
        "write" => write,
        "writev" => writev,
        "lseek64" => lseek64,
        "stat64" | "lstat64" => stat64,
        "fstat64" => fstat64,
        "fstatat64" => fstatat64,
        "mkdir" => mkdir,
        "unlink" => unlink,
        "rmdir" => rmdir,
        "unlinkat" => unlinkat,
        "rename" => rename,
        "link" => link,
        "ftruncate64" => ftruncate64,
        "fsync" | "fdatasync" => fsync,
        "fcntl" => fcntl,
        "opendir" => opendir,
        "fdopendir" => fdopendir,
        "readdir64" => readdir64,
        "closedir" => closedir,
        "dirfd" => dirfd,
        "flock" => flock,
        "access" => access,
        "copy_file_range" | "sendfile64" | "splice" => enosys64,
        "clock_gettime" => clock_gettime,
        "pthread_self" | "gettid" | "getpid" => one,
        "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" | "pthread_key_delete" | "signal" | "sigaction" | "sigaltstack" | "poll" | "mprotect" | "munmap" | "__cxa_thread_atexit_impl" | "sched_yield" | "fchmod" | "chmod" | "futimens" => zero,
        _ => return None,
    })
}
