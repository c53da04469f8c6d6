//! Z3 back end (C API through FFI) with caches, plus a complete union-find procedure for
//! conjunctions of (dis)equalities between 64-bit variables/constants.
use crate::expr::*;
use crate::lia::{self, Mode};
use std::ffi::c_void;
use std::rc::Rc;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, i32)>);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_int_symbol(c: P, i: i32) -> P;
    fn Z3_mk_bv_sort(c: P, n: u32) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const u8, t: P) -> P;
    fn Z3_mk_add(c: P, n: u32, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: u32, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: u32, a: *const P) -> P;
    fn Z3_mk_div(c: P, a: P, b: P) -> P;
    fn Z3_mk_mod(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_get_numeral_int64(c: P, v: P, u: *mut i64) -> bool;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: u32, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: u32, a: *const P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, i: P, a: P, b: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: u32, lo: u32, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: u32, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: u32, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const u8) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check_assumptions(c: P, s: P, n: u32, a: *const P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> i32;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: u32);
    fn Z3_solver_to_string(c: P, s: P) -> *const i8;
    fn Z3_ast_to_string(c: P, a: P) -> *const i8;
}

extern "C" fn on_err(_c: P, e: i32) {
    eprintln!("z3 error {}", e);
    std::process::exit(97);
}

pub type Model = Rc<Vec<u64>>;

#[derive(Default, Clone, Copy)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache: u64,
    pub eqfast: u64,
    pub lia: u64,
    pub ns: u64,
}

pub struct Solver {
    c: P,
    s: P,
    asts: Vec<P>,
    lits: FxMap<E, P>,
    nlit: i32,
    asserted: usize,
    cache: FxMap<(Box<[E]>, E), Option<Model>>,
    lia: [Lia; 2],
    /// wall-clock limit for the whole run
    pub until: Option<std::time::Instant>,
    pub crosscheck: bool,
    pub st: Stats,
    pub dump: Option<String>,
    dumped: u32,
}

struct Lia {
    s: P,
    asts: FxMap<E, P>,
    lits: FxMap<E, P>,
    asserted: usize,
}
impl Lia {
    fn new() -> Lia {
        Lia { s: std::ptr::null_mut(), asts: Default::default(), lits: Default::default(), asserted: 0 }
    }
}

pub enum Res {
    Sat(Model),
    Unsat,
    Unknown,
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let c = Z3_mk_context_rc(Z3_mk_config());
            Z3_set_error_handler(c, Some(on_err));
            let mut s = Solver { c, s: std::ptr::null_mut(), asts: vec![], lits: Default::default(), nlit: 0, asserted: 0, cache: Default::default(), lia: [Lia::new(), Lia::new()], until: None, crosscheck: std::env::var("SYMX_CROSSCHECK").is_ok(), st: Default::default(), dump: None, dumped: 0 };
            s.reset();
            s
        }
    }
    fn reset(&mut self) {
        unsafe {
            if !self.s.is_null() {
                Z3_solver_dec_ref(self.c, self.s);
            }
            self.s = Z3_mk_simple_solver(self.c);
            Z3_solver_inc_ref(self.c, self.s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, b"rlimit\0".as_ptr()), 30_000_000);
            Z3_solver_set_params(self.c, self.s, p);
            self.lits.clear();
            self.asserted = 0;
        }
    }
    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn sort(&self, w: u8) -> P {
        unsafe {
            if w == 1 {
                Z3_mk_bool_sort(self.c)
            } else {
                Z3_mk_bv_sort(self.c, w as u32)
            }
        }
    }
    fn num(&self, w: u8, v: u128) -> P {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w as u32))
            } else {
                let h = self.num(w - 64, v >> 64);
                let l = self.num(64, v & mask(64));
                let h = self.keep(h);
                let l = self.keep(l);
                Z3_mk_concat(self.c, h, l)
            }
        }
    }
    fn bv(&mut self, ar: &Arena, e: E) -> P {
        let a = self.ast(ar, e);
        if ar.w(e) == 1 {
            unsafe {
                let s = Z3_mk_bv_sort(self.c, 1);
                let one = self.keep(Z3_mk_unsigned_int64(self.c, 1, s));
                let zero = self.keep(Z3_mk_unsigned_int64(self.c, 0, s));
                self.keep(Z3_mk_ite(self.c, a, one, zero))
            }
        } else {
            a
        }
    }
    fn ast(&mut self, ar: &Arena, e: E) -> P {
        if (e as usize) < self.asts.len() {
            let a = self.asts[e as usize];
            if !a.is_null() {
                return a;
            }
        } else {
            self.asts.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        let n = *ar.n(e);
        let c = self.c;
        use Op::*;
        let r = unsafe {
            match n.op {
                Const => {
                    if n.w == 1 {
                        if n.imm == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        self.num(n.w, n.imm)
                    }
                }
                Var => {
                    let s = self.sort(n.w);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, n.imm as i32), s)
                }
                Not => {
                    let a = self.ast(ar, n.a);
                    if n.w == 1 {
                        Z3_mk_not(c, a)
                    } else {
                        Z3_mk_bvnot(c, a)
                    }
                }
                Ite => {
                    let i = self.ast(ar, n.a);
                    let a = self.ast(ar, n.b);
                    let b = self.ast(ar, n.c);
                    Z3_mk_ite(c, i, a, b)
                }
                Concat => {
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    Z3_mk_concat(c, a, b)
                }
                Extract => {
                    let a = self.bv(ar, n.a);
                    let x = Z3_mk_extract(c, n.imm as u32 + n.w as u32 - 1, n.imm as u32, a);
                    if n.w == 1 {
                        let x = self.keep(x);
                        let one = self.keep(self.num(1, 1));
                        Z3_mk_eq(c, x, one)
                    } else {
                        x
                    }
                }
                ZExt => {
                    let iw = ar.w(n.a);
                    if iw == 1 {
                        let a = self.ast(ar, n.a);
                        let one = self.keep(self.num(n.w, 1));
                        let zero = self.keep(self.num(n.w, 0));
                        Z3_mk_ite(c, a, one, zero)
                    } else {
                        let a = self.ast(ar, n.a);
                        Z3_mk_zero_ext(c, (n.w - iw) as u32, a)
                    }
                }
                SExt => {
                    let iw = ar.w(n.a);
                    if iw == 1 {
                        let a = self.ast(ar, n.a);
                        let one = self.keep(self.num(n.w, mask(n.w)));
                        let zero = self.keep(self.num(n.w, 0));
                        Z3_mk_ite(c, a, one, zero)
                    } else {
                        let a = self.ast(ar, n.a);
                        Z3_mk_sign_ext(c, (n.w - iw) as u32, a)
                    }
                }
                op => {
                    let a = self.ast(ar, n.a);
                    let b = self.ast(ar, n.b);
                    let iw = ar.w(n.a);
                    if iw == 1 {
                        match op {
                            And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                            Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                            Xor | Add | Sub => Z3_mk_xor(c, a, b),
                            Eq => Z3_mk_eq(c, a, b),
                            Ult => {
                                let na = self.keep(Z3_mk_not(c, a));
                                Z3_mk_and(c, 2, [na, b].as_ptr())
                            }
                            Ule => Z3_mk_implies(c, a, b),
                            Slt => {
                                let nb = self.keep(Z3_mk_not(c, b));
                                Z3_mk_and(c, 2, [a, nb].as_ptr())
                            }
                            Sle => Z3_mk_implies(c, b, a),
                            Mul => Z3_mk_and(c, 2, [a, b].as_ptr()),
                            _ => panic!("1-bit {:?}", op),
                        }
                    } else {
                        match op {
                            Add => Z3_mk_bvadd(c, a, b),
                            Sub => Z3_mk_bvsub(c, a, b),
                            Mul => Z3_mk_bvmul(c, a, b),
                            UDiv => Z3_mk_bvudiv(c, a, b),
                            SDiv => Z3_mk_bvsdiv(c, a, b),
                            URem => Z3_mk_bvurem(c, a, b),
                            SRem => Z3_mk_bvsrem(c, a, b),
                            And => Z3_mk_bvand(c, a, b),
                            Or => Z3_mk_bvor(c, a, b),
                            Xor => Z3_mk_bvxor(c, a, b),
                            Shl => Z3_mk_bvshl(c, a, b),
                            LShr => Z3_mk_bvlshr(c, a, b),
                            AShr => Z3_mk_bvashr(c, a, b),
                            Eq => Z3_mk_eq(c, a, b),
                            Ult => Z3_mk_bvult(c, a, b),
                            Ule => Z3_mk_bvule(c, a, b),
                            Slt => Z3_mk_bvslt(c, a, b),
                            Sle => Z3_mk_bvsle(c, a, b),
                            _ => panic!(),
                        }
                    }
                }
            }
        };
        let r = self.keep(r);
        if self.asts.len() <= e as usize {
            self.asts.resize(ar.nodes.len(), std::ptr::null_mut());
        }
        self.asts[e as usize] = r;
        r
    }
    fn lit(&mut self, ar: &Arena, e: E) -> P {
        if let Some(l) = self.lits.get(&e) {
            return *l;
        }
        unsafe {
            self.nlit += 1;
            let b = Z3_mk_bool_sort(self.c);
            let l = self.keep(Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, 1_000_000 + self.nlit), b));
            let a = self.ast(ar, e);
            let imp = self.keep(Z3_mk_implies(self.c, l, a));
            Z3_solver_assert(self.c, self.s, imp);
            self.asserted += 1;
            self.lits.insert(e, l);
            l
        }
    }

    fn timeout(&self, s: P, rlimit: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, b"rlimit\0".as_ptr()), rlimit);
            if let Some(u) = self.until {
                let ms = u.saturating_duration_since(std::time::Instant::now()).as_millis().max(1) as u32;
                Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, b"timeout\0".as_ptr()), ms);
            }
            Z3_solver_set_params(self.c, s, p);
        }
    }

    /// decide a conjunction over the integers; None: unknown
    fn lia_check(&mut self, ar: &mut Arena, i: usize, m: Mode, lits: &[E]) -> Option<Option<Model>> {
        unsafe {
            if self.lia[i].s.is_null() || self.lia[i].asserted > 4000 {
                if !self.lia[i].s.is_null() {
                    Z3_solver_dec_ref(self.c, self.lia[i].s);
                }
                let s = Z3_mk_simple_solver(self.c);
                Z3_solver_inc_ref(self.c, s);
                self.lia[i].s = s;
                self.lia[i].lits.clear();
                self.lia[i].asts.clear();
                self.lia[i].asserted = 0;
            }
            let s = self.lia[i].s;
            let mut asm: Vec<P> = vec![];
            for e in lits {
                if let Some(l) = self.lia[i].lits.get(e) {
                    asm.push(*l);
                    continue;
                }
                self.nlit += 1;
                let b = Z3_mk_bool_sort(self.c);
                let l = self.keep(Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, 1_000_000 + self.nlit), b));
                let a = match lia::bound(ar, m, *e) {
                    Some((v, lo, hi)) => {
                        let v = self.iast(ar, i, m, v);
                        let lo = self.inum(lo);
                        let hi = self.inum(hi);
                        let x = self.keep(Z3_mk_le(self.c, lo, v));
                        let y = self.keep(Z3_mk_le(self.c, v, hi));
                        self.keep(Z3_mk_and(self.c, 2, [x, y].as_ptr()))
                    }
                    None => self.iast(ar, i, m, *e),
                };
                let imp = self.keep(Z3_mk_implies(self.c, l, a));
                Z3_solver_assert(self.c, s, imp);
                self.lia[i].asserted += 1;
                self.lia[i].lits.insert(*e, l);
                asm.push(l);
            }
            self.timeout(s, 100_000_000);
            match Z3_solver_check_assumptions(self.c, s, asm.len() as u32, asm.as_ptr()) {
                1 => {
                    let md = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, md);
                    let mut vars: Vec<u32> = vec![];
                    for e in lits {
                        vars.extend_from_slice(ar.vars(*e));
                    }
                    vars.sort_unstable();
                    vars.dedup();
                    let mut mv = vec![0u64; vars.last().map_or(0, |x| *x as usize + 1)];
                    for v in vars {
                        let w = ar.var_w(v);
                        let ve = ar.var(w, v);
                        let a = self.iast(ar, i, m, ve);
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, md, a, true, &mut o) {
                            Z3_inc_ref(self.c, o);
                            let mut x = 0u64;
                            if w == 1 {
                                x = (Z3_get_bool_value(self.c, o) == 1) as u64;
                            } else if m == Mode::U {
                                Z3_get_numeral_uint64(self.c, o, &mut x);
                            } else {
                                let mut y = 0i64;
                                Z3_get_numeral_int64(self.c, o, &mut y);
                                x = (y as u64 as u128 & mask(w)) as u64;
                            }
                            mv[v as usize] = x;
                        }
                    }
                    Z3_model_dec_ref(self.c, md);
                    // the model must satisfy the bit-vector reading
                    let mut memo = Default::default();
                    for e in lits {
                        let f = |v: u32| mv[v as usize] as u128;
                        if ar.eval(*e, &f, &mut memo) != 1 {
                            eprintln!("symx: integer model does not satisfy the bit-vector query");
                            std::process::exit(96);
                        }
                    }
                    Some(Some(Rc::new(mv)))
                }
                -1 => Some(None),
                _ => None,
            }
        }
    }
    fn inum(&self, v: i128) -> P {
        unsafe {
            let t = format!("{}\0", v);
            let s = Z3_mk_int_sort(self.c);
            self.keep(Z3_mk_numeral(self.c, t.as_ptr(), s))
        }
    }
    fn iast(&mut self, ar: &Arena, i: usize, m: Mode, e: E) -> P {
        if let Some(a) = self.lia[i].asts.get(&e) {
            return *a;
        }
        let n = *ar.n(e);
        let c = self.c;
        use Op::*;
        let r = unsafe {
            match n.op {
                Const if n.w == 1 => {
                    if n.imm == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Const => self.inum(lia::val(m, n.w, n.imm)),
                Var if n.w == 1 => Z3_mk_const(c, Z3_mk_int_symbol(c, n.imm as i32), Z3_mk_bool_sort(c)),
                Var => {
                    let v = self.keep(Z3_mk_const(c, Z3_mk_int_symbol(c, n.imm as i32), Z3_mk_int_sort(c)));
                    let (lo, hi) = lia::range(m, n.w);
                    let lo = self.inum(lo);
                    let hi = self.inum(hi);
                    let x = self.keep(Z3_mk_le(c, lo, v));
                    let y = self.keep(Z3_mk_le(c, v, hi));
                    Z3_solver_assert(c, self.lia[i].s, x);
                    Z3_solver_assert(c, self.lia[i].s, y);
                    v
                }
                Not => {
                    let a = self.iast(ar, i, m, n.a);
                    Z3_mk_not(c, a)
                }
                Ite => {
                    let x = self.iast(ar, i, m, n.a);
                    let a = self.iast(ar, i, m, n.b);
                    let b = self.iast(ar, i, m, n.c);
                    Z3_mk_ite(c, x, a, b)
                }
                ZExt | SExt => {
                    let a = self.iast(ar, i, m, n.a);
                    if ar.w(n.a) == 1 {
                        let one = self.inum(if n.op == ZExt { 1 } else { -1 });
                        let zero = self.inum(0);
                        Z3_mk_ite(c, a, one, zero)
                    } else {
                        a
                    }
                }
                Concat => {
                    let f = |s: &mut Self, e: E| {
                        if let Some(k) = ar.as_const(e) {
                            return s.inum(k as i128);
                        }
                        let a = s.iast(ar, i, m, e);
                        if ar.w(e) == 1 {
                            let one = s.inum(1);
                            let zero = s.inum(0);
                            s.keep(Z3_mk_ite(c, a, one, zero))
                        } else {
                            a
                        }
                    };
                    let a = f(self, n.a);
                    let b = f(self, n.b);
                    let k = self.inum(1i128 << ar.w(n.b));
                    let h = self.keep(Z3_mk_mul(c, 2, [k, a].as_ptr()));
                    Z3_mk_add(c, 2, [h, b].as_ptr())
                }
                Extract if n.w == 1 => {
                    let a = self.iast(ar, i, m, n.a);
                    let w = ar.w(n.a);
                    if m == Mode::S {
                        let z = self.inum(0);
                        Z3_mk_lt(c, a, z)
                    } else {
                        let z = self.inum(1i128 << (w - 1));
                        Z3_mk_le(c, z, a)
                    }
                }
                Extract if n.imm == 0 => self.iast(ar, i, m, n.a),
                Extract => {
                    let a = self.iast(ar, i, m, n.a);
                    let k = self.inum(1i128 << n.imm);
                    Z3_mk_div(c, a, k)
                }
                UDiv | URem => {
                    let a = self.iast(ar, i, m, n.a);
                    let k = self.inum(ar.as_const(n.b).unwrap() as i128);
                    if n.op == UDiv {
                        Z3_mk_div(c, a, k)
                    } else {
                        Z3_mk_mod(c, a, k)
                    }
                }
                Add => {
                    // constants are read signed: adding 2^w-1 is subtracting 1
                    let f = |s: &mut Self, e: E| match ar.as_const(e) {
                        Some(k) => s.inum(sext(k, n.w)),
                        None => s.iast(ar, i, m, e),
                    };
                    let a = f(self, n.a);
                    let b = f(self, n.b);
                    Z3_mk_add(c, 2, [a, b].as_ptr())
                }
                op => {
                    let a = self.iast(ar, i, m, n.a);
                    let b = self.iast(ar, i, m, n.b);
                    match op {
                        And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                        Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                        Xor => Z3_mk_xor(c, a, b),
                        Eq => Z3_mk_eq(c, a, b),
                        Sub => Z3_mk_sub(c, 2, [a, b].as_ptr()),
                        Mul => Z3_mk_mul(c, 2, [a, b].as_ptr()),
                        Ult | Slt => Z3_mk_lt(c, a, b),
                        Ule | Sle => Z3_mk_le(c, a, b),
                        _ => panic!("iast {:?}", op),
                    }
                }
            }
        };
        let r = self.keep(r);
        self.lia[i].asts.insert(e, r);
        r
    }
    /// compare with the bit-vector encoding (self-test)
    fn cross(&mut self, ar: &Arena, lits: &[E], sat: bool) {
        unsafe {
            let sym = Z3_mk_string_symbol(self.c, b"QF_BV\0".as_ptr());
            let s = Z3_mk_solver_for_logic(self.c, sym);
            Z3_solver_inc_ref(self.c, s);
            self.timeout(s, 20_000_000);
            for e in lits {
                let a = self.ast(ar, *e);
                Z3_solver_assert(self.c, s, a);
            }
            let r = Z3_solver_check_assumptions(self.c, s, 0, std::ptr::null());
            Z3_solver_dec_ref(self.c, s);
            if r != 0 && (r == 1) != sat {
                eprintln!("symx: integer and bit-vector verdicts differ");
                std::process::exit(95);
            }
        }
    }

    /// slice of pc relevant to cond
    fn slice(&self, ar: &Arena, pc: &[E], cond: E) -> Vec<E> {
        let mut vars: FxSet<u32> = ar.vars(cond).iter().copied().collect();
        let mut inn = vec![false; pc.len()];
        let mut changed = true;
        while changed {
            changed = false;
            for (i, c) in pc.iter().enumerate() {
                if inn[i] {
                    continue;
                }
                let vs = ar.vars(*c);
                if vs.iter().any(|v| vars.contains(v)) {
                    inn[i] = true;
                    for v in vs {
                        if vars.insert(*v) {
                            changed = true;
                        }
                    }
                }
            }
        }
        let mut r: Vec<E> = pc.iter().zip(inn).filter(|(_, i)| *i).map(|(c, _)| *c).collect();
        r.sort_unstable();
        r.dedup();
        r
    }

    /// Is pc /\ cond satisfiable?  `base` satisfies pc.
    pub fn check(&mut self, ar: &mut Arena, pc: &[E], cond: E, base: &Model) -> Res {
        if let Some(v) = ar.as_const(cond) {
            return if v == 1 { Res::Sat(base.clone()) } else { Res::Unsat };
        }
        let sl = self.slice(ar, pc, cond);
        let key = (sl.into_boxed_slice(), cond);
        if let Some(r) = self.cache.get(&key) {
            self.st.cache += 1;
            return match r {
                Some(m) => Res::Sat(merge(ar, base, m, &key)),
                None => Res::Unsat,
            };
        }
        let t0 = std::time::Instant::now();
        if let Some(r) = eq_solve(ar, &key.0, key.1) {
            self.st.eqfast += 1;
            self.st.ns += t0.elapsed().as_nanos() as u64;
            let out = match &r {
                Some(m) => Res::Sat(merge(ar, base, m, &key)),
                None => Res::Unsat,
            };
            self.cache.insert(key, r);
            return out;
        }
        let lits = lia::conj(ar, key.0.iter().copied().chain(std::iter::once(cond)));
        for (i, m) in [Mode::S, Mode::U].into_iter().enumerate() {
            if !lia::usable(ar, m, &lits) {
                continue;
            }
            if let Some(r) = self.lia_check(ar, i, m, &lits) {
                self.st.queries += 1;
                self.st.lia += 1;
                if self.crosscheck {
                    self.cross(ar, &lits, r.is_some());
                }
                let out = match &r {
                    Some(m) => {
                        self.st.sat += 1;
                        Res::Sat(merge(ar, base, m, &key))
                    }
                    None => {
                        self.st.unsat += 1;
                        if self.dump.is_some() {
                            self.dump_query(ar, &key, "unsat");
                        }
                        Res::Unsat
                    }
                };
                self.cache.insert(key, r);
                self.st.ns += t0.elapsed().as_nanos() as u64;
                return out;
            }
            break;
        }
        if std::env::var("SYMX_SLOW").is_ok() {
            let which: Vec<_> = [Mode::S, Mode::U].iter().map(|m| lia::why(ar, *m, &lits)).collect();
            eprintln!("BV query: {:?}", which);
        }
        if self.asserted > 4000 {
            self.reset();
        }
        // float encodings are easy for a fresh bit-blasting solver, hard for the incremental one
        self.timeout(self.s, if HEAVY.load(std::sync::atomic::Ordering::Relaxed) { 200_000 } else { 30_000_000 });
        let mut asm: Vec<P> = key.0.iter().map(|e| *e).collect::<Vec<_>>().into_iter().map(|e| self.lit(ar, e)).collect();
        asm.push(self.lit(ar, cond));
        let mut r = unsafe { Z3_solver_check_assumptions(self.c, self.s, asm.len() as u32, asm.as_ptr()) };
        self.st.queries += 1;
        let mut used = self.s;
        if r == 0 && std::env::var("SYMX_SLOW").is_ok() && self.dump.is_some() {
            self.dump_query(ar, &key, "unknown");
        }
        if r == 0 {
            // hard query: a fresh bit-blasting solver with a larger budget
            unsafe {
                let sym = Z3_mk_string_symbol(self.c, b"QF_BV\0".as_ptr());
                used = Z3_mk_solver_for_logic(self.c, sym);
                Z3_solver_inc_ref(self.c, used);
                self.timeout(used, 800_000_000);
                for e in key.0.iter().chain(std::iter::once(&cond)) {
                    let a = self.ast(ar, *e);
                    Z3_solver_assert(self.c, used, a);
                }
                r = Z3_solver_check_assumptions(self.c, used, 0, std::ptr::null());
            }
        }
        let out = match r {
            1 => {
                self.st.sat += 1;
                let mut mv: Vec<u64> = vec![];
                unsafe {
                    let m = Z3_solver_get_model(self.c, used);
                    Z3_model_inc_ref(self.c, m);
                    let mut vars: Vec<u32> = vec![];
                    for e in key.0.iter().chain(std::iter::once(&cond)) {
                        vars.extend_from_slice(ar.vars(*e));
                    }
                    vars.sort_unstable();
                    vars.dedup();
                    if let Some(x) = vars.last() {
                        mv.resize(*x as usize + 1, 0)
                    }
                    for v in vars {
                        let w = ar.var_w(v);
                        let ve = ar.var(w, v);
                        let a = self.ast(ar, ve);
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, a, true, &mut o) {
                            Z3_inc_ref(self.c, o);
                            let mut x = 0u64;
                            if w == 1 {
                                x = (Z3_get_bool_value(self.c, o) == 1) as u64;
                            } else {
                                Z3_get_numeral_uint64(self.c, o, &mut x);
                            }
                            mv[v as usize] = x;
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                }
                let m = Rc::new(mv);
                let out = Res::Sat(merge(ar, base, &m, &key));
                self.cache.insert(key, Some(m));
                out
            }
            -1 => {
                self.st.unsat += 1;
                if self.dump.is_some() {
                    self.dump_query(ar, &key, "unsat");
                }
                self.cache.insert(key, None);
                Res::Unsat
            }
            _ => {
                self.st.unknown += 1;
                Res::Unknown
            }
        };
        if used != self.s {
            unsafe { Z3_solver_dec_ref(self.c, used) }
        }
        if self.cache.len() > 400_000 {
            self.cache.clear();
        }
        self.st.ns += t0.elapsed().as_nanos() as u64;
        out
    }

    /// write an SMT-LIB2 file for cross-checking with another solver
    fn dump_query(&mut self, ar: &mut Arena, key: &(Box<[E]>, E), verdict: &str) {
        self.dumped += 1;
        if self.dumped > 12 && self.dumped % 997 != 0 || self.dumped > 100_000 {
            return;
        }
        let dir = self.dump.clone().unwrap();
        unsafe {
            let sym = Z3_mk_string_symbol(self.c, b"QF_BV\0".as_ptr());
            let s = Z3_mk_solver_for_logic(self.c, sym);
            Z3_solver_inc_ref(self.c, s);
            for e in key.0.iter().chain(std::iter::once(&key.1)) {
                let a = self.ast(ar, *e);
                Z3_solver_assert(self.c, s, a);
            }
            let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().to_string();
            Z3_solver_dec_ref(self.c, s);
            let f = format!("{}/q{}_{}.smt2", dir, std::process::id(), self.dumped);
            let _ = std::fs::write(f, format!("(set-logic QF_BV)\n(set-info :status {})\n{}\n(check-sat)\n", verdict, t));
        }
    }
    #[allow(dead_code)]
    pub fn show(&mut self, ar: &Arena, e: E) -> String {
        let a = self.ast(ar, e);
        unsafe { std::ffi::CStr::from_ptr(Z3_ast_to_string(self.c, a)).to_string_lossy().to_string() }
    }
}

pub static HEAVY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn merge(ar: &Arena, base: &Model, m: &Model, key: &(Box<[E]>, E)) -> Model {
    let mut v = (**base).clone();
    let mut set = |x: u32| {
        let x = x as usize;
        if v.len() <= x {
            v.resize(x + 1, 0)
        }
        v[x] = m.get(x).copied().unwrap_or(0);
    };
    for e in key.0.iter().chain(std::iter::once(&key.1)) {
        for x in ar.vars(*e) {
            set(*x)
        }
    }
    Rc::new(v)
}

/// Complete decision procedure for conjunctions of literals a=b / a!=b where a,b are 64-bit
/// variables or constants (fewer than 2^32 terms over a 2^64 domain).
fn eq_solve(ar: &Arena, sl: &[E], cond: E) -> Option<Option<Model>> {
    let mut eqs: Vec<(E, E)> = vec![];
    let mut nes: Vec<(E, E)> = vec![];
    let mut work: Vec<E> = sl.to_vec();
    work.push(cond);
    let ok = |e: E| {
        let n = ar.n(e);
        n.w == 64 && matches!(n.op, Op::Var | Op::Const)
    };
    while let Some(e) = work.pop() {
        let n = *ar.n(e);
        match n.op {
            Op::And if n.w == 1 => {
                work.push(n.a);
                work.push(n.b);
            }
            Op::Eq if ok(n.a) && ok(n.b) => eqs.push((n.a, n.b)),
            Op::Not => {
                let k = *ar.n(n.a);
                if k.op == Op::Eq && ok(k.a) && ok(k.b) {
                    nes.push((k.a, k.b))
                } else {
                    return None;
                }
            }
            _ => return None,
        }
    }
    let mut terms: Vec<E> = vec![];
    for (a, b) in eqs.iter().chain(nes.iter()) {
        terms.push(*a);
        terms.push(*b);
    }
    terms.sort_unstable();
    terms.dedup();
    let ix = |e: E| terms.binary_search(&e).unwrap();
    let mut p: Vec<usize> = (0..terms.len()).collect();
    fn find(p: &mut Vec<usize>, mut x: usize) -> usize {
        while p[x] != x {
            p[x] = p[p[x]];
            x = p[x];
        }
        x
    }
    for (a, b) in &eqs {
        let (x, y) = (find(&mut p, ix(*a)), find(&mut p, ix(*b)));
        p[x] = y;
    }
    for (a, b) in &nes {
        if find(&mut p, ix(*a)) == find(&mut p, ix(*b)) {
            return Some(None);
        }
    }
    let mut val: Vec<Option<u64>> = vec![None; terms.len()];
    let mut used: Vec<u64> = vec![];
    for (i, t) in terms.iter().enumerate() {
        if let Some(c) = ar.as_const(*t) {
            let r = find(&mut p, i);
            if let Some(o) = val[r] {
                if o != c as u64 {
                    return Some(None);
                }
            }
            val[r] = Some(c as u64);
            used.push(c as u64);
        }
    }
    let mut next = 1u64;
    let mut m: Vec<u64> = vec![];
    for (i, t) in terms.iter().enumerate() {
        let n = ar.n(*t);
        if n.op != Op::Var {
            continue;
        }
        let r = find(&mut p, i);
        if val[r].is_none() {
            while used.contains(&next) {
                next += 1
            }
            val[r] = Some(next);
            next += 1;
        }
        let v = n.imm as usize;
        if m.len() <= v {
            m.resize(v + 1, 0)
        }
        m[v] = val[r].unwrap();
    }
    Some(Some(Rc::new(m)))
}
