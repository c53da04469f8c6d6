//! Symbolic executor.
use crate::expr::*;
use crate::fs::Fs;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Marker {
    pub mem: Mem,
    pub sp: u64,
    pub fds: usize,
    pub par: bool,
}

/// a suspended process
#[derive(Clone)]
pub struct Ctx {
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub mem: Mem,
    pub sp: u64,
    pub exc: u64,
    pub fds: Vec<Option<crate::fs::Fd>>,
    pub out: Rc<Vec<(u8, E, u8)>>,
    pub granted: bool,
}
/// two processes that take turns at system calls
#[derive(Clone)]
pub struct Par {
    pub parent: Ctx,
    pub cur: usize,
    pub other: Option<Ctx>,
    pub granted: bool,
    pub switches: u32,
    pub codes: [u64; 2],
    pub outs: [Rc<Vec<(u8, E, u8)>>; 2],
    pub res: u64,
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub base: u32,
    pub d: u32,
    pub nret: u32,
    pub unwind: Option<Rc<(Edge, Edge)>>,
    pub sp: u64,
    pub marker: Option<Rc<Marker>>,
}

#[derive(Clone, Copy)]
pub struct Input {
    /// 0: an input of the harness; otherwise a decision of the modelled environment
    pub env: u8,
    pub w: u8,
    pub e: Val,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub mem: Mem,
    pub sp: u64,
    pub pcs: Vec<E>,
    pub known: FxSet<E>,
    pub subst: FxMap<u32, E>,
    pub model: Model,
    pub inputs: Vec<Input>,
    pub notes: Vec<(u64, Val)>,
    pub out: Rc<Vec<(u8, E, u8)>>,
    pub fs: Rc<Fs>,
    pub insts: u64,
    pub exc: u64,
    pub panic_loc: Rc<str>,
    pub cover: u64,
    pub faults: u32,
    /// file removals do not fail (so that a lock can be released)
    pub spare: bool,
    pub crashes: u32,
    pub depth: u32,
    pub limit: u64,
    pub fresh: u32,
    pub io_n: u32,
    pub io_log: Vec<(u32, u32)>,
    pub par: Option<Rc<Par>>,
    pub par_outs: [Rc<Vec<(u8, E, u8)>>; 2],
    pub sched: Vec<u8>,
}

#[derive(Debug)]
pub enum End {
    Done,
    Assumed,
    Panic(String),
    Abort(String),
    Budget,
    Exit(i32),
    Engine(String),
    Unknown,
    ViolationOnly,
}

pub enum X {
    Ret(Val),
    Void,
    /// a frame was pushed or control changed; do not advance
    Jump,
    End(End),
}

pub type ExtFn = fn(&mut Eng, &mut State, &[Val], u8) -> X;

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<u64>,
    pub io: Vec<(u32, u32)>,
    pub sched: Vec<u8>,
    pub loc: String,
}

pub struct Eng {
    pub m: Module,
    pub ar: Arena,
    pub sol: Solver,
    pub funcs: Vec<Option<&'static Func>>,
    pub ext: Vec<Option<ExtFn>>,
    pub work: Vec<State>,
    pub total_insts: u64,
    pub forks: u64,
    pub branches: u64,
    pub viols: Vec<Violation>,
    pub unknowns: u64,
    pub max_insts: u64,
    pub errno: u64,
    pub used: FxSet<u32>,
    pub trace: bool,
    pub asserts: u64,
    pub assert_sym: u64,
    pub path_assumed: u64,
    pub memo: FxMap<E, u128>,
    pub prof: FxMap<(u32, u32), u64>,
    pub profiling: bool,
    pub disp: Vec<u8>,
    pub disp_byval: Vec<bool>,
    pub pad_integral: Option<u32>,
    pub max_iteval: usize,
}

macro_rules! bad {
    ($($t:tt)*) => { return Err(End::Engine(format!($($t)*))) };
}

impl Eng {
    pub fn func(&mut self, id: u32) -> &'static Func {
        if let Some(f) = self.funcs[id as usize] {
            return f;
        }
        let f: &'static Func = Box::leak(Box::new(compile(&self.m, &mut self.ar, id)));
        self.funcs[id as usize] = Some(f);
        f
    }
    pub fn to_e(&mut self, v: Val, w: u8) -> E {
        match v {
            Val::I(x) => self.ar.cst(w, x as u128),
            Val::S(e) => e,
        }
    }
    pub fn norm(&self, e: E) -> Val {
        crate::mem::norm(&self.ar, e)
    }
    pub fn model_eval(&mut self, st: &State, e: E) -> u128 {
        self.memo.clear();
        let m = st.model.clone();
        let f = move |v: u32| m.get(v as usize).copied().unwrap_or(0) as u128;
        let mut memo = std::mem::take(&mut self.memo);
        let r = self.ar.eval(e, &f, &mut memo);
        self.memo = memo;
        r
    }
    pub fn simp(&mut self, st: &State, e: E) -> E {
        if st.subst.is_empty() {
            return e;
        }
        let mut memo = FxMap::default();
        self.ar.substitute(e, &st.subst, &mut memo)
    }
    pub fn add_constraint(&mut self, st: &mut State, c: E) {
        let n = *self.ar.n(c);
        if n.op == Op::Const {
            return;
        }
        if n.op == Op::And && n.w == 1 {
            self.add_constraint(st, n.a);
            self.add_constraint(st, n.b);
            return;
        }
        if n.op == Op::Not {
            let k = *self.ar.n(n.a);
            if k.op == Op::Or && k.w == 1 {
                let a = self.ar.not(k.a);
                let b = self.ar.not(k.b);
                self.add_constraint(st, a);
                self.add_constraint(st, b);
                return;
            }
        }
        if !st.known.insert(c) {
            return;
        }
        st.pcs.push(c);
        // equalities and literals become substitutions
        let mut sub: Option<(u32, E)> = None;
        if n.op == Op::Eq {
            let (na, nb) = (*self.ar.n(n.a), *self.ar.n(n.b));
            if na.op == Op::Var && nb.op == Op::Const {
                sub = Some((na.imm as u32, n.b));
            } else if nb.op == Op::Var && na.op == Op::Const {
                sub = Some((nb.imm as u32, n.a));
            } else if na.op == Op::Var && nb.op == Op::Var {
                sub = Some(if na.imm > nb.imm { (na.imm as u32, n.b) } else { (nb.imm as u32, n.a) });
            }
        } else if n.op == Op::Var {
            sub = Some((n.imm as u32, self.ar.t));
        } else if n.op == Op::Not && self.ar.n(n.a).op == Op::Var {
            sub = Some((self.ar.n(n.a).imm as u32, self.ar.f));
        }
        if let Some((v, by)) = sub {
            if st.subst.contains_key(&v) {
                return;
            }
            let mut one = FxMap::default();
            one.insert(v, by);
            let keys: Vec<u32> = st.subst.keys().copied().collect();
            for k in keys {
                let e = st.subst[&k];
                let mut memo = FxMap::default();
                let r = self.ar.substitute(e, &one, &mut memo);
                st.subst.insert(k, r);
            }
            st.subst.insert(v, by);
            let aff: Vec<E> = st.known.iter().copied().filter(|e| self.ar.vars(*e).contains(&v)).collect();
            for e in aff {
                let mut memo = FxMap::default();
                let r = self.ar.substitute(e, &one, &mut memo);
                if self.ar.as_const(r).is_none() {
                    st.known.insert(r);
                }
            }
        }
    }
    /// known truth value of a 1-bit expression on this path, without forking
    fn quick(&mut self, st: &State, c: E) -> (E, Option<bool>) {
        let (c, q) = self.quick0(st, c);
        if q.is_some() || matches!(self.ar.n(c).op, Op::Eq | Op::Var) {
            return (c, q);
        }
        // rewrite with every known fact
        let mut memo = FxMap::default();
        let r = self.with_known(st, c, &mut memo);
        if r == c {
            return (c, None);
        }
        if let Some(v) = self.ar.as_const(r) {
            return (r, Some(v == 1));
        }
        self.quick0(st, r)
    }
    fn with_known(&mut self, st: &State, e: E, memo: &mut FxMap<E, E>) -> E {
        if self.ar.vars(e).is_empty() {
            return e;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        if memo.len() > 3000 {
            return e;
        }
        let n = *self.ar.n(e);
        let r = if n.w == 1 && st.known.contains(&e) {
            self.ar.t
        } else if n.op == Op::Var {
            e
        } else {
            let neg = n.w == 1 && n.op != Op::Not && {
                let ne = self.ar.not(e);
                st.known.contains(&ne)
            };
            if neg {
                self.ar.f
            } else {
                let k = crate::expr::arity(n.op);
                let a = self.with_known(st, n.a, memo);
                let b = if k >= 2 { self.with_known(st, n.b, memo) } else { 0 };
                let c = if k >= 3 { self.with_known(st, n.c, memo) } else { 0 };
                self.ar.rebuild(n, a, b, c)
            }
        };
        memo.insert(e, r);
        r
    }
    fn quick0(&mut self, st: &State, c: E) -> (E, Option<bool>) {
        let c = self.simp(st, c);
        if let Some(v) = self.ar.as_const(c) {
            return (c, Some(v == 1));
        }
        if st.known.contains(&c) {
            return (c, Some(true));
        }
        let nc = self.ar.not(c);
        if st.known.contains(&nc) {
            return (c, Some(false));
        }
        (c, None)
    }
    /// (feasible true, feasible false) with models
    fn both(&mut self, st: &State, c: E) -> Result<(Option<Model>, Option<Model>), End> {
        let side = self.model_eval(st, c) == 1;
        let other = if side { self.ar.not(c) } else { c };
        let r = match self.sol.check(&mut self.ar, &st.pcs, other, &st.model) {
            Res::Sat(m) => Some(m),
            Res::Unsat => None,
            Res::Unknown => return Err(End::Unknown),
        };
        let me = Some(st.model.clone());
        Ok(if side { (me, r) } else { (r, me) })
    }
    /// Decide a condition; forks (the sibling re-executes the current instruction).
    pub fn decide(&mut self, st: &mut State, c: E) -> Result<bool, End> {
        let (c, q) = self.quick(st, c);
        if let Some(b) = q {
            return Ok(b);
        }
        self.branches += 1;
        let nc = self.ar.not(c);
        match self.both(st, c)? {
            (Some(mt), Some(mf)) => {
                self.forks += 1;
                let mut o = st.clone();
                o.model = mf;
                o.depth += 1;
                self.add_constraint(&mut o, nc);
                self.work.push(o);
                st.model = mt;
                st.depth += 1;
                self.add_constraint(st, c);
                Ok(true)
            }
            (Some(_), None) => {
                st.known.insert(c);
                Ok(true)
            }
            (None, Some(_)) => {
                st.known.insert(nc);
                Ok(false)
            }
            _ => Err(End::Engine("inconsistent path".into())),
        }
    }
    /// make a value concrete, forking over all feasible values
    pub fn conc(&mut self, st: &mut State, v: Val, w: u8) -> Result<u64, End> {
        match v {
            Val::I(x) => Ok(x),
            Val::S(e) => {
                let e = self.simp(st, e);
                if let Some(c) = self.ar.as_const(e) {
                    return Ok(c as u64);
                }
                let c = self.model_eval(st, e);
                let _ = w;
                let ew = self.ar.n(e).w;
                let k = self.ar.cst(ew, c);
                let eq = self.ar.eq(e, k);
                // the current model satisfies eq, so the sibling gets the disequality
                if self.decide(st, eq)? {
                    Ok(c as u64)
                } else {
                    Err(End::Engine(format!("conc w={} ew={} c={} e={} at {}", w, self.ar.n(e).w, c, self.ar.show(e, 4), self.backtrace(st))))
                }
            }
        }
    }
    pub fn assume(&mut self, st: &mut State, c: E) -> Result<(), End> {
        let (c, q) = self.quick(st, c);
        match q {
            Some(true) => return Ok(()),
            Some(false) => return Err(End::Assumed),
            None => {}
        }
        if self.model_eval(st, c) == 1 {
            self.add_constraint(st, c);
            return Ok(());
        }
        match self.sol.check(&mut self.ar, &st.pcs, c, &st.model) {
            Res::Sat(m) => {
                st.model = m;
                self.add_constraint(st, c);
                Ok(())
            }
            Res::Unsat => Err(End::Assumed),
            Res::Unknown => Err(End::Unknown),
        }
    }
    pub fn input_values(&mut self, st: &State) -> Vec<u64> {
        let ins = st.inputs.clone();
        ins.iter()
            .filter(|i| i.env == 0)
            .map(|i| match i.e {
                Val::I(x) => x,
                Val::S(e) => self.model_eval(st, e) as u64,
            })
            .collect()
    }
    pub fn assert(&mut self, st: &mut State, c: E, msg: String) -> Result<(), End> {
        self.asserts += 1;
        let (c, q) = self.quick(st, c);
        match q {
            Some(true) => return Ok(()),
            Some(false) => {
                self.violation(st, "assert", msg);
                return Err(End::ViolationOnly);
            }
            None => {}
        }
        self.assert_sym += 1;
        let (t, f) = self.both(st, c)?;
        if let Some(mf) = f {
            let keep = st.model.clone();
            st.model = mf;
            self.violation(st, "assert", msg);
            st.model = keep;
        }
        match t {
            Some(mt) => {
                st.model = mt;
                self.add_constraint(st, c);
                Ok(())
            }
            None => Err(End::ViolationOnly),
        }
    }
    pub fn violation(&mut self, st: &State, kind: &str, msg: String) {
        let inputs = self.input_values(st);
        let loc = st.panic_loc.to_string();
        let io = st.io_log.clone();
        self.viols.push(Violation { kind: kind.into(), msg, inputs, loc, io, sched: st.sched.clone() });
    }

    pub fn backtrace(&self, st: &State) -> String {
        let mut s = String::new();
        for f in st.frames.iter().rev().take(14) {
            s.push_str(&format!("\n    {} @{}", f.f.name, f.pc));
        }
        s
    }

    pub fn push_call(&mut self, st: &mut State, id: u32, args: &[Val], d: u32, nret: u32, unwind: Option<Rc<(Edge, Edge)>>, marker: Option<Rc<Marker>>) -> Result<(), End> {
        let f = self.func(id);
        self.used.insert(id);
        if st.frames.len() > 6000 {
            return Err(End::Abort("stack overflow (call depth > 6000)".into()));
        }
        let base = st.regs.len() as u32;
        st.regs.resize(base as usize + f.nregs as usize, Val::I(0));
        for (k, a) in args.iter().enumerate().take(f.nparams as usize) {
            st.regs[base as usize + k] = *a;
        }
        let sp = st.sp;
        st.frames.push(Frame { f, pc: 0, base, d, nret, unwind, sp, marker });
        Ok(())
    }

    /// locate the decimal formatting functions; unexpected signatures are left alone
    pub fn find_display(&mut self) {
        let n = self.m.funcs.len();
        self.disp = vec![0; n];
        self.disp_byval = vec![false; n];
        for id in 0..n {
            let f = &self.m.funcs[id];
            let (a, _) = match f.body {
                Some(b) => b,
                None => continue,
            };
            let text = self.m.text;
            let line = &text[a..a + text[a..].find('\n').unwrap_or(0)];
            let params = |line: &str| -> Vec<String> {
                // top-level comma-separated parameters after the function name
                let i = line.find(&f.name).map(|i| i + f.name.len()).unwrap_or(0);
                let b = line[i..].find('(').map(|k| i + k + 1).unwrap_or(line.len());
                let (mut dep, mut cur, mut out) = (0, String::new(), vec![]);
                for ch in line[b..].chars() {
                    match ch {
                        '(' => dep += 1,
                        ')' if dep == 0 => break,
                        ')' => dep -= 1,
                        ',' if dep == 0 => {
                            out.push(std::mem::take(&mut cur));
                            continue;
                        }
                        _ => {}
                    }
                    cur.push(ch);
                }
                out.push(cur);
                out.iter().map(|x| x.trim().split(' ').next().unwrap_or("").to_string()).collect()
            };
            if f.name.ends_with("9Formatter12pad_integral") && f.name.contains("4core3fmt") {
                let p = params(line);
                if p == ["ptr", "i1", "ptr", "i64", "ptr", "i64"] {
                    self.pad_integral = Some(id as u32);
                }
            }
            if f.name.contains("4core3fmt3num3imp") && f.name.ends_with("7Display3fmt") {
                let k = if f.name.contains("3impyNt") || f.name.contains("3impjNt") {
                    1
                } else if f.name.contains("3impxNt") || f.name.contains("3impiNt") {
                    2
                } else {
                    0
                };
                let p = params(line);
                if k != 0 && p.len() == 2 && p[1] == "ptr" && (p[0] == "ptr" || p[0] == "i64") {
                    self.disp[id] = k;
                    self.disp_byval[id] = p[0] == "i64";
                }
            }
        }
    }
    /// Decimal formatting of a symbolic integer (`<u64 as Display>::fmt` and friends), by its
    /// specification: fork on the number of digits, name the digits, and hand the digit string to
    /// `Formatter::pad_integral`.  Concrete values run the library's own code.
    fn display(&mut self, st: &mut State, id: u32, av: &[Val]) -> Result<Option<(u32, Vec<Val>)>, End> {
        let kind = self.disp[id as usize]; // 1 u64, 2 i64
        let pad = match self.pad_integral {
            Some(p) => p,
            None => return Ok(None),
        };
        if av.len() != 2 {
            return Ok(None);
        }
        let v = if self.disp_byval[id as usize] {
            av[0]
        } else {
            let a = match av[0] {
                Val::I(x) => x,
                _ => return Ok(None),
            };
            match st.mem.read(&mut self.ar, a, 64) {
                Ok(v) => v,
                Err(_) => return Ok(None),
            }
        };
        let v = match v {
            Val::S(e) => self.simp(st, e),
            _ => return Ok(None),
        };
        if self.ar.as_const(v).is_some() {
            return Ok(None);
        }
        let mut v = v;
        let mut nonneg = true;
        if kind == 2 {
            let z = self.ar.cst(64, 0);
            let c = self.ar.bin(Op::Slt, v, z);
            if self.decide(st, c)? {
                nonneg = false;
                v = self.ar.bin(Op::Sub, z, v);
            }
        }
        let mut nd = 1u32;
        let mut lim: u128 = 10;
        while nd < 20 {
            let k = self.ar.cst(64, lim);
            let c = self.ar.bin(Op::Ult, v, k);
            if self.decide(st, c)? {
                break;
            }
            nd += 1;
            lim *= 10;
        }
        let mv = self.model_eval(st, v);
        let buf = st.mem.malloc(nd as u64, 1);
        let mut sum = self.ar.cst(64, 0);
        let mut model = (*st.model).clone();
        let mut p10: u128 = 1;
        let ten = self.ar.cst(8, 10);
        let base = self.ar.cst(8, 0x30);
        for i in 0..nd {
            let d = self.ar.input_var(1_000_000 + st.fresh, 8);
            st.fresh += 1;
            let vid = self.ar.n(d).imm as usize;
            if model.len() <= vid {
                model.resize(vid + 1, 0);
            }
            model[vid] = ((mv / p10) % 10) as u64;
            let c = self.ar.bin(Op::Ult, d, ten);
            st.known.insert(c);
            st.pcs.push(c);
            if i == nd - 1 && nd > 1 {
                let z = self.ar.cst(8, 0);
                let c = self.ar.eq(d, z);
                let c = self.ar.not(c);
                st.known.insert(c);
                st.pcs.push(c);
            }
            let z = self.ar.zext(d, 64);
            let k = self.ar.cst(64, p10);
            let t = self.ar.bin(Op::Mul, z, k);
            sum = self.ar.bin(Op::Add, sum, t);
            p10 *= 10;
            let b = self.ar.bin(Op::Add, d, base);
            let bv = self.norm(b);
            let _ = st.mem.write(&mut self.ar, buf + (nd - 1 - i) as u64, 8, bv);
        }
        st.model = Rc::new(model);
        let c = self.ar.eq(v, sum);
        st.known.insert(c);
        st.pcs.push(c);
        Ok(Some((pad, vec![av[1], Val::I(nonneg as u64), Val::I(1), Val::I(0), Val::I(buf), Val::I(nd as u64)])))
    }

    /// return from the current frame with values
    pub fn do_ret(&mut self, st: &mut State, vals: &[Val]) -> Option<End> {
        let fr = st.frames.pop().unwrap();
        st.sp = fr.sp;
        st.regs.truncate(fr.base as usize);
        if st.frames.is_empty() {
            return Some(End::Done);
        }
        if let Some(mk) = &fr.marker {
            self.finish_run(st, mk.clone(), fr.d, 0);
            return None;
        }
        let cb = st.frames.last().unwrap().base;
        for k in 0..fr.nret as usize {
            st.regs[(cb + fr.d) as usize + k] = vals.get(k).copied().unwrap_or(Val::I(0));
        }
        match &fr.unwind {
            Some(e) => {
                let e = e.clone();
                take_edge(st, &e.0)
            }
            None => st.frames.last_mut().unwrap().pc += 1,
        }
        None
    }
    /// suspend the running process: everything above the first `nf` frames
    pub fn suspend(&mut self, st: &mut State, nf: usize, nr: usize, granted: bool) -> Ctx {
        let fds = Rc::make_mut(&mut st.fs).fds.clone();
        Ctx { frames: st.frames.split_off(nf), regs: st.regs.split_off(nr), mem: st.mem.clone(), sp: st.sp, exc: st.exc, fds, out: st.out.clone(), granted }
    }
    pub fn resume(&mut self, st: &mut State, c: Ctx) {
        st.frames.extend(c.frames);
        st.regs.extend(c.regs);
        st.mem = c.mem;
        st.sp = c.sp;
        st.exc = c.exc;
        Rc::make_mut(&mut st.fs).fds = c.fds;
        st.out = c.out;
    }
    fn par_finish(&mut self, st: &mut State, code: u64) {
        let mut par = st.par.take().unwrap();
        let p = Rc::make_mut(&mut par);
        p.codes[p.cur] = code;
        p.outs[p.cur] = st.out.clone();
        if let Some(o) = p.other.take() {
            p.granted = o.granted;
            p.cur = 1 - p.cur;
            self.resume(st, o);
            st.par = Some(par);
            return;
        }
        let parent = p.parent.clone();
        st.mem = parent.mem;
        st.sp = parent.sp;
        st.exc = parent.exc;
        Rc::make_mut(&mut st.fs).fds = parent.fds;
        st.out = parent.out;
        st.par_outs = p.outs.clone();
        let (c, res) = (p.codes, p.res);
        for k in 0..2 {
            let _ = st.mem.write(&mut self.ar, res + 8 * k as u64, 64, Val::I(c[k]));
        }
        st.frames.last_mut().unwrap().pc += 1;
    }
    fn finish_run(&mut self, st: &mut State, mk: Rc<Marker>, d: u32, code: u64) {
        if mk.par {
            return self.par_finish(st, code);
        }
        st.mem = mk.mem.clone();
        st.sp = mk.sp;
        Rc::make_mut(&mut st.fs).close_from(mk.fds);
        let fr = st.frames.last_mut().unwrap();
        st.regs[(fr.base + d) as usize] = Val::I(code);
        fr.pc += 1;
    }
    /// process-like termination: unwind to the nearest run marker without running destructors
    pub fn do_exit(&mut self, st: &mut State, code: u64) -> Option<End> {
        loop {
            let fr = match st.frames.pop() {
                Some(f) => f,
                None => return Some(End::Exit(code as i32)),
            };
            st.sp = fr.sp;
            st.regs.truncate(fr.base as usize);
            if let Some(mk) = fr.marker {
                if st.frames.is_empty() {
                    return Some(End::Exit(code as i32));
                }
                self.finish_run(st, mk, fr.d, code);
                return None;
            }
        }
    }
    /// continue unwinding out of the current frame
    pub fn do_unwind(&mut self, st: &mut State) -> Option<End> {
        loop {
            let fr = st.frames.pop().unwrap();
            st.sp = fr.sp;
            st.regs.truncate(fr.base as usize);
            if st.frames.is_empty() {
                return Some(End::Panic(st.panic_loc.to_string()));
            }
            if let Some(mk) = fr.marker {
                self.finish_run(st, mk, fr.d, 101);
                return None;
            }
            if let Some(e) = fr.unwind {
                take_edge(st, &e.1);
                return None;
            }
        }
    }

    pub fn load(&mut self, st: &mut State, a: Val, off: u64, w: u8) -> Result<Val, End> {
        match a {
            Val::I(x) => match st.mem.read(&mut self.ar, x.wrapping_add(off), w) {
                Ok(v) => Ok(v),
                Err(b) => bad!("bad read at {:#x}{}", b.0, self.backtrace(st)),
            },
            Val::S(e) => {
                let e = self.simp(st, e);
                if let Some(c) = self.ar.as_const(e) {
                    return self.load(st, Val::I(c as u64), off, w);
                }
                // enumerate the feasible addresses; beyond the cap, fork instead
                let mut pcs = st.pcs.clone();
                let mut model = st.model.clone();
                let mut vals: Vec<(E, Val)> = vec![];
                let cap = self.max_iteval;
                loop {
                    let mut memo = FxMap::default();
                    let mm = model.clone();
                    let c = self.ar.eval(e, &|v| mm.get(v as usize).copied().unwrap_or(0) as u128, &mut memo);
                    let k = self.ar.cst(64, c);
                    let eq = self.ar.eq(e, k);
                    let v = match st.mem.read(&mut self.ar, (c as u64).wrapping_add(off), w) {
                        Ok(v) => v,
                        Err(b) => bad!("bad symbolic read at {:#x}{}", b.0, self.backtrace(st)),
                    };
                    vals.push((eq, v));
                    if vals.len() > cap {
                        let c = self.conc(st, Val::S(e), 64)?;
                        return self.load(st, Val::I(c), off, w);
                    }
                    let ne = self.ar.not(eq);
                    match self.sol.check(&mut self.ar, &pcs, ne, &model) {
                        Res::Sat(m) => model = m,
                        Res::Unsat => break,
                        Res::Unknown => return Err(End::Unknown),
                    }
                    pcs.push(ne);
                }
                let (_, last) = vals.pop().unwrap();
                let mut r = self.to_e(last, w);
                for (c, v) in vals.into_iter().rev() {
                    let ve = self.to_e(v, w);
                    r = self.ar.ite(c, ve, r);
                }
                Ok(self.norm(r))
            }
        }
    }

    pub fn run(&mut self, st: &mut State) -> End {
        loop {
            match self.run_inner(st) {
                Ok(Some(e)) => return e,
                Ok(None) => {}
                Err(e) => return e,
            }
        }
    }

    /// executes until a control transfer that changes frames
    fn run_inner(&mut self, st: &mut State) -> Result<Option<End>, End> {
        let (f, base) = {
            let fr = st.frames.last().unwrap();
            (fr.f, fr.base as usize)
        };
        let mut pc = st.frames.last().unwrap().pc as usize;
        macro_rules! reg {
            ($r:expr) => {
                unsafe { *st.regs.get_unchecked(base + $r as usize) }
            };
        }
        macro_rules! set {
            ($r:expr, $v:expr) => {{
                let v = $v;
                unsafe { *st.regs.get_unchecked_mut(base + $r as usize) = v }
            }};
        }
        macro_rules! op {
            ($o:expr) => {
                match $o {
                    Opnd::R(r) => reg!(r),
                    Opnd::V(v) => v,
                }
            };
        }
        macro_rules! sync {
            () => {
                st.frames.last_mut().unwrap().pc = pc as u32
            };
        }
        let mut n: u64 = 0;
        macro_rules! edge {
            ($e:expr) => {{
                let e = $e;
                match e.copies.len() {
                    0 => {}
                    1 => {
                        let (d, o) = e.copies[0];
                        set!(d, op!(o))
                    }
                    2 => {
                        let (d0, o0) = e.copies[0];
                        let (d1, o1) = e.copies[1];
                        let v0 = op!(o0);
                        let v1 = op!(o1);
                        set!(d0, v0);
                        set!(d1, v1);
                    }
                    _ => {
                        let vals: Vec<Val> = e.copies.iter().map(|(_, o)| op!(*o)).collect();
                        for ((d, _), v) in e.copies.iter().zip(vals) {
                            set!(*d, v)
                        }
                    }
                }
                pc = e.pc as usize;
            }};
        }
        loop {
            n += 1;
            let ins = unsafe { f.code.get_unchecked(pc) };
            match ins {
                I::Bin(o, w, d, a, b) => {
                    let (x, y) = (op!(*a), op!(*b));
                    if let (Val::I(x), Val::I(y)) = (x, y) {
                        set!(*d, Val::I(cbin(*o, *w, x, y)));
                    } else {
                        let (ex, ey) = (self.to_e(x, *w), self.to_e(y, *w));
                        let r = self.ar.bin(*o, ex, ey);
                        set!(*d, self.norm(r));
                    }
                    pc += 1;
                }
                I::Icmp(p, w, d, a, b) => {
                    let (x, y) = (op!(*a), op!(*b));
                    if let (Val::I(x), Val::I(y)) = (x, y) {
                        set!(*d, Val::I(cicmp(*p, *w, x, y) as u64));
                    } else {
                        let mut r = self.sicmp(*p, *w, x, y);
                        if let Val::S(e) = r {
                            // facts of the path condition make the result concrete
                            if let (_, Some(b)) = self.quick0(st, e) {
                                r = Val::I(b as u64);
                            }
                        }
                        set!(*d, r);
                    }
                    pc += 1;
                }
                I::Mov(d, a) => {
                    set!(*d, op!(*a));
                    pc += 1;
                }
                I::GepC(d, a, off) => {
                    match op!(*a) {
                        Val::I(x) => set!(*d, Val::I(x.wrapping_add(*off as u64))),
                        Val::S(e) => {
                            let k = self.ar.cst(64, *off as u64 as u128);
                            let r = self.ar.bin(Op::Add, e, k);
                            set!(*d, self.norm(r))
                        }
                    }
                    pc += 1;
                }
                I::Gep1(d, a, i, scale, off) => {
                    match (op!(*a), op!(*i)) {
                        (Val::I(x), Val::I(y)) => set!(*d, Val::I(x.wrapping_add((y as i64).wrapping_mul(*scale) as u64).wrapping_add(*off as u64))),
                        (x, y) => {
                            let r = self.gep_sym(x, *off, &[(y, 64, *scale)]);
                            set!(*d, r)
                        }
                    }
                    pc += 1;
                }
                I::Gep(d, a, off, terms) => {
                    let t: Vec<(Val, u8, i64)> = terms.iter().map(|(o, w, s)| (op!(*o), *w, *s)).collect();
                    let r = self.gep_sym(op!(*a), *off, &t);
                    set!(*d, r);
                    pc += 1;
                }
                I::Load { d, a, off, w } => {
                    let av = op!(*a);
                    if let Val::I(x) = av {
                        let bytes = (*w as usize + 7) / 8;
                        if bytes <= 8 {
                            if let Ok(Some(v)) = st.mem.read_c(x.wrapping_add(*off as u64), bytes) {
                                set!(*d, Val::I(if *w < 64 { v & ((1u64 << *w) - 1) } else { v }));
                                pc += 1;
                                continue;
                            }
                        }
                    }
                    sync!();
                    let v = self.load(st, av, *off as u64, *w)?;
                    set!(*d, v);
                    pc += 1;
                }
                I::Store { v, a, off, w } => {
                    let x = match op!(*a) {
                        Val::I(x) => x,
                        s => {
                            sync!();
                            self.conc(st, s, 64)?
                        }
                    };
                    let vv = op!(*v);
                    if let Err(b) = st.mem.write(&mut self.ar, x.wrapping_add(*off as u64), *w, vv) {
                        sync!();
                        bad!("bad write at {:#x}{}", b.0, self.backtrace(st));
                    }
                    pc += 1;
                }
                I::Br(e) => {
                    edge!(e);
                }
                I::CondBr(c, a, b) => {
                    let v = match op!(*c) {
                        Val::I(x) => x != 0,
                        Val::S(e) => {
                            sync!();
                            if self.profiling {
                                let k = self.forks;
                                let r = self.decide(st, e)?;
                                if self.forks > k {
                                    *self.prof.entry((f.id, pc as u32)).or_default() += 1;
                                }
                                r
                            } else {
                                self.decide(st, e)?
                            }
                        }
                    };
                    if v {
                        edge!(a)
                    } else {
                        edge!(b)
                    }
                    if n > 4096 {
                        st.insts += n;
                        self.total_insts += n;
                        n = 0;
                        if st.insts > st.limit {
                            sync!();
                            return Err(End::Budget);
                        }
                    }
                }
                I::Switch(v, w, cases, def) => {
                    let x = match op!(*v) {
                        Val::I(x) => Some(x),
                        Val::S(e) => {
                            sync!();
                            let e = self.simp(st, e);
                            if let Some(c) = self.ar.as_const(e) {
                                Some(c as u64)
                            } else {
                                // decide case by case (each a fork)
                                let mut hit = None;
                                for (c, ed) in cases.iter() {
                                    let k = self.ar.cst(*w, *c as u128);
                                    let eq = self.ar.eq(e, k);
                                    if self.decide(st, eq)? {
                                        hit = Some(ed);
                                        break;
                                    }
                                }
                                match hit {
                                    Some(ed) => edge!(ed),
                                    None => edge!(def),
                                }
                                None
                            }
                        }
                    };
                    if let Some(x) = x {
                        let mut hit = def;
                        for (c, ed) in cases.iter() {
                            if *c == x {
                                hit = ed;
                                break;
                            }
                        }
                        edge!(hit)
                    }
                }
                I::Cast(c, fw, tw, d, a) => {
                    let v = op!(*a);
                    let r = match (c, v) {
                        (Cast::Trunc, Val::I(x)) => Val::I(x & mask(*tw) as u64),
                        (Cast::ZExt, Val::I(x)) if *tw <= 64 => Val::I(x),
                        (Cast::SExt, Val::I(x)) if *tw <= 64 => Val::I((sext(x as u128, *fw) as u64) & mask(*tw) as u64),
                        (Cast::Trunc, Val::S(e)) => {
                            let r = self.ar.extract(e, 0, *tw);
                            self.norm(r)
                        }
                        (Cast::ZExt, v) => {
                            let e = self.to_e(v, *fw);
                            let r = self.ar.zext(e, *tw);
                            self.norm(r)
                        }
                        (Cast::SExt, v) => {
                            let e = self.to_e(v, *fw);
                            let r = self.ar.sext(e, *tw);
                            self.norm(r)
                        }
                        (Cast::UiToFp | Cast::SiToFp, Val::S(e)) if *fw <= 64 => {
                            let r = self.int_to_fp(e, *fw, *tw, *c == Cast::SiToFp);
                            self.norm(r)
                        }
                        (c, v) => {
                            sync!();
                            let x = self.conc(st, v, *fw)?;
                            Val::I(fcast(*c, *fw, *tw, x))
                        }
                    };
                    set!(*d, r);
                    pc += 1;
                }
                I::Select(d, c, a, b, w) => {
                    match op!(*c) {
                        Val::I(x) => set!(*d, if x != 0 { op!(*a) } else { op!(*b) }),
                        Val::S(e) => {
                            let (x, y) = (op!(*a), op!(*b));
                            if x == y {
                                set!(*d, x)
                            } else {
                                let (e, q) = self.quick(st, e);
                                match q {
                                    Some(true) => set!(*d, x),
                                    Some(false) => set!(*d, y),
                                    None => {
                                        if *w == 255 {
                                            sync!();
                                            let b = self.decide(st, e)?;
                                            set!(*d, if b { x } else { y })
                                        } else {
                                            let (ex, ey) = (self.to_e(x, *w), self.to_e(y, *w));
                                            let r = self.ar.ite(e, ex, ey);
                                            set!(*d, self.norm(r))
                                        }
                                    }
                                }
                            }
                        }
                    }
                    pc += 1;
                }
                I::Alloca { d, n: cnt, size, align } => {
                    let k = match op!(*cnt) {
                        Val::I(x) => x,
                        s => {
                            sync!();
                            self.conc(st, s, 64)?
                        }
                    };
                    let a = align_up(st.sp, (*align).max(8));
                    let sz = size * k;
                    st.sp = a + sz.max(1);
                    if st.sp > STACK_BASE + STACK_SIZE {
                        sync!();
                        return Err(End::Abort("stack overflow".into()));
                    }
                    st.mem.stack_ensure(a, sz.max(1));
                    set!(*d, Val::I(a));
                    pc += 1;
                }
                I::Call { d, nret, f: callee, args, unwind, retw } => {
                    sync!();
                    st.insts += n;
                    self.total_insts += n;
                    if st.insts > st.limit {
                        return Err(End::Budget);
                    }
                    let id = match callee {
                        Callee::Fn(id) => *id,
                        Callee::Ptr(o) => {
                            let a = match op!(*o) {
                                Val::I(x) => x,
                                s => self.conc(st, s, 64)?,
                            };
                            if a < FUNC_BASE + 16 || (a - FUNC_BASE) % 16 != 0 || (a - FUNC_BASE) / 16 > self.m.funcs.len() as u64 {
                                bad!("bad indirect call {:#x}{}", a, self.backtrace(st));
                            }
                            ((a - FUNC_BASE) / 16 - 1) as u32
                        }
                    };
                    let mut buf = [Val::I(0); 16];
                    let vbuf: Vec<Val>;
                    let av: &[Val] = if args.len() <= 16 {
                        for (k, o) in args.iter().enumerate() {
                            buf[k] = op!(*o)
                        }
                        &buf[..args.len()]
                    } else {
                        vbuf = args.iter().map(|o| op!(*o)).collect();
                        &vbuf
                    };
                    if self.disp[id as usize] != 0 {
                        sync!();
                        if let Some((pid, pargs)) = self.display(st, id, av)? {
                            self.push_call(st, pid, &pargs, *d, *nret, unwind.clone(), None)?;
                            return Ok(None);
                        }
                    }
                    if let Some(ef) = self.ext[id as usize] {
                        match ef(self, st, av, *retw) {
                            X::Ret(v) => {
                                if *nret > 0 {
                                    set!(*d, v)
                                }
                                match unwind {
                                    Some(e) => edge!(&e.0),
                                    None => pc += 1,
                                }
                                n = 0;
                                continue;
                            }
                            X::Void => {
                                match unwind {
                                    Some(e) => edge!(&e.0),
                                    None => pc += 1,
                                }
                                n = 0;
                                continue;
                            }
                            X::Jump => return Ok(None),
                            X::End(e) => return Ok(Some(e)),
                        }
                    }
                    if self.m.funcs[id as usize].body.is_none() {
                        bad!("unmodelled external function {}{}", self.m.funcs[id as usize].name, self.backtrace(st));
                    }
                    self.push_call(st, id, av, *d, *nret, unwind.clone(), None)?;
                    return Ok(None);
                }
                I::Ret(v) => {
                    let mut buf = [Val::I(0); 8];
                    st.insts += n;
                    self.total_insts += n;
                    if v.len() <= 8 {
                        for (k, o) in v.iter().enumerate() {
                            buf[k] = op!(*o)
                        }
                        return Ok(self.do_ret(st, &buf[..v.len()]));
                    }
                    let vals: Vec<Val> = v.iter().map(|o| op!(*o)).collect();
                    return Ok(self.do_ret(st, &vals));
                }
                I::Intr { k, w, w2, d, args } => {
                    let a = [op!(args[0]), op!(args[1]), op!(args[2])];
                    sync!();
                    self.intr(st, *k, *w, *w2, base as u32 + d, a)?;
                    pc += 1;
                }
                I::MemCpy(d, s, len) => {
                    sync!();
                    let l = self.conc(st, op!(*len), 64)?;
                    if l > 0 {
                        let dd = self.conc(st, op!(*d), 64)?;
                        let ss = self.conc(st, op!(*s), 64)?;
                        if let Err(b) = st.mem.copy(dd, ss, l) {
                            bad!("bad memcpy at {:#x}{}", b.0, self.backtrace(st));
                        }
                    }
                    n += l / 16;
                    pc += 1;
                }
                I::MemSet(d, v, len) => {
                    sync!();
                    let l = self.conc(st, op!(*len), 64)?;
                    if l > 0 {
                        let dd = self.conc(st, op!(*d), 64)?;
                        let v = op!(*v);
                        for k in 0..l {
                            if let Err(b) = st.mem.write(&mut self.ar, dd + k, 8, v) {
                                bad!("bad memset at {:#x}{}", b.0, self.backtrace(st));
                            }
                        }
                    }
                    n += l / 4;
                    pc += 1;
                }
                I::Unreachable => {
                    sync!();
                    return Err(End::Abort(format!("unreachable{}", self.backtrace(st))));
                }
                I::Resume(a, _) => {
                    if let Val::I(x) = op!(*a) {
                        st.exc = x
                    }
                    return Ok(self.do_unwind(st));
                }
                I::LandingPad { d, catch } => {
                    set!(*d, Val::I(st.exc));
                    set!(*d + 1, Val::I(*catch as u64));
                    pc += 1;
                }
                I::Rmw { d, op: o, a, v, w } => {
                    sync!();
                    let addr = self.conc(st, op!(*a), 64)?;
                    let old = self.load(st, Val::I(addr), 0, *w)?;
                    let vv = op!(*v);
                    let new = match o {
                        Rmw::Xchg => vv,
                        _ => {
                            let (x, y) = (self.to_e(old, *w), self.to_e(vv, *w));
                            let r = match o {
                                Rmw::Add => self.ar.bin(Op::Add, x, y),
                                Rmw::Sub => self.ar.bin(Op::Sub, x, y),
                                Rmw::And => self.ar.bin(Op::And, x, y),
                                Rmw::Or => self.ar.bin(Op::Or, x, y),
                                Rmw::Xor => self.ar.bin(Op::Xor, x, y),
                                Rmw::Nand => {
                                    let t = self.ar.bin(Op::And, x, y);
                                    self.ar.not(t)
                                }
                                Rmw::UMax => {
                                    let c = self.ar.bin(Op::Ult, x, y);
                                    self.ar.ite(c, y, x)
                                }
                                Rmw::UMin => {
                                    let c = self.ar.bin(Op::Ult, x, y);
                                    self.ar.ite(c, x, y)
                                }
                                Rmw::Max => {
                                    let c = self.ar.bin(Op::Slt, x, y);
                                    self.ar.ite(c, y, x)
                                }
                                Rmw::Min => {
                                    let c = self.ar.bin(Op::Slt, x, y);
                                    self.ar.ite(c, x, y)
                                }
                                Rmw::Xchg => unreachable!(),
                            };
                            self.norm(r)
                        }
                    };
                    if let Err(b) = st.mem.write(&mut self.ar, addr, *w, new) {
                        bad!("bad rmw at {:#x}", b.0);
                    }
                    set!(*d, old);
                    pc += 1;
                }
                I::CmpXchg { d, a, c, n: nv, w } => {
                    sync!();
                    let addr = self.conc(st, op!(*a), 64)?;
                    let old = self.load(st, Val::I(addr), 0, *w)?;
                    let cv = op!(*c);
                    let eq = match (old, cv) {
                        (Val::I(x), Val::I(y)) => x == y,
                        _ => {
                            let (x, y) = (self.to_e(old, *w), self.to_e(cv, *w));
                            let e = self.ar.eq(x, y);
                            self.decide(st, e)?
                        }
                    };
                    if eq {
                        let v = op!(*nv);
                        if let Err(b) = st.mem.write(&mut self.ar, addr, *w, v) {
                            bad!("bad cmpxchg at {:#x}", b.0);
                        }
                    }
                    set!(*d, old);
                    set!(*d + 1, Val::I(eq as u64));
                    pc += 1;
                }
                I::FBin(o, w, d, a, b) => {
                    sync!();
                    let x = self.conc(st, op!(*a), *w)?;
                    let y = self.conc(st, op!(*b), *w)?;
                    set!(*d, Val::I(fbin(*o, *w, x, y)));
                    pc += 1;
                }
                I::FCmp(p, w, d, a, b) => {
                    sync!();
                    let (va, vb) = (op!(*a), op!(*b));
                    if matches!(va, Val::S(_)) || matches!(vb, Val::S(_)) {
                        let (x, y) = (self.to_e(va, *w), self.to_e(vb, *w));
                        let r = self.fcmp(FPREDS[*p as usize], x, y, *w);
                        set!(*d, self.norm(r));
                        pc += 1;
                        continue;
                    }
                    let x = self.conc(st, op!(*a), *w)?;
                    let y = self.conc(st, op!(*b), *w)?;
                    let (x, y) = (tof(*w, x), tof(*w, y));
                    let un = x.is_nan() || y.is_nan();
                    let r = match FPREDS[*p as usize] {
                        "false" => false,
                        "oeq" => !un && x == y,
                        "ogt" => !un && x > y,
                        "oge" => !un && x >= y,
                        "olt" => !un && x < y,
                        "ole" => !un && x <= y,
                        "one" => !un && x != y,
                        "ord" => !un,
                        "ueq" => un || x == y,
                        "ugt" => un || x > y,
                        "uge" => un || x >= y,
                        "ult" => un || x < y,
                        "ule" => un || x <= y,
                        "une" => un || x != y,
                        "uno" => un,
                        _ => true,
                    };
                    set!(*d, Val::I(r as u64));
                    pc += 1;
                }
                I::PMovMskB(d, v) => {
                    let mut acc: u64 = 0;
                    let mut sym: Option<E> = None;
                    for (k, o) in v.iter().enumerate() {
                        match op!(*o) {
                            Val::I(x) => acc |= (x >> 7 & 1) << k,
                            Val::S(e) => {
                                let b = self.ar.extract(e, 7, 1);
                                let z = self.ar.zext(b, 32);
                                let sh = self.ar.cst(32, k as u128);
                                let z = self.ar.bin(Op::Shl, z, sh);
                                sym = Some(match sym {
                                    None => z,
                                    Some(s) => self.ar.bin(Op::Or, s, z),
                                });
                            }
                        }
                    }
                    let r = match sym {
                        None => Val::I(acc),
                        Some(s) => {
                            let k = self.ar.cst(32, acc as u128);
                            let r = self.ar.bin(Op::Or, s, k);
                            self.norm(r)
                        }
                    };
                    set!(*d, r);
                    pc += 1;
                }
                I::ExtractDyn { d, v, idx } => {
                    sync!();
                    let i = self.conc(st, op!(*idx), 64)?;
                    set!(*d, op!(v[i as usize % v.len()]));
                    pc += 1;
                }
                I::LoadRelative(d, p, o) => {
                    sync!();
                    let a = self.conc(st, op!(*p), 64)?;
                    let off = self.conc(st, op!(*o), 64)?;
                    let r = self.load(st, Val::I(a.wrapping_add(off)), 0, 32)?;
                    let r = self.conc(st, r, 32)?;
                    set!(*d, Val::I(a.wrapping_add(r as u32 as i32 as i64 as u64)));
                    pc += 1;
                }
                I::Nop | I::Expect(_) => pc += 1,
                I::Bad(s) => {
                    sync!();
                    if &**s == "trap" {
                        return Err(End::Abort(format!("trap{}", self.backtrace(st))));
                    }
                    bad!("unsupported instruction {}{}", s, self.backtrace(st));
                }
            }
        }
    }

    fn gep_sym(&mut self, a: Val, off: i64, terms: &[(Val, u8, i64)]) -> Val {
        let mut acc = off as u64;
        let mut e: Option<E> = None;
        let add = |s: &mut Self, e: Option<E>, x: E| {
            Some(match e {
                None => x,
                Some(y) => s.ar.bin(Op::Add, y, x),
            })
        };
        match a {
            Val::I(x) => acc = acc.wrapping_add(x),
            Val::S(x) => e = add(self, e, x),
        }
        for (v, w, s) in terms {
            match v {
                Val::I(x) => acc = acc.wrapping_add((sext(*x as u128, *w) as i64).wrapping_mul(*s) as u64),
                Val::S(x) => {
                    let x64 = if *w < 64 {
                        self.ar.sext(*x, 64)
                    } else if *w > 64 {
                        self.ar.extract(*x, 0, 64)
                    } else {
                        *x
                    };
                    let k = self.ar.cst(64, *s as u64 as u128);
                    let p = self.ar.bin(Op::Mul, x64, k);
                    e = add(self, e, p);
                }
            }
        }
        match e {
            None => Val::I(acc),
            Some(e) => {
                let k = self.ar.cst(64, acc as u128);
                let r = self.ar.bin(Op::Add, e, k);
                self.norm(r)
            }
        }
    }
    fn sicmp(&mut self, p: Pred, w: u8, x: Val, y: Val) -> Val {
        let (a, b) = (self.to_e(x, w), self.to_e(y, w));
        let r = match p {
            Pred::Eq => self.ar.eq(a, b),
            Pred::Ne => {
                let e = self.ar.eq(a, b);
                self.ar.not(e)
            }
            Pred::Ult => self.ar.bin(Op::Ult, a, b),
            Pred::Ugt => self.ar.bin(Op::Ult, b, a),
            Pred::Ule => self.ar.bin(Op::Ule, a, b),
            Pred::Uge => self.ar.bin(Op::Ule, b, a),
            Pred::Slt => self.ar.bin(Op::Slt, a, b),
            Pred::Sgt => self.ar.bin(Op::Slt, b, a),
            Pred::Sle => self.ar.bin(Op::Sle, a, b),
            Pred::Sge => self.ar.bin(Op::Sle, b, a),
        };
        self.norm(r)
    }
    /// the bits of the float nearest to an integer (ties to even)
    fn int_to_fp(&mut self, e: E, w: u8, tw: u8, signed: bool) -> E {
        crate::solver::HEAVY.store(true, std::sync::atomic::Ordering::Relaxed);
        let p: u8 = if tw == 32 { 24 } else { 53 };
        let bias: u128 = if tw == 32 { 127 } else { 1023 };
        let ar = &mut self.ar;
        let zero = ar.cst(w, 0);
        let (x, neg) = if signed {
            let n = ar.bin(Op::Slt, e, zero);
            let m = ar.bin(Op::Sub, zero, e);
            (ar.ite(n, m, e), Some(n))
        } else {
            (e, None)
        };
        // shift the leading one to the top
        let mut m = ar.zext(x, 64);
        let mut lz = ar.cst(tw, 0);
        for s in [32u8, 16, 8, 4, 2, 1] {
            let top = ar.extract(m, 64 - s, s);
            let z = ar.cst(s, 0);
            let c = ar.eq(top, z);
            let k = ar.cst(64, s as u128);
            let sh = ar.bin(Op::Shl, m, k);
            m = ar.ite(c, sh, m);
            let k = ar.cst(tw, s as u128);
            let zk = ar.cst(tw, 0);
            let k = ar.ite(c, k, zk);
            lz = ar.bin(Op::Or, lz, k);
        }
        let ex = ar.cst(tw, bias + 63);
        let ex = ar.bin(Op::Sub, ex, lz);
        let sh = ar.cst(tw, (p - 1) as u128);
        let ex = ar.bin(Op::Shl, ex, sh);
        let q = ar.extract(m, 64 - p, p - 1);
        let q = ar.zext(q, tw);
        let r = ar.bin(Op::Or, ex, q);
        let half = ar.extract(m, 63 - p, 1);
        let odd = ar.extract(m, 64 - p, 1);
        let low = ar.extract(m, 0, 63 - p);
        let z = ar.cst(63 - p, 0);
        let eq = ar.eq(low, z);
        let ne = ar.not(eq);
        let rest = ar.bin(Op::Or, ne, odd);
        let up = ar.bin(Op::And, half, rest);
        let up = ar.zext(up, tw);
        let r = ar.bin(Op::Add, r, up);
        let none = ar.eq(x, zero);
        let zt = ar.cst(tw, 0);
        let mut r = ar.ite(none, zt, r);
        if let Some(n) = neg {
            let s = ar.cst(tw, 1u128 << (tw - 1));
            let m = ar.bin(Op::Or, r, s);
            r = ar.ite(n, m, r);
        }
        r
    }
    fn fcmp(&mut self, pred: &str, x: E, y: E, w: u8) -> E {
        let ar = &mut self.ar;
        let inf: u128 = if w == 32 { 0xff << 23 } else { 0x7ff << 52 };
        let zero = ar.cst(w, 0);
        let mut un = ar.cst(1, 0);
        let mut k = [zero; 2];
        for (i, e) in [x, y].into_iter().enumerate() {
            let m = ar.cst(w, (1u128 << (w - 1)) - 1);
            let mag = ar.bin(Op::And, e, m);
            let infc = ar.cst(w, inf);
            let nan = ar.bin(Op::Ult, infc, mag);
            un = ar.bin(Op::Or, un, nan);
            let neg = ar.bin(Op::Slt, e, zero);
            let nm = ar.bin(Op::Sub, zero, mag);
            k[i] = ar.ite(neg, nm, mag);
        }
        let lt = ar.bin(Op::Slt, k[0], k[1]);
        let gt = ar.bin(Op::Slt, k[1], k[0]);
        let eq = ar.eq(k[0], k[1]);
        let nl = ar.not(lt);
        let ng = ar.not(gt);
        let ne = ar.not(eq);
        let t = ar.cst(1, 1);
        let c = match &pred[1..] {
            "eq" => eq,
            "gt" => gt,
            "ge" => nl,
            "lt" => lt,
            "le" => ng,
            "ne" => ne,
            _ => t,
        };
        match pred {
            "false" => ar.cst(1, 0),
            "true" => t,
            "uno" => un,
            "ord" => ar.not(un),
            _ if pred.starts_with('o') => {
                let o = ar.not(un);
                ar.bin(Op::And, o, c)
            }
            _ => ar.bin(Op::Or, un, c),
        }
    }
    fn intr(&mut self, st: &mut State, k: Intr, w: u8, w2: u8, d: u32, a: [Val; 3]) -> Result<(), End> {
        let d = d as usize;
        let m = mask(w);
        use Intr::*;
        // floating point: concrete only
        if matches!(k, FAbs | FFloor | FCeil | FTrunc | FRint | FSqrt | FMa | FCopySign | FpToUiSat | FpToSiSat | FMin | FMax) {
            let x = self.conc(st, a[0], w)?;
            let fx = tof(w, x);
            let r = match k {
                FAbs => fx.abs(),
                FFloor => fx.floor(),
                FCeil => fx.ceil(),
                FTrunc => fx.trunc(),
                FRint => fx.round_ties_even(),
                FSqrt => fx.sqrt(),
                FMa => {
                    let y = self.conc(st, a[1], w)?;
                    let z = self.conc(st, a[2], w)?;
                    fx.mul_add(tof(w, y), tof(w, z))
                }
                FMin | FMax | FCopySign => {
                    let y = self.conc(st, a[1], w)?;
                    match k {
                        FMin => fx.min(tof(w, y)),
                        FMax => fx.max(tof(w, y)),
                        _ => fx.copysign(tof(w, y)),
                    }
                }
                FpToUiSat => {
                    st.regs[d] = Val::I(if w2 == 64 { fx as u64 } else if w2 == 32 { fx as u32 as u64 } else if w2 == 16 { fx as u16 as u64 } else { fx as u8 as u64 });
                    return Ok(());
                }
                FpToSiSat => {
                    st.regs[d] = Val::I(if w2 == 64 { fx as i64 as u64 } else if w2 == 32 { fx as i32 as u32 as u64 } else { fx as i16 as u16 as u64 });
                    return Ok(());
                }
                _ => unreachable!(),
            };
            st.regs[d] = Val::I(fromf(w, r));
            return Ok(());
        }
        let conc = w <= 64 && matches!(a[0], Val::I(_)) && matches!(a[1], Val::I(_)) && matches!(a[2], Val::I(_));
        if conc {
            let g = |v: Val| match v {
                Val::I(x) => x as u128,
                _ => 0,
            };
            let (x, y, z) = (g(a[0]), g(a[1]), g(a[2]));
            let (sx, sy) = (sext(x, w), sext(y, w));
            let smin = -(1i128 << (w - 1));
            let smax = (1i128 << (w - 1)) - 1;
            let mut ov = None;
            let r: u128 = match k {
                UMin => x.min(y),
                UMax => x.max(y),
                SMin => sx.min(sy) as u128,
                SMax => sx.max(sy) as u128,
                Abs => sx.abs() as u128,
                CtPop => x.count_ones() as u128,
                CtLz => (x.leading_zeros() - (128 - w as u32)) as u128,
                CtTz => x.trailing_zeros().min(w as u32) as u128,
                BSwap => (x.swap_bytes()) >> (128 - w as u32),
                BitRev => x.reverse_bits() >> (128 - w as u32),
                FShl => {
                    let s = (z % w as u128) as u32;
                    if s == 0 {
                        x
                    } else {
                        (x << s) | (y >> (w as u32 - s))
                    }
                }
                FShr => {
                    let s = (z % w as u128) as u32;
                    if s == 0 {
                        y
                    } else {
                        (x << (w as u32 - s)) | (y >> s)
                    }
                }
                UAddSat => (x + y).min(m),
                USubSat => x.saturating_sub(y),
                SAddSat => (sx + sy).clamp(smin, smax) as u128,
                SSubSat => (sx - sy).clamp(smin, smax) as u128,
                UCmp => (x.cmp(&y) as i8) as i128 as u128,
                SCmp => (sx.cmp(&sy) as i8) as i128 as u128,
                AddO(s) => {
                    ov = Some(if s { !(smin..=smax).contains(&(sx + sy)) } else { x + y > m });
                    x.wrapping_add(y)
                }
                SubO(s) => {
                    ov = Some(if s { !(smin..=smax).contains(&(sx - sy)) } else { x < y });
                    x.wrapping_sub(y)
                }
                MulO(s) => {
                    ov = Some(if s { !(smin..=smax).contains(&(sx * sy)) } else { x * y > m });
                    x.wrapping_mul(y)
                }
                _ => unreachable!(),
            };
            let rm = if matches!(k, UCmp | SCmp) { mask(w2) } else { m };
            st.regs[d] = Val::I((r & rm) as u64);
            if let Some(o) = ov {
                st.regs[d + 1] = Val::I(o as u64);
            }
            return Ok(());
        }
        let (x, y) = (self.to_e(a[0], w), if matches!(k, CtPop | CtLz | CtTz | BSwap | BitRev | Abs) { 0 } else { self.to_e(a[1], w) });
        let ar = &mut self.ar;
        let r = match k {
            UMin => {
                let c = ar.bin(Op::Ult, x, y);
                ar.ite(c, x, y)
            }
            UMax => {
                let c = ar.bin(Op::Ult, x, y);
                ar.ite(c, y, x)
            }
            SMin => {
                let c = ar.bin(Op::Slt, x, y);
                ar.ite(c, x, y)
            }
            SMax => {
                let c = ar.bin(Op::Slt, x, y);
                ar.ite(c, y, x)
            }
            Abs => {
                let z = ar.cst(w, 0);
                let c = ar.bin(Op::Slt, x, z);
                let ng = ar.bin(Op::Sub, z, x);
                ar.ite(c, ng, x)
            }
            UCmp | SCmp => {
                let o = if k == UCmp { Op::Ult } else { Op::Slt };
                let lt = ar.bin(o, x, y);
                let eq = ar.eq(x, y);
                let m1 = ar.cst(w2, mask(w2));
                let z = ar.cst(w2, 0);
                let p1 = ar.cst(w2, 1);
                let t = ar.ite(eq, z, p1);
                ar.ite(lt, m1, t)
            }
            UAddSat => {
                let s = ar.bin(Op::Add, x, y);
                let c = ar.bin(Op::Ult, s, x);
                let mx = ar.cst(w, m);
                ar.ite(c, mx, s)
            }
            USubSat => {
                let s = ar.bin(Op::Sub, x, y);
                let c = ar.bin(Op::Ult, x, y);
                let z = ar.cst(w, 0);
                ar.ite(c, z, s)
            }
            BSwap => {
                let nb = w / 8;
                let mut acc = ar.extract(x, 0, 8);
                for i in 1..nb {
                    let b = ar.extract(x, i * 8, 8);
                    acc = ar.concat(acc, b);
                }
                acc
            }
            CtTz => {
                let mut acc = ar.cst(w, w as u128);
                for i in (0..w).rev() {
                    let b = ar.extract(x, i, 1);
                    let k = ar.cst(w, i as u128);
                    acc = ar.ite(b, k, acc);
                }
                acc
            }
            CtLz => {
                let mut acc = ar.cst(w, w as u128);
                for i in 0..w {
                    let b = ar.extract(x, i, 1);
                    let k = ar.cst(w, (w - 1 - i) as u128);
                    acc = ar.ite(b, k, acc);
                }
                acc
            }
            CtPop => {
                let mut acc = ar.cst(w, 0);
                for i in 0..w {
                    let b = ar.extract(x, i, 1);
                    let z = ar.zext(b, w);
                    acc = ar.bin(Op::Add, acc, z);
                }
                acc
            }
            FShl | FShr => {
                let s = self.conc(st, a[2], w)? % w as u64;
                let ar = &mut self.ar;
                if s == 0 {
                    if k == FShl {
                        x
                    } else {
                        y
                    }
                } else {
                    let (l, rr) = if k == FShl { (s, w as u64 - s) } else { (w as u64 - s, s) };
                    let kl = ar.cst(w, l as u128);
                    let kr = ar.cst(w, rr as u128);
                    let p = ar.bin(Op::Shl, x, kl);
                    let q = ar.bin(Op::LShr, y, kr);
                    ar.bin(Op::Or, p, q)
                }
            }
            AddO(s) | SubO(s) => {
                let add = matches!(k, AddO(_));
                let r = ar.bin(if add { Op::Add } else { Op::Sub }, x, y);
                let ov = if !s {
                    if add {
                        ar.bin(Op::Ult, r, x)
                    } else {
                        ar.bin(Op::Ult, x, y)
                    }
                } else {
                    let (sx, sy) = (ar.extract(x, w - 1, 1), ar.extract(y, w - 1, 1));
                    let sr = ar.extract(r, w - 1, 1);
                    let sy2 = if add { sy } else { ar.not(sy) };
                    let e1 = ar.eq(sx, sy2);
                    let e2 = ar.eq(sr, sx);
                    let n2 = ar.not(e2);
                    ar.bin(Op::And, e1, n2)
                };
                let o = self.norm(ov);
                st.regs[d + 1] = o;
                r
            }
            MulO(s) => {
                if w > 64 {
                    bad!("wide mul overflow");
                }
                // multiplication by a constant: exact bounds, no wide product
                let r = ar.bin(Op::Mul, x, y);
                let ov = match (ar.as_const(x), ar.as_const(y)) {
                    (_, Some(c)) | (Some(c), _) if !s => {
                        let v = if ar.as_const(y).is_some() { x } else { y };
                        if c == 0 {
                            ar.f
                        } else {
                            let lim = ar.cst(w, m / c);
                            ar.bin(Op::Ult, lim, v)
                        }
                    }
                    _ => {
                        let (wx, wy) = if s { (ar.sext(x, 2 * w), ar.sext(y, 2 * w)) } else { (ar.zext(x, 2 * w), ar.zext(y, 2 * w)) };
                        let p = ar.bin(Op::Mul, wx, wy);
                        let back = if s { ar.sext(r, 2 * w) } else { ar.zext(r, 2 * w) };
                        let e = ar.eq(p, back);
                        ar.not(e)
                    }
                };
                let o = self.norm(ov);
                st.regs[d + 1] = o;
                r
            }
            _ => bad!("symbolic intrinsic {:?}", k),
        };
        st.regs[d] = self.norm(r);
        Ok(())
    }
}

pub fn take_edge(st: &mut State, e: &Edge) {
    let base = st.frames.last().unwrap().base as usize;
    let vals: Vec<Val> = e
        .copies
        .iter()
        .map(|(_, o)| match o {
            Opnd::R(r) => st.regs[base + *r as usize],
            Opnd::V(v) => *v,
        })
        .collect();
    for ((d, _), v) in e.copies.iter().zip(vals) {
        st.regs[base + *d as usize] = v;
    }
    st.frames.last_mut().unwrap().pc = e.pc;
}

#[inline]
fn cbin(o: Op, w: u8, x: u64, y: u64) -> u64 {
    let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
    let sx = |v: u64| ((v << (64 - w as u32)) as i64) >> (64 - w as u32);
    let r = match o {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u64 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u64 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => (sx(x) >> y.min(w as u64 - 1)) as u64,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            if y == 0 {
                0
            } else {
                sx(x).wrapping_div(sx(y)) as u64
            }
        }
        Op::SRem => {
            if y == 0 {
                0
            } else {
                sx(x).wrapping_rem(sx(y)) as u64
            }
        }
        _ => unreachable!(),
    };
    r & m
}
#[inline]
fn cicmp(p: Pred, w: u8, x: u64, y: u64) -> bool {
    let sx = |v: u64| ((v << (64 - w as u32)) as i64) >> (64 - w as u32);
    match p {
        Pred::Eq => x == y,
        Pred::Ne => x != y,
        Pred::Ugt => x > y,
        Pred::Uge => x >= y,
        Pred::Ult => x < y,
        Pred::Ule => x <= y,
        Pred::Sgt => sx(x) > sx(y),
        Pred::Sge => sx(x) >= sx(y),
        Pred::Slt => sx(x) < sx(y),
        Pred::Sle => sx(x) <= sx(y),
    }
}
fn tof(w: u8, x: u64) -> f64 {
    if w == 32 {
        f32::from_bits(x as u32) as f64
    } else {
        f64::from_bits(x)
    }
}
fn fromf(w: u8, x: f64) -> u64 {
    if w == 32 {
        (x as f32).to_bits() as u64
    } else {
        x.to_bits()
    }
}
fn fbin(o: FOp, w: u8, x: u64, y: u64) -> u64 {
    if w == 32 {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        let r = match o {
            FOp::Add => a + b,
            FOp::Sub => a - b,
            FOp::Mul => a * b,
            FOp::Div => a / b,
            FOp::Rem => a % b,
            FOp::Neg => -a,
        };
        r.to_bits() as u64
    } else {
        let (a, b) = (f64::from_bits(x), f64::from_bits(y));
        let r = match o {
            FOp::Add => a + b,
            FOp::Sub => a - b,
            FOp::Mul => a * b,
            FOp::Div => a / b,
            FOp::Rem => a % b,
            FOp::Neg => -a,
        };
        r.to_bits()
    }
}
fn fcast(c: Cast, fw: u8, tw: u8, x: u64) -> u64 {
    match c {
        Cast::FpToUi => tof(fw, x) as u64 & mask(tw) as u64,
        Cast::FpToSi => tof(fw, x) as i64 as u64 & mask(tw) as u64,
        Cast::UiToFp => {
            if tw == 32 {
                (x as f32).to_bits() as u64
            } else {
                (x as f64).to_bits()
            }
        }
        Cast::SiToFp => {
            let v = sext(x as u128, fw) as i64;
            if tw == 32 {
                (v as f32).to_bits() as u64
            } else {
                (v as f64).to_bits()
            }
        }
        Cast::FpTrunc => (tof(64, x) as f32).to_bits() as u64,
        Cast::FpExt => tof(32, x).to_bits(),
        _ => unreachable!(),
    }
}
