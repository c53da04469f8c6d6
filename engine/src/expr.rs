//! Hash-consed bit-vector expressions (width 1..=128) with local simplification.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Not,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,  // a: high, b: low
    Extract, // a: source, imm: low bit
    ZExt,
    SExt,
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub imm: u128,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

#[derive(Default)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
}
pub type FxB = std::hash::BuildHasherDefault<FxH>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;
pub type FxSet<K> = std::collections::HashSet<K, FxB>;

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Node, E>,
    /// sorted variable lists, memoised per node (index into varsets)
    varset: Vec<u32>,
    pub varsets: Vec<Box<[u32]>>,
    vs_map: HashMap<Box<[u32]>, u32, FxB>,
    var_ids: FxMap<(u32, u8), u32>,
    pub var_ws: Vec<u8>,
    pub t: E,
    pub f: E,
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![],
            map: Default::default(),
            varset: vec![],
            varsets: vec![],
            vs_map: Default::default(),
            var_ids: Default::default(),
            var_ws: vec![],
            t: 0,
            f: 0,
        };
        a.varsets.push(Box::new([]));
        a.vs_map.insert(Box::new([]), 0);
        a.f = a.cst(1, 0);
        a.t = a.cst(1, 1);
        a
    }
    #[inline]
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::Const {
            Some(n.imm)
        } else {
            None
        }
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.map.insert(n, id);
        let vs = match n.op {
            Op::Const => 0,
            Op::Var => {
                let b: Box<[u32]> = Box::new([n.imm as u32]);
                self.intern_vs(b)
            }
            _ => {
                let mut r = self.varset[n.a as usize];
                if arity(n.op) >= 2 {
                    let y = self.varset[n.b as usize];
                    r = self.union_vs(r, y);
                }
                if arity(n.op) >= 3 {
                    let y = self.varset[n.c as usize];
                    r = self.union_vs(r, y);
                }
                r
            }
        };
        self.varset.push(vs);
        id
    }
    fn intern_vs(&mut self, b: Box<[u32]>) -> u32 {
        if let Some(i) = self.vs_map.get(&b) {
            return *i;
        }
        let i = self.varsets.len() as u32;
        self.varsets.push(b.clone());
        self.vs_map.insert(b, i);
        i
    }
    fn union_vs(&mut self, x: u32, y: u32) -> u32 {
        if x == y || y == 0 {
            return x;
        }
        if x == 0 {
            return y;
        }
        let a = &self.varsets[x as usize];
        let b = &self.varsets[y as usize];
        let mut r: Vec<u32> = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i] < b[j]) {
                r.push(a[i]);
                i += 1;
            } else if i >= a.len() || b[j] < a[i] {
                r.push(b[j]);
                j += 1;
            } else {
                r.push(a[i]);
                i += 1;
                j += 1;
            }
        }
        self.intern_vs(r.into_boxed_slice())
    }
    pub fn vars(&self, e: E) -> &[u32] {
        &self.varsets[self.varset[e as usize] as usize]
    }
    pub fn varset_id(&self, e: E) -> u32 {
        self.varset[e as usize]
    }

    /// the idx-th input of a path, of width w; variables are shared between paths
    pub fn input_var(&mut self, idx: u32, w: u8) -> E {
        let id = match self.var_ids.get(&(idx, w)) {
            Some(i) => *i,
            None => {
                let i = self.var_ws.len() as u32;
                self.var_ws.push(w);
                self.var_ids.insert((idx, w), i);
                i
            }
        };
        self.var(w, id)
    }
    pub fn var_w(&self, v: u32) -> u8 {
        self.var_ws[v as usize]
    }
    /// rebuild a node over new operands
    pub fn rebuild(&mut self, n: Node, a: E, b: E, c: E) -> E {
        match n.op {
            Op::Const | Op::Var => unreachable!(),
            Op::Not => self.not(a),
            Op::Extract => self.extract(a, n.imm as u8, n.w),
            Op::ZExt => self.zext(a, n.w),
            Op::SExt => self.sext(a, n.w),
            Op::Concat => self.concat(a, b),
            Op::Ite => self.ite(a, b, c),
            op => self.bin(op, a, b),
        }
    }
    pub fn substitute(&mut self, e: E, sub: &FxMap<u32, E>, memo: &mut FxMap<E, E>) -> E {
        if !self.vars(e).iter().any(|v| sub.contains_key(v)) {
            return e;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let n = *self.n(e);
        let r = if n.op == Op::Var {
            sub[&(n.imm as u32)]
        } else {
            let k = arity(n.op);
            let a = self.substitute(n.a, sub, memo);
            let b = if k >= 2 { self.substitute(n.b, sub, memo) } else { 0 };
            let c = if k >= 3 { self.substitute(n.c, sub, memo) } else { 0 };
            self.rebuild(n, a, b, c)
        };
        memo.insert(e, r);
        r
    }

    pub fn cst(&mut self, w: u8, v: u128) -> E {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, imm: v & mask(w) })
    }
    pub fn var(&mut self, w: u8, id: u32) -> E {
        self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, imm: id as u128 })
    }
    fn raw2(&mut self, op: Op, w: u8, a: E, b: E) -> E {
        self.mk(Node { op, w, a, b, c: 0, imm: 0 })
    }
    fn raw1(&mut self, op: Op, w: u8, a: E, imm: u128) -> E {
        self.mk(Node { op, w, a, b: 0, c: 0, imm })
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let m = mask(w);
        if let (Some(x), Some(y)) = (ca, cb) {
            let (rw, v) = fold(op, w, x, y);
            return self.cst(rw, v);
        }
        use Op::*;
        match op {
            Add => {
                if cb == Some(0) {
                    return a;
                }
                if ca.is_some() {
                    return self.bin(Add, b, a);
                }
                if let Some(y) = cb {
                    let n = *self.n(a);
                    if n.op == Add {
                        if let Some(z) = self.as_const(n.b) {
                            let k = self.cst(w, y.wrapping_add(z));
                            return self.bin(Add, n.a, k);
                        }
                    }
                    if n.op == Ite {
                        // push constant offsets into constant ite's
                        if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
                            let t = self.bin(Add, n.b, b);
                            let f = self.bin(Add, n.c, b);
                            return self.ite(n.a, t, f);
                        }
                    }
                }
                if a > b && cb.is_none() {
                    return self.raw2(Add, w, b, a);
                }
            }
            Sub => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(y) = cb {
                    let k = self.cst(w, y.wrapping_neg());
                    return self.bin(Add, a, k);
                }
                // (x + k) - x
                let n = *self.n(a);
                if n.op == Add {
                    if n.a == b {
                        return n.b;
                    }
                    if n.b == b {
                        return n.a;
                    }
                }
            }
            Mul => {
                if ca.is_some() {
                    return self.bin(Mul, b, a);
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(w, y.trailing_zeros() as u128);
                        return self.bin(Shl, a, k);
                    }
                }
            }
            UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(w, y.trailing_zeros() as u128);
                        return self.bin(LShr, a, k);
                    }
                }
            }
            URem => {
                if cb == Some(1) {
                    return self.cst(w, 0);
                }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(w, y - 1);
                        return self.bin(And, a, k);
                    }
                }
            }
            SDiv | SRem => {}
            And => {
                if ca.is_some() {
                    return self.bin(And, b, a);
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if a == b {
                    return a;
                }
                if w == 1 && self.is_neg(a, b) {
                    return self.f;
                }
                if let Some(y) = cb {
                    // mask of low bits
                    if (y & (y + 1)) == 0 && y != 0 {
                        let k = (128 - y.leading_zeros()) as u8;
                        let n = *self.n(a);
                        if n.op == ZExt && self.w(n.a) <= k {
                            return a;
                        }
                        let lo = self.extract(a, 0, k);
                        return self.zext(lo, w);
                    }
                    let n = *self.n(a);
                    if n.op == Ite && self.as_const(n.b).is_some() && self.as_const(n.c).is_some() {
                        let t = self.bin(And, n.b, b);
                        let f = self.bin(And, n.c, b);
                        return self.ite(n.a, t, f);
                    }
                    if n.op == ZExt {
                        // and(zext(x), k) = zext(and(x, trunc k))
                        let wi = self.w(n.a);
                        let k = self.cst(wi, y & mask(wi));
                        let r = self.bin(And, n.a, k);
                        return self.zext(r, w);
                    }
                }
                if a > b && cb.is_none() {
                    return self.bin(And, b, a);
                }
            }
            Or => {
                if ca.is_some() {
                    return self.bin(Or, b, a);
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if a == b {
                    return a;
                }
                if w == 1 && self.is_neg(a, b) {
                    return self.t;
                }
                if let Some(y) = cb {
                    // concat(x, 0) | k
                    let n = *self.n(a);
                    if n.op == Concat && self.as_const(n.b) == Some(0) {
                        let lw = self.w(n.b);
                        if y <= mask(lw) {
                            let k = self.cst(lw, y);
                            return self.concat(n.a, k);
                        }
                    }
                }
                if cb.is_none() {
                    // disjoint or: zext(x) | (y << k)  => concat
                    if let Some(r) = self.or_concat(a, b, w) {
                        return r;
                    }
                    if let Some(r) = self.or_concat(b, a, w) {
                        return r;
                    }
                    if a > b {
                        return self.bin(Or, b, a);
                    }
                }
            }
            Xor => {
                if ca.is_some() {
                    return self.bin(Xor, b, a);
                }
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.cst(w, 0);
                }
                if cb == Some(m) {
                    return self.not(a);
                }
                if w == 1 {
                    let e = self.eq(a, b);
                    return self.not(e);
                }
                if cb.is_none() && a > b {
                    return self.bin(Xor, b, a);
                }
            }
            Shl | LShr | AShr => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if y >= w as u128 {
                        if op != AShr {
                            return self.cst(w, 0);
                        }
                    } else {
                        let k = y as u8;
                        match op {
                            LShr => {
                                let hi = self.extract(a, k, w - k);
                                return self.zext(hi, w);
                            }
                            Shl => {
                                let lo = self.extract(a, 0, w - k);
                                let z = self.cst(k, 0);
                                return self.concat(lo, z);
                            }
                            _ => {
                                let hi = self.extract(a, k, w - k);
                                return self.sext(hi, w);
                            }
                        }
                    }
                }
            }
            Eq => return self.eq(a, b),
            Ult => {
                if a == b || cb == Some(0) {
                    return self.f;
                }
                if cb == Some(1) {
                    let z = self.cst(w, 0);
                    return self.eq(a, z);
                }
                if ca == Some(m) {
                    return self.f;
                }
                if w == 1 {
                    let na = self.not(a);
                    return self.bin(And, na, b);
                }
                let na = *self.n(a);
                let nb = *self.n(b);
                if na.op == ZExt {
                    let iw = self.w(na.a);
                    if let Some(y) = cb {
                        if y > mask(iw) {
                            return self.t;
                        }
                        let k = self.cst(iw, y);
                        return self.bin(Ult, na.a, k);
                    }
                    if nb.op == ZExt && self.w(nb.a) == iw {
                        return self.bin(Ult, na.a, nb.a);
                    }
                }
                if nb.op == ZExt {
                    let iw = self.w(nb.a);
                    if let Some(x) = ca {
                        if x >= mask(iw) {
                            return self.f;
                        }
                        let k = self.cst(iw, x);
                        return self.bin(Ult, k, nb.a);
                    }
                }
                if na.op == Ite && (cb.is_some()) && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                    let t = self.bin(Ult, na.b, b);
                    let f = self.bin(Ult, na.c, b);
                    return self.ite(na.a, t, f);
                }
            }
            Ule => {
                // a <= b  ==  !(b < a)
                let r = self.bin(Ult, b, a);
                return self.not(r);
            }
            Slt => {
                if a == b {
                    return self.f;
                }
                if w == 1 {
                    // signed: 1 is -1
                    let nb = self.not(b);
                    return self.bin(And, a, nb);
                }
                let na = *self.n(a);
                let nb = *self.n(b);
                // zext (strict) values are non-negative
                let pa = na.op == ZExt || ca.map_or(false, |x| x >> (w - 1) == 0);
                let pb = nb.op == ZExt || cb.map_or(false, |x| x >> (w - 1) == 0);
                if pa && pb {
                    return self.bin(Ult, a, b);
                }
                if na.op == Ite && (cb.is_some()) && self.as_const(na.b).is_some() && self.as_const(na.c).is_some() {
                    let t = self.bin(Slt, na.b, b);
                    let f = self.bin(Slt, na.c, b);
                    return self.ite(na.a, t, f);
                }
            }
            Sle => {
                let r = self.bin(Slt, b, a);
                return self.not(r);
            }
            _ => panic!("bin {:?}", op),
        }
        let rw = match op {
            Ult | Slt => 1,
            _ => w,
        };
        self.raw2(op, rw, a, b)
    }

    fn or_concat(&mut self, a: E, b: E, w: u8) -> Option<E> {
        // a = zext(x) with width(x) = k ; b = concat(y, 0:k')  with k' >= k
        let na = *self.n(a);
        let nb = *self.n(b);
        if na.op == Op::ZExt && nb.op == Op::Concat {
            if let Some(0) = self.as_const(nb.b) {
                let k = self.w(na.a);
                let kk = self.w(nb.b);
                if k <= kk {
                    let lo = self.zext(na.a, kk);
                    return Some(self.concat(nb.a, lo));
                }
            }
            // b = zext(concat(y,0))
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let (ia, ib) = (na.a, nb.a);
            let (wa, wb) = (self.w(ia), self.w(ib));
            let mw = wa.max(wb);
            if mw < w {
                let x = self.zext(ia, mw);
                let y = self.zext(ib, mw);
                let r = self.bin(Op::Or, x, y);
                return Some(self.zext(r, w));
            }
        }
        None
    }

    fn is_neg(&self, a: E, b: E) -> bool {
        let na = self.n(a);
        let nb = self.n(b);
        (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a)
    }

    pub fn not(&mut self, a: E) -> E {
        let n = *self.n(a);
        match n.op {
            Op::Const => self.cst(n.w, !n.imm),
            Op::Not => n.a,
            _ => self.raw1(Op::Not, n.w, a, 0),
        }
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.t;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if ca.is_some() && cb.is_some() {
            return self.f;
        }
        if ca.is_some() {
            return self.eq(b, a);
        }
        if w == 1 {
            if let Some(y) = cb {
                return if y == 1 { a } else { self.not(a) };
            }
            if self.is_neg(a, b) {
                return self.f;
            }
        }
        let na = *self.n(a);
        if let Some(y) = cb {
            match na.op {
                Op::Add => {
                    if let Some(k) = self.as_const(na.b) {
                        let c = self.cst(w, y.wrapping_sub(k));
                        return self.eq(na.a, c);
                    }
                }
                Op::Sub => {
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Xor => {
                    if let Some(k) = self.as_const(na.b) {
                        let c = self.cst(w, y ^ k);
                        return self.eq(na.a, c);
                    }
                    if y == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Or => {
                    if y == 0 {
                        let z = b;
                        let p = self.eq(na.a, z);
                        let q = self.eq(na.b, z);
                        return self.bin(Op::And, p, q);
                    }
                }
                Op::Not => {
                    let c = self.cst(w, !y);
                    return self.eq(na.a, c);
                }
                Op::ZExt => {
                    let iw = self.w(na.a);
                    if y > mask(iw) {
                        return self.f;
                    }
                    let c = self.cst(iw, y);
                    return self.eq(na.a, c);
                }
                Op::SExt => {
                    let iw = self.w(na.a);
                    let lo = y & mask(iw);
                    if (sext(lo, iw) as u128) & mask(w) != y {
                        return self.f;
                    }
                    let c = self.cst(iw, lo);
                    return self.eq(na.a, c);
                }
                Op::Concat => {
                    let lw = self.w(na.b);
                    let hi = self.cst(w - lw, y >> lw);
                    let lo = self.cst(lw, y & mask(lw));
                    let p = self.eq(na.a, hi);
                    if p == self.f {
                        return p;
                    }
                    let q = self.eq(na.b, lo);
                    return self.bin(Op::And, p, q);
                }
                Op::Ite => {
                    let (ct, cf) = (self.as_const(na.b), self.as_const(na.c));
                    if ct.is_some() || cf.is_some() {
                        let t = self.eq(na.b, b);
                        let f = self.eq(na.c, b);
                        return self.ite(na.a, t, f);
                    }
                }
                _ => {}
            }
        } else {
            let nb = *self.n(b);
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let p = self.eq(na.a, nb.a);
                let q = self.eq(na.b, nb.b);
                return self.bin(Op::And, p, q);
            }
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
            if a > b {
                return self.raw2(Op::Eq, 1, b, a);
            }
        }
        self.raw2(Op::Eq, 1, a, b)
    }

    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if t == f {
            return t;
        }
        if let Some(v) = self.as_const(c) {
            return if v == 1 { t } else { f };
        }
        let nc = *self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, f, t);
        }
        let w = self.w(t);
        if w == 1 {
            match (self.as_const(t), self.as_const(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, f);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, t);
                }
                _ => {}
            }
        }
        let nt = *self.n(t);
        if nt.op == Op::Ite && nt.a == c {
            return self.ite(c, nt.b, f);
        }
        let nf = *self.n(f);
        if nf.op == Op::Ite && nf.a == c {
            return self.ite(c, t, nf.c);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: t, c: f, imm: 0 })
    }

    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let n = *self.n(a);
        if lo == 0 && w == n.w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Op::Const => return self.cst(w, n.imm >> lo),
            Op::Extract => return self.extract(n.a, lo + n.imm as u8, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
            }
            Op::Ite => {
                if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() {
                    let t = self.extract(n.b, lo, w);
                    let f = self.extract(n.c, lo, w);
                    return self.ite(n.a, t, f);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                // only worthwhile if the operands get simpler
                if self.n(x).op != Op::Extract || self.n(y).op != Op::Extract {
                    return self.bin(n.op, x, y);
                }
            }
            _ => {}
        }
        self.raw1(Op::Extract, w, a, lo as u128)
    }

    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (*self.n(hi), *self.n(lo));
        let w = nh.w + nl.w;
        if let (Op::Const, Op::Const) = (nh.op, nl.op) {
            return self.cst(w, (nh.imm << nl.w) | nl.imm);
        }
        if nh.op == Op::Const && nh.imm == 0 {
            return self.zext(lo, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.imm == nl.imm + nl.w as u128 {
            return self.extract(nh.a, nl.imm as u8, w);
        }
        // concat(concat(x, e1), e0) with e1:e0 adjacent
        if nh.op == Op::Concat && nl.op == Op::Extract {
            let l2 = *self.n(nh.b);
            if l2.op == Op::Extract && l2.a == nl.a && l2.imm == nl.imm + nl.w as u128 {
                let m = self.extract(l2.a, nl.imm as u8, l2.w + nl.w);
                return self.concat(nh.a, m);
            }
        }
        // zext(x') over extract high part
        if nh.op == Op::ZExt {
            let inner = self.concat(nh.a, lo);
            return self.zext(inner, w);
        }
        self.raw2(Op::Concat, w, hi, lo)
    }

    pub fn zext(&mut self, a: E, w: u8) -> E {
        let n = *self.n(a);
        if n.w == w {
            return a;
        }
        debug_assert!(w > n.w);
        match n.op {
            Op::Const => self.cst(w, n.imm),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() && n.w > 1 => {
                let t = self.zext(n.b, w);
                let f = self.zext(n.c, w);
                self.ite(n.a, t, f)
            }
            _ => self.raw1(Op::ZExt, w, a, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = *self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.cst(w, sext(n.imm, n.w) as u128),
            Op::SExt => self.sext(n.a, w),
            Op::ZExt => self.zext(n.a, w),
            _ => self.raw1(Op::SExt, w, a, 0),
        }
    }

    /// Evaluate under an assignment of the variables
    pub fn eval(&self, e: E, model: &dyn Fn(u32) -> u128, memo: &mut FxMap<E, u128>) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => return n.imm,
            Op::Var => return model(n.imm as u32) & mask(n.w),
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let v = match n.op {
            Op::Not => !self.eval(n.a, model, memo),
            Op::Extract => self.eval(n.a, model, memo) >> n.imm,
            Op::ZExt => self.eval(n.a, model, memo),
            Op::SExt => sext(self.eval(n.a, model, memo), self.w(n.a)) as u128,
            Op::Concat => {
                let lw = self.w(n.b);
                (self.eval(n.a, model, memo) << lw) | self.eval(n.b, model, memo)
            }
            Op::Ite => {
                if self.eval(n.a, model, memo) == 1 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            op => {
                let x = self.eval(n.a, model, memo);
                let y = self.eval(n.b, model, memo);
                fold(op, self.w(n.a), x, y).1
            }
        } & mask(n.w);
        memo.insert(e, v);
        v
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        if depth == 0 {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{}", n.imm),
            Op::Var => format!("v{}", n.imm),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.imm, n.w),
            Op::ZExt | Op::SExt | Op::Not => format!("({:?} {})", n.op, self.show(n.a, depth - 1)),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a, depth - 1), self.show(n.b, depth - 1), self.show(n.c, depth - 1)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}

pub fn arity(op: Op) -> u8 {
    match op {
        Op::Const | Op::Var => 0,
        Op::Not | Op::Extract | Op::ZExt | Op::SExt => 1,
        Op::Ite => 3,
        _ => 2,
    }
}

/// Concrete semantics, SMT-LIB conventions for division by zero. Returns (width, value).
pub fn fold(op: Op, w: u8, x: u128, y: u128) -> (u8, u128) {
    use Op::*;
    let m = mask(w);
    let (sx, sy) = (sext(x, w), sext(y, w));
    let v = match op {
        Add => x.wrapping_add(y),
        Sub => x.wrapping_sub(y),
        Mul => x.wrapping_mul(y),
        UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        SDiv => {
            if y == 0 {
                if sx < 0 {
                    1
                } else {
                    m
                }
            } else {
                sx.wrapping_div(sy) as u128
            }
        }
        SRem => {
            if y == 0 {
                x
            } else {
                sx.wrapping_rem(sy) as u128
            }
        }
        And => x & y,
        Or => x | y,
        Xor => x ^ y,
        Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        AShr => {
            let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
            (sx >> s) as u128
        }
        Eq => return (1, (x == y) as u128),
        Ult => return (1, (x < y) as u128),
        Ule => return (1, (x <= y) as u128),
        Slt => return (1, (sx < sy) as u128),
        Sle => return (1, (sx <= sy) as u128),
        _ => panic!("fold {:?}", op),
    };
    (w, v & m)
}
