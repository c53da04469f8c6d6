//! Integer encoding of queries whose bit-vector arithmetic provably does not wrap.
//!
//! A 64-bit (or narrower) term is read as an integer, signed (mode S) or unsigned (mode U).  For
//! each query an interval pass over the conjunction shows that no Add/Sub/Mul in it can leave the
//! representable range, given bounds taken from the top-level conjuncts; if that fails, the query
//! is left to the bit-vector solver.
use crate::expr::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    S,
    U,
}

pub fn range(m: Mode, w: u8) -> (i128, i128) {
    match m {
        Mode::S => (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1),
        Mode::U => (0, (1i128 << w) - 1),
    }
}
pub fn val(m: Mode, w: u8, v: u128) -> i128 {
    match m {
        Mode::S => sext(v, w),
        Mode::U => v as i128,
    }
}

/// A literal that bounds one variable by constants, context-independently: (var node, lo, hi).
pub fn bound(ar: &Arena, m: Mode, e: E) -> Option<(E, i128, i128)> {
    let n = *ar.n(e);
    let (neg, n) = if n.op == Op::Not && n.w == 1 { (true, *ar.n(n.a)) } else { (false, n) };
    if !matches!(n.op, Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
        return None;
    }
    let w = ar.w(n.a);
    if w == 1 || w > 64 {
        return None;
    }
    let signed = matches!(n.op, Op::Slt | Op::Sle);
    let cm = if signed { Mode::S } else { Mode::U };
    // the set of values (in the comparison's own reading) allowed for the non-constant side
    let (term, lo, hi) = match (ar.as_const(n.a), ar.as_const(n.b)) {
        (None, Some(k)) => {
            let k = val(cm, w, k);
            let strict = matches!(n.op, Op::Ult | Op::Slt);
            let top = if strict { k - 1 } else { k };
            let r = range(cm, w);
            if neg {
                (n.a, top + 1, r.1)
            } else {
                (n.a, r.0, top)
            }
        }
        (Some(k), None) => {
            let k = val(cm, w, k);
            let strict = matches!(n.op, Op::Ult | Op::Slt);
            let bot = if strict { k + 1 } else { k };
            let r = range(cm, w);
            if neg {
                (n.b, r.0, bot - 1)
            } else {
                (n.b, bot, r.1)
            }
        }
        _ => return None,
    };
    if lo > hi {
        return None;
    }
    let t = *ar.n(term);
    let (v, off) = match t.op {
        Op::Var => (term, 0u128),
        Op::Add if ar.n(t.a).op == Op::Var && ar.as_const(t.b).is_some() => (t.a, ar.as_const(t.b).unwrap()),
        Op::Add if ar.n(t.b).op == Op::Var && ar.as_const(t.a).is_some() => (t.b, ar.as_const(t.a).unwrap()),
        _ => return None,
    };
    // term in [lo,hi] (reading cm)  <=>  v in [lo-off, hi-off] modulo 2^w, a cyclic interval of
    // hi-lo+1 values; it is an interval of reading m if it does not cross m's seam
    let size = hi - lo;
    let start = ((lo as u128).wrapping_sub(off)) & mask(w);
    let s = val(m, w, start);
    if s + size > range(m, w).1 {
        return None;
    }
    Some((v, s, s + size))
}

pub struct Check<'a> {
    pub ar: &'a Arena,
    pub m: Mode,
    pub b: FxMap<E, (i128, i128)>,
    pub memo: FxMap<E, (i128, i128)>,
}

impl<'a> Check<'a> {
    /// interval of a bit-vector term (w>1), or None if it cannot be read as an integer
    fn iv(&mut self, e: E) -> Option<(i128, i128)> {
        if let Some(r) = self.memo.get(&e) {
            return Some(*r);
        }
        let n = *self.ar.n(e);
        if n.w > 64 || n.w == 1 {
            return None;
        }
        let full = range(self.m, n.w);
        let fit = |lo: i128, hi: i128| if lo >= full.0 && hi <= full.1 { Some((lo, hi)) } else { None };
        let r = match n.op {
            Op::Const => {
                let v = val(self.m, n.w, n.imm);
                (v, v)
            }
            Op::Var => self.b.get(&e).copied().unwrap_or(full),
            Op::Ite => {
                self.bl(n.a)?;
                let a = self.iv(n.b)?;
                let b = self.iv(n.c)?;
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::Add => {
                let a = self.iv(n.a)?;
                // in mode U, adding a constant with the top bit set is a subtraction
                if let Some(k) = self.ar.as_const(n.b) {
                    let k = sext(k, n.w);
                    fit(a.0 + k, a.1 + k)?
                } else if let Some(k) = self.ar.as_const(n.a) {
                    let b = self.iv(n.b)?;
                    let k = sext(k, n.w);
                    fit(b.0 + k, b.1 + k)?
                } else {
                    let b = self.iv(n.b)?;
                    fit(a.0 + b.0, a.1 + b.1)?
                }
            }
            Op::Sub => {
                let a = self.iv(n.a)?;
                let b = self.iv(n.b)?;
                fit(a.0 - b.1, a.1 - b.0)?
            }
            Op::Mul => {
                let a = self.iv(n.a)?;
                let b = self.iv(n.b)?;
                if a.0 != a.1 && b.0 != b.1 {
                    return None;
                }
                if self.ar.as_const(n.a).is_none() && self.ar.as_const(n.b).is_none() {
                    return None;
                }
                let p = [a.0.checked_mul(b.0)?, a.0.checked_mul(b.1)?, a.1.checked_mul(b.0)?, a.1.checked_mul(b.1)?];
                fit(*p.iter().min().unwrap(), *p.iter().max().unwrap())?
            }
            Op::ZExt => {
                if self.ar.w(n.a) == 1 {
                    self.bl(n.a)?;
                    (0, 1)
                } else {
                    let a = self.iv(n.a)?;
                    if a.0 < 0 {
                        return None;
                    }
                    a
                }
            }
            Op::Concat => {
                let lw = self.ar.w(n.b);
                let a = self.uiv(n.a)?;
                let b = self.uiv(n.b)?;
                fit((a.0 << lw) + b.0, (a.1 << lw) + b.1)?
            }
            Op::Extract if n.imm == 0 => {
                let a = self.iv(n.a)?;
                if a.0 < 0 || a.1 > full.1 {
                    return None;
                }
                a
            }
            Op::Extract => {
                // bits from imm up, of a non-negative value that has none above
                let a = self.iv(n.a)?;
                if a.0 < 0 || (a.1 >> n.imm) > full.1 {
                    return None;
                }
                (a.0 >> n.imm, a.1 >> n.imm)
            }
            Op::UDiv | Op::URem => {
                let k = self.ar.as_const(n.b)? as i128;
                let a = self.iv(n.a)?;
                if a.0 < 0 || k <= 0 || k > full.1 {
                    return None;
                }
                if n.op == Op::UDiv {
                    (a.0 / k, a.1 / k)
                } else {
                    (0, (k - 1).min(a.1))
                }
            }
            Op::SExt if self.m == Mode::S => {
                if self.ar.w(n.a) == 1 {
                    self.bl(n.a)?;
                    (-1, 0)
                } else {
                    self.iv(n.a)?
                }
            }
            _ => return None,
        };
        self.memo.insert(e, r);
        Some(r)
    }
    /// interval of the unsigned reading of a term of any width
    fn uiv(&mut self, e: E) -> Option<(i128, i128)> {
        if self.ar.w(e) == 1 {
            self.bl(e)?;
            return Some((0, 1));
        }
        if let Some(k) = self.ar.as_const(e) {
            return if self.ar.w(e) <= 64 { Some((k as i128, k as i128)) } else { None };
        }
        let a = self.iv(e)?;
        if a.0 < 0 {
            return None;
        }
        Some(a)
    }
    /// is a boolean term translatable?
    pub fn bl(&mut self, e: E) -> Option<()> {
        if self.memo.contains_key(&e) {
            return Some(());
        }
        let n = *self.ar.n(e);
        match n.op {
            Op::Const | Op::Var => {}
            Op::Not => self.bl(n.a)?,
            Op::Ite => {
                self.bl(n.a)?;
                self.bl(n.b)?;
                self.bl(n.c)?
            }
            Op::And | Op::Or | Op::Xor => {
                self.bl(n.a)?;
                self.bl(n.b)?
            }
            Op::Eq => {
                if self.ar.w(n.a) == 1 {
                    self.bl(n.a)?;
                    self.bl(n.b)?
                } else {
                    self.iv(n.a)?;
                    self.iv(n.b)?;
                }
            }
            // the sign bit
            Op::Extract if n.imm + 1 == self.ar.w(n.a) as u128 => {
                self.iv(n.a)?;
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let w = self.ar.w(n.a);
                if w == 1 {
                    return None;
                }
                let a = self.iv(n.a)?;
                let b = self.iv(n.b)?;
                let signed = matches!(n.op, Op::Slt | Op::Sle);
                let top = (1i128 << (w - 1)) - 1;
                let ok = match (self.m, signed) {
                    (Mode::S, true) | (Mode::U, false) => true,
                    (Mode::S, false) => a.0 >= 0 && b.0 >= 0,
                    (Mode::U, true) => a.1 <= top && b.1 <= top,
                };
                if !ok {
                    return None;
                }
            }
            _ => return None,
        }
        self.memo.insert(e, (0, 1));
        Some(())
    }
}

pub fn conj(ar: &Arena, es: impl Iterator<Item = E>) -> Vec<E> {
    let mut work: Vec<E> = es.collect();
    let mut out = vec![];
    while let Some(e) = work.pop() {
        let n = ar.n(e);
        if n.op == Op::And && n.w == 1 {
            work.push(n.a);
            work.push(n.b);
        } else {
            out.push(e)
        }
    }
    out.sort_unstable();
    out.dedup();
    out
}

/// Can the conjunction be read over the integers in mode m?
pub fn usable(ar: &Arena, m: Mode, lits: &[E]) -> bool {
    let mut b: FxMap<E, (i128, i128)> = Default::default();
    let mut rest = vec![];
    for e in lits {
        match bound(ar, m, *e) {
            Some((v, lo, hi)) => {
                let x = b.entry(v).or_insert(range(m, ar.w(v)));
                x.0 = x.0.max(lo);
                x.1 = x.1.min(hi);
            }
            None => rest.push(*e),
        }
    }
    // an empty interval: leave it (any bounds are sound for an unsatisfiable conjunction)
    for x in b.values_mut() {
        if x.0 > x.1 {
            x.1 = x.0
        }
    }
    let mut c = Check { ar, m, b, memo: Default::default() };
    rest.iter().all(|e| c.bl(*e).is_some())
}

/// diagnostic: the first conjunct that cannot be read over the integers
pub fn why(ar: &Arena, m: Mode, lits: &[E]) -> String {
    let mut b: FxMap<E, (i128, i128)> = Default::default();
    let mut rest = vec![];
    for e in lits {
        match bound(ar, m, *e) {
            Some((v, lo, hi)) => {
                let x = b.entry(v).or_insert(range(m, ar.w(v)));
                x.0 = x.0.max(lo);
                x.1 = x.1.min(hi);
            }
            None => rest.push(*e),
        }
    }
    let mut c = Check { ar, m, b, memo: Default::default() };
    for e in rest {
        if c.bl(e).is_none() {
            return ar.show(e, 7);
        }
    }
    "ok".into()
}
