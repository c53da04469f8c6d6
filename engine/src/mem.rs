//! Flat copy-on-write memory with per-byte symbolic contents.
use crate::expr::*;
use crate::ir::Val;
use std::rc::Rc;

pub const PS: usize = 1024;
const PSH: u32 = 10;
pub const STACK_BASE: u64 = 0x1_0000_0000;
pub const STACK_SIZE: u64 = 0x1000_0000;
pub const HEAP_BASE: u64 = 0x10_0000_0000;

#[derive(Clone)]
pub struct Page {
    pub data: [u8; PS],
    /// symbolic bytes: (expression, byte index in it); expression 0 = concrete
    pub sym: Option<Box<[(E, u8); PS]>>,
}

#[derive(Clone)]
pub struct Mem {
    regs: [Vec<Option<Rc<Page>>>; 3],
    pub heap_top: u64,
    free: [u64; 72],
}

#[derive(Debug)]
pub struct BadAddr(pub u64);

fn region(a: u64) -> (usize, u64) {
    if a >= HEAP_BASE {
        (2, a - HEAP_BASE)
    } else if a >= STACK_BASE {
        (1, a - STACK_BASE)
    } else {
        (0, a)
    }
}

fn class_of(n: u64) -> (usize, u64) {
    // size classes: multiples of 16 up to 256, then powers of two and 1.5x powers
    if n <= 256 {
        let c = ((n + 15) / 16).max(1);
        (c as usize, c * 16)
    } else {
        let p = n.next_power_of_two();
        let k = p.trailing_zeros() as usize; // >= 9
        let th = p / 2 + p / 4;
        if n <= th {
            (17 + (k - 9) * 2, th)
        } else {
            (18 + (k - 9) * 2, p)
        }
    }
}

impl Mem {
    pub fn new(global_end: u64) -> Mem {
        let g = (global_end >> PSH) as usize + 2;
        let mut m = Mem { regs: [vec![None; g], vec![], vec![]], heap_top: 16, free: [0; 72] };
        for i in (0x10000u64 >> PSH) as usize..g {
            m.regs[0][i] = Some(Rc::new(Page { data: [0; PS], sym: None }));
        }
        m
    }
    #[inline]
    fn page(&self, a: u64) -> Result<&Page, BadAddr> {
        let (r, o) = region(a);
        match self.regs[r].get((o >> PSH) as usize) {
            Some(Some(p)) => Ok(p),
            _ => Err(BadAddr(a)),
        }
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Result<&mut Page, BadAddr> {
        let (r, o) = region(a);
        match self.regs[r].get_mut((o >> PSH) as usize) {
            Some(Some(p)) => Ok(Rc::make_mut(p)),
            _ => Err(BadAddr(a)),
        }
    }
    fn ensure(&mut self, a: u64, n: u64) {
        let (r, o) = region(a);
        let last = ((o + n.max(1) - 1) >> PSH) as usize;
        let v = &mut self.regs[r];
        if v.len() <= last {
            v.resize(last + 1, None);
        }
        let mut i = last as i64;
        while i >= (o >> PSH) as i64 && v[i as usize].is_none() {
            v[i as usize] = Some(Rc::new(Page { data: [0; PS], sym: None }));
            i -= 1;
        }
    }
    pub fn stack_ensure(&mut self, a: u64, n: u64) {
        self.ensure(a, n)
    }
    pub fn mapped(&self, a: u64) -> bool {
        self.page(a).is_ok()
    }

    #[inline]
    pub fn read_c(&self, a: u64, n: usize) -> Result<Option<u64>, BadAddr> {
        let p = self.page(a)?;
        let o = (a as usize) & (PS - 1);
        if o + n <= PS && p.sym.is_none() {
            let d = &p.data[o..];
            return Ok(Some(match n {
                1 => d[0] as u64,
                2 => u16::from_le_bytes([d[0], d[1]]) as u64,
                4 => u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as u64,
                8 => u64::from_le_bytes([d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]]),
                _ => {
                    let mut v = 0;
                    for k in (0..n).rev() {
                        v = v << 8 | d[k] as u64
                    }
                    v
                }
            }));
        }
        Ok(None)
    }
    #[inline]
    pub fn byte(&self, a: u64) -> Result<(u8, E, u8), BadAddr> {
        let p = self.page(a)?;
        let o = (a as usize) & (PS - 1);
        if let Some(s) = &p.sym {
            let (e, i) = s[o];
            return Ok((p.data[o], e, i));
        }
        Ok((p.data[o], 0, 0))
    }
    pub fn read(&self, ar: &mut Arena, a: u64, w: u8) -> Result<Val, BadAddr> {
        let n = (w as usize + 7) / 8;
        if n <= 8 {
            if let Some(v) = self.read_c(a, n)? {
                return Ok(Val::I(if w < 64 { v & ((1u64 << w) - 1) } else { v }));
            }
        }
        let mut any = false;
        let mut same = true;
        let first = self.byte(a)?;
        for k in 0..n {
            let b = self.byte(a.wrapping_add(k as u64))?;
            if b.1 != 0 {
                any = true
            }
            if b.1 != first.1 || b.2 as usize != k {
                same = false
            }
        }
        if !any {
            let mut v: u128 = 0;
            for k in (0..n).rev() {
                v = v << 8 | self.byte(a + k as u64)?.0 as u128
            }
            if w > 64 {
                return Ok(Val::S(ar.cst(w, v)));
            }
            return Ok(Val::I((v & mask(w)) as u64));
        }
        if same && first.1 != 0 {
            let ew = ar.w(first.1);
            if ew == w {
                return Ok(Val::S(first.1));
            }
            if ew > w {
                let e = ar.extract(first.1, 0, w);
                return Ok(norm(ar, e));
            }
        }
        let mut acc: Option<E> = None;
        for k in 0..n {
            let b = self.byte(a + k as u64)?;
            let e = byte_expr(ar, b);
            acc = Some(match acc {
                None => e,
                Some(l) => ar.concat(e, l),
            });
        }
        let mut e = acc.unwrap();
        if ar.w(e) > w {
            e = ar.extract(e, 0, w);
        }
        Ok(norm(ar, e))
    }
    pub fn write(&mut self, ar: &mut Arena, a: u64, w: u8, v: Val) -> Result<(), BadAddr> {
        let n = (w as usize + 7) / 8;
        let o = (a as usize) & (PS - 1);
        match v {
            Val::I(x) => {
                if o + n <= PS {
                    let p = self.page_mut(a)?;
                    let b = x.to_le_bytes();
                    if n == 8 {
                        p.data[o..o + 8].copy_from_slice(&b);
                    } else {
                        p.data[o..o + n].copy_from_slice(&b[..n]);
                    }
                    if let Some(s) = &mut p.sym {
                        for k in 0..n {
                            s[o + k] = (0, 0)
                        }
                    }
                } else {
                    let b = x.to_le_bytes();
                    for k in 0..n {
                        self.set_byte(a + k as u64, (b[k], 0, 0))?
                    }
                }
            }
            Val::S(mut e) => {
                if let Some(c) = ar.as_const(e) {
                    for k in 0..n {
                        self.set_byte(a + k as u64, ((c >> (8 * k)) as u8, 0, 0))?
                    }
                    return Ok(());
                }
                let ew = ar.w(e);
                if ew as usize != n * 8 {
                    e = ar.zext(e, (n * 8) as u8);
                }
                for k in 0..n {
                    self.set_byte(a + k as u64, (0, e, k as u8))?
                }
            }
        }
        Ok(())
    }
    pub fn set_byte(&mut self, a: u64, b: (u8, E, u8)) -> Result<(), BadAddr> {
        let p = self.page_mut(a)?;
        let o = (a as usize) & (PS - 1);
        p.data[o] = b.0;
        match &mut p.sym {
            Some(s) => s[o] = (b.1, b.2),
            None => {
                if b.1 != 0 {
                    let mut s = Box::new([(0, 0); PS]);
                    s[o] = (b.1, b.2);
                    p.sym = Some(s);
                }
            }
        }
        Ok(())
    }
    pub fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), BadAddr> {
        if n == 0 || d == s {
            return Ok(());
        }
        let so = (s as usize) & (PS - 1);
        let dd = (d as usize) & (PS - 1);
        if so + n as usize <= PS && dd + n as usize <= PS {
            let sp = self.page(s)?;
            if sp.sym.is_none() {
                let mut buf = [0u8; PS];
                let n = n as usize;
                buf[..n].copy_from_slice(&sp.data[so..so + n]);
                let dp = self.page_mut(d)?;
                dp.data[dd..dd + n].copy_from_slice(&buf[..n]);
                if let Some(y) = &mut dp.sym {
                    for k in 0..n {
                        y[dd + k] = (0, 0)
                    }
                }
                return Ok(());
            }
        }
        if d < s || d >= s + n {
            for k in 0..n {
                let b = self.byte(s + k)?;
                self.set_byte(d + k, b)?
            }
        } else {
            for k in (0..n).rev() {
                let b = self.byte(s + k)?;
                self.set_byte(d + k, b)?
            }
        }
        Ok(())
    }
    pub fn malloc(&mut self, n: u64, align: u64) -> u64 {
        let n = n.max(1);
        if align > 16 {
            let a = crate::ir::align_up(HEAP_BASE + self.heap_top + 16, align);
            let top = a - HEAP_BASE + n;
            self.ensure(a - 16, n + 16);
            self.heap_top = crate::ir::align_up(top, 16);
            self.wr64(a - 16, 0);
            self.wr64(a - 8, n);
            return a;
        }
        let (c, sz) = class_of(n);
        let h = self.free[c];
        if h != 0 {
            let nx = self.read_c(h, 8).ok().flatten().unwrap_or_else(|| self.rd64_slow(h));
            self.free[c] = nx;
            self.wr64(h - 8, n);
            return h;
        }
        let a = HEAP_BASE + self.heap_top + 16;
        self.ensure(a - 16, sz + 16);
        self.heap_top += sz + 16;
        self.wr64(a - 16, c as u64);
        self.wr64(a - 8, n);
        a
    }
    fn wr64(&mut self, a: u64, v: u64) {
        for (k, b) in v.to_le_bytes().iter().enumerate() {
            self.set_byte(a + k as u64, (*b, 0, 0)).unwrap();
        }
    }
    fn rd64_slow(&self, a: u64) -> u64 {
        let mut v = 0;
        for k in (0..8).rev() {
            v = v << 8 | self.byte(a + k).unwrap().0 as u64
        }
        v
    }
    pub fn block_size(&self, a: u64) -> u64 {
        self.rd64_slow(a - 8)
    }
    pub fn block_cap(&self, a: u64) -> u64 {
        let c = self.rd64_slow(a - 16) as usize;
        if c == 0 {
            return self.block_size(a);
        }
        if c <= 16 {
            c as u64 * 16
        } else {
            let k = (c - 17) / 2 + 9;
            let p = 1u64 << k;
            if (c - 17) % 2 == 0 {
                p / 2 + p / 4
            } else {
                p
            }
        }
    }
    pub fn set_block_size(&mut self, a: u64, n: u64) {
        self.wr64(a - 8, n)
    }
    pub fn free(&mut self, a: u64) {
        if a == 0 {
            return;
        }
        let c = self.rd64_slow(a - 16) as usize;
        if c == 0 {
            return;
        }
        let h = self.free[c];
        self.wr64(a, h);
        self.free[c] = a;
    }
}

pub fn byte_expr(ar: &mut Arena, b: (u8, E, u8)) -> E {
    if b.1 == 0 {
        ar.cst(8, b.0 as u128)
    } else if ar.w(b.1) == 8 {
        b.1
    } else {
        ar.extract(b.1, b.2 * 8, 8)
    }
}

pub fn norm(ar: &Arena, e: E) -> Val {
    let n = ar.n(e);
    if n.op == Op::Const && n.w <= 64 {
        Val::I(n.imm as u64)
    } else {
        Val::S(e)
    }
}
