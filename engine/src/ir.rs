//! Textual LLVM IR: module index + lazy compilation of functions to scalar micro-ops.
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Vec<Ty>, bool),
    Meta,
    Label,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Label => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                if b > 8 {
                    (b + 15) / 16 * 16
                } else {
                    b.next_power_of_two()
                }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                if let Ty::Int(1) = **t {
                    (n + 7) / 8
                } else {
                    n * t.size()
                }
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if !packed {
                    o = align_up(o, self.align());
                }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Label => 1,
            Ty::Int(_) => self.size().min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(_, _) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn offset(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("offset")
            }
            _ => panic!("offset of {:?}", self),
        }
    }
    /// flattened scalars (byte offset, scalar type)
    pub fn flat(&self, base: u64, out: &mut Vec<(u64, Ty)>) {
        match self {
            Ty::Void | Ty::Meta | Ty::Label => {}
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.flat(base + i * t.size(), out)
                }
            }
            Ty::Vec(n, t) => {
                for i in 0..*n {
                    t.flat(base + i * t.size(), out)
                }
            }
            Ty::Struct(f, _) => {
                for i in 0..f.len() {
                    let (o, t) = self.offset(i as u64);
                    t.flat(base + o, out)
                }
            }
            t => out.push((base, t.clone())),
        }
    }
    pub fn nflat(&self) -> usize {
        match self {
            Ty::Void | Ty::Meta | Ty::Label => 0,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nflat(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nflat()).sum(),
            _ => 1,
        }
    }
    pub fn w(&self) -> u8 {
        match self {
            Ty::Int(w) => *w as u8,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(_, t) => t.w(),
            t => panic!("width of {:?}", t),
        }
    }
}
pub fn align_up(o: u64, a: u64) -> u64 {
    (o + a - 1) / a * a
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Val {
    I(u64),
    S(E),
}

#[derive(Clone, Copy, Debug)]
pub enum Opnd {
    R(u32),
    V(Val),
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub pc: u32,
    pub copies: Rc<[(u32, Opnd)]>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Neg,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Same,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    UMin,
    UMax,
    SMin,
    SMax,
    Abs,
    CtPop,
    CtLz,
    CtTz,
    BSwap,
    BitRev,
    FShl,
    FShr,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UCmp,
    SCmp,
    AddO(bool),
    SubO(bool),
    MulO(bool),
    FAbs,
    FFloor,
    FCeil,
    FTrunc,
    FRint,
    FSqrt,
    FMa,
    FCopySign,
    FpToUiSat,
    FpToSiSat,
    FMin,
    FMax,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ptr(Opnd),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Op, u8, u32, Opnd, Opnd),
    Icmp(Pred, u8, u32, Opnd, Opnd),
    Cast(Cast, u8, u8, u32, Opnd),
    Mov(u32, Opnd),
    Select(u32, Opnd, Opnd, Opnd, u8),
    Load { d: u32, a: Opnd, off: u32, w: u8 },
    Store { v: Opnd, a: Opnd, off: u32, w: u8 },
    GepC(u32, Opnd, i64),
    Gep1(u32, Opnd, Opnd, i64, i64), // dst base idx scale off   (64-bit idx)
    Gep(u32, Opnd, i64, Box<[(Opnd, u8, i64)]>),
    Alloca { d: u32, n: Opnd, size: u64, align: u64 },
    Call { d: u32, nret: u32, f: Callee, args: Rc<[Opnd]>, unwind: Option<Rc<(Edge, Edge)>>, retw: u8 },
    Intr { k: Intr, w: u8, w2: u8, d: u32, args: [Opnd; 3] },
    MemCpy(Opnd, Opnd, Opnd),
    MemSet(Opnd, Opnd, Opnd),
    Expect(Opnd),
    Br(Edge),
    CondBr(Opnd, Edge, Edge),
    Switch(Opnd, u8, Rc<[(u64, Edge)]>, Edge),
    Ret(Rc<[Opnd]>),
    Unreachable,
    Resume(Opnd, Opnd),
    LandingPad { d: u32, catch: bool },
    Rmw { d: u32, op: Rmw, a: Opnd, v: Opnd, w: u8 },
    CmpXchg { d: u32, a: Opnd, c: Opnd, n: Opnd, w: u8 },
    FBin(FOp, u8, u32, Opnd, Opnd),
    FCmp(u8, u8, u32, Opnd, Opnd),
    PMovMskB(u32, Box<[Opnd]>),
    ExtractDyn { d: u32, v: Box<[Opnd]>, idx: Opnd },
    LoadRelative(u32, Opnd, Opnd),
    Nop,
    Bad(Rc<str>),
}

pub struct Func {
    pub name: String,
    pub id: u32,
    pub code: Vec<I>,
    pub nregs: u32,
    pub nparams: u32,
    pub lines: Vec<u32>, // dbg metadata id per instruction
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range from 'define' line
    pub dbg: u32,
}

pub struct GlobalDef {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub init: Option<(usize, usize)>, // text range from type
    pub section_init_array: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tok<'a> {
    W(&'a str),
    L(&'a str),
    G(&'a str),
    S(&'a str),
    C(&'a str),
    M(&'a str),
    A,
    P(u8),
    NL,
    Eof,
}

pub struct Lex<'a> {
    pub s: &'a [u8],
    pub p: usize,
    pub end: usize,
}

fn sstr(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str, a: usize, b: usize) -> Lex<'a> {
        Lex { s: s.as_bytes(), p: a, end: b }
    }
    fn name(&mut self) -> &'a str {
        if self.p < self.end && self.s[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' {
                self.p += 1
            }
            let r = sstr(&self.s[st..self.p]);
            self.p += 1;
            r
        } else {
            let st = self.p;
            while self.p < self.end && idc(self.s[self.p]) {
                self.p += 1
            }
            sstr(&self.s[st..self.p])
        }
    }
    pub fn next(&mut self) -> Tok<'a> {
        while self.p < self.end {
            let c = self.s[self.p];
            match c {
                b' ' | b'\t' | b'\r' => self.p += 1,
                b'\n' => {
                    self.p += 1;
                    return Tok::NL;
                }
                b';' => {
                    while self.p < self.end && self.s[self.p] != b'\n' {
                        self.p += 1
                    }
                }
                b'%' => {
                    self.p += 1;
                    return Tok::L(self.name());
                }
                b'@' => {
                    self.p += 1;
                    return Tok::G(self.name());
                }
                b'!' => {
                    self.p += 1;
                    return Tok::M(self.name());
                }
                b'#' => {
                    self.p += 1;
                    self.name();
                    return Tok::A;
                }
                b'"' => return Tok::S(self.name()),
                b'c' if self.p + 1 < self.end && self.s[self.p + 1] == b'"' => {
                    self.p += 1;
                    return Tok::C(self.name());
                }
                _ if idc(c) => return Tok::W(self.name()),
                _ => {
                    self.p += 1;
                    return Tok::P(c);
                }
            }
        }
        Tok::Eof
    }
    pub fn peek(&mut self) -> Tok<'a> {
        let p = self.p;
        let t = self.next();
        self.p = p;
        t
    }
    pub fn expect(&mut self, c: u8) {
        let t = self.next();
        if t != Tok::P(c) {
            panic!("expected {:?} got {:?} near {:?}", c as char, t, self.ctx());
        }
    }
    pub fn ctx(&self) -> String {
        let a = self.p.saturating_sub(120);
        let b = (self.p + 80).min(self.s.len());
        String::from_utf8_lossy(&self.s[a..b]).to_string()
    }
    pub fn eat(&mut self, c: u8) -> bool {
        let p = self.p;
        if self.next() == Tok::P(c) {
            true
        } else {
            self.p = p;
            false
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        let p = self.p;
        if self.next() == Tok::W(w) {
            true
        } else {
            self.p = p;
            false
        }
    }
    pub fn skip_nl(&mut self) {
        loop {
            let p = self.p;
            if self.next() != Tok::NL {
                self.p = p;
                return;
            }
        }
    }
    pub fn skip_line(&mut self) {
        while self.p < self.end && self.s[self.p] != b'\n' {
            self.p += 1
        }
        if self.p < self.end {
            self.p += 1
        }
    }
    /// skip a parenthesised group, the opening paren being next
    pub fn skip_group(&mut self, o: u8, c: u8) {
        self.expect(o);
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(x) if x == o => d += 1,
                Tok::P(x) if x == c => d -= 1,
                Tok::Eof => panic!("eof in group"),
                _ => {}
            }
        }
    }
}

pub const GLOBAL_BASE: u64 = 0x10000;
pub const FUNC_BASE: u64 = 0x4000_0000;

pub struct Module {
    pub text: &'static str,
    pub globals: Vec<GlobalDef>,
    pub gmap: HashMap<&'static str, u32>,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<&'static str, u32>,
    pub types: HashMap<&'static str, Ty>,
    pub global_end: u64,
    pub aliases: HashMap<&'static str, &'static str>,
    /// DISubprogram id -> (linkage name, file, line)
    pub subprograms: HashMap<u32, (String, String, u32)>,
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ll").into_boxed_str());
        let mut m = Module {
            text,
            globals: vec![],
            gmap: HashMap::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            types: HashMap::new(),
            global_end: GLOBAL_BASE,
            aliases: HashMap::new(),
            subprograms: HashMap::new(),
        };
        let b = text.as_bytes();
        let mut p = 0;
        let mut pending_types: Vec<(&'static str, usize)> = vec![];
        let mut gl: Vec<(usize, usize)> = vec![];
        let mut files: HashMap<u32, String> = HashMap::new();
        let mut sps: Vec<(u32, &'static str)> = vec![];
        while p < b.len() {
            let e = memchr(b, p);
            let line = &text[p..e];
            if line.starts_with("define ") {
                // find closing "\n}"
                let mut q = e + 1;
                loop {
                    let e2 = memchr(b, q);
                    if b[q] == b'}' {
                        break;
                    }
                    q = e2 + 1;
                }
                let name = fname(line);
                let dbg = line.rfind("!dbg !").map(|i| num_at(line, i + 6)).unwrap_or(0);
                let id = m.funcs.len() as u32;
                m.fmap.insert(name, id);
                m.funcs.push(FuncDecl { name: name.to_string(), body: Some((p, q)), dbg });
                p = q + 2;
                continue;
            } else if line.starts_with("declare ") {
                let name = fname(line);
                let id = m.funcs.len() as u32;
                m.fmap.insert(name, id);
                m.funcs.push(FuncDecl { name: name.to_string(), body: None, dbg: 0 });
            } else if line.starts_with('@') {
                gl.push((p, e));
            } else if line.starts_with('%') {
                let mut lx = Lex::new(text, p, e);
                if let Tok::L(n) = lx.next() {
                    lx.expect(b'=');
                    lx.eatw("type");
                    pending_types.push((n, lx.p));
                }
            } else if line.starts_with('!') {
                if let Some(i) = line.find(" = !DIFile(") {
                    let id = num_at(line, 1);
                    let _ = i;
                    let f = field(line, "filename: \"", "\"").unwrap_or("");
                    let d = field(line, "directory: \"", "\"").unwrap_or("");
                    files.insert(id, if f.starts_with('/') { f.to_string() } else { format!("{}/{}", d, f) });
                } else if line.contains("!DISubprogram(") {
                    sps.push((num_at(line, 1), line));
                }
            }
            p = e + 1;
        }
        for (id, line) in sps {
            let name = field(line, "linkageName: \"", "\"").or(field(line, "name: \"", "\"")).unwrap_or("").to_string();
            let file = field(line, "file: !", ",").and_then(|x| x.trim_end_matches(')').parse::<u32>().ok()).and_then(|f| files.get(&f).cloned()).unwrap_or_default();
            let ln = line.find(" line: ").map(|i| num_at(line, i + 7)).unwrap_or(0);
            m.subprograms.insert(id, (name, file, ln));
        }
        for (n, at) in pending_types {
            let mut lx = Lex::new(text, at, b.len());
            let t = if lx.eatw("opaque") { Ty::Struct(vec![], false) } else { m.ty(&mut lx) };
            m.types.insert(n, t);
        }
        for (a, e) in gl {
            let mut lx = Lex::new(text, a, e);
            let name = match lx.next() {
                Tok::G(n) => n,
                t => panic!("{:?}", t),
            };
            lx.expect(b'=');
            let mut external = false;
            let mut alias = false;
            loop {
                match lx.next() {
                    Tok::W("external") | Tok::W("extern_weak") => external = true,
                    Tok::W("global") | Tok::W("constant") => break,
                    Tok::W("alias") => {
                        alias = true;
                        break;
                    }
                    Tok::W(_) => {
                        if lx.peek() == Tok::P(b'(') {
                            lx.skip_group(b'(', b')')
                        }
                    }
                    t => panic!("global {:?} {}", t, &text[a..e]),
                }
            }
            if alias {
                m.ty(&mut lx);
                lx.expect(b',');
                m.ty(&mut lx);
                if let Tok::G(t) = lx.next() {
                    m.aliases.insert(name, t);
                }
                continue;
            }
            let ty = m.ty(&mut lx);
            let line = &text[a..e];
            let align = line.rfind(", align ").map(|i| num_at(line, i + 8) as u64).unwrap_or(8).max(1);
            let addr = align_up(m.global_end, align.max(ty.align()).max(8));
            m.global_end = addr + ty.size().max(1) + 8;
            // restart at the type so that the initialiser parser sees "ty value"
            let mut lx2 = Lex::new(text, a, e);
            lx2.p = lx.p;
            let id = m.globals.len() as u32;
            m.gmap.insert(name, id);
            m.globals.push(GlobalDef {
                name: name.to_string(),
                addr,
                size: ty.size(),
                init: if external { None } else { Some((ty_start(text, a, e), e)) },
                section_init_array: line.contains("section \".init_array"),
            });
        }
        if m.global_end >= FUNC_BASE {
            panic!("globals too large")
        }
        m
    }

    pub fn func_addr(&self, id: u32) -> u64 {
        FUNC_BASE + 16 * (id as u64 + 1)
    }
    pub fn global_ref(&self, n: &str) -> u64 {
        let n = self.aliases.get(n).copied().unwrap_or(n);
        if let Some(g) = self.gmap.get(n) {
            return self.globals[*g as usize].addr;
        }
        if let Some(f) = self.fmap.get(n) {
            let d = &self.funcs[*f as usize];
            // weak externs that the environment model does not provide resolve to null
            if d.body.is_none() && WEAK_NULL.contains(&n) {
                return 0;
            }
            return self.func_addr(*f);
        }
        panic!("unknown global {}", n)
    }

    pub fn ty(&self, lx: &mut Lex<'static>) -> Ty {
        let t = match lx.next() {
            Tok::W("void") => Ty::Void,
            Tok::W("ptr") => {
                if lx.eatw("addrspace") {
                    lx.skip_group(b'(', b')')
                }
                Ty::Ptr
            }
            Tok::W("float") => Ty::F32,
            Tok::W("double") => Ty::F64,
            Tok::W("metadata") => Ty::Meta,
            Tok::W("label") => Ty::Label,
            Tok::W(w) if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
            Tok::L(n) => self.types.get(n).cloned().unwrap_or_else(|| panic!("type %{}", n)),
            Tok::P(b'[') => {
                let n = self.num(lx);
                assert!(lx.eatw("x"));
                let t = self.ty(lx);
                lx.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P(b'{') => {
                let f = self.tylist(lx, b'}');
                Ty::Struct(f, false)
            }
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let f = self.tylist(lx, b'}');
                    lx.expect(b'>');
                    Ty::Struct(f, true)
                } else {
                    let n = self.num(lx);
                    assert!(lx.eatw("x"));
                    let t = self.ty(lx);
                    lx.expect(b'>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            t => panic!("type: {:?} near {}", t, lx.ctx()),
        };
        // function type "ty (args)" only occurs in call instructions with varargs
        t
    }
    fn num(&self, lx: &mut Lex<'static>) -> u64 {
        match lx.next() {
            Tok::W(w) => w.parse().unwrap(),
            t => panic!("num {:?}", t),
        }
    }
    fn tylist(&self, lx: &mut Lex<'static>, close: u8) -> Vec<Ty> {
        let mut f = vec![];
        if lx.eat(close) {
            return f;
        }
        loop {
            f.push(self.ty(lx));
            if lx.eat(close) {
                return f;
            }
            lx.expect(b',');
        }
    }

    /// constant of type ty -> flattened concrete values (u128)
    pub fn constant(&self, lx: &mut Lex<'static>, ty: &Ty, out: &mut Vec<u128>) {
        match lx.next() {
            Tok::W("zeroinitializer") | Tok::W("undef") | Tok::W("poison") | Tok::W("null") | Tok::W("none") => {
                for _ in 0..ty.nflat() {
                    out.push(0)
                }
            }
            Tok::W("true") => out.push(1),
            Tok::W("false") => out.push(0),
            Tok::G(n) => out.push(self.global_ref(n) as u128),
            Tok::C(s) => {
                for c in unescape(s) {
                    out.push(c as u128)
                }
            }
            Tok::P(b'[') | Tok::P(b'{') => self.const_list(lx, out),
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    self.const_list(lx, out);
                    lx.expect(b'>');
                } else {
                    self.const_list(lx, out);
                }
            }
            Tok::W("splat") => {
                lx.expect(b'(');
                let t = self.ty(lx);
                let mut v = vec![];
                self.constant(lx, &t, &mut v);
                lx.expect(b')');
                for _ in 0..ty.nflat() {
                    out.push(v[0])
                }
            }
            Tok::W(w) if w.starts_with(|c: char| c.is_ascii_digit() || c == '-') => out.push(parse_num(w, ty)),
            Tok::W("getelementptr") => {
                while let Tok::W(w) = lx.peek() {
                    lx.next();
                    if w == "inrange" {
                        lx.skip_group(b'(', b')')
                    }
                }
                lx.expect(b'(');
                let et = self.ty(lx);
                lx.expect(b',');
                let pt = self.ty(lx);
                let mut v = vec![];
                self.constant(lx, &pt, &mut v);
                let mut addr = v[0] as u64;
                let mut cur: Option<Ty> = None;
                while lx.eat(b',') {
                    let it = self.ty(lx);
                    let mut iv = vec![];
                    self.constant(lx, &it, &mut iv);
                    let idx = sext(iv[0], it.w()) as i64;
                    match cur {
                        None => {
                            addr = addr.wrapping_add((idx as u64).wrapping_mul(et.size()));
                            cur = Some(et.clone());
                        }
                        Some(t) => {
                            let (o, n) = match &t {
                                Ty::Struct(..) => t.offset(idx as u64),
                                _ => {
                                    let (_, n) = t.offset(0);
                                    ((idx as u64).wrapping_mul(n.size()), n)
                                }
                            };
                            addr = addr.wrapping_add(o);
                            cur = Some(n);
                        }
                    }
                }
                lx.expect(b')');
                out.push(addr as u128)
            }
            Tok::W(op @ ("ptrtoint" | "inttoptr" | "trunc" | "zext" | "bitcast" | "addrspacecast" | "ptrtoaddr" | "sext")) => {
                while let Tok::W(_) = lx.peek() {
                    lx.next();
                }
                lx.expect(b'(');
                let t = self.ty(lx);
                let mut v = vec![];
                self.constant(lx, &t, &mut v);
                assert!(lx.eatw("to"));
                let to = self.ty(lx);
                lx.expect(b')');
                if op == "sext" {
                    out.push(sext(v[0], t.w()) as u128 & mask(to.w()))
                } else {
                    out.push(v[0] & mask(to.w()))
                }
            }
            Tok::W(op @ ("add" | "sub" | "mul" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr")) => {
                while let Tok::W(_) = lx.peek() {
                    lx.next();
                }
                lx.expect(b'(');
                let t = self.ty(lx);
                let mut v = vec![];
                self.constant(lx, &t, &mut v);
                lx.expect(b',');
                self.ty(lx);
                self.constant(lx, &t, &mut v);
                lx.expect(b')');
                out.push(fold(binop(op).unwrap(), t.w(), v[0], v[1]).1)
            }
            t => panic!("constant {:?} near {}", t, lx.ctx()),
        }
    }
    fn const_list(&self, lx: &mut Lex<'static>, out: &mut Vec<u128>) {
        if lx.eat(b']') || lx.eat(b'}') || lx.eat(b'>') {
            return;
        }
        loop {
            let t = self.ty(lx);
            self.constant(lx, &t, out);
            match lx.next() {
                Tok::P(b',') => {}
                Tok::P(b']') | Tok::P(b'}') | Tok::P(b'>') => return,
                t => panic!("const list {:?} {}", t, lx.ctx()),
            }
        }
    }
}

pub const WEAK_NULL: &[&str] = &["statx", "gettid", "__pthread_get_minstack", "copy_file_range", "__cxa_thread_atexit_impl", "posix_spawn_file_actions_addchdir_np", "pidfd_spawnp", "pidfd_getpid"];

fn ty_start(text: &str, a: usize, e: usize) -> usize {
    // re-scan to just after global/constant keyword
    let t: &'static str = unsafe { std::mem::transmute(text) };
    let mut lx = Lex::new(t, a, e);
    lx.next();
    lx.expect(b'=');
    loop {
        match lx.next() {
            Tok::W("global") | Tok::W("constant") => return lx.p,
            Tok::W(_) => {
                if lx.peek() == Tok::P(b'(') {
                    lx.skip_group(b'(', b')')
                }
            }
            _ => return lx.p,
        }
    }
}

fn memchr(b: &[u8], p: usize) -> usize {
    let mut q = p;
    while q < b.len() && b[q] != b'\n' {
        q += 1
    }
    q
}
fn field<'a>(l: &'a str, k: &str, end: &str) -> Option<&'a str> {
    let i = l.find(k)? + k.len();
    let j = l[i..].find(end)?;
    Some(&l[i..i + j])
}
fn num_at(l: &str, i: usize) -> u32 {
    l[i..].bytes().take_while(|c| c.is_ascii_digit()).fold(0u32, |a, c| a.wrapping_mul(10).wrapping_add((c - b'0') as u32))
}
fn fname(line: &'static str) -> &'static str {
    let i = line.find('@').unwrap() + 1;
    let b = line.as_bytes();
    if b[i] == b'"' {
        let j = line[i + 1..].find('"').unwrap();
        &line[i + 1..i + 1 + j]
    } else {
        let mut j = i;
        while j < b.len() && idc(b[j]) {
            j += 1
        }
        &line[i..j]
    }
}
pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                r.push(b'\\');
                i += 2;
            } else {
                r.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            r.push(b[i]);
            i += 1
        }
    }
    r
}
fn parse_num(w: &str, ty: &Ty) -> u128 {
    match ty {
        Ty::F64 | Ty::F32 => {
            let d: f64 = if let Some(h) = w.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { w.parse().unwrap() };
            if *ty == Ty::F32 {
                (d as f32).to_bits() as u128
            } else {
                d.to_bits() as u128
            }
        }
        _ => {
            let v: i128 = w.parse::<i128>().map(|x| x).unwrap_or_else(|_| w.parse::<u128>().unwrap() as i128);
            (v as u128) & mask(ty.w())
        }
    }
}
pub fn binop(s: &str) -> Option<Op> {
    Some(match s {
        "add" => Op::Add,
        "sub" => Op::Sub,
        "mul" => Op::Mul,
        "udiv" => Op::UDiv,
        "sdiv" => Op::SDiv,
        "urem" => Op::URem,
        "srem" => Op::SRem,
        "and" => Op::And,
        "or" => Op::Or,
        "xor" => Op::Xor,
        "shl" => Op::Shl,
        "lshr" => Op::LShr,
        "ashr" => Op::AShr,
        _ => return None,
    })
}

// ---------------------------------------------------------------- function compiler

struct Fc<'m> {
    m: &'m Module,
    ar: &'m mut Arena,
    slots: HashMap<&'static str, u32>,
    nregs: u32,
    code: Vec<I>,
    lines: Vec<u32>,
    blocks: HashMap<&'static str, u32>,
    /// phis of each block: (dst slot, n, [(operands, pred label)])
    phis: HashMap<&'static str, Vec<(u32, Vec<(Vec<Opnd>, &'static str)>)>>,
    cur: &'static str,
    /// per instruction needing edge patch: (index, from label, targets)
    edges: Vec<(usize, &'static str, Vec<&'static str>)>,
}

fn is_value_word(w: &str) -> bool {
    let b = w.as_bytes();
    if b[0].is_ascii_digit() || b[0] == b'-' {
        return true;
    }
    if b[0] == b'i' && b.len() > 1 && b[1..].iter().all(|c| c.is_ascii_digit()) {
        return true;
    }
    FPREDS.contains(&w)
        || binop(w).is_some()
        || matches!(
            w,
            "zeroinitializer" | "undef" | "poison" | "null" | "none" | "true" | "false" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "zext" | "sext" | "bitcast" | "addrspacecast" | "ptrtoaddr" | "asm" | "ptr" | "float" | "double" | "void" | "metadata" | "label" | "eq" | "ne" | "sgt" | "sge" | "slt" | "sle" | "xchg" | "nand" | "max" | "min" | "umax" | "umin" | "to" | "unwind" | "cleanup" | "catch" | "filter" | "inrange" | "x"
        )
}

fn skip_attrs(lx: &mut Lex<'static>) {
    loop {
        let p = lx.p;
        match lx.next() {
            Tok::W(w) if !is_value_word(w) => {
                let q = lx.p;
                match lx.next() {
                    Tok::P(b'(') => {
                        lx.p = q;
                        lx.skip_group(b'(', b')');
                    }
                    Tok::W(_) if w == "align" || w == "cc" => {}
                    _ => lx.p = q,
                }
            }
            Tok::A => {}
            Tok::S(_) => {
                // string attribute, possibly "k"="v"
                if lx.eat(b'=') {
                    lx.next();
                }
            }
            _ => {
                lx.p = p;
                return;
            }
        }
    }
}

pub fn compile(m: &Module, ar: &mut Arena, id: u32) -> Func {
    let d = &m.funcs[id as usize];
    let (a, e) = d.body.expect("body");
    let mut lx = Lex::new(m.text, a, e);
    let mut fc = Fc { m, ar, slots: HashMap::new(), nregs: 0, code: vec![], lines: vec![], blocks: HashMap::new(), phis: HashMap::new(), cur: "", edges: vec![] };
    // header
    skip_attrs(&mut lx);
    let _ret = m.ty(&mut lx);
    match lx.next() {
        Tok::G(_) => {}
        t => panic!("define {:?} {}", t, lx.ctx()),
    }
    lx.expect(b'(');
    let mut unnamed = 0;
    if !lx.eat(b')') {
        loop {
            if lx.eat(b'.') || lx.eatw("...") {
                lx.skip_line();
                break;
            }
            let t = m.ty(&mut lx);
            skip_attrs(&mut lx);
            let nm = match lx.peek() {
                Tok::L(n) => {
                    lx.next();
                    n
                }
                _ => leak(unnamed.to_string()),
            };
            if nm.bytes().all(|c| c.is_ascii_digit()) {
                unnamed += 1;
            }
            fc.slot(nm, &t);
            if lx.eat(b')') {
                break;
            }
            lx.expect(b',');
        }
    }
    let nparams = fc.nregs;
    // to the opening brace: end of line
    lx.skip_line();
    // body
    let entry: &'static str = leak(unnamed.to_string());
    fc.cur = entry;
    fc.blocks.insert(entry, 0);
    let mut first = true;
    loop {
        lx.skip_nl();
        let p = lx.p;
        match lx.next() {
            Tok::Eof => break,
            Tok::W(w) | Tok::S(w) => {
                if lx.p < lx.end && lx.s[lx.p] == b':' {
                    lx.p += 1;
                    if first {
                        fc.blocks.remove(entry);
                    }
                    fc.cur = w;
                    fc.blocks.insert(w, fc.code.len() as u32);
                    lx.skip_line();
                    first = false;
                    continue;
                }
                lx.p = p;
            }
            Tok::P(b'#') => {
                lx.skip_line();
                continue;
            }
            _ => lx.p = p,
        }
        // debug records "#dbg_value(...)" lex as attribute
        let q = lx.p;
        if lx.next() == Tok::A {
            lx.skip_line();
            continue;
        }
        lx.p = q;
        first = false;
        let n0 = fc.code.len();
        fc.inst(&mut lx);
        // rest of the line
        let st = lx.p;
        lx.skip_line();
        let rest = &m.text[st..lx.p];
        let dbg = rest.rfind("!dbg !").map(|i| num_at(rest, i + 6)).unwrap_or(0);
        for _ in n0..fc.code.len() {
            fc.lines.push(dbg)
        }
    }
    // patch edges
    let edges = std::mem::take(&mut fc.edges);
    for (i, from, tg) in edges {
        let es: Vec<Edge> = tg.iter().map(|t| fc.edge(from, t)).collect();
        match &mut fc.code[i] {
            I::Br(e) => *e = es[0].clone(),
            I::CondBr(_, a, b) => {
                *a = es[0].clone();
                *b = es[1].clone();
            }
            I::Switch(_, _, c, d) => {
                *d = es[0].clone();
                let v: Vec<(u64, Edge)> = c.iter().enumerate().map(|(k, (v, _))| (*v, es[k + 1].clone())).collect();
                *c = v.into();
            }
            I::Call { unwind, .. } => *unwind = Some(Rc::new((es[0].clone(), es[1].clone()))),
            _ => unreachable!(),
        }
    }
    Func { name: d.name.clone(), id, nregs: fc.nregs, nparams, code: fc.code, lines: fc.lines }
}

pub fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

impl<'m> Fc<'m> {
    fn slot(&mut self, n: &'static str, t: &Ty) -> u32 {
        if let Some(s) = self.slots.get(n) {
            return *s;
        }
        let s = self.nregs;
        self.nregs += t.nflat() as u32;
        self.slots.insert(n, s);
        s
    }
    fn edge(&mut self, from: &'static str, to: &'static str) -> Edge {
        let pc = *self.blocks.get(to).unwrap_or_else(|| panic!("block {}", to));
        let mut c = vec![];
        if let Some(ph) = self.phis.get(to) {
            for (d, inc) in ph {
                let (ops, _) = inc.iter().find(|(_, l)| *l == from).unwrap_or_else(|| panic!("phi {} -> {}", from, to));
                for (k, o) in ops.iter().enumerate() {
                    if let Opnd::R(r) = o {
                        if *r == d + k as u32 {
                            continue;
                        }
                    }
                    c.push((d + k as u32, *o));
                }
            }
        }
        Edge { pc, copies: c.into() }
    }
    fn imm(&mut self, v: u128, w: u8) -> Opnd {
        if w > 64 {
            Opnd::V(Val::S(self.ar.cst(w, v)))
        } else {
            Opnd::V(Val::I((v & mask(w)) as u64))
        }
    }
    /// operand(s) of type t
    fn val(&mut self, lx: &mut Lex<'static>, t: &Ty) -> Vec<Opnd> {
        if let Ty::Meta = t {
            // metadata operand
            match lx.next() {
                Tok::M(_) => {}
                _ => {}
            }
            if lx.peek() == Tok::P(b'(') {
                lx.skip_group(b'(', b')')
            }
            return vec![];
        }
        if let Tok::L(n) = lx.peek() {
            lx.next();
            let s = self.slot(n, t);
            return (0..t.nflat() as u32).map(|k| Opnd::R(s + k)).collect();
        }
        // vectors / structs of constants may not contain locals
        let mut v = vec![];
        self.m.constant(lx, t, &mut v);
        let mut fl = vec![];
        t.flat(0, &mut fl);
        assert_eq!(fl.len(), v.len(), "const {:?} near {}", t, lx.ctx());
        let mut r = vec![];
        for (x, (_, ft)) in v.into_iter().zip(fl) {
            r.push(self.imm(x, ft.w()))
        }
        r
    }
    fn tval(&mut self, lx: &mut Lex<'static>) -> (Ty, Vec<Opnd>) {
        let t = self.m.ty(lx);
        skip_attrs(lx);
        let v = self.val(lx, &t);
        (t, v)
    }
    fn label(&mut self, lx: &mut Lex<'static>) -> &'static str {
        lx.skip_nl();
        assert!(lx.eatw("label"), "label {}", lx.ctx());
        match lx.next() {
            Tok::L(n) => n,
            t => panic!("label {:?}", t),
        }
    }
    fn dst(&mut self, n: Option<&'static str>, t: &Ty) -> u32 {
        match n {
            Some(n) => self.slot(n, t),
            None => 0,
        }
    }
    fn tmp(&mut self, n: u32) -> u32 {
        let s = self.nregs;
        self.nregs += n;
        s
    }

    fn inst(&mut self, lx: &mut Lex<'static>) {
        let mut res: Option<&'static str> = None;
        if let Tok::L(n) = lx.peek() {
            lx.next();
            lx.expect(b'=');
            res = Some(n);
        }
        let mut op = match lx.next() {
            Tok::W(w) => w,
            t => panic!("inst {:?} {}", t, lx.ctx()),
        };
        while matches!(op, "tail" | "musttail" | "notail") {
            op = match lx.next() {
                Tok::W(w) => w,
                t => panic!("inst {:?}", t),
            };
        }
        let empty: Edge = Edge { pc: 0, copies: Rc::new([]) };
        if let Some(bop) = binop(op) {
            skip_attrs(lx);
            let (t, a) = self.tval(lx);
            lx.expect(b',');
            let b = self.val(lx, &t);
            let d = self.dst(res, &t);
            let w = t.w();
            for k in 0..a.len() {
                self.code.push(I::Bin(bop, w, d + k as u32, a[k], b[k]));
            }
            return;
        }
        match op {
            "icmp" => {
                skip_attrs(lx);
                let p = match lx.next() {
                    Tok::W(w) => pred(w),
                    t => panic!("{:?}", t),
                };
                let (t, a) = self.tval(lx);
                lx.expect(b',');
                let b = self.val(lx, &t);
                let rt = match &t {
                    Ty::Vec(n, _) => Ty::Vec(*n, Rc::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                };
                let d = self.dst(res, &rt);
                for k in 0..a.len() {
                    self.code.push(I::Icmp(p, t.w(), d + k as u32, a[k], b[k]));
                }
            }
            "fcmp" => {
                skip_attrs(lx);
                let p = match lx.next() {
                    Tok::W(w) => FPREDS.iter().position(|x| *x == w).unwrap() as u8,
                    t => panic!("{:?}", t),
                };
                let (t, a) = self.tval(lx);
                lx.expect(b',');
                let b = self.val(lx, &t);
                let rt = match &t {
                    Ty::Vec(n, _) => Ty::Vec(*n, Rc::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                };
                let d = self.dst(res, &rt);
                for k in 0..a.len() {
                    self.code.push(I::FCmp(p, t.w(), d + k as u32, a[k], b[k]));
                }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                skip_attrs(lx);
                let (t, a) = self.tval(lx);
                lx.expect(b',');
                let b = self.val(lx, &t);
                let d = self.dst(res, &t);
                let o = match op {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                for k in 0..a.len() {
                    self.code.push(I::FBin(o, t.w(), d + k as u32, a[k], b[k]));
                }
            }
            "fneg" => {
                skip_attrs(lx);
                let (t, a) = self.tval(lx);
                let d = self.dst(res, &t);
                for k in 0..a.len() {
                    self.code.push(I::FBin(FOp::Neg, t.w(), d + k as u32, a[k], a[k]));
                }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "ptrtoaddr" => {
                skip_attrs(lx);
                let (t, a) = self.tval(lx);
                assert!(lx.eatw("to"));
                let to = self.m.ty(lx);
                let d = self.dst(res, &to);
                let (fw, tw) = (t.w(), to.w());
                if op == "bitcast" && a.len() != to.nflat() {
                    // vector <-> scalar/vector re-slicing, little endian
                    let mut ops = a.clone();
                    let mut ow = fw;
                    if ow == 1 || true {
                        // combine everything to one big integer when total fits 128 bits
                        let total = ow as u32 * ops.len() as u32;
                        if total > 128 {
                            self.code.push(I::Bad("wide bitcast".into()));
                            return;
                        }
                        let bw = total as u8;
                        let acc = self.tmp(1);
                        let z = self.imm(0, bw);
                        self.code.push(I::Mov(acc, z));
                        for (k, o) in ops.drain(..).enumerate() {
                            let x = self.tmp(1);
                            if bw != ow {
                                self.code.push(I::Cast(Cast::ZExt, ow, bw, x, o));
                            } else {
                                self.code.push(I::Mov(x, o));
                            }
                            let sh = self.imm(k as u128 * ow as u128, bw);
                            self.code.push(I::Bin(Op::Shl, bw, x, Opnd::R(x), sh));
                            self.code.push(I::Bin(Op::Or, bw, acc, Opnd::R(acc), Opnd::R(x)));
                        }
                        ow = bw;
                        let n = to.nflat();
                        for k in 0..n {
                            let x = self.tmp(1);
                            let sh = self.imm(k as u128 * tw as u128, ow);
                            self.code.push(I::Bin(Op::LShr, ow, x, Opnd::R(acc), sh));
                            if ow != tw {
                                self.code.push(I::Cast(Cast::Trunc, ow, tw, d + k as u32, Opnd::R(x)));
                            } else {
                                self.code.push(I::Mov(d + k as u32, Opnd::R(x)));
                            }
                        }
                    }
                    return;
                }
                let c = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if fw > tw {
                            Cast::Trunc
                        } else if fw < tw {
                            Cast::ZExt
                        } else {
                            Cast::Same
                        }
                    }
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptrunc" => Cast::FpTrunc,
                    "fpext" => Cast::FpExt,
                    _ => Cast::Same,
                };
                for k in 0..a.len() {
                    if c == Cast::Same {
                        self.code.push(I::Mov(d + k as u32, a[k]));
                    } else {
                        self.code.push(I::Cast(c, fw, tw, d + k as u32, a[k]));
                    }
                }
            }
            "freeze" => {
                let (t, a) = self.tval(lx);
                let d = self.dst(res, &t);
                for k in 0..a.len() {
                    self.code.push(I::Mov(d + k as u32, a[k]));
                }
            }
            "select" => {
                skip_attrs(lx);
                let (ct, c) = self.tval(lx);
                lx.expect(b',');
                let (t, a) = self.tval(lx);
                lx.expect(b',');
                let (_, b) = self.tval(lx);
                let d = self.dst(res, &t);
                let mut fl = vec![];
                t.flat(0, &mut fl);
                let vc = matches!(ct, Ty::Vec(..));
                for k in 0..a.len() {
                    self.code.push(I::Select(d + k as u32, if vc { c[k] } else { c[0] }, a[k], b[k], if fl[k].1 == Ty::Ptr { 255 } else { fl[k].1.w() }));
                }
            }
            "phi" => {
                skip_attrs(lx);
                let t = self.m.ty(lx);
                let d = self.dst(res, &t);
                let mut inc = vec![];
                loop {
                    lx.expect(b'[');
                    let v = self.val(lx, &t);
                    lx.expect(b',');
                    let l = match lx.next() {
                        Tok::L(n) => n,
                        t => panic!("{:?}", t),
                    };
                    lx.expect(b']');
                    inc.push((v, l));
                    let p = lx.p;
                    if lx.next() != Tok::P(b',') || lx.peek() != Tok::P(b'[') {
                        lx.p = p;
                        break;
                    }
                }
                self.phis.entry(self.cur).or_default().push((d, inc));
            }
            "load" => {
                skip_attrs(lx);
                let t = self.m.ty(lx);
                lx.expect(b',');
                let (_, a) = self.tval(lx);
                let d = self.dst(res, &t);
                if let Ty::Vec(n, et) = &t {
                    if **et == Ty::Int(1) {
                        assert!(*n <= 64);
                        let x = self.tmp(1);
                        self.code.push(I::Load { d: x, a: a[0], off: 0, w: *n as u8 });
                        for k in 0..*n as u32 {
                            let y = self.tmp(1);
                            let sh = self.imm(k as u128, *n as u8);
                            self.code.push(I::Bin(Op::LShr, *n as u8, y, Opnd::R(x), sh));
                            self.code.push(I::Cast(Cast::Trunc, *n as u8, 1, d + k, Opnd::R(y)));
                        }
                        return;
                    }
                }
                let mut fl = vec![];
                t.flat(0, &mut fl);
                // the address register may alias the first destination only for scalars
                for (k, (o, ft)) in fl.iter().enumerate() {
                    self.code.push(I::Load { d: d + k as u32, a: a[0], off: *o as u32, w: ft.w() });
                }
            }
            "store" => {
                skip_attrs(lx);
                let (t, v) = self.tval(lx);
                lx.expect(b',');
                let (_, a) = self.tval(lx);
                let mut fl = vec![];
                t.flat(0, &mut fl);
                for (k, (o, ft)) in fl.iter().enumerate() {
                    self.code.push(I::Store { v: v[k], a: a[0], off: *o as u32, w: ft.w() });
                }
            }
            "getelementptr" => {
                skip_attrs(lx);
                while lx.eatw("inrange") {
                    lx.skip_group(b'(', b')')
                }
                let et = self.m.ty(lx);
                lx.expect(b',');
                let (bt, base) = self.tval(lx);
                if let Ty::Vec(..) = bt {
                    self.code.push(I::Bad("vector gep".into()));
                    return;
                }
                let mut off: i64 = 0;
                let mut terms: Vec<(Opnd, u8, i64)> = vec![];
                let mut cur: Option<Ty> = None;
                loop {
                    let p = lx.p;
                    if !lx.eat(b',') {
                        break;
                    }
                    if let Tok::M(_) = lx.peek() {
                        lx.p = p;
                        break;
                    }
                    let (it, iv) = self.tval(lx);
                    let (scale, next) = match &cur {
                        None => (et.size() as i64, et.clone()),
                        Some(t @ Ty::Struct(..)) => {
                            let idx = match iv[0] {
                                Opnd::V(Val::I(x)) => x,
                                _ => panic!("gep struct idx"),
                            };
                            let (o, n) = t.offset(idx);
                            off += o as i64;
                            cur = Some(n);
                            continue;
                        }
                        Some(t) => {
                            let (_, n) = t.offset(0);
                            (n.size() as i64, n)
                        }
                    };
                    cur = Some(next);
                    match iv[0] {
                        Opnd::V(Val::I(x)) => off = off.wrapping_add((sext(x as u128, it.w()) as i64).wrapping_mul(scale)),
                        o => terms.push((o, it.w(), scale)),
                    }
                }
                let d = self.dst(res, &Ty::Ptr);
                if terms.is_empty() {
                    self.code.push(I::GepC(d, base[0], off));
                } else if terms.len() == 1 && terms[0].1 == 64 {
                    self.code.push(I::Gep1(d, base[0], terms[0].0, terms[0].2, off));
                } else {
                    self.code.push(I::Gep(d, base[0], off, terms.into()));
                }
            }
            "alloca" => {
                skip_attrs(lx);
                lx.eatw("inalloca");
                let t = self.m.ty(lx);
                let mut n = Opnd::V(Val::I(1));
                let mut align = t.align();
                while lx.eat(b',') {
                    match lx.peek() {
                        Tok::W("align") => {
                            lx.next();
                            if let Tok::W(w) = lx.next() {
                                align = w.parse().unwrap()
                            }
                        }
                        Tok::M(_) => break,
                        Tok::W("addrspace") => break,
                        _ => {
                            let (_, v) = self.tval(lx);
                            n = v[0];
                        }
                    }
                }
                let d = self.dst(res, &Ty::Ptr);
                self.code.push(I::Alloca { d, n, size: t.size(), align: align.max(1) });
            }
            "extractvalue" => {
                let (t, v) = self.tval(lx);
                let (mut lo, mut ct) = (0usize, t);
                while lx.eat(b',') {
                    let i = match lx.peek() {
                        Tok::W(w) => {
                            lx.next();
                            w.parse::<u64>().unwrap()
                        }
                        _ => break,
                    };
                    let (o, n) = flat_index(&ct, i);
                    lo += o;
                    ct = n;
                }
                let d = self.dst(res, &ct);
                for k in 0..ct.nflat() {
                    self.code.push(I::Mov(d + k as u32, v[lo + k]));
                }
            }
            "insertvalue" => {
                let (t, v) = self.tval(lx);
                lx.expect(b',');
                let (_, x) = self.tval(lx);
                let (mut lo, mut ct) = (0usize, t.clone());
                while lx.eat(b',') {
                    let i = match lx.peek() {
                        Tok::W(w) => {
                            lx.next();
                            w.parse::<u64>().unwrap()
                        }
                        _ => break,
                    };
                    let (o, n) = flat_index(&ct, i);
                    lo += o;
                    ct = n;
                }
                let d = self.dst(res, &t);
                for k in 0..t.nflat() {
                    let o = if k >= lo && k < lo + ct.nflat() { x[k - lo] } else { v[k] };
                    self.code.push(I::Mov(d + k as u32, o));
                }
            }
            "extractelement" => {
                let (t, v) = self.tval(lx);
                lx.expect(b',');
                let (_, i) = self.tval(lx);
                let et = match &t {
                    Ty::Vec(_, e) => (**e).clone(),
                    _ => panic!(),
                };
                let d = self.dst(res, &et);
                match i[0] {
                    Opnd::V(Val::I(k)) => self.code.push(I::Mov(d, v[k as usize])),
                    o => self.code.push(I::ExtractDyn { d, v: v.into(), idx: o }),
                }
            }
            "insertelement" => {
                let (t, v) = self.tval(lx);
                lx.expect(b',');
                let (_, x) = self.tval(lx);
                lx.expect(b',');
                let (_, i) = self.tval(lx);
                let d = self.dst(res, &t);
                match i[0] {
                    Opnd::V(Val::I(p)) => {
                        for k in 0..v.len() {
                            self.code.push(I::Mov(d + k as u32, if k as u64 == p { x[0] } else { v[k] }));
                        }
                    }
                    _ => self.code.push(I::Bad("insertelement dyn".into())),
                }
            }
            "shufflevector" => {
                let (t, a) = self.tval(lx);
                lx.expect(b',');
                let (_, b) = self.tval(lx);
                lx.expect(b',');
                let (mt, mk) = self.tval(lx);
                let (n, et) = match (&mt, &t) {
                    (Ty::Vec(n, _), Ty::Vec(_, e)) => (*n, e.clone()),
                    _ => panic!(),
                };
                let d = self.dst(res, &Ty::Vec(n, et));
                for k in 0..n as usize {
                    let j = match mk[k] {
                        Opnd::V(Val::I(j)) => j as usize,
                        _ => 0,
                    };
                    let o = if j < a.len() {
                        a[j]
                    } else if j - a.len() < b.len() {
                        b[j - a.len()]
                    } else {
                        a[0]
                    };
                    self.code.push(I::Mov(d + k as u32, o));
                }
            }
            "br" => {
                if let Tok::W("label") = lx.peek() {
                    let l = self.label(lx);
                    self.edges.push((self.code.len(), self.cur, vec![l]));
                    self.code.push(I::Br(empty));
                } else {
                    let (_, c) = self.tval(lx);
                    lx.expect(b',');
                    let a = self.label(lx);
                    lx.expect(b',');
                    let b = self.label(lx);
                    self.edges.push((self.code.len(), self.cur, vec![a, b]));
                    self.code.push(I::CondBr(c[0], empty.clone(), empty));
                }
            }
            "switch" => {
                let (t, v) = self.tval(lx);
                lx.expect(b',');
                let d = self.label(lx);
                lx.expect(b'[');
                let mut tg = vec![d];
                let mut cs: Vec<(u64, Edge)> = vec![];
                loop {
                    lx.skip_nl();
                    if lx.eat(b']') {
                        break;
                    }
                    let ct = self.m.ty(lx);
                    let mut c = vec![];
                    self.m.constant(lx, &ct, &mut c);
                    lx.expect(b',');
                    tg.push(self.label(lx));
                    cs.push((c[0] as u64, empty.clone()));
                }
                self.edges.push((self.code.len(), self.cur, tg));
                self.code.push(I::Switch(v[0], t.w(), cs.into(), empty));
            }
            "ret" => {
                if lx.eatw("void") {
                    self.code.push(I::Ret(Rc::new([])));
                } else {
                    let (_, v) = self.tval(lx);
                    self.code.push(I::Ret(v.into()));
                }
            }
            "unreachable" => self.code.push(I::Unreachable),
            "resume" => {
                let (_, v) = self.tval(lx);
                self.code.push(I::Resume(v[0], v[1]));
            }
            "landingpad" => {
                let t = self.m.ty(lx);
                let d = self.dst(res, &t);
                let mut catch = false;
                // clauses may be on this or following lines
                loop {
                    let p = lx.p;
                    match lx.next() {
                        Tok::W("cleanup") => {}
                        Tok::W("catch") => {
                            catch = true;
                            self.tval(lx);
                        }
                        Tok::W("filter") => {
                            let t = self.m.ty(lx);
                            let mut v = vec![];
                            self.m.constant(lx, &t, &mut v);
                        }
                        Tok::NL => {
                            let q = lx.p;
                            match lx.next() {
                                Tok::W("cleanup") | Tok::W("catch") | Tok::W("filter") => lx.p = q,
                                _ => {
                                    lx.p = p;
                                    break;
                                }
                            }
                        }
                        Tok::Eof => break,
                        _ => {
                            // metadata: skip to end of line but look for clauses on next lines
                            while lx.p < lx.end && lx.s[lx.p] != b'\n' {
                                lx.p += 1
                            }
                        }
                    }
                }
                self.code.push(I::LandingPad { d, catch });
            }
            "fence" => self.code.push(I::Nop),
            "atomicrmw" => {
                skip_attrs(lx);
                let o = match lx.next() {
                    Tok::W("xchg") => Rmw::Xchg,
                    Tok::W("add") => Rmw::Add,
                    Tok::W("sub") => Rmw::Sub,
                    Tok::W("and") => Rmw::And,
                    Tok::W("or") => Rmw::Or,
                    Tok::W("xor") => Rmw::Xor,
                    Tok::W("nand") => Rmw::Nand,
                    Tok::W("max") => Rmw::Max,
                    Tok::W("min") => Rmw::Min,
                    Tok::W("umax") => Rmw::UMax,
                    Tok::W("umin") => Rmw::UMin,
                    t => panic!("rmw {:?}", t),
                };
                let (_, a) = self.tval(lx);
                lx.expect(b',');
                let (t, v) = self.tval(lx);
                let d = if res.is_some() { self.dst(res, &t) } else { self.tmp(1) };
                self.code.push(I::Rmw { d, op: o, a: a[0], v: v[0], w: t.w() });
            }
            "cmpxchg" => {
                lx.eatw("weak");
                skip_attrs(lx);
                let (_, a) = self.tval(lx);
                lx.expect(b',');
                let (t, c) = self.tval(lx);
                lx.expect(b',');
                let (_, n) = self.tval(lx);
                let d = if res.is_some() { self.dst(res, &Ty::Struct(vec![t.clone(), Ty::Int(1)], false)) } else { self.tmp(2) };
                self.code.push(I::CmpXchg { d, a: a[0], c: c[0], n: n[0], w: t.w() });
            }
            "call" | "invoke" => self.call(lx, res, op == "invoke"),
            _ => {
                self.code.push(I::Bad(op.into()));
            }
        }
    }

    fn call(&mut self, lx: &mut Lex<'static>, res: Option<&'static str>, invoke: bool) {
        skip_attrs(lx);
        let rt = self.m.ty(lx);
        skip_attrs(lx);
        // optional function type for varargs
        if lx.peek() == Tok::P(b'(') {
            lx.skip_group(b'(', b')');
        }
        let (name, fptr): (Option<&'static str>, Option<Opnd>) = match lx.next() {
            Tok::G(n) => (Some(self.m.aliases.get(n).copied().unwrap_or(n)), None),
            Tok::L(n) => {
                let s = self.slot(n, &Ty::Ptr);
                (None, Some(Opnd::R(s)))
            }
            Tok::W("asm") => {
                // inline assembly: skip flags and strings, treated as a no-op returning its inputs as zero
                loop {
                    match lx.next() {
                        Tok::P(b'(') => break,
                        Tok::Eof => panic!(),
                        _ => {}
                    }
                }
                self.code.push(I::Bad("asm".into()));
                return;
            }
            Tok::W("inttoptr") | Tok::W("null") | Tok::W("undef") | Tok::W("poison") => {
                self.code.push(I::Bad("call const".into()));
                return;
            }
            t => panic!("callee {:?} {}", t, lx.ctx()),
        };
        lx.expect(b'(');
        let mut args: Vec<Opnd> = vec![];
        let mut atys: Vec<Ty> = vec![];
        if !lx.eat(b')') {
            loop {
                let (t, v) = self.tval(lx);
                if t != Ty::Meta {
                    atys.push(t);
                    args.extend(v);
                }
                if lx.eat(b')') {
                    break;
                }
                lx.expect(b',');
            }
        }
        let nret = rt.nflat() as u32;
        let d = if res.is_some() { self.dst(res, &rt) } else { self.tmp(nret) };
        let mut labels: Option<(&'static str, &'static str)> = None;
        if invoke {
            // attributes then newline then "to label %x unwind label %y"
            loop {
                match lx.next() {
                    Tok::W("to") => break,
                    Tok::P(b'[') => {
                        while lx.next() != Tok::P(b']') {}
                    }
                    Tok::Eof => panic!("invoke eof"),
                    _ => {}
                }
            }
            let a = self.label(lx);
            lx.skip_nl();
            assert!(lx.eatw("unwind"));
            let b = self.label(lx);
            labels = Some((a, b));
        }
        if let Some(n) = name {
            if n.starts_with("llvm.") {
                let before = self.code.len();
                self.intrinsic(n, &rt, d, &args, &atys);
                let _ = before;
                if let Some((a, _)) = labels {
                    self.edges.push((self.code.len(), self.cur, vec![a]));
                    self.code.push(I::Br(Edge { pc: 0, copies: Rc::new([]) }));
                }
                return;
            }
        }
        let f = match (name, fptr) {
            (Some(n), _) => Callee::Fn(*self.m.fmap.get(n).unwrap_or_else(|| panic!("fn {}", n))),
            (_, Some(o)) => Callee::Ptr(o),
            _ => unreachable!(),
        };
        if let Some((a, b)) = labels {
            self.edges.push((self.code.len(), self.cur, vec![a, b]));
        }
        let retw = if nret == 1 {
            let mut fl = vec![];
            rt.flat(0, &mut fl);
            fl[0].1.w()
        } else {
            0
        };
        self.code.push(I::Call { d, nret, f, args: args.into(), unwind: None, retw });
    }

    fn intrinsic(&mut self, n: &'static str, rt: &Ty, d: u32, args: &[Opnd], atys: &[Ty]) {
        let base = &n[5..];
        let is = |p: &str| base.starts_with(p);
        for p in [
            "lifetime.", "experimental.noalias.scope", "dbg.", "donothing", "x86.sse2.pause", "prefetch", "invariant.", "sideeffect", "var.annotation", "stackrestore",
        ] {
            if is(p) {
                for k in 0..rt.nflat() {
                    self.code.push(I::Mov(d + k as u32, Opnd::V(Val::I(0))));
                }
                return;
            }
        }
        if is("assume") {
            return;
        }
        if is("memcpy.") || is("memmove.") {
            self.code.push(I::MemCpy(args[0], args[1], args[2]));
            return;
        }
        if is("memset.") {
            self.code.push(I::MemSet(args[0], args[1], args[2]));
            return;
        }
        if is("trap") || is("debugtrap") || is("ubsantrap") {
            self.code.push(I::Bad("trap".into()));
            return;
        }
        if is("expect.") || is("threadlocal.address") || is("ssa.copy") || is("launder.invariant") || is("strip.invariant") || is("arithmetic.fence") {
            for k in 0..rt.nflat() {
                self.code.push(I::Mov(d + k as u32, args[k]));
            }
            return;
        }
        if is("is.constant") {
            self.code.push(I::Mov(d, Opnd::V(Val::I(0))));
            return;
        }
        if is("stacksave") {
            self.code.push(I::Mov(d, Opnd::V(Val::I(0))));
            return;
        }
        if is("ptrmask") {
            self.code.push(I::Bin(Op::And, 64, d, args[0], args[1]));
            return;
        }
        if is("load.relative") {
            self.code.push(I::LoadRelative(d, args[0], args[1]));
            return;
        }
        if is("x86.sse2.pmovmskb.128") {
            self.code.push(I::PMovMskB(d, args.into()));
            return;
        }
        if is("vector.reduce.") {
            let kind = base[14..].split('.').next().unwrap();
            let w = atys[0].w();
            let mut cur = args[0];
            let o = match kind {
                "add" => Some(Op::Add),
                "or" => Some(Op::Or),
                "and" => Some(Op::And),
                "xor" => Some(Op::Xor),
                "mul" => Some(Op::Mul),
                _ => None,
            };
            let ik = match kind {
                "umax" => Some(Intr::UMax),
                "umin" => Some(Intr::UMin),
                "smax" => Some(Intr::SMax),
                "smin" => Some(Intr::SMin),
                _ => None,
            };
            for k in 1..args.len() {
                let x = self.tmp(1);
                if let Some(o) = o {
                    self.code.push(I::Bin(o, w, x, cur, args[k]));
                } else if let Some(ik) = ik {
                    self.code.push(I::Intr { k: ik, w, w2: w, d: x, args: [cur, args[k], cur] });
                } else {
                    self.code.push(I::Bad(n.into()));
                }
                cur = Opnd::R(x);
            }
            self.code.push(I::Mov(d, cur));
            return;
        }
        let k = match base.split('.').next().unwrap() {
            "umin" => Intr::UMin,
            "umax" => Intr::UMax,
            "smin" => Intr::SMin,
            "smax" => Intr::SMax,
            "abs" => Intr::Abs,
            "ctpop" => Intr::CtPop,
            "ctlz" => Intr::CtLz,
            "cttz" => Intr::CtTz,
            "bswap" => Intr::BSwap,
            "bitreverse" => Intr::BitRev,
            "fshl" => Intr::FShl,
            "fshr" => Intr::FShr,
            "ucmp" => Intr::UCmp,
            "scmp" => Intr::SCmp,
            "uadd" if is("uadd.sat") => Intr::UAddSat,
            "usub" if is("usub.sat") => Intr::USubSat,
            "sadd" if is("sadd.sat") => Intr::SAddSat,
            "ssub" if is("ssub.sat") => Intr::SSubSat,
            "uadd" => Intr::AddO(false),
            "sadd" => Intr::AddO(true),
            "usub" => Intr::SubO(false),
            "ssub" => Intr::SubO(true),
            "umul" => Intr::MulO(false),
            "smul" => Intr::MulO(true),
            "fabs" => Intr::FAbs,
            "floor" => Intr::FFloor,
            "ceil" => Intr::FCeil,
            "trunc" => Intr::FTrunc,
            "rint" | "nearbyint" | "roundeven" => Intr::FRint,
            "sqrt" => Intr::FSqrt,
            "fma" | "fmuladd" => Intr::FMa,
            "copysign" => Intr::FCopySign,
            "fptoui" => Intr::FpToUiSat,
            "fptosi" => Intr::FpToSiSat,
            "minnum" | "minimumnum" => Intr::FMin,
            "maxnum" | "maximumnum" => Intr::FMax,
            _ => {
                self.code.push(I::Bad(n.into()));
                return;
            }
        };
        let w = atys[0].w();
        let mut fl = vec![];
        rt.flat(0, &mut fl);
        let z = Opnd::V(Val::I(0));
        if matches!(k, Intr::AddO(_) | Intr::SubO(_) | Intr::MulO(_)) {
            if matches!(atys[0], Ty::Vec(..)) {
                self.code.push(I::Bad(n.into()));
                return;
            }
            self.code.push(I::Intr { k, w, w2: w, d, args: [args[0], args[1], z] });
            return;
        }
        let lanes = atys[0].nflat();
        let w2 = fl[0].1.w();
        for l in 0..lanes {
            let g = |i: usize| -> Opnd {
                // i-th argument, lane l
                let mut o = 0;
                for t in &atys[..i.min(atys.len())] {
                    o += t.nflat()
                }
                if i >= atys.len() {
                    return z;
                }
                if atys[i].nflat() == lanes {
                    args[o + l]
                } else {
                    args[o]
                }
            };
            self.code.push(I::Intr { k, w, w2, d: d + l as u32, args: [g(0), g(1), g(2)] });
        }
    }
}

fn flat_index(t: &Ty, i: u64) -> (usize, Ty) {
    match t {
        Ty::Struct(f, _) => (f[..i as usize].iter().map(|t| t.nflat()).sum(), f[i as usize].clone()),
        Ty::Arr(_, e) | Ty::Vec(_, e) => (i as usize * e.nflat(), (**e).clone()),
        _ => panic!(),
    }
}
pub const FPREDS: &[&str] = &["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"];
fn pred(w: &str) -> Pred {
    match w {
        "eq" => Pred::Eq,
        "ne" => Pred::Ne,
        "ugt" => Pred::Ugt,
        "uge" => Pred::Uge,
        "ult" => Pred::Ult,
        "ule" => Pred::Ule,
        "sgt" => Pred::Sgt,
        "sge" => Pred::Sge,
        "slt" => Pred::Slt,
        "sle" => Pred::Sle,
        _ => panic!("pred {}", w),
    }
}
