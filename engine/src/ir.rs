//! Lazy parser for textual LLVM IR.
use crate::expr::{Op, Pool, E};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u16),
    Ptr,
    Void,
    Float(u8), // bytes
    Struct(Vec<Ty>, bool),
    Array(u64, Box<Ty>),
    Vector(u64, Box<Ty>),
    Other,
}

fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::Float(b) => *b as u64,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vector(n, t) => (n * t.size()).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => up((*w as u64 + 7) / 8, self.align()),
            Ty::Ptr => 8,
            Ty::Float(b) => *b as u64,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                up(o, self.align())
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => n * t.store_size(),
            _ => 0,
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        o = up(o, t.align());
                    }
                    if j as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    /// Leaves (scalar type, byte offset), in order.
    pub fn leaves(&self) -> Vec<(Ty, u64)> {
        let mut v = vec![];
        self.lv(0, &mut v);
        v
    }
    fn lv(&self, o: u64, v: &mut Vec<(Ty, u64)>) {
        match self {
            Ty::Struct(f, _) => {
                for i in 0..f.len() {
                    let (fo, t) = self.field(i as u64);
                    t.lv(o + fo, v);
                }
            }
            Ty::Array(n, t) | Ty::Vector(n, t) => {
                for i in 0..*n {
                    t.lv(o + i * t.size(), v);
                }
            }
            Ty::Void => {}
            _ => v.push((self.clone(), o)),
        }
    }
    pub fn nleaves(&self) -> u32 {
        match self {
            Ty::Struct(f, _) => f.iter().map(|t| t.nleaves()).sum(),
            Ty::Array(n, t) | Ty::Vector(n, t) => *n as u32 * t.nleaves(),
            Ty::Void => 0,
            _ => 1,
        }
    }
    pub fn width(&self) -> u8 {
        match self {
            Ty::Int(w) => {
                assert!(*w <= 128);
                *w as u8
            }
            Ty::Ptr => 64,
            Ty::Float(b) => b * 8,
            _ => 64,
        }
    }
    fn leaf_index(&self, idx: &[u64]) -> (u32, Ty) {
        if idx.is_empty() {
            return (0, self.clone());
        }
        match self {
            Ty::Struct(f, _) => {
                let mut n = 0;
                for t in &f[..idx[0] as usize] {
                    n += t.nleaves();
                }
                let (m, t) = f[idx[0] as usize].leaf_index(&idx[1..]);
                (n + m, t)
            }
            Ty::Array(_, t) => {
                let (m, r) = t.leaf_index(&idx[1..]);
                (idx[0] as u32 * t.nleaves() + m, r)
            }
            _ => panic!("leaf_index"),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Opnd {
    R(u32),
    C(u64),
    K(E),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Assume,
    MemCpy,
    MemMove,
    MemSet,
    UMax,
    UMin,
    SMax,
    SMin,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    BSwap,
    BitReverse,
    Ctlz,
    Cttz,
    Ctpop,
    Abs,
    Fshl,
    Fshr,
    UCmp,
    SCmp,
    LoadRel,
    Identity,
    Trap,
    ConstFalse,
    ThreadLocal,
    PtrMask,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Built {
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Nop,
    Panic,
    Memcmp,
    Memchr,
    Strlen,
    /// The keys of a hash map: always the same.
    Random,
    MemCpy,
    MemSet,
    SymByte,
    SymChoice,
    SymAssume,
    SymFail,
    SymReach,
    SymArg,
    SymObserve,
    SymConcrete,
    SymSteps,
    Abort,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ptr(Opnd),
    Intr(Intr, u8),
    Built(Built),
    Extern(&'static str),
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: Op, w: u8, dst: u32, a: Opnd, b: Opnd },
    Icmp { p: Pred, w: u8, dst: u32, a: Opnd, b: Opnd },
    Cast { k: Cast, fw: u8, tw: u8, dst: u32, a: Opnd },
    Select { w: u8, ptr: bool, dst: u32, c: Opnd, a: Opnd, b: Opnd },
    Load { w: u8, dst: u32, p: Opnd, off: u32 },
    Store { w: u8, v: Opnd, p: Opnd, off: u32 },
    Gep { dst: u32, base: Opnd, off: u64, idx: Opnd, iw: u8, scale: u64 },
    GepN { dst: u32, base: Opnd, off: u64, idx: Box<[(Opnd, u8, u64)]> },
    Alloca { dst: u32, off: u32 },
    Move { dst: u32, a: Opnd },
    Rmw { op: u8, w: u8, dst: u32, p: Opnd, v: Opnd },
    Cas { w: u8, dst: u32, p: Opnd, c: Opnd, n: Opnd },
    Br { e: u32 },
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch { w: u8, v: Opnd, def: u32, cases: Box<[(u64, u32)]> },
    Ret { v: Box<[Opnd]> },
    Unreachable,
    Call { callee: Callee, args: Box<[Opnd]>, aw: Box<[u8]>, dst: u32, ret: Box<[u8]> },
    Unsup(Box<str>),
}

pub struct Edge {
    pub pc: u32,
    pub block: u32,
    pub moves: Box<[(u32, Opnd)]>,
}

pub struct Func {
    pub id: u32,
    pub insts: Vec<Inst>,
    pub edges: Vec<Edge>,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub frame: u32,
    pub cov: u32,
    pub nblocks: u32,
    pub retw: Vec<u8>,
}

pub struct FuncDecl {
    pub name: &'static str,
    pub module: usize,
    header: &'static str,
    body: &'static str,
    pub cov: u32,
    pub parsed: Option<&'static Func>,
}
pub struct GlobDecl {
    pub name: &'static str,
    module: usize,
    line: &'static str,
    pub constant: bool,
    pub size: u64,
}
#[derive(Clone, Copy)]
enum Sym {
    Func(u32),
    Glob(u32),
    Alias(&'static str),
}
struct Module {
    pub path: String,
    types: HashMap<&'static str, &'static str>,
    syms: HashMap<&'static str, Sym>,
}
pub struct Program {
    modules: Vec<Module>,
    globals: HashMap<&'static str, (usize, Sym)>,
    pub funcs: Vec<FuncDecl>,
    pub globs: Vec<GlobDecl>,
    extglobs: HashMap<&'static str, u32>,
    extfuncs: HashMap<&'static str, u32>,
    pub ncov: u32,
}

pub const GLOB_ID: u64 = 0x4000_0000;
pub const FUNC_ID: u64 = 0x7F00_0000;
pub fn func_addr(i: u32) -> u64 {
    (FUNC_ID << 32) | ((i as u64) << 4)
}
pub fn glob_addr(i: u32) -> u64 {
    (GLOB_ID + i as u64) << 32
}

/// Cursor over one (joined) line.
struct Cur<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> Cur<'a> {
    fn new(s: &'a str) -> Self {
        Cur { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!(
                "IR: expected {:?} at {:?} in {:?}",
                c as char,
                String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..]),
                String::from_utf8_lossy(self.s)
            );
        }
    }
    fn isword(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+'
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && Self::isword(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let i = self.i;
        let w = self.word();
        self.i = i;
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let i = self.i;
        if self.word() == w {
            true
        } else {
            self.i = i;
            false
        }
    }
    /// Name after a sigil ('%' or '@'), quotes kept off.
    fn name(&mut self) -> &'a str {
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i = st;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            let r = std::str::from_utf8(&self.s[st..self.i]).unwrap();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && Self::isword(self.s[self.i]) {
                self.i += 1;
            }
            std::str::from_utf8(&self.s[st..self.i]).unwrap()
        }
    }
    fn skip_balanced(&mut self) {
        // at an opening bracket
        let mut d = 0i32;
        loop {
            let c = self.s[self.i];
            match c {
                b'(' | b'[' | b'{' | b'<' => d += 1,
                b')' | b']' | b'}' | b'>' => d -= 1,
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                return;
            }
        }
    }
    fn uint(&mut self) -> u64 {
        self.word().parse().unwrap()
    }
}

struct FnCtx<'p> {
    prog: &'p mut Program,
    pool: &'p mut Pool,
    module: usize,
    names: HashMap<&'static str, (u32, Ty)>,
    nregs: u32,
}

impl Program {
    pub fn new() -> Self {
        Program {
            modules: vec![],
            globals: HashMap::new(),
            funcs: vec![],
            globs: vec![],
            extglobs: HashMap::new(),
            extfuncs: HashMap::new(),
            ncov: 0,
        }
    }
    pub fn load(&mut self, path: &str) {
        let text = std::fs::read(path).unwrap_or_else(|e| panic!("read {}: {}", path, e));
        let text: &'static str = Box::leak(String::from_utf8(text).expect("utf8 IR").into_boxed_str());
        let mi = self.modules.len();
        let mut m = Module { path: path.to_string(), types: HashMap::new(), syms: HashMap::new() };
        let mut pos = 0;
        let bytes = text.as_bytes();
        while pos < bytes.len() {
            let end = memchr(b'\n', &bytes[pos..]).map(|x| pos + x).unwrap_or(bytes.len());
            let line = &text[pos..end];
            let mut next = end + 1;
            match line.as_bytes().first() {
                Some(b'@') => {
                    let mut c = Cur::new(line);
                    c.i = 1;
                    let name: &'static str = unsafe { std::mem::transmute(c.name()) };
                    c.expect(b'=');
                    let rest = &line[c.i..];
                    let private = rest.starts_with(" private") || rest.starts_with(" internal");
                    let sym = if let Some(i) = find_word(rest, "alias") {
                        // @a = ... alias ty, ptr @b
                        let j = rest[i..].rfind('@').unwrap();
                        let mut c2 = Cur::new(&rest[i + j + 1..]);
                        let t: &'static str = unsafe { std::mem::transmute(c2.name()) };
                        Sym::Alias(t)
                    } else {
                        let ext = find_word(rest, "external").is_some() || find_word(rest, "extern_weak").is_some();
                        if ext {
                            pos = next;
                            continue;
                        }
                        let id = self.globs.len() as u32;
                        self.globs.push(GlobDecl { name, module: mi, line, constant: false, size: 0 });
                        Sym::Glob(id)
                    };
                    m.syms.insert(name, sym);
                    if !private {
                        self.globals.entry(name).or_insert((mi, sym));
                    }
                }
                Some(b'%') => {
                    let mut c = Cur::new(line);
                    c.i = 1;
                    let name: &'static str = unsafe { std::mem::transmute(c.name()) };
                    if let Some(i) = line.find("= type ") {
                        m.types.insert(name, &line[i + 7..]);
                    }
                }
                Some(b'd') if line.starts_with("define ") => {
                    // body up to "\n}\n"
                    let e = text[end..].find("\n}").map(|x| end + x).unwrap();
                    let body = if e >= end + 1 { &text[end + 1..e + 1] } else { "" };
                    let at = find_at(line);
                    let mut c = Cur::new(line);
                    c.i = at + 1;
                    let name: &'static str = unsafe { std::mem::transmute(c.name()) };
                    let private = line.starts_with("define internal") || line.starts_with("define private");
                    let id = self.funcs.len() as u32;
                    let cov = self.ncov;
                    self.ncov += body.len() as u32 / 24 + 2;
                    self.funcs.push(FuncDecl { name, module: mi, header: line, body, cov, parsed: None });
                    m.syms.insert(name, Sym::Func(id));
                    if !private {
                        self.globals.entry(name).or_insert((mi, Sym::Func(id)));
                    }
                    next = e + 3;
                }
                _ => {}
            }
            pos = next;
        }
        self.modules.push(m);
    }
    fn lookup(&self, mi: usize, name: &str) -> Option<(usize, Sym)> {
        if let Some(s) = self.modules[mi].syms.get(name) {
            if let Sym::Alias(t) = s {
                return self.lookup(mi, t);
            }
            return Some((mi, *s));
        }
        match self.globals.get(name) {
            Some((m2, Sym::Alias(t))) => self.lookup(*m2, t),
            Some(x) => Some(*x),
            None => None,
        }
    }
    pub fn find_func(&self, name: &str) -> Option<u32> {
        match self.globals.get(name) {
            Some((_, Sym::Func(i))) => Some(*i),
            Some((m, Sym::Alias(t))) => match self.lookup(*m, t) {
                Some((_, Sym::Func(i))) => Some(i),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn module_path(&self, f: u32) -> &str {
        &self.modules[self.funcs[f as usize].module].path
    }
    pub fn addr_of(&mut self, mi: usize, name: &'static str) -> u64 {
        match self.lookup(mi, name) {
            Some((_, Sym::Func(i))) => func_addr(i),
            Some((_, Sym::Glob(i))) => glob_addr(i),
            _ => {
                // unresolved: declared function or external global
                if let Some(&i) = self.extfuncs.get(name) {
                    return func_addr(i);
                }
                let id = self.funcs.len() as u32;
                self.funcs.push(FuncDecl { name, module: mi, header: "", body: "", cov: 0, parsed: None });
                self.extfuncs.insert(name, id);
                let _ = &self.extglobs;
                func_addr(id)
            }
        }
    }
    pub fn is_defined(&self, f: u32) -> bool {
        !self.funcs[f as usize].header.is_empty()
    }

    fn ty(&self, mi: usize, c: &mut Cur) -> Ty {
        match c.peek() {
            b'{' => {
                c.i += 1;
                let mut f = vec![];
                if c.eat(b'}') {
                    return Ty::Struct(f, false);
                }
                loop {
                    f.push(self.ty(mi, c));
                    if c.eat(b'}') {
                        break;
                    }
                    c.expect(b',');
                }
                Ty::Struct(f, false)
            }
            b'<' => {
                c.i += 1;
                if c.peek() == b'{' {
                    let t = self.ty(mi, c);
                    c.expect(b'>');
                    match t {
                        Ty::Struct(f, _) => Ty::Struct(f, true),
                        _ => unreachable!(),
                    }
                } else {
                    let n = c.uint();
                    assert!(c.eat_word("x"));
                    let t = self.ty(mi, c);
                    c.expect(b'>');
                    Ty::Vector(n, Box::new(t))
                }
            }
            b'[' => {
                c.i += 1;
                let n = c.uint();
                assert!(c.eat_word("x"));
                let t = self.ty(mi, c);
                c.expect(b']');
                Ty::Array(n, Box::new(t))
            }
            b'%' => {
                c.i += 1;
                let n = c.name();
                match self.modules[mi].types.get(n) {
                    Some(t) => self.ty(mi, &mut Cur::new(t)),
                    None => Ty::Other,
                }
            }
            _ => {
                let w = c.word();
                match w {
                    "ptr" => Ty::Ptr,
                    "void" => Ty::Void,
                    "half" | "bfloat" => Ty::Float(2),
                    "float" => Ty::Float(4),
                    "double" => Ty::Float(8),
                    "fp128" | "x86_fp80" => Ty::Float(16),
                    "metadata" | "label" | "token" | "opaque" => Ty::Other,
                    _ => {
                        if let Some(n) = w.strip_prefix('i') {
                            if let Ok(n) = n.parse::<u32>() {
                                return Ty::Int(n as u16);
                            }
                        }
                        panic!("IR: type {:?} in {:?}", w, String::from_utf8_lossy(c.s))
                    }
                }
            }
        }
    }
    /// Constant scalar: value of the expression at the cursor.
    fn const_scalar(&mut self, mi: usize, ty: &Ty, c: &mut Cur) -> u128 {
        match c.peek() {
            b'@' => {
                c.i += 1;
                let n: &'static str = unsafe { std::mem::transmute(c.name()) };
                self.addr_of(mi, n) as u128
            }
            b'-' | b'0'..=b'9' => {
                let w = c.word();
                if let Ty::Float(b) = ty {
                    if let Some(h) = w.strip_prefix("0x") {
                        let v = u64::from_str_radix(h.trim_start_matches(|c: char| "KLMHR".contains(c)), 16).unwrap_or(0);
                        return if *b == 4 { (f64::from_bits(v) as f32).to_bits() as u128 } else { v as u128 };
                    }
                    let v: f64 = w.parse().unwrap();
                    return if *b == 4 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
                }
                if let Ok(v) = w.parse::<i128>() {
                    v as u128
                } else {
                    w.parse::<u128>().unwrap()
                }
            }
            _ => {
                let w = c.word();
                match w {
                    "true" => 1,
                    "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" => 0,
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                        while c.peek() != b'(' {
                            c.word();
                        }
                        c.expect(b'(');
                        let t = self.ty(mi, c);
                        let v = self.const_scalar(mi, &t, c);
                        assert!(c.eat_word("to"));
                        let t2 = self.ty(mi, c);
                        c.expect(b')');
                        v & crate::expr::mask(t2.width())
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        while c.peek() != b'(' {
                            c.word();
                        }
                        c.expect(b'(');
                        let t = self.ty(mi, c);
                        let a = self.const_scalar(mi, &t, c);
                        c.expect(b',');
                        let t = self.ty(mi, c);
                        let b = self.const_scalar(mi, &t, c);
                        c.expect(b')');
                        let r = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            _ => a ^ b,
                        };
                        r & crate::expr::mask(t.width())
                    }
                    "getelementptr" => {
                        while c.peek() != b'(' {
                            if c.word().is_empty() {
                                panic!("gep const {:?}", String::from_utf8_lossy(c.s));
                            }
                            if c.peek() == b'(' && c.s[c.i + 1..].starts_with(b"-") {
                                c.skip_balanced(); // inrange(-16, 8)
                            }
                        }
                        c.expect(b'(');
                        let mut t = self.ty(mi, c);
                        c.expect(b',');
                        let pt = self.ty(mi, c);
                        let mut v = self.const_scalar(mi, &pt, c);
                        let mut first = true;
                        while c.eat(b',') {
                            let it = self.ty(mi, c);
                            let i = self.const_scalar(mi, &it, c) as i64;
                            if first {
                                v = v.wrapping_add((i.wrapping_mul(t.size() as i64)) as u128);
                                first = false;
                            } else {
                                let (o, ft) = t.field(i as u64);
                                v = v.wrapping_add(o as u128);
                                t = ft;
                            }
                        }
                        c.expect(b')');
                        v & (u64::MAX as u128)
                    }
                    _ => {
                        if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) {
                            return u128::from_str_radix(h, 16).unwrap();
                        }
                        panic!("IR: constant {:?} in {:?}", w, String::from_utf8_lossy(c.s))
                    }
                }
            }
        }
    }
    fn const_bytes(&mut self, mi: usize, ty: &Ty, c: &mut Cur, out: &mut [u8]) {
        match ty {
            Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                let p = c.peek();
                if p == b'c' && c.s[c.i + 1] == b'"' {
                    c.i += 2;
                    let mut o = 0;
                    while c.s[c.i] != b'"' {
                        if c.s[c.i] == b'\\' {
                            if c.s[c.i + 1] == b'\\' {
                                out[o] = b'\\';
                                c.i += 2;
                            } else {
                                let h = std::str::from_utf8(&c.s[c.i + 1..c.i + 3]).unwrap();
                                out[o] = u8::from_str_radix(h, 16).unwrap();
                                c.i += 3;
                            }
                        } else {
                            out[o] = c.s[c.i];
                            c.i += 1;
                        }
                        o += 1;
                    }
                    c.i += 1;
                    return;
                }
                if p == b'{' || p == b'[' || p == b'<' {
                    c.i += 1;
                    if p == b'<' && c.peek() == b'{' {
                        c.i += 1;
                    }
                    let mut i = 0;
                    loop {
                        if matches!(c.peek(), b'}' | b']' | b'>') {
                            break;
                        }
                        let t = self.ty(mi, c);
                        let (o, _) = ty.field(i);
                        let s = t.size() as usize;
                        self.const_bytes(mi, &t, c, &mut out[o as usize..o as usize + s]);
                        i += 1;
                        if !c.eat(b',') {
                            break;
                        }
                    }
                    c.i += 1;
                    if p == b'<' && c.peek() == b'>' && matches!(ty, Ty::Struct(..)) {
                        c.i += 1;
                    }
                    return;
                }
                let w = c.word();
                match w {
                    "zeroinitializer" | "undef" | "poison" => {}
                    _ => panic!("IR: aggregate constant {:?}", w),
                }
            }
            _ => {
                let v = self.const_scalar(mi, ty, c);
                let n = ty.store_size() as usize;
                out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
    }
    /// Initial bytes of a global; second: true when constant.
    pub fn glob_init(&mut self, g: u32) -> (Vec<u8>, bool) {
        let (mi, line) = (self.globs[g as usize].module, self.globs[g as usize].line);
        let mut c = Cur::new(line);
        c.i = 1;
        c.name();
        c.expect(b'=');
        let mut constant = false;
        loop {
            if c.peek() == b'(' {
                c.skip_balanced();
                continue;
            }
            let w = c.word();
            if w == "global" {
                break;
            }
            if w == "constant" {
                constant = true;
                break;
            }
            if w.is_empty() {
                panic!("IR: global {:?}", line);
            }
        }
        let ty = self.ty(mi, &mut c);
        let mut b = vec![0u8; ty.size() as usize];
        self.const_bytes(mi, &ty, &mut c, &mut b);
        (b, constant)
    }
    pub fn func(&mut self, pool: &mut Pool, id: u32) -> &'static Func {
        if let Some(f) = self.funcs[id as usize].parsed {
            return f;
        }
        let f: &'static Func = Box::leak(Box::new(self.parse_func(pool, id)));
        self.funcs[id as usize].parsed = Some(f);
        f
    }
    fn parse_func(&mut self, pool: &mut Pool, id: u32) -> Func {
        let d = &self.funcs[id as usize];
        let (mi, header, body, cov) = (d.module, d.header, d.body, d.cov);
        let mut cx = FnCtx { prog: self, pool, module: mi, names: HashMap::new(), nregs: 0 };
        // return type and parameters
        let at = find_at(header);
        let retty = {
            // the type is the last type-looking thing before '@'; scan words
            let mut c = Cur::new(&header[..at]);
            c.word(); // define
            cx.ret_type(&mut c)
        };
        let mut c = Cur::new(header);
        c.i = at + 1;
        c.name();
        c.expect(b'(');
        let mut params = vec![];
        let mut anon = 0u32;
        if !c.eat(b')') {
            loop {
                if c.peek() == b'.' {
                    c.i += 3;
                } else {
                    let t = cx.prog.ty(mi, &mut c);
                    let mut name: Option<&'static str> = None;
                    loop {
                        match c.peek() {
                            b',' | b')' => break,
                            b'%' => {
                                c.i += 1;
                                name = Some(unsafe { std::mem::transmute(c.name()) });
                            }
                            b'(' | b'[' | b'{' | b'<' => c.skip_balanced(),
                            _ => {
                                let w = c.word();
                                if w == "byval" {
                                    panic!("byval parameter unsupported");
                                }
                                if w.is_empty() {
                                    c.i += 1;
                                }
                            }
                        }
                    }
                    let n = name.unwrap_or_else(|| {
                        let s = anon.to_string();
                        anon += 1;
                        Box::leak(s.into_boxed_str())
                    });
                    let base = cx.def(n, t.clone());
                    for i in 0..t.nleaves() {
                        params.push(base + i);
                    }
                }
                if c.eat(b')') {
                    break;
                }
                c.expect(b',');
            }
        }
        // split the body into blocks of joined lines
        let mut blocks: Vec<(&'static str, Vec<std::borrow::Cow<'static, str>>)> = vec![];
        let mut pending: Option<String> = None;
        for line in body.split('\n') {
            if line.is_empty() {
                continue;
            }
            if let Some(p) = &mut pending {
                p.push(' ');
                p.push_str(line.trim());
                if line.trim_start().starts_with(']') {
                    let s = pending.take().unwrap();
                    blocks.last_mut().unwrap().1.push(s.into());
                }
                continue;
            }
            let b = line.as_bytes();
            if b[0] != b' ' && b[0] != b';' && b[0] != b'}' {
                // label
                let l = if b[0] == b'"' {
                    let e = line[1..].find('"').unwrap();
                    &line[1..1 + e]
                } else {
                    &line[..line.find(':').unwrap()]
                };
                blocks.push((l, vec![]));
                continue;
            }
            let t = line.trim();
            if t.starts_with(';') || t == "}" || t.starts_with("#dbg") {
                continue;
            }
            if blocks.is_empty() {
                blocks.push(("", vec![]));
            }
            if t.starts_with("switch ") && !t.contains(']') {
                pending = Some(t.to_string());
                continue;
            }
            blocks.last_mut().unwrap().1.push(t.into());
        }
        // entry block without a label gets the next anonymous number
        let mut labels: HashMap<&str, u32> = HashMap::new();
        for (i, b) in blocks.iter().enumerate() {
            labels.insert(b.0, i as u32);
        }
        if !blocks.is_empty() && blocks[0].0.is_empty() {
            let l: &'static str = Box::leak(anon.to_string().into_boxed_str());
            labels.insert(l, 0);
        }
        // pass 1: result types
        for b in &blocks {
            for l in &b.1 {
                if l.starts_with('%') {
                    let mut c = Cur::new(l);
                    c.i = 1;
                    let n: &'static str = Box::leak(c.name().to_string().into_boxed_str());
                    c.expect(b'=');
                    let t = cx.result_ty(&mut c);
                    cx.def(n, t);
                }
            }
        }
        // pass 2
        let mut insts: Vec<Inst> = vec![];
        let mut edges: Vec<Edge> = vec![];
        let mut starts: Vec<u32> = vec![];
        let mut phis: Vec<Vec<(u32, Vec<(Vec<Opnd>, u32)>)>> = vec![vec![]; blocks.len()];
        let mut frame: u64 = 0;
        let mut edge_src: Vec<(u32, u32)> = vec![];
        for (bi, b) in blocks.iter().enumerate() {
            starts.push(insts.len() as u32);
            for l in &b.1 {
                let n = insts.len();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cx.inst(l, bi as u32, &labels, &mut insts, &mut edge_src, &mut phis[bi], &mut frame)));
                if r.is_err() {
                    // what cannot be read is an engine gap where it is executed
                    insts.truncate(n);
                    insts.push(Inst::Unsup(l.to_string().into()));
                }
            }
        }
        for (src, dst) in &edge_src {
            let mut moves = vec![];
            for (d, inc) in &phis[*dst as usize] {
                let (v, _) = inc.iter().find(|x| x.1 == *src).expect("phi edge");
                for (k, o) in v.iter().enumerate() {
                    moves.push((*d + k as u32, *o));
                }
            }
            edges.push(Edge { pc: starts[*dst as usize], block: *dst, moves: moves.into() });
        }
        let retw = retty.leaves().iter().map(|x| x.0.width()).collect();
        Func {
            id,
            insts,
            edges,
            nregs: cx.nregs,
            params,
            frame: frame as u32,
            cov,
            nblocks: blocks.len() as u32,
            retw,
        }
    }
}

fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|x| *x == c)
}
fn find_word(s: &str, w: &str) -> Option<usize> {
    // stop at the first quote or bracket: keywords come first
    let lim = s.find(|c| c == '"' || c == '[' || c == '{' || c == '<' || c == '@').unwrap_or(s.len());
    let mut st = 0;
    while let Some(i) = s[st..lim].find(w) {
        let a = st + i;
        let before = a == 0 || s.as_bytes()[a - 1] == b' ';
        let after = a + w.len() >= s.len() || s.as_bytes()[a + w.len()] == b' ';
        if before && after {
            return Some(a);
        }
        st = a + w.len();
    }
    None
}
fn find_at(line: &str) -> usize {
    // first '@' outside quotes
    let b = line.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'"' {
            i += 1;
            while b[i] != b'"' {
                i += 1;
            }
        } else if b[i] == b'@' {
            return i;
        }
        i += 1;
    }
    panic!("no @ in {:?}", line)
}

const FLAGS: &[&str] = &[
    "nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "nusw", "samesign", "fast", "nnan", "ninf", "nsz", "arcp",
    "contract", "afn", "reassoc", "volatile", "atomic", "tail", "musttail", "notail",
];

impl<'p> FnCtx<'p> {
    fn def(&mut self, n: &'static str, t: Ty) -> u32 {
        let b = self.nregs;
        self.nregs += t.nleaves();
        self.names.insert(n, (b, t));
        b
    }
    fn ty(&mut self, c: &mut Cur) -> Ty {
        self.prog.ty(self.module, c)
    }
    fn flags(&mut self, c: &mut Cur) {
        loop {
            let i = c.i;
            let w = c.word();
            if w == "inrange" {
                c.skip_balanced();
                continue;
            }
            if !FLAGS.contains(&w) {
                c.i = i;
                return;
            }
        }
    }
    /// Skip call/define return attributes and calling conventions; parse the type.
    fn ret_type(&mut self, c: &mut Cur) -> Ty {
        loop {
            match c.peek() {
                b'{' | b'[' | b'<' | b'%' => return self.ty(c),
                b'(' => c.skip_balanced(),
                b'#' => {
                    c.i += 1;
                    c.word();
                }
                _ => {
                    let i = c.i;
                    let w = c.word();
                    let is_ty = matches!(w, "ptr" | "void" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "bfloat")
                        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|x| x.is_ascii_digit()));
                    if is_ty {
                        c.i = i;
                        return self.ty(c);
                    }
                    if w.is_empty() {
                        panic!("IR: return type in {:?}", String::from_utf8_lossy(c.s));
                    }
                }
            }
        }
    }
    fn result_ty(&mut self, c: &mut Cur) -> Ty {
        let op = c.word();
        match op {
            "icmp" | "fcmp" => {
                self.flags(c);
                c.word();
                match self.ty(c) {
                    Ty::Vector(n, _) => Ty::Vector(n, Box::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi"
            | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
                let s = std::str::from_utf8(c.s).unwrap();
                let i = s[c.i..].find(" to ").unwrap() + c.i + 4;
                c.i = i;
                self.ty(c)
            }
            "load" => {
                self.flags(c);
                self.ty(c)
            }
            "getelementptr" | "alloca" => Ty::Ptr,
            "select" => {
                self.flags(c);
                let t = self.ty(c);
                let _ = t;
                self.skip_val(c);
                c.expect(b',');
                self.ty(c)
            }
            "phi" => {
                self.flags(c);
                self.ty(c)
            }
            "tail" | "musttail" | "notail" | "call" => {
                if op != "call" {
                    c.word();
                }
                self.ret_type(c)
            }
            "extractvalue" => {
                let t = self.ty(c);
                self.skip_val(c);
                let mut idx = vec![];
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    idx.push(c.uint());
                }
                t.leaf_index(&idx).1
            }
            "insertvalue" => self.ty(c),
            "cmpxchg" => {
                self.flags(c);
                c.eat_word("weak");
                self.flags(c);
                self.ty(c);
                self.skip_val(c);
                c.expect(b',');
                let t = self.ty(c);
                Ty::Struct(vec![t, Ty::Int(1)], false)
            }
            "atomicrmw" => {
                self.flags(c);
                c.word();
                self.ty(c);
                self.skip_val(c);
                c.expect(b',');
                self.ty(c)
            }
            "extractelement" => match self.ty(c) {
                Ty::Vector(_, t) => *t,
                t => t,
            },
            "shufflevector" => {
                let t = self.ty(c);
                self.skip_val(c);
                c.expect(b',');
                self.ty(c);
                self.skip_val(c);
                c.expect(b',');
                match (t, self.ty(c)) {
                    (Ty::Vector(_, e), Ty::Vector(n, _)) => Ty::Vector(n, e),
                    (t, _) => t,
                }
            }
            _ => {
                self.flags(c);
                self.ty(c)
            }
        }
    }
    /// Skip a value (local, constant or constant expression).
    fn skip_val(&mut self, c: &mut Cur) {
        match c.peek() {
            b'%' | b'@' => {
                c.i += 1;
                c.name();
            }
            b'{' | b'[' | b'<' => c.skip_balanced(),
            _ => {
                loop {
                    let w = c.word();
                    if w.is_empty() {
                        break;
                    }
                    if c.peek() == b'(' {
                        c.skip_balanced();
                        break;
                    }
                    if c.peek() == b',' || c.peek() == 0 {
                        break;
                    }
                }
            }
        }
    }
    fn konst(&mut self, t: &Ty, v: u128) -> Opnd {
        let w = t.width();
        let v = v & crate::expr::mask(w);
        if w <= 64 {
            Opnd::C(v as u64)
        } else {
            Opnd::K(self.pool.k(w, v))
        }
    }
    /// Flattened value.
    fn val(&mut self, t: &Ty, c: &mut Cur, out: &mut Vec<Opnd>) {
        match c.peek() {
            b'%' => {
                c.i += 1;
                let n = c.name();
                let (b, ty) = self.names.get(n).unwrap_or_else(|| panic!("no local {:?} in {:?}", n, String::from_utf8_lossy(c.s)));
                for i in 0..ty.nleaves() {
                    out.push(Opnd::R(b + i));
                }
            }
            _ => match t {
                Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..) => {
                    let p = c.peek();
                    if p == b'{' || p == b'[' || p == b'<' {
                        c.i += 1;
                        if p == b'<' && c.peek() == b'{' {
                            c.i += 1;
                        }
                        if !matches!(c.peek(), b'}' | b']' | b'>') {
                            loop {
                                let et = self.ty(c);
                                self.val(&et, c, out);
                                if !c.eat(b',') {
                                    break;
                                }
                            }
                        }
                        c.i += 1;
                        if c.peek() == b'>' {
                            c.i += 1;
                        }
                    } else {
                        let w = c.word();
                        if w == "splat" {
                            c.peek();
                            let i0 = c.i;
                            c.skip_balanced();
                            let e = c.i;
                            for _ in 0..t.nleaves() {
                                c.i = i0 + 1;
                                let et = self.ty(c);
                                self.val(&et, c, out);
                            }
                            c.i = e;
                        } else {
                            for (lt, _) in t.leaves() {
                                let k = self.konst(&lt, 0);
                                out.push(k);
                            }
                        }
                    }
                }
                _ => {
                    let v = self.prog.const_scalar(self.module, t, c);
                    let k = self.konst(t, v);
                    out.push(k);
                }
            },
        }
    }
    fn val1(&mut self, t: &Ty, c: &mut Cur) -> Opnd {
        let mut v = vec![];
        self.val(t, c, &mut v);
        v[0]
    }
    fn tval1(&mut self, c: &mut Cur) -> (Ty, Opnd) {
        let t = self.ty(c);
        let v = self.val1(&t, c);
        (t, v)
    }
    fn label(&mut self, c: &mut Cur, labels: &HashMap<&str, u32>) -> u32 {
        assert!(c.eat_word("label"));
        c.expect(b'%');
        let n = c.name();
        *labels.get(n).unwrap_or_else(|| panic!("label {:?}", n))
    }
    #[allow(clippy::too_many_arguments)]
    fn inst(
        &mut self,
        l: &str,
        bi: u32,
        labels: &HashMap<&str, u32>,
        insts: &mut Vec<Inst>,
        edges: &mut Vec<(u32, u32)>,
        phis: &mut Vec<(u32, Vec<(Vec<Opnd>, u32)>)>,
        frame: &mut u64,
    ) {
        let mut c = Cur::new(l);
        let c = &mut c;
        let mut dst = 0u32;
        let mut dty = Ty::Void;
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            let x = self.names[n].clone();
            dst = x.0;
            dty = x.1;
            c.expect(b'=');
        }
        let op = c.word();
        let mut edge = |d: u32| -> u32 {
            edges.push((bi, d));
            edges.len() as u32 - 1
        };
        let binop = match op {
            "add" => Some(Op::Add),
            "sub" => Some(Op::Sub),
            "mul" => Some(Op::Mul),
            "udiv" => Some(Op::UDiv),
            "urem" => Some(Op::URem),
            "sdiv" => Some(Op::SDiv),
            "srem" => Some(Op::SRem),
            "and" => Some(Op::And),
            "or" => Some(Op::Or),
            "xor" => Some(Op::Xor),
            "shl" => Some(Op::Shl),
            "lshr" => Some(Op::LShr),
            "ashr" => Some(Op::AShr),
            _ => None,
        };
        if let Some(bop) = binop {
            self.flags(c);
            let t = self.ty(c);
            let (mut a, mut b) = (vec![], vec![]);
            self.val(&t, c, &mut a);
            c.expect(b',');
            self.val(&t, c, &mut b);
            let w = t.leaves()[0].0.width();
            for i in 0..a.len() {
                insts.push(Inst::Bin { op: bop, w, dst: dst + i as u32, a: a[i], b: b[i] });
            }
            return;
        }
        match op {
            "icmp" => {
                self.flags(c);
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => panic!("icmp {}", x),
                };
                let t = self.ty(c);
                let (mut a, mut b) = (vec![], vec![]);
                self.val(&t, c, &mut a);
                c.expect(b',');
                self.val(&t, c, &mut b);
                let w = t.leaves()[0].0.width();
                for i in 0..a.len() {
                    insts.push(Inst::Icmp { p, w, dst: dst + i as u32, a: a[i], b: b[i] });
                }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "bitcast" => {
                self.flags(c);
                let ft = self.ty(c);
                let mut a = vec![];
                self.val(&ft, c, &mut a);
                assert!(c.eat_word("to"));
                let tt = self.ty(c);
                if ft.nleaves() != tt.nleaves() || matches!(ft, Ty::Float(_)) || matches!(tt, Ty::Float(_)) {
                    if op == "bitcast" && ft.nleaves() == 1 && tt.nleaves() == 1 {
                        insts.push(Inst::Move { dst, a: a[0] });
                        return;
                    }
                    if op == "bitcast" {
                        // vector <-> integer: build with shifts
                        let fl: Vec<u8> = ft.leaves().iter().map(|x| x.0.width()).collect();
                        let tl: Vec<u8> = tt.leaves().iter().map(|x| x.0.width()).collect();
                        if tl.len() == 1 && tl[0] <= 64 {
                            // gather
                            let tmp = self.nregs;
                            self.nregs += 2;
                            insts.push(Inst::Move { dst, a: Opnd::C(0) });
                            let mut sh = 0u64;
                            for (i, w) in fl.iter().enumerate() {
                                insts.push(Inst::Cast { k: Cast::ZExt, fw: *w, tw: tl[0], dst: tmp, a: a[i] });
                                insts.push(Inst::Bin { op: Op::Shl, w: tl[0], dst: tmp, a: Opnd::R(tmp), b: Opnd::C(sh) });
                                insts.push(Inst::Bin { op: Op::Or, w: tl[0], dst, a: Opnd::R(dst), b: Opnd::R(tmp) });
                                sh += *w as u64;
                            }
                            return;
                        }
                    }
                    insts.push(Inst::Unsup(l.into()));
                    return;
                }
                let fw = ft.leaves()[0].0.width();
                let tw = tt.leaves()[0].0.width();
                for (i, a) in a.iter().enumerate() {
                    let d = dst + i as u32;
                    if fw == tw {
                        insts.push(Inst::Move { dst: d, a: *a });
                    } else if fw > tw {
                        insts.push(Inst::Cast { k: Cast::Trunc, fw, tw, dst: d, a: *a });
                    } else if op == "sext" {
                        insts.push(Inst::Cast { k: Cast::SExt, fw, tw, dst: d, a: *a });
                    } else {
                        insts.push(Inst::Cast { k: Cast::ZExt, fw, tw, dst: d, a: *a });
                    }
                }
            }
            "select" => {
                self.flags(c);
                let ct = self.ty(c);
                let mut cv = vec![];
                self.val(&ct, c, &mut cv);
                c.expect(b',');
                let t = self.ty(c);
                let mut a = vec![];
                self.val(&t, c, &mut a);
                c.expect(b',');
                let t2 = self.ty(c);
                let mut b = vec![];
                self.val(&t2, c, &mut b);
                for (i, (lt, _)) in t.leaves().iter().enumerate() {
                    insts.push(Inst::Select {
                        w: lt.width(),
                        ptr: *lt == Ty::Ptr,
                        dst: dst + i as u32,
                        c: if cv.len() == 1 { cv[0] } else { cv[i] },
                        a: a[i],
                        b: b[i],
                    });
                }
            }
            "load" => {
                self.flags(c);
                let t = self.ty(c);
                c.expect(b',');
                let (_, p) = self.tval1(c);
                let lv = t.leaves();
                for (i, (lt, o)) in lv.iter().enumerate() {
                    insts.push(Inst::Load { w: lt.width(), dst: dst + i as u32, p, off: *o as u32 });
                }
            }
            "store" => {
                self.flags(c);
                let t = self.ty(c);
                let mut v = vec![];
                self.val(&t, c, &mut v);
                c.expect(b',');
                let (_, p) = self.tval1(c);
                for (i, (lt, o)) in t.leaves().iter().enumerate() {
                    insts.push(Inst::Store { w: lt.width(), v: v[i], p, off: *o as u32 });
                }
            }
            "getelementptr" => {
                self.flags(c);
                let mut t = self.ty(c);
                c.expect(b',');
                let pt = self.ty(c);
                let base = self.val1(&pt, c);
                let mut off = 0u64;
                let mut idx: Vec<(Opnd, u8, u64)> = vec![];
                let mut first = true;
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    let it = self.ty(c);
                    let v = self.val1(&it, c);
                    if first {
                        first = false;
                        match v {
                            Opnd::C(k) => {
                                let k = sext64(k, it.width());
                                off = off.wrapping_add(k.wrapping_mul(t.size()));
                            }
                            _ => idx.push((v, it.width(), t.size())),
                        }
                    } else {
                        match v {
                            Opnd::C(k) => {
                                if let Ty::Array(_, e) = &t {
                                    let k = sext64(k, it.width());
                                    off = off.wrapping_add(k.wrapping_mul(e.size()));
                                    t = (**e).clone();
                                } else {
                                    let (o, ft) = t.field(k);
                                    off = off.wrapping_add(o);
                                    t = ft;
                                }
                            }
                            _ => match t {
                                Ty::Array(_, e) => {
                                    idx.push((v, it.width(), e.size()));
                                    t = *e;
                                }
                                _ => panic!("gep index"),
                            },
                        }
                    }
                }
                match idx.len() {
                    0 => insts.push(Inst::Gep { dst, base, off, idx: Opnd::C(0), iw: 64, scale: 0 }),
                    1 => insts.push(Inst::Gep { dst, base, off, idx: idx[0].0, iw: idx[0].1, scale: idx[0].2 }),
                    _ => insts.push(Inst::GepN { dst, base, off, idx: idx.into() }),
                }
            }
            "alloca" => {
                self.flags(c);
                let t = self.ty(c);
                let mut n = 1;
                let mut align = t.align();
                while c.eat(b',') {
                    if c.eat_word("align") {
                        align = c.uint();
                    } else if c.peek() == b'!' {
                        break;
                    } else {
                        let (_, v) = self.tval1(c);
                        match v {
                            Opnd::C(k) => n = k,
                            _ => {
                                insts.push(Inst::Unsup(l.into()));
                                return;
                            }
                        }
                    }
                }
                *frame = up(*frame, align.max(1));
                insts.push(Inst::Alloca { dst, off: *frame as u32 });
                *frame += t.size() * n;
            }
            "freeze" => {
                let t = self.ty(c);
                let mut v = vec![];
                self.val(&t, c, &mut v);
                for (i, a) in v.into_iter().enumerate() {
                    insts.push(Inst::Move { dst: dst + i as u32, a });
                }
            }
            "extractvalue" => {
                let t = self.ty(c);
                let mut v = vec![];
                self.val(&t, c, &mut v);
                let mut idx = vec![];
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    idx.push(c.uint());
                }
                let (k, rt) = t.leaf_index(&idx);
                for i in 0..rt.nleaves() {
                    insts.push(Inst::Move { dst: dst + i, a: v[(k + i) as usize] });
                }
            }
            "insertvalue" => {
                let t = self.ty(c);
                let mut v = vec![];
                self.val(&t, c, &mut v);
                c.expect(b',');
                let et = self.ty(c);
                let mut e = vec![];
                self.val(&et, c, &mut e);
                let mut idx = vec![];
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    idx.push(c.uint());
                }
                let (k, _) = t.leaf_index(&idx);
                for (i, x) in e.into_iter().enumerate() {
                    v[k as usize + i] = x;
                }
                for (i, a) in v.into_iter().enumerate() {
                    insts.push(Inst::Move { dst: dst + i as u32, a });
                }
            }
            "insertelement" | "extractelement" | "shufflevector" => {
                let t = self.ty(c);
                let mut v = vec![];
                self.val(&t, c, &mut v);
                c.expect(b',');
                let et = self.ty(c);
                if op == "shufflevector" {
                    self.val(&et, c, &mut v);
                    c.expect(b',');
                    let mt = self.ty(c);
                    let mut m = vec![];
                    self.val(&mt, c, &mut m);
                    for (i, k) in m.into_iter().enumerate() {
                        match k {
                            Opnd::C(k) if (k as usize) < v.len() => insts.push(Inst::Move { dst: dst + i as u32, a: v[k as usize] }),
                            _ => {
                                insts.push(Inst::Unsup(l.into()));
                                return;
                            }
                        }
                    }
                    return;
                }
                let mut e = vec![];
                self.val(&et, c, &mut e);
                if op == "insertelement" {
                    c.expect(b',');
                    let it = self.ty(c);
                    match self.val1(&it, c) {
                        Opnd::C(k) if (k as usize) < v.len() => v[k as usize] = e[0],
                        _ => {
                            insts.push(Inst::Unsup(l.into()));
                            return;
                        }
                    }
                    for (i, a) in v.into_iter().enumerate() {
                        insts.push(Inst::Move { dst: dst + i as u32, a });
                    }
                } else {
                    match e[0] {
                        Opnd::C(k) if (k as usize) < v.len() => insts.push(Inst::Move { dst, a: v[k as usize] }),
                        _ => insts.push(Inst::Unsup(l.into())),
                    }
                }
            }
            "phi" => {
                self.flags(c);
                let t = self.ty(c);
                let mut inc = vec![];
                loop {
                    c.expect(b'[');
                    let mut v = vec![];
                    self.val(&t, c, &mut v);
                    c.expect(b',');
                    c.expect(b'%');
                    let n = c.name();
                    let b = *labels.get(n).unwrap_or_else(|| panic!("phi label {:?}", n));
                    c.expect(b']');
                    inc.push((v, b));
                    if !c.eat(b',') || c.peek() == b'!' {
                        break;
                    }
                }
                let _ = dty;
                phis.push((dst, inc));
            }
            "br" => {
                if c.peek_word() == "label" {
                    let d = self.label(c, labels);
                    insts.push(Inst::Br { e: edge(d) });
                } else {
                    let (_, v) = self.tval1(c);
                    c.expect(b',');
                    let t = self.label(c, labels);
                    c.expect(b',');
                    let f = self.label(c, labels);
                    insts.push(Inst::CondBr { c: v, t: edge(t), f: edge(f) });
                }
            }
            "switch" => {
                let (t, v) = self.tval1(c);
                c.expect(b',');
                let d = self.label(c, labels);
                let def = edge(d);
                c.expect(b'[');
                let mut cases = vec![];
                let mut seen: HashMap<u32, u32> = HashMap::new();
                while !c.eat(b']') {
                    let ct = self.ty(c);
                    let k = self.prog.const_scalar(self.module, &ct, c) & crate::expr::mask(ct.width());
                    c.expect(b',');
                    let d = self.label(c, labels);
                    let e = *seen.entry(d).or_insert_with(|| edge(d));
                    cases.push((k as u64, e));
                }
                insts.push(Inst::Switch { w: t.width(), v, def, cases: cases.into() });
            }
            "ret" => {
                let t = self.ty(c);
                let mut v = vec![];
                if t != Ty::Void {
                    self.val(&t, c, &mut v);
                }
                insts.push(Inst::Ret { v: v.into() });
            }
            "unreachable" => insts.push(Inst::Unreachable),
            "fence" => {}
            "tail" | "musttail" | "notail" | "call" => {
                if op != "call" {
                    c.word();
                }
                let rt = self.ret_type(c);
                if c.peek() == b'(' {
                    c.skip_balanced();
                }
                enum Cal {
                    Name(&'static str),
                    Ptr(Opnd),
                }
                let cal = match c.peek() {
                    b'@' => {
                        c.i += 1;
                        Cal::Name(Box::leak(c.name().to_string().into_boxed_str()))
                    }
                    b'%' => Cal::Ptr(self.val1(&Ty::Ptr, c)),
                    _ => {
                        if c.peek_word() == "asm" {
                            // inline asm: barriers only
                            insts.push(Inst::Unsup(l.into()));
                            return;
                        }
                        Cal::Ptr(self.val1(&Ty::Ptr, c))
                    }
                };
                c.expect(b'(');
                let mut args = vec![];
                let mut aw = vec![];
                if !c.eat(b')') {
                    loop {
                        let t = self.ty(c);
                        if t == Ty::Other {
                            // metadata operand
                            while !matches!(c.peek(), b',' | b')') {
                                if matches!(c.peek(), b'(' | b'{') {
                                    c.skip_balanced();
                                } else {
                                    c.i += 1;
                                }
                            }
                        } else {
                            // parameter attributes
                            loop {
                                match c.peek() {
                                    b'%' | b'@' | b'{' | b'[' | b'<' | b'-' | b'0'..=b'9' => break,
                                    _ => {
                                        let i = c.i;
                                        let w = c.word();
                                        match w {
                                            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr"
                                            | "ptrtoint" | "inttoptr" | "none" | "splat" | "sub" | "add" | "trunc" => {
                                                c.i = i;
                                                break;
                                            }
                                            "align" => {
                                                c.word();
                                            }
                                            "byval" => panic!("byval"),
                                            _ => {}
                                        }
                                        if c.peek() == b'(' {
                                            c.skip_balanced();
                                        }
                                    }
                                }
                            }
                            let n0 = args.len();
                            self.val(&t, c, &mut args);
                            for (lt, _) in t.leaves() {
                                aw.push(lt.width());
                            }
                            debug_assert_eq!(args.len() - n0, t.nleaves() as usize);
                        }
                        if c.eat(b')') {
                            break;
                        }
                        c.expect(b',');
                    }
                }
                let ret: Vec<u8> = rt.leaves().iter().map(|x| x.0.width()).collect();
                let callee = match cal {
                    Cal::Ptr(p) => Callee::Ptr(p),
                    Cal::Name(n) => {
                        if let Some(i) = n.strip_prefix("llvm.") {
                            match intrinsic(i) {
                                Some(Intr::Nop) => return,
                                Some(x) => {
                                    if matches!(rt, Ty::Vector(..)) {
                                        insts.push(Inst::Unsup(l.into()));
                                        return;
                                    }
                                    Callee::Intr(x, *ret.first().unwrap_or(&0))
                                }
                                None => {
                                    insts.push(Inst::Unsup(l.into()));
                                    return;
                                }
                            }
                        } else if let Some(b) = builtin(n) {
                            Callee::Built(b)
                        } else {
                            match self.prog.lookup(self.module, n) {
                                Some((_, Sym::Func(i))) => Callee::Func(i),
                                _ => Callee::Extern(n),
                            }
                        }
                    }
                };
                insts.push(Inst::Call { callee, args: args.into(), aw: aw.into(), dst, ret: ret.into() });
            }
            "atomicrmw" => {
                self.flags(c);
                let k = match c.word() {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    "umax" => 6,
                    "umin" => 7,
                    _ => {
                        insts.push(Inst::Unsup(l.into()));
                        return;
                    }
                };
                let (_, p) = self.tval1(c);
                c.expect(b',');
                let (t, v) = self.tval1(c);
                insts.push(Inst::Rmw { op: k, w: t.width(), dst, p, v });
            }
            "cmpxchg" => {
                c.eat_word("weak");
                self.flags(c);
                let (_, p) = self.tval1(c);
                c.expect(b',');
                let (t, v) = self.tval1(c);
                c.expect(b',');
                let (_, n) = self.tval1(c);
                insts.push(Inst::Cas { w: t.width(), dst, p, c: v, n });
            }
            _ => insts.push(Inst::Unsup(l.into())),
        }
    }
}

pub fn sext64(k: u64, w: u8) -> u64 {
    if w >= 64 {
        k
    } else {
        let s = 64 - w as u32;
        (((k << s) as i64) >> s) as u64
    }
}

fn intrinsic(n: &str) -> Option<Intr> {
    use Intr::*;
    let p = |s: &str| n.starts_with(s);
    Some(if p("lifetime.") || p("experimental.noalias") || p("dbg.") || p("donothing") || p("invariant.") || p("prefetch") || p("va_") {
        Nop
    } else if p("assume") {
        Assume
    } else if p("memcpy.") {
        MemCpy
    } else if p("memmove.") {
        MemMove
    } else if p("memset.") {
        MemSet
    } else if p("umax.") {
        UMax
    } else if p("umin.") {
        UMin
    } else if p("smax.") {
        SMax
    } else if p("smin.") {
        SMin
    } else if p("uadd.with") {
        UAddO
    } else if p("usub.with") {
        USubO
    } else if p("umul.with") {
        UMulO
    } else if p("sadd.with") {
        SAddO
    } else if p("ssub.with") {
        SSubO
    } else if p("smul.with") {
        SMulO
    } else if p("uadd.sat") {
        UAddSat
    } else if p("usub.sat") {
        USubSat
    } else if p("sadd.sat") {
        SAddSat
    } else if p("ssub.sat") {
        SSubSat
    } else if p("bswap.") {
        BSwap
    } else if p("bitreverse.") {
        BitReverse
    } else if p("ctlz.") {
        Ctlz
    } else if p("cttz.") {
        Cttz
    } else if p("ctpop.") {
        Ctpop
    } else if p("abs.") {
        Abs
    } else if p("fshl.") {
        Fshl
    } else if p("fshr.") {
        Fshr
    } else if p("ucmp.") {
        UCmp
    } else if p("scmp.") {
        SCmp
    } else if p("load.relative") {
        LoadRel
    } else if p("expect.") || p("launder.") || p("strip.") {
        Identity
    } else if p("trap") || p("ubsantrap") || p("debugtrap") {
        Trap
    } else if p("is.constant") {
        ConstFalse
    } else if p("threadlocal.address") {
        ThreadLocal
    } else if p("ptrmask") {
        PtrMask
    } else {
        return None;
    })
}

pub fn builtin(n: &str) -> Option<Built> {
    use Built::*;
    Some(match n {
        "memcmp" | "bcmp" => Memcmp,
        "memcpy" | "memmove" => MemCpy,
        "memset" => MemSet,
        "strlen" => Strlen,
        "getrandom" => Random,
        "memchr" => Memchr,
        "sym_byte" => SymByte,
        "sym_choice" => SymChoice,
        "sym_assume" => SymAssume,
        "sym_fail" => SymFail,
        "sym_reach" => SymReach,
        "sym_arg" => SymArg,
        "sym_observe" => SymObserve,
        "sym_concrete" => SymConcrete,
        "sym_steps" => SymSteps,
        "abort" => Abort,
        _ => {
            if n.ends_with("12___rust_alloc") {
                Alloc
            } else if n.ends_with("19___rust_alloc_zeroed") {
                AllocZeroed
            } else if n.ends_with("14___rust_dealloc") {
                Dealloc
            } else if n.ends_with("14___rust_realloc") {
                Realloc
            } else if n.contains("___rust_no_alloc_shim_is_unstable") {
                Nop
            } else if n.contains("4core9panicking") && !n.contains("13assert_failed") && !n.contains("19assert_matches_failed") {
                Panic
            } else if n.contains("19assert_failed_inner")
                || n.ends_with("17rust_begin_unwind")
                || n.contains("4core6option13unwrap_failed")
                || n.contains("4core6option13expect_failed")
                || n.contains("4core6result13unwrap_failed")
                || n.contains("16slice_error_fail")
                || n.contains("16slice_index_fail")
                || n.contains("7raw_vec12handle_error")
                || n.contains("18handle_alloc_error")
                || n.contains("17capacity_overflow")
                || n.contains("panic_already_")
                || n.contains("20copy_from_slice_impl17len_mismatch_fail")
            {
                Panic
            } else {
                return None;
            }
        }
    })
}
