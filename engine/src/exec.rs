//! Path-by-path symbolic execution of LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::shared::Shared;
use crate::z3::{Res, Z3};
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub enum Val {
    C(u64),
    S(E),
}
use Val::{C, S};

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub base: u32,
    pub ret: u32,
    pub obj: u32, // u32::MAX = none
}

#[derive(Clone)]
pub struct State {
    pub job: u32,
    pub frames: Vec<Frame>,
    pub regs: Vec<Val>,
    pub mem: Mem,
    pub nvars: u32,
    pub doms: Vec<Bits>,
    pub multi: Vec<E>,
    pub multi_mask: u128,
    pub model: [u8; 128],
    pub steps: u64,
    pub obs: Vec<Val>,
    pub depth: u32,
}

#[derive(Debug)]
pub enum Outcome {
    Ok,
    Fail(String),
    Panic(String),
    Steps,
    Mem(String),
    Assumed, // path killed by an assumption
    Engine(String),
}

pub struct Job {
    pub harness: String,
    pub func: u32,
    pub arg: Vec<u8>,
    pub max_steps: u64,
}

enum Stop {
    Continue,
    Done(Outcome),
}

pub struct Exec {
    pub prog: Program,
    pub pool: Pool,
    pub z3: Z3,
    pub jobs: Vec<Job>,
    pub stack: Vec<State>,
    pub sh: &'static Shared,
    globs: Vec<Option<Rc<Obj>>>,
    dom_cache: FxMap<(Bits, Bits), u8>,
    q_cache: std::collections::HashMap<QKey, Option<[u8; 128]>>,
    pub outs: Vec<(u32, Outcome, Vec<u8>, Vec<u64>, u64)>,
    pub reach: Vec<FxMap<u64, ()>>,
    cov: &'static mut [u8],
    tmp: Vec<Val>,
    pub forks: u64,
}

#[derive(PartialEq, Eq, Hash)]
struct QKey {
    cons: Vec<E>,
    doms: Vec<(u32, Bits)>,
}

const FULL: Bits = [!0; 4];
fn band(a: &Bits, b: &Bits) -> Bits {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn bnot(a: &Bits) -> Bits {
    [!a[0], !a[1], !a[2], !a[3]]
}
fn bempty(a: &Bits) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
fn bfirst(a: &Bits) -> u8 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i * 64) as u8 + a[i].trailing_zeros() as u8;
        }
    }
    0
}
fn bhas(a: &Bits, v: u8) -> bool {
    a[v as usize / 64] >> (v % 64) & 1 == 1
}

/// Raised when a state must stop.
type R<T> = Result<T, Outcome>;

impl Exec {
    pub fn new(prog: Program, pool: Pool, jobs: Vec<Job>, sh: &'static Shared, cov: &'static mut [u8]) -> Exec {
        let nj = jobs.len();
        Exec {
            prog,
            pool,
            z3: Z3::new(),
            jobs,
            stack: vec![],
            sh,
            globs: vec![],
            dom_cache: Default::default(),
            q_cache: Default::default(),
            outs: vec![],
            reach: (0..nj).map(|_| Default::default()).collect(),
            cov,
            tmp: vec![],
            forks: 0,
        }
    }
    pub fn start(&mut self, job: u32) -> State {
        let f = self.jobs[job as usize].func;
        let func = self.prog.func(&mut self.pool, f);
        let mut st = State {
            job,
            frames: vec![],
            regs: vec![C(0); func.nregs as usize],
            mem: Mem::new(),
            nvars: 0,
            doms: vec![],
            multi: vec![],
            multi_mask: 0,
            model: [0; 128],
            steps: 0,
            obs: vec![],
            depth: 0,
        };
        let obj = if func.frame > 0 { st.mem.alloc(Obj::new(func.frame as usize, false, 16)) } else { u32::MAX };
        st.frames.push(Frame { f: func, pc: 0, base: 0, ret: 0, obj });
        st
    }

    // ---------- solver ----------
    fn unknown(&self, why: String) -> Outcome {
        Outcome::Engine(format!("solver returned unknown: {}", why))
    }
    /// Is `c == pol` feasible in `st`? Returns a model when it is.
    fn feasible(&mut self, st: &State, c: E, pol: bool) -> R<Option<[u8; 128]>> {
        if let Some(v) = self.pool.unary(c) {
            let t = self.pool.truth(c, v);
            let d = st.doms[v as usize];
            let want = if pol { t } else { bnot(&t) };
            let x = band(&d, &want);
            if st.multi_mask >> v & 1 == 0 {
                // one byte, no other constraint on it: decided once per
                // (domain, condition) by the solver, remembered afterwards
                let key = (d, t);
                let bits = match self.dom_cache.get(&key) {
                    Some(b) => *b,
                    None => {
                        let mut b = 0;
                        let nc = self.pool.not(c);
                        for (i, e) in [nc, c].iter().enumerate() {
                            match self.z3.check(&self.pool, &[(v, d)], &[*e]) {
                                Res::Sat(_) => b |= 1 << i,
                                Res::Unsat => {}
                                Res::Unknown(w) => return Err(self.unknown(w)),
                            }
                        }
                        let tt = (!bempty(&band(&d, &t)) as u8) << 1 | !bempty(&band(&d, &bnot(&t))) as u8;
                        if tt != b {
                            return Err(Outcome::Engine(format!("solver and byte table disagree: {} {}", tt, b)));
                        }
                        self.dom_cache.insert(key, b);
                        b
                    }
                };
                if bits >> (pol as u8) & 1 == 0 {
                    return Ok(None);
                }
                let mut m = st.model;
                if !bhas(&x, m[v as usize]) {
                    m[v as usize] = bfirst(&x);
                }
                return Ok(Some(m));
            }
            if bempty(&x) {
                return Ok(None);
            }
        }
        // general: independent slice
        let mut mask = self.pool.supp[c as usize];
        if self.pool.eval(c, &st.model) == pol as u128 {
            return Ok(Some(st.model));
        }
        let mut taken = vec![false; st.multi.len()];
        loop {
            let mut ch = false;
            for (i, e) in st.multi.iter().enumerate() {
                if !taken[i] && self.pool.supp[*e as usize] & mask != 0 {
                    taken[i] = true;
                    mask |= self.pool.supp[*e as usize];
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        let mut cons: Vec<E> = st.multi.iter().enumerate().filter(|(i, _)| taken[*i]).map(|(_, e)| *e).collect();
        cons.push(if pol { c } else { self.pool.not(c) });
        cons.sort();
        cons.dedup();
        let mut doms = vec![];
        for v in 0..st.nvars {
            if mask >> v & 1 == 1 {
                doms.push((v, st.doms[v as usize]));
            }
        }
        let key = QKey { cons, doms };
        let r = match self.q_cache.get(&key) {
            Some(r) => *r,
            None => {
                let r = match self.z3.check(&self.pool, &key.doms, &key.cons) {
                    Res::Sat(m) => Some(m),
                    Res::Unsat => None,
                    Res::Unknown(w) => return Err(self.unknown(w)),
                };
                self.q_cache.insert(key, r);
                r
            }
        };
        Ok(r.map(|m| {
            let mut o = st.model;
            for v in 0..st.nvars as usize {
                if mask >> v & 1 == 1 {
                    o[v] = m[v];
                }
            }
            o
        }))
    }
    fn assert(&mut self, st: &mut State, c: E, pol: bool, model: [u8; 128]) {
        let e = if pol { c } else { self.pool.not(c) };
        let mut v = vec![];
        self.pool.conjuncts(e, &mut v);
        for e in v {
            if let Some(x) = self.pool.unary(e) {
                let t = self.pool.truth(e, x);
                let d = &mut st.doms[x as usize];
                *d = band(d, &t);
            } else if !st.multi.contains(&e) {
                st.multi.push(e);
                st.multi_mask |= self.pool.supp[e as usize];
            }
        }
        st.model = model;
        debug_assert_eq!(self.pool.eval(e, &st.model), 1);
    }
    /// Decide a width-1 value. May push the other side as a new state, positioned
    /// to re-execute the current instruction.
    fn decide(&mut self, st: &mut State, v: Val) -> R<bool> {
        let c = match v {
            C(x) => return Ok(x & 1 == 1),
            S(e) => e,
        };
        if let Some(k) = self.pool.kv(c) {
            return Ok(k == 1);
        }
        let cur = self.pool.eval(c, &st.model) == 1;
        match self.feasible(st, c, !cur)? {
            None => {
                // the current side is implied; check it really is feasible (the
                // model is its witness)
                Ok(cur)
            }
            Some(m) => {
                let mut o = st.clone();
                o.depth += 1;
                self.assert(&mut o, c, !cur, m);
                self.push(o);
                st.depth += 1;
                let m = st.model;
                self.assert(st, c, cur, m);
                Ok(cur)
            }
        }
    }
    fn push(&mut self, s: State) {
        self.forks += 1;
        self.stack.push(s);
    }
    /// Pick the model's value of an expression; push a state for the others.
    fn concretize(&mut self, st: &mut State, v: Val) -> R<u64> {
        match v {
            C(x) => Ok(x),
            S(e) => {
                if let Some(k) = self.pool.kv(e) {
                    return Ok(k as u64);
                }
                let x = self.pool.eval(e, &st.model);
                let w = self.pool.w(e);
                let k = self.pool.k(w, x);
                let c = self.pool.eq(e, k);
                let r = self.decide(st, S(c))?;
                debug_assert!(r);
                Ok(x as u64)
            }
        }
    }
    fn ex(&mut self, v: Val, w: u8) -> E {
        match v {
            C(x) => self.pool.k(w, x as u128),
            S(e) => e,
        }
    }
    fn norm(&self, e: E) -> Val {
        if let Some(k) = self.pool.kv(e) {
            if self.pool.w(e) <= 64 {
                return C(k as u64);
            }
        }
        S(e)
    }

    // ---------- memory ----------
    fn glob(&mut self, g: u32) -> Rc<Obj> {
        if self.globs.len() <= g as usize {
            self.globs.resize(self.prog.globs.len().max(g as usize + 1), None);
        }
        if let Some(o) = &self.globs[g as usize] {
            return o.clone();
        }
        let (b, ro) = self.prog.glob_init(g);
        let o = Rc::new(Obj { data: b, sym: vec![], align: 16, heap: false, ro });
        self.globs[g as usize] = Some(o.clone());
        o
    }
    #[inline]
    fn with<T>(&mut self, st: &State, a: u64, n: usize, f: impl FnOnce(&mut Self, &Obj, usize) -> T) -> R<T> {
        let (l, off) = loc(a);
        match l {
            Loc::Obj(id) => match st.mem.get(id) {
                Some(o) if off + n <= o.data.len() => {
                    // the object outlives the call: st is not touched by f
                    let o: *const Obj = o;
                    Ok(f(self, unsafe { &*o }, off))
                }
                Some(o) => Err(Outcome::Mem(format!("read of {} at offset {} of {}-byte object", n, off, o.data.len()))),
                None => Err(Outcome::Mem("read of a freed object".into())),
            },
            Loc::Glob(g) => {
                let o = match st.mem.globs.get(&g) {
                    Some(o) => o.clone(),
                    None => self.glob(g),
                };
                if off + n <= o.data.len() {
                    Ok(f(self, &o, off))
                } else {
                    Err(Outcome::Mem(format!("read of {} past global {}", n, self.prog.globs[g as usize].name)))
                }
            }
            Loc::Bad => Err(Outcome::Mem(format!("read through {:#x}", a))),
        }
    }
    #[inline]
    fn with_mut(&mut self, st: &mut State, a: u64, n: usize, f: impl FnOnce(&mut Obj, usize)) -> R<()> {
        let (l, off) = loc(a);
        match l {
            Loc::Obj(id) => match st.mem.get_mut(id) {
                Some(o) if off + n <= o.data.len() => {
                    f(o, off);
                    Ok(())
                }
                Some(o) => Err(Outcome::Mem(format!("write of {} at offset {} of {}-byte object", n, off, o.data.len()))),
                None => Err(Outcome::Mem("write to a freed object".into())),
            },
            Loc::Glob(g) => {
                if !st.mem.globs.contains_key(&g) {
                    let o = self.glob(g);
                    if o.ro {
                        return Err(Outcome::Mem("write to a constant".into()));
                    }
                    Rc::make_mut(&mut st.mem.globs).insert(g, o);
                }
                let m = Rc::make_mut(&mut st.mem.globs);
                let o = Rc::make_mut(m.get_mut(&g).unwrap());
                if off + n <= o.data.len() {
                    f(o, off);
                    Ok(())
                } else {
                    Err(Outcome::Mem("write past a global".into()))
                }
            }
            Loc::Bad => Err(Outcome::Mem(format!("write through {:#x}", a))),
        }
    }
    fn load_obj(&mut self, o: &Obj, off: usize, w: u8) -> Val {
        let n = (w as usize + 7) / 8;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|e| *e == 0) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                let v = u64::from_le_bytes(b);
                return C(if w < 64 { v & ((1u64 << w) - 1) } else { v });
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let e = self.pool.k(w, u128::from_le_bytes(b));
            return S(e);
        }
        let mut r: Option<E> = None;
        for i in 0..n {
            let b = if o.sym[off + i] != 0 { o.sym[off + i] } else { self.pool.k(8, o.data[off + i] as u128) };
            r = Some(match r {
                None => b,
                Some(x) => self.pool.concat(b, x),
            });
        }
        let mut r = r.unwrap();
        if w as usize != n * 8 {
            r = self.pool.extract(r, 0, w);
        }
        self.norm(r)
    }
    fn load(&mut self, st: &mut State, a: Val, off: u64, w: u8) -> R<Val> {
        match a {
            C(a) => {
                let n = (w as usize + 7) / 8;
                self.with(st, a.wrapping_add(off), n, |s, o, i| s.load_obj(o, i, w))
            }
            S(e) => {
                // table lookup: address depends on one byte
                if let Some(v) = self.pool.unary(e) {
                    let d = st.doms[v as usize];
                    let mut m = st.model;
                    let mut tab = Box::new([0u64; 256]);
                    let mut ok = w <= 64;
                    let mut last = None;
                    let mut addrs = vec![];
                    for i in 0..256usize {
                        if bhas(&d, i as u8) {
                            m[v as usize] = i as u8;
                            addrs.push((i, self.pool.eval(e, &m) as u64));
                        }
                    }
                    // the byte table is only usable for a constant, small region
                    for (i, a) in &addrs {
                        if !ok {
                            break;
                        }
                        let n = (w as usize + 7) / 8;
                        match self.with(st, a.wrapping_add(off), n, |s, o, i| s.load_obj(o, i, w)) {
                            Ok(C(x)) => {
                                tab[*i] = x;
                                last = Some(x);
                            }
                            _ => ok = false,
                        }
                    }
                    if ok {
                        for i in 0..256 {
                            if !bhas(&d, i as u8) {
                                tab[i] = last.unwrap();
                            }
                        }
                        let r = self.pool.tab(v, w, tab);
                        return Ok(self.norm(r));
                    }
                }
                let a = self.concretize(st, S(e))?;
                self.load(st, C(a), off, w)
            }
        }
    }
    fn store(&mut self, st: &mut State, a: Val, off: u64, w: u8, v: Val) -> R<()> {
        let a = self.concretize(st, a)?.wrapping_add(off);
        let n = (w as usize + 7) / 8;
        let v = match v {
            S(e) => match self.pool.kv(e) {
                Some(k) => Err(k),
                None => Ok(e),
            },
            C(x) => Err(x as u128),
        };
        match v {
            Err(k) => self.with_mut(st, a, n, |o, i| {
                o.data[i..i + n].copy_from_slice(&k.to_le_bytes()[..n]);
                if !o.sym.is_empty() {
                    o.sym[i..i + n].fill(0);
                }
            }),
            Ok(e) => {
                let e = if w as usize != n * 8 { self.pool.zext(e, (n * 8) as u8) } else { e };
                let mut es = [0 as E; 16];
                let mut ks = [0u8; 16];
                for i in 0..n {
                    let b = self.pool.extract(e, (i * 8) as u8, 8);
                    match self.pool.kv(b) {
                        Some(k) => ks[i] = k as u8,
                        None => es[i] = b,
                    }
                }
                self.with_mut(st, a, n, |o, i| {
                    if o.sym.is_empty() {
                        o.sym = vec![0; o.data.len()];
                    }
                    o.data[i..i + n].copy_from_slice(&ks[..n]);
                    o.sym[i..i + n].copy_from_slice(&es[..n]);
                })
            }
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (data, sym) = self.with(st, s, n, |_, o, i| {
            let sym = if o.sym.is_empty() || o.sym[i..i + n].iter().all(|e| *e == 0) { vec![] } else { o.sym[i..i + n].to_vec() };
            (o.data[i..i + n].to_vec(), sym)
        })?;
        self.with_mut(st, d, n, |o, i| {
            o.data[i..i + n].copy_from_slice(&data);
            if !sym.is_empty() {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                o.sym[i..i + n].copy_from_slice(&sym);
            } else if !o.sym.is_empty() {
                o.sym[i..i + n].fill(0);
            }
        })
    }
    fn bytes(&mut self, st: &State, a: u64, n: usize) -> R<Vec<Val>> {
        if n == 0 {
            return Ok(vec![]);
        }
        self.with(st, a, n, |_, o, i| {
            (i..i + n).map(|j| if !o.sym.is_empty() && o.sym[j] != 0 { S(o.sym[j]) } else { C(o.data[j] as u64) }).collect()
        })
    }
    fn cstr(&mut self, st: &State, a: u64, n: usize) -> String {
        match self.bytes(st, a, n) {
            Ok(v) => {
                let b: Vec<u8> = v
                    .iter()
                    .map(|x| match x {
                        C(c) => *c as u8,
                        S(e) => self.pool.eval(*e, &st.model) as u8,
                    })
                    .collect();
                String::from_utf8_lossy(&b).into_owned()
            }
            Err(_) => "?".into(),
        }
    }

    // ---------- arithmetic ----------
    #[inline]
    fn binop(&mut self, op: Op, w: u8, a: Val, b: Val) -> R<Val> {
        if let (C(x), C(y)) = (a, b) {
            let m = if w >= 64 { !0 } else { (1u64 << w) - 1 };
            let r = match op {
                Op::Add => x.wrapping_add(y),
                Op::Sub => x.wrapping_sub(y),
                Op::Mul => x.wrapping_mul(y),
                Op::And => x & y,
                Op::Or => x | y,
                Op::Xor => x ^ y,
                Op::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                Op::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                _ => {
                    if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && y == 0 {
                        return Err(Outcome::Mem("division by zero".into()));
                    }
                    eval_bin(op, w, x as u128, y as u128) as u64
                }
            };
            return Ok(C(r & m));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = self.pool.bin(op, x, y);
        Ok(self.norm(r))
    }
    #[inline]
    fn icmp(&mut self, p: Pred, w: u8, a: Val, b: Val) -> Val {
        if let (C(x), C(y)) = (a, b) {
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                _ => {
                    let (x, y) = (sext64(x, w) as i64, sext64(y, w) as i64);
                    match p {
                        Pred::Slt => x < y,
                        Pred::Sle => x <= y,
                        Pred::Sgt => x > y,
                        _ => x >= y,
                    }
                }
            };
            return C(r as u64);
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let p_ = &mut self.pool;
        let r = match p {
            Pred::Eq => p_.eq(x, y),
            Pred::Ne => {
                let e = p_.eq(x, y);
                p_.not(e)
            }
            Pred::Ult => p_.ult(x, y),
            Pred::Ugt => p_.ult(y, x),
            Pred::Ule => {
                let e = p_.ult(y, x);
                p_.not(e)
            }
            Pred::Uge => {
                let e = p_.ult(x, y);
                p_.not(e)
            }
            Pred::Slt => p_.slt(x, y),
            Pred::Sgt => p_.slt(y, x),
            Pred::Sle => {
                let e = p_.slt(y, x);
                p_.not(e)
            }
            Pred::Sge => {
                let e = p_.slt(x, y);
                p_.not(e)
            }
        };
        self.norm(r)
    }
    fn cast(&mut self, k: Cast, fw: u8, tw: u8, a: Val) -> Val {
        if let C(x) = a {
            if tw <= 64 {
                let m = if tw >= 64 { !0 } else { (1u64 << tw) - 1 };
                return match k {
                    Cast::Trunc => C(x & m),
                    Cast::ZExt => C(x),
                    Cast::SExt => C(sext64(x, fw) & m),
                };
            }
        }
        let e = self.ex(a, fw);
        let r = match k {
            Cast::Trunc => self.pool.extract(e, 0, tw),
            Cast::ZExt => self.pool.zext(e, tw),
            Cast::SExt => self.pool.sext(e, tw),
        };
        self.norm(r)
    }
    #[inline]
    fn op(&self, st: &State, base: u32, o: Opnd) -> Val {
        match o {
            Opnd::R(r) => st.regs[(base + r) as usize],
            Opnd::C(k) => C(k),
            Opnd::K(e) => S(e),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, base: u32, d: u32, v: Val) {
        st.regs[(base + d) as usize] = v;
    }
    #[inline]
    fn jump(&mut self, st: &mut State, e: u32) {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.f;
        let edge = &f.edges[e as usize];
        let base = fr.base;
        fr.pc = edge.pc;
        self.cov[(f.cov + edge.block) as usize] = 1;
        match edge.moves.len() {
            0 => {}
            1 => {
                let (d, o) = edge.moves[0];
                let v = self.op(st, base, o);
                self.set(st, base, d, v);
            }
            _ => {
                self.tmp.clear();
                for (_, o) in edge.moves.iter() {
                    let v = self.op(st, base, *o);
                    self.tmp.push(v);
                }
                for (i, (d, _)) in edge.moves.iter().enumerate() {
                    let v = self.tmp[i];
                    self.set(st, base, *d, v);
                }
            }
        }
    }

    // ---------- main loop ----------
    pub fn run(&mut self, mut st: State) {
        let max = self.jobs[st.job as usize].max_steps;
        let mut n = 0u64;
        let r = loop {
            n += 1;
            if n & 0xfffff == 0 {
                if self.sh.stopped() {
                    self.stack.push(st);
                    return;
                }
            }
            st.steps += 1;
            if st.steps > max {
                break Outcome::Steps;
            }
            match self.step(&mut st) {
                Ok(Stop::Continue) => {}
                Ok(Stop::Done(o)) => break o,
                Err(o) => break o,
            }
        };
        self.sh.add_instrs(n);
        self.finish(st, r);
    }
    fn finish(&mut self, st: State, o: Outcome) {
        if let Outcome::Assumed = o {
            self.sh.assumed();
            return;
        }
        // self-check: the path's model satisfies its constraints
        for v in 0..st.nvars as usize {
            assert!(bhas(&st.doms[v], st.model[v]), "model outside its domain");
        }
        for e in &st.multi {
            assert_eq!(self.pool.eval(*e, &st.model), 1, "model breaks a path constraint");
        }
        let vals = st.model[..st.nvars as usize].to_vec();
        let obs = st
            .obs
            .iter()
            .map(|v| match v {
                C(x) => *x,
                S(e) => self.pool.eval(*e, &st.model) as u64,
            })
            .collect();
        self.outs.push((st.job, o, vals, obs, st.steps));
    }
    fn where_am_i(&self, st: &State) -> String {
        st.frames.iter().rev().take(6).map(|f| self.prog.funcs[f.f.id as usize].name.to_string()).collect::<Vec<_>>().join(" < ")
    }

    fn step(&mut self, st: &mut State) -> R<Stop> {
        let (f, pc, base) = {
            let fr = st.frames.last_mut().unwrap();
            (fr.f, fr.pc as usize, fr.base)
        };
        let inst = &f.insts[pc];
        match inst {
            Inst::Bin { op, w, dst, a, b } => {
                let (x, y) = (self.op(st, base, *a), self.op(st, base, *b));
                let r = match (op, x, y) {
                    (Op::UDiv | Op::URem | Op::SDiv | Op::SRem, _, S(_)) => {
                        let z = self.icmp(Pred::Eq, *w, y, C(0));
                        if self.decide(st, z)? {
                            return Err(Outcome::Mem("division by zero".into()));
                        }
                        self.binop(*op, *w, x, y)?
                    }
                    _ => self.binop(*op, *w, x, y)?,
                };
                self.set(st, base, *dst, r);
            }
            Inst::Icmp { p, w, dst, a, b } => {
                let (x, y) = (self.op(st, base, *a), self.op(st, base, *b));
                let r = self.icmp(*p, *w, x, y);
                self.set(st, base, *dst, r);
            }
            Inst::Cast { k, fw, tw, dst, a } => {
                let x = self.op(st, base, *a);
                let r = self.cast(*k, *fw, *tw, x);
                self.set(st, base, *dst, r);
            }
            Inst::Select { w, ptr, dst, c, a, b } => {
                let cv = self.op(st, base, *c);
                let (x, y) = (self.op(st, base, *a), self.op(st, base, *b));
                let r = match cv {
                    C(k) => {
                        if k & 1 == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    S(e) => {
                        let same = matches!((x, y), (C(p), C(q)) if p == q);
                        if same {
                            x
                        } else if *ptr {
                            if self.decide(st, cv)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            let p = self.ex(x, *w);
                            let q = self.ex(y, *w);
                            let r = self.pool.ite(e, p, q);
                            self.norm(r)
                        }
                    }
                };
                self.set(st, base, *dst, r);
            }
            Inst::Load { w, dst, p, off } => {
                let a = self.op(st, base, *p);
                let r = self.load(st, a, *off as u64, *w)?;
                self.set(st, base, *dst, r);
            }
            Inst::Store { w, v, p, off } => {
                let a = self.op(st, base, *p);
                let x = self.op(st, base, *v);
                self.store(st, a, *off as u64, *w, x)?;
            }
            Inst::Gep { dst, base: b, off, idx, iw, scale } => {
                let bv = self.op(st, base, *b);
                let r = match (bv, *scale) {
                    (C(x), 0) => C(x.wrapping_add(*off)),
                    _ => {
                        let iv = self.op(st, base, *idx);
                        match (bv, iv) {
                            (C(x), C(i)) => C(x.wrapping_add(*off).wrapping_add(sext64(i, *iw).wrapping_mul(*scale))),
                            _ => self.gep(bv, *off, iv, *iw, *scale)?,
                        }
                    }
                };
                self.set(st, base, *dst, r);
            }
            Inst::GepN { dst, base: b, off, idx } => {
                let mut r = self.op(st, base, *b);
                r = self.binop(Op::Add, 64, r, C(*off))?;
                for (o, iw, sc) in idx.iter() {
                    let iv = self.op(st, base, *o);
                    r = self.gep(r, 0, iv, *iw, *sc)?;
                }
                self.set(st, base, *dst, r);
            }
            Inst::Alloca { dst, off } => {
                let obj = st.frames.last().unwrap().obj;
                self.set(st, base, *dst, C(((obj as u64 + 1) << 32) + *off as u64));
            }
            Inst::Move { dst, a } => {
                let x = self.op(st, base, *a);
                self.set(st, base, *dst, x);
            }
            Inst::Br { e } => {
                self.jump(st, *e);
                return Ok(Stop::Continue);
            }
            Inst::CondBr { c, t, f } => {
                let v = self.op(st, base, *c);
                let b = self.decide(st, v)?;
                self.jump(st, if b { *t } else { *f });
                return Ok(Stop::Continue);
            }
            Inst::Switch { w, v, def, cases } => {
                let x = self.op(st, base, *v);
                let e = match x {
                    C(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def),
                    S(e) => {
                        // one decision per destination
                        let mut dests: Vec<(u32, E)> = vec![];
                        for (k, d) in cases.iter() {
                            let kk = self.pool.k(*w, *k as u128);
                            let q = self.pool.eq(e, kk);
                            match dests.iter_mut().find(|x| x.0 == *d) {
                                Some(x) => x.1 = self.pool.or1(x.1, q),
                                None => dests.push((*d, q)),
                            }
                        }
                        let mut r = *def;
                        for (d, q) in dests {
                            let q = self.norm(q);
                            if self.decide(st, q)? {
                                r = d;
                                break;
                            }
                        }
                        r
                    }
                };
                self.jump(st, e);
                return Ok(Stop::Continue);
            }
            Inst::Ret { v } => {
                let mut out = [C(0); 8];
                assert!(v.len() <= 8);
                for (i, o) in v.iter().enumerate() {
                    out[i] = self.op(st, base, *o);
                }
                let fr = st.frames.pop().unwrap();
                if fr.obj != u32::MAX {
                    st.mem.free(fr.obj);
                }
                if st.frames.is_empty() {
                    return Ok(Stop::Done(Outcome::Ok));
                }
                st.regs.truncate(fr.base as usize);
                let b2 = st.frames.last().unwrap().base;
                for i in 0..v.len() {
                    self.set(st, b2, fr.ret + i as u32, out[i]);
                }
                st.frames.last_mut().unwrap().pc += 1;
                return Ok(Stop::Continue);
            }
            Inst::Unreachable => {
                return Err(Outcome::Mem(format!("reached an unreachable instruction: {}", self.where_am_i(st))));
            }
            Inst::Call { callee, args, aw, dst, ret } => {
                let target = match callee {
                    Callee::Func(i) => *i,
                    Callee::Ptr(p) => {
                        let v = self.op(st, base, *p);
                        let a = self.concretize(st, v)?;
                        if a >> 32 != FUNC_ID {
                            return Err(Outcome::Mem(format!("call through {:#x}", a)));
                        }
                        ((a & 0xffff_ffff) >> 4) as u32
                    }
                    Callee::Intr(i, w) => {
                        return self.intr(st, *i, *w, args, aw, *dst, base);
                    }
                    Callee::Built(b) => {
                        return self.built(st, *b, args, aw, *dst, base);
                    }
                    Callee::Extern(n) => {
                        return Err(Outcome::Engine(format!("call of undefined {}: {}", n, self.where_am_i(st))));
                    }
                };
                if !self.prog.is_defined(target) {
                    let n = self.prog.funcs[target as usize].name;
                    if let Some(b) = builtin(n) {
                        return self.built(st, b, args, aw, *dst, base);
                    }
                    return Err(Outcome::Engine(format!("indirect call of undefined {}: {}", n, self.where_am_i(st))));
                }
                let nf = self.prog.func(&mut self.pool, target);
                if st.frames.len() > 2000 {
                    return Err(Outcome::Mem("stack overflow (2000 frames)".into()));
                }
                if nf.params.len() != args.len() {
                    return Err(Outcome::Engine(format!("argument count of {}", self.prog.funcs[target as usize].name)));
                }
                let _ = ret;
                let nb = st.regs.len() as u32;
                st.regs.resize(nb as usize + nf.nregs as usize, C(0));
                for (i, a) in args.iter().enumerate() {
                    let v = self.op(st, base, *a);
                    st.regs[(nb + nf.params[i]) as usize] = v;
                }
                let obj = if nf.frame > 0 { st.mem.alloc(Obj::new(nf.frame as usize, false, 16)) } else { u32::MAX };
                self.cov[nf.cov as usize] = 1;
                st.frames.push(Frame { f: nf, pc: 0, base: nb, ret: *dst, obj });
                return Ok(Stop::Continue);
            }
            Inst::Rmw { op, w, dst, p, v } => {
                let a = self.op(st, base, *p);
                let x = self.op(st, base, *v);
                let old = self.load(st, a, 0, *w)?;
                let new = match op {
                    0 => x,
                    1 => self.binop(Op::Add, *w, old, x)?,
                    2 => self.binop(Op::Sub, *w, old, x)?,
                    3 => self.binop(Op::And, *w, old, x)?,
                    4 => self.binop(Op::Or, *w, old, x)?,
                    5 => self.binop(Op::Xor, *w, old, x)?,
                    _ => return Err(Outcome::Engine("atomicrmw".into())),
                };
                self.store(st, a, 0, *w, new)?;
                self.set(st, base, *dst, old);
            }
            Inst::Cas { w, dst, p, c, n } => {
                let a = self.op(st, base, *p);
                let cv = self.op(st, base, *c);
                let nv = self.op(st, base, *n);
                let old = self.load(st, a, 0, *w)?;
                let e = self.icmp(Pred::Eq, *w, old, cv);
                let ok = self.decide(st, e)?;
                if ok {
                    self.store(st, a, 0, *w, nv)?;
                }
                self.set(st, base, *dst, old);
                self.set(st, base, *dst + 1, C(ok as u64));
            }
            Inst::Unsup(s) => return Err(Outcome::Engine(format!("unsupported: {}", s))),
        }
        st.frames.last_mut().unwrap().pc += 1;
        Ok(Stop::Continue)
    }
    fn gep(&mut self, b: Val, off: u64, i: Val, iw: u8, scale: u64) -> R<Val> {
        let mut i = i;
        if iw < 64 {
            i = self.cast(Cast::SExt, iw, 64, i);
        }
        let s = self.binop(Op::Mul, 64, i, C(scale))?;
        let r = self.binop(Op::Add, 64, b, C(off))?;
        self.binop(Op::Add, 64, r, s)
    }
    fn next(&self, st: &mut State) -> R<Stop> {
        st.frames.last_mut().unwrap().pc += 1;
        Ok(Stop::Continue)
    }
    #[allow(clippy::too_many_arguments)]
    fn intr(&mut self, st: &mut State, i: Intr, w: u8, args: &[Opnd], aw: &[u8], dst: u32, base: u32) -> R<Stop> {
        let a: Vec<Val> = args.iter().map(|o| self.op(st, base, *o)).collect();
        let sel = |s: &mut Self, c: Val, x: Val, y: Val| -> Val {
            match c {
                C(k) => {
                    if k & 1 == 1 {
                        x
                    } else {
                        y
                    }
                }
                S(e) => {
                    let p = s.ex(x, w);
                    let q = s.ex(y, w);
                    let r = s.pool.ite(e, p, q);
                    s.norm(r)
                }
            }
        };
        let r: Val = match i {
            Intr::Nop => return self.next(st),
            Intr::Assume => return self.next(st),
            Intr::MemCpy | Intr::MemMove => {
                let d = self.concretize(st, a[0])?;
                let s = self.concretize(st, a[1])?;
                let n = self.concretize(st, a[2])?;
                st.steps += n >> 5;
                self.copy(st, d, s, n as usize)?;
                return self.next(st);
            }
            Intr::MemSet => {
                self.memset(st, a[0], a[1], a[2])?;
                return self.next(st);
            }
            Intr::UMax => {
                let c = self.icmp(Pred::Ult, w, a[0], a[1]);
                sel(self, c, a[1], a[0])
            }
            Intr::UMin => {
                let c = self.icmp(Pred::Ult, w, a[0], a[1]);
                sel(self, c, a[0], a[1])
            }
            Intr::SMax => {
                let c = self.icmp(Pred::Slt, w, a[0], a[1]);
                sel(self, c, a[1], a[0])
            }
            Intr::SMin => {
                let c = self.icmp(Pred::Slt, w, a[0], a[1]);
                sel(self, c, a[0], a[1])
            }
            Intr::UAddO | Intr::USubO | Intr::UMulO | Intr::SAddO | Intr::SSubO | Intr::SMulO => {
                let (op, signed) = match i {
                    Intr::UAddO => (Op::Add, false),
                    Intr::USubO => (Op::Sub, false),
                    Intr::UMulO => (Op::Mul, false),
                    Intr::SAddO => (Op::Add, true),
                    Intr::SSubO => (Op::Sub, true),
                    _ => (Op::Mul, true),
                };
                let r = self.binop(op, w, a[0], a[1])?;
                // exact result in a wider width
                let xw = if op == Op::Mul { w as u32 * 2 } else { w as u32 + 1 };
                if xw > 128 {
                    return Err(Outcome::Engine("overflow intrinsic width".into()));
                }
                let xw = xw as u8;
                let k = if signed { Cast::SExt } else { Cast::ZExt };
                let (x, y) = (self.cast(k, w, xw, a[0]), self.cast(k, w, xw, a[1]));
                let o = if let (C(p), C(q)) = (a[0], a[1]) {
                    let (p, q) = (p as u128, q as u128);
                    if signed {
                        let s = |v: u128| sext64(v as u64, w) as i64 as i128;
                        let z = match op {
                            Op::Add => s(p) + s(q),
                            Op::Sub => s(p) - s(q),
                            _ => s(p) * s(q),
                        };
                        let lim = 1i128 << (w - 1);
                        C((z < -lim || z >= lim) as u64)
                    } else {
                        let z = match op {
                            Op::Add => p + q > mask(w),
                            Op::Sub => p < q,
                            _ => p * q > mask(w),
                        };
                        C(z as u64)
                    }
                } else if i == Intr::USubO {
                    self.icmp(Pred::Ult, w, a[0], a[1])
                } else if i == Intr::UAddO {
                    self.icmp(Pred::Ult, w, r, a[0])
                } else {
                    let z = self.wide(op, xw, x, y);
                    let rr = self.cast(k, w, xw, r);
                    let rr = self.ex(rr, xw);
                    let e = self.pool.eq(z, rr);
                    let e = self.pool.not(e);
                    self.norm(e)
                };
                self.set(st, base, dst, r);
                self.set(st, base, dst + 1, o);
                return self.next(st);
            }
            Intr::UAddSat => {
                let r = self.binop(Op::Add, w, a[0], a[1])?;
                let c = self.icmp(Pred::Ult, w, r, a[0]);
                sel(self, c, C(mask(w) as u64), r)
            }
            Intr::USubSat => {
                let r = self.binop(Op::Sub, w, a[0], a[1])?;
                let c = self.icmp(Pred::Ult, w, a[0], a[1]);
                sel(self, c, C(0), r)
            }
            Intr::BSwap => match a[0] {
                C(x) => C(x.swap_bytes() >> (64 - w)),
                S(e) => {
                    let mut r: Option<E> = None;
                    for k in 0..w / 8 {
                        let b = self.pool.extract(e, k * 8, 8);
                        r = Some(match r {
                            None => b,
                            Some(x) => self.pool.concat(x, b),
                        });
                    }
                    self.norm(r.unwrap())
                }
            },
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::BitReverse => {
                let f = |x: u64| -> u64 {
                    match i {
                        Intr::Ctlz => {
                            if x == 0 {
                                w as u64
                            } else {
                                (x.leading_zeros() - (64 - w as u32)) as u64
                            }
                        }
                        Intr::Cttz => {
                            if x == 0 {
                                w as u64
                            } else {
                                x.trailing_zeros() as u64
                            }
                        }
                        Intr::Ctpop => x.count_ones() as u64,
                        _ => x.reverse_bits() >> (64 - w as u32),
                    }
                };
                match a[0] {
                    C(x) => C(f(x)),
                    S(e) => {
                        if w > 64 {
                            return Err(Outcome::Engine("wide bit count".into()));
                        }
                        // bit by bit
                        let mut r: E;
                        match i {
                            Intr::Ctpop => {
                                r = self.pool.k(w, 0);
                                for b in 0..w {
                                    let x = self.pool.extract(e, b, 1);
                                    let z = self.pool.zext(x, w);
                                    r = self.pool.add(r, z);
                                }
                            }
                            Intr::BitReverse => {
                                r = self.pool.extract(e, 0, 1);
                                for b in 1..w {
                                    let x = self.pool.extract(e, b, 1);
                                    r = self.pool.concat(r, x);
                                }
                            }
                            _ => {
                                r = self.pool.k(w, w as u128);
                                for s in 0..w {
                                    // lowest priority first
                                    let (b, k) = if i == Intr::Ctlz { (s, w - 1 - s) } else { (w - 1 - s, w - 1 - s) };
                                    let x = self.pool.extract(e, b, 1);
                                    let kk = self.pool.k(w, k as u128);
                                    r = self.pool.ite(x, kk, r);
                                }
                            }
                        }
                        self.norm(r)
                    }
                }
            }
            Intr::Abs => {
                let n = self.icmp(Pred::Slt, w, a[0], C(0));
                let m = self.binop(Op::Sub, w, C(0), a[0])?;
                sel(self, n, m, a[0])
            }
            Intr::Fshl | Intr::Fshr => {
                let k = self.concretize(st, a[2])? % w as u64;
                let k = if i == Intr::Fshl { k } else { (w as u64 - k) % w as u64 };
                if i == Intr::Fshr && k == 0 {
                    a[1]
                } else if k == 0 {
                    a[0]
                } else {
                    let x = self.binop(Op::Shl, w, a[0], C(k))?;
                    let y = self.binop(Op::LShr, w, a[1], C(w as u64 - k))?;
                    self.binop(Op::Or, w, x, y)?
                }
            }
            Intr::UCmp | Intr::SCmp => {
                let p = if i == Intr::UCmp { Pred::Ult } else { Pred::Slt };
                let lt = self.icmp(p, aw[0], a[0], a[1]);
                let gt = self.icmp(p, aw[0], a[1], a[0]);
                let x = sel(self, gt, C(1), C(0));
                sel(self, lt, C(mask(w) as u64), x)
            }
            Intr::LoadRel => {
                let o = self.concretize(st, a[1])?;
                let b = self.concretize(st, a[0])?;
                // relative tables hold differences of addresses, which do not fit
                // 32 bits in this address model: resolve through the initializer
                let v = self.rel(st, b, o)?;
                C(v)
            }
            Intr::Identity | Intr::ThreadLocal => a[0],
            Intr::ConstFalse => C(0),
            Intr::PtrMask => self.binop(Op::And, 64, a[0], a[1])?,
            Intr::Trap => return Err(Outcome::Panic("trap".into())),
            Intr::SAddSat | Intr::SSubSat => return Err(Outcome::Engine("signed saturation".into())),
        };
        self.set(st, base, dst, r);
        self.next(st)
    }
    fn wide(&mut self, op: Op, w: u8, a: Val, b: Val) -> E {
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        self.pool.bin(op, x, y)
    }
    fn rel(&mut self, st: &mut State, b: u64, o: u64) -> R<u64> {
        // differences were truncated to 32 bits: they hold (target - base) mod 2^32,
        // which in this address model is the difference of offsets only. The table's
        // text is needed; keep it simple and refuse.
        let _ = (st, b, o);
        Err(Outcome::Engine("llvm.load.relative".into()))
    }
    fn memset(&mut self, st: &mut State, d: Val, v: Val, n: Val) -> R<()> {
        let d = self.concretize(st, d)?;
        let n = self.concretize(st, n)? as usize;
        if n == 0 {
            return Ok(());
        }
        match v {
            C(x) => self.with_mut(st, d, n, |o, i| {
                o.data[i..i + n].fill(x as u8);
                if !o.sym.is_empty() {
                    o.sym[i..i + n].fill(0);
                }
            }),
            S(e) => self.with_mut(st, d, n, |o, i| {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                o.sym[i..i + n].fill(e);
            }),
        }
    }
    fn location(&mut self, st: &mut State, a: Option<&Val>) -> String {
        if let Some(C(p)) = a {
            if let (Ok(C(s)), Ok(C(n)), Ok(C(l)), Ok(C(c))) = (
                self.load(st, C(*p), 0, 64),
                self.load(st, C(*p), 8, 64),
                self.load(st, C(*p), 16, 32),
                self.load(st, C(*p), 20, 32),
            ) {
                if n < 1000 {
                    let f = self.cstr(st, s, n as usize);
                    let f = f.trim_end_matches('\0');
                    if f.ends_with(".rs") {
                        return format!("{}:{}:{}", f, l, c);
                    }
                }
            }
        }
        String::new()
    }
    fn built(&mut self, st: &mut State, b: Built, args: &[Opnd], _aw: &[u8], dst: u32, base: u32) -> R<Stop> {
        let a: Vec<Val> = args.iter().map(|o| self.op(st, base, *o)).collect();
        match b {
            Built::Nop => return self.next(st),
            Built::Alloc | Built::AllocZeroed => {
                let n = self.concretize(st, a[0])?;
                let al = self.concretize(st, a[1])?;
                if n > 1 << 28 {
                    return Err(Outcome::Mem(format!("allocation of {} bytes", n)));
                }
                let id = st.mem.alloc(Obj::new(n as usize, true, al as u32));
                self.set(st, base, dst, C((id as u64 + 1) << 32));
            }
            Built::Dealloc => {
                let p = self.concretize(st, a[0])?;
                let n = self.concretize(st, a[1])?;
                match loc(p) {
                    (Loc::Obj(id), 0) => match st.mem.get(id) {
                        Some(o) if o.heap && o.data.len() as u64 == n => st.mem.free(id),
                        Some(_) => return Err(Outcome::Mem("dealloc with a wrong size".into())),
                        None => return Err(Outcome::Mem("double free".into())),
                    },
                    _ => return Err(Outcome::Mem("dealloc of a bad pointer".into())),
                }
            }
            Built::Realloc => {
                let p = self.concretize(st, a[0])?;
                let n = self.concretize(st, a[3])?;
                if n > 1 << 28 {
                    return Err(Outcome::Mem(format!("allocation of {} bytes", n)));
                }
                match loc(p) {
                    (Loc::Obj(id), 0) => match st.mem.get(id) {
                        Some(o) if o.heap => {
                            let mut o = o.clone();
                            st.mem.free(id);
                            o.data.resize(n as usize, 0);
                            if !o.sym.is_empty() {
                                o.sym.resize(n as usize, 0);
                            }
                            let id = st.mem.alloc(o);
                            self.set(st, base, dst, C((id as u64 + 1) << 32));
                        }
                        _ => return Err(Outcome::Mem("realloc of a bad object".into())),
                    },
                    _ => return Err(Outcome::Mem("realloc of a bad pointer".into())),
                }
            }
            Built::Panic => {
                let mut l = String::new();
                for v in a.iter().rev() {
                    l = self.location(st, Some(v));
                    if !l.is_empty() {
                        break;
                    }
                }
                if l.is_empty() {
                    // PanicInfo { .., location, .. }
                    if let Some(C(p)) = a.first() {
                        for off in [8u64, 16, 0] {
                            if let Ok(v) = self.load(st, C(*p), off, 64) {
                                l = self.location(st, Some(&v));
                                if !l.is_empty() {
                                    break;
                                }
                            }
                        }
                    }
                }
                if l.is_empty() {
                    l = self.where_am_i(st);
                }
                return Ok(Stop::Done(Outcome::Panic(l)));
            }
            Built::Abort => return Ok(Stop::Done(Outcome::Panic(format!("abort: {}", self.where_am_i(st))))),
            Built::Memcmp => {
                let n = self.concretize(st, a[2])? as usize;
                let p = self.concretize(st, a[0])?;
                let q = self.concretize(st, a[1])?;
                let x = self.bytes(st, p, n)?;
                let y = self.bytes(st, q, n)?;
                // lexicographic, built from the end
                let mut r = self.pool.k(32, 0);
                for i in (0..n).rev() {
                    if let (C(u), C(v)) = (x[i], y[i]) {
                        if u != v {
                            r = self.pool.k(32, if u < v { 0xffff_ffff } else { 1 });
                        }
                        continue;
                    }
                    let (u, v) = (self.ex(x[i], 8), self.ex(y[i], 8));
                    let e = self.pool.eq(u, v);
                    let l = self.pool.ult(u, v);
                    let k1 = self.pool.k(32, 0xffff_ffff);
                    let k2 = self.pool.k(32, 1);
                    let d = self.pool.ite(l, k1, k2);
                    r = self.pool.ite(e, r, d);
                }
                let r = self.norm(r);
                self.set(st, base, dst, r);
            }
            Built::MemCpy => {
                let d = self.concretize(st, a[0])?;
                let s = self.concretize(st, a[1])?;
                let n = self.concretize(st, a[2])?;
                st.steps += n >> 5;
                self.copy(st, d, s, n as usize)?;
                self.set(st, base, dst, C(d));
            }
            Built::MemSet => {
                let v = match a[1] {
                    C(x) => C(x & 0xff),
                    S(e) => {
                        let x = self.pool.extract(e, 0, 8);
                        self.norm(x)
                    }
                };
                self.memset(st, a[0], v, a[2])?;
                self.set(st, base, dst, a[0]);
            }
            Built::Random => {
                self.memset(st, a[0], C(0x5a), a[1])?;
                self.set(st, base, dst, a[1]);
            }
            Built::Strlen => {
                let p = self.concretize(st, a[0])?;
                let mut n = 0;
                loop {
                    let v = self.load(st, C(p + n), 0, 8)?;
                    let z = self.icmp(Pred::Eq, 8, v, C(0));
                    if self.decide(st, z)? {
                        break;
                    }
                    n += 1;
                }
                self.set(st, base, dst, C(n));
            }
            Built::Memchr => {
                let p = self.concretize(st, a[0])?;
                let n = self.concretize(st, a[2])?;
                let k = match a[1] {
                    C(x) => C(x & 0xff),
                    S(e) => {
                        let x = self.pool.extract(e, 0, 8);
                        self.norm(x)
                    }
                };
                let mut r = 0;
                for i in 0..n {
                    let v = self.load(st, C(p + i), 0, 8)?;
                    let z = self.icmp(Pred::Eq, 8, v, k);
                    if self.decide(st, z)? {
                        r = p + i;
                        break;
                    }
                }
                self.set(st, base, dst, C(r));
            }
            Built::SymByte => {
                if st.nvars >= 128 {
                    return Err(Outcome::Engine("more than 128 symbolic bytes".into()));
                }
                let i = st.nvars;
                st.nvars += 1;
                st.doms.push(FULL);
                let e = self.pool.var(i);
                self.set(st, base, dst, S(e));
            }
            Built::SymChoice => {
                if st.nvars >= 128 {
                    return Err(Outcome::Engine("more than 128 symbolic bytes".into()));
                }
                let n = self.concretize(st, a[0])?;
                if n == 0 || n > 256 {
                    return Err(Outcome::Engine("sym_choice range".into()));
                }
                let i = st.nvars;
                st.nvars += 1;
                let mut d = [0u64; 4];
                for k in 0..n {
                    d[k as usize / 64] |= 1 << (k % 64);
                }
                st.doms.push(d);
                let e = self.pool.var(i);
                let e = self.pool.zext(e, 64);
                self.set(st, base, dst, S(e));
            }
            Built::SymAssume => {
                let v = match a[0] {
                    C(x) => C(x & 1),
                    S(e) => {
                        let x = self.pool.extract(e, 0, 1);
                        self.norm(x)
                    }
                };
                match v {
                    C(x) => {
                        if x == 0 {
                            return Ok(Stop::Done(Outcome::Assumed));
                        }
                    }
                    S(e) => match self.feasible(st, e, true)? {
                        None => return Ok(Stop::Done(Outcome::Assumed)),
                        Some(m) => self.assert(st, e, true, m),
                    },
                }
            }
            Built::SymFail => {
                let p = self.concretize(st, a[0])?;
                let n = self.concretize(st, a[1])?;
                let m = self.cstr(st, p, n as usize);
                return Ok(Stop::Done(Outcome::Fail(m)));
            }
            Built::SymReach => {
                let c = self.concretize(st, a[0])?;
                self.reach[st.job as usize].insert(c, ());
            }
            Built::SymArg => {
                let p = self.concretize(st, a[0])?;
                let cap = self.concretize(st, a[1])? as usize;
                let arg = self.jobs[st.job as usize].arg.clone();
                if arg.len() > cap {
                    return Err(Outcome::Engine("job argument too long".into()));
                }
                if !arg.is_empty() {
                    self.with_mut(st, p, arg.len(), |o, i| o.data[i..i + arg.len()].copy_from_slice(&arg))?;
                }
                self.set(st, base, dst, C(arg.len() as u64));
            }
            Built::SymObserve => {
                st.obs.push(a[0]);
            }
            Built::SymSteps => {
                self.set(st, base, dst, C(st.steps));
            }
            Built::SymConcrete => {
                let v = self.concretize(st, a[0])?;
                self.set(st, base, dst, C(v));
            }
        }
        self.next(st)
    }
}
