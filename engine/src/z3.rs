//! Minimal binding to libz3 (system library) and translation of expressions.
use crate::expr::*;
use std::ffi::{c_char, c_uint, c_void, CStr, CString};
type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, s: P) -> P;
    fn Z3_mk_numeral(c: P, v: *const c_char, s: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
}

pub enum Res {
    Sat([u8; 128]),
    Unsat,
    Unknown(String),
}

pub struct Z3 {
    ctx: P,
    solver: P,
    bvs: Vec<P>,
    cache: FxMap<E, P>,
    vars: Vec<P>,
    pub calls: u64,
    pub nanos: u64,
}

impl Z3 {
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let (k, v) = (CString::new("timeout").unwrap(), CString::new("20000").unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            let mut z = Z3 {
                ctx,
                solver: std::ptr::null_mut(),
                bvs: vec![std::ptr::null_mut(); 129],
                cache: Default::default(),
                vars: vec![],
                calls: 0,
                nanos: 0,
            };
            let simple = std::env::var("YSYM_Z3").map(|v| v == "simple").unwrap_or(true);
            z.solver = if simple {
                Z3_mk_simple_solver(ctx)
            } else {
                let l = CString::new("QF_BV").unwrap();
                let sy = Z3_mk_string_symbol(ctx, l.as_ptr());
                Z3_mk_solver_for_logic(ctx, sy)
            };
            Z3_solver_inc_ref(ctx, z.solver);
            for i in 0..128 {
                let s = CString::new(format!("b{}", i)).unwrap();
                let sy = Z3_mk_string_symbol(ctx, s.as_ptr());
                let sort = z.sort(8);
                let c = Z3_mk_const(ctx, sy, sort);
                z.vars.push(c);
            }
            z
        }
    }
    fn sort(&mut self, w: u8) -> P {
        let p = self.bvs[w as usize];
        if !p.is_null() {
            return p;
        }
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w as c_uint);
            self.bvs[w as usize] = s;
            s
        }
    }
    fn konst(&mut self, w: u8, v: u128) -> P {
        let s = self.sort(w);
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), s)
            }
        }
    }
    /// Width-1 expressions become Z3 booleans only at the comparison level:
    /// here every expression is a bit-vector, and `boolean` wraps width-1 ones.
    fn boolean(&mut self, p: &Pool, e: E) -> P {
        let one = self.konst(1, 1);
        let x = self.tr(p, e);
        unsafe { Z3_mk_eq(self.ctx, x, one) }
    }
    fn b2bv(&mut self, b: P) -> P {
        let one = self.konst(1, 1);
        let zero = self.konst(1, 0);
        unsafe { Z3_mk_ite(self.ctx, b, one, zero) }
    }
    fn tr(&mut self, p: &Pool, e: E) -> P {
        if let Some(&x) = self.cache.get(&e) {
            return x;
        }
        let n = p.n(e);
        let c = self.ctx;
        unsafe {
            let r = match n.op {
                Op::Const => self.konst(n.w, p.consts[n.a as usize]),
                Op::Var => self.vars[n.a as usize],
                Op::Tab => {
                    let t = p.tabs[n.b as usize].clone();
                    let v = self.vars[n.a as usize];
                    let mut r = self.konst(n.w, t[255] as u128);
                    for i in (1..256usize).rev() {
                        if t[i - 1] != t[i] {
                            let k = self.konst(8, i as u128);
                            let lt = Z3_mk_bvult(c, v, k);
                            let x = self.konst(n.w, t[i - 1] as u128);
                            r = Z3_mk_ite(c, lt, x, r);
                        }
                    }
                    r
                }
                Op::Not => {
                    let x = self.boolean(p, n.a);
                    let y = Z3_mk_not(c, x);
                    self.b2bv(y)
                }
                Op::ZExt => {
                    let x = self.tr(p, n.a);
                    Z3_mk_zero_ext(c, (n.w - p.w(n.a)) as c_uint, x)
                }
                Op::SExt => {
                    let x = self.tr(p, n.a);
                    Z3_mk_sign_ext(c, (n.w - p.w(n.a)) as c_uint, x)
                }
                Op::Extract => {
                    let x = self.tr(p, n.a);
                    Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, x)
                }
                Op::Ite => {
                    let x = self.boolean(p, n.a);
                    let y = self.tr(p, n.b);
                    let z = self.tr(p, n.c);
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.tr(p, n.a);
                    let y = self.tr(p, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        Op::Eq => {
                            let b = Z3_mk_eq(c, x, y);
                            self.b2bv(b)
                        }
                        Op::Ult => {
                            let b = Z3_mk_bvult(c, x, y);
                            self.b2bv(b)
                        }
                        Op::Slt => {
                            let b = Z3_mk_bvslt(c, x, y);
                            self.b2bv(b)
                        }
                        _ => unreachable!(),
                    }
                }
            };
            self.cache.insert(e, r);
            r
        }
    }
    /// Domain of one byte variable as a disjunction of ranges.
    fn dom(&mut self, v: u32, d: &Bits) -> Option<P> {
        if d.iter().all(|x| *x == !0) {
            return None;
        }
        let var = self.vars[v as usize];
        let mut parts: Vec<P> = vec![];
        let bit = |i: usize| d[i / 64] >> (i % 64) & 1 == 1;
        let mut i = 0;
        unsafe {
            while i < 256 {
                if bit(i) {
                    let mut j = i;
                    while j + 1 < 256 && bit(j + 1) {
                        j += 1;
                    }
                    let lo = self.konst(8, i as u128);
                    let hi = self.konst(8, j as u128);
                    let q = if i == j {
                        Z3_mk_eq(self.ctx, var, lo)
                    } else {
                        let xs = [Z3_mk_bvule(self.ctx, lo, var), Z3_mk_bvule(self.ctx, var, hi)];
                        Z3_mk_and(self.ctx, 2, xs.as_ptr())
                    };
                    parts.push(q);
                    i = j + 1;
                } else {
                    i += 1;
                }
            }
            let r = Z3_mk_or(self.ctx, parts.len() as c_uint, parts.as_ptr());
            Some(r)
        }
    }
    pub fn check(&mut self, p: &Pool, doms: &[(u32, Bits)], cons: &[E]) -> Res {
        let t0 = std::time::Instant::now();
        self.calls += 1;
        unsafe {
            let (c, s) = (self.ctx, self.solver);
            Z3_solver_push(c, s);
            for (v, d) in doms {
                if let Some(a) = self.dom(*v, d) {
                    Z3_solver_assert(c, s, a);
                }
            }
            for &e in cons {
                let b = self.boolean(p, e);
                Z3_solver_assert(c, s, b);
            }
            let r = Z3_solver_check(c, s);
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = [0u8; 128];
                    for (v, _) in doms {
                        let mut a: P = std::ptr::null_mut();
                        let ok = Z3_model_eval(c, m, self.vars[*v as usize], true, &mut a);
                        assert!(ok);
                        let mut u = 0u64;
                        let ok = Z3_get_numeral_uint64(c, a, &mut u);
                        assert!(ok);
                        out[*v as usize] = u as u8;
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown(CStr::from_ptr(Z3_solver_get_reason_unknown(c, s)).to_string_lossy().into_owned()),
            };
            Z3_solver_pop(c, s, 1);
            self.nanos += t0.elapsed().as_nanos() as u64;
            res
        }
    }
}
