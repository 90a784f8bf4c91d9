//! Hash-consed bit-vector expressions (width 1..=128) over byte variables.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, // a = const table index
    Var,   // a = variable number (width 8)
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Not,     // width 1
    Concat,  // a = high, b = low
    Extract, // a, b = low bit
    ZExt,
    SExt,
    Ite, // a = cond, b, c
    Tab, // a = variable number, b = table index
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub type Bits = [u64; 4];

pub struct Pool {
    pub nodes: Vec<Node>,
    pub supp: Vec<u128>,
    map: FxMap<Node, E>,
    pub consts: Vec<u128>,
    cmap: FxMap<u128, u32>,
    pub tabs: Vec<Box<[u64; 256]>>,
    tabmap: HashMap<Box<[u64; 256]>, u32>,
    memo: Vec<(u32, u128)>,
    stamp: u32,
    truth: FxMap<E, Bits>,
    pub t: E,
    pub f: E,
}

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool {
            nodes: vec![],
            supp: vec![],
            map: Default::default(),
            consts: vec![],
            cmap: Default::default(),
            tabs: vec![],
            tabmap: Default::default(),
            memo: vec![],
            stamp: 0,
            truth: Default::default(),
            t: 0,
            f: 0,
        };
        // expression 0 is reserved as "no expression"
        p.k(8, 0xAB);
        p.f = p.k(1, 0);
        p.t = p.k(1, 1);
        p
    }
    fn mk(&mut self, op: Op, w: u8, a: u32, b: u32, c: u32) -> E {
        let n = Node { op, w, a, b, c };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let s = match op {
            Op::Const => 0,
            Op::Var | Op::Tab => 1u128 << a,
            Op::Not | Op::Extract | Op::ZExt | Op::SExt => self.supp[a as usize],
            Op::Ite => self.supp[a as usize] | self.supp[b as usize] | self.supp[c as usize],
            _ => self.supp[a as usize] | self.supp[b as usize],
        };
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.supp.push(s);
        self.memo.push((0, 0));
        self.map.insert(n, e);
        e
    }
    pub fn k(&mut self, w: u8, v: u128) -> E {
        let v = v & mask(w);
        let i = match self.cmap.get(&v) {
            Some(&i) => i,
            None => {
                let i = self.consts.len() as u32;
                self.consts.push(v);
                self.cmap.insert(v, i);
                i
            }
        };
        self.mk(Op::Const, w, i, 0, 0)
    }
    pub fn b(&mut self, v: bool) -> E {
        if v {
            self.t
        } else {
            self.f
        }
    }
    pub fn var(&mut self, i: u32) -> E {
        assert!(i < 128);
        self.mk(Op::Var, 8, i, 0, 0)
    }
    pub fn tab(&mut self, var: u32, w: u8, t: Box<[u64; 256]>) -> E {
        if t.iter().all(|x| *x == t[0]) {
            return self.k(w, t[0] as u128);
        }
        let i = match self.tabmap.get(&t) {
            Some(&i) => i,
            None => {
                let i = self.tabs.len() as u32;
                self.tabs.push(t.clone());
                self.tabmap.insert(t, i);
                i
            }
        };
        self.mk(Op::Tab, w, var, i, 0)
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    pub fn kv(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }

    // ---- constructors with simplification ----
    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.op {
            Op::Const => {
                let v = self.kv(a).unwrap();
                self.b(v == 0)
            }
            Op::Not => n.a,
            _ => self.mk(Op::Not, 1, a, 0, 0),
        }
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if a == self.f || b == self.f {
            return self.f;
        }
        if a == self.t {
            return b;
        }
        if b == self.t {
            return a;
        }
        if (self.n(a).op == Op::Not && self.n(a).a == b) || (self.n(b).op == Op::Not && self.n(b).a == a) {
            return self.f;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::And, 1, a, b, 0)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        let x = self.not(a);
        let y = self.not(b);
        let z = self.and1(x, y);
        self.not(z)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if c == self.t {
            return a;
        }
        if c == self.f {
            return b;
        }
        let cn = self.n(c);
        if cn.op == Op::Not {
            return self.ite(cn.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            if a == self.t {
                return self.or1(c, b);
            }
            if a == self.f {
                let nc = self.not(c);
                return self.and1(nc, b);
            }
            if b == self.f {
                return self.and1(c, a);
            }
            if b == self.t {
                let nc = self.not(c);
                return self.or1(nc, a);
            }
        } else if let (Some(x), Some(y)) = (self.kv(a), self.kv(b)) {
            if x == 1 && y == 0 {
                return self.zext(c, w);
            }
            if x == 0 && y == 1 {
                let nc = self.not(c);
                return self.zext(nc, w);
            }
        }
        self.mk(Op::Ite, w, c, a, b)
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        debug_assert!(n.w < w);
        match n.op {
            Op::Const => {
                let v = self.kv(a).unwrap();
                self.k(w, v)
            }
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Op::ZExt, w, a, 0, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => {
                let v = self.kv(a).unwrap();
                self.k(w, sx(v, n.w) as u128)
            }
            Op::ZExt => self.zext(n.a, w),
            Op::SExt => self.sext(n.a, w),
            _ => self.mk(Op::SExt, w, a, 0, 0),
        }
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let n = self.n(a);
        debug_assert!(lo as u32 + w as u32 <= n.w as u32);
        if lo == 0 && w == n.w {
            return a;
        }
        match n.op {
            Op::Const => {
                let v = self.kv(a).unwrap();
                self.k(w, v >> lo)
            }
            Op::Extract => self.extract(n.a, lo + n.b as u8, w),
            Op::ZExt | Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    self.extract(n.a, lo, w)
                } else if n.op == Op::ZExt {
                    if lo >= iw {
                        self.k(w, 0)
                    } else {
                        let x = self.extract(n.a, lo, iw - lo);
                        self.zext(x, w)
                    }
                } else if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    self.sext(x, w)
                } else {
                    let x = self.extract(n.a, iw - 1, 1);
                    self.sext(x, w)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    self.extract(n.b, lo, w)
                } else if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(h, l)
                }
            }
            Op::And | Op::Or | Op::Xor if n.w > 1 => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                match n.op {
                    Op::Add => self.add(x, y),
                    Op::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                }
            }
            Op::Ite => {
                let (kb, kc) = (self.kv(n.b).is_some(), self.kv(n.c).is_some());
                if kb || kc {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    self.ite(n.a, x, y)
                } else {
                    self.mk(Op::Extract, w, a, lo as u32, 0)
                }
            }
            Op::Tab => {
                let t = &self.tabs[n.b as usize];
                let mut r = Box::new([0u64; 256]);
                for i in 0..256 {
                    r[i] = (t[i] >> lo) & mask(w) as u64;
                }
                self.tab(n.a, w, r)
            }
            _ => self.mk(Op::Extract, w, a, lo as u32, 0),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hn, ln) = (self.n(h), self.n(l));
        let w = hn.w + ln.w;
        if let (Some(x), Some(y)) = (self.kv(h), self.kv(l)) {
            return self.k(w, x << ln.w | y);
        }
        if self.kv(h) == Some(0) {
            return self.zext(l, w);
        }
        // adjacent extracts
        if hn.op == Op::Extract {
            if ln.op == Op::Extract && hn.a == ln.a && ln.b + ln.w as u32 == hn.b {
                return self.extract(hn.a, ln.b as u8, w);
            }
            if hn.a == l && hn.b == ln.w as u32 {
                // cannot happen (extract above full width)
            }
        }
        // concat(zext x, l) with x: zext(concat(x,l))
        if hn.op == Op::ZExt {
            let x = self.concat(hn.a, l);
            return self.zext(x, w);
        }
        // right-associate: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if hn.op == Op::Concat {
            let r = self.concat(hn.b, l);
            return self.concat(hn.a, r);
        }
        // merge h with the top of l when l is a concat
        if ln.op == Op::Concat {
            let t = self.n(ln.a);
            if hn.op == Op::Extract && t.op == Op::Extract && hn.a == t.a && t.b + t.w as u32 == hn.b {
                let m = self.extract(hn.a, t.b as u8, hn.w + t.w);
                return self.concat(m, ln.b);
            }
            if let (Some(x), Some(y)) = (self.kv(h), self.kv(ln.a)) {
                let m = self.k(hn.w + t.w, x << t.w | y);
                return self.concat(m, ln.b);
            }
        }
        self.mk(Op::Concat, w, h, l, 0)
    }
    /// Segments, low to high, of an expression built from Concat/ZExt/Const.
    fn segs(&mut self, e: E, out: &mut Vec<(E, u8)>) {
        let n = self.n(e);
        match n.op {
            Op::Concat => {
                self.segs(n.b, out);
                self.segs(n.a, out);
            }
            Op::ZExt => {
                self.segs(n.a, out);
                let zw = n.w - self.w(n.a);
                let z = self.k(zw, 0);
                out.push((z, zw));
            }
            _ => out.push((e, n.w)),
        }
    }
    fn unsegs(&mut self, v: &[(E, u8)]) -> E {
        let mut r = v[v.len() - 1].0;
        for i in (0..v.len() - 1).rev() {
            r = self.concat(r, v[i].0);
        }
        r
    }
    /// a|b when at each bit at least one side is a constant zero: a concat.
    fn disjoint(&mut self, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n(a), self.n(b));
        let seg = |n: &Node| matches!(n.op, Op::Concat | Op::ZExt | Op::Const);
        if !(seg(&na) && seg(&nb)) {
            return None;
        }
        let (mut sa, mut sb) = (vec![], vec![]);
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        let mut out: Vec<(E, u8)> = vec![];
        let (mut i, mut j) = (0, 0);
        let (mut oi, mut oj) = (0u8, 0u8);
        while i < sa.len() && j < sb.len() {
            let l = (sa[i].1 - oi).min(sb[j].1 - oj);
            let x = self.extract(sa[i].0, oi, l);
            let y = self.extract(sb[j].0, oj, l);
            if self.kv(x) == Some(0) {
                out.push((y, l));
            } else if self.kv(y) == Some(0) {
                out.push((x, l));
            } else if let (Some(p), Some(q)) = (self.kv(x), self.kv(y)) {
                if p & q != 0 {
                    return None;
                }
                let k = self.k(l, p | q);
                out.push((k, l));
            } else {
                return None;
            }
            oi += l;
            oj += l;
            if oi == sa[i].1 {
                i += 1;
                oi = 0;
            }
            if oj == sb[j].1 {
                j += 1;
                oj = 0;
            }
        }
        Some(self.unsegs(&out))
    }
    fn order(&self, a: E, b: E) -> (E, E) {
        if self.kv(a).is_some() {
            (b, a)
        } else if self.kv(b).is_some() || a <= b {
            (a, b)
        } else {
            (b, a)
        }
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if let Some(y) = self.kv(b) {
            if let Some(x) = self.kv(a) {
                return self.k(w, x.wrapping_add(y));
            }
            if y == 0 {
                return a;
            }
            let n = self.n(a);
            if n.op == Op::Add {
                if let Some(z) = self.kv(n.b) {
                    let k = self.k(w, y.wrapping_add(z));
                    return self.add(n.a, k);
                }
            }
            if n.op == Op::Ite && self.kv(n.b).is_some() && self.kv(n.c).is_some() {
                let x = self.add(n.b, b);
                let y = self.add(n.c, b);
                return self.ite(n.a, x, y);
            }
        }
        if let Some(d) = self.disjoint(a, b) {
            return d;
        }
        self.mk(Op::Add, w, a, b, 0)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.k(w, 0);
        }
        if let Some(y) = self.kv(b) {
            let k = self.k(w, (!y).wrapping_add(1));
            return self.add(a, k);
        }
        self.mk(Op::Sub, w, a, b, 0)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        if let Some(y) = self.kv(b) {
            if let Some(x) = self.kv(a) {
                return self.k(w, x.wrapping_mul(y));
            }
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.k(w, y.trailing_zeros() as u128);
                return self.shl(a, k);
            }
        }
        self.mk(Op::Mul, w, a, b, 0)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.and1(a, b);
        }
        let (a, b) = self.order(a, b);
        if a == b {
            return a;
        }
        if let Some(y) = self.kv(b) {
            if let Some(x) = self.kv(a) {
                return self.k(w, x & y);
            }
            if y == 0 {
                return b;
            }
            if y == mask(w) {
                return a;
            }
            // runs
            let mut runs: Vec<(u8, u8, bool)> = vec![];
            let mut i = 0u8;
            while i < w {
                let bit = (y >> i) & 1 == 1;
                let mut j = i + 1;
                while j < w && ((y >> j) & 1 == 1) == bit {
                    j += 1;
                }
                runs.push((i, j - i, bit));
                i = j;
            }
            if runs.len() <= 5 {
                let mut v = vec![];
                for (lo, l, bit) in runs {
                    let x = if bit { self.extract(a, lo, l) } else { self.k(l, 0) };
                    v.push((x, l));
                }
                return self.unsegs(&v);
            }
        }
        self.mk(Op::And, w, a, b, 0)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.or1(a, b);
        }
        let (a, b) = self.order(a, b);
        if a == b {
            return a;
        }
        if let Some(y) = self.kv(b) {
            if let Some(x) = self.kv(a) {
                return self.k(w, x | y);
            }
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
        }
        if let Some(d) = self.disjoint(a, b) {
            return d;
        }
        self.mk(Op::Or, w, a, b, 0)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = self.order(a, b);
        if a == b {
            return self.k(w, 0);
        }
        if let Some(y) = self.kv(b) {
            if let Some(x) = self.kv(a) {
                return self.k(w, x ^ y);
            }
            if y == 0 {
                return a;
            }
            if w == 1 {
                return self.not(a);
            }
        }
        self.mk(Op::Xor, w, a, b, 0)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.kv(b) {
            if y == 0 {
                return a;
            }
            if y >= w as u128 {
                return self.k(w, 0);
            }
            let x = self.extract(a, 0, w - y as u8);
            let z = self.k(y as u8, 0);
            return self.concat(x, z);
        }
        self.mk(Op::Shl, w, a, b, 0)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.kv(b) {
            if y == 0 {
                return a;
            }
            if y >= w as u128 {
                return self.k(w, 0);
            }
            let x = self.extract(a, y as u8, w - y as u8);
            return self.zext(x, w);
        }
        self.mk(Op::LShr, w, a, b, 0)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.kv(b) {
            if y == 0 {
                return a;
            }
            let y = y.min(w as u128 - 1) as u8;
            let x = self.extract(a, y, w - y);
            return self.sext(x, w);
        }
        self.mk(Op::AShr, w, a, b, 0)
    }
    pub fn div(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.kv(a), self.kv(b)) {
            let v = eval_bin(op, w, x, y);
            return self.k(w, v);
        }
        if let Some(y) = self.kv(b) {
            if y.is_power_of_two() {
                let k = self.k(w, y.trailing_zeros() as u128);
                match op {
                    Op::UDiv => return self.lshr(a, k),
                    Op::URem => {
                        let m = self.k(w, y - 1);
                        return self.and(a, m);
                    }
                    _ => {}
                }
            }
        }
        self.mk(op, w, a, b, 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.t;
        }
        let (a, b) = self.order(a, b);
        let w = self.w(a);
        let n = self.n(a);
        if let Some(y) = self.kv(b) {
            if let Some(x) = self.kv(a) {
                return self.b(x == y);
            }
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if y > mask(iw) {
                        return self.f;
                    }
                    let k = self.k(iw, y);
                    return self.eq(n.a, k);
                }
                Op::SExt => {
                    let iw = self.w(n.a);
                    if (sx(y & mask(iw), iw) as u128) & mask(w) != y {
                        return self.f;
                    }
                    let k = self.k(iw, y);
                    return self.eq(n.a, k);
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let kl = self.k(lw, y);
                    let kh = self.k(w - lw, y >> lw);
                    let x = self.eq(n.b, kl);
                    let z = self.eq(n.a, kh);
                    return self.and1(z, x);
                }
                Op::Add => {
                    if let Some(z) = self.kv(n.b) {
                        let k = self.k(w, y.wrapping_sub(z));
                        return self.eq(n.a, k);
                    }
                }
                Op::Xor => {
                    if let Some(z) = self.kv(n.b) {
                        let k = self.k(w, y ^ z);
                        return self.eq(n.a, k);
                    }
                }
                Op::Ite => {
                    if self.kv(n.b).is_some() || self.kv(n.c).is_some() {
                        let x = self.eq(n.b, b);
                        let z = self.eq(n.c, b);
                        return self.ite(n.a, x, z);
                    }
                }
                _ => {}
            }
        } else {
            // both symbolic: split by segments when both are concat-like
            let m = self.n(b);
            let seg = |n: &Node| matches!(n.op, Op::Concat | Op::ZExt);
            if seg(&n) && seg(&m) {
                let (mut sa, mut sb) = (vec![], vec![]);
                self.segs(a, &mut sa);
                self.segs(b, &mut sb);
                let mut r = self.t;
                let (mut i, mut j) = (0, 0);
                let (mut oi, mut oj) = (0u8, 0u8);
                while i < sa.len() && j < sb.len() {
                    let l = (sa[i].1 - oi).min(sb[j].1 - oj);
                    let x = self.extract(sa[i].0, oi, l);
                    let y = self.extract(sb[j].0, oj, l);
                    let q = self.eq(x, y);
                    r = self.and1(r, q);
                    oi += l;
                    oj += l;
                    if oi == sa[i].1 {
                        i += 1;
                        oi = 0;
                    }
                    if oj == sb[j].1 {
                        j += 1;
                        oj = 0;
                    }
                }
                return r;
            }
        }
        self.mk(Op::Eq, 1, a, b, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f;
        }
        let w = self.w(a);
        if w == 1 {
            let na = self.not(a);
            return self.and1(na, b);
        }
        let (ka, kb) = (self.kv(a), self.kv(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.b(x < y);
        }
        if kb == Some(0) || ka == Some(mask(w)) {
            return self.f;
        }
        if kb == Some(1) {
            let z = self.k(w, 0);
            return self.eq(a, z);
        }
        if ka == Some(0) {
            let e = self.eq(b, a);
            return self.not(e);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt {
            let iw = self.w(na.a);
            if let Some(y) = kb {
                if y > mask(iw) {
                    return self.t;
                }
                let k = self.k(iw, y);
                return self.ult(na.a, k);
            }
            if nb.op == Op::ZExt && self.w(nb.a) == iw {
                return self.ult(na.a, nb.a);
            }
        }
        if nb.op == Op::ZExt {
            let iw = self.w(nb.a);
            if let Some(x) = ka {
                if x >= mask(iw) {
                    return self.f;
                }
                let k = self.k(iw, x);
                return self.ult(k, nb.a);
            }
        }
        if na.op == Op::Ite && kb.is_some() && (self.kv(na.b).is_some() || self.kv(na.c).is_some()) {
            let x = self.ult(na.b, b);
            let y = self.ult(na.c, b);
            return self.ite(na.a, x, y);
        }
        if nb.op == Op::Ite && ka.is_some() && (self.kv(nb.b).is_some() || self.kv(nb.c).is_some()) {
            let x = self.ult(a, nb.b);
            let y = self.ult(a, nb.c);
            return self.ite(nb.a, x, y);
        }
        self.mk(Op::Ult, 1, a, b, 0)
    }
    fn nonneg(&self, e: E) -> bool {
        let n = self.n(e);
        match n.op {
            Op::ZExt => true,
            Op::Const => (self.kv(e).unwrap() >> (n.w - 1)) & 1 == 0,
            _ => false,
        }
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f;
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.kv(a), self.kv(b)) {
            return self.b(sx(x, w) < sx(y, w));
        }
        if self.nonneg(a) && self.nonneg(b) {
            return self.ult(a, b);
        }
        let (na, nb) = (self.n(a), self.n(b));
        // sign test
        if self.kv(b) == Some(0) {
            if self.nonneg(a) {
                return self.f;
            }
            return self.extract(a, w - 1, 1);
        }
        if self.kv(a) == Some(mask(w)) {
            // -1 < b  <=> b >= 0
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        if self.nonneg(a) {
            if let Some(y) = self.kv(b) {
                if sx(y, w) < 0 {
                    return self.f;
                }
            }
        }
        if self.nonneg(b) {
            if let Some(x) = self.kv(a) {
                if sx(x, w) < 0 {
                    return self.t;
                }
            }
        }
        if na.op == Op::Ite && self.kv(b).is_some() && (self.kv(na.b).is_some() || self.kv(na.c).is_some()) {
            let x = self.slt(na.b, b);
            let y = self.slt(na.c, b);
            return self.ite(na.a, x, y);
        }
        if nb.op == Op::Ite && self.kv(a).is_some() && (self.kv(nb.b).is_some() || self.kv(nb.c).is_some()) {
            let x = self.slt(a, nb.b);
            let y = self.slt(a, nb.c);
            return self.ite(nb.a, x, y);
        }
        self.mk(Op::Slt, 1, a, b, 0)
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        match op {
            Op::Add => self.add(a, b),
            Op::Sub => self.sub(a, b),
            Op::Mul => self.mul(a, b),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Shl => self.shl(a, b),
            Op::LShr => self.lshr(a, b),
            Op::AShr => self.ashr(a, b),
            Op::UDiv | Op::URem | Op::SDiv | Op::SRem => self.div(op, a, b),
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => self.slt(a, b),
            Op::Concat => self.concat(a, b),
            _ => unreachable!(),
        }
    }

    // ---- evaluation ----
    pub fn eval(&mut self, e: E, m: &[u8; 128]) -> u128 {
        self.stamp += 1;
        let s = self.stamp;
        self.ev(e, m, s)
    }
    fn ev(&mut self, e: E, m: &[u8; 128], s: u32) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return m[n.a as usize] as u128,
            Op::Tab => return self.tabs[n.b as usize][m[n.a as usize] as usize] as u128,
            _ => {}
        }
        let (st, v) = self.memo[e as usize];
        if st == s {
            return v;
        }
        let r = match n.op {
            Op::Not => self.ev(n.a, m, s) ^ 1,
            Op::ZExt => self.ev(n.a, m, s),
            Op::SExt => {
                let iw = self.w(n.a);
                (sx(self.ev(n.a, m, s), iw) as u128) & mask(n.w)
            }
            Op::Extract => (self.ev(n.a, m, s) >> n.b) & mask(n.w),
            Op::Concat => {
                let lw = self.w(n.b);
                let h = self.ev(n.a, m, s);
                h << lw | self.ev(n.b, m, s)
            }
            Op::Ite => {
                if self.ev(n.a, m, s) == 1 {
                    self.ev(n.b, m, s)
                } else {
                    self.ev(n.c, m, s)
                }
            }
            _ => {
                let x = self.ev(n.a, m, s);
                let y = self.ev(n.b, m, s);
                let w = self.w(n.a);
                eval_bin(n.op, w, x, y)
            }
        };
        self.memo[e as usize] = (s, r);
        r
    }
    /// The single variable an expression depends on, if it is exactly one.
    pub fn unary(&self, e: E) -> Option<u32> {
        let s = self.supp[e as usize];
        if s != 0 && s & (s - 1) == 0 {
            Some(s.trailing_zeros())
        } else {
            None
        }
    }
    /// Truth table of a width-1 expression over one variable.
    pub fn truth(&mut self, e: E, v: u32) -> Bits {
        if let Some(t) = self.truth.get(&e) {
            return *t;
        }
        let mut m = [0u8; 128];
        let mut r = [0u64; 4];
        for i in 0..256 {
            m[v as usize] = i as u8;
            if self.eval(e, &m) == 1 {
                r[i / 64] |= 1 << (i % 64);
            }
        }
        self.truth.insert(e, r);
        r
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    /// Split an asserted condition into conjuncts.
    pub fn conjuncts(&mut self, e: E, out: &mut Vec<E>) {
        let n = self.n(e);
        if n.op == Op::And && n.w == 1 {
            self.conjuncts(n.a, out);
            self.conjuncts(n.b, out);
        } else if e != self.t {
            out.push(e);
        }
    }
}

pub fn eval_bin(op: Op, w: u8, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        // SMT-LIB semantics for a zero divisor
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                if a < 0 {
                    1
                } else {
                    m
                }
            } else {
                (a.wrapping_div(b) as u128) & m
            }
        }
        Op::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                x
            } else {
                (a.wrapping_rem(b) as u128) & m
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let y = y.min(w as u128 - 1) as u32;
            ((sx(x, w) >> y) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Slt => (sx(x, w) < sx(y, w)) as u128,
        _ => unreachable!(),
    }
}
