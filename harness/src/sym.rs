//! Interface between a harness and the engine. With the feature `native` the same
//! harness runs on recorded values instead.
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sym_byte() -> u8;
        fn sym_choice(n: u64) -> u64;
        fn sym_assume(b: u8);
        fn sym_fail(p: *const u8, n: usize) -> !;
        fn sym_reach(c: u64);
        fn sym_arg(p: *mut u8, cap: usize) -> usize;
        fn sym_observe(v: u64);
        fn sym_concrete(v: u64) -> u64;
        fn sym_steps() -> u64;
    }
    pub fn byte() -> u8 {
        unsafe { sym_byte() }
    }
    pub fn choice(n: usize) -> usize {
        unsafe { sym_choice(n as u64) as usize }
    }
    pub fn assume(b: bool) {
        unsafe { sym_assume(b as u8) }
    }
    pub fn fail(m: &str) -> ! {
        unsafe { sym_fail(m.as_ptr(), m.len()) }
    }
    pub fn reach(c: u64) {
        unsafe { sym_reach(c) }
    }
    pub fn arg() -> Vec<u8> {
        let mut v = vec![0u8; 1 << 18];
        let n = unsafe { sym_arg(v.as_mut_ptr(), v.len()) };
        v[..n].to_vec()
    }
    pub fn observe(v: u64) {
        unsafe { sym_observe(v) }
    }
    /// The instructions executed so far.
    pub fn steps() -> u64 {
        unsafe { sym_steps() }
    }
    pub const NATIVE: bool = false;
    pub fn timed() -> bool {
        false
    }
    /// Fork over every feasible value.
    pub fn concrete(v: usize) -> usize {
        unsafe { sym_concrete(v as u64) as usize }
    }
}
#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Ctx {
        pub vals: Vec<u8>,
        pub pos: usize,
        pub arg: Vec<u8>,
        pub obs: Vec<u64>,
        pub assumed: bool,
    }
    thread_local! { pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()); }
    pub struct Fail(pub String);
    pub struct Assumed;
    pub fn byte() -> u8 {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let p = c.pos;
            c.pos += 1;
            c.vals.get(p).copied().unwrap_or(0)
        })
    }
    pub fn choice(n: usize) -> usize {
        let v = byte() as usize;
        if v >= n {
            0
        } else {
            v
        }
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(Assumed)
        }
    }
    pub fn fail(m: &str) -> ! {
        std::panic::panic_any(Fail(m.to_string()))
    }
    pub fn reach(_c: u64) {}
    pub fn arg() -> Vec<u8> {
        CTX.with(|c| c.borrow().arg.clone())
    }
    pub fn observe(v: u64) {
        CTX.with(|c| c.borrow_mut().obs.push(v))
    }
    pub fn concrete(v: usize) -> usize {
        v
    }
    /// Nanoseconds this thread has computed for.
    pub fn steps() -> u64 {
        extern "C" {
            fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
        }
        let mut t = [0; 2];
        unsafe { clock_gettime(3, &mut t) };
        (t[0] * 1_000_000_000 + t[1]) as u64
    }
    pub const NATIVE: bool = true;
    /// A counterexample is replayed: time stands for instructions.
    pub fn timed() -> bool {
        std::env::var_os("HX_TIMED").is_some()
    }
}
pub use imp::*;

pub fn range(lo: u8, hi: u8) -> u8 {
    lo + choice((hi - lo) as usize + 1) as u8
}
/// One of the listed bytes.
pub fn one_of(s: &[u8]) -> u8 {
    s[choice(s.len())]
}
pub fn flag() -> bool {
    concrete(choice(2)) == 1
}
pub fn pick(n: usize) -> usize {
    concrete(choice(n))
}
pub fn check(b: bool, m: &str) {
    if !b {
        fail(m)
    }
}
/// Fold a byte string into the observation list (FNV over bytes would mix
/// symbolic data expensively: every byte is observed on its own).
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for x in b {
        observe(*x as u64);
    }
}

/// Job argument: literal bytes, with 0xF5 as an escape for symbolic bytes.
/// F5 00 any byte | F5 01 any byte below 0x80 | F5 02 YAML-significant ASCII |
/// F5 03 printable ASCII or newline | F5 04 UTF-8 continuation 80..BF |
/// F5 05 n b1..bn one of | F5 06 lo hi range | F5 07 n (len bytes)*n one of these strings |
/// F5 08 lo16 hi16 len bytes: these bytes lo to hi times (01: the count so far) | F5 F5 literal F5 |
/// F5 09 any three-byte character | F5 0A any four-byte character
pub fn expand(t: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(t.len());
    let mut i = 0;
    while i < t.len() {
        if t[i] != 0xF5 {
            v.push(t[i]);
            i += 1;
            continue;
        }
        match t[i + 1] {
            0 => v.push(byte()),
            1 => {
                let b = byte();
                assume(b < 0x80);
                v.push(b);
            }
            2 => v.push(one_of(b" \t\n\r-?:,[]{}#&*!|>'\"%@`a0.\\~=<+_/")),
            3 => {
                let b = byte();
                assume((b >= 0x20 && b < 0x7f) || b == b'\n');
                v.push(b);
            }
            4 => {
                let b = byte();
                assume(b & 0xC0 == 0x80);
                v.push(b);
            }
            5 => {
                let n = t[i + 2] as usize;
                v.push(one_of(&t[i + 3..i + 3 + n]));
                i += 1 + n;
            }
            6 => {
                let b = byte();
                assume(b >= t[i + 2] && b <= t[i + 3]);
                v.push(b);
                i += 2;
            }
            7 => {
                let n = t[i + 2] as usize;
                let k = pick(n);
                let mut p = i + 3;
                for a in 0..n {
                    let l = t[p] as usize;
                    if a == k {
                        v.extend_from_slice(&t[p + 1..p + 1 + l]);
                    }
                    p += 1 + l;
                }
                i = p - 2;
            }
            8 => {
                let w = |k: usize| t[i + k] as usize | (t[i + k + 1] as usize) << 8;
                let (lo, hi, l) = (w(2), w(4), t[i + 6] as usize);
                let k = lo + if hi > lo { pick(hi - lo + 1) } else { 0 };
                for a in 0..k {
                    for b in &t[i + 7..i + 7 + l] {
                        if *b == 1 {
                            v.extend_from_slice(a.to_string().as_bytes());
                        } else {
                            v.push(*b);
                        }
                    }
                }
                i += 5 + l;
            }
            k @ (9 | 10) => {
                let (a, b) = (byte(), byte());
                assume((b & 0xC0 == 0x80) & if k == 9 { (a & 0xF0 == 0xE0) & ((a != 0xE0) | (b >= 0xA0)) & ((a != 0xED) | (b < 0xA0)) } else { (a >= 0xF0) & (a <= 0xF4) & ((a != 0xF0) | (b >= 0x90)) & ((a != 0xF4) | (b < 0x90)) });
                v.push(a);
                v.push(b);
                for _ in 8..k {
                    let c = byte();
                    assume(c & 0xC0 == 0x80);
                    v.push(c);
                }
            }
            x => v.push(x),
        }
        i += 2;
    }
    v
}
