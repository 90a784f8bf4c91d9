//! State shared by the worker processes.
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
pub fn shared_bytes(n: usize) -> &'static mut [u8] {
    unsafe {
        let p = mmap(std::ptr::null_mut(), n.max(1), 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        std::slice::from_raw_parts_mut(p, n)
    }
}

#[repr(C)]
pub struct Shared {
    pub active: AtomicU32,
    pub maxp: AtomicU32,
    pub stop: AtomicU32,
    pub started: AtomicU32,
    pub clean: AtomicU32,
    pub fails: AtomicU32,
    pub instrs: AtomicU64,
    pub paths: AtomicU64,
    pub assumed: AtomicU64,
    pub t0: AtomicU64,
    pub limit: AtomicU64,
}
fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}
impl Shared {
    pub fn create(maxp: u32, limit_ms: u64) -> &'static Shared {
        let b = shared_bytes(4096);
        let s: &'static Shared = unsafe { &*(b.as_ptr() as *const Shared) };
        s.active.store(1, SeqCst);
        s.started.store(1, SeqCst);
        s.maxp.store(maxp, SeqCst);
        s.t0.store(now(), SeqCst);
        s.limit.store(limit_ms, SeqCst);
        s
    }
    pub fn stopped(&self) -> bool {
        if self.stop.load(SeqCst) != 0 {
            return true;
        }
        if now() - self.t0.load(SeqCst) > self.limit.load(SeqCst) {
            self.stop.store(2, SeqCst);
            return true;
        }
        false
    }
    pub fn elapsed_ms(&self) -> u64 {
        now() - self.t0.load(SeqCst)
    }
    pub fn add_instrs(&self, n: u64) {
        self.instrs.fetch_add(n, SeqCst);
    }
    pub fn assumed(&self) {
        self.assumed.fetch_add(1, SeqCst);
    }
}
