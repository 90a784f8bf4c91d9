//! ysym: symbolic execution of the LLVM IR of a Rust harness plus the crate under
//! test plus std, with Z3 deciding every branch on symbolic data.
mod exec;
mod expr;
mod ir;
mod mem;
mod shared;
mod z3;

use exec::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::Ordering::SeqCst;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn prctl(a: i32, b: u64, c: u64, d: u64, e: u64) -> i32;
    fn _exit(c: i32) -> !;
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        write!(s, "{:02x}", x).unwrap();
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

struct Worker {
    ex: Exec,
    pending: Vec<u32>,
    out: String,
    sample: u64,
    seed: u64,
    per_job: HashMap<u32, (u64, u64)>, // paths, sampled
    fails: HashMap<(u32, String), u32>,
    maxfail: u32,
    out_path: String,
    root: bool,
    last_split: std::time::Instant,
}

impl Worker {
    fn drain(&mut self) {
        let outs = std::mem::take(&mut self.ex.outs);
        for (job, o, vals, obs, steps) in outs {
            self.ex.sh.paths.fetch_add(1, SeqCst);
            let pj = self.per_job.entry(job).or_default();
            pj.0 += 1;
            let (kind, msg) = match &o {
                Outcome::Ok => ("ok", String::new()),
                Outcome::Fail(m) => ("fail", m.clone()),
                Outcome::Panic(m) => ("panic", m.clone()),
                Outcome::Steps => ("steps", String::new()),
                Outcome::Mem(m) => ("mem", m.clone()),
                Outcome::Engine(m) => ("engine", m.clone()),
                Outcome::Assumed => unreachable!(),
            };
            let write = if kind == "ok" {
                // deterministic sample of passing paths for native validation
                let mut h = self.seed ^ 0x9E37_79B9_7F4A_7C15;
                for b in &vals {
                    h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
                }
                h ^= h >> 29;
                if pj.1 < self.sample && (pj.0 <= 2 || h % 8 == 0) {
                    pj.1 += 1;
                    true
                } else {
                    false
                }
            } else {
                let n = self.fails.entry((job, format!("{} {}", kind, msg))).or_insert(0);
                *n += 1;
                if *n <= self.maxfail {
                    if self.ex.sh.fails.fetch_add(1, SeqCst) > 400 {
                        self.ex.sh.stop.store(1, SeqCst);
                    }
                    true
                } else {
                    false
                }
            };
            if write {
                let obs: Vec<String> = obs.iter().map(|x| format!("{:x}", x)).collect();
                let m: String = msg.chars().map(|c| if c.is_control() { ' ' } else { c }).collect();
                writeln!(self.out, "PATH\t{}\t{}\t{}\t{}\t{}\t{}", job, kind, steps, hex(&vals), obs.join(","), m).unwrap();
            }
        }
    }
    fn split(&mut self) {
        loop {
            let total = self.pending.len() + self.ex.stack.len();
            if total < 2 || self.last_split.elapsed().as_millis() < 4 {
                return;
            }
            let sh = self.ex.sh;
            if sh.active.load(SeqCst) >= sh.maxp.load(SeqCst) {
                return;
            }
            if sh.active.fetch_add(1, SeqCst) >= sh.maxp.load(SeqCst) {
                sh.active.fetch_sub(1, SeqCst);
                return;
            }
            sh.started.fetch_add(1, SeqCst);
            self.flush();
            self.last_split = std::time::Instant::now();
            // collect ended children, so that they do not fill the process table
            let mut st = 0;
            while unsafe { waitpid(-1, &mut st, 1) } > 0 {}
            let pid = unsafe { fork() };
            if pid < 0 {
                sh.active.fetch_sub(1, SeqCst);
                sh.started.fetch_sub(1, SeqCst);
                return;
            }
            let child = pid == 0;
            // alternate items
            let mut k = 0;
            let mut keep = |_: &u32| {
                k += 1;
                (k % 2 == 0) == child
            };
            self.pending.retain(|x| keep(x));
            let mut k = 0;
            // when there are pending jobs the stack stays with the parent
            if self.pending.is_empty() || total > 8 {
                self.ex.stack.retain(|_| {
                    k += 1;
                    (k % 2 == 1) == child
                });
            } else if child {
                self.ex.stack.clear();
            }
            if child {
                self.root = false;
                self.per_job.clear();
                self.ex.forks = 0;
                self.ex.z3.calls = 0;
                self.ex.z3.nanos = 0;
                for r in &mut self.ex.reach {
                    r.clear();
                }
                return;
            }
        }
    }
    fn flush(&mut self) {
        if self.out.is_empty() {
            return;
        }
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(&self.out_path).unwrap();
        f.write_all(self.out.as_bytes()).unwrap();
        self.out.clear();
    }
    fn work(&mut self) {
        loop {
            if self.ex.sh.stopped() {
                break;
            }
            self.split();
            let st = match self.ex.stack.pop() {
                Some(s) => s,
                None => match self.pending.pop() {
                    Some(j) => self.ex.start(j),
                    None => break,
                },
            };
            self.ex.run(st);
            self.drain();
            if self.out.len() > 60000 {
                self.flush();
            }
            if self.ex.pool.len() > 40_000_000 {
                writeln!(self.out, "PATH\t0\tengine\t0\t\t\texpression pool exhausted").unwrap();
                self.ex.sh.stop.store(1, SeqCst);
            }
        }
        let mut left: HashMap<u32, u32> = HashMap::new();
        for j in &self.pending {
            *left.entry(*j).or_default() += 1;
        }
        for s in &self.ex.stack {
            *left.entry(s.job).or_default() += 1;
        }
        for (j, n) in left {
            writeln!(self.out, "LEFT\t{}\t{}", j, n).unwrap();
        }
        for (j, p) in &self.per_job {
            writeln!(self.out, "JOB\t{}\t{}", j, p.0).unwrap();
        }
        for (j, r) in self.ex.reach.iter().enumerate() {
            for c in r.keys() {
                writeln!(self.out, "REACH\t{}\t{}", j, c).unwrap();
            }
        }
        writeln!(self.out, "STAT\t{}\t{}\t{}\t{}", self.ex.z3.calls, self.ex.z3.nanos, self.ex.forks, self.ex.pool.len()).unwrap();
        self.flush();
    }
}

fn main() {
    let mut lls = vec![];
    let (mut jobs_f, mut out_path) = (String::new(), String::new());
    let (mut procs, mut time, mut sample, mut maxfail, mut seed) = (8u32, 600u64, 40u64, 3u32, 1u64);
    let mut cov_f = None;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--ll" => lls.push(it.next().unwrap()),
            "--jobs" => jobs_f = it.next().unwrap(),
            "--out" => out_path = it.next().unwrap(),
            "--procs" => procs = it.next().unwrap().parse().unwrap(),
            "--time" => time = it.next().unwrap().parse().unwrap(),
            "--sample" => sample = it.next().unwrap().parse().unwrap(),
            "--maxfail" => maxfail = it.next().unwrap().parse().unwrap(),
            "--seed" => seed = it.next().unwrap().parse().unwrap(),
            "--cov" => cov_f = it.next(),
            _ => panic!("argument {}", a),
        }
    }
    let mut prog = ir::Program::new();
    for l in &lls {
        prog.load(l);
    }
    let pool = expr::Pool::new();
    let mut jobs = vec![];
    for l in std::fs::read_to_string(&jobs_f).unwrap().lines() {
        let p: Vec<&str> = l.split('\t').collect();
        let func = prog.find_func(p[0]).unwrap_or_else(|| panic!("no harness {}", p[0]));
        jobs.push(Job { harness: p[0].to_string(), func, max_steps: p[1].parse().unwrap(), arg: unhex(p[2]) });
    }
    std::fs::write(&out_path, "").unwrap();
    let ncov = prog.ncov as usize + 1;
    let cov = shared::shared_bytes(ncov);
    let cov_r: &'static [u8] = unsafe { std::slice::from_raw_parts(cov.as_ptr(), cov.len()) };
    let sh = shared::Shared::create(procs, time * 1000);
    unsafe {
        prctl(36, 1, 0, 0, 0); // child subreaper
    }
    let nj = jobs.len() as u32;
    let ex = Exec::new(prog, pool, jobs, sh, cov);
    let mut w = Worker {
        ex,
        pending: (0..nj).rev().collect(),
        out: String::new(),
        sample,
        seed,
        per_job: HashMap::new(),
        fails: HashMap::new(),
        maxfail,
        out_path: out_path.clone(),
        root: true,
        last_split: std::time::Instant::now(),
    };
    w.work();
    sh.active.fetch_sub(1, SeqCst);
    sh.clean.fetch_add(1, SeqCst);
    if !w.root {
        unsafe { _exit(0) }
    }
    loop {
        let mut st = 0;
        if unsafe { waitpid(-1, &mut st, 0) } < 0 {
            break;
        }
    }
    // every worker counts itself as clean on its way out
    let bad = sh.started.load(SeqCst) - sh.clean.load(SeqCst);
    // functions and blocks executed
    let mut s = String::new();
    for i in 0..w.ex.prog.funcs.len() as u32 {
        if !w.ex.prog.is_defined(i) {
            continue;
        }
        let c = w.ex.prog.funcs[i as usize].cov as usize;
        let end = if (i as usize) + 1 < w.ex.prog.funcs.len() && w.ex.prog.is_defined(i + 1) {
            w.ex.prog.funcs[i as usize + 1].cov as usize
        } else {
            ncov
        };
        let n = cov_r[c..end].iter().filter(|x| **x != 0).count();
        if n > 0 {
            let f = w.ex.prog.funcs[i as usize].name;
            let nb = { let mut pool = expr::Pool::new(); std::mem::swap(&mut pool, &mut w.ex.pool); let x = w.ex.prog.func(&mut pool, i).nblocks; std::mem::swap(&mut pool, &mut w.ex.pool); x };
            let mods = w.ex.prog.module_path(i).rsplit('/').next().unwrap().to_string();
            writeln!(s, "{}\t{}\t{}\t{}", mods, f, n, nb).unwrap();
        }
    }
    if let Some(f) = cov_f {
        std::fs::write(f, s).unwrap();
    }
    println!(
        "paths={} assumed={} instrs={} procs={} crashed={} stop={} ms={} z3={}",
        sh.paths.load(SeqCst),
        sh.assumed.load(SeqCst),
        sh.instrs.load(SeqCst),
        sh.started.load(SeqCst),
        bad,
        sh.stop.load(SeqCst),
        sh.elapsed_ms(),
        z3::Z3::version()
    );
    if bad > 0 {
        std::process::exit(3);
    }
}
