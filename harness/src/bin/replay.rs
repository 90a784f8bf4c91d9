//! Run harnesses natively on recorded values.
//! stdin: lines `id \t harness \t hexarg \t hexvals`; stdout: `id \t outcome \t obs \t msg`
use hx::sym::{Assumed, Fail, CTX};
use std::io::{BufRead, Write};
use std::sync::Mutex;
static LAST: Mutex<String> = Mutex::new(String::new());
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn main() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let p = i.payload();
        let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        *LAST.lock().unwrap() = format!("{} {}", loc, m.replace(['\n', '\t', '\r'], " "));
    }));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split('\t').collect();
        let h = hx::HARNESSES.iter().find(|x| x.0 == f[1]).expect("harness").1;
        let (arg, vals) = (unhex(f[2]), unhex(f[3]));
        {
            let mut o = std::io::stdout().lock();
            writeln!(o, "{}\tstart", f[0]).unwrap();
            o.flush().unwrap();
        }
        let r = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                CTX.with(|c| {
                    let mut c = c.borrow_mut();
                    c.arg = arg;
                    c.vals = vals;
                    c.pos = 0;
                    c.obs.clear();
                });
                let r = std::panic::catch_unwind(|| h());
                let obs = CTX.with(|c| c.borrow().obs.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(","));
                match r {
                    Ok(()) => ("ok".to_string(), obs, String::new()),
                    Err(e) => {
                        if let Some(f) = e.downcast_ref::<Fail>() {
                            ("fail".into(), obs, f.0.clone())
                        } else if e.downcast_ref::<Assumed>().is_some() {
                            ("assumed".into(), obs, String::new())
                        } else {
                            ("panic".into(), obs, LAST.lock().unwrap().clone())
                        }
                    }
                }
            })
            .unwrap()
            .join()
            .unwrap();
        println!("{}\t{}\t{}\t{}", f[0], r.0, r.1, r.2);
    }
}
