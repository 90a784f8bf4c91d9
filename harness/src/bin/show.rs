//! show FILE-or-text: events and tokens of both implementations (debugging aid).
use hx::{oracle, safer};
use libyaml_safer as s;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t: Vec<u8> = {
        let b = a[1].as_bytes();
        let mut v = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'\\' {
                match b[i + 1] {
                    b'n' => v.push(b'\n'),
                    b't' => v.push(b'\t'),
                    b'r' => v.push(b'\r'),
                    b'x' => {
                        v.push(u8::from_str_radix(&a[1][i + 2..i + 4], 16).unwrap());
                        i += 2;
                    }
                    c => v.push(c),
                }
                i += 2;
            } else {
                v.push(b[i]);
                i += 1;
            }
        }
        v
    };
    for tok in [false, true] {
        let mut rd = &t[..];
        let mut p = s::Parser::new();
        p.set_input(&mut rd);
        let mut rd2 = &t[..];
        let mut sc = s::Scanner::new();
        sc.set_input(&mut rd2);
        unsafe {
            let mut q = oracle::P::new(&t);
            for _ in 0..100 {
                let b = if tok { oracle::next_token(&mut q) } else { oracle::next_event(&mut q) };
                let r = if tok { s::Scanner::scan(&mut sc).map(|x| (safer::token(&x), format!("{:?}", x.data))) } else { p.parse().map(|x| (safer::event(&x), format!("{:?}", x.data))) };
                match &r {
                    Ok((e, d)) => println!("port {:2} {:?} {}", e.kind, e.marks, d),
                    Err(e) => println!("port {:?}", e),
                }
                let mut end = r.is_err();
                match &b {
                    Ok(e) => println!("ref  {:2} {:?} {}", e.kind, e.marks, String::from_utf8_lossy(&e.enc).escape_debug()),
                    Err(()) => {
                        let p = &*q.p;
                        let c = |x: *const i8| if x.is_null() { "".into() } else { std::ffi::CStr::from_ptr(x).to_string_lossy().into_owned() };
                        println!("ref  error {} {:?} {:?} {:?} {:?}", p.error as u32, c(p.problem), (p.problem_mark.index, p.problem_mark.line, p.problem_mark.column), c(p.context), (p.context_mark.index, p.context_mark.line, p.context_mark.column))
                    }
                }
                end |= b.is_err() || b.map(|e| e.kind == 2).unwrap_or(true);
                if end {
                    break;
                }
            }
        }
    }
}
