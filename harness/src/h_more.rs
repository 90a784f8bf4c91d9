//! Output failures, reset, quoted scalars, key limits.
use crate::h_read::{read_all, read_slice, Reading};
use crate::oracle_emit::E;
use crate::script::*;
use crate::sym;
use libyaml_safer as s;
use std::io::{Error as IoError, ErrorKind as IoKind, Write};

/// A writer whose behaviour the solver chooses.
struct W {
    got: Vec<u8>,
    parts: usize,
    ints: usize,
    fail_at: usize,
    zero: bool,
    kind: IoKind,
    failed: bool,
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.ints > 0 && sym::flag() {
            self.ints -= 1;
            return Err(IoError::from(IoKind::Interrupted));
        }
        let room = self.fail_at - self.got.len();
        if room == 0 {
            self.failed = true;
            if self.zero {
                return Ok(0);
            }
            return Err(IoError::from(self.kind));
        }
        let mut n = b.len().min(room);
        if self.parts > 0 {
            self.parts -= 1;
            n = if n > 64 { [1, 2, n / 2, n - 1, n][sym::pick(5)] } else { 1 + sym::pick(n) };
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// C18. Argument: mode (1 the failure point is chosen, 2 write of zero bytes), partial writes, interruptions; script.
pub fn h_writer() {
    let mut r = read();
    let (mode, parts, ints) = (r.u(), r.u() as usize, r.u() as usize);
    let c = r.cfg();
    let ops = r.ops();
    // the correct output, after each operation, from the reference
    let mut marks: Vec<usize> = vec![];
    let mut enc = c.enc;
    if let (Some(Op::Ss(x)), 0) = (ops.first(), enc) {
        enc = *x;
    }
    let all: Vec<u8> = unsafe {
        let mut o = E::new(&c);
        for op in &ops {
            if o.apply(op).is_err() {
                sym::assume(false);
            }
            if o.apply(&Op::Flush).is_err() {
                sym::assume(false);
            }
            marks.push(o.out.len());
        }
        (*o.out).clone()
    };
    let fail_at = if mode & 1 == 0 {
        all.len() + 1
    } else if all.len() > 100 {
        [0, 1, all.len() / 2, 16383, 16384, 16385, all.len() - 1, all.len()][sym::pick(8)].min(all.len())
    } else {
        sym::pick(all.len() + 1)
    };
    let kind = [IoKind::BrokenPipe, IoKind::Other, IoKind::WouldBlock, IoKind::StorageFull][sym::pick(if mode & 3 == 1 { 4 } else { 1 })];
    let mut w = W { got: vec![], parts, ints, fail_at, zero: mode & 2 != 0, kind, failed: false };
    let wp: *const W = &w;
    let mut e = s::Emitter::new();
    setup(&mut e, &c);
    e.set_output(&mut w);
    let mut err = false;
    for (i, op) in ops.iter().enumerate() {
        let res = match op {
            Op::Flush => e.flush(),
            op => e.emit(event(op)),
        };
        let w = unsafe { &*wp };
        sym::check(w.got.len() <= all.len() && all[..w.got.len()] == w.got[..], "what was written is no prefix of the right output");
        match res {
            Err(x) => {
                sym::check(w.failed, "an error although the output did not fail");
                sym::check(x.kind() == s::ErrorKind::Io, "an output failure is no I/O error");
                let k = std::error::Error::source(&x).and_then(|y| y.downcast_ref::<IoError>()).map(|y| y.kind());
                sym::check(k == Some(if mode & 2 != 0 { IoKind::WriteZero } else { kind }), "another I/O error");
                err = true;
                break;
            }
            Ok(()) => {
                sym::check(!w.failed, "an output failure is not reported by the call that met it");
                if matches!(op, Op::Flush | Op::Se | Op::De(_)) {
                    sym::check(w.got.len() == marks[i], "not everything was handed over by the flush, the end of a document or of the stream");
                }
            }
        }
    }
    drop(e);
    let _ = enc;
    sym::observe_bytes(&w.got);
    sym::reach(if err { 2 } else { 1 });
}

fn same(a: &Reading, b: &Reading) {
    sym::check(a.evs.len() == b.evs.len(), "after a reset: a different number of events");
    for (x, y) in a.evs.iter().zip(&b.evs) {
        sym::check(x.kind == y.kind && x.enc == y.enc, "after a reset: a different event");
        sym::check(x.marks == y.marks, "after a reset: different positions");
    }
    match (&a.end, &b.end) {
        (None, None) => {}
        (Some(x), Some(y)) => sym::check(x.kind() == y.kind() && x.problem() == y.problem() && x.problem_mark() == y.problem_mark() && x.context_mark() == y.context_mark() && x.context() == y.context() && x.to_string() == y.to_string(), "after a reset: a different error"),
        _ => sym::fail("after a reset: the reading ends differently"),
    }
}
/// C19, reading. Argument: declared encoding of the history (0 none), length of the history's
/// template, its template, then the template of what follows.
pub fn h_reset() {
    let arg = sym::arg();
    let enc = arg[0];
    let n = arg[1] as usize;
    let a = sym::expand(&arg[2..2 + n]);
    let b = sym::expand(&arg[2 + n..]);
    let steps = [0, 1, 2, 3, 4, 6, 9, 14][sym::pick(8)];
    let mode = sym::pick(3);
    let mut r1 = &a[..];
    let mut r2 = &b[..];
    if mode < 2 {
        let mut p = s::Parser::new();
        p.set_input(&mut r1);
        if enc != 0 {
            p.set_encoding(encoding(enc));
        }
        for _ in 0..steps {
            if mode == 0 {
                if p.parse().is_err() {
                    sym::reach(2);
                }
            } else if s::Document::load(&mut p).is_err() {
                sym::reach(2);
                break;
            }
        }
        p.reset();
        p.set_input(&mut r2);
        let got = read_all(&mut p);
        let want = read_slice(&b);
        same(&got, &want);
        // and once more, loading
        p.reset();
        let mut r3 = &b[..];
        p.set_input(&mut r3);
        let mut q = s::Parser::new();
        let mut r4 = &b[..];
        q.set_input(&mut r4);
        for _ in 0..3 {
            match (s::Document::load(&mut p), s::Document::load(&mut q)) {
                (Ok(x), Ok(y)) => sym::check(x.nodes.len() == y.nodes.len() && x.start_mark == y.start_mark && x.end_mark == y.end_mark && x.tag_directives.len() == y.tag_directives.len(), "after a reset: a different document"),
                (Err(_), Err(_)) => break,
                _ => sym::fail("after a reset: loading ends differently"),
            }
        }
    } else {
        let mut p = s::Scanner::new();
        p.set_input(&mut r1);
        if enc != 0 {
            p.set_encoding(encoding(enc));
        }
        for _ in 0..steps {
            if s::Scanner::scan(&mut p).is_err() {
                sym::reach(2);
            }
        }
        p.reset();
        p.set_input(&mut r2);
        let mut q = s::Scanner::new();
        let mut r3 = &b[..];
        q.set_input(&mut r3);
        loop {
            match (s::Scanner::scan(&mut p), s::Scanner::scan(&mut q)) {
                (Ok(x), Ok(y)) => {
                    let end = matches!(x.data, s::TokenData::StreamEnd);
                    let (x, y) = (crate::safer::token(&x), crate::safer::token(&y));
                    sym::check(x.kind == y.kind && x.enc == y.enc && x.marks == y.marks, "after a reset: a different token");
                    if end {
                        break;
                    }
                }
                (Err(x), Err(y)) => {
                    sym::check(x.kind() == y.kind() && x.problem_mark() == y.problem_mark() && x.to_string() == y.to_string(), "after a reset: a different error");
                    break;
                }
                _ => sym::fail("after a reset: scanning ends differently"),
            }
        }
    }
    sym::observe(mode as u64);
    sym::reach(1);
}
/// C19, emitting. Script: settings and operations of the history, `E`-terminated list cut at a
/// chosen point, byte 0xFE, then settings and operations of what follows.
pub fn h_reset_emit() {
    let all = sym::expand(&sym::arg());
    let n = all[0] as usize;
    let mut r = Rd { b: all[1..1 + n].to_vec(), p: 0, scale: 1 };
    let c1 = r.cfg();
    let ops1 = r.ops();
    let mut r = Rd { b: all[1 + n..].to_vec(), p: 0, scale: 1 };
    let c2 = r.cfg();
    let ops2 = r.ops();
    let cut = sym::pick(ops1.len() + 1);
    // the settings after the reset: given again, or the defaults
    let again = sym::pick(2) == 0;
    let (mut o1, mut o2, mut o3) = (vec![], vec![], vec![]);
    let mut res = vec![];
    {
        let mut e = s::Emitter::new();
        setup(&mut e, &c1);
        e.set_output(&mut o1);
        for o in &ops1[..cut] {
            if !matches!(o, Op::Flush) && e.emit(event(o)).is_err() {
                sym::reach(2);
            }
        }
        e.reset();
        if again {
            setup(&mut e, &c2);
        }
        e.set_output(&mut o2);
        for o in &ops2 {
            res.push(if matches!(o, Op::Flush) { e.flush() } else { e.emit(event(o)) }.is_ok());
        }
    }
    {
        let mut e = s::Emitter::new();
        if again {
            setup(&mut e, &c2);
        }
        e.set_output(&mut o3);
        for (o, r) in ops2.iter().zip(&res) {
            let x = if matches!(o, Op::Flush) { e.flush() } else { e.emit(event(o)) }.is_ok();
            sym::check(x == *r, "after a reset: another result");
        }
    }
    sym::check(o2 == o3, "after a reset: another output");
    sym::observe_bytes(&o2);
    sym::reach(1);
}

// --- C22: the value of a quoted scalar, from the YAML 1.1 rules
fn is_brk(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}')
}
/// `t`: the text after the opening quote. Some((value, length up to and with the closing quote)).
fn quoted(t: &[char], single: bool) -> Option<(String, usize)> {
    let mut out = String::new();
    let mut i = 0;
    let mut col0 = false;
    let at = |i: usize| t.get(i).copied();
    loop {
        if col0 && i + 2 < t.len() && ((t[i] == '-' && t[i + 1] == '-' && t[i + 2] == '-') || (t[i] == '.' && t[i + 1] == '.' && t[i + 2] == '.')) {
            // a document marker, when a blank, a break or the end follows
            match at(i + 3) {
                None | Some(' ') | Some('\t') => return None,
                Some(c) if is_brk(c) => return None,
                _ => {}
            }
        }
        col0 = false;
        let c = at(i)?;
        let mut fold = false;
        if single && c == '\'' {
            if at(i + 1) == Some('\'') {
                out.push('\'');
                i += 2;
                continue;
            }
            return Some((out, i + 1));
        } else if !single && c == '"' {
            return Some((out, i + 1));
        } else if !single && c == '\\' {
            let e = at(i + 1)?;
            i += 2;
            if is_brk(e) {
                // escaped break: it and the blanks that follow it vanish
                if e == '\r' && at(i) == Some('\n') {
                    i += 1;
                }
                fold = true;
                col0 = true;
            } else {
                let n = match e {
                    'x' => 2,
                    'u' => 4,
                    'U' => 8,
                    _ => 0,
                };
                if n > 0 {
                    let mut v: u64 = 0;
                    for _ in 0..n {
                        let h = at(i)? as u32;
                        let d = if h >= 0x30 && h <= 0x39 {
                            h - 0x30
                        } else if h >= 0x41 && h <= 0x46 {
                            h - 0x37
                        } else if h >= 0x61 && h <= 0x66 {
                            h - 0x57
                        } else {
                            return None;
                        };
                        v = v * 16 + d as u64;
                        i += 1;
                    }
                    if v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF) {
                        return None;
                    }
                    out.push(char::from_u32(v as u32).unwrap());
                } else {
                    out.push(match e {
                        '0' => '\0',
                        'a' => '\x07',
                        'b' => '\x08',
                        't' | '\t' => '\t',
                        'n' => '\n',
                        'v' => '\x0b',
                        'f' => '\x0c',
                        'r' => '\r',
                        'e' => '\x1b',
                        ' ' => ' ',
                        '"' => '"',
                        '/' => '/',
                        '\\' => '\\',
                        'N' => '\u{85}',
                        '_' => '\u{a0}',
                        'L' => '\u{2028}',
                        'P' => '\u{2029}',
                        _ => return None,
                    });
                }
                continue;
            }
        } else if c != ' ' && c != '\t' && !is_brk(c) {
            out.push(c);
            i += 1;
            continue;
        }
        // blanks and breaks: blanks alone are kept; the first break becomes a space
        // unless further ones follow (or it was escaped); blanks around breaks vanish
        let mut blanks = String::new();
        let mut breaks: Vec<char> = vec![];
        let mut n = fold as usize;
        while let Some(c) = at(i) {
            if c == ' ' || c == '\t' {
                if n == 0 {
                    blanks.push(c);
                }
                i += 1;
                col0 = false;
            } else if is_brk(c) {
                i += 1;
                if c == '\r' && at(i) == Some('\n') {
                    i += 1;
                }
                let b = match c {
                    '\r' | '\n' | '\u{85}' => '\n',
                    c => c,
                };
                n += 1;
                breaks.push(b);
                col0 = true;
            } else {
                break;
            }
        }
        if n == 0 {
            out.push_str(&blanks);
        } else if fold {
            // what precedes an escaped break is kept, later breaks are kept
            for b in breaks {
                out.push(b);
            }
        } else {
            if breaks.len() == 1 && breaks[0] == '\n' {
                out.push(' ');
            } else {
                let skip = (breaks[0] == '\n') as usize;
                for b in &breaks[skip..] {
                    out.push(*b);
                }
            }
        }
    }
}
/// C22. Argument: template of the text after the opening quote; first byte: the quote.
pub fn h_quoted() {
    let text = sym::expand(&sym::arg());
    let st = match core::str::from_utf8(&text) {
        Ok(s) => s,
        Err(_) => {
            sym::assume(false);
            return;
        }
    };
    let ch: Vec<char> = st.chars().collect();
    let single = ch[0] == '\'';
    for c in &ch {
        sym::assume(crate::h_read::allowed(*c as u32));
    }
    let mut rd = &text[..];
    let mut p = s::Scanner::new();
    p.set_input(&mut rd);
    let _ = s::Scanner::scan(&mut p);
    let got = s::Scanner::scan(&mut p);
    match (quoted(&ch[1..], single), got) {
        (None, Err(e)) => {
            sym::check(e.kind() == s::ErrorKind::Scanner, "not a scanner error");
            sym::observe(0);
            sym::reach(2);
        }
        (None, Ok(_)) => sym::fail("reads a malformed quoted scalar"),
        (Some((v, n)), Ok(t)) => match t.data {
            s::TokenData::Scalar { value, style } => {
                sym::check(value == v, "the value of a quoted scalar is wrong");
                sym::check(crate::safer::sstyle(style) == if single { 2 } else { 3 }, "the style of a quoted scalar is wrong");
                sym::check(t.end_mark.index == ch[..n + 1].iter().map(|c| c.len_utf8() as u64).sum::<u64>(), "the extent of a quoted scalar is wrong");
                sym::observe_bytes(value.as_bytes());
                sym::reach(1);
            }
            // a key: the scalar comes later
            s::TokenData::BlockMappingStart => {
                let _ = s::Scanner::scan(&mut p);
                if let Ok(s::Token { data: s::TokenData::Scalar { value, .. }, .. }) = s::Scanner::scan(&mut p) {
                    sym::check(value == v, "the value of a quoted key is wrong");
                    sym::observe_bytes(value.as_bytes());
                }
            }
            _ => sym::fail("no scalar"),
        },
        (Some(_), Err(_)) => {
            // the error may lie in what follows
            let (_, n) = quoted(&ch[1..], single).unwrap();
            sym::check(n + 1 < ch.len(), "refuses a well-formed quoted scalar");
            sym::observe(1);
        }
    }
}
/// C24: the limit of simple keys. Argument: form, width of the characters (1..4), length of the
/// key from its first character to the colon (u16), then what follows the colon.
pub fn h_key() {
    let a = sym::arg();
    let form = a[0];
    let ch = [b"k" as &[u8], b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80"][a[1] as usize - 1];
    let n = u16::from_le_bytes([a[2], a[3]]) as usize + sym::pick(3);
    let (pre, open, close, post): (&[u8], &[u8], &[u8], &[u8]) = match form {
        0 => (b"", b"", b"", b""),
        1 => (b"", b"'", b"'", b""),
        2 => (b"", b"\"", b"\"", b""),
        3 => (b"[", b"", b"", b"]"),
        4 => (b"{", b"", b"", b"}"),
        5 => (b"", b"&a ", b"", b""),
        6 => (b"", b"!t ", b"", b""),
        7 => (b"- ", b"", b"", b""),
        8 => (b"a: b\n", b"", b"", b""),
        9 => (b"", b"", b"   ", b""),
        10 => (b"[", b"'", b"' ", b"]"),
        11 => (b"a:\n  ", b"\"", b"\\n\"", b""),
        12 => (b"", b"[a, ", b"]", b""),
        _ => (b"", b"{a: ", b"}", b""),
    };
    let body = n - open.len() - close.len();
    let mut t = pre.to_vec();
    t.extend_from_slice(open);
    for _ in 0..body {
        t.extend_from_slice(ch);
    }
    t.extend_from_slice(close);
    let last = sym::expand(&a[4..]);
    t.extend_from_slice(b": ");
    t.extend_from_slice(&last);
    t.extend_from_slice(post);
    let r = read_slice(&t);
    let key = match form {
        // in a flow mapping the text becomes a key of its own only within the limit
        4 => r.end.is_none(),
        _ => r.end.is_none() && r.evs.iter().any(|e| e.kind == 9),
    };
    sym::check(key == (n <= 1024), "the limit of simple keys is not 1024 characters");
    sym::observe(key as u64);
    sym::reach(if key { 1 } else { 2 });
}
