//! C28: every error identifies what failed and where.
use crate::h_diff::{cstr, same_error};
use crate::h_read::{read_all, read_slice};
use crate::oracle_emit::E;
use crate::script::*;
use crate::{oracle, sym};
use core::mem::MaybeUninit;
use libyaml_safer as s;
use s::{Document, ErrorKind};
use std::io::{Error as IoError, ErrorKind as IoKind};
use unsafe_libyaml as y;

fn allowed(x: u32) -> bool {
    x == 9 || x == 10 || x == 13 || (x >= 0x20 && x <= 0x7E) || x == 0x85 || (x >= 0xA0 && x <= 0xD7FF) || (x >= 0xE000 && x <= 0xFFFD) || (x >= 0x10000 && x <= 0x10FFFF)
}
/// What is wrong with the input: (problem, offset, value), or None if it is cut off.
type Flaw = Option<(&'static str, usize, u32)>;
/// The length of the sequence that `b` begins with, by the table of well-formed
/// sequences; Err(true): cut off.
fn utf8_len(b: &[u8]) -> Result<usize, bool> {
    let f = b[0];
    if f < 0x80 {
        return Ok(1);
    }
    let (n, lo, hi) = if f >= 0xC2 && f <= 0xDF {
        (2, 0x80, 0xBF)
    } else if f == 0xE0 {
        (3, 0xA0, 0xBF)
    } else if f == 0xED {
        (3, 0x80, 0x9F)
    } else if f >= 0xE1 && f <= 0xEF {
        (3, 0x80, 0xBF)
    } else if f == 0xF0 {
        (4, 0x90, 0xBF)
    } else if f >= 0xF1 && f <= 0xF3 {
        (4, 0x80, 0xBF)
    } else if f == 0xF4 {
        (4, 0x80, 0x8F)
    } else {
        return Err(false);
    };
    for i in 1..n {
        if i >= b.len() {
            return Err(true);
        }
        let (l, h) = if i == 1 { (lo, hi) } else { (0x80, 0xBF) };
        if b[i] < l || b[i] > h {
            return Err(false);
        }
    }
    Ok(n)
}
fn code(b: &[u8]) -> u32 {
    match b.len() {
        1 => b[0] as u32,
        2 => (b[0] as u32 & 0x1F) << 6 | (b[1] as u32 & 0x3F),
        3 => (b[0] as u32 & 0x0F) << 12 | (b[1] as u32 & 0x3F) << 6 | (b[2] as u32 & 0x3F),
        _ => (b[0] as u32 & 0x07) << 18 | (b[1] as u32 & 0x3F) << 12 | (b[2] as u32 & 0x3F) << 6 | (b[3] as u32 & 0x3F),
    }
}
const CONTROL: &str = "control characters are not allowed";
/// Err: the first flaw of the input.
fn first_flaw(b: &[u8]) -> Result<(), Flaw> {
    if b.is_empty() {
        return Ok(());
    }
    if b[0] == 0xFF || b[0] == 0xFE {
        if b.len() < 2 {
            return Err(None);
        }
        let be = b[0] == 0xFE;
        if b[1] != if be { 0xFF } else { 0xFE } {
            return Err(Some(("invalid byte order marker", 0, b[0] as u32 | (b[1] as u32) << 8)));
        }
        let unit = |i: usize| if be { (b[i] as u32) << 8 | b[i + 1] as u32 } else { (b[i + 1] as u32) << 8 | b[i] as u32 };
        let mut i = 2;
        while i < b.len() {
            if i + 1 >= b.len() {
                return Err(None);
            }
            let u = unit(i);
            if u >= 0xDC00 && u <= 0xDFFF {
                return Err(Some(("invalid UTF-16", i, u)));
            }
            if u >= 0xD800 && u <= 0xDBFF {
                if i + 3 >= b.len() {
                    return Err(None);
                }
                let v = unit(i + 2);
                if v < 0xDC00 || v > 0xDFFF {
                    return Err(Some(("invalid UTF-16", i, u)));
                }
                i += 4;
                continue;
            }
            if !allowed(u) {
                return Err(Some((CONTROL, i, u)));
            }
            i += 2;
        }
        return Ok(());
    }
    let mut i = 0;
    while i < b.len() {
        match utf8_len(&b[i..]) {
            Err(true) => return Err(None),
            Err(false) => return Err(Some(("invalid UTF-8", i, b[i] as u32))),
            Ok(n) => {
                let c = code(&b[i..i + n]);
                if !allowed(c) {
                    return Err(Some((CONTROL, i, c)));
                }
                i += n;
            }
        }
    }
    Ok(())
}
/// Conversion into an I/O error succeeds for I/O errors only, and loses nothing.
fn convert(e: s::Error) {
    let (k, t) = (e.kind(), e.to_string());
    match IoError::try_from(e) {
        Ok(_) => sym::check(k == ErrorKind::Io, "an error of another kind becomes an I/O error"),
        Err(e) => {
            sym::check(k != ErrorKind::Io, "an I/O error is not returned as one");
            sym::check(e.kind() == k && e.to_string() == t, "the conversion changes the error");
        }
    }
}
/// Argument: how the input is divided, template.
pub fn h_error_place() {
    let arg = sym::arg();
    let input = sym::expand(&arg[1..]);
    let flaw = first_flaw(&input);
    let r = if arg[0] == 0 {
        read_slice(&input)
    } else {
        let mut p = s::Parser::new();
        p.set_input(crate::h_read::source(arg[0], 0, input.clone()));
        read_all(&mut p)
    };
    if let Some(e) = r.end {
        // (fixing the bytes of the place first keeps the formatting of its value concrete)
        if let (Err(Some((_, offset, _))), ErrorKind::Reader) = (&flaw, e.kind()) {
            let o = sym::concrete(*offset);
            for i in o..input.len().min(o + 4) {
                let n = if input[0] >= 0xFE { 2 } else { utf8_len(&input[o..]).unwrap_or(1) };
                if i < o + n {
                    sym::concrete(input[i] as usize);
                }
            }
        }
        let text = e.to_string();
        match e.kind() {
            ErrorKind::Reader => match flaw {
                Err(Some((problem, offset, value))) => {
                    sym::check(e.problem() == problem, "another problem than the input has");
                    sym::check(e.problem_mark().is_none() && e.context().is_none() && e.context_mark().is_none(), "a reader error has no position in characters");
                    let mut want = String::new();
                    for x in ["Reader error: ", problem, " (offset ", &sym::concrete(offset).to_string(), ", value ", &sym::concrete(value as usize).to_string(), ")"] {
                        want.push_str(x);
                    }
                    sym::check(text == want, "the message does not name the place and the value");
                    sym::check(std::error::Error::source(&e).is_none(), "a reader error has no cause");
                    sym::reach(1);
                }
                _ => sym::fail("a reader error although every character is there and allowed"),
            },
            ErrorKind::Io => {
                sym::check(matches!(flaw, Err(None)), "an I/O error although nothing is cut off");
                sym::check(e.problem_mark().is_none() && e.context().is_none() && e.problem() == "I/O error", "an I/O error has no position");
                sym::check(text.starts_with("I/O error: "), "the message does not say I/O error");
                sym::reach(2);
            }
            _ => sym::reach(3),
        }
        sym::observe_bytes(text.as_bytes());
        convert(e);
    } else {
        sym::check(flaw.is_ok(), "a flaw is not reported");
        sym::reach(4);
    }
}
/// Loading: the composer's errors are the reference's.
pub fn h_error_load() {
    let input = sym::expand(&sym::arg());
    let mut rd = &input[..];
    let mut p = s::Parser::new();
    p.set_input(&mut rd);
    unsafe {
        let mut q = oracle::P::new(&input);
        for _ in 0..input.len() + 2 {
            let mut d = MaybeUninit::<y::yaml_document_t>::zeroed();
            let b = y::yaml_parser_load(&mut *q.p, d.as_mut_ptr()).ok;
            match (Document::load(&mut p), b) {
                (Ok(a), true) => {
                    y::yaml_document_delete(d.as_mut_ptr());
                    if a.nodes.is_empty() {
                        sym::reach(1);
                        return;
                    }
                }
                (Err(e), false) => {
                    if e.kind() == ErrorKind::Composer {
                        sym::reach(3);
                    }
                    if !crate::h_diff::syntax_first(&e, &q) {
                        same_error(&e, &q, input.len());
                    }
                    convert(e);
                    sym::reach(2);
                    return;
                }
                // (escapes in tags that are no UTF-8 are accepted by the reference)
                (Err(e), true) => {
                    sym::check(input.contains(&b'%') || matches!(e.kind(), ErrorKind::Reader | ErrorKind::Io), "fails where the reference does not");
                    return;
                }
                (Ok(_), false) => {
                    sym::check(oracle::reader_error(&q), "does not fail where the reference does");
                    return;
                }
            }
        }
    }
}
/// Emitting: the errors are the reference's.
pub fn h_error_emit() {
    let mut r = read();
    let c = r.cfg();
    let ops = r.ops();
    let mut out = vec![];
    unsafe {
        let mut o = E::new(&c);
        let mut e = s::Emitter::new();
        setup(&mut e, &c);
        e.set_output(&mut out);
        for op in &ops {
            let a = match op {
                Op::Flush => e.flush(),
                op => e.emit(event(op)),
            };
            match (a, o.apply(op)) {
                (Ok(()), Ok(())) => {}
                (Err(x), Err(())) => {
                    sym::check(x.kind() == ErrorKind::Emitter, "no emitter error");
                    sym::check(x.problem().as_bytes() == cstr((*o.e).problem), "the problem differs from the reference's");
                    sym::check(x.problem_mark().is_none() && x.context().is_none() && x.context_mark().is_none(), "an emitter error has no position");
                    let mut want = String::from("Emitter error: ");
                    want.push_str(x.problem());
                    sym::check(x.to_string() == want, "the message does not give the problem");
                    sym::observe_bytes(want.as_bytes());
                    convert(x);
                    sym::reach(2);
                    return;
                }
                _ => sym::fail("an error only one of the two reports"),
            }
        }
    }
    sym::reach(1);
}
/// I/O errors pass through unchanged.
pub fn h_error_io() {
    let ks = [IoKind::Other, IoKind::NotFound, IoKind::UnexpectedEof, IoKind::WouldBlock, IoKind::InvalidData, IoKind::TimedOut, IoKind::Interrupted, IoKind::WriteZero, IoKind::PermissionDenied, IoKind::OutOfMemory];
    let k = ks[sym::pick(ks.len())];
    let how = sym::pick(3);
    let make = || match how {
        0 => IoError::from(k),
        1 => IoError::new(k, "some text"),
        _ => IoError::from_raw_os_error(5),
    };
    let k = make().kind();
    let e = s::Error::from(make());
    sym::check(e.kind() == ErrorKind::Io, "no I/O error");
    sym::check(e.problem_mark().is_none() && e.context_mark().is_none() && e.context().is_none(), "an I/O error has no position");
    sym::check(e.problem() == "I/O error", "the problem is no I/O error");
    if how == 1 {
        sym::check(e.to_string() == "I/O error: some text", "the message loses the cause");
    }
    let c = std::error::Error::source(&e).and_then(|x| x.downcast_ref::<IoError>());
    sym::check(c.map(|x| x.kind()) == Some(k), "the cause is lost");
    match IoError::try_from(e) {
        Ok(x) => sym::check(x.kind() == k && (how != 1 || x.to_string() == "some text") && (how != 2 || x.raw_os_error() == Some(5)), "the I/O error comes back changed"),
        Err(_) => sym::fail("an I/O error is not returned as one"),
    }
    sym::reach(1);
}
