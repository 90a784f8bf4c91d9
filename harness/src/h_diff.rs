//! Parser events, tokens, positions and errors against the reference implementation.
use crate::{oracle, safer, sym};
use libyaml_safer as s;

pub type Parser<'a, 'b> = s::Parser<&'a mut &'b [u8]>;

fn is_reader(e: &s::Error) -> bool {
    matches!(e.kind(), s::ErrorKind::Reader | s::ErrorKind::Io)
}
/// What a full comparison looks at.
#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Events,
    Marks,
    Errors,
}
/// Decode errors surface when the offending bytes are looked at, which depends on
/// read-ahead: there only "both fail" is compared, not after which event.
fn drain_port(p: &mut s::Parser<&mut &[u8]>) -> bool {
    loop {
        match p.parse() {
            // a syntax error before the place the reference looked ahead to is fine too
            Err(_) => return true,
            Ok(e) => {
                if matches!(e.data, s::EventData::StreamEnd) {
                    return false;
                }
            }
        }
    }
}
unsafe fn drain_ref(q: &mut oracle::P) -> bool {
    loop {
        match oracle::next_event(q) {
            Err(()) => return true,
            Ok(e) => {
                if q.ill {
                    return true;
                }
                if e.kind == 2 {
                    return false;
                }
            }
        }
    }
}
/// The reference goes on to return a tag that no Rust string can hold.
unsafe fn ill_later(q: &mut oracle::P, tokens: bool) -> bool {
    loop {
        if q.ill {
            return true;
        }
        match if tokens { oracle::next_token(q) } else { oracle::next_event(q) } {
            Err(()) => return false,
            Ok(e) => {
                if e.kind == 2 {
                    return q.ill;
                }
            }
        }
    }
}
/// The reference's tags are C strings, which an escaped NUL would end: only looked
/// at when contents differ.
fn excused(b: &[u8]) -> bool {
    b.windows(3).any(|w| w == b"%00")
}
fn events(w: What) {
    let arg = sym::arg();
    let input = sym::expand(&arg);
    let mut rd = &input[..];
    let mut p = s::Parser::new();
    p.set_input(&mut rd);
    unsafe {
        let mut q = oracle::P::new(&input);
        loop {
            let b = oracle::next_event(&mut q);
            let a = p.parse();
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    let a = safer::event(&a);
                    sym::check(a.kind == b.kind, "event kinds differ");
                    sym::observe(a.kind as u64);
                    if w == What::Events {
                        if a.enc != b.enc {
                            if excused(&input) {
                                return;
                            }
                            sym::fail("event contents differ");
                        }
                        sym::observe_bytes(&a.enc);
                    } else if w == What::Marks {
                        same_marks(&a.marks, &b.marks, input.len());
                    }
                    if a.kind == 2 {
                        sym::reach(1);
                        return;
                    }
                }
                (Err(e), Err(())) => {
                    if w == What::Errors && !syntax_first(&e, &q) {
                        same_error(&e, &q, input.len());
                    }
                    sym::reach(2);
                    return;
                }
                (Ok(_), Err(())) => {
                    if oracle::reader_error(&q) {
                        sym::check(drain_port(&mut p), "accepted what the reference cannot decode");
                        sym::reach(3);
                        return;
                    }
                    sym::fail("accepted what the reference rejects")
                }
                (Err(e), Ok(_)) => {
                    if is_reader(&e) {
                        sym::check(drain_ref(&mut q), "failed to decode what the reference decodes");
                        sym::reach(3);
                        return;
                    }
                    if ill_later(&mut q, false) {
                        return;
                    }
                    sym::fail("rejected what the reference accepts")
                }
            }
        }
    }
}
fn same_marks(a: &oracle::Marks, b: &oracle::Marks, len: usize) {
    for k in [0, 3] {
        sym::check(a[k + 1] == b[k + 1], "lines differ");
        sym::check(a[k + 2] == b[k + 2], "columns differ");
        sym::check(a[k] == b[k], "indexes differ");
        sym::check(a[k] <= len as u64, "position outside the input");
        sym::observe(a[k]);
        sym::observe(a[k + 1] << 32 | a[k + 2]);
    }
    sym::check(a[0] <= a[3], "start after end");
}
pub unsafe fn cstr<'a>(p: *const i8) -> &'a [u8] {
    if p.is_null() {
        return b"";
    }
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    core::slice::from_raw_parts(p as *const u8, n)
}
/// The reference looks ahead for undecodable input, the port does not: a syntax error before it comes first.
pub fn syntax_first(e: &s::Error, q: &oracle::P) -> bool {
    if is_reader(e) || !oracle::reader_error(q) {
        return false;
    }
    let m = e.problem_mark().map_or(0, |m| m.index);
    sym::check(m <= q.p.problem_offset, "a syntax error behind what cannot be decoded");
    true
}
pub unsafe fn same_error(e: &s::Error, q: &oracle::P, len: usize) {
    use unsafe_libyaml as y;
    let p = &*q.p;
    let k = match e.kind() {
        s::ErrorKind::Reader | s::ErrorKind::Io => y::YAML_READER_ERROR,
        s::ErrorKind::Scanner => y::YAML_SCANNER_ERROR,
        s::ErrorKind::Parser => y::YAML_PARSER_ERROR,
        s::ErrorKind::Composer => y::YAML_COMPOSER_ERROR,
        _ => y::YAML_EMITTER_ERROR,
    };
    sym::check(k == p.error, "the error kind differs from the reference's");
    if k == y::YAML_READER_ERROR {
        sym::check(e.problem_mark().is_none() && e.context_mark().is_none() && e.context().is_none(), "a reader error has no position in characters");
        return;
    }
    // the reference corrects one misspelling of libyaml's
    let hex = e.problem() == "did not find expected hexdecimal number" && cstr(p.problem) == b"did not find expected hexadecimal number";
    sym::check(hex || e.problem().as_bytes() == cstr(p.problem), "the problem differs from the reference's");
    let m = match e.problem_mark() {
        Some(m) => m,
        None => sym::fail("no problem position"),
    };
    let r = &p.problem_mark;
    sym::check(m.line == r.line && m.column == r.column, "the problem position differs from the reference's");
    sym::check(m.index == r.index, "the problem index differs from the reference's");
    sym::check(m.index <= len as u64, "position outside the input");
    let ctx = cstr(p.context);
    sym::check(e.context().unwrap_or("").as_bytes() == ctx, "the context differs from the reference's");
    sym::check(e.context_mark().is_some() == !ctx.is_empty(), "context position without context");
    if let Some(c) = e.context_mark() {
        let r = &p.context_mark;
        sym::check(c.line == r.line && c.column == r.column, "the context position differs from the reference's");
        sym::check(c.index == r.index && c.index <= len as u64, "the context index differs from the reference's");
    }
    sym::observe(m.index);
    sym::observe(m.line << 32 | m.column);
    // the displayed text names problem and position
    let d = e.to_string();
    let line = (sym::concrete(m.line as usize) + 1).to_string();
    let col = (sym::concrete(m.column as usize) + 1).to_string();
    let kind = match e.kind() {
        s::ErrorKind::Scanner => "Scanner",
        s::ErrorKind::Parser => "Parser",
        s::ErrorKind::Composer => "Composer",
        _ => "Reader",
    };
    let mut want = String::new();
    for x in [kind, " error: line ", &line, " column ", &col, ": ", e.problem()] {
        want.push_str(x);
    }
    sym::check(d.as_bytes().starts_with(want.as_bytes()), "the message does not give kind, position and problem");
    if let (Some(c), Some(cm)) = (e.context(), e.context_mark()) {
        let line = (sym::concrete(cm.line as usize) + 1).to_string();
        let col = (sym::concrete(cm.column as usize) + 1).to_string();
        let mut t = String::new();
        for x in [" ", c, " (line ", &line, " column ", &col, ")"] {
            t.push_str(x);
        }
        sym::check(d.as_bytes().ends_with(t.as_bytes()), "the message does not give the context");
    }
    sym::reach(4);
}
pub fn h_events() {
    events(What::Events)
}
pub fn h_marks() {
    events(What::Marks)
}
pub fn h_errors() {
    events(What::Errors)
}
fn drain_scan(p: &mut s::Scanner<&mut &[u8]>) -> bool {
    loop {
        match s::Scanner::scan(&mut *p) {
            // a syntax error before the place the reference looked ahead to is fine too
            Err(_) => return true,
            Ok(e) => {
                if matches!(e.data, s::TokenData::StreamEnd) {
                    return false;
                }
            }
        }
    }
}
fn tokens(marks: bool) {
    let arg = sym::arg();
    let input = sym::expand(&arg);
    let mut rd = &input[..];
    let mut p = s::Scanner::new();
    p.set_input(&mut rd);
    let mut last = 0;
    unsafe {
        let mut q = oracle::P::new(&input);
        loop {
            let b = oracle::next_token(&mut q);
            let a = s::Scanner::scan(&mut p);
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    let a = safer::token(&a);
                    sym::check(a.kind == b.kind, "token kinds differ");
                    sym::observe(a.kind as u64);
                    if !marks {
                        if a.enc != b.enc {
                            if excused(&input) {
                                return;
                            }
                            sym::fail("token contents differ");
                        }
                        sym::observe_bytes(&a.enc);
                    } else {
                        same_marks(&a.marks, &b.marks, input.len());
                        sym::check(a.marks[0] >= last, "tokens move backwards");
                        last = a.marks[0];
                    }
                    if a.kind == 2 {
                        sym::reach(1);
                        return;
                    }
                }
                (Err(e), Err(())) => {
                    if !marks && !syntax_first(&e, &q) {
                        sym::check(is_reader(&e) == oracle::reader_error(&q), "a syntax error is reported as a read error or the reverse");
                    }
                    sym::reach(2);
                    return;
                }
                (Ok(_), Err(())) => {
                    if oracle::reader_error(&q) {
                        sym::check(drain_scan(&mut p), "accepted what the reference cannot decode");
                        sym::reach(3);
                        return;
                    }
                    sym::fail("accepted what the reference rejects")
                }
                (Err(e), Ok(_)) => {
                    if is_reader(&e) {
                        loop {
                            match oracle::next_token(&mut q) {
                                Err(()) => break,
                                Ok(t) => sym::check(t.kind != 2, "failed to decode what the reference decodes"),
                            }
                        }
                        sym::reach(3);
                        return;
                    }
                    if ill_later(&mut q, true) {
                        return;
                    }
                    sym::fail("rejected what the reference accepts")
                }
            }
        }
    }
}
pub fn h_tokens() {
    tokens(false)
}
pub fn h_token_marks() {
    tokens(true)
}
