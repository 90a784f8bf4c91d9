//! Reading: totality, progress, encodings, decoding, chunking, failures, grammar.
use crate::{safer, sym};
use libyaml_safer as s;
use s::{ErrorKind, EventData as D};
use std::io::{BufRead, Error as IoError, ErrorKind as IoKind, Read};

/// C01: no call panics, also after errors. First argument byte: declared encoding.
pub fn h_any() {
    let arg = sym::arg();
    let enc = arg[0];
    let input = sym::expand(&arg[1..]);
    let mut rd = &input[..];
    let mut p = s::Parser::new();
    p.set_input(&mut rd);
    if enc != 0 {
        p.set_encoding(crate::script::encoding(enc));
    }
    let mut errs = 0;
    loop {
        match p.parse() {
            Ok(e) => {
                sym::observe(1);
                if matches!(e.data, D::StreamEnd) {
                    sym::reach(1);
                    break;
                }
                if errs > 0 {
                    errs += 1;
                }
            }
            Err(e) => {
                sym::observe(2 + e.kind() as u64);
                sym::reach(2);
                errs += 1;
            }
        }
        if errs == 4 {
            break;
        }
    }
    for _ in 0..2 {
        sym::observe(p.parse().is_ok() as u64);
    }
    // the scanner on its own
    let mut rd = &input[..];
    let mut p = s::Scanner::new();
    p.set_input(&mut rd);
    if enc != 0 {
        p.set_encoding(crate::script::encoding(enc));
    }
    let mut errs = 0;
    loop {
        match s::Scanner::scan(&mut p) {
            Ok(e) => {
                if matches!(e.data, s::TokenData::StreamEnd) {
                    break;
                }
                if errs > 0 {
                    errs += 1;
                }
            }
            Err(_) => errs += 1,
        }
        if errs == 4 {
            break;
        }
    }
    for _ in 0..2 {
        sym::observe(s::Scanner::scan(&mut p).is_ok() as u64);
    }
}
/// Counts the reads.
pub struct Counting<'a> {
    pub b: &'a [u8],
    pub reads: usize,
}
impl Read for Counting<'_> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        self.reads += 1;
        self.b.read(o)
    }
}
impl BufRead for Counting<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        self.reads += 1;
        Ok(self.b)
    }
    fn consume(&mut self, n: usize) {
        self.b = &self.b[n..];
    }
}
/// C02: tokens, events and reads bounded by the input; nothing after the end.
pub fn h_progress() {
    let input = sym::expand(&sym::arg());
    let n = input.len();
    let mut rd = Counting { b: &input, reads: 0 };
    let mut p = s::Parser::new();
    p.set_input(&mut rd);
    let mut k = 0;
    let mut it = p.into_iter();
    let mut ended = false;
    loop {
        k += 1;
        sym::check(k <= 6 * n + 6, "more events than the input can hold");
        match it.next() {
            None => sym::fail("the iterator ends without a stream end or an error"),
            Some(Err(_)) => {
                sym::reach(2);
                break;
            }
            Some(Ok(e)) => {
                if matches!(e.data, D::StreamEnd) {
                    sym::reach(1);
                    ended = true;
                    break;
                }
            }
        }
    }
    if ended {
        for _ in 0..3 {
            sym::check(it.next().is_none(), "the iterator goes on after the end");
        }
    }
    drop(it);
    sym::observe(k as u64);
    sym::check(rd.reads <= 2 * n + 8, "more reads than the input explains");
    let mut rd = Counting { b: &input, reads: 0 };
    let mut p = s::Scanner::new();
    p.set_input(&mut rd);
    let mut k = 0;
    let mut it = p.into_iter();
    let mut ended = false;
    loop {
        k += 1;
        sym::check(k <= 6 * n + 6, "more tokens than the input can hold");
        match it.next() {
            None => sym::fail("the iterator ends without a stream end or an error"),
            Some(Err(_)) => break,
            Some(Ok(e)) => {
                if matches!(e.data, s::TokenData::StreamEnd) {
                    ended = true;
                    break;
                }
            }
        }
    }
    if ended {
        for _ in 0..3 {
            sym::check(it.next().is_none(), "the iterator goes on after the end");
        }
    }
    drop(it);
    sym::observe(k as u64);
    // loading: at most one document per byte, then empty ones
    let mut rd = &input[..];
    let mut p = s::Parser::new();
    p.set_input(&mut rd);
    let mut k = 0;
    loop {
        k += 1;
        sym::check(k <= 2 * n + 2, "more documents than the input can hold");
        match s::Document::load(&mut p) {
            Err(_) => break,
            Ok(mut d) => {
                if d.get_root_node().is_none() {
                    break;
                }
            }
        }
    }
    sym::observe(k as u64);
}

/// The whole reading of an input: events in the common encoding, how it ended.
pub struct Reading {
    pub evs: Vec<crate::oracle::Ev>,
    pub end: Option<s::Error>,
}
pub fn read_all<R: BufRead>(p: &mut s::Parser<R>) -> Reading {
    let mut evs = vec![];
    loop {
        match p.parse() {
            Err(e) => return Reading { evs, end: Some(e) },
            Ok(e) => {
                evs.push(safer::event(&e));
                if matches!(e.data, D::StreamEnd) {
                    return Reading { evs, end: None };
                }
            }
        }
    }
}
pub fn read_slice(b: &[u8]) -> Reading {
    let mut rd = b;
    let mut p = s::Parser::new();
    p.set_input(&mut rd);
    read_all(&mut p)
}
fn same_error(a: &Option<s::Error>, b: &Option<s::Error>) {
    match (a, b) {
        (None, None) => {}
        (Some(a), Some(b)) => {
            sym::check(a.kind() == b.kind(), "the kind of error differs");
            sym::check(a.problem() == b.problem(), "the problem differs");
            sym::check(a.problem_mark() == b.problem_mark(), "the problem position differs");
            sym::check(a.context() == b.context() && a.context_mark() == b.context_mark(), "the error context differs");
        }
        (Some(_), None) => sym::fail("fails where the other reading succeeds"),
        (None, Some(_)) => sym::fail("succeeds where the other reading fails"),
    }
}
fn same_reading(a: &Reading, b: &Reading, enc: bool, marks: bool) {
    same_error(&a.end, &b.end);
    sym::check(a.evs.len() == b.evs.len(), "the number of events differs");
    for (x, y) in a.evs.iter().zip(&b.evs) {
        sym::check(x.kind == y.kind, "the kind of event differs");
        if enc || x.kind != 1 {
            sym::check(x.enc == y.enc, "the contents of an event differ");
        }
        if marks {
            sym::check(x.marks == y.marks, "positions differ");
        }
    }
}
/// C06: the text in four encodings.
pub fn h_encodings() {
    encodings(&sym::arg(), None)
}
/// C06, delivered in pieces. First argument byte: how (see `source`).
pub fn h_encodings_cut() {
    let arg = sym::arg();
    encodings(&arg[1..], Some(arg[0]))
}
fn encodings(t: &[u8], cut: Option<u8>) {
    let text = sym::expand(t);
    // 0xA0 + k: one first piece for all
    let first = if cut.is_some_and(|m| m & 0xF0 == 0xA0) { sym::pick(10) } else { 0 };
    let read_slice = |b: &[u8], cut: Option<u8>| match cut {
        None => read_slice(b),
        Some(m) => {
            let mut p = s::Parser::new();
            let mut src = source(if m & 0xF0 == 0xA0 { 0x80 | m & 15 } else { m }, 0, b.to_vec());
            src.first = first;
            p.set_input(src);
            read_all(&mut p)
        }
    };
    let st = match core::str::from_utf8(&text) {
        Ok(s) => s,
        Err(_) => {
            sym::assume(false);
            return;
        }
    };
    // a text that itself begins with U+FEFF is not a plain UTF-8 text
    sym::assume(!st.starts_with('\u{feff}'));
    let chars: Vec<char> = st.chars().collect();
    let base = read_slice(&text, None);
    let mut b8 = vec![0xef, 0xbb, 0xbf];
    b8.extend_from_slice(&text);
    let r8 = read_slice(&b8, cut);
    same_reading(&r8, &base, !text.is_empty(), true);
    for be in [false, true] {
        let mut v: Vec<u8> = if be { vec![0xfe, 0xff] } else { vec![0xff, 0xfe] };
        let mut buf = [0u16; 2];
        for c in &chars {
            for u in c.encode_utf16(&mut buf) {
                let x = if be { u.to_be_bytes() } else { u.to_le_bytes() };
                v.extend_from_slice(&x);
            }
        }
        let r = read_slice(&v, cut);
        same_reading(&r, &base, false, true);
        if let Some(e) = r.evs.first() {
            sym::check(e.enc == [if be { 3 } else { 2 }], "the stream start does not report UTF-16");
        }
    }
    if let Some(e) = r8.evs.first() {
        sym::check(e.enc == [1], "the stream start does not report UTF-8");
    }
    sym::observe(base.evs.len() as u64);
    sym::observe(base.end.is_some() as u64);
    sym::reach(if base.end.is_none() { 1 } else { 2 });
}

// --- an independent decoder, written from the Unicode and YAML definitions
fn dec8(b: &[u8]) -> Option<Vec<u32>> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, mut x, min) = if c < 0x80 {
            (0, c as u32, 0)
        } else if c >= 0xC0 && c < 0xE0 {
            (1, (c & 0x1F) as u32, 0x80)
        } else if c >= 0xE0 && c < 0xF0 {
            (2, (c & 0x0F) as u32, 0x800)
        } else if c >= 0xF0 && c < 0xF8 {
            (3, (c & 0x07) as u32, 0x10000)
        } else {
            return None;
        };
        if i + n >= b.len() {
            return None;
        }
        for k in 1..n + 1 {
            let d = b[i + k];
            if d < 0x80 || d >= 0xC0 {
                return None;
            }
            x = x << 6 | (d & 0x3F) as u32;
        }
        if x < min || x > 0x10FFFF || (x >= 0xD800 && x < 0xE000) {
            return None;
        }
        v.push(x);
        i += n + 1;
    }
    Some(v)
}
fn dec16(b: &[u8], be: bool) -> Option<Vec<u32>> {
    if b.len() % 2 == 1 {
        return None;
    }
    let mut v = vec![];
    let mut i = 0;
    let unit = |i: usize| if be { (b[i] as u32) << 8 | b[i + 1] as u32 } else { (b[i + 1] as u32) << 8 | b[i] as u32 };
    while i < b.len() {
        let u = unit(i);
        i += 2;
        if u >= 0xD800 && u < 0xDC00 {
            if i >= b.len() {
                return None;
            }
            let w = unit(i);
            i += 2;
            if w < 0xDC00 || w >= 0xE000 {
                return None;
            }
            v.push(0x10000 + ((u - 0xD800) << 10) + (w - 0xDC00));
        } else if u >= 0xDC00 && u < 0xE000 {
            return None;
        } else {
            v.push(u);
        }
    }
    Some(v)
}
pub fn allowed(x: u32) -> bool {
    x == 9 || x == 10 || x == 13 || (x >= 0x20 && x <= 0x7E) || x == 0x85 || (x >= 0xA0 && x <= 0xD7FF) || (x >= 0xE000 && x <= 0xFFFD) || (x >= 0x10000 && x <= 0x10FFFF)
}
/// C07: bytes inside a comment (mode 0), inside single quotes (mode 1), or at the very
/// start of the input (mode 2); mode + 4: UTF-16LE, + 8: UTF-16BE.
/// Argument: mode byte, then the template; the surrounding text is added here.
pub fn h_decode() {
    let arg = sym::arg();
    let mode = arg[0];
    let body = sym::expand(&arg[1..]);
    let utf16 = mode >= 4;
    let be = mode & 8 != 0;
    let mut input = vec![];
    let put = |input: &mut Vec<u8>, s: &[u8]| {
        for c in s {
            if utf16 && be {
                input.push(0);
            }
            input.push(*c);
            if utf16 && !be {
                input.push(0);
            }
        }
    };
    if utf16 {
        input.extend_from_slice(if be { &[0xfe, 0xff] } else { &[0xff, 0xfe] });
    }
    match mode & 3 {
        0 => put(&mut input, b"#"),
        1 => put(&mut input, b"'x"),
        _ => {}
    }
    input.extend_from_slice(&body);
    if mode & 3 == 1 {
        put(&mut input, b"'");
    }
    let mut whole = &input[..];
    if utf16 {
        whole = &whole[2..];
    } else if whole.starts_with(&[0xef, 0xbb, 0xbf]) {
        whole = &whole[3..];
    }
    let dec = if utf16 { dec16(whole, be) } else { dec8(whole) };
    // an unmarked text that begins like a UTF-16 byte order mark is not UTF-8 anyway
    if !utf16 && whole.len() == input.len() && input.len() >= 2 && (input[0] == 0xff || input[0] == 0xfe) {
        sym::assume(false);
    }
    let r = read_slice(&input);
    match dec {
        Some(chars) if chars.iter().all(|c| allowed(*c)) => {
            match &r.end {
                None => sym::reach(1),
                Some(e) => {
                    sym::check(!matches!(e.kind(), ErrorKind::Reader | ErrorKind::Io), "well-formed, allowed text is refused");
                    sym::reach(3);
                }
            }
            if mode & 3 == 1 && r.end.is_none() {
                let inner = &chars[2..chars.len() - 1];
                let simple = inner.iter().all(|c| !matches!(*c, 9 | 10 | 13 | 0x20 | 0x27 | 0x85 | 0x2028 | 0x2029));
                if simple {
                    let mut want = String::from("x");
                    for c in inner {
                        want.push(char::from_u32(*c).unwrap());
                    }
                    let mut e = vec![0, 0];
                    crate::oracle::put_str(&mut e, want.as_bytes());
                    sym::check(r.evs.iter().any(|x| x.kind == 6 && x.enc.starts_with(&e)), "the text is altered");
                    sym::reach(4);
                }
            }
        }
        _ => {
            match &r.end {
                None => sym::fail("ill-formed or disallowed text is accepted"),
                Some(e) => {
                    // a syntax error may come first unless everything is skipped
                    if mode & 3 == 0 && !body.iter().any(|c| matches!(*c, 10 | 13 | 0x85 | 0x28 | 0x29)) {
                        sym::check(matches!(e.kind(), ErrorKind::Reader | ErrorKind::Io), "not reported as a reader error");
                    }
                }
            }
            sym::reach(2);
        }
    }
    sym::observe(r.evs.len() as u64);
    sym::observe(r.end.is_some() as u64);
}

/// A source that delivers in chosen pieces, is interrupted, or fails.
pub struct Source {
    pub b: Vec<u8>,
    pub pos: usize,
    pub end: usize,
    /// remaining interruptions that may be chosen
    pub ints: usize,
    /// remaining free choices of a piece; afterwards everything is delivered at once
    pub cuts: usize,
    /// pieces of this size instead (0: not)
    pub piece: usize,
    /// the first piece
    pub first: usize,
    /// fail once this much was delivered
    pub fail: Option<usize>,
    pub kind: IoKind,
    pub failed: usize,
}
impl Source {
    fn more(&mut self) -> std::io::Result<()> {
        if self.pos < self.end {
            return Ok(());
        }
        if self.ints > 0 && sym::flag() {
            self.ints -= 1;
            return Err(IoKind::Interrupted.into());
        }
        let lim = self.fail.unwrap_or(self.b.len());
        if self.pos == lim && self.fail.is_some() {
            self.failed += 1;
            return Err(IoError::new(self.kind, "broken"));
        }
        let left = lim - self.pos;
        if left == 0 {
            return Ok(());
        }
        let n = if self.first > 0 {
            core::mem::take(&mut self.first).min(left)
        } else if self.piece > 0 {
            self.piece.min(left)
        } else if self.cuts > 0 && left > 1 {
            self.cuts -= 1;
            1 + sym::pick(if left > 5 { 5 } else { left })
        } else {
            left
        };
        self.end = self.pos + n;
        Ok(())
    }
}
impl Read for Source {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        if o.is_empty() {
            return Ok(0);
        }
        self.more()?;
        let n = o.len().min(self.end - self.pos);
        o[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl BufRead for Source {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        self.more()?;
        Ok(&self.b[self.pos..self.end])
    }
    fn consume(&mut self, n: usize) {
        sym::check(n <= self.end - self.pos, "consumes more than was delivered");
        self.pos += n;
    }
}
/// How the pieces are chosen. 0x80 + k: pieces of k bytes; 0x90 + k: of 1 to k; 0xA0 + k: the
/// first of any length, then k at a time; 0xC0 + k: of 2^k - 1, 2^k or 2^k + 1; else that many free cuts.
pub fn source(mode: u8, ints: u8, b: Vec<u8>) -> Source {
    let mut s = Source { pos: 0, end: 0, ints: ints as usize, cuts: 0, piece: 0, first: 0, fail: None, kind: IoKind::Other, failed: 0, b };
    let k = (mode & 15) as usize;
    match mode & 0xF0 {
        0x80 => s.piece = k,
        0x90 => s.piece = 1 + sym::pick(k),
        0xA0 => {
            s.first = sym::pick(s.b.len() + 1);
            s.piece = k;
        }
        0xC0 => s.piece = (1 << k) - 1 + sym::pick(3),
        _ => s.cuts = mode as usize,
    }
    s
}
/// C08. Argument: how the pieces are chosen, interruptions, template.
pub fn h_chunk() {
    let arg = sym::arg();
    let input = sym::expand(&arg[2..]);
    let base = read_slice(&input);
    let src = source(arg[0], arg[1], input);
    let mut p = s::Parser::new();
    p.set_input(src);
    let r = read_all(&mut p);
    if let Some(e) = &r.end {
        if matches!(e.kind(), ErrorKind::Reader | ErrorKind::Io) {
            sym::reach(3);
        }
    }
    same_reading(&r, &base, true, true);
    sym::observe(r.evs.len() as u64);
    sym::reach(if base.end.is_none() { 1 } else { 2 });
}
/// C09. Argument: number of chosen cuts, interruptions, template; the failure point is chosen.
pub fn h_ioerr() {
    let arg = sym::arg();
    let input = sym::expand(&arg[2..]);
    let full = read_slice(&input);
    let at = if input.len() > 60 { [0, 1, input.len() / 2, input.len() - 1, input.len()][sym::pick(5)] } else { sym::pick(input.len() + 1) };
    let kind = [IoKind::Other, IoKind::ConnectionReset, IoKind::UnexpectedEof, IoKind::WouldBlock, IoKind::InvalidData, IoKind::TimedOut][sym::pick(6)];
    let mut src = source(arg[0], arg[1], input.clone());
    src.fail = Some(at);
    src.kind = kind;
    let mut p = s::Parser::new();
    p.set_input(src);
    let r = read_all(&mut p);
    // every event delivered is one of the complete input's
    sym::check(r.evs.len() <= full.evs.len(), "more events than the complete input has");
    for (a, b) in r.evs.iter().zip(&full.evs) {
        sym::check(a.kind == b.kind && a.enc == b.enc, "an event that the complete input does not have");
    }
    match &r.end {
        None => sym::fail("a read failure is taken for the end of the input"),
        Some(e) => match e.kind() {
            ErrorKind::Io => {
                let src = std::error::Error::source(e).and_then(|x| x.downcast_ref::<IoError>());
                match src {
                    None => sym::fail("the I/O error is not carried"),
                    Some(x) => sym::check(x.kind() == kind, "a different I/O error is carried"),
                }
                sym::reach(1);
            }
            k => {
                // a syntax error of the delivered part comes first; then the complete
                // input has it as well
                match &full.end {
                    None => sym::fail("an I/O failure is reported as something else"),
                    Some(f) => sym::check(f.kind() == k && f.problem() == e.problem(), "an I/O failure is reported as something else"),
                }
                sym::reach(2);
            }
        },
    }
    sym::observe(r.evs.len() as u64);
    // later calls must not panic, nor report the end of the input
    for _ in 0..2 {
        if let Ok(e) = p.parse() {
            sym::observe(safer::event(&e).kind as u64);
        }
    }
}
/// C10: the documented grammar, through parse() and through the iterator.
pub fn h_grammar() {
    let input = sym::expand(&sym::arg());
    // stack: b's' in sequence, b'k' mapping expecting key, b'v' expecting value
    let mut stack: Vec<u8> = vec![];
    // 0 before the stream, 1 between documents, 2 document without its node, 3 inside the
    // node, 4 after the node, 5 after the stream
    let mut st = 0;
    let mut rd = &input[..];
    let mut p = s::Parser::new();
    p.set_input(&mut rd);
    let mut rd2 = &input[..];
    let mut p2 = s::Parser::new();
    p2.set_input(&mut rd2);
    let mut it = p2.into_iter();
    loop {
        let e = p.parse();
        let i = it.next();
        let e = match (e, i) {
            (Err(a), Some(Err(b))) => {
                sym::check(a.kind() == b.kind() && a.problem() == b.problem(), "the iterator reports another error");
                sym::check(st != 5, "an error after the end of the stream");
                sym::reach(2);
                return;
            }
            (Ok(a), Some(Ok(b))) => {
                sym::check(a == b, "the iterator yields another event");
                a
            }
            _ => sym::fail("the iterator and parse() disagree"),
        };
        let node = |stack: &mut Vec<u8>, st: &mut i32| {
            sym::check(*st == 2 || *st == 3, "a node outside a document or a second root node");
            match stack.last_mut() {
                None => sym::check(*st == 2, "a second root node"),
                Some(x) => {
                    *x = match *x {
                        b'k' => b'v',
                        b'v' => b'k',
                        x => x,
                    }
                }
            }
        };
        match &e.data {
            D::StreamStart { .. } => {
                sym::check(st == 0, "stream start not first");
                st = 1;
            }
            D::StreamEnd => {
                sym::check(st == 1, "stream end inside a document");
                st = 5;
            }
            D::DocumentStart { .. } => {
                sym::check(st == 1, "document start inside a document");
                st = 2;
            }
            D::DocumentEnd { .. } => {
                sym::check(st == 4, "document end before its node is complete");
                st = 1;
            }
            D::Alias { .. } | D::Scalar { .. } => {
                node(&mut stack, &mut st);
                st = if stack.is_empty() { 4 } else { 3 };
            }
            D::SequenceStart { .. } => {
                node(&mut stack, &mut st);
                stack.push(b's');
                st = 3;
            }
            D::MappingStart { .. } => {
                node(&mut stack, &mut st);
                stack.push(b'k');
                st = 3;
            }
            D::SequenceEnd => {
                sym::check(stack.pop() == Some(b's'), "unmatched sequence end");
                st = if stack.is_empty() { 4 } else { 3 };
            }
            D::MappingEnd => {
                sym::check(stack.pop() == Some(b'k'), "unmatched mapping end or a key without value");
                st = if stack.is_empty() { 4 } else { 3 };
            }
        }
        sym::observe(safer::event(&e).kind as u64);
        if st == 5 {
            sym::check(stack.is_empty(), "stream end inside a collection");
            sym::reach(1);
            break;
        }
    }
    for _ in 0..2 {
        sym::check(it.next().is_none(), "the iterator goes on after the end");
    }
}

/// C02: four times the input takes about four times the work, to scan, to parse and to load.
/// Argument: what to do (bits), number (two bytes), length of the unit's template, the unit,
/// then the text before it, a zero byte and the text after it.
pub fn h_linear() {
    let arg = sym::arg();
    let (what, n, l) = (arg[0], arg[1] as usize | (arg[2] as usize) << 8, arg[3] as usize);
    let unit = sym::expand(&arg[4..4 + l]);
    // (the work also grows with the depth of nested flow collections, as libyaml's does)
    sym::assume(unit.iter().filter(|b| **b == b'[' || **b == b'{').count() <= unit.iter().filter(|b| **b == b']' || **b == b'}').count());
    let rest = sym::expand(&arg[4 + l..]);
    let cut = match rest.iter().position(|b| *b == 0) {
        Some(c) => c,
        None => return,
    };
    let text = |n: usize| {
        let mut t = rest[..cut].to_vec();
        for _ in 0..n {
            t.extend_from_slice(&unit);
        }
        t.extend_from_slice(&rest[cut + 1..]);
        t
    };
    for k in 0..3u8 {
        if what >> k & 1 == 0 {
            continue;
        }
        let mut much = false;
        if sym::timed() {
            // ever larger inputs, until the time can be told
            let mut n = n;
            loop {
                let (one, four) = (text(n), text(4 * n));
                let (mut a, mut b) = (work(k, &one), work(k, &four));
                for _ in 0..2 {
                    if b > 30_000_000 && b > 9 * a {
                        a = a.max(work(k, &one));
                        b = b.min(work(k, &four));
                    }
                }
                much |= b > 30_000_000 && b > 9 * a;
                if much || b > 250_000_000 || n > 400_000 {
                    break;
                }
                n *= 2;
            }
        } else if !sym::NATIVE {
            let (a, b) = (work(k, &text(n)), work(k, &text(4 * n)));
            much = b > 5 * a + 100_000;
        }
        sym::check(!much, "the work grows faster than the input");
        sym::reach(k as u64 + 1);
    }
}
fn work(what: u8, t: &[u8]) -> u64 {
    let mut rd = t;
    let s0 = sym::steps();
    match what {
        0 => {
            let mut p = s::Scanner::new();
            p.set_input(&mut rd);
            while let Ok(x) = s::Scanner::scan(&mut p) {
                if matches!(x.data, s::TokenData::StreamEnd) {
                    break;
                }
            }
        }
        1 => {
            let mut p = s::Parser::new();
            p.set_input(&mut rd);
            while let Ok(e) = p.parse() {
                if matches!(e.data, D::StreamEnd) {
                    break;
                }
            }
        }
        _ => {
            let mut p = s::Parser::new();
            p.set_input(&mut rd);
            while let Ok(d) = s::Document::load(&mut p) {
                if d.nodes.is_empty() {
                    break;
                }
            }
        }
    }
    sym::steps() - s0
}
