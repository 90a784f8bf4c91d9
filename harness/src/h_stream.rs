//! C31: no more input is asked for than libyaml asks for.
use crate::h_read::{source, Source};
use crate::oracle::{next_event, next_token, P};
use crate::script::{event, setup, Op, Rd};
use crate::sym;
use core::ffi::c_void;
use core::mem::MaybeUninit;
use libyaml_safer as s;
use std::io::{BufRead, Read};
use unsafe_libyaml as y;

/// A source that counts how often its end was met.
struct Counted {
    s: Source,
    ends: usize,
    last: usize,
}
impl Read for Counted {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        let n = self.s.read(o)?;
        self.ends += (n == 0 && !o.is_empty()) as usize;
        Ok(n)
    }
}
impl BufRead for Counted {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        let b = self.s.fill_buf()?;
        self.ends += b.is_empty() as usize;
        self.last = b.len();
        Ok(b)
    }
    fn consume(&mut self, n: usize) {
        self.s.consume(n)
    }
}
/// Bytes one at a time, then a failure.
struct Feed<'a> {
    b: &'a [u8],
    pos: usize,
}
unsafe fn feed(data: *mut c_void, buffer: *mut u8, size: u64, read: *mut u64) -> i32 {
    let f = &mut *(data as *mut Feed);
    if f.pos == f.b.len() {
        return 0;
    }
    if size == 0 {
        *read = 0;
        return 1;
    }
    *buffer = f.b[f.pos];
    f.pos += 1;
    *read = 1;
    1
}
/// Argument: what is asked for (0 tokens, 1 events, 2 documents), the template. The input stops
/// (with an error, as a source that would block) after every number of bytes.
pub fn h_stream() {
    let arg = sym::arg();
    let what = arg[0];
    let input = sym::expand(&arg[1..]);
    let n = input.len();
    let at = if n > 60 { n - sym::pick(40) } else { sym::pick(n + 1) };
    let mut f = Feed { b: &input[..at], pos: 0 };
    let mut need = 0;
    unsafe {
        let mut p = P::reader(feed, &mut f as *mut Feed as *mut c_void);
        loop {
            let ok = match what {
                0 => next_token(&mut p).is_ok(),
                1 => next_event(&mut p).is_ok(),
                _ => {
                    let mut d = MaybeUninit::<y::yaml_document_t>::zeroed();
                    let ok = y::yaml_parser_load(&mut *p.p, d.as_mut_ptr()).ok;
                    if ok {
                        y::yaml_document_delete(d.as_mut_ptr());
                    }
                    ok
                }
            };
            if !ok {
                break;
            }
            need += 1;
            if need > 4 * n + 4 {
                return;
            }
        }
        if p.ill {
            return;
        }
    }
    let mut src = source(0x81, 0, input.clone());
    src.fail = Some(at);
    src.kind = std::io::ErrorKind::WouldBlock;
    let (got, _, asked) = count(what, src, need);
    sym::check(got == need && !asked, "asks for input that is not needed yet");
    sym::observe(got as u64);
    sym::reach(if got > 1 { 2 } else { 1 });
}
/// How many came (at most `stop`), how often the end of the input was met if it was read to its
/// end, and whether the source was asked beyond its failure point.
fn count(what: u8, src: Source, stop: usize) -> (usize, usize, bool) {
    let mut src = Counted { s: src, ends: 0, last: 0 };
    let (mut got, mut end) = (0, false);
    match what {
        0 => {
            let mut p = s::Scanner::new();
            p.set_input(&mut src);
            while got < stop {
                match s::Scanner::scan(&mut p) {
                    Ok(t) => end = matches!(t.data, s::TokenData::StreamEnd),
                    Err(_) => break,
                }
                got += 1;
                if end {
                    break;
                }
            }
        }
        1 => {
            let mut p = s::Parser::new();
            p.set_input(&mut src);
            while got < stop {
                match p.parse() {
                    Ok(e) => end = matches!(e.data, s::EventData::StreamEnd),
                    Err(_) => break,
                }
                got += 1;
                if end {
                    break;
                }
            }
        }
        _ => {
            let mut p = s::Parser::new();
            p.set_input(&mut src);
            while got < stop {
                match s::Document::load(&mut p) {
                    Ok(d) => end = d.nodes.is_empty(),
                    Err(_) => break,
                }
                got += 1;
                if end {
                    break;
                }
            }
        }
    }
    (got, if end { src.ends } else { 0 }, src.s.failed > 0)
}
/// Argument: what is asked for, how the pieces are chosen, the template. A source whose end was
/// met (as a terminal's) is not read again.
pub fn h_ends() {
    let arg = sym::arg();
    let input = sym::expand(&arg[2..]);
    let (got, ends, _) = count(arg[0], source(arg[1], 0, input), usize::MAX);
    sym::check(ends <= 1, "reads on after the end of the input");
    sym::observe(got as u64);
    sym::reach(if ends == 1 { 1 } else { 2 });
}
/// C32: four times the events, the scalar or the nodes take about four times the work and give
/// about four times the output. Argument: 0 events, 1 documents, a number, the rest.
pub fn h_elinear() {
    let arg = sym::arg();
    let n = arg[1] as usize | (arg[2] as usize) << 8;
    let b = sym::expand(&arg[3..]);
    let run = |n: usize| if arg[0] == 0 { emit_work(&b, n) } else { dump_work(&b, n) };
    let mut much = false;
    let (one, four) = (run(n), run(4 * n));
    // (not the output of an error)
    sym::check(four.1 <= 5 * one.1 + 1000 || !one.2, "the output grows faster than the events");
    if sym::timed() {
        let mut n = n;
        loop {
            let (mut x, mut y) = (run(n).0, run(4 * n).0);
            for _ in 0..2 {
                if y > 30_000_000 && y > 9 * x {
                    x = x.max(run(n).0);
                    y = y.min(run(4 * n).0);
                }
            }
            much |= y > 30_000_000 && y > 9 * x;
            if much || y > 250_000_000 || n > 400_000 {
                break;
            }
            n *= 2;
        }
    } else if !sym::NATIVE {
        much = four.0 > 5 * one.0 + 100_000;
    }
    sym::check(!much, "the work grows faster than the events");
    sym::observe(one.1 as u64);
    sym::reach(if one.2 { 1 } else { 2 });
}
/// Work, output, success.
fn emit_work(b: &[u8], n: usize) -> (u64, usize, bool) {
    let mut r = Rd { b: b.to_vec(), p: 0, scale: n };
    let c = r.cfg();
    let mut evs: Vec<Option<s::Event>> = vec![];
    for o in r.ops() {
        evs.push(if let Op::Flush = o { None } else { Some(event(&o)) });
    }
    let mut out = Vec::new();
    let mut ok = true;
    let s0 = sym::steps();
    {
        let mut e = s::Emitter::new();
        setup(&mut e, &c);
        e.set_output(&mut out);
        for o in evs {
            ok = match o {
                None => e.flush().is_ok(),
                Some(o) => e.emit(o).is_ok(),
            };
            if !ok {
                break;
            }
        }
    }
    (sym::steps() - s0, out.len(), ok)
}
/// Argument: settings, then the shape: flags, a style and a text.
fn dump_work(b: &[u8], n: usize) -> (u64, usize, bool) {
    let mut r = Rd { b: b.to_vec(), p: 0, scale: 1 };
    let c = r.cfg();
    let shape = sym::concrete(r.u() as usize);
    let style = r.u() as usize;
    let text = r.str();
    let s0 = sym::steps();
    let mut out = Vec::new();
    let mut ok = true;
    {
        let mut e = s::Emitter::new();
        setup(&mut e, &c);
        e.set_output(&mut out);
        let docs = if shape == 5 { n } else { 1 };
        for _ in 0..docs {
            let mut d = s::Document::new(None, &[], true, true);
            let root = if shape == 1 { d.add_mapping(None, s::MappingStyle::Any) } else { d.add_sequence(None, [s::SequenceStyle::Any, s::SequenceStyle::Block, s::SequenceStyle::Flow][style % 3]) };
            let one = d.add_scalar(None, &text, s::ScalarStyle::Any);
            for _ in 0..if shape == 5 { 1 } else { n } {
                match shape {
                    // items
                    0 => {
                        let x = d.add_scalar(None, &text, s::ScalarStyle::Any);
                        d.append_sequence_item(root, x);
                    }
                    // pairs
                    1 => {
                        let x = d.add_scalar(None, &text, s::ScalarStyle::Any);
                        d.yaml_document_append_mapping_pair(root, x, one);
                    }
                    // the same node every time
                    2 => d.append_sequence_item(root, one),
                    // every node twice
                    3 => {
                        let x = d.add_scalar(None, &text, s::ScalarStyle::Any);
                        d.append_sequence_item(root, x);
                        d.append_sequence_item(root, x);
                    }
                    // small collections, the same node below each
                    4 => {
                        let x = d.add_sequence(None, s::SequenceStyle::Any);
                        d.append_sequence_item(x, one);
                        let y = d.add_mapping(None, s::MappingStyle::Any);
                        d.yaml_document_append_mapping_pair(y, one, x);
                        d.append_sequence_item(root, y);
                    }
                    _ => d.append_sequence_item(root, one),
                }
            }
            ok = d.dump(&mut e).is_ok();
            if !ok {
                break;
            }
        }
        if ok {
            ok = e.close().is_ok();
        }
    }
    (sym::steps() - s0, out.len(), ok)
}
