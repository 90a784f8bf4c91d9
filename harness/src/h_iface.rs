//! Equivalent ways of using the library; re-emitting what was parsed.
use crate::h_emit::parse_events;
use crate::h_read::{read_all, read_slice, Reading};
use crate::script::*;
use crate::{safer, sym};
use libyaml_safer as s;
use s::{Document, EventData as D};

fn same(a: &Reading, b: &Reading) {
    same_text(a, b, true)
}
/// `bytes`: the inputs are also the same bytes, so a reader error's message (an offset in bytes) agrees.
fn same_text(a: &Reading, b: &Reading, bytes: bool) {
    sym::check(a.evs.len() == b.evs.len(), "a different number of events");
    for (x, y) in a.evs.iter().zip(&b.evs) {
        sym::check(x.kind == y.kind && x.enc == y.enc, "a different event");
        sym::check(x.marks == y.marks, "different positions");
    }
    match (&a.end, &b.end) {
        (None, None) => {}
        (Some(x), Some(y)) => sym::check(
            x.kind() == y.kind() && x.problem() == y.problem() && x.problem_mark() == y.problem_mark() && x.context() == y.context() && x.context_mark() == y.context_mark() && (x.to_string() == y.to_string() || !bytes && x.kind() == s::ErrorKind::Reader),
            "a different error",
        ),
        _ => sym::fail("the reading ends differently"),
    }
}
fn utf16(s: &str, be: bool, bom: bool) -> Vec<u8> {
    let mut v = vec![];
    if bom {
        v.extend_from_slice(if be { &[0xfe, 0xff] } else { &[0xff, 0xfe] });
    }
    let mut b = [0u16; 2];
    for c in s.chars() {
        for u in c.encode_utf16(&mut b) {
            v.extend_from_slice(&if be { u.to_be_bytes() } else { u.to_le_bytes() });
        }
    }
    v
}
/// C27, reading: string input, iterators, the encoding declared instead of detected.
pub fn h_iface() {
    let input = sym::expand(&sym::arg());
    let base = read_slice(&input);
    // set_input_string
    {
        let mut rd = &input[..];
        let mut p: s::Parser<&mut &[u8]> = s::Parser::default();
        p.set_input_string(&mut rd);
        same(&read_all(&mut p), &base);
    }
    // the iterator, taken by reference in the middle
    {
        let mut rd = &input[..];
        let mut p = s::Parser::new();
        p.set_input_string(&mut rd);
        let mut got = Reading { evs: vec![], end: None };
        for (i, e) in (&mut p).enumerate() {
            match e {
                Ok(e) => got.evs.push(safer::event(&e)),
                Err(e) => got.end = Some(e),
            }
            if i == 1 {
                break;
            }
        }
        for e in p {
            match e {
                Ok(e) => got.evs.push(safer::event(&e)),
                Err(e) => got.end = Some(e),
            }
        }
        same(&got, &base);
    }
    // the scanner by call and as an iterator
    {
        let mut rd = &input[..];
        let mut p: s::Scanner<&mut &[u8]> = s::Scanner::default();
        p.set_input_string(&mut rd);
        let mut rd2 = &input[..];
        let mut q = s::Scanner::new();
        q.set_input(&mut rd2);
        loop {
            match (p.next(), s::Scanner::scan(&mut q)) {
                (Some(Ok(a)), Ok(b)) => {
                    let (x, y) = (safer::token(&a), safer::token(&b));
                    sym::check(x.kind == y.kind && x.enc == y.enc && x.marks == y.marks, "a different token");
                    if matches!(b.data, s::TokenData::StreamEnd) {
                        sym::check(p.next().is_none(), "the iterator goes on after the end");
                        break;
                    }
                }
                (Some(Err(a)), Err(b)) => {
                    sym::check(a.kind() == b.kind() && a.problem() == b.problem() && a.problem_mark() == b.problem_mark(), "a different error");
                    break;
                }
                _ => sym::fail("scan() and the iterator disagree"),
            }
        }
    }
    // the encoding declared
    if let Ok(text) = core::str::from_utf8(&input) {
        if !text.starts_with('\u{feff}') && !input.is_empty() {
            let text = text.to_string();
            for e in 1..4u8 {
                let b = if e == 1 { input.clone() } else { utf16(&text, e == 3, false) };
                let c = if e == 1 { input.clone() } else { utf16(&text, e == 3, true) };
                let mut rd = &b[..];
                let mut p = s::Parser::new();
                p.set_input(&mut rd);
                p.set_encoding(encoding(e));
                same_text(&read_all(&mut p), &read_slice(&c), e == 1);
            }
            sym::reach(3);
        }
    }
    sym::observe(base.evs.len() as u64);
    sym::reach(if base.end.is_none() { 1 } else { 2 });
}
pub fn op(e: &s::Event) -> Op {
    match &e.data {
        D::StreamStart { .. } => Op::Ss(1),
        D::StreamEnd => Op::Se,
        D::DocumentStart { version_directive, tag_directives, implicit } => Op::Ds {
            implicit: *implicit,
            ver: version_directive.map(|v| (v.major, v.minor)),
            tags: tag_directives.iter().map(|t| (t.handle.clone(), t.prefix.clone())).collect(),
        },
        D::DocumentEnd { implicit } => Op::De(*implicit),
        D::Alias { anchor } => Op::Al(anchor.clone()),
        D::Scalar { anchor, tag, value, plain_implicit, quoted_implicit, style } => {
            Op::Sc { anchor: anchor.clone(), tag: tag.clone(), value: value.clone(), pi: *plain_implicit, qi: *quoted_implicit, style: safer::sstyle(*style) }
        }
        D::SequenceStart { anchor, tag, implicit, style } => Op::Qs { anchor: anchor.clone(), tag: tag.clone(), implicit: *implicit, style: safer::qstyle(*style) },
        D::SequenceEnd => Op::Qe,
        D::MappingStart { anchor, tag, implicit, style } => Op::Ms { anchor: anchor.clone(), tag: tag.clone(), implicit: *implicit, style: safer::mstyle(*style) },
        D::MappingEnd => Op::Me,
    }
}
/// C15: parse a text, emit the events, parse again. First argument bytes: settings.
pub fn h_reemit() {
    let mut r = read();
    let c = r.cfg();
    let input = r.b[r.p..].to_vec();
    let evs = match parse_events(&input) {
        Err(_) => {
            sym::observe(0);
            sym::reach(2);
            return;
        }
        Ok(e) => e,
    };
    let ops: Vec<Op> = evs.iter().map(op).collect();
    sym::assume(!crate::h_emit::unfaithful(&c, &ops));
    let mut out = vec![];
    {
        let mut e = s::Emitter::new();
        setup(&mut e, &c);
        e.set_output(&mut out);
        for v in evs {
            if e.emit(v).is_err() {
                // (anchors and tag handles of other characters cannot be written)
                sym::check(!readable(&ops), "what was parsed cannot be emitted");
                sym::reach(3);
                return;
            }
        }
    }
    sym::observe_bytes(&out);
    match parse_events(&out) {
        Err(_) => sym::fail("the emitted text does not parse"),
        Ok(p) => crate::h_emit::same(&ops, &p),
    }
    sym::reach(1);
}
/// Everything in the events can be written.
fn readable(ops: &[Op]) -> bool {
    ops.iter().all(|o| match o {
        Op::Ds { ver, .. } => matches!(ver, None | Some((1, 1 | 2))),
        Op::Sc { tag, .. } | Op::Qs { tag, .. } | Op::Ms { tag, .. } => tag.as_deref() != Some(""),
        _ => true,
    })
}
/// C27, emitting: a string output, flushes anywhere, open() and close().
pub fn h_out() {
    let mut r = read();
    let c = r.cfg();
    let ops = r.ops();
    let (mut a, mut b) = (vec![], b"old".to_vec());
    let mut ra = vec![];
    {
        let mut e = s::Emitter::default();
        setup(&mut e, &c);
        e.set_output(&mut a);
        for o in &ops {
            ra.push(if matches!(o, Op::Flush) { e.flush() } else { e.emit(event(o)) }.is_ok());
        }
        if ra.iter().all(|x| *x) {
            ra.push(e.flush().is_ok());
        }
    }
    {
        let mut e = s::Emitter::new();
        setup(&mut e, &c);
        e.set_output_string(&mut b);
        let mut rb = vec![];
        for o in &ops {
            rb.push(if matches!(o, Op::Flush) { e.flush() } else { e.emit(event(o)) }.is_ok());
        }
        if rb.iter().all(|x| *x) {
            rb.push(e.flush().is_ok());
        }
        sym::check(ra == rb, "a string output gives other results");
    }
    sym::check(a == b, "a string output receives another text");
    // flushing after every event changes nothing
    let mut d = vec![];
    {
        let mut e = s::Emitter::new();
        setup(&mut e, &c);
        e.set_output(&mut d);
        for (o, r) in ops.iter().zip(&ra) {
            let x = if matches!(o, Op::Flush) { e.flush() } else { e.emit(event(o)) }.is_ok();
            sym::check(x == *r, "flushing changes a result");
            if x && !matches!(o, Op::Ss(_)) {
                sym::check(e.flush().is_ok(), "flush fails");
            }
        }
    }
    if ra.iter().all(|x| *x) {
        sym::check(a == d, "flushing changes the text");
        sym::reach(1);
    } else {
        sym::reach(2);
    }
    sym::observe_bytes(&a);
}
/// C27: open() and close() are the stream events, dump() is the events of the document.
/// Argument: settings, text of the documents.
pub fn h_open() {
    let mut r = read();
    let c = r.cfg();
    let input = r.b[r.p..].to_vec();
    let mut docs = vec![];
    let mut rd = &input[..];
    let mut p = s::Parser::new();
    p.set_input(&mut rd);
    loop {
        match Document::load(&mut p) {
            Err(_) => {
                sym::assume(false);
            }
            Ok(d) if d.nodes.is_empty() => break,
            Ok(d) => docs.push(d),
        }
    }
    let how = sym::pick(4);
    let n = docs.len();
    let run = |how: usize, docs: &[Document]| -> (bool, Vec<u8>) {
        let mut out = vec![];
        let mut ok = true;
        {
            let mut e = s::Emitter::new();
            setup(&mut e, &c);
            e.set_output(&mut out);
            if how == 0 || how == 3 {
                ok &= e.open().is_ok();
            }
            for d in docs {
                ok &= d.clone().dump(&mut e).is_ok();
            }
            if how == 1 && n > 0 {
                // an empty document ends the stream; closing again does nothing
                ok &= Document::new(None, &[], true, true).dump(&mut e).is_ok();
                ok &= e.close().is_ok();
            }
            if how == 0 || how == 2 && n > 0 {
                ok &= e.close().is_ok();
                ok &= e.close().is_ok();
            }
            if how == 3 {
                ok &= e.emit(s::Event::stream_end()).is_ok();
            }
        }
        (ok, out)
    };
    let base = run(0, &docs);
    let got = run(how, &docs);
    if how == 0 || how == 3 || n > 0 {
        sym::check(base == got, "the ways of opening and closing differ");
    }
    // the same documents one by one in emitters of their own give the same values
    sym::observe_bytes(&got.1);
    sym::observe(n as u64);
    sym::reach(1);
}
