//! The emitter.
use crate::oracle_emit::E;
use crate::script::*;
use crate::{oracle, safer, sym};
use libyaml_safer as s;

/// C14: byte for byte the reference's output, errors at the same event.
pub fn h_emit() {
    let mut r = read();
    let c = r.cfg();
    let ops = r.ops();
    let mut out = Vec::new();
    let mut bad = false;
    let mut done = false;
    let enc = match ops.first() {
        Some(Op::Ss(e)) if c.enc == 0 => *e,
        _ => c.enc,
    };
    // the reference miswrites surrogate pairs: it is run in UTF-8, and what the
    // crate wrote in UTF-16 is decoded for the comparison
    let mut cr = c;
    let c = cr.clone();
    if enc >= 2 {
        cr.enc = 1;
    }
    unsafe {
        let mut o = E::new(&cr);
        {
            let mut e = s::Emitter::new();
            setup(&mut e, &c);
            e.set_output(&mut out);
            for op in &ops {
                let a = match op {
                    Op::Flush => e.flush(),
                    op => e.emit(event(op)),
                };
                let b = o.apply(op);
                match (a, b) {
                    (Ok(()), Ok(())) => {}
                    (Err(_), Err(())) => {
                        bad = true;
                        break;
                    }
                    (Ok(_), Err(())) => sym::fail("emits what the reference refuses"),
                    (Err(_), Ok(_)) => sym::fail("refuses what the reference emits"),
                }
                done = matches!(op, Op::Se | Op::Flush);
            }
        }
        if bad {
            sym::reach(2);
        } else if done {
            if enc >= 2 && !out.is_empty() {
                match decode(enc, &out) {
                    Some((true, got)) => sym::check(got[..] == core::str::from_utf8(&o.out).unwrap().chars().collect::<Vec<_>>()[..], "UTF-16 output differs from the reference"),
                    _ => sym::fail("the output is not UTF-16 with a byte order mark"),
                }
            } else {
                sym::check(out == *o.out, "output differs from the reference");
            }
            sym::observe_bytes(&out);
            sym::reach(1);
        }
    }
}
/// C13: no sequence of events panics; calls continue after an error.
pub fn h_emit_any() {
    let mut r = read();
    let c = r.cfg();
    let ops = r.ops();
    let mut out = Vec::new();
    let mut e = s::Emitter::new();
    setup(&mut e, &c);
    e.set_output(&mut out);
    let mut n = 0;
    for op in &ops {
        let a = match op {
            Op::Flush => e.flush(),
            op => e.emit(event(op)),
        };
        sym::observe(a.is_ok() as u64);
        if a.is_err() {
            n += 1;
        }
    }
    sym::reach(if n == 0 { 1 } else { 2 });
}

pub fn parse_events(b: &[u8]) -> Result<Vec<s::Event>, s::Error> {
    let mut rd = b;
    let mut p = s::Parser::new();
    p.set_input(&mut rd);
    let mut v = vec![];
    loop {
        let e = p.parse()?;
        let end = matches!(e.data, s::EventData::StreamEnd);
        v.push(e);
        if end {
            return Ok(v);
        }
    }
}
fn tag_ok(given: &Os, parsed: &Os, implicit: bool) -> bool {
    match given.as_deref() {
        None | Some("") => matches!(parsed.as_deref(), None | Some("!")),
        Some(t) => match parsed.as_deref() {
            Some(p) => p == t,
            None => implicit,
        },
    }
}
fn anchor_ok(a: &Os, b: &Os) -> bool {
    a == b
}
pub fn same(given: &[Op], parsed: &[s::Event]) {
    let given: Vec<&Op> = given.iter().filter(|o| !matches!(o, Op::Flush)).collect();
    sym::check(given.len() == parsed.len(), "a different number of events is read back");
    for (g, p) in given.iter().zip(parsed) {
        use s::EventData as D;
        match (g, &p.data) {
            (Op::Ss(_), D::StreamStart { .. }) | (Op::Se, D::StreamEnd) | (Op::De(_), D::DocumentEnd { .. }) | (Op::Qe, D::SequenceEnd) | (Op::Me, D::MappingEnd) => {}
            (Op::Ds { ver, tags, .. }, D::DocumentStart { version_directive, tag_directives, .. }) => {
                sym::check(ver.is_none() || version_directive.map(|v| (v.major, v.minor)) == *ver, "version directive lost");
                sym::check(tags.len() == tag_directives.len(), "tag directives differ");
                for (a, b) in tags.iter().zip(tag_directives) {
                    sym::check(a.0 == b.handle && a.1 == b.prefix, "tag directive differs");
                }
            }
            (Op::Al(a), D::Alias { anchor }) => sym::check(a == anchor, "alias differs"),
            (Op::Sc { anchor: a, tag: t, value: v, pi, qi, .. }, D::Scalar { anchor, tag, value, style, .. }) => {
                sym::check(v == value, "scalar value differs");
                sym::check(anchor_ok(a, anchor), "scalar anchor differs");
                let plain = matches!(style, s::ScalarStyle::Plain);
                sym::check(tag_ok(t, tag, if plain { *pi } else { *qi }), "scalar tag differs");
            }
            (Op::Qs { anchor: a, tag: t, implicit, .. }, D::SequenceStart { anchor, tag, .. })
            | (Op::Ms { anchor: a, tag: t, implicit, .. }, D::MappingStart { anchor, tag, .. }) => {
                sym::check(anchor_ok(a, anchor), "collection anchor differs");
                sym::check(tag_ok(t, tag, *implicit), "collection tag differs");
            }
            _ => sym::fail("a different kind of event is read back"),
        }
    }
}
/// What libyaml's emitter (byte for byte, C14) does not write in a readable way:
/// recorded as known findings, checked there on fixed inputs (h_finding).
pub fn unfaithful(c: &Cfg, ops: &[Op]) -> bool {
    let width = if c.canonical || c.width < 0 || c.width == 127 { i32::MAX } else if c.width == 0 || c.width <= best_indent(c) * 2 { 80 } else { c.width };
    let mut tagdirs: Vec<(String, String)> = vec![];
    for (i, o) in ops.iter().enumerate() {
        let (tag, implicit) = match o {
            Op::Ds { tags, implicit, ver } => {
                tagdirs = tags.clone();
                // an implicit document whose root is an empty plain scalar leaves no trace
                if let (true, None, true, Some(Op::Sc { anchor: None, value, style: 0 | 1, pi: true, .. })) = (*implicit && !c.canonical, ver, tags.is_empty(), ops.get(i + 1)) {
                    if value.is_empty() {
                        return true;
                    }
                }
                continue;
            }
            Op::Sc { tag, value, style, pi, qi, .. } => {
                // lines that begin with a blank are folded like the others
                if *style == 5 && width < i32::MAX {
                    for l in value.split(['\n', '\r', '\u{85}', '\u{2028}', '\u{2029}']) {
                        if l.starts_with([' ', '\t']) && l[1..].contains(' ') && l.len() as i32 + 20 > width {
                            return true;
                        }
                    }
                }
                (tag, *pi || *qi)
            }
            Op::Qs { tag, implicit, .. } | Op::Ms { tag, implicit, .. } => (tag, *implicit),
            _ => continue,
        };
        if let (Some(t), false) = (tag, implicit && !c.canonical) {
            // indicators in the suffix of a shorthand are written as they are
            let short = t.starts_with('!') || t.starts_with("tag:yaml.org,2002:") || tagdirs.iter().any(|d| t.starts_with(&d.1[..]));
            let suffix = t.strip_prefix("tag:yaml.org,2002:").unwrap_or(t);
            if short && suffix.contains([',', '[', ']']) {
                return true;
            }
        }
    }
    false
}
fn best_indent(c: &Cfg) -> i32 {
    if c.indent >= 2 && c.indent <= 9 {
        c.indent
    } else {
        2
    }
}
/// C15: parse(emit(events)) gives the events.
pub fn h_roundtrip() {
    let mut r = read();
    let c = r.cfg();
    let ops = r.ops();
    sym::assume(!unfaithful(&c, &ops));
    roundtrip(&c, &ops)
}
/// The same without the exception (for the known findings).
pub fn h_roundtrip_raw() {
    let mut r = read();
    let c = r.cfg();
    let ops = r.ops();
    roundtrip(&c, &ops)
}
fn roundtrip(c: &Cfg, ops: &[Op]) {
    match emit_all(c, ops) {
        Err(_) => {
            sym::reach(2);
            sym::observe(0);
        }
        Ok(out) => {
            sym::observe_bytes(&out);
            match parse_events(&out) {
                Err(_) => sym::fail("the emitted text does not parse"),
                Ok(p) => {
                    same(ops, &p);
                    sym::reach(1);
                }
            }
        }
    }
}
fn decode(enc: u8, b: &[u8]) -> Option<(bool, Vec<char>)> {
    let (le, bom, rest) = match enc {
        2 => (true, b.len() >= 2 && b[0] == 0xff && b[1] == 0xfe, 2),
        3 => (false, b.len() >= 2 && b[0] == 0xfe && b[1] == 0xff, 2),
        _ => {
            let s = core::str::from_utf8(b).ok()?;
            return Some((s.starts_with('\u{feff}'), s.chars().collect()));
        }
    };
    if !bom || b.len() % 2 != 0 {
        return None;
    }
    let u: Vec<u16> = b[rest..].chunks(2).map(|c| if le { u16::from_le_bytes([c[0], c[1]]) } else { u16::from_be_bytes([c[0], c[1]]) }).collect();
    let mut v = vec![];
    for c in char::decode_utf16(u) {
        v.push(c.ok()?);
    }
    Some((true, v))
}
/// C17: settings are honoured and do not change the content.
pub fn h_settings() {
    let mut r = read();
    let c = r.cfg();
    let ops = r.ops();
    let out = match emit_all(&c, &ops) {
        Err(_) => {
            sym::observe(0);
            sym::reach(2);
            return;
        }
        Ok(o) => o,
    };
    sym::observe_bytes(&out);
    let mut enc = c.enc;
    if enc == 0 {
        if let Some(Op::Ss(e)) = ops.first() {
            enc = *e;
        }
    }
    let (bom, chars) = match decode(enc, &out) {
        None => sym::fail("the output is not in the chosen encoding"),
        Some(x) => x,
    };
    sym::check(bom == (enc == 2 || enc == 3), "byte order mark does not fit the encoding");
    let mut i = 0;
    while i < chars.len() {
        let ch = chars[i];
        if !c.unicode {
            sym::check(ch.is_ascii(), "non-ASCII output without unicode");
        }
        match (c.brk, ch) {
            (1, '\n') => sym::fail("line feed with CR breaks"),
            (0 | 2, '\r') => sym::fail("carriage return with LF breaks"),
            (3, '\r') => {
                sym::check(i + 1 < chars.len() && chars[i + 1] == '\n', "lone CR with CRLF breaks");
                i += 1;
            }
            (3, '\n') => sym::fail("lone LF with CRLF breaks"),
            _ => {}
        }
        i += 1;
    }
    let p = match parse_events(&out) {
        Err(_) => sym::fail("the emitted text does not parse"),
        Ok(p) => p,
    };
    if c.canonical {
        for e in &p {
            match &e.data {
                s::EventData::Scalar { style, tag, .. } => {
                    sym::check(matches!(style, s::ScalarStyle::DoubleQuoted), "canonical scalar is not double-quoted");
                    let _ = tag;
                }
                s::EventData::SequenceStart { style, .. } => sym::check(matches!(style, s::SequenceStyle::Flow), "canonical sequence is not flow"),
                s::EventData::MappingStart { style, .. } => sym::check(matches!(style, s::MappingStyle::Flow), "canonical mapping is not flow"),
                s::EventData::DocumentStart { implicit, .. } => sym::check(!implicit, "canonical document start is implicit"),
                _ => {}
            }
        }
    }
    // indentation: the columns at which block collections start
    if !c.canonical {
        let step = best_indent(&c) as u64;
        let mut open: Vec<Option<(bool, u64)>> = vec![];
        for e in &p {
            let col = e.start_mark.column;
            let (block, seq) = match &e.data {
                s::EventData::MappingStart { style, anchor, tag, .. } => (matches!(style, s::MappingStyle::Block) && anchor.is_none() && tag.is_none(), false),
                s::EventData::SequenceStart { style, anchor, tag, .. } => (matches!(style, s::SequenceStyle::Block) && anchor.is_none() && tag.is_none(), true),
                s::EventData::MappingEnd | s::EventData::SequenceEnd => {
                    open.pop();
                    continue;
                }
                _ => continue,
            };
            if !block {
                open.push(None);
                continue;
            }
            sym::observe(col);
            match open.last() {
                None => sym::check(col == 0, "the root collection is indented"),
                Some(Some((in_seq, at))) => sym::check(col == at + step || (seq && !in_seq && col == *at), "block collection not indented by the chosen step"),
                _ => {}
            }
            open.push(Some((seq, col)));
        }
    }
    // the content does not depend on the presentation
    same(&ops, &p);
    sym::reach(1);
}
pub fn _u() {
    let _ = (oracle::put_str, safer::enc);
}
