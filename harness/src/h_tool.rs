//! C29: the two programs of the test suite print and read events faithfully.
use crate::h_iface::op;
use crate::oracle_emit::E;
use crate::script::*;
use crate::sym;

#[path = "/repo/src/bin/run-parser-test-suite.rs"]
#[allow(dead_code)]
mod ptool;
#[path = "/repo/src/bin/run-emitter-test-suite.rs"]
#[allow(dead_code)]
mod etool;

fn escaped(o: &mut Vec<u8>, v: &[u8]) {
    for b in v {
        if *b == b'\\' {
            o.extend_from_slice(b"\\\\");
        } else if *b == 0 {
            o.extend_from_slice(b"\\0");
        } else if *b == 8 {
            o.extend_from_slice(b"\\b");
        } else if *b == 10 {
            o.extend_from_slice(b"\\n");
        } else if *b == 13 {
            o.extend_from_slice(b"\\r");
        } else if *b == 9 {
            o.extend_from_slice(b"\\t");
        } else {
            o.push(*b);
        }
    }
}
fn props(o: &mut Vec<u8>, a: &Os, t: &Os) {
    if let Some(a) = a {
        o.extend_from_slice(b" &");
        o.extend_from_slice(a.as_bytes());
    }
    if let Some(t) = t {
        o.extend_from_slice(b" <");
        o.extend_from_slice(t.as_bytes());
        o.push(b'>');
    }
}
/// The event as the suite writes it.
fn line(o: &mut Vec<u8>, e: &Op) {
    match e {
        Op::Ss(_) => o.extend_from_slice(b"+STR"),
        Op::Se => o.extend_from_slice(b"-STR"),
        Op::Ds { implicit, .. } => o.extend_from_slice(if *implicit { b"+DOC" } else { b"+DOC ---" }),
        Op::De(i) => o.extend_from_slice(if *i { b"-DOC" } else { b"-DOC ..." }),
        Op::Al(a) => {
            o.extend_from_slice(b"=ALI *");
            o.extend_from_slice(a.as_bytes());
        }
        Op::Sc { anchor, tag, value, style, .. } => {
            o.extend_from_slice(b"=VAL");
            props(o, anchor, tag);
            o.extend_from_slice(match style {
                2 => b" '",
                3 => b" \"",
                4 => b" |",
                5 => b" >",
                _ => b" :",
            });
            escaped(o, value.as_bytes());
        }
        Op::Qs { anchor, tag, .. } => {
            o.extend_from_slice(b"+SEQ");
            props(o, anchor, tag);
        }
        Op::Qe => o.extend_from_slice(b"-SEQ"),
        Op::Ms { anchor, tag, .. } => {
            o.extend_from_slice(b"+MAP");
            props(o, anchor, tag);
        }
        Op::Me => o.extend_from_slice(b"-MAP"),
        Op::Flush => return,
    }
    o.push(b'\n');
}
/// The parser's program: prints the events of the input.
pub fn h_tool_parse() {
    let input = sym::expand(&sym::arg());
    // the events (compared with the reference's elsewhere) and where they end
    let mut rd = &input[..];
    let mut p = libyaml_safer::Parser::new();
    p.set_input(&mut rd);
    let mut want = vec![];
    let mut err = None;
    loop {
        match p.parse() {
            Ok(e) => {
                let e = op(&e);
                line(&mut want, &e);
                if matches!(e, Op::Se) {
                    break;
                }
            }
            Err(e) => {
                err = Some(e.to_string());
                break;
            }
        }
    }
    let mut got: Vec<u8> = vec![];
    let r = ptool::test_main(&mut &input[..], &mut got);
    sym::check(got == want, "the program prints other events");
    match (&r, &err) {
        (Ok(()), None) => sym::reach(1),
        (Err(e), Some(x)) => {
            let mut t = String::from("Parse error: ");
            t.push_str(x);
            sym::check(e.to_string() == t, "the program reports another error");
            sym::reach(2);
        }
        _ => sym::fail("the program ends differently"),
    }
    sym::observe_bytes(&got);
}
/// Anchors, tags and values the line format has room for.
fn clear(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b > b' ' && b != b'&' && b != b'<' && b != b'>' && b != b'*')
}
fn writable(e: &Op) -> bool {
    let c = |s: &Os| s.as_deref().map_or(true, clear);
    match e {
        Op::Al(a) => clear(a),
        Op::Sc { anchor, tag, value, .. } => c(anchor) && c(tag) && (anchor.is_some() || !value.contains('&')) && (tag.is_some() || !value.contains('<') || !value.contains('>')),
        Op::Qs { anchor, tag, .. } | Op::Ms { anchor, tag, .. } => c(anchor) && c(tag),
        _ => true,
    }
}
/// The emitter's program: emits the events that the lines describe.
pub fn h_tool_emit() {
    let mut r = read();
    let ops = r.ops();
    let mut text = vec![];
    for o in &ops {
        sym::assume(writable(o));
        line(&mut text, o);
    }
    if sym::flag() {
        text.pop(); // the last line may lack its break
    }
    let mut got: Vec<u8> = vec![];
    let res = etool::test_main(&mut &text[..], &mut got);
    let c = Cfg { canonical: false, unicode: false, indent: 0, width: 0, brk: 0, enc: 0 };
    unsafe {
        let mut q = E::new(&c);
        let mut bad = false;
        let mut flushed = false;
        for o in &ops {
            let o = match o.clone() {
                Op::Ss(_) => Op::Ss(1),
                Op::Ds { implicit, .. } => Op::Ds { implicit, ver: None, tags: vec![] },
                Op::Sc { anchor, tag, value, style, .. } => Op::Sc { anchor, pi: tag.is_none(), qi: tag.is_none(), tag, value, style: if style == 0 { 1 } else { style } },
                Op::Qs { anchor, tag, .. } => Op::Qs { anchor, tag, implicit: false, style: 1 },
                Op::Ms { anchor, tag, .. } => Op::Ms { anchor, tag, implicit: false, style: 1 },
                o => o,
            };
            flushed = matches!(o, Op::Se);
            if q.apply(&o).is_err() {
                bad = true;
                break;
            }
        }
        sym::check(bad == res.is_err(), "the program fails where the reference does not, or the reverse");
        if bad {
            sym::reach(2);
        } else if flushed {
            sym::check(got == *q.out, "the program emits something else");
            sym::observe_bytes(&got);
            sym::reach(1);
        }
    }
}
