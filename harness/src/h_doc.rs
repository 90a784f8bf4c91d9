//! Documents: loading, dumping, building.
use crate::h_emit::parse_events;
use crate::script::*;
use crate::sym;
use libyaml_safer as s;
use s::{Document, ErrorKind, EventData as D, NodeData as N};

const STR: &str = "tag:yaml.org,2002:str";
const SEQ: &str = "tag:yaml.org,2002:seq";
const MAP: &str = "tag:yaml.org,2002:map";

/// What a document must contain, computed from the events alone.
struct Want {
    nodes: Vec<WNode>,
    ver: Option<(i32, i32)>,
    tags: Vec<(String, String)>,
    si: bool,
    ei: bool,
    start: s::Mark,
    end: s::Mark,
}
struct WNode {
    kind: u8,
    tag: String,
    value: String,
    style: u8,
    kids: Vec<usize>,
    start: s::Mark,
    end: s::Mark,
}
enum Bad {
    Undefined(s::Mark),
    Duplicate(s::Mark, s::Mark),
}
/// All documents described by a list of events, up to the first bad reference.
fn build(evs: &[s::Event]) -> (Vec<Want>, Option<Bad>) {
    let mut docs = vec![];
    let mut cur: Option<Want> = None;
    let mut anchors: Vec<(String, usize)> = vec![];
    let mut stack: Vec<usize> = vec![];
    for e in evs {
        let (kind, tag, value, style, anchor, def) = match &e.data {
            D::StreamStart { .. } | D::StreamEnd => continue,
            D::DocumentStart { version_directive, tag_directives, implicit } => {
                anchors.clear();
                cur = Some(Want {
                    nodes: vec![],
                    ver: version_directive.map(|v| (v.major, v.minor)),
                    tags: tag_directives.iter().map(|t| (t.handle.clone(), t.prefix.clone())).collect(),
                    si: *implicit,
                    ei: false,
                    start: e.start_mark,
                    end: e.end_mark,
                });
                continue;
            }
            D::DocumentEnd { implicit } => {
                let mut d = cur.take().unwrap();
                d.ei = *implicit;
                d.end = e.end_mark;
                docs.push(d);
                continue;
            }
            D::SequenceEnd | D::MappingEnd => {
                let i = stack.pop().unwrap();
                cur.as_mut().unwrap().nodes[i].end = e.end_mark;
                continue;
            }
            D::Alias { anchor } => {
                let i = match anchors.iter().find(|a| a.0 == *anchor) {
                    None => return (docs, Some(Bad::Undefined(e.start_mark))),
                    Some(a) => a.1,
                };
                if let Some(p) = stack.last() {
                    cur.as_mut().unwrap().nodes[*p].kids.push(i);
                }
                continue;
            }
            D::Scalar { anchor, tag, value, style, .. } => (1, tag, value.clone(), crate::safer::sstyle(*style), anchor, STR),
            D::SequenceStart { anchor, tag, style, .. } => (2, tag, String::new(), crate::safer::qstyle(*style), anchor, SEQ),
            D::MappingStart { anchor, tag, style, .. } => (3, tag, String::new(), crate::safer::mstyle(*style), anchor, MAP),
        };
        let d = cur.as_mut().unwrap();
        let tag = match tag.as_deref() {
            None | Some("!") => def.to_string(),
            Some(t) => t.to_string(),
        };
        let i = d.nodes.len();
        d.nodes.push(WNode { kind, tag, value, style, kids: vec![], start: e.start_mark, end: e.end_mark });
        if let Some(a) = anchor {
            if let Some(x) = anchors.iter().find(|x| x.0 == *a) {
                return (docs, Some(Bad::Duplicate(d.nodes[x.1].start, e.start_mark)));
            }
            anchors.push((a.clone(), i));
        }
        if let Some(p) = stack.last() {
            d.nodes[*p].kids.push(i);
        }
        if kind != 1 {
            stack.push(i);
        }
    }
    (docs, None)
}
fn kids(d: &Document, i: usize) -> Vec<i32> {
    match &d.nodes[i].data {
        N::Sequence { items, .. } => items.clone(),
        N::Mapping { pairs, .. } => {
            let mut v = vec![];
            for p in pairs {
                v.push(p.key);
                v.push(p.value);
            }
            v
        }
        _ => vec![],
    }
}
fn compare(d: &Document, w: &Want) {
    sym::check(d.nodes.len() == w.nodes.len(), "a different number of nodes");
    sym::check(d.version_directive.map(|v| (v.major, v.minor)) == w.ver, "version directive differs");
    sym::check(d.tag_directives.len() == w.tags.len(), "tag directives differ");
    for (a, b) in d.tag_directives.iter().zip(&w.tags) {
        sym::check(a.handle == b.0 && a.prefix == b.1, "tag directive differs");
    }
    sym::check(d.start_implicit == w.si && d.end_implicit == w.ei, "implicit flags differ");
    sym::check(d.start_mark == w.start && d.end_mark == w.end, "document positions differ");
    for (i, (n, w)) in d.nodes.iter().zip(&w.nodes).enumerate() {
        let (kind, style) = match &n.data {
            N::NoNode => (0, 0),
            N::Scalar { value, style } => {
                sym::check(*value == w.value, "scalar value differs");
                (1, crate::safer::sstyle(*style))
            }
            N::Sequence { style, .. } => (2, crate::safer::qstyle(*style)),
            N::Mapping { style, .. } => (3, crate::safer::mstyle(*style)),
        };
        sym::check(kind == w.kind, "node kind differs");
        sym::check(style == w.style, "node style differs");
        sym::check(n.tag.as_deref() == Some(&w.tag[..]), "node tag differs");
        sym::check(n.start_mark == w.start && n.end_mark == w.end, "node positions differ");
        let k = kids(d, i);
        sym::check(k.len() == w.kids.len(), "a different number of children");
        for (a, b) in k.iter().zip(&w.kids) {
            sym::check(*a == *b as i32 + 1, "a different child");
            sym::check(d.get_node(*a).is_some(), "a child that is no node");
        }
        sym::check(d.get_node(i as i32 + 1).is_some_and(|x| core::ptr::eq(x, n)), "the node is not found under its number");
    }
}
/// C11 and C12: documents are those the events describe; bad references fail.
pub fn h_load() {
    let input = sym::expand(&sym::arg());
    // the events, and the error that ends them
    let mut rd = &input[..];
    let mut p = s::Parser::new();
    p.set_input(&mut rd);
    let mut evs = vec![];
    let mut perr = None;
    loop {
        match p.parse() {
            Err(e) => {
                perr = Some(e);
                break;
            }
            Ok(e) => {
                let end = matches!(e.data, D::StreamEnd);
                evs.push(e);
                if end {
                    break;
                }
            }
        }
    }
    let (want, bad) = build(&evs);
    let mut rd = &input[..];
    let mut p = s::Parser::new();
    p.set_input(&mut rd);
    for w in &want {
        match Document::load(&mut p) {
            Err(_) => sym::fail("fails to load a document that parses"),
            Ok(mut d) => {
                sym::check(d.get_root_node().is_some(), "a document is missing");
                compare(&d, w);
            }
        }
    }
    sym::observe(want.len() as u64);
    match (Document::load(&mut p), bad, perr) {
        (Ok(_), Some(_), _) => sym::fail("loads a document with a bad reference"),
        (Err(e), Some(Bad::Undefined(m)), _) => {
            sym::reach(2);
            sym::check(e.kind() == ErrorKind::Composer, "undefined alias is no composer error");
            sym::check(e.problem_mark() == Some(m), "undefined alias: position");
        }
        (Err(e), Some(Bad::Duplicate(a, b)), _) => {
            sym::reach(3);
            sym::check(e.kind() == ErrorKind::Composer, "duplicate anchor is no composer error");
            sym::check(e.problem_mark() == Some(b) && e.context_mark() == Some(a), "duplicate anchor: positions");
        }
        (Ok(_), None, Some(_)) => sym::fail("loads what does not parse"),
        (Err(e), None, Some(x)) => {
            sym::reach(4);
            sym::check(e.kind() == x.kind() && e.problem() == x.problem() && e.problem_mark() == x.problem_mark(), "not the parser's own error");
        }
        (Err(_), None, None) => sym::fail("fails at the end of the stream"),
        (Ok(mut d), None, None) => {
            sym::reach(1);
            sym::check(d.get_root_node().is_none() && d.nodes.is_empty(), "a document after the end");
        }
    }
    for _ in 0..3 {
        match Document::load(&mut p) {
            Ok(d) => sym::check(d.nodes.is_empty(), "a document after the end or an error"),
            Err(_) => {}
        }
    }
}
/// The graphs of two documents correspond from the roots on.
fn isomorphic(a: &Document, b: &Document) {
    let mut to = vec![0i32; a.nodes.len() + 1];
    let mut from = vec![0i32; b.nodes.len() + 1];
    let mut todo = vec![(1i32, 1i32)];
    while let Some((x, y)) = todo.pop() {
        let (i, j) = (x as usize, y as usize);
        if to[i] != 0 || from[j] != 0 {
            sym::check(to[i] == y && from[j] == x, "nodes are shared differently");
            continue;
        }
        to[i] = y;
        from[j] = x;
        let (m, n) = (&a.nodes[i - 1], &b.nodes[j - 1]);
        // the non-specific tag is read as the default one
        let tag = match m.tag.as_deref() {
            Some("!") => match &m.data {
                N::Scalar { .. } => Some(STR),
                N::Sequence { .. } => Some(SEQ),
                _ => Some(MAP),
            },
            t => t,
        };
        sym::check(tag == n.tag.as_deref(), "the tag differs");
        match (&m.data, &n.data) {
            (N::Scalar { value: v, .. }, N::Scalar { value: w, .. }) => sym::check(v == w, "the value differs"),
            (N::Sequence { .. }, N::Sequence { .. }) | (N::Mapping { .. }, N::Mapping { .. }) => {}
            _ => sym::fail("the kind of node differs"),
        }
        let (k, l) = (kids(a, i - 1), kids(b, j - 1));
        sym::check(k.len() == l.len(), "a different number of children");
        for (c, d) in k.iter().zip(&l) {
            todo.push((*c, *d));
        }
    }
    for j in 1..from.len() {
        sym::check(from[j] != 0, "a node that was not dumped");
    }
}
/// Script of a document: nodes, then edges.
/// n, then per node kind (0 scalar, 1 sequence, 2 mapping, 3 choose), style, flags(2 tag) [tag] value;
/// then the number of edges of each collection (9: choose 0..=2) and their targets (0: choose).
pub fn graph(r: &mut Rd, doc: &mut Document) -> Option<()> {
    let n = r.u() as usize;
    let mut kind = vec![];
    for _ in 0..n {
        let mut k = r.u();
        if k == 3 {
            k = sym::pick(3) as u8;
        }
        let k = sym::concrete(k as usize);
        let style = r.u();
        let f = r.u();
        let tag = if f & 2 != 0 { Some(r.str()) } else { None };
        let value = r.str();
        let before = doc.nodes.len() as i32;
        let id = match k {
            0 => doc.add_scalar(tag.as_deref(), &value, sstyle(style)),
            1 => doc.add_sequence(tag.as_deref(), qstyle(style)),
            _ => doc.add_mapping(tag.as_deref(), mstyle(style)),
        };
        sym::check(id == before + 1, "node number");
        kind.push(k);
    }
    for i in 0..n {
        let mut c = r.u() as usize;
        let mut t = vec![];
        if c == 9 {
            c = sym::pick(3);
            t.resize(c, 0u8);
            r.u();
        } else {
            for _ in 0..c {
                t.push(r.u());
            }
        }
        if kind[i] == 0 {
            continue;
        }
        if kind[i] == 2 && t.len() % 2 == 1 {
            t.pop();
        }
        let t: Vec<i32> = t.iter().map(|x| if *x == 0 { 1 + sym::pick(n) as i32 } else { *x as i32 }).collect();
        if kind[i] == 1 {
            for x in t {
                doc.append_sequence_item(i as i32 + 1, x);
            }
        } else {
            for p in t.chunks(2) {
                doc.yaml_document_append_mapping_pair(i as i32 + 1, p[0], p[1]);
            }
        }
    }
    Some(())
}
fn dump_all(c: &Cfg, docs: Vec<Document>) -> Result<Vec<u8>, s::Error> {
    let mut out = vec![];
    {
        let mut e = s::Emitter::new();
        setup(&mut e, c);
        e.set_output(&mut out);
        e.open()?;
        for d in docs {
            d.dump(&mut e)?;
        }
        e.close()?;
    }
    Ok(out)
}
fn load_all(b: &[u8]) -> Result<Vec<Document>, s::Error> {
    let mut rd = b;
    let mut p = s::Parser::new();
    p.set_input(&mut rd);
    let mut v = vec![];
    loop {
        let d = Document::load(&mut p)?;
        if d.nodes.is_empty() {
            return Ok(v);
        }
        v.push(d);
    }
}
/// See h_emit::unfaithful.
fn unfaithful(d: &Document, canonical: bool) -> bool {
    for n in &d.nodes {
        if let Some(t) = &n.tag {
            if t.strip_prefix("tag:yaml.org,2002:").unwrap_or(t).contains([',', '[', ']']) {
                return true;
            }
        }
    }
    match d.nodes.first() {
        Some(s::Node { data: N::Scalar { value, style: s::ScalarStyle::Any | s::ScalarStyle::Plain }, tag, .. }) => {
            value.is_empty() && d.start_implicit && !canonical && d.version_directive.is_none() && d.tag_directives.is_empty() && tag.as_deref() == Some(STR)
        }
        _ => false,
    }
}
/// C16: dump, load, compare; dump again.
pub fn h_dump() {
    dump(true)
}
/// The same without the exception (for the known findings).
pub fn h_dump_raw() {
    dump(false)
}
fn dump(except: bool) {
    let mut r = read();
    let c = r.cfg();
    let mut docs = vec![];
    let mut bad = false;
    while r.more() {
        let f = r.u(); // 1 start implicit, 2 end implicit, 4 version, 8 tag directive
        let ver = if f & 4 != 0 { version(Some((1 + (f as i32 >> 5 & 1), 1 + (f as i32 >> 4 & 1) + (f as i32 >> 6 & 1) * 2))) } else { None };
        let tags = if f & 8 != 0 { vec![(r.str(), r.str())] } else { vec![] };
        let mut d = Document::new(ver, &tagdirs(&tags), f & 1 != 0, f & 2 != 0);
        graph(&mut r, &mut d);
        bad |= except && unfaithful(&d, c.canonical);
        docs.push(d);
    }
    sym::assume(!bad);
    let out = match dump_all(&c, docs.clone()) {
        Ok(o) => o,
        Err(_) => {
            sym::observe(0);
            sym::reach(2);
            return;
        }
    };
    sym::observe_bytes(&out);
    let back = match load_all(&out) {
        Ok(b) => b,
        Err(_) => sym::fail("the dumped text does not load"),
    };
    sym::check(back.len() == docs.len(), "a different number of documents");
    for (a, b) in docs.iter().zip(&back) {
        isomorphic(a, b);
        sym::check(a.version_directive.map(|v| (v.major, v.minor)) == b.version_directive.map(|v| (v.major, v.minor)), "version directive differs");
        sym::check(a.tag_directives.len() == b.tag_directives.len(), "tag directives differ");
        for (x, y) in a.tag_directives.iter().zip(&b.tag_directives) {
            sym::check(x.handle == y.handle && x.prefix == y.prefix, "tag directive differs");
        }
    }
    // (the non-specific tag has become the default one)
    let bang = docs.iter().any(|d| d.nodes.iter().any(|n| n.tag.as_deref() == Some("!")));
    match dump_all(&c, back) {
        Ok(_) if bang => {}
        Ok(o) => sym::check(o == out, "dumping the loaded document gives another text"),
        Err(_) => sym::fail("the loaded document cannot be dumped"),
    }
    sym::reach(1);
}
/// C16: load a text, dump, load: the same graph.
pub fn h_redump() {
    let input = sym::expand(&sym::arg());
    let docs = match load_all(&input) {
        Ok(d) => d,
        Err(_) => {
            sym::observe(0);
            sym::reach(2);
            return;
        }
    };
    for d in &docs {
        sym::assume(!unfaithful(d, false));
    }
    let c = Cfg { canonical: false, unicode: true, indent: 0, width: 0, brk: 0, enc: 0 };
    let out = match dump_all(&c, docs.clone()) {
        Ok(o) => o,
        Err(_) => sym::fail("a loaded document cannot be dumped"),
    };
    sym::observe_bytes(&out);
    let back = match load_all(&out) {
        Ok(b) => b,
        Err(_) => sym::fail("the dumped text does not load"),
    };
    sym::check(back.len() == docs.len(), "a different number of documents");
    for (a, b) in docs.iter().zip(&back) {
        isomorphic(a, b);
    }
    let _ = parse_events;
    sym::reach(1);
}
/// C16: a sequence of `n` nodes, each appended `m` times and, when `deep`, also below others.
/// Argument: settings, n16, m, deep, value template.
pub fn h_dump_many() {
    let mut r = read();
    let c = r.cfg();
    let n = r.u() as i32 | (r.u() as i32) << 8;
    let (m, deep) = (r.u(), r.u());
    let mut t = vec![];
    while r.more() {
        t.push(r.u());
    }
    let value = match String::from_utf8(t) {
        Ok(v) => v,
        Err(_) => {
            sym::assume(false);
            return;
        }
    };
    let mut d = Document::new(None, &[], true, true);
    let root = if deep & 4 != 0 { d.add_mapping(None, s::MappingStyle::Any) } else { d.add_sequence(None, s::SequenceStyle::Any) };
    for k in 0..n {
        let id = match (deep & 3, k % 3) {
            (0, _) | (_, 0) => d.add_scalar(None, if k + 1 == n { &value } else { "v" }, s::ScalarStyle::Any),
            (1, 1) => d.add_sequence(None, s::SequenceStyle::Any),
            _ => d.add_mapping(None, s::MappingStyle::Any),
        };
        sym::check(id == k + 2, "node number");
    }
    for _ in 0..m {
        for k in 0..n {
            if deep & 4 != 0 {
                d.yaml_document_append_mapping_pair(root, k + 2, n + 1 - k);
            } else {
                d.append_sequence_item(root, k + 2);
            }
        }
    }
    if deep & 3 != 0 {
        // a chain: each collection holds the next node and the root
        for k in 0..n - 1 {
            match d.nodes[k as usize + 1].data {
                N::Sequence { .. } => d.append_sequence_item(k + 2, k + 3),
                N::Mapping { .. } => d.yaml_document_append_mapping_pair(k + 2, k + 3, 1),
                _ => {}
            }
        }
    }
    let out = match dump_all(&c, vec![d.clone()]) {
        Ok(o) => o,
        Err(_) => sym::fail("a document cannot be dumped"),
    };
    let back = match load_all(&out) {
        Ok(b) => b,
        Err(_) => sym::fail("the dumped text does not load"),
    };
    sym::check(back.len() == 1, "a different number of documents");
    isomorphic(&d, &back[0]);
    sym::observe(out.len() as u64);
    match dump_all(&c, back) {
        Ok(o) => sym::check(o == out, "dumping the loaded document gives another text"),
        Err(_) => sym::fail("the loaded document cannot be dumped"),
    }
    sym::reach(1);
}
const SEQ_STYLES: [s::SequenceStyle; 3] = [s::SequenceStyle::Any, s::SequenceStyle::Block, s::SequenceStyle::Flow];
const MAP_STYLES: [s::MappingStyle; 3] = [s::MappingStyle::Any, s::MappingStyle::Block, s::MappingStyle::Flow];
const SC_STYLES: [s::ScalarStyle; 6] = [s::ScalarStyle::Any, s::ScalarStyle::Plain, s::ScalarStyle::SingleQuoted, s::ScalarStyle::DoubleQuoted, s::ScalarStyle::Literal, s::ScalarStyle::Folded];
/// C20, larger: nodes of every kind in turn, many items; a symbolic number is looked up.
pub fn h_build_many() {
    let arg = sym::expand(&sym::arg());
    let n = arg[0] as i32 | (arg[1] as i32) << 8;
    let mut d = Document::new(None, &[], false, true);
    for k in 0..n {
        let v = k.to_string();
        let id = match k % 3 {
            0 => d.add_sequence(Some(&v), SEQ_STYLES[k as usize % 7 % 3]),
            1 => d.add_mapping(None, MAP_STYLES[k as usize % 11 % 3]),
            _ => d.add_scalar(Some(&v), &v, SC_STYLES[k as usize % 13 % 6]),
        };
        sym::check(id == k + 1, "the number of a new node");
        d.append_sequence_item(1, id);
        d.append_sequence_item(1 + k / 3 * 3, 1 + k / 2);
        if k > 0 {
            d.yaml_document_append_mapping_pair(2, 1 + k / 2, id);
        }
    }
    let mut first = vec![];
    let mut second = vec![];
    let mut rest: Vec<Vec<i32>> = vec![vec![]; n as usize];
    for k in 0..n {
        first.push(k + 1);
        if k / 3 == 0 {
            first.push(1 + k / 2);
        } else {
            rest[k as usize / 3 * 3].push(1 + k / 2);
        }
        if k > 0 {
            second.push(1 + k / 2);
            second.push(k + 1);
        }
    }
    sym::check(d.nodes.len() == n as usize, "the number of nodes");
    for k in 0..n {
        let x = match d.get_node(k + 1) {
            Some(x) => x,
            None => sym::fail("a node is not found"),
        };
        let v = k.to_string();
        sym::check(x.tag.as_deref() == Some(if k % 3 == 1 { MAP } else { &v[..] }), "tag");
        match (&x.data, k % 3) {
            (N::Sequence { style, .. }, 0) => sym::check(*style == SEQ_STYLES[k as usize % 7 % 3], "style"),
            (N::Mapping { style, .. }, 1) => sym::check(*style == MAP_STYLES[k as usize % 11 % 3], "style"),
            (N::Scalar { value, style }, 2) => sym::check(*value == v && *style == SC_STYLES[k as usize % 13 % 6], "value or style"),
            _ => sym::fail("kind"),
        }
        let w = match k {
            0 => &first,
            1 => &second,
            k => &rest[k as usize],
        };
        sym::check(kids(&d, k as usize) == *w, "children");
    }
    let i = i32::from_le_bytes([sym::byte(), sym::byte(), sym::byte(), sym::byte()]);
    let inside = i >= 1 && i <= n;
    sym::check(d.get_node(i).is_some() == inside, "get_node and the range of numbers");
    sym::check(d.get_node_mut(i).is_some() == inside, "get_node_mut and the range of numbers");
    sym::observe(n as u64);
    sym::reach(1);
}
/// C20: every sequence of building calls, against a plain list of what was added.
/// Argument: number of calls, then a value template.
pub fn h_build() {
    let arg = sym::arg();
    let calls = arg[0] as usize;
    let text = match String::from_utf8(sym::expand(&arg[1..])) {
        Ok(s) => s,
        Err(_) => {
            sym::assume(false);
            return;
        }
    };
    struct M {
        kind: usize,
        tag: String,
        value: String,
        style: u8,
        kids: Vec<i32>,
    }
    let mut want: Vec<M> = vec![];
    let (si, ei) = (sym::flag(), sym::flag());
    let mut d = Document::new(version(Some((1, 2))), &tagdirs(&[("!a!".into(), text.clone())]), si, ei);
    for k in 0..calls {
        let n = want.len();
        let op = sym::pick(if n == 0 { 3 } else { 5 });
        if op < 3 {
            let tag = match sym::pick(2) {
                0 => None,
                _ => Some(text.clone()),
            };
            let style = (k % 3) as u8;
            let id = match op {
                0 => d.add_scalar(tag.as_deref(), &text, sstyle(style)),
                1 => d.add_sequence(tag.as_deref(), qstyle(style)),
                _ => d.add_mapping(tag.as_deref(), mstyle(style)),
            };
            sym::check(id == n as i32 + 1, "the number of a new node");
            want.push(M { kind: op, tag: tag.unwrap_or_else(|| [STR, SEQ, MAP][op].to_string()), value: text.clone(), style, kids: vec![] });
        } else {
            let t = sym::pick(n);
            let (a, b) = (1 + sym::pick(n) as i32, 1 + sym::pick(n) as i32);
            sym::assume(want[t].kind == op - 2);
            if op == 3 {
                d.append_sequence_item(t as i32 + 1, a);
                want[t].kids.push(a);
            } else {
                d.yaml_document_append_mapping_pair(t as i32 + 1, a, b);
                want[t].kids.push(a);
                want[t].kids.push(b);
            }
        }
    }
    let n = want.len();
    sym::check(d.nodes.len() == n, "the number of nodes");
    for (i, w) in want.iter().enumerate() {
        let x = match d.get_node(i as i32 + 1) {
            Some(x) => x,
            None => sym::fail("a node is not found"),
        };
        sym::check(x.tag.as_deref() == Some(&w.tag[..]), "tag");
        let (k, st) = match &x.data {
            N::Scalar { value, style } => {
                sym::check(*value == w.value, "value");
                (0, crate::safer::sstyle(*style))
            }
            N::Sequence { style, .. } => (1, crate::safer::qstyle(*style)),
            N::Mapping { style, .. } => (2, crate::safer::mstyle(*style)),
            N::NoNode => (9, 0),
        };
        sym::check(k == w.kind, "kind");
        sym::check(st == w.style, "style");
        sym::check(kids(&d, i) == w.kids, "children");
        let p = x as *const s::Node;
        sym::check(d.get_node_mut(i as i32 + 1).is_some_and(|y| core::ptr::eq(p, y)), "get_node_mut finds another node");
    }
    let idx = i32::from_le_bytes([sym::byte(), sym::byte(), sym::byte(), sym::byte()]);
    let inside = idx >= 1 && idx <= n as i32;
    sym::check(d.get_node(idx).is_some() == inside, "get_node and the range of numbers");
    sym::check(d.get_node_mut(idx).is_some() == inside, "get_node_mut and the range of numbers");
    let first = d.nodes.first().map(|x| x as *const s::Node);
    let root = d.get_root_node().map(|x| x as *const s::Node);
    sym::check(root == first, "the root is the first node");
    sym::check(d.start_implicit == si && d.end_implicit == ei, "implicit flags");
    sym::check(d.version_directive.map(|v| (v.major, v.minor)) == Some((1, 2)), "version directive");
    sym::check(d.tag_directives.len() == 1 && d.tag_directives[0].handle == "!a!" && d.tag_directives[0].prefix == text, "tag directive");
    sym::observe(n as u64);
    sym::reach(1);
}
