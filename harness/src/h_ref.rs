//! C30: documents as the reference's loader and dumper treat them.
use crate::h_diff::{same_error, syntax_first};
use crate::h_doc::graph;
use crate::oracle::P;
use crate::oracle_emit::{cz, sstyle as rstyle, E};
use crate::script::*;
use crate::sym;
use core::mem::MaybeUninit;
use libyaml_safer as s;
use s::{Document, NodeData as N};
use unsafe_libyaml as y;

struct RefDoc(Box<y::yaml_document_t>);
/// A string up to its NUL.
unsafe fn cstr<'a>(p: *const u8) -> &'a [u8] {
    let mut n = 0;
    while !p.is_null() && *p.add(n) != 0 {
        n += 1;
    }
    if n == 0 {
        return b"";
    }
    core::slice::from_raw_parts(p, n)
}
unsafe fn qstyle_ref(x: u8) -> y::yaml_sequence_style_t {
    match x {
        1 => y::YAML_BLOCK_SEQUENCE_STYLE,
        2 => y::YAML_FLOW_SEQUENCE_STYLE,
        _ => y::YAML_ANY_SEQUENCE_STYLE,
    }
}
unsafe fn mstyle_ref(x: u8) -> y::yaml_mapping_style_t {
    match x {
        1 => y::YAML_BLOCK_MAPPING_STYLE,
        2 => y::YAML_FLOW_MAPPING_STYLE,
        _ => y::YAML_ANY_MAPPING_STYLE,
    }
}
impl RefDoc {
    unsafe fn empty() -> RefDoc {
        let b: Box<MaybeUninit<y::yaml_document_t>> = Box::new(MaybeUninit::zeroed());
        RefDoc(Box::from_raw(Box::into_raw(b) as *mut y::yaml_document_t))
    }
    /// The same document, built with the reference's methods.
    unsafe fn of(d: &Document) -> RefDoc {
        let mut r = RefDoc::empty();
        let p: *mut y::yaml_document_t = &mut *r.0;
        let mut vd = MaybeUninit::<y::yaml_version_directive_t>::zeroed();
        let mut vp = core::ptr::null_mut();
        if let Some(v) = d.version_directive {
            (*vd.as_mut_ptr()).major = v.major;
            (*vd.as_mut_ptr()).minor = v.minor;
            vp = vd.as_mut_ptr();
        }
        let mut keep: Vec<(Vec<u8>, Vec<u8>)> = d.tag_directives.iter().map(|t| (cz(&t.handle), cz(&t.prefix))).collect();
        let mut td: Vec<y::yaml_tag_directive_t> = vec![];
        for (h, q) in &mut keep {
            let mut t = MaybeUninit::<y::yaml_tag_directive_t>::zeroed().assume_init();
            t.handle = h.as_mut_ptr();
            t.prefix = q.as_mut_ptr();
            td.push(t);
        }
        let a = if td.is_empty() { core::ptr::null_mut() } else { td.as_mut_ptr() };
        let b = if td.is_empty() { a } else { a.add(td.len()) };
        assert!(y::yaml_document_initialize(p, vp, a, b, d.start_implicit, d.end_implicit).ok);
        for n in &d.nodes {
            let tag = cz(n.tag.as_deref().unwrap_or(""));
            let id = match &n.data {
                N::Scalar { value, style } => y::yaml_document_add_scalar(p, tag.as_ptr(), value.as_ptr(), value.len() as i32, rstyle(crate::safer::sstyle(*style))),
                N::Sequence { style, .. } => y::yaml_document_add_sequence(p, tag.as_ptr(), qstyle_ref(crate::safer::qstyle(*style))),
                N::Mapping { style, .. } => y::yaml_document_add_mapping(p, tag.as_ptr(), mstyle_ref(crate::safer::mstyle(*style))),
                N::NoNode => 0,
            };
            assert!(id != 0, "the reference refuses the node");
        }
        for (i, n) in d.nodes.iter().enumerate() {
            match &n.data {
                N::Sequence { items, .. } => {
                    for k in items {
                        assert!(y::yaml_document_append_sequence_item(p, i as i32 + 1, *k).ok);
                    }
                }
                N::Mapping { pairs, .. } => {
                    for k in pairs {
                        assert!(y::yaml_document_append_mapping_pair(p, i as i32 + 1, k.key, k.value).ok);
                    }
                }
                _ => {}
            }
        }
        r
    }
    unsafe fn len(&self) -> usize {
        self.0.nodes.top.offset_from(self.0.nodes.start) as usize
    }
    unsafe fn node(&self, i: usize) -> &y::yaml_node_t {
        &*self.0.nodes.start.add(i)
    }
}
fn mark(a: &s::Mark, b: &y::yaml_mark_t) {
    sym::check(a.line == b.line && a.column == b.column && a.index == b.index, "a position differs from the reference's");
}
/// None: a tag that no Rust string can hold, or that holds a NUL.
unsafe fn same_document(a: &Document, b: &RefDoc, input: &[u8]) -> Option<()> {
    sym::check(a.nodes.len() == b.len(), "a different number of nodes than the reference");
    sym::check(a.start_implicit == b.0.start_implicit && a.end_implicit == b.0.end_implicit, "implicit flags differ from the reference's");
    if a.nodes.is_empty() {
        return Some(());
    }
    mark(&a.start_mark, &b.0.start_mark);
    mark(&a.end_mark, &b.0.end_mark);
    let v = b.0.version_directive;
    sym::check(a.version_directive.map(|v| (v.major, v.minor)) == if v.is_null() { None } else { Some(((*v).major, (*v).minor)) }, "the version directive differs from the reference's");
    let mut t = b.0.tag_directives.start;
    let n = if t.is_null() { 0 } else { b.0.tag_directives.end.offset_from(t) as usize };
    sym::check(a.tag_directives.len() == n, "tag directives differ from the reference's");
    let nul = || input.windows(3).any(|w| w == b"%00");
    for x in &a.tag_directives {
        if x.handle.as_bytes() != cstr((*t).handle) || x.prefix.as_bytes() != cstr((*t).prefix) {
            if nul() {
                return None;
            }
            sym::fail("a tag directive differs from the reference's");
        }
        t = t.add(1);
    }
    for (i, n) in a.nodes.iter().enumerate() {
        let r = b.node(i);
        mark(&n.start_mark, &r.start_mark);
        mark(&n.end_mark, &r.end_mark);
        if n.tag.as_deref().unwrap_or("").as_bytes() != cstr(r.tag) {
            if nul() {
                return None;
            }
            sym::fail("a tag differs from the reference's");
        }
        match &n.data {
            N::Scalar { value, style } => {
                sym::check(r.type_ == y::YAML_SCALAR_NODE, "the kind of a node differs from the reference's");
                let x = &r.data.scalar;
                sym::check(value.len() == x.length as usize && (value.is_empty() || value.as_bytes() == core::slice::from_raw_parts(x.value, value.len())), "a value differs from the reference's");
                sym::check(x.style == rstyle(crate::safer::sstyle(*style)), "a style differs from the reference's");
            }
            N::Sequence { items, style } => {
                sym::check(r.type_ == y::YAML_SEQUENCE_NODE, "the kind of a node differs from the reference's");
                let x = &r.data.sequence;
                sym::check(x.style == qstyle_ref(crate::safer::qstyle(*style)), "a style differs from the reference's");
                sym::check(items.len() == x.items.top.offset_from(x.items.start) as usize, "a different number of items than the reference");
                for (k, i) in items.iter().enumerate() {
                    sym::check(*i == *x.items.start.add(k), "an item differs from the reference's");
                }
            }
            N::Mapping { pairs, style } => {
                sym::check(r.type_ == y::YAML_MAPPING_NODE, "the kind of a node differs from the reference's");
                let x = &r.data.mapping;
                sym::check(x.style == mstyle_ref(crate::safer::mstyle(*style)), "a style differs from the reference's");
                sym::check(pairs.len() == x.pairs.top.offset_from(x.pairs.start) as usize, "a different number of pairs than the reference");
                for (k, i) in pairs.iter().enumerate() {
                    let p = &*x.pairs.start.add(k);
                    sym::check(i.key == p.key && i.value == p.value, "a pair differs from the reference's");
                }
            }
            N::NoNode => sym::fail("a node without contents"),
        }
    }
    Some(())
}
unsafe fn drain_ref(q: &mut P) -> bool {
    for _ in 0..1000 {
        let mut d = RefDoc::empty();
        if y::yaml_parser_load(&mut *q.p, &mut *d.0).fail {
            return true;
        }
        let end = d.len() == 0;
        let ill = (0..d.len()).any(|i| core::str::from_utf8(cstr(d.node(i).tag)).is_err()) || {
            let (mut t, e) = (d.0.tag_directives.start, d.0.tag_directives.end);
            let mut x = false;
            while t != e {
                x |= core::str::from_utf8(cstr((*t).prefix)).is_err();
                t = t.add(1);
            }
            x
        };
        y::yaml_document_delete(&mut *d.0);
        if ill {
            return true;
        }
        if end {
            return false;
        }
    }
    false
}
fn is_reader(e: &s::Error) -> bool {
    matches!(e.kind(), s::ErrorKind::Reader | s::ErrorKind::Io)
}
/// Load every document with both, compare; then dump every document with both.
/// First argument byte: settings of the dump (see `Rd::cfg`).
pub fn h_load_ref() {
    let arg = sym::arg();
    let all = sym::expand(&arg);
    let mut r = Rd { b: all[..5].to_vec(), p: 0, scale: 1 };
    let c = r.cfg();
    let input = &all[5..];
    let mut rd = input;
    let mut p = s::Parser::new();
    p.set_input(&mut rd);
    let (mut mine, mut refs) = (vec![], vec![]);
    unsafe {
        let mut q = P::new(input);
        loop {
            let a = Document::load(&mut p);
            let mut b = RefDoc::empty();
            let ok = y::yaml_parser_load(&mut *q.p, &mut *b.0).ok;
            match (a, ok) {
                (Ok(a), true) => {
                    if same_document(&a, &b, input).is_none() {
                        return;
                    }
                    sym::observe(a.nodes.len() as u64);
                    if a.nodes.is_empty() {
                        sym::reach(1);
                        break;
                    }
                    mine.push(a);
                    refs.push(b);
                }
                (Err(e), false) => {
                    if !syntax_first(&e, &q) {
                        same_error(&e, &q, input.len());
                    }
                    sym::reach(2);
                    break;
                }
                (Ok(_), false) => {
                    if crate::oracle::reader_error(&q) {
                        // fails later, where it looks at it
                        for _ in 0..1000 {
                            match Document::load(&mut p) {
                                Err(_) => return,
                                Ok(d) if d.nodes.is_empty() => break,
                                _ => {}
                            }
                        }
                        sym::fail("loads what the reference cannot decode");
                    }
                    sym::fail("loads what the reference rejects")
                }
                (Err(e), true) => {
                    let ill = (0..b.len()).any(|i| core::str::from_utf8(cstr(b.node(i).tag)).is_err());
                    if ill || (is_reader(&e) && drain_ref(&mut q)) || drain_ill(&mut q, &b) {
                        return;
                    }
                    sym::fail("rejects what the reference loads")
                }
            }
        }
        if mine.is_empty() || mine.iter().any(shared_below) {
            return;
        }
        dump_both(&c, mine, refs, 0);
    }
}
/// The reference goes on to a tag that no Rust string can hold.
unsafe fn drain_ill(_q: &mut P, b: &RefDoc) -> bool {
    let (mut t, e) = (b.0.tag_directives.start, b.0.tag_directives.end);
    while t != e {
        if core::str::from_utf8(cstr((*t).prefix)).is_err() {
            return true;
        }
        t = t.add(1);
    }
    false
}
/// The reference's dumper counts references from the root node only, and crashes
/// where a node is reached twice from further down.
fn shared_below(d: &Document) -> bool {
    let n = d.nodes.len();
    let (mut refs, mut deep, mut todo) = (vec![0; n], vec![false; n], vec![1usize]);
    if n > 0 {
        refs[0] = 1;
    }
    while let Some(i) = todo.pop() {
        if i > n {
            continue;
        }
        let mut go = |k: i32| {
            let k = k as usize;
            refs[k - 1] += 1;
            deep[k - 1] |= i != 1;
            if refs[k - 1] == 1 {
                todo.push(k);
            }
        };
        match &d.nodes[i - 1].data {
            N::Sequence { items, .. } => items.iter().for_each(|k| go(*k)),
            N::Mapping { pairs, .. } => pairs.iter().for_each(|p| {
                go(p.key);
                go(p.value)
            }),
            _ => {}
        }
    }
    (0..n).any(|i| refs[i] > 1 && deep[i])
}
/// `how`: 1 the stream is opened by the first document, 2 not closed but flushed.
unsafe fn dump_both(c: &Cfg, mine: Vec<Document>, refs: Vec<RefDoc>, how: usize) {
    let mut out = vec![];
    let mut res = vec![];
    {
        let mut e = s::Emitter::new();
        setup(&mut e, c);
        e.set_output(&mut out);
        if how & 1 == 0 {
            res.push(e.open().is_ok());
        }
        for d in mine {
            if res.last() != Some(&false) {
                res.push(d.dump(&mut e).is_ok());
            }
        }
        if res.last() != Some(&false) {
            res.push(if how & 2 == 0 { e.close() } else { e.flush() }.is_ok());
        }
    }
    let mut o = E::new(c);
    let em: *mut y::yaml_emitter_t = &mut *o.e;
    let mut want = vec![];
    if how & 1 == 0 {
        want.push(y::yaml_emitter_open(em).ok);
    }
    for mut d in refs {
        if want.last() != Some(&false) {
            want.push(y::yaml_emitter_dump(em, &mut *d.0).ok);
        }
    }
    if want.last() != Some(&false) {
        want.push(if how & 2 == 0 { y::yaml_emitter_close(em).ok } else { y::yaml_emitter_flush(em).ok });
    }
    sym::check(res == want, "dumping succeeds and fails elsewhere than the reference");
    if want.last() == Some(&true) {
        sym::observe_bytes(&out);
        sym::check(out == *o.out, "the dumped text differs from the reference's");
        sym::reach(3);
    } else {
        sym::reach(4);
    }
}
/// Documents that were built, dumped by both. First argument byte: how (see `dump_both`).
pub fn h_dump_ref() {
    let mut r = read();
    let how = r.u() as usize;
    let c = r.cfg();
    let mut docs = vec![];
    while r.more() {
        let f = r.u(); // 1 start implicit, 2 end implicit, 4 version, 8 tag directive
        let ver = if f & 4 != 0 { version(Some((1 + (f as i32 >> 5 & 1), 1 + (f as i32 >> 4 & 1) + (f as i32 >> 6 & 1) * 2))) } else { None };
        let tags = if f & 8 != 0 { vec![(r.str(), r.str())] } else { vec![] };
        sym::assume(!tags.iter().any(|t: &(String, String)| t.0.contains('\0') || t.1.contains('\0')));
        let mut d = Document::new(ver, &tagdirs(&tags), f & 1 != 0, f & 2 != 0);
        graph(&mut r, &mut d);
        sym::assume(!d.nodes.iter().any(|n| n.tag.as_deref().is_some_and(|t| t.contains('\0'))));
        if shared_below(&d) {
            return;
        }
        docs.push(d);
    }
    unsafe {
        let refs = docs.iter().map(|d| RefDoc::of(d)).collect();
        dump_both(&c, docs, refs, how);
    }
}
