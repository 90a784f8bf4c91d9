//! The reference implementation: unsafe-libyaml (a mechanical translation of
//! libyaml 0.2.5), driven through its own API and reduced to a byte encoding.
use core::mem::MaybeUninit;
use unsafe_libyaml as y;

pub struct P {
    pub p: Box<y::yaml_parser_t>,
    /// A tag that is no UTF-8 was returned: percent escapes can spell one, and a
    /// Rust string cannot hold it.
    pub ill: bool,
}
impl P {
    pub unsafe fn new(input: &[u8]) -> P {
        let mut p: Box<MaybeUninit<y::yaml_parser_t>> = Box::new(MaybeUninit::zeroed());
        assert!(y::yaml_parser_initialize(p.as_mut_ptr()).ok);
        let mut p: Box<y::yaml_parser_t> = Box::from_raw(Box::into_raw(p) as *mut y::yaml_parser_t);
        y::yaml_parser_set_input_string(&mut *p, input.as_ptr(), input.len() as u64);
        P { p, ill: false }
    }
    /// Fed by a handler.
    pub unsafe fn reader(f: y::yaml_read_handler_t, data: *mut core::ffi::c_void) -> P {
        let mut p: Box<MaybeUninit<y::yaml_parser_t>> = Box::new(MaybeUninit::zeroed());
        assert!(y::yaml_parser_initialize(p.as_mut_ptr()).ok);
        let mut p: Box<y::yaml_parser_t> = Box::from_raw(Box::into_raw(p) as *mut y::yaml_parser_t);
        y::yaml_parser_set_input(&mut *p, f, data);
        P { p, ill: false }
    }
}
impl Drop for P {
    fn drop(&mut self) {
        unsafe { y::yaml_parser_delete(&mut *self.p) }
    }
}
pub fn put_str(o: &mut Vec<u8>, s: &[u8]) {
    o.extend_from_slice(&(s.len() as u32).to_le_bytes());
    o.extend_from_slice(s);
}
pub fn put_opt(o: &mut Vec<u8>, s: Option<&[u8]>) {
    match s {
        None => o.push(0),
        Some(s) => {
            o.push(1);
            put_str(o, s);
        }
    }
}
unsafe fn cs<'a>(p: *const u8) -> Option<&'a [u8]> {
    if p.is_null() {
        None
    } else {
        let mut n = 0;
        while *p.add(n) != 0 {
            n += 1;
        }
        Some(core::slice::from_raw_parts(p, n))
    }
}
fn note(ill: &mut bool, s: Option<&[u8]>) {
    if let Some(s) = s {
        let mut or = 0;
        for b in s {
            or |= *b;
        }
        if or & 0x80 != 0 && core::str::from_utf8(s).is_err() {
            *ill = true;
        }
    }
}
/// (start index, line, column, end index, line, column)
pub type Marks = [u64; 6];

unsafe fn marks(s: &y::yaml_mark_t, e: &y::yaml_mark_t) -> Marks {
    [s.index, s.line, s.column, e.index, e.line, e.column]
}

pub struct Ev {
    pub kind: u8,
    pub enc: Vec<u8>,
    pub marks: Marks,
}
pub unsafe fn next_event(p: &mut P) -> Result<Ev, ()> {
    let mut ev = MaybeUninit::<y::yaml_event_t>::zeroed();
    if y::yaml_parser_parse(&mut *p.p, ev.as_mut_ptr()).fail {
        return Err(());
    }
    let ev = ev.as_mut_ptr();
    let e = &*ev;
    let mut o = Vec::new();
    let kind;
    match e.type_ {
        y::YAML_STREAM_START_EVENT => {
            kind = 1;
            o.push(e.data.stream_start.encoding as u8);
        }
        y::YAML_STREAM_END_EVENT => kind = 2,
        y::YAML_DOCUMENT_START_EVENT => {
            kind = 3;
            let d = &e.data.document_start;
            if d.version_directive.is_null() {
                o.push(0);
            } else {
                o.push(1);
                o.extend_from_slice(&(*d.version_directive).major.to_le_bytes());
                o.extend_from_slice(&(*d.version_directive).minor.to_le_bytes());
            }
            let mut t = d.tag_directives.start;
            while t != d.tag_directives.end {
                o.push(1);
                put_str(&mut o, cs((*t).handle).unwrap());
                note(&mut p.ill, cs((*t).prefix));
                put_str(&mut o, cs((*t).prefix).unwrap());
                t = t.add(1);
            }
            o.push(0);
            o.push(d.implicit as u8);
        }
        y::YAML_DOCUMENT_END_EVENT => {
            kind = 4;
            o.push(e.data.document_end.implicit as u8);
        }
        y::YAML_ALIAS_EVENT => {
            kind = 5;
            put_opt(&mut o, cs(e.data.alias.anchor));
        }
        y::YAML_SCALAR_EVENT => {
            kind = 6;
            let d = &e.data.scalar;
            put_opt(&mut o, cs(d.anchor));
            note(&mut p.ill, cs(d.tag));
            put_opt(&mut o, cs(d.tag));
            put_str(&mut o, core::slice::from_raw_parts(d.value, d.length as usize));
            o.push(d.plain_implicit as u8);
            o.push(d.quoted_implicit as u8);
            o.push(d.style as u8);
        }
        y::YAML_SEQUENCE_START_EVENT => {
            kind = 7;
            let d = &e.data.sequence_start;
            put_opt(&mut o, cs(d.anchor));
            note(&mut p.ill, cs(d.tag));
            put_opt(&mut o, cs(d.tag));
            o.push(d.implicit as u8);
            o.push(d.style as u8);
        }
        y::YAML_SEQUENCE_END_EVENT => kind = 8,
        y::YAML_MAPPING_START_EVENT => {
            kind = 9;
            let d = &e.data.mapping_start;
            put_opt(&mut o, cs(d.anchor));
            note(&mut p.ill, cs(d.tag));
            put_opt(&mut o, cs(d.tag));
            o.push(d.implicit as u8);
            o.push(d.style as u8);
        }
        y::YAML_MAPPING_END_EVENT => kind = 10,
        _ => kind = 0,
    }
    let m = marks(&e.start_mark, &e.end_mark);
    y::yaml_event_delete(ev);
    Ok(Ev { kind, enc: o, marks: m })
}
pub fn reader_error(p: &P) -> bool {
    p.p.error == y::YAML_READER_ERROR
}
pub unsafe fn next_token(p: &mut P) -> Result<Ev, ()> {
    let mut t = MaybeUninit::<y::yaml_token_t>::zeroed();
    if y::yaml_parser_scan(&mut *p.p, t.as_mut_ptr()).fail {
        return Err(());
    }
    let t = t.as_mut_ptr();
    let e = &*t;
    let mut o = Vec::new();
    let kind;
    match e.type_ {
        y::YAML_STREAM_START_TOKEN => {
            kind = 1;
            o.push(e.data.stream_start.encoding as u8);
        }
        y::YAML_STREAM_END_TOKEN => kind = 2,
        y::YAML_VERSION_DIRECTIVE_TOKEN => {
            kind = 3;
            o.extend_from_slice(&e.data.version_directive.major.to_le_bytes());
            o.extend_from_slice(&e.data.version_directive.minor.to_le_bytes());
        }
        y::YAML_TAG_DIRECTIVE_TOKEN => {
            kind = 4;
            put_opt(&mut o, cs(e.data.tag_directive.handle));
            note(&mut p.ill, cs(e.data.tag_directive.prefix));
            put_opt(&mut o, cs(e.data.tag_directive.prefix));
        }
        y::YAML_DOCUMENT_START_TOKEN => kind = 5,
        y::YAML_DOCUMENT_END_TOKEN => kind = 6,
        y::YAML_BLOCK_SEQUENCE_START_TOKEN => kind = 7,
        y::YAML_BLOCK_MAPPING_START_TOKEN => kind = 8,
        y::YAML_BLOCK_END_TOKEN => kind = 9,
        y::YAML_FLOW_SEQUENCE_START_TOKEN => kind = 10,
        y::YAML_FLOW_SEQUENCE_END_TOKEN => kind = 11,
        y::YAML_FLOW_MAPPING_START_TOKEN => kind = 12,
        y::YAML_FLOW_MAPPING_END_TOKEN => kind = 13,
        y::YAML_BLOCK_ENTRY_TOKEN => kind = 14,
        y::YAML_FLOW_ENTRY_TOKEN => kind = 15,
        y::YAML_KEY_TOKEN => kind = 16,
        y::YAML_VALUE_TOKEN => kind = 17,
        y::YAML_ALIAS_TOKEN => {
            kind = 18;
            put_opt(&mut o, cs(e.data.alias.value));
        }
        y::YAML_ANCHOR_TOKEN => {
            kind = 19;
            put_opt(&mut o, cs(e.data.anchor.value));
        }
        y::YAML_TAG_TOKEN => {
            kind = 20;
            put_opt(&mut o, cs(e.data.tag.handle));
            note(&mut p.ill, cs(e.data.tag.suffix));
            put_opt(&mut o, cs(e.data.tag.suffix));
        }
        y::YAML_SCALAR_TOKEN => {
            kind = 21;
            let d = &e.data.scalar;
            put_str(&mut o, core::slice::from_raw_parts(d.value, d.length as usize));
            o.push(d.style as u8);
        }
        _ => kind = 0,
    }
    let m = marks(&e.start_mark, &e.end_mark);
    y::yaml_token_delete(t);
    Ok(Ev { kind, enc: o, marks: m })
}
