//! The reference emitter.
use crate::script::{Cfg, Op, Os};
use core::mem::MaybeUninit;
use unsafe_libyaml as y;

pub struct E {
    pub e: Box<y::yaml_emitter_t>,
    pub out: Box<Vec<u8>>,
}
unsafe fn handler(d: *mut core::ffi::c_void, p: *mut u8, n: u64) -> i32 {
    let v = &mut *(d as *mut Vec<u8>);
    v.extend_from_slice(core::slice::from_raw_parts(p, n as usize));
    1
}
pub fn cz(s: &str) -> Vec<u8> {
    let mut v = s.as_bytes().to_vec();
    v.push(0);
    v
}
fn ocz(s: &Os) -> Option<Vec<u8>> {
    s.as_deref().map(cz)
}
fn p(s: &Option<Vec<u8>>) -> *const u8 {
    s.as_ref().map_or(core::ptr::null(), |v| v.as_ptr())
}
pub fn enc(e: u8) -> y::yaml_encoding_t {
    match e {
        1 => y::YAML_UTF8_ENCODING,
        2 => y::YAML_UTF16LE_ENCODING,
        3 => y::YAML_UTF16BE_ENCODING,
        _ => y::YAML_ANY_ENCODING,
    }
}
pub fn sstyle(x: u8) -> y::yaml_scalar_style_t {
    match x {
        1 => y::YAML_PLAIN_SCALAR_STYLE,
        2 => y::YAML_SINGLE_QUOTED_SCALAR_STYLE,
        3 => y::YAML_DOUBLE_QUOTED_SCALAR_STYLE,
        4 => y::YAML_LITERAL_SCALAR_STYLE,
        5 => y::YAML_FOLDED_SCALAR_STYLE,
        _ => y::YAML_ANY_SCALAR_STYLE,
    }
}
impl E {
    pub unsafe fn new(c: &Cfg) -> E {
        let mut e: Box<MaybeUninit<y::yaml_emitter_t>> = Box::new(MaybeUninit::zeroed());
        assert!(y::yaml_emitter_initialize(e.as_mut_ptr()).ok);
        let mut e: Box<y::yaml_emitter_t> = Box::from_raw(Box::into_raw(e) as *mut y::yaml_emitter_t);
        let mut out = Box::new(Vec::new());
        let em: *mut y::yaml_emitter_t = &mut *e;
        if c.enc != 0 {
            y::yaml_emitter_set_encoding(em, enc(c.enc));
        }
        y::yaml_emitter_set_canonical(em, c.canonical);
        y::yaml_emitter_set_unicode(em, c.unicode);
        if c.indent != 0 {
            y::yaml_emitter_set_indent(em, c.indent);
        }
        if c.width != 0 {
            y::yaml_emitter_set_width(em, if c.width == 127 { 0 } else { c.width });
        }
        match c.brk {
            1 => y::yaml_emitter_set_break(em, y::YAML_CR_BREAK),
            2 => y::yaml_emitter_set_break(em, y::YAML_LN_BREAK),
            3 => y::yaml_emitter_set_break(em, y::YAML_CRLN_BREAK),
            _ => {}
        }
        y::yaml_emitter_set_output(em, handler, &mut *out as *mut Vec<u8> as *mut core::ffi::c_void);
        E { e, out }
    }
    pub unsafe fn apply(&mut self, o: &Op) -> Result<(), ()> {
        let em: *mut y::yaml_emitter_t = &mut *self.e;
        let mut ev = MaybeUninit::<y::yaml_event_t>::zeroed();
        let v = ev.as_mut_ptr();
        let r = match o {
            Op::Flush => return if y::yaml_emitter_flush(em).ok { Ok(()) } else { Err(()) },
            Op::Ss(e) => y::yaml_stream_start_event_initialize(v, enc(*e)),
            Op::Se => y::yaml_stream_end_event_initialize(v),
            Op::Ds { implicit, ver, tags } => {
                let mut vd = MaybeUninit::<y::yaml_version_directive_t>::zeroed();
                let mut vp = core::ptr::null_mut();
                if let Some((a, b)) = ver {
                    (*vd.as_mut_ptr()).major = *a;
                    (*vd.as_mut_ptr()).minor = *b;
                    vp = vd.as_mut_ptr();
                }
                let mut keep: Vec<(Vec<u8>, Vec<u8>)> = tags.iter().map(|(h, p)| (cz(h), cz(p))).collect();
                let mut td: Vec<y::yaml_tag_directive_t> = vec![];
                for (h, p) in &mut keep {
                    let mut t = MaybeUninit::<y::yaml_tag_directive_t>::zeroed().assume_init();
                    t.handle = h.as_mut_ptr();
                    t.prefix = p.as_mut_ptr();
                    td.push(t);
                }
                let s = if td.is_empty() { core::ptr::null_mut() } else { td.as_mut_ptr() };
                let e = if td.is_empty() { s } else { s.add(td.len()) };
                y::yaml_document_start_event_initialize(v, vp, s, e, *implicit)
            }
            Op::De(i) => y::yaml_document_end_event_initialize(v, *i),
            Op::Al(a) => y::yaml_alias_event_initialize(v, cz(a).as_ptr()),
            Op::Sc { anchor, tag, value, pi, qi, style } => {
                let (a, t) = (ocz(anchor), ocz(tag));
                y::yaml_scalar_event_initialize(v, p(&a), p(&t), value.as_ptr(), value.len() as i32, *pi, *qi, sstyle(*style))
            }
            Op::Qs { anchor, tag, implicit, style } => {
                let (a, t) = (ocz(anchor), ocz(tag));
                y::yaml_sequence_start_event_initialize(v, p(&a), p(&t), *implicit, match style {
                    1 => y::YAML_BLOCK_SEQUENCE_STYLE,
                    2 => y::YAML_FLOW_SEQUENCE_STYLE,
                    _ => y::YAML_ANY_SEQUENCE_STYLE,
                })
            }
            Op::Qe => y::yaml_sequence_end_event_initialize(v),
            Op::Ms { anchor, tag, implicit, style } => {
                let (a, t) = (ocz(anchor), ocz(tag));
                y::yaml_mapping_start_event_initialize(v, p(&a), p(&t), *implicit, match style {
                    1 => y::YAML_BLOCK_MAPPING_STYLE,
                    2 => y::YAML_FLOW_MAPPING_STYLE,
                    _ => y::YAML_ANY_MAPPING_STYLE,
                })
            }
            Op::Me => y::yaml_mapping_end_event_initialize(v),
        };
        assert!(r.ok, "the reference refuses the event");
        if y::yaml_emitter_emit(em, v).ok {
            Ok(())
        } else {
            Err(())
        }
    }
}
impl Drop for E {
    fn drop(&mut self) {
        unsafe { y::yaml_emitter_delete(&mut *self.e) }
    }
}
