//! Scripts of emitter events: settings, then operations, read from the expanded
//! argument (so any byte of them can be symbolic).
use crate::sym;
use libyaml_safer as s;

#[derive(Clone)]
pub struct Cfg {
    pub canonical: bool,
    pub unicode: bool,
    pub indent: i32,
    pub width: i32,
    pub brk: u8,
    pub enc: u8,
}
pub type Os = Option<String>;
#[derive(Clone)]
pub enum Op {
    Ss(u8),
    Se,
    Ds { implicit: bool, ver: Option<(i32, i32)>, tags: Vec<(String, String)> },
    De(bool),
    Al(String),
    Sc { anchor: Os, tag: Os, value: String, pi: bool, qi: bool, style: u8 },
    Qs { anchor: Os, tag: Os, implicit: bool, style: u8 },
    Qe,
    Ms { anchor: Os, tag: Os, implicit: bool, style: u8 },
    Me,
    Flush,
}
pub struct Rd {
    pub b: Vec<u8>,
    pub p: usize,
    /// repetitions are multiplied by this
    pub scale: usize,
}
impl Rd {
    pub fn more(&self) -> bool {
        self.p < self.b.len()
    }
    pub fn u(&mut self) -> u8 {
        let x = self.b[self.p];
        self.p += 1;
        x
    }
    pub fn raw(&mut self) -> Vec<u8> {
        let n = sym::concrete(self.u() as usize);
        let v = self.b[self.p..self.p + n].to_vec();
        self.p += n;
        v
    }
    pub fn str(&mut self) -> String {
        match String::from_utf8(self.raw()) {
            Ok(s) => s,
            Err(_) => {
                sym::assume(false);
                String::new()
            }
        }
    }
    pub fn cfg(&mut self) -> Cfg {
        let f = self.u();
        let far = |x: u8| match x {
            0x80 => i32::MIN,
            0x81 => 1 << 16,
            0x82 => i32::MAX,
            x => x as i8 as i32,
        };
        let indent = far(self.u());
        let width = far(self.u());
        let brk = self.u();
        let enc = self.u();
        Cfg { canonical: f & 1 != 0, unicode: f & 2 != 0, indent, width, brk, enc }
    }
    /// A value, preceded (flag 16) by a unit repeated a number of times.
    fn value(&mut self, f: u8) -> String {
        let mut p = String::new();
        if f & 16 != 0 {
            let n = (self.u() as usize | (self.u() as usize) << 8) * self.scale;
            let u = self.str();
            for _ in 0..n {
                p.push_str(&u);
            }
        }
        p.push_str(&self.str());
        p
    }
    fn opt(&mut self, b: bool) -> Os {
        if b {
            let s = self.str();
            sym::assume(!s.as_bytes().contains(&0));
            Some(s)
        } else {
            None
        }
    }
    /// S enc | E | D flags [n tags] | d flags | * str | s flags style [anchor][tag] value |
    /// [ flags style .. | ] | { flags style .. | } | F | R n16 op: the operations up to and with the
    /// next `r`, n times
    pub fn op(&mut self) -> Op {
        match self.u() {
            b'S' => Op::Ss(self.u()),
            b'E' => Op::Se,
            b'D' => {
                let f = self.u();
                let ver = if f & 2 != 0 { Some((1, if f & 32 != 0 { 3 } else if f & 8 != 0 { 2 } else { 1 })) } else { None };
                let mut tags = vec![];
                for b in [4u8, 16] {
                    if f & b != 0 {
                        let h = self.opt(true).unwrap();
                        let p = self.opt(true).unwrap();
                        tags.push((h, p));
                    }
                }
                Op::Ds { implicit: f & 1 != 0, ver, tags }
            }
            b'd' => Op::De(self.u() & 1 != 0),
            b'*' => Op::Al(self.opt(true).unwrap()),
            b's' => {
                let f = self.u();
                let style = self.u();
                let anchor = self.opt(f & 1 != 0);
                let tag = self.opt(f & 2 != 0);
                let value = self.value(f);
                Op::Sc { anchor, tag, value, pi: f & 4 != 0, qi: f & 8 != 0, style }
            }
            b'[' => {
                let f = self.u();
                let style = self.u();
                let anchor = self.opt(f & 1 != 0);
                let tag = self.opt(f & 2 != 0);
                Op::Qs { anchor, tag, implicit: f & 4 != 0, style }
            }
            b']' => Op::Qe,
            b'{' => {
                let f = self.u();
                let style = self.u();
                let anchor = self.opt(f & 1 != 0);
                let tag = self.opt(f & 2 != 0);
                Op::Ms { anchor, tag, implicit: f & 4 != 0, style }
            }
            b'}' => Op::Me,
            _ => Op::Flush,
        }
    }
    pub fn ops(&mut self) -> Vec<Op> {
        let mut v = vec![];
        while self.more() {
            if self.b[self.p] == b'R' {
                self.p += 1;
                let n = (self.u() as usize | (self.u() as usize) << 8) * self.scale;
                let mut w = vec![];
                while self.b[self.p] != b'r' {
                    w.push(self.op());
                }
                self.p += 1;
                for _ in 0..n {
                    v.extend_from_slice(&w);
                }
            } else {
                v.push(self.op());
            }
        }
        v
    }
}
pub fn read() -> Rd {
    Rd { b: sym::expand(&sym::arg()), p: 0, scale: 1 }
}

pub fn encoding(e: u8) -> s::Encoding {
    match e {
        1 => s::Encoding::Utf8,
        2 => s::Encoding::Utf16Le,
        3 => s::Encoding::Utf16Be,
        _ => s::Encoding::Any,
    }
}
pub fn brk(b: u8) -> s::Break {
    match b {
        1 => s::Break::Cr,
        2 => s::Break::Ln,
        3 => s::Break::CrLn,
        _ => s::Break::Any,
    }
}
pub fn sstyle(x: u8) -> s::ScalarStyle {
    match x {
        1 => s::ScalarStyle::Plain,
        2 => s::ScalarStyle::SingleQuoted,
        3 => s::ScalarStyle::DoubleQuoted,
        4 => s::ScalarStyle::Literal,
        5 => s::ScalarStyle::Folded,
        _ => s::ScalarStyle::Any,
    }
}
pub fn qstyle(x: u8) -> s::SequenceStyle {
    match x {
        1 => s::SequenceStyle::Block,
        2 => s::SequenceStyle::Flow,
        _ => s::SequenceStyle::Any,
    }
}
pub fn mstyle(x: u8) -> s::MappingStyle {
    match x {
        1 => s::MappingStyle::Block,
        2 => s::MappingStyle::Flow,
        _ => s::MappingStyle::Any,
    }
}
/// The directive types cannot be constructed outside the crate: take them from a parse.
pub fn directives() -> (s::VersionDirective, s::TagDirective) {
    let mut input = &b"%YAML 1.1\n%TAG !a! b\n---\n"[..];
    let mut p = s::Parser::new();
    p.set_input(&mut input);
    p.parse().unwrap();
    match p.parse().unwrap().data {
        s::EventData::DocumentStart { version_directive, mut tag_directives, .. } => (version_directive.unwrap(), tag_directives.remove(0)),
        _ => unreachable!(),
    }
}
pub fn version(v: Option<(i32, i32)>) -> Option<s::VersionDirective> {
    v.map(|(a, b)| {
        let mut d = directives().0;
        d.major = a;
        d.minor = b;
        d
    })
}
pub fn tagdirs(t: &[(String, String)]) -> Vec<s::TagDirective> {
    t.iter()
        .map(|(h, p)| {
            let mut d = directives().1;
            d.handle = h.clone();
            d.prefix = p.clone();
            d
        })
        .collect()
}
pub fn event(o: &Op) -> s::Event {
    match o {
        Op::Ss(e) => s::Event::stream_start(encoding(*e)),
        Op::Se | Op::Flush => s::Event::stream_end(),
        Op::Ds { implicit, ver, tags } => s::Event::document_start(version(*ver), &tagdirs(tags), *implicit),
        Op::De(i) => s::Event::document_end(*i),
        Op::Al(a) => s::Event::alias(a),
        Op::Sc { anchor, tag, value, pi, qi, style } => s::Event::scalar(anchor.as_deref(), tag.as_deref(), value, *pi, *qi, sstyle(*style)),
        Op::Qs { anchor, tag, implicit, style } => s::Event::sequence_start(anchor.as_deref(), tag.as_deref(), *implicit, qstyle(*style)),
        Op::Qe => s::Event::sequence_end(),
        Op::Ms { anchor, tag, implicit, style } => s::Event::mapping_start(anchor.as_deref(), tag.as_deref(), *implicit, mstyle(*style)),
        Op::Me => s::Event::mapping_end(),
    }
}
pub fn setup(e: &mut s::Emitter, c: &Cfg) {
    if c.enc != 0 {
        e.set_encoding(encoding(c.enc));
    }
    e.set_canonical(c.canonical);
    e.set_unicode(c.unicode);
    if c.indent != 0 {
        e.set_indent(c.indent);
    }
    if c.width != 0 {
        e.set_width(if c.width == 127 { 0 } else { c.width });
    }
    if c.brk != 0 {
        e.set_break(brk(c.brk));
    }
}
/// Emit all operations into a byte vector.
pub fn emit_all(c: &Cfg, ops: &[Op]) -> Result<Vec<u8>, s::Error> {
    let mut out = Vec::new();
    {
        let mut e = s::Emitter::new();
        setup(&mut e, c);
        e.set_output(&mut out);
        for o in ops {
            match o {
                Op::Flush => e.flush()?,
                o => e.emit(event(o))?,
            }
        }
    }
    Ok(out)
}
