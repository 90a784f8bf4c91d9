//! The crate under test, reduced to the same byte encoding as the oracle.
use crate::oracle::{put_opt, put_str, Ev, Marks};
use libyaml_safer as s;
use s::{EventData as D, Mark};

pub fn marks(a: Mark, b: Mark) -> Marks {
    [a.index, a.line, a.column, b.index, b.line, b.column]
}
pub fn enc(e: s::Encoding) -> u8 {
    e as u8
}
pub fn sstyle(x: s::ScalarStyle) -> u8 {
    match x {
        s::ScalarStyle::Any => 0,
        s::ScalarStyle::Plain => 1,
        s::ScalarStyle::SingleQuoted => 2,
        s::ScalarStyle::DoubleQuoted => 3,
        s::ScalarStyle::Literal => 4,
        s::ScalarStyle::Folded => 5,
        _ => 99,
    }
}
pub fn qstyle(x: s::SequenceStyle) -> u8 {
    match x {
        s::SequenceStyle::Any => 0,
        s::SequenceStyle::Block => 1,
        s::SequenceStyle::Flow => 2,
        _ => 99,
    }
}
pub fn mstyle(x: s::MappingStyle) -> u8 {
    match x {
        s::MappingStyle::Any => 0,
        s::MappingStyle::Block => 1,
        s::MappingStyle::Flow => 2,
        _ => 99,
    }
}
fn ob(x: &Option<String>) -> Option<&[u8]> {
    x.as_deref().map(|s| s.as_bytes())
}
pub fn event(e: &s::Event) -> Ev {
    let mut o = Vec::new();
    let kind = match &e.data {
        D::StreamStart { encoding } => {
            o.push(enc(*encoding));
            1
        }
        D::StreamEnd => 2,
        D::DocumentStart { version_directive, tag_directives, implicit } => {
            match version_directive {
                None => o.push(0),
                Some(v) => {
                    o.push(1);
                    o.extend_from_slice(&v.major.to_le_bytes());
                    o.extend_from_slice(&v.minor.to_le_bytes());
                }
            }
            for t in tag_directives {
                o.push(1);
                put_str(&mut o, t.handle.as_bytes());
                put_str(&mut o, t.prefix.as_bytes());
            }
            o.push(0);
            o.push(*implicit as u8);
            3
        }
        D::DocumentEnd { implicit } => {
            o.push(*implicit as u8);
            4
        }
        D::Alias { anchor } => {
            put_opt(&mut o, Some(anchor.as_bytes()));
            5
        }
        D::Scalar { anchor, tag, value, plain_implicit, quoted_implicit, style } => {
            put_opt(&mut o, ob(anchor));
            put_opt(&mut o, ob(tag));
            put_str(&mut o, value.as_bytes());
            o.push(*plain_implicit as u8);
            o.push(*quoted_implicit as u8);
            o.push(sstyle(*style));
            6
        }
        D::SequenceStart { anchor, tag, implicit, style } => {
            put_opt(&mut o, ob(anchor));
            put_opt(&mut o, ob(tag));
            o.push(*implicit as u8);
            o.push(qstyle(*style));
            7
        }
        D::SequenceEnd => 8,
        D::MappingStart { anchor, tag, implicit, style } => {
            put_opt(&mut o, ob(anchor));
            put_opt(&mut o, ob(tag));
            o.push(*implicit as u8);
            o.push(mstyle(*style));
            9
        }
        D::MappingEnd => 10,
    };
    Ev { kind, enc: o, marks: marks(e.start_mark, e.end_mark) }
}

pub fn token(t: &s::Token) -> Ev {
    use s::TokenData as T;
    let mut o = Vec::new();
    let kind = match &t.data {
        T::StreamStart { encoding } => {
            o.push(enc(*encoding));
            1
        }
        T::StreamEnd => 2,
        T::VersionDirective { major, minor } => {
            o.extend_from_slice(&major.to_le_bytes());
            o.extend_from_slice(&minor.to_le_bytes());
            3
        }
        T::TagDirective { handle, prefix } => {
            put_opt(&mut o, Some(handle.as_bytes()));
            put_opt(&mut o, Some(prefix.as_bytes()));
            4
        }
        T::DocumentStart => 5,
        T::DocumentEnd => 6,
        T::BlockSequenceStart => 7,
        T::BlockMappingStart => 8,
        T::BlockEnd => 9,
        T::FlowSequenceStart => 10,
        T::FlowSequenceEnd => 11,
        T::FlowMappingStart => 12,
        T::FlowMappingEnd => 13,
        T::BlockEntry => 14,
        T::FlowEntry => 15,
        T::Key => 16,
        T::Value => 17,
        T::Alias { value } => {
            put_opt(&mut o, Some(value.as_bytes()));
            18
        }
        T::Anchor { value } => {
            put_opt(&mut o, Some(value.as_bytes()));
            19
        }
        T::Tag { handle, suffix } => {
            put_opt(&mut o, Some(handle.as_bytes()));
            put_opt(&mut o, Some(suffix.as_bytes()));
            20
        }
        T::Scalar { value, style } => {
            put_str(&mut o, value.as_bytes());
            o.push(sstyle(*style));
            21
        }
    };
    Ev { kind, enc: o, marks: marks(t.start_mark, t.end_mark) }
}
