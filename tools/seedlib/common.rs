// Helpers shared by the demonstrations; only the public interface is used.
#![allow(dead_code, unused_imports)]
use libyaml_safer::*;
use std::io::{BufRead, Cursor, Read, Write};

pub fn events_of<R: BufRead>(r: R) -> (Vec<Event>, Option<Error>) {
    let mut p = Parser::new();
    p.set_input(r);
    let mut v = vec![];
    for _ in 0..100_000 {
        match p.parse() {
            Ok(e) => {
                let end = matches!(e.data, EventData::StreamEnd);
                v.push(e);
                if end {
                    return (v, None);
                }
            }
            Err(e) => return (v, Some(e)),
        }
    }
    panic!("no end");
}
pub fn events(b: &[u8]) -> (Vec<Event>, Option<Error>) {
    events_of(b)
}
/// Events as text, without positions.
pub fn show(v: &[Event]) -> String {
    v.iter().map(|e| format!("{:?}", e.data)).collect::<Vec<_>>().join("\n")
}
/// Values of the scalars, or the error.
pub fn scalars(b: &[u8]) -> Result<Vec<String>, String> {
    let (v, e) = events(b);
    match e {
        Some(e) => Err(e.to_string()),
        None => Ok(v.into_iter().filter_map(|e| if let EventData::Scalar { value, .. } = e.data { Some(value) } else { None }).collect()),
    }
}
pub fn tags(b: &[u8]) -> Result<Vec<Option<String>>, String> {
    let (v, e) = events(b);
    match e {
        Some(e) => Err(e.to_string()),
        None => Ok(v.into_iter().filter_map(|e| if let EventData::Scalar { tag, .. } = e.data { Some(tag) } else { None }).collect()),
    }
}
/// A source that hands out `n` bytes at a time.
pub struct Chunked<'a>(pub &'a [u8], pub usize);
impl Read for Chunked<'_> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        let n = self.0.len().min(self.1).min(o.len());
        o[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
impl BufRead for Chunked<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        Ok(&self.0[..self.0.len().min(self.1)])
    }
    fn consume(&mut self, n: usize) {
        self.0 = &self.0[n..];
    }
}
pub fn st() -> Event {
    Event::stream_start(Encoding::Any)
}
pub fn sc(v: &str, s: ScalarStyle) -> Event {
    Event::scalar(None, None, v, true, true, s)
}
pub fn ds() -> Event {
    Event::document_start(None, &[], true)
}
pub fn de() -> Event {
    Event::document_end(true)
}
pub fn emit(cfg: impl Fn(&mut Emitter), evs: Vec<Event>) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    {
        let mut e = Emitter::new();
        e.set_output(&mut out);
        cfg(&mut e);
        for v in evs {
            e.emit(v).map_err(|e| e.to_string())?;
        }
        e.flush().map_err(|e| e.to_string())?;
    }
    Ok(out)
}
/// Emits one document holding `evs`.
pub fn emit_doc(cfg: impl Fn(&mut Emitter), evs: Vec<Event>) -> Result<Vec<u8>, String> {
    let mut v = vec![st(), ds()];
    v.extend(evs);
    v.push(de());
    v.push(Event::stream_end());
    emit(cfg, v)
}
pub fn check(what: &str, ok: bool) {
    if !ok {
        eprintln!("FAILED: {}", what);
        std::process::exit(1);
    }
}
/// What a program of the repository (its path is in the variable) writes for a file holding `input`.
pub fn program(var: &str, input: &[u8]) -> String {
    let f = std::env::temp_dir().join(format!("demo{}", std::process::id()));
    std::fs::write(&f, input).unwrap();
    let o = std::process::Command::new(std::env::var(var).unwrap()).arg(&f).output().unwrap();
    std::fs::remove_file(&f).unwrap();
    String::from_utf8_lossy(&o.stdout).into_owned()
}
pub fn parser_output(input: &[u8]) -> String {
    program("PARSER_PROGRAM", input)
}
pub fn emitter_output(input: &str) -> String {
    program("EMITTER_PROGRAM", input.as_bytes())
}
