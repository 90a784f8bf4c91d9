//! Copy-on-write object memory. Address = (object id + 1) << 32 | offset.
use crate::expr::E;
use crate::ir::{FUNC_ID, GLOB_ID};
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// Per-byte expression; 0 = concrete. Empty when wholly concrete.
    pub sym: Vec<E>,
    pub align: u32,
    pub heap: bool,
    pub ro: bool,
}
impl Obj {
    pub fn new(n: usize, heap: bool, align: u32) -> Obj {
        Obj { data: vec![0; n], sym: vec![], align, heap, ro: false }
    }
}

const CH: usize = 32;
type Chunk = [Option<Rc<Obj>>; CH];

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    free: Rc<Vec<u32>>,
    next: u32,
    pub globs: Rc<crate::expr::FxMap<u32, Rc<Obj>>>,
    pub live_heap: u64,
}

pub enum Loc {
    Obj(u32),
    Glob(u32),
    Bad,
}

pub fn loc(a: u64) -> (Loc, usize) {
    let id = a >> 32;
    let off = (a & 0xffff_ffff) as usize;
    if id == 0 || id >= FUNC_ID {
        (Loc::Bad, off)
    } else if id >= GLOB_ID {
        (Loc::Glob((id - GLOB_ID) as u32), off)
    } else {
        (Loc::Obj(id as u32 - 1), off)
    }
}

impl Mem {
    pub fn new() -> Mem {
        Mem { chunks: vec![], free: Rc::new(vec![]), next: 0, globs: Rc::new(Default::default()), live_heap: 0 }
    }
    pub fn alloc(&mut self, o: Obj) -> u32 {
        let id = if !self.free.is_empty() {
            Rc::make_mut(&mut self.free).pop().unwrap()
        } else {
            let id = self.next;
            self.next += 1;
            if id as usize / CH >= self.chunks.len() {
                self.chunks.push(Rc::new(Default::default()));
            }
            id
        };
        let c = Rc::make_mut(&mut self.chunks[id as usize / CH]);
        c[id as usize % CH] = Some(Rc::new(o));
        id
    }
    pub fn free(&mut self, id: u32) {
        let c = Rc::make_mut(&mut self.chunks[id as usize / CH]);
        c[id as usize % CH] = None;
        Rc::make_mut(&mut self.free).push(id);
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Obj> {
        match self.chunks.get(id as usize / CH) {
            Some(c) => c[id as usize % CH].as_deref(),
            None => None,
        }
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        match self.chunks.get_mut(id as usize / CH) {
            Some(c) => {
                let c = Rc::make_mut(c);
                match &mut c[id as usize % CH] {
                    Some(o) => Some(Rc::make_mut(o)),
                    None => None,
                }
            }
            None => None,
        }
    }
}
