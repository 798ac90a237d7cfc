//! Object-based memory. Every object has its own 4 GiB address window, so an address identifies its object
//! and windows are never reused: an access to anything but live bytes of one object is always noticed.

use crate::expr::*;
use crate::ir::addr_of;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Stack,
    Heap,
    Global,
    Const,
    Func,
    Ext,
}

/// Per byte: 0 = concrete, 1 = uninitialised, anything else = an 8-bit expression.
pub const CONC: E = 0;
pub const UNINIT: E = 1;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub base: u64,
    pub align: u64,
    pub kind: Kind,
    pub bytes: Vec<u8>,
    pub meta: Option<Vec<E>>,
}

#[derive(Clone, Default)]
pub struct Chunk {
    pub o: Vec<Option<Rc<Obj>>>,
}

const SH: u64 = 5;
const N: u64 = 1 << SH;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Option<Rc<Chunk>>>,
    pub next: u64,
    pub heap_blocks: u64,
    pub heap_bytes: u64,
    pub allocs: u64,
}

impl Mem {
    pub fn new(first: u64) -> Mem {
        Mem { chunks: Vec::new(), next: first, heap_blocks: 0, heap_bytes: 0, allocs: 0 }
    }
    #[inline]
    pub fn get(&self, id: u64) -> Option<&Obj> {
        let c = self.chunks.get((id >> SH) as usize)?.as_ref()?;
        c.o[(id & (N - 1)) as usize].as_deref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let c = self.chunks.get_mut((id >> SH) as usize)?.as_mut()?;
        let c = Rc::make_mut(c);
        c.o[(id & (N - 1)) as usize].as_mut().map(Rc::make_mut)
    }
    pub fn put(&mut self, id: u64, o: Obj) {
        let ci = (id >> SH) as usize;
        if self.chunks.len() <= ci {
            self.chunks.resize(ci + 1, None);
        }
        let c = self.chunks[ci].get_or_insert_with(|| Rc::new(Chunk { o: vec![None; N as usize] }));
        Rc::make_mut(c).o[(id & (N - 1)) as usize] = Some(Rc::new(o));
    }
    pub fn kill(&mut self, id: u64) {
        if let Some(Some(c)) = self.chunks.get_mut((id >> SH) as usize) {
            let c = Rc::make_mut(c);
            c.o[(id & (N - 1)) as usize] = None;
        }
    }
    pub fn new_obj(&mut self, size: u64, align: u64, kind: Kind) -> u64 {
        let id = self.next;
        self.next += 1;
        let base = addr_of(id, align);
        let n = size as usize;
        self.put(id, Obj { size, base, align, kind, bytes: vec![0; n], meta: Some(vec![UNINIT; n]) });
        base
    }
}

impl Obj {
    #[inline]
    pub fn write_conc(&mut self, off: usize, n: usize, v: u64) {
        let b = v.to_le_bytes();
        self.bytes[off..off + n].copy_from_slice(&b[..n]);
        if let Some(m) = &mut self.meta {
            m[off..off + n].fill(CONC);
        }
    }
    pub fn write_uninit(&mut self, off: usize, n: usize) {
        let len = self.bytes.len();
        let m = self.meta.get_or_insert_with(|| vec![CONC; len]);
        m[off..off + n].fill(UNINIT);
    }
    pub fn write_byte(&mut self, off: usize, e: E) {
        match as_const(e) {
            Some(v) => {
                self.bytes[off] = v as u8;
                if let Some(m) = &mut self.meta {
                    m[off] = CONC;
                }
            }
            None => {
                let len = self.bytes.len();
                let m = self.meta.get_or_insert_with(|| vec![CONC; len]);
                m[off] = e;
            }
        }
    }
    #[inline]
    pub fn all_conc(&self, off: usize, n: usize) -> bool {
        match &self.meta {
            None => true,
            Some(m) => m[off..off + n].iter().all(|&e| e == CONC),
        }
    }
    #[inline]
    pub fn read_conc(&self, off: usize, n: usize) -> u64 {
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&self.bytes[off..off + n]);
        u64::from_le_bytes(b)
    }
    pub fn meta_at(&self, i: usize) -> E {
        match &self.meta {
            None => CONC,
            Some(m) => m[i],
        }
    }
}
