//! Byte-addressed memory made of separate objects, copy-on-write.
use crate::expr::{Ctx, Op, E, S};
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    /// Per byte: (expression, byte of it), or (0, 0) if the byte is concrete.
    pub sym: Option<Vec<(E, u8)>>,
    pub ro: bool,
}

#[derive(Clone)]
pub enum Slot {
    None,
    Live(Rc<Obj>),
    Freed,
}

const CH: usize = 64;
type Chunk = [Slot; CH];

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    pub next: u64,
    pub free_frames: Vec<u64>,
    pub live_heap: i64,
}

#[derive(Debug, Clone)]
pub enum MemErr {
    Null(u64),
    Freed(u64),
    Bounds { id: u64, off: u64, n: u64, size: u64 },
    ReadOnly(u64),
}

impl Obj {
    pub fn zeroed(size: u64) -> Obj {
        Obj { size, data: vec![0; size as usize], sym: None, ro: false }
    }
    pub fn concrete(&self, off: u64, n: u64) -> bool {
        match &self.sym {
            None => true,
            Some(s) => s[off as usize..(off + n) as usize].iter().all(|x| x.0 == 0),
        }
    }
    pub fn load(&self, cx: &mut Ctx, off: u64, n: u64) -> S {
        let o = off as usize;
        if self.concrete(off, n) {
            let mut v = 0u128;
            for i in (0..n as usize).rev() {
                v = (v << 8) | self.data[o + i] as u128;
            }
            return S::C(v);
        }
        let s = self.sym.as_ref().unwrap();
        let e0 = s[o].0;
        if e0 != 0
            && cx.w(e0) as u64 == 8 * n
            && (0..n as usize).all(|i| s[o + i] == (e0, i as u8))
        {
            return S::X(e0);
        }
        let mut pieces: Vec<(u32, S)> = Vec::with_capacity(n as usize);
        for i in 0..n as usize {
            let (e, k) = s[o + i];
            let b = if e == 0 {
                S::C(self.data[o + i] as u128)
            } else {
                let w = cx.w(e);
                cx.extract(S::X(e), w, 8 * k as u32, 8)
            };
            pieces.push((8, b));
        }
        cx.concat_pieces(&pieces)
    }
    pub fn store(&mut self, cx: &mut Ctx, off: u64, n: u64, v: S) {
        let o = off as usize;
        match v {
            S::C(k) => {
                for i in 0..n as usize {
                    self.data[o + i] = (k >> (8 * i)) as u8;
                }
                if let Some(s) = &mut self.sym {
                    for x in &mut s[o..o + n as usize] {
                        *x = (0, 0);
                    }
                }
            }
            S::X(e) => {
                let size = self.size as usize;
                let composite = matches!(cx.nodes[e as usize].op, Op::Concat | Op::ZExt);
                let w = cx.w(e);
                let s = self.sym.get_or_insert_with(|| vec![(0, 0); size]);
                for i in 0..n as usize {
                    s[o + i] = (e, i as u8);
                }
                if composite {
                    for i in 0..n as usize {
                        let b = cx.extract(S::X(e), w, 8 * i as u32, 8);
                        match b {
                            S::C(k) => {
                                self.data[o + i] = k as u8;
                                self.sym.as_mut().unwrap()[o + i] = (0, 0);
                            }
                            S::X(be) => self.sym.as_mut().unwrap()[o + i] = (be, 0),
                        }
                    }
                }
            }
        }
    }
}

impl Mem {
    pub fn new(first: u64) -> Mem {
        Mem { chunks: vec![], next: first, free_frames: vec![], live_heap: 0 }
    }
    pub fn slot(&self, id: u64) -> &Slot {
        let c = id as usize / CH;
        if c >= self.chunks.len() {
            return &Slot::None;
        }
        &self.chunks[c][id as usize % CH]
    }
    pub fn slot_mut(&mut self, id: u64) -> &mut Slot {
        let c = id as usize / CH;
        while c >= self.chunks.len() {
            self.chunks.push(Rc::new([const { Slot::None }; CH]));
        }
        &mut Rc::make_mut(&mut self.chunks[c])[id as usize % CH]
    }
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let id = self.next;
        self.next += 1;
        *self.slot_mut(id) = Slot::Live(Rc::new(o));
        id
    }
    pub fn alloc_frame(&mut self, size: u64) -> u64 {
        if let Some(id) = self.free_frames.pop() {
            *self.slot_mut(id) = Slot::Live(Rc::new(Obj::zeroed(size)));
            return id;
        }
        self.alloc(Obj::zeroed(size))
    }
    pub fn free_frame(&mut self, id: u64) {
        *self.slot_mut(id) = Slot::Freed;
        self.free_frames.push(id);
    }
}
