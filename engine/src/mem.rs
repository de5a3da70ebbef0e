//! Byte-addressed objects with concrete base addresses; bytes are concrete or symbolic.
use crate::expr::*;
use rustc_hash::FxHashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Heap, Stack, Global }
#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Vec<E>, pub wd: Vec<u8>, pub kind: Kind }
impl Obj {
    pub fn new(n: usize, kind: Kind) -> Self { Obj { data: vec![0; n], sym: vec![], wd: vec![], kind } }
    pub fn new_bytes(data: Vec<u8>, kind: Kind) -> Self { Obj { data, sym: vec![], wd: vec![], kind } }
    pub fn len(&self) -> usize { self.data.len() }
    #[inline] pub fn sym_at(&self, i: usize) -> E { if self.sym.is_empty() { 0 } else { self.sym[i] } }
    pub fn set_sym(&mut self, i: usize, e: E) { if self.sym.is_empty() { self.sym = vec![0; self.data.len()]; } self.sym[i] = e; self.data[i] = 0; }
    #[inline] pub fn clear_sym(&mut self, i: usize, n: usize) { if !self.sym.is_empty() { for x in &mut self.sym[i..i + n] { *x = 0; } } }
    #[inline] pub fn all_conc(&self, i: usize, n: usize) -> bool { self.sym.is_empty() || self.sym[i..i + n].iter().all(|&e| e == 0) }
    pub fn mark(&mut self, i: usize, n: usize) { if self.wd.is_empty() { self.wd = vec![0; self.data.len()]; } for x in &mut self.wd[i..i + n] { *x = n.min(16) as u8; } }
    pub fn byte(&self, ar: &mut Arena, i: usize) -> E { let e = self.sym_at(i); if e != 0 { e } else { ar.konst(8, self.data[i] as u128) } }
    pub fn put_byte(&mut self, ar: &Arena, i: usize, e: E) {
        if let Some(k) = ar.as_const(e) { self.data[i] = k as u8; if !self.sym.is_empty() { self.sym[i] = 0; } } else { self.set_sym(i, e); }
    }
}

const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;
#[derive(Clone)]
pub struct Mem { pub globs: Rc<FxHashMap<u32, Rc<Obj>>>, pub heap: Vec<Rc<Chunk>>, pub next: u32, pub live: usize }
impl Mem {
    pub fn new() -> Self { Mem { globs: Default::default(), heap: vec![], next: 0, live: 0 } }
    pub fn alloc(&mut self, o: Obj) -> u64 {
        let id = self.next as usize;
        self.next += 1;
        while self.heap.len() <= id / CH { self.heap.push(Rc::new(vec![None; CH])); }
        Rc::make_mut(&mut self.heap[id / CH])[id % CH] = Some(Rc::new(o));
        self.live += 1;
        (crate::ir::HEAP_BASE + id as u64) << 32
    }
    pub fn free(&mut self, hid: u32) -> bool {
        let id = hid as usize;
        if id / CH >= self.heap.len() { return false; }
        let r = Rc::make_mut(&mut self.heap[id / CH])[id % CH].take().is_some();
        if r { self.live -= 1; }
        r
    }
    pub fn get(&self, hid: u32) -> Option<&Rc<Obj>> { let id = hid as usize; self.heap.get(id / CH)?[id % CH].as_ref() }
    pub fn get_mut(&mut self, hid: u32) -> Option<&mut Obj> { let id = hid as usize; let c = self.heap.get_mut(id / CH)?; Rc::make_mut(c)[id % CH].as_mut().map(Rc::make_mut) }
}
