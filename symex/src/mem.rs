//! Copy-on-write object memory. Address = (object id << 32) + BASE + offset.
use crate::term::T;
use std::rc::Rc;

pub const BASE: u64 = 0x1000_0000;
pub const HEAP0: u32 = 1 << 20;
pub const STACK0: u32 = 1 << 27;
pub const FN_BASE: u64 = 0x4000_0000_0000_0000;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// per-byte 8-bit term, 0 = concrete (term 0 is the constant `false`, never 8 bits wide)
    pub sym: Option<Vec<T>>,
    pub ro: bool,
}

const CH: usize = 32;
#[derive(Clone)]
struct Chunk { o: [Option<Rc<Obj>>; CH] }

#[derive(Clone, Default)]
pub struct Tree { top: Vec<Option<Rc<Chunk>>> }

impl Tree {
    pub fn get(&self, i: u32) -> Option<&Rc<Obj>> {
        let i = i as usize;
        self.top.get(i / CH)?.as_ref()?.o[i % CH].as_ref()
    }
    pub fn slot(&mut self, i: u32) -> &mut Option<Rc<Obj>> {
        let i = i as usize;
        while self.top.len() <= i / CH { self.top.push(None) }
        let c = self.top[i / CH].get_or_insert_with(|| Rc::new(Chunk { o: Default::default() }));
        &mut Rc::make_mut(c).o[i % CH]
    }
}

#[derive(Clone, Default)]
pub struct Mem {
    pub globals: Tree,
    pub heap: Tree,
    pub stack: Tree,
    pub heap_next: u32,
    pub heap_free: Vec<u32>,
    pub stack_next: u32,
}

pub fn addr_of(id: u32) -> u64 { ((id as u64) << 32) + BASE }
pub fn split(a: u64) -> (u32, u64) { ((a >> 32) as u32, (a & 0xffff_ffff).wrapping_sub(BASE)) }

impl Mem {
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        if id >= STACK0 { self.stack.get(id - STACK0) } else if id >= HEAP0 { self.heap.get(id - HEAP0) } else { self.globals.get(id) }
    }
    pub fn slot(&mut self, id: u32) -> &mut Option<Rc<Obj>> {
        if id >= STACK0 { self.stack.slot(id - STACK0) } else if id >= HEAP0 { self.heap.slot(id - HEAP0) } else { self.globals.slot(id) }
    }
    pub fn alloc_heap(&mut self, size: u64) -> u64 {
        let id = self.heap_free.pop().unwrap_or_else(|| { let i = self.heap_next; self.heap_next += 1; i });
        *self.heap.slot(id) = Some(Rc::new(Obj { data: vec![0xAA; size as usize], sym: None, ro: false }));
        addr_of(id + HEAP0)
    }
    pub fn alloc_stack(&mut self, size: u64) -> u64 {
        let id = self.stack_next;
        self.stack_next += 1;
        *self.stack.slot(id) = Some(Rc::new(Obj { data: vec![0xAA; size as usize], sym: None, ro: false }));
        addr_of(id + STACK0)
    }
    pub fn pop_stack(&mut self, to: u32) {
        while self.stack_next > to { self.stack_next -= 1; *self.stack.slot(self.stack_next) = None; }
    }
}
