//! Copy-on-write memory: every object owns a 4 GiB slice of the address space.
use crate::expr::E;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<E>, // empty, or one 8-bit expression (0 = concrete) per byte
    pub ro: bool,
    pub heap: bool,
}
const CH: usize = 64;
#[derive(Clone)]
struct Chunk {
    o: [Option<Rc<Obj>>; CH],
}
impl Default for Chunk {
    fn default() -> Self {
        Chunk { o: std::array::from_fn(|_| None) }
    }
}

#[derive(Clone, Default)]
pub struct Mem {
    chunks: Vec<Rc<Chunk>>,
    pub next: u32,
    pub live_heap: u64,
    empty: Option<Rc<Chunk>>,
}

pub const FN_BASE: u64 = 0x7000_0000_0000_0000;

impl Mem {
    pub fn new() -> Self {
        Mem { chunks: vec![], next: 16, live_heap: 0, empty: Some(Rc::new(Chunk::default())) }
    }
    pub fn base(id: u32) -> u64 {
        (id as u64) << 32
    }
    pub fn fresh_id(&mut self) -> u32 {
        let i = self.next;
        self.next += 1;
        i
    }
    pub fn put(&mut self, id: u32, o: Obj) {
        let c = id as usize / CH;
        while self.chunks.len() <= c {
            let e = self.empty.clone().unwrap();
            self.chunks.push(e);
        }
        Rc::make_mut(&mut self.chunks[c]).o[id as usize % CH] = Some(Rc::new(o));
    }
    pub fn alloc(&mut self, size: usize, heap: bool) -> u64 {
        let id = self.fresh_id();
        self.put(id, Obj { data: vec![0; size], sym: vec![], ro: false, heap });
        if heap {
            self.live_heap += 1;
        }
        Self::base(id)
    }
    pub fn free(&mut self, id: u32) {
        let c = id as usize / CH;
        let mut emp = false;
        if let Some(ch) = self.chunks.get_mut(c) {
            let m = Rc::make_mut(ch);
            m.o[id as usize % CH] = None;
            if m.o.iter().all(|x| x.is_none()) {
                emp = true;
            }
        }
        if emp {
            self.chunks[c] = self.empty.clone().unwrap();
        }
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Obj> {
        self.chunks.get(id as usize / CH)?.o[id as usize % CH].as_deref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let ch = self.chunks.get_mut(id as usize / CH)?;
        let ch = Rc::make_mut(ch);
        match &mut ch.o[id as usize % CH] {
            Some(o) => Some(Rc::make_mut(o)),
            None => None,
        }
    }
}
