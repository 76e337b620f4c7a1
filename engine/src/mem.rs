//! Copy-on-write object memory. Address = object id << 32 | offset.
use crate::expr::E;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>,
    pub ro: bool,
}

impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: None, ro: false }
    }
    pub fn put_sym(&mut self, i: usize, e: E) {
        let n = self.data.len();
        let s = self.sym.get_or_insert_with(|| vec![0; n]);
        s[i] = e;
    }
    pub fn clear_sym(&mut self, i: usize, n: usize) {
        if let Some(s) = &mut self.sym {
            for x in &mut s[i..i + n] {
                *x = 0;
            }
        }
    }
}

const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Option<Rc<Chunk>>>,
    free: Vec<u32>,
    next: u32,
}

impl Mem {
    pub fn new(first: u32) -> Mem {
        Mem { chunks: vec![], free: vec![], next: first }
    }
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH)?.as_ref()?[id as usize % CH].as_ref()
    }
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?.as_mut()?;
        let c = Rc::make_mut(c);
        let o = c[id as usize % CH].as_mut()?;
        Some(Rc::make_mut(o))
    }
    pub fn insert(&mut self, id: u32, o: Rc<Obj>) {
        let ci = id as usize / CH;
        if self.chunks.len() <= ci {
            self.chunks.resize(ci + 1, None);
        }
        let c = self.chunks[ci].get_or_insert_with(|| Rc::new(vec![None; CH]));
        Rc::make_mut(c)[id as usize % CH] = Some(o);
    }
    pub fn alloc(&mut self, n: usize) -> u32 {
        let id = match self.free.pop() {
            Some(i) => i,
            None => {
                self.next += 1;
                self.next - 1
            }
        };
        self.insert(id, Rc::new(Obj::new(n)));
        id
    }
    pub fn release(&mut self, id: u32) -> bool {
        let ok = self.get(id).is_some();
        if ok {
            let c = self.chunks[id as usize / CH].as_mut().unwrap();
            Rc::make_mut(c)[id as usize % CH] = None;
            self.free.push(id);
        }
        ok
    }
}
