//! Byte-level memory with concrete object ids (upper 32 address bits).
use crate::expr::*;
use crate::ll::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Obj {
    pub data: Vec<u8>,
    /// (expression, byte index); expression 0 means "concrete byte in data"
    pub sym: Vec<(E, u8)>,
    pub ro: bool,
}
impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: vec![], ro: false }
    }
}

#[derive(Clone, Default)]
pub struct Table {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub len: usize,
}
const CH: usize = 128;
impl Table {
    pub fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        self.chunks.get(i / CH).and_then(|c| c[i % CH].as_ref())
    }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        let c = Rc::make_mut(self.chunks.get_mut(i / CH)?);
        c[i % CH].as_mut().map(Rc::make_mut)
    }
    pub fn set(&mut self, i: usize, o: Option<Rc<Obj>>) {
        while self.chunks.len() <= i / CH {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[i / CH])[i % CH] = o;
        if i >= self.len {
            self.len = i + 1;
        }
    }
    pub fn push(&mut self, o: Obj) -> usize {
        let i = self.len;
        self.set(i, Some(Rc::new(o)));
        i
    }
    pub fn truncate(&mut self, n: usize) {
        while self.len > n {
            self.len -= 1;
            let i = self.len;
            Rc::make_mut(&mut self.chunks[i / CH])[i % CH] = None;
        }
    }
}

#[derive(Clone)]
pub struct Mem {
    pub heap: Table,
    pub stack: Table,
    pub globals: Table,
}

pub enum Loc {
    Heap(usize),
    Stack(usize),
    Global(usize),
    Fn(u32),
    Bad,
}
pub fn loc(addr: u64) -> (Loc, usize) {
    let id = addr >> 32;
    let off = (addr & 0xffff_ffff) as usize;
    let l = if id >= FN_BASE && id < FN_BASE + 0x1000_0000 {
        Loc::Fn((id - FN_BASE) as u32)
    } else if id >= STACK_BASE && id < FN_BASE {
        Loc::Stack((id - STACK_BASE) as usize)
    } else if id >= HEAP_BASE && id < STACK_BASE {
        Loc::Heap((id - HEAP_BASE) as usize)
    } else if id >= GLOBAL_BASE && id < HEAP_BASE {
        Loc::Global((id - GLOBAL_BASE) as usize)
    } else {
        Loc::Bad
    };
    (l, off)
}

impl Mem {
    pub fn get(&self, l: &Loc) -> Option<&Rc<Obj>> {
        match l {
            Loc::Heap(i) => self.heap.get(*i),
            Loc::Stack(i) => self.stack.get(*i),
            Loc::Global(i) => self.globals.get(*i),
            _ => None,
        }
    }
    pub fn get_mut(&mut self, l: &Loc) -> Option<&mut Obj> {
        match l {
            Loc::Heap(i) => self.heap.get_mut(*i),
            Loc::Stack(i) => self.stack.get_mut(*i),
            Loc::Global(i) => self.globals.get_mut(*i),
            _ => None,
        }
    }
    pub fn alloc_heap(&mut self, n: usize) -> u64 {
        let i = self.heap.push(Obj::new(n));
        (HEAP_BASE + i as u64) << 32
    }
    pub fn alloc_stack(&mut self, n: usize) -> u64 {
        let i = self.stack.push(Obj::new(n));
        (STACK_BASE + i as u64) << 32
    }
}

pub fn load_bits(c: &mut Ctx, o: &Obj, off: usize, n: usize) -> Val {
    let w = (n * 8) as u16;
    if o.sym.is_empty() || o.sym[off..off + n].iter().all(|s| s.0 == 0) {
        let mut v: u128 = 0;
        for k in (0..n).rev() {
            v = (v << 8) | o.data[off + k] as u128;
        }
        return Val::I(v, w);
    }
    let (e0, k0) = o.sym[off];
    if e0 != 0 && k0 == 0 && c.w(e0) == w && (0..n).all(|i| o.sym[off + i] == (e0, i as u8)) {
        return Val::S(e0);
    }
    let mut acc: Option<E> = None;
    for i in 0..n {
        let (e, k) = o.sym[off + i];
        let b = if e == 0 {
            c.konst(o.data[off + i] as u128, 8)
        } else {
            c.extract(e, k as u16 * 8, 8)
        };
        acc = Some(match acc {
            None => b,
            Some(a) => c.concat(b, a),
        });
    }
    let e = acc.unwrap();
    match c.cv(e) {
        Some(v) => Val::I(v, w),
        None => Val::S(e),
    }
}

pub fn store_bits(c: &mut Ctx, o: &mut Obj, off: usize, n: usize, v: &Val) {
    match v {
        Val::I(x, _) => {
            let b = x.to_le_bytes();
            if n <= 16 {
                o.data[off..off + n].copy_from_slice(&b[..n]);
            } else {
                panic!("wide store")
            }
            if !o.sym.is_empty() {
                for s in &mut o.sym[off..off + n] {
                    *s = (0, 0);
                }
            }
        }
        Val::S(e) => {
            let mut e = *e;
            let w = (n * 8) as u16;
            if c.w(e) != w {
                e = c.zext(e, w);
            }
            if o.sym.is_empty() {
                o.sym = vec![(0, 0); o.data.len()];
            }
            for i in 0..n {
                o.sym[off + i] = (e, i as u8);
            }
        }
        Val::Agg(_) => panic!("store_bits agg"),
    }
}
