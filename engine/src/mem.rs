//! Copy-on-write object memory. Addresses are concrete: (region+index) << 32 | offset.
use crate::expr::E;
use crate::ir::GLOB_HI;
use std::rc::Rc;

pub const HEAP_HI: u64 = 0x10_0000;
pub const STACK_HI: u64 = 0x100_0000;

/// bytes plus (optional) symbolic overlay; overlay entry 0 = concrete
#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<Vec<E>>>,
    pub ro: bool,
}
impl Obj {
    pub fn zeroed(n: usize) -> Self {
        Obj { data: vec![0; n], sym: None, ro: false }
    }
    pub fn get(&self, i: usize) -> (u8, E) {
        (self.data[i], self.sym.as_ref().map(|s| s[i]).unwrap_or(0))
    }
    pub fn set(&mut self, i: usize, b: u8, e: E) {
        self.data[i] = b;
        if e != 0 {
            let n = self.data.len();
            self.sym.get_or_insert_with(|| Box::new(vec![0; n]))[i] = e;
        } else if let Some(s) = &mut self.sym {
            s[i] = 0;
        }
    }
    pub fn push(&mut self, b: u8, e: E) {
        self.data.push(b);
        if let Some(s) = &mut self.sym {
            s.push(e)
        } else if e != 0 {
            let n = self.data.len();
            let mut v = vec![0; n];
            v[n - 1] = e;
            self.sym = Some(Box::new(v));
        }
    }
    pub fn resize(&mut self, n: usize) {
        self.data.resize(n, 0);
        if let Some(s) = &mut self.sym {
            s.resize(n, 0)
        }
    }
}

const PG: usize = 64;
#[derive(Clone)]
struct Page {
    o: Vec<Option<Rc<Obj>>>,
    used: u64,
}
impl Page {
    fn new() -> Self {
        Page { o: vec![None; PG], used: 0 }
    }
}
#[derive(Clone)]
struct Region {
    pages: Vec<Rc<Page>>,
    hint: usize,
}
impl Region {
    fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        self.pages.get(i / PG)?.o[i % PG].as_ref()
    }
    fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        let p = self.pages.get_mut(i / PG)?;
        let o = Rc::make_mut(p).o[i % PG].as_mut()?;
        Some(Rc::make_mut(o))
    }
    fn put(&mut self, i: usize, o: Option<Rc<Obj>>) {
        while self.pages.len() <= i / PG {
            self.pages.push(Rc::new(Page::new()));
        }
        let p = Rc::make_mut(&mut self.pages[i / PG]);
        if o.is_some() {
            p.used |= 1 << (i % PG)
        } else {
            p.used &= !(1 << (i % PG))
        }
        p.o[i % PG] = o;
    }
    fn alloc(&mut self, o: Obj) -> usize {
        while self.hint < self.pages.len() && self.pages[self.hint].used == u64::MAX {
            self.hint += 1;
        }
        if self.hint == self.pages.len() {
            self.pages.push(Rc::new(Page::new()));
        }
        let k = (!self.pages[self.hint].used).trailing_zeros() as usize;
        let i = self.hint * PG + k;
        self.put(i, Some(Rc::new(o)));
        i
    }
}

#[derive(Clone)]
pub struct Mem {
    glob: Region,
    heap: Region,
    stack: Region,
    pub sp: usize,
}

impl Mem {
    pub fn new() -> Self {
        let r = || Region { pages: vec![], hint: 0 };
        Mem { glob: r(), heap: r(), stack: r(), sp: 0 }
    }
    pub fn obj(&self, a: u64) -> Option<&Rc<Obj>> {
        let hi = a >> 32;
        if hi >= STACK_HI {
            self.stack.get((hi - STACK_HI) as usize)
        } else if hi >= HEAP_HI {
            self.heap.get((hi - HEAP_HI) as usize)
        } else if hi >= GLOB_HI {
            self.glob.get((hi - GLOB_HI) as usize)
        } else {
            None
        }
    }
    pub fn obj_mut(&mut self, a: u64) -> Option<&mut Obj> {
        let hi = a >> 32;
        if hi >= STACK_HI {
            self.stack.get_mut((hi - STACK_HI) as usize)
        } else if hi >= HEAP_HI {
            self.heap.get_mut((hi - HEAP_HI) as usize)
        } else if hi >= GLOB_HI {
            self.glob.get_mut((hi - GLOB_HI) as usize)
        } else {
            None
        }
    }
    pub fn put_glob(&mut self, i: usize, o: Obj) {
        self.glob.put(i, Some(Rc::new(o)));
    }
    pub fn malloc(&mut self, n: usize) -> u64 {
        let i = self.heap.alloc(Obj::zeroed(n));
        (HEAP_HI + i as u64) << 32
    }
    pub fn free(&mut self, a: u64) -> bool {
        let hi = a >> 32;
        if a & 0xffff_ffff != 0 || !(HEAP_HI..STACK_HI).contains(&hi) {
            return false;
        }
        let i = (hi - HEAP_HI) as usize;
        if self.heap.get(i).is_none() {
            return false;
        }
        self.heap.put(i, None);
        self.heap.hint = self.heap.hint.min(i / PG);
        true
    }
    pub fn alloca(&mut self, n: usize) -> u64 {
        let i = self.sp;
        self.sp += 1;
        self.stack.put(i, Some(Rc::new(Obj::zeroed(n))));
        (STACK_HI + i as u64) << 32
    }
    pub fn pop_to(&mut self, sp: usize) {
        for i in sp..self.sp {
            self.stack.put(i, None);
        }
        self.sp = sp;
    }
    pub fn is_glob(a: u64) -> Option<u32> {
        let hi = a >> 32;
        if (GLOB_HI..HEAP_HI).contains(&hi) {
            Some((hi - GLOB_HI) as u32)
        } else {
            None
        }
    }
}
