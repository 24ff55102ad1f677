//! Copy-on-write object memory.
use crate::expr::E;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Global,
    Heap,
    Stack,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<E>, // empty when fully concrete; 0 = concrete byte
    pub kind: Kind,
    pub konst: bool,
    /// allocated while secrets are watched
    pub watched: bool,
}

impl Obj {
    pub fn new(size: u64, kind: Kind) -> Obj {
        Obj {
            data: vec![0; size as usize],
            sym: vec![],
            kind,
            konst: false,
            watched: false,
        }
    }
    pub fn size(&self) -> u64 {
        self.data.len() as u64
    }
    pub fn symat(&self, i: usize) -> E {
        if self.sym.is_empty() {
            0
        } else {
            self.sym[i]
        }
    }
    pub fn set_c(&mut self, i: usize, b: u8) {
        self.data[i] = b;
        if !self.sym.is_empty() {
            self.sym[i] = 0;
        }
    }
    pub fn set_s(&mut self, i: usize, e: E) {
        if self.sym.is_empty() {
            self.sym = vec![0; self.data.len()];
        }
        self.sym[i] = e;
        self.data[i] = 0;
    }
}

const BITS: u32 = 6;
const FAN: usize = 64;
const DEPTH: u32 = 4; // 24-bit ids

#[derive(Clone)]
enum Node {
    Inner(Vec<Option<Rc<Node>>>),
    Leaf(Vec<Option<Rc<Obj>>>),
}

/// Persistent map from 24-bit ids to objects.
#[derive(Clone)]
pub struct PMap {
    root: Option<Rc<Node>>,
}

fn new_node(level: u32) -> Node {
    if level == 0 {
        Node::Leaf(vec![None; FAN])
    } else {
        Node::Inner(vec![None; FAN])
    }
}

impl PMap {
    pub fn new() -> PMap {
        PMap { root: None }
    }
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        let mut n = self.root.as_deref()?;
        let mut lv = DEPTH - 1;
        loop {
            let i = ((id >> (BITS * lv)) & 63) as usize;
            match n {
                Node::Inner(k) => n = k[i].as_deref()?,
                Node::Leaf(k) => return k[i].as_ref(),
            }
            lv = lv.wrapping_sub(1);
        }
    }
    pub fn slot(&mut self, id: u64) -> &mut Option<Rc<Obj>> {
        let mut lv = DEPTH - 1;
        let mut n = Rc::make_mut(self.root.get_or_insert_with(|| Rc::new(new_node(DEPTH - 1))));
        loop {
            let i = ((id >> (BITS * lv)) & 63) as usize;
            match n {
                Node::Inner(k) => {
                    lv -= 1;
                    n = Rc::make_mut(k[i].get_or_insert_with(|| Rc::new(new_node(lv))));
                }
                Node::Leaf(k) => return &mut k[i],
            }
        }
    }
    /// Visit ids whose objects are not shared between the two maps.
    pub fn diff(a: &PMap, b: &PMap, f: &mut dyn FnMut(u64, Option<&Rc<Obj>>, Option<&Rc<Obj>>)) {
        fn go(
            a: Option<&Rc<Node>>,
            b: Option<&Rc<Node>>,
            id: u64,
            f: &mut dyn FnMut(u64, Option<&Rc<Obj>>, Option<&Rc<Obj>>),
        ) {
            match (a, b) {
                (None, None) => return,
                (Some(x), Some(y)) if Rc::ptr_eq(x, y) => return,
                _ => {}
            }
            for i in 0..FAN {
                let nid = (id << BITS) | i as u64;
                let leaf = matches!(a.or(b).map(|x| &**x), Some(Node::Leaf(_)));
                if leaf {
                    let g = |n: Option<&Rc<Node>>| match n.map(|x| &**x) {
                        Some(Node::Leaf(k)) => k[i].clone(),
                        _ => None,
                    };
                    let (x, y) = (g(a), g(b));
                    match (&x, &y) {
                        (None, None) => {}
                        (Some(p), Some(q)) if Rc::ptr_eq(p, q) => {}
                        _ => f(nid, x.as_ref(), y.as_ref()),
                    }
                } else {
                    let g = |n: Option<&Rc<Node>>| match n.map(|x| &**x) {
                        Some(Node::Inner(k)) => k[i].clone(),
                        _ => None,
                    };
                    let (x, y) = (g(a), g(b));
                    go(x.as_ref(), y.as_ref(), nid, f);
                }
            }
        }
        go(a.root.as_ref(), b.root.as_ref(), 0, f)
    }
    pub fn each(&self, f: &mut dyn FnMut(u64, &Rc<Obj>)) {
        PMap::diff(self, &PMap::new(), &mut |id, x, _| {
            if let Some(o) = x {
                f(id, o)
            }
        })
    }
}

#[derive(Clone)]
pub struct Mem {
    pub globals: PMap,
    pub heap: PMap,
    pub stack: PMap,
}

pub const HEAP_BASE: u64 = 1 << 24; // object ids of heap objects: HEAP_BASE + n
pub const STACK_BASE: u64 = 1 << 26;

impl Mem {
    pub fn new() -> Mem {
        Mem {
            globals: PMap::new(),
            heap: PMap::new(),
            stack: PMap::new(),
        }
    }
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        if id >= STACK_BASE {
            if id >= STACK_BASE << 1 {
                return None;
            }
            self.stack.get(id - STACK_BASE)
        } else if id >= HEAP_BASE {
            self.heap.get((id - HEAP_BASE) & 0xff_ffff)
        } else {
            self.globals.get(id)
        }
    }
    pub fn slot(&mut self, id: u64) -> &mut Option<Rc<Obj>> {
        if id >= STACK_BASE {
            self.stack.slot(id - STACK_BASE)
        } else if id >= HEAP_BASE {
            self.heap.slot(id - HEAP_BASE)
        } else {
            self.globals.slot(id)
        }
    }
}
