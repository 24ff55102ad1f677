//! Hash-consed bit-vector expressions with a strong local simplifier.
//!
//! Every node is a bit-vector of 1..=128 bits. Booleans are 1-bit vectors.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    Bin(B, E, E),
    Ite(E, E, E),
    ZExt(E),
    SExt(E),
    Extract(E, u32),
    Concat(E, E),
    /// 256-entry table applied to an 8-bit expression
    Tab(u32, E),
}

pub struct Node {
    pub op: Op,
    pub w: u32,
    pub k0: u128,
    pub k1: u128,
    pub sup: u32,
}

pub struct VarInfo {
    pub name: String,
    pub w: u32,
    pub tag: u32,
}

/// Multiplicative hashing: the keys are small integers the engine made itself.
#[derive(Default, Clone, Copy)]
pub struct FxH(u64);
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64);
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64);
    }
}
pub type Fx = std::hash::BuildHasherDefault<FxH>;

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<(Op, u32), E, Fx>,
    memo: HashMap<(u32, u32, u32, u32), E, Fx>,
    pub tables: Vec<Rc<[u64; 256]>>,
    tmap: HashMap<Rc<[u64; 256]>, u32, Fx>,
    tinj: HashMap<u32, bool>,
    pub sups: Vec<Rc<Vec<u32>>>,
    smap: HashMap<Rc<Vec<u32>>, u32>,
    sun: HashMap<(u32, u32), u32>,
    pub vars: Vec<VarInfo>,
    tt: HashMap<E, [u64; 4]>,
    pub true_: E,
    pub false_: E,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

static mut CTX: *mut Ctx = std::ptr::null_mut();

pub fn cx() -> &'static mut Ctx {
    unsafe {
        if CTX.is_null() {
            CTX = Box::into_raw(Box::new(Ctx::new()));
        }
        &mut *CTX
    }
}

/// Concrete semantics of every binary operator: the single source of truth used by constant
/// folding, by the interpreter and by model evaluation.
pub fn fold(op: B, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    match op {
        B::Add => a.wrapping_add(b) & m,
        B::Sub => a.wrapping_sub(b) & m,
        B::Mul => a.wrapping_mul(b) & m,
        B::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        B::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        B::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                (x.wrapping_div(y)) as u128 & m
            }
        }
        B::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y)) as u128 & m
            }
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        B::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        B::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext(a, w) >> s.min(127)) as u128 & m
        }
        B::Eq => (a == b) as u128,
        B::Ult => (a < b) as u128,
        B::Ule => (a <= b) as u128,
        B::Slt => (sext(a, w) < sext(b, w)) as u128,
        B::Sle => (sext(a, w) <= sext(b, w)) as u128,
    }
}

pub fn is_cmp(op: B) -> bool {
    matches!(op, B::Eq | B::Ult | B::Ule | B::Slt | B::Sle)
}
fn commut(op: B) -> bool {
    matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor | B::Eq)
}

impl Ctx {
    fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            map: HashMap::default(),
            memo: HashMap::default(),
            tables: vec![],
            tmap: HashMap::default(),
            tinj: HashMap::new(),
            sups: vec![],
            smap: HashMap::new(),
            sun: HashMap::new(),
            vars: vec![],
            tt: HashMap::new(),
            true_: 0,
            false_: 0,
        };
        c.sup_id(vec![]);
        // index 0 is reserved ("no symbolic value" in byte maps)
        c.konst(0, 1);
        c.false_ = c.konst(0, 1);
        c.true_ = c.konst(1, 1);
        // node 0 is false_: make sure it is never used as a byte expression (bytes are 8 wide)
        c
    }
    fn sup_id(&mut self, v: Vec<u32>) -> u32 {
        let rc = Rc::new(v);
        if let Some(&i) = self.smap.get(&rc) {
            return i;
        }
        let i = self.sups.len() as u32;
        self.sups.push(rc.clone());
        self.smap.insert(rc, i);
        i
    }
    pub fn sup_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = (a.min(b), a.max(b));
        if let Some(&r) = self.sun.get(&key) {
            return r;
        }
        let (x, y) = (self.sups[a as usize].clone(), self.sups[b as usize].clone());
        let mut v = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i] < y[j]) {
                v.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j] < x[i] {
                v.push(y[j]);
                j += 1;
            } else {
                v.push(x[i]);
                i += 1;
                j += 1;
            }
        }
        let r = self.sup_id(v);
        self.sun.insert(key, r);
        r
    }
    pub fn support(&self, e: E) -> Rc<Vec<u32>> {
        self.sups[self.nodes[e as usize].sup as usize].clone()
    }
    pub fn sup_of(&self, e: E) -> u32 {
        self.nodes[e as usize].sup
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn op(&self, e: E) -> &Op {
        &self.nodes[e as usize].op
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize].op {
            Op::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn new_var(&mut self, name: String, w: u32, tag: u32) -> E {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo { name, w, tag });
        self.intern(Op::Var(id), w)
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        self.intern(Op::Const(v & mask(w)), w)
    }
    fn table(&mut self, t: [u64; 256]) -> u32 {
        let rc = Rc::new(t);
        if let Some(&i) = self.tmap.get(&rc) {
            return i;
        }
        let i = self.tables.len() as u32;
        self.tables.push(rc.clone());
        self.tmap.insert(rc, i);
        i
    }
    /// Is byte value `i` compatible with what is known about the bits of `e`?
    fn compat(&self, e: E, i: u128) -> bool {
        let n = &self.nodes[e as usize];
        (i & n.k0) == 0 && (!i & n.k1) & mask(n.w) == 0
    }

    fn intern(&mut self, op: Op, w: u32) -> E {
        if let Some(&e) = self.map.get(&(op.clone(), w)) {
            return e;
        }
        let (k0, k1) = self.known(&op, w);
        let m = mask(w);
        if !matches!(op, Op::Const(_)) && (k0 | k1) & m == m {
            let e = self.konst(k1 & m, w);
            self.map.insert((op, w), e);
            return e;
        }
        let sup = match &op {
            Op::Const(_) => 0,
            Op::Var(v) => self.sup_id(vec![*v]),
            Op::Bin(_, a, b) | Op::Concat(a, b) => {
                let (x, y) = (self.sup_of(*a), self.sup_of(*b));
                self.sup_union(x, y)
            }
            Op::Ite(a, b, c) => {
                let (x, y, z) = (self.sup_of(*a), self.sup_of(*b), self.sup_of(*c));
                let t = self.sup_union(x, y);
                self.sup_union(t, z)
            }
            Op::ZExt(a) | Op::SExt(a) | Op::Extract(a, _) | Op::Tab(_, a) => self.sup_of(*a),
        };
        let e = self.nodes.len() as E;
        self.nodes.push(Node {
            op: op.clone(),
            w,
            k0: k0 & m,
            k1: k1 & m,
            sup,
        });
        self.map.insert((op, w), e);
        e
    }

    fn umin(&self, e: E) -> u128 {
        self.nodes[e as usize].k1
    }
    fn umax(&self, e: E) -> u128 {
        let n = &self.nodes[e as usize];
        !n.k0 & mask(n.w)
    }
    pub fn range(&self, e: E) -> (u128, u128) {
        (self.umin(e), self.umax(e))
    }

    fn known(&self, op: &Op, w: u32) -> (u128, u128) {
        let m = mask(w);
        let n = |e: &E| &self.nodes[*e as usize];
        match op {
            Op::Const(v) => (!v & m, *v),
            Op::Var(_) => (0, 0),
            Op::ZExt(a) => (n(a).k0 | (m & !mask(n(a).w)), n(a).k1),
            Op::SExt(a) => {
                let aw = n(a).w;
                let hi = m & !mask(aw);
                let top = 1u128 << (aw - 1);
                let mut k0 = n(a).k0;
                let mut k1 = n(a).k1;
                if k0 & top != 0 {
                    k0 |= hi;
                }
                if k1 & top != 0 {
                    k1 |= hi;
                }
                (k0, k1)
            }
            Op::Extract(a, lo) => ((n(a).k0 >> lo) & m, (n(a).k1 >> lo) & m),
            Op::Concat(a, b) => {
                let s = n(b).w;
                ((n(a).k0 << s) | n(b).k0, (n(a).k1 << s) | n(b).k1)
            }
            Op::Ite(_, a, b) => (n(a).k0 & n(b).k0, n(a).k1 & n(b).k1),
            Op::Tab(t, b) => {
                let tb = self.tables[*t as usize].clone();
                let (mut k0, mut k1) = (m, m);
                for i in 0..256u128 {
                    if self.compat(*b, i) {
                        let v = tb[i as usize] as u128;
                        k0 &= !v;
                        k1 &= v;
                    }
                }
                (k0 & m, k1 & m)
            }
            Op::Bin(o, a, b) => {
                let (x, y) = (n(a), n(b));
                match o {
                    B::And => (x.k0 | y.k0, x.k1 & y.k1),
                    B::Or => (x.k0 & y.k0, x.k1 | y.k1),
                    B::Xor => (
                        (x.k0 & y.k0) | (x.k1 & y.k1),
                        (x.k0 & y.k1) | (x.k1 & y.k0),
                    ),
                    B::Add | B::Sub => {
                        // known low zero bits, and upper bound
                        let tz = |k0: u128| (!k0).trailing_zeros().min(w);
                        let t = tz(x.k0).min(tz(y.k0));
                        let mut k0 = mask(t);
                        if *o == B::Add {
                            let (ux, uy) = (!x.k0 & m, !y.k0 & m);
                            if let Some(s) = ux.checked_add(uy) {
                                if s <= m {
                                    let bits = 128 - s.leading_zeros();
                                    k0 |= m & !mask(bits);
                                }
                            }
                        } else if let Op::Const(c) = x.op {
                            // c - y with y <= c : bounded by c
                            let uy = !y.k0 & m;
                            if uy <= c {
                                let bits = 128 - c.leading_zeros();
                                k0 |= m & !mask(bits);
                            }
                        }
                        (k0, 0)
                    }
                    B::Mul => {
                        let tz = |k0: u128| (!k0).trailing_zeros().min(w);
                        let t = (tz(x.k0) + tz(y.k0)).min(w);
                        let mut k0 = mask(t);
                        let (ux, uy) = (!x.k0 & m, !y.k0 & m);
                        if let Some(s) = ux.checked_mul(uy) {
                            if s <= m {
                                let bits = 128 - s.leading_zeros();
                                k0 |= m & !mask(bits);
                            }
                        }
                        (k0, 0)
                    }
                    B::SDiv | B::SRem => (0, 0),
                    B::UDiv => {
                        let ux = !x.k0 & m;
                        let uy = y.k1.max(1);
                        if y.k1 == 0 {
                            // divisor may be zero: result may be all ones
                            (0, 0)
                        } else {
                            let s = ux / uy;
                            (m & !mask(128 - s.leading_zeros()), 0)
                        }
                    }
                    B::URem => {
                        if let Op::Const(c) = y.op {
                            if c != 0 {
                                let ux = !x.k0 & m;
                                let s = (c - 1).min(ux);
                                return (m & !mask(128 - s.leading_zeros()), 0);
                            }
                        }
                        let ux = !x.k0 & m;
                        (m & !mask(128 - ux.leading_zeros()), 0)
                    }
                    B::Shl => {
                        if let Op::Const(c) = y.op {
                            if c >= w as u128 {
                                (m, 0)
                            } else {
                                ((x.k0 << c) | mask(c as u32), x.k1 << c)
                            }
                        } else {
                            (mask((!x.k0).trailing_zeros().min(w)), 0)
                        }
                    }
                    B::LShr => {
                        if let Op::Const(c) = y.op {
                            if c >= w as u128 {
                                (m, 0)
                            } else {
                                (
                                    ((x.k0 & m) >> c) | (m & !(m >> c)),
                                    (x.k1 & m) >> c,
                                )
                            }
                        } else {
                            let ux = !x.k0 & m;
                            (m & !mask(128 - ux.leading_zeros()), 0)
                        }
                    }
                    B::AShr => {
                        let top = 1u128 << (w - 1);
                        if let Op::Const(c) = y.op {
                            let c = c.min(w as u128 - 1) as u32;
                            let hi = m & !(m >> c);
                            let mut k0 = (x.k0 & m) >> c;
                            let mut k1 = (x.k1 & m) >> c;
                            if x.k0 & top != 0 {
                                k0 |= hi;
                            }
                            if x.k1 & top != 0 {
                                k1 |= hi;
                            }
                            (k0, k1)
                        } else {
                            (0, 0)
                        }
                    }
                    B::Eq => {
                        if (x.k0 & y.k1) | (x.k1 & y.k0) != 0 {
                            (1, 0)
                        } else {
                            (0, 0)
                        }
                    }
                    B::Ult => {
                        let xm = mask(x.w);
                        let (xl, xh, yl, yh) = (x.k1, !x.k0 & xm, y.k1, !y.k0 & xm);
                        if xh < yl {
                            (0, 1)
                        } else if xl >= yh {
                            (1, 0)
                        } else {
                            (0, 0)
                        }
                    }
                    B::Ule => {
                        let xm = mask(x.w);
                        let (xl, xh, yl, yh) = (x.k1, !x.k0 & xm, y.k1, !y.k0 & xm);
                        if xh <= yl {
                            (0, 1)
                        } else if xl > yh {
                            (1, 0)
                        } else {
                            (0, 0)
                        }
                    }
                    B::Slt | B::Sle => {
                        let top = 1u128 << (x.w - 1);
                        let xm = mask(x.w);
                        let sg = |q: &Node| {
                            if q.k0 & top != 0 {
                                Some(false)
                            } else if q.k1 & top != 0 {
                                Some(true)
                            } else {
                                None
                            }
                        };
                        match (sg(x), sg(y)) {
                            (Some(true), Some(false)) => (0, 1),
                            (Some(false), Some(true)) => (1, 0),
                            (Some(p), Some(q)) if p == q => {
                                let (xl, xh, yl, yh) = (x.k1, !x.k0 & xm, y.k1, !y.k0 & xm);
                                let strict = *o == B::Slt;
                                if xh < yl || (!strict && xh <= yl) {
                                    (0, 1)
                                } else if xl > yh || (strict && xl >= yh) {
                                    (1, 0)
                                } else {
                                    (0, 0)
                                }
                            }
                            _ => (0, 0),
                        }
                    }
                }
            }
        }
    }

    // ---------------------------------------------------------------- tables
    fn tab_node(&mut self, mut t: [u64; 256], base: E, w: u32) -> E {
        debug_assert!(self.w(base) == 8);
        // constants as base
        if let Some(c) = self.as_const(base) {
            return self.konst(t[c as usize] as u128, w);
        }
        // compose with an inner table
        if let Op::Tab(ti, b2) = *self.op(base) {
            let inner = self.tables[ti as usize].clone();
            let mut u = [0u64; 256];
            for i in 0..256 {
                u[i] = t[(inner[i] & 0xff) as usize];
            }
            return self.tab_node(u, b2, w);
        }
        // canonicalise unreachable entries; detect constants and identity
        let mut first: Option<u64> = None;
        let mut constant = true;
        let mut ident = w >= 8;
        for i in 0..256usize {
            if self.compat(base, i as u128) {
                match first {
                    None => first = Some(t[i]),
                    Some(f) => {
                        if f != t[i] {
                            constant = false
                        }
                    }
                }
                if t[i] != i as u64 {
                    ident = false;
                }
            }
        }
        let f = first.unwrap();
        if constant {
            return self.konst(f as u128, w);
        }
        if ident {
            return self.zext(base, w);
        }
        for i in 0..256usize {
            if !self.compat(base, i as u128) {
                t[i] = f;
            }
        }
        let id = self.table(t);
        self.intern(Op::Tab(id, base), w)
    }
    pub fn tab(&mut self, t: [u64; 256], base: E, w: u32) -> E {
        self.tab_node(t, base, w)
    }

    /// View an expression as a function of one 8-bit base expression.
    /// `strong` is false when the expression is merely a plain byte (no table involved).
    fn tview(&self, e: E) -> Option<(Option<E>, Box<[u64; 256]>, bool)> {
        let n = &self.nodes[e as usize];
        if n.w > 64 {
            return None;
        }
        match n.op {
            Op::Const(c) => Some((None, Box::new([c as u64; 256]), false)),
            Op::Tab(t, b) => Some((Some(b), Box::new(*self.tables[t as usize]), true)),
            Op::Var(_) if n.w == 8 => {
                let mut t = [0u64; 256];
                for (i, x) in t.iter_mut().enumerate() {
                    *x = i as u64;
                }
                Some((Some(e), Box::new(t), false))
            }
            Op::ZExt(a) => {
                if self.nodes[a as usize].w == 8 {
                    let mut t = [0u64; 256];
                    for (i, x) in t.iter_mut().enumerate() {
                        *x = i as u64;
                    }
                    Some((Some(a), Box::new(t), false))
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    /// General "function of one byte" view, used for symbolic table indices.
    pub fn byte_fn(&mut self, e: E) -> Option<(E, Box<[u64; 256]>)> {
        self.byte_fn_d(e, 0)
    }
    fn byte_fn_d(&mut self, e: E, d: u32) -> Option<(E, Box<[u64; 256]>)> {
        let w = self.w(e);
        if w > 64 || d > 12 {
            return None;
        }
        if let Some((Some(b), t, _)) = self.tview(e) {
            return Some((b, t));
        }
        let m = mask(w) as u64;
        // narrow values: use the zero-extended low byte itself
        let direct = |c: &mut Ctx| -> Option<(E, Box<[u64; 256]>)> {
            if c.umax(e) <= 255 {
                let b = if w >= 8 {
                    c.extract(e, 0, 8)
                } else {
                    c.zext(e, 8)
                };
                let mut t = [0u64; 256];
                for (i, x) in t.iter_mut().enumerate() {
                    *x = i as u64 & m;
                }
                Some((b, Box::new(t)))
            } else {
                None
            }
        };
        match self.op(e).clone() {
            Op::Bin(op, a, b) if !is_cmp(op) => {
                let (ca, cb) = (self.as_const(a), self.as_const(b));
                let (inner, k, left) = match (ca, cb) {
                    (_, Some(k)) => (a, k, false),
                    (Some(k), _) => (b, k, true),
                    _ => {
                        // same base on both sides
                        let x = self.byte_fn_d(a, d + 1);
                        let y = self.byte_fn_d(b, d + 1);
                        if let (Some((bx, tx)), Some((by, ty))) = (x, y) {
                            if bx == by {
                                let mut t = [0u64; 256];
                                for i in 0..256 {
                                    t[i] = fold(op, tx[i] as u128, ty[i] as u128, w) as u64;
                                }
                                return Some((bx, Box::new(t)));
                            }
                        }
                        return direct(self);
                    }
                };
                if let Some((bx, tx)) = self.byte_fn_d(inner, d + 1) {
                    let mut t = [0u64; 256];
                    for i in 0..256 {
                        t[i] = if left {
                            fold(op, k, tx[i] as u128, w)
                        } else {
                            fold(op, tx[i] as u128, k, w)
                        } as u64;
                    }
                    return Some((bx, Box::new(t)));
                }
                direct(self)
            }
            Op::ZExt(a) => {
                if let Some(r) = self.byte_fn_d(a, d + 1) {
                    return Some(r);
                }
                direct(self)
            }
            Op::SExt(a) => {
                let aw = self.w(a);
                if let Some((b, t)) = self.byte_fn_d(a, d + 1) {
                    let mut u = [0u64; 256];
                    for i in 0..256 {
                        u[i] = sext(t[i] as u128, aw) as u64 & m;
                    }
                    return Some((b, Box::new(u)));
                }
                direct(self)
            }
            Op::Extract(a, lo) => {
                if let Some((b, t)) = self.byte_fn_d(a, d + 1) {
                    let mut u = [0u64; 256];
                    for i in 0..256 {
                        u[i] = (t[i] >> lo) & m;
                    }
                    return Some((b, Box::new(u)));
                }
                direct(self)
            }
            Op::Concat(a, b) => {
                // concat(x, const) or concat(const, x)
                let bw = self.w(b);
                if let Some(k) = self.as_const(b) {
                    if let Some((x, t)) = self.byte_fn_d(a, d + 1) {
                        let mut u = [0u64; 256];
                        for i in 0..256 {
                            u[i] = (t[i] << bw) | k as u64;
                        }
                        return Some((x, Box::new(u)));
                    }
                }
                if let Some(k) = self.as_const(a) {
                    if let Some((x, t)) = self.byte_fn_d(b, d + 1) {
                        let mut u = [0u64; 256];
                        for i in 0..256 {
                            u[i] = ((k as u64) << bw) | t[i];
                        }
                        return Some((x, Box::new(u)));
                    }
                }
                direct(self)
            }
            _ => direct(self),
        }
    }

    fn table_injective(&mut self, t: u32) -> bool {
        if let Some(&b) = self.tinj.get(&t) {
            return b;
        }
        let tb = self.tables[t as usize].clone();
        let mut s = std::collections::HashSet::new();
        let r = tb.iter().all(|v| s.insert(*v));
        self.tinj.insert(t, r);
        r
    }

    // ---------------------------------------------------------------- constructors
    pub fn not(&mut self, a: E) -> E {
        debug_assert!(self.w(a) == 1);
        let t = self.true_;
        self.bin(B::Xor, a, t)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(B::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(B::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(B::Eq, a, b)
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        match *self.op(a) {
            Op::Const(c) => self.konst(c, w),
            Op::ZExt(b) => self.zext(b, w),
            Op::Tab(t, b) if w <= 64 => {
                let tb = *self.tables[t as usize].clone();
                self.tab_node(tb, b, w)
            }
            _ => self.intern(Op::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let top = 1u128 << (aw - 1);
        if self.nodes[a as usize].k0 & top != 0 {
            return self.zext(a, w);
        }
        match *self.op(a) {
            Op::Const(c) => {
                let v = sext(c, aw) as u128;
                self.konst(v, w)
            }
            Op::Tab(t, b) if w <= 64 => {
                let tb = self.tables[t as usize].clone();
                let mut u = [0u64; 256];
                for i in 0..256 {
                    u[i] = sext(tb[i] as u128, aw) as u64 & mask(w) as u64;
                }
                self.tab_node(u, b, w)
            }
            Op::SExt(b) => self.sext(b, w),
            _ => self.intern(Op::SExt(a), w),
        }
    }
    pub fn trunc(&mut self, a: E, w: u32) -> E {
        self.extract(a, 0, w)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        if matches!(self.op(a), Op::Ite(..) | Op::Bin(..) | Op::Tab(..)) {
            let key = (255, a, lo, w);
            if let Some(r) = self.memo.get(&key) {
                return *r;
            }
            let r = self.extract1(a, lo, w);
            self.memo.insert(key, r);
            return r;
        }
        self.extract1(a, lo, w)
    }
    fn extract1(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        match self.op(a).clone() {
            Op::Const(c) => self.konst(c >> lo, w),
            Op::Extract(b, l2) => self.extract(b, lo + l2, w),
            Op::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(l, lo, w)
                } else {
                    let hi = self.extract(h, 0, lo + w - lw);
                    let l = self.extract(l, lo, lw - lo);
                    self.concat(hi, l)
                }
            }
            Op::ZExt(b) => {
                let bw = self.w(b);
                if lo >= bw {
                    self.konst(0, w)
                } else if lo + w <= bw {
                    self.extract(b, lo, w)
                } else {
                    let x = self.extract(b, lo, bw - lo);
                    self.zext(x, w)
                }
            }
            Op::SExt(b) => {
                let bw = self.w(b);
                if lo + w <= bw {
                    self.extract(b, lo, w)
                } else if lo < bw {
                    let x = self.extract(b, lo, bw - lo);
                    self.sext(x, w)
                } else {
                    let x = self.extract(b, bw - 1, 1);
                    self.sext(x, w)
                }
            }
            Op::Tab(t, b) => {
                let tb = self.tables[t as usize].clone();
                let mut u = [0u64; 256];
                let m = mask(w) as u64;
                for i in 0..256 {
                    u[i] = (tb[i] >> lo) & m;
                }
                self.tab_node(u, b, w)
            }
            Op::Ite(c, x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.ite(c, p, q)
            }
            Op::Bin(o @ (B::And | B::Or | B::Xor), x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.bin(o, p, q)
            }
            Op::Bin(o @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => {
                let p = self.extract(x, 0, w);
                let q = self.extract(y, 0, w);
                self.bin(o, p, q)
            }
            _ => self.intern(Op::Extract(a, lo), w),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let (Some(a), Some(b)) = (self.as_const(h), self.as_const(l)) {
            return self.konst((a << lw) | b, w);
        }
        if self.as_const(h) == Some(0) {
            return self.zext(l, w);
        }
        // adjacent extracts
        if let Some((x, lo, n)) = self.adj(h, l) {
            return self.extract(x, lo, n);
        }
        if w <= 64 {
            // a constant next to a function of one byte
            let (ch, cl) = (self.as_const(h), self.as_const(l));
            let x = match (ch, cl) {
                (Some(_), None) => Some(l),
                (None, Some(_)) => Some(h),
                _ => None,
            };
            if let Some(x) = x {
                let sx = self.support(x);
                if sx.len() == 1 && self.vars[sx[0] as usize].w == 8 {
                    if let Some((b, t)) = self.byte_fn(x) {
                        if matches!(self.op(b), Op::Var(_)) {
                            let mut u = [0u64; 256];
                            for i in 0..256 {
                                u[i] = match ch {
                                    Some(k) => ((k as u64) << lw) | t[i],
                                    None => (t[i] << lw) | cl.unwrap() as u64,
                                };
                            }
                            return self.tab_node(u, b, w);
                        }
                    }
                }
            }
        }
        // right-nested chains
        if let Op::Concat(l1, l0) = *self.op(l) {
            if let Some((x, lo, n)) = self.adj(h, l1) {
                let m = self.extract(x, lo, n);
                return self.concat(m, l0);
            }
            if let (Some(a), Some(b)) = (self.as_const(h), self.as_const(l1)) {
                let l1w = self.w(l1);
                let k = self.konst((a << l1w) | b, hw + l1w);
                return self.concat(k, l0);
            }
        }
        if let Op::Concat(h1, h0) = *self.op(h) {
            let r = self.concat(h0, l);
            return self.concat(h1, r);
        }
        if let Op::ZExt(x) = *self.op(h) {
            let xw = self.w(x);
            let r = self.concat(x, l);
            return self.zext(r, w.max(xw + lw));
        }
        if let Op::ZExt(x) = *self.op(l) {
            let xw = self.w(x);
            let z = self.konst(0, lw - xw);
            // concat(h, concat(0, x)) : keep as is but right-nested
            if let Some(hc) = self.as_const(h) {
                let k = self.konst(hc << (lw - xw), hw + lw - xw);
                return self.intern(Op::Concat(k, x), w);
            }
            let inner = self.intern_concat_raw(z, x);
            return self.intern(Op::Concat(h, inner), w);
        }
        if let (Op::Ite(c1, a1, b1), Op::Ite(c2, a2, b2)) =
            (self.op(h).clone(), self.op(l).clone())
        {
            if c1 == c2 {
                let p = self.concat(a1, a2);
                let q = self.concat(b1, b2);
                return self.ite(c1, p, q);
            }
        }
        if w <= 64 {
            let (sh, sl) = (self.support(h), self.support(l));
            if sh.len() == 1
                && sh == sl
                && self.vars[sh[0] as usize].w == 8
                && !(matches!(self.op(h), Op::Var(_)) && matches!(self.op(l), Op::Var(_)))
            {
                if let (Some((x1, p)), Some((x2, q))) = (self.byte_fn(h), self.byte_fn(l)) {
                    if x1 == x2 {
                        let mut u = [0u64; 256];
                        for i in 0..256 {
                            u[i] = (p[i] << lw) | q[i];
                        }
                        return self.tab_node(u, x1, w);
                    }
                }
            }
            if let (Op::Tab(t1, x1), Op::Tab(t2, x2)) = (self.op(h).clone(), self.op(l).clone()) {
                if x1 == x2 {
                    let (p, q) = (
                        self.tables[t1 as usize].clone(),
                        self.tables[t2 as usize].clone(),
                    );
                    let mut u = [0u64; 256];
                    for i in 0..256 {
                        u[i] = (p[i] << lw) | q[i];
                    }
                    return self.tab_node(u, x1, w);
                }
            }
        }
        self.intern(Op::Concat(h, l), w)
    }
    fn intern_concat_raw(&mut self, h: E, l: E) -> E {
        // a zero-extension kept in concat position
        let w = self.w(h) + self.w(l);
        self.zext(l, w)
    }
    fn adj(&self, h: E, l: E) -> Option<(E, u32, u32)> {
        let (hw, lw) = (self.w(h), self.w(l));
        let (xh, lh) = match *self.op(h) {
            Op::Extract(x, lo) => (x, lo),
            _ => return None,
        };
        match *self.op(l) {
            Op::Extract(x, lo) if x == xh && lo + lw == lh => Some((x, lo, hw + lw)),
            _ if l == xh && lh == lw => None,
            _ => None,
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        let key = (254, c, a, b);
        if let Some(r) = self.memo.get(&key) {
            return *r;
        }
        let r = self.ite1(c, a, b);
        self.memo.insert(key, r);
        r
    }
    fn ite1(&mut self, c: E, a: E, b: E) -> E {
        match self.as_const(c) {
            Some(1) => return a,
            Some(_) => return b,
            None => {}
        }
        let w = self.w(a);
        debug_assert!(w == self.w(b));
        // normalise negated conditions
        if let Op::Bin(B::Xor, x, y) = *self.op(c) {
            if self.as_const(y) == Some(1) {
                return self.ite(x, b, a);
            }
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        if let Op::Ite(c2, x, y) = *self.op(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
            // ite(c, ite(c2, x, b), b) = ite(c & c2, x, b)
            if y == b {
                let k = self.and(c, c2);
                return self.ite(k, x, b);
            }
        }
        if let Op::Ite(c2, x, y) = *self.op(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
            if x == a {
                let k = self.or(c, c2);
                return self.ite(k, a, y);
            }
        }
        // collapse to table
        if w <= 64 {
            if let (Some((bc, tc, sc)), Some((ba, ta, sa)), Some((bb, tb, sb))) =
                (self.tview(c), self.tview(a), self.tview(b))
            {
                let base = bc.or(ba).or(bb);
                if let Some(base) = base {
                    let ok = |x: &Option<E>| x.is_none() || *x == Some(base);
                    if ok(&bc) && ok(&ba) && ok(&bb) && (sc || sa || sb) {
                        let mut u = [0u64; 256];
                        for i in 0..256 {
                            u[i] = if tc[i] & 1 == 1 { ta[i] } else { tb[i] };
                        }
                        return self.tab_node(u, base, w);
                    }
                }
            }
        }
        self.intern(Op::Ite(c, a, b), w)
    }

    pub fn bin(&mut self, op: B, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let w = self.w(a);
            return self.konst(fold(op, x, y, w), if is_cmp(op) { 1 } else { w });
        }
        let key = (op as u32, a, b, 0);
        if let Some(r) = self.memo.get(&key) {
            return *r;
        }
        let r = self.bin1(op, a, b);
        self.memo.insert(key, r);
        r
    }
    fn bin1(&mut self, op: B, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert!(w == self.w(b), "{:?} {} {}", op, w, self.w(b));
        let rw = if is_cmp(op) { 1 } else { w };
        let (mut ca, mut cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(op, x, y, w);
            return self.konst(v, rw);
        }
        if commut(op) && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(w);
        // identities
        match op {
            B::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let (Some(k), Op::Bin(B::Add, x, y)) = (cb, self.op(a).clone()) {
                    if let Some(k2) = self.as_const(y) {
                        let k3 = self.konst(k.wrapping_add(k2), w);
                        return self.bin(B::Add, x, k3);
                    }
                }
                if let (Some(k), Op::Bin(B::Sub, x, y)) = (cb, self.op(a).clone()) {
                    // (c - y) + k
                    if let Some(k2) = self.as_const(x) {
                        let k3 = self.konst(k.wrapping_add(k2), w);
                        return self.bin(B::Sub, k3, y);
                    }
                }
                // (x - y) + y
                if let Op::Bin(B::Sub, x, y) = *self.op(a) {
                    if y == b {
                        return x;
                    }
                }
                if let Op::Bin(B::Sub, x, y) = *self.op(b) {
                    if y == a {
                        return x;
                    }
                }
                // disjoint bits: or
                let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
                if (na.k0 | nb.k0) & m == m {
                    return self.bin(B::Or, a, b);
                }
            }
            B::Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    let k2 = self.konst(0u128.wrapping_sub(k), w);
                    return self.bin(B::Add, a, k2);
                }
                if let Op::Bin(B::Add, x, y) = *self.op(a) {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                    // (x + c) - (y + c2), (x + c) - y
                    if let Some(k) = self.as_const(y) {
                        if let Op::Bin(B::Add, x2, y2) = *self.op(b) {
                            if let Some(k2) = self.as_const(y2) {
                                let d = self.bin(B::Sub, x, x2);
                                let kk = self.konst(k.wrapping_sub(k2), w);
                                return self.bin(B::Add, d, kk);
                            }
                        }
                    }
                }
                if let (Some(k), Op::Bin(B::Add, x, y)) = (ca, self.op(b).clone()) {
                    if let Some(k2) = self.as_const(y) {
                        let k3 = self.konst(k.wrapping_sub(k2), w);
                        return self.bin(B::Sub, k3, x);
                    }
                }
                if let (Some(k), Op::Bin(B::Sub, x, y)) = (ca, self.op(b).clone()) {
                    // k - (k2 - y) = (k - k2) + y
                    if let Some(k2) = self.as_const(x) {
                        let k3 = self.konst(k.wrapping_sub(k2), w);
                        return self.bin(B::Add, y, k3);
                    }
                }
            }
            B::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(B::Shl, a, s);
                    }
                }
            }
            B::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(B::LShr, a, s);
                    }
                    if k != 0 && self.umax(a) < k {
                        return self.konst(0, w);
                    }
                }
            }
            B::URem => {
                if let Some(k) = cb {
                    if k != 0 && k.is_power_of_two() {
                        let s = self.konst(k - 1, w);
                        return self.bin(B::And, a, s);
                    }
                    if k != 0 && self.umax(a) < k {
                        return a;
                    }
                }
            }
            B::SDiv | B::SRem => {
                let top = 1u128 << (w - 1);
                if self.nodes[a as usize].k0 & top != 0 && self.nodes[b as usize].k0 & top != 0 {
                    return self.bin(
                        if op == B::SDiv { B::UDiv } else { B::URem },
                        a,
                        b,
                    );
                }
            }
            B::And => {
                if cb == Some(0) || a == b {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if let Some(k) = cb {
                    // all bits of a outside k already zero
                    if self.nodes[a as usize].k0 | k == m || (self.nodes[a as usize].k0 | k) & m == m
                    {
                        return a;
                    }
                    if let Op::Bin(B::And, x, y) = *self.op(a) {
                        if let Some(k2) = self.as_const(y) {
                            let k3 = self.konst(k & k2, w);
                            return self.bin(B::And, x, k3);
                        }
                    }
                }
                if w == 1 && self.compl(a, b) {
                    return self.konst(0, 1);
                }
                if w == 1 {
                    // absorption: a & (a & x), a & (a | x)
                    if let Some(r) = self.absorb(a, b, B::And) {
                        return r;
                    }
                }
            }
            B::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if w == 1 && self.compl(a, b) {
                    return self.konst(1, 1);
                }
                if w == 1 {
                    if let Some(r) = self.absorb(a, b, B::Or) {
                        return r;
                    }
                }
            }
            B::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(0, w);
                }
                if let Op::Bin(B::Xor, x, y) = *self.op(a) {
                    if y == b {
                        return x;
                    }
                    if x == b {
                        return y;
                    }
                    if let (Some(k), Some(k2)) = (cb, self.as_const(y)) {
                        let k3 = self.konst(k ^ k2, w);
                        return self.bin(B::Xor, x, k3);
                    }
                }
                if let Op::Bin(B::Xor, x, y) = *self.op(b) {
                    if y == a {
                        return x;
                    }
                    if x == a {
                        return y;
                    }
                }
                if w == 1 && cb == Some(1) {
                    match *self.op(a) {
                        Op::Bin(B::Ult, x, y) => return self.bin(B::Ule, y, x),
                        Op::Bin(B::Ule, x, y) => return self.bin(B::Ult, y, x),
                        Op::Bin(B::Slt, x, y) => return self.bin(B::Sle, y, x),
                        Op::Bin(B::Sle, x, y) => return self.bin(B::Slt, y, x),
                        _ => {}
                    }
                }
                let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
                if (na.k0 | nb.k0) & m == m {
                    return self.bin(B::Or, a, b);
                }
            }
            B::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, 0, w - k);
                    let z = self.konst(0, k);
                    return self.concat(x, z);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            B::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u32;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            B::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u32;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            B::Eq => {
                if a == b {
                    return self.true_;
                }
                if w == 1 {
                    if cb == Some(1) {
                        return a;
                    }
                    if cb == Some(0) {
                        return self.not(a);
                    }
                    let x = self.bin(B::Xor, a, b);
                    return self.not(x);
                }
                if let Some(k) = cb {
                    match self.op(a).clone() {
                        Op::ZExt(x) => {
                            let xw = self.w(x);
                            if k & !mask(xw) != 0 {
                                return self.false_;
                            }
                            let kk = self.konst(k, xw);
                            return self.bin(B::Eq, x, kk);
                        }
                        Op::SExt(x) => {
                            let xw = self.w(x);
                            if sext(k, xw) as u128 & m != k {
                                return self.false_;
                            }
                            let kk = self.konst(k, xw);
                            return self.bin(B::Eq, x, kk);
                        }
                        Op::Concat(h, l) => {
                            let lw = self.w(l);
                            let hw = self.w(h);
                            let kh = self.konst(k >> lw, hw);
                            let kl = self.konst(k, lw);
                            let p = self.bin(B::Eq, h, kh);
                            if p == self.false_ {
                                return p;
                            }
                            let q = self.bin(B::Eq, l, kl);
                            return self.and(p, q);
                        }
                        Op::Bin(B::Xor, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                let kk = self.konst(k ^ k2, w);
                                return self.bin(B::Eq, x, kk);
                            }
                            if k == 0 {
                                return self.bin(B::Eq, x, y);
                            }
                        }
                        Op::Bin(B::Add, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                let kk = self.konst(k.wrapping_sub(k2), w);
                                return self.bin(B::Eq, x, kk);
                            }
                        }
                        Op::Bin(B::Sub, x, y) => {
                            if let Some(k2) = self.as_const(x) {
                                let kk = self.konst(k2.wrapping_sub(k), w);
                                return self.bin(B::Eq, y, kk);
                            }
                            if k == 0 {
                                return self.bin(B::Eq, x, y);
                            }
                        }
                        Op::Bin(B::Or, x, y) if k == 0 => {
                            let z = self.konst(0, w);
                            let p = self.bin(B::Eq, x, z);
                            let q = self.bin(B::Eq, y, z);
                            return self.and(p, q);
                        }
                        Op::Ite(c, x, y) => {
                            let (kx, ky) = (self.as_const(x), self.as_const(y));
                            if kx.is_some() || ky.is_some() {
                                let p = self.bin(B::Eq, x, b);
                                let q = self.bin(B::Eq, y, b);
                                return self.ite(c, p, q);
                            }
                        }
                        _ => {}
                    }
                } else {
                    // injective tables, xor cancellation, extension/concat congruence
                    match (self.op(a).clone(), self.op(b).clone()) {
                        (Op::Tab(t1, x), Op::Tab(t2, y)) if t1 == t2 && x != y => {
                            if self.table_injective(t1) {
                                return self.bin(B::Eq, x, y);
                            }
                        }
                        (Op::ZExt(x), Op::ZExt(y)) if self.w(x) == self.w(y) => {
                            return self.bin(B::Eq, x, y);
                        }
                        (Op::Concat(h1, l1), Op::Concat(h2, l2)) if self.w(l1) == self.w(l2) => {
                            let p = self.bin(B::Eq, h1, h2);
                            if p == self.false_ {
                                return p;
                            }
                            let q = self.bin(B::Eq, l1, l2);
                            return self.and(p, q);
                        }
                        (Op::Bin(B::Xor, x1, y1), Op::Bin(B::Xor, x2, y2)) => {
                            if x1 == x2 {
                                return self.bin(B::Eq, y1, y2);
                            }
                            if y1 == y2 {
                                return self.bin(B::Eq, x1, x2);
                            }
                            if x1 == y2 {
                                return self.bin(B::Eq, y1, x2);
                            }
                            if y1 == x2 {
                                return self.bin(B::Eq, x1, y2);
                            }
                        }
                        (Op::Bin(B::Add, x1, y1), Op::Bin(B::Add, x2, y2)) => {
                            if x1 == x2 {
                                return self.bin(B::Eq, y1, y2);
                            }
                            if y1 == y2 {
                                return self.bin(B::Eq, x1, x2);
                            }
                        }
                        (Op::Bin(B::Xor, x1, y1), _) if x1 == b || y1 == b => {
                            let o = if x1 == b { y1 } else { x1 };
                            let z = self.konst(0, w);
                            return self.bin(B::Eq, o, z);
                        }
                        (_, Op::Bin(B::Xor, x1, y1)) if x1 == a || y1 == a => {
                            let o = if x1 == a { y1 } else { x1 };
                            let z = self.konst(0, w);
                            return self.bin(B::Eq, o, z);
                        }
                        _ => {}
                    }
                }
            }
            B::Ult => {
                if a == b || cb == Some(0) || ca == Some(m) {
                    return self.false_;
                }
                if cb == Some(1) {
                    let z = self.konst(0, w);
                    return self.bin(B::Eq, a, z);
                }
                if ca == Some(0) {
                    let z = self.konst(0, w);
                    let q = self.bin(B::Eq, b, z);
                    return self.not(q);
                }
                if let Some(r) = self.narrow_cmp(op, a, b) {
                    return r;
                }
            }
            B::Ule => {
                if a == b || ca == Some(0) || cb == Some(m) {
                    return self.true_;
                }
                if cb == Some(0) {
                    return self.bin(B::Eq, a, b);
                }
                if let Some(r) = self.narrow_cmp(op, a, b) {
                    return r;
                }
            }
            B::Slt => {
                if a == b {
                    return self.false_;
                }
                let top = 1u128 << (w - 1);
                if self.nodes[a as usize].k0 & top != 0 && self.nodes[b as usize].k0 & top != 0 {
                    return self.bin(B::Ult, a, b);
                }
                // sign test
                if cb == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
            }
            B::Sle => {
                if a == b {
                    return self.true_;
                }
                let top = 1u128 << (w - 1);
                if self.nodes[a as usize].k0 & top != 0 && self.nodes[b as usize].k0 & top != 0 {
                    return self.bin(B::Ule, a, b);
                }
                if cb == Some(m) {
                    return self.extract(a, w - 1, 1);
                }
                if ca == Some(0) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
            }
        }
        // bitwise over extension/concat structure
        if matches!(op, B::And | B::Or | B::Xor) && w > 1 {
            if let Some(r) = self.split_bitwise(op, a, b) {
                return r;
            }
        }
        // collapse single-byte functions
        if w <= 64 {
            if let (Some((ba, ta, sa)), Some((bb, tb, sb))) = (self.tview(a), self.tview(b)) {
                let base = ba.or(bb);
                let same = ba.is_none() || bb.is_none() || ba == bb;
                let structural = matches!(op, B::And | B::Or | B::Xor | B::Shl | B::LShr);
                let weak_ok = !structural
                    && base.map_or(false, |x| matches!(self.op(x), Op::Var(_)))
                    && (op != B::Eq || (ba.is_some() && bb.is_some()));
                if let Some(base) = base {
                    if same && (sa || sb || weak_ok) {
                        let mut u = [0u64; 256];
                        for i in 0..256 {
                            u[i] = fold(op, ta[i] as u128, tb[i] as u128, w) as u64;
                        }
                        return self.tab_node(u, base, rw);
                    }
                }
            }
        }
        // op(ite(c, k1, k2), k3) with constants
        if let Some(_k) = cb {
            if let Op::Ite(c, x, y) = *self.op(a) {
                if self.as_const(x).is_some() && self.as_const(y).is_some() {
                    let p = self.bin(op, x, b);
                    let q = self.bin(op, y, b);
                    return self.ite(c, p, q);
                }
            }
        }
        if let Some(_k) = ca {
            if let Op::Ite(c, x, y) = *self.op(b) {
                if self.as_const(x).is_some() && self.as_const(y).is_some() {
                    let p = self.bin(op, a, x);
                    let q = self.bin(op, a, y);
                    return self.ite(c, p, q);
                }
            }
        }
        // wide arithmetic on small values
        if matches!(op, B::URem | B::UDiv | B::Mul) && w > 8 {
            let (ua, ub) = (self.umax(a), self.umax(b));
            let top = match op {
                B::Mul => ua.checked_mul(ub),
                B::UDiv if self.umin(b) == 0 => None,
                _ => Some(ua.max(ub)),
            };
            if let Some(t) = top {
                let k = (128 - t.leading_zeros()).max(8);
                if k < w {
                    let (x, y) = (self.extract(a, 0, k), self.extract(b, 0, k));
                    let r = self.bin(op, x, y);
                    return self.zext(r, w);
                }
            }
        }
        self.intern(Op::Bin(op, a, b), rw)
    }

    fn compl(&self, a: E, b: E) -> bool {
        let neg = |x: E, y: E| match *self.op(x) {
            Op::Bin(B::Xor, p, q) => p == y && self.as_const(q) == Some(1),
            _ => false,
        };
        if neg(a, b) || neg(b, a) {
            return true;
        }
        match (self.op(a), self.op(b)) {
            (Op::Bin(B::Ult, x, y), Op::Bin(B::Ule, p, q))
            | (Op::Bin(B::Ule, p, q), Op::Bin(B::Ult, x, y)) => x == q && y == p,
            (Op::Bin(B::Slt, x, y), Op::Bin(B::Sle, p, q))
            | (Op::Bin(B::Sle, p, q), Op::Bin(B::Slt, x, y)) => x == q && y == p,
            _ => false,
        }
    }
    fn absorb(&mut self, a: E, b: E, op: B) -> Option<E> {
        for (x, y) in [(a, b), (b, a)] {
            if let Op::Bin(o2, p, q) = *self.op(y) {
                if (o2 == B::And || o2 == B::Or) && (p == x || q == x) {
                    // op == o2: a&(a&q) = y ; op != o2: a&(a|q) = a
                    return Some(if o2 == op { y } else { x });
                }
                if (o2 == B::And || o2 == B::Or) && o2 != op {
                    // a & (!a | q) = a & q
                    if self.compl(x, p) {
                        return Some(self.bin(op, x, q));
                    }
                    if self.compl(x, q) {
                        return Some(self.bin(op, x, p));
                    }
                }
            }
        }
        None
    }
    fn narrow_cmp(&mut self, op: B, a: E, b: E) -> Option<E> {
        // both sides representable in fewer bits
        let w = self.w(a);
        let hi = self.umax(a).max(self.umax(b));
        let bits = (128 - hi.leading_zeros()).max(1);
        let za = matches!(self.op(a), Op::ZExt(_) | Op::Const(_));
        let zb = matches!(self.op(b), Op::ZExt(_) | Op::Const(_));
        if za && zb && bits < w {
            let inner = |c: &Ctx, e: E| match *c.op(e) {
                Op::ZExt(x) => c.w(x),
                _ => 0,
            };
            let iw = inner(self, a).max(inner(self, b)).max(bits);
            if iw < w {
                let x = self.extract(a, 0, iw);
                let y = self.extract(b, 0, iw);
                return Some(self.bin(op, x, y));
            }
        }
        None
    }
    fn split_bitwise(&mut self, op: B, a: E, b: E) -> Option<E> {
        // choose a split point from a concat / zero-extension on either side
        let pt = |c: &Ctx, e: E| -> Option<u32> {
            match *c.op(e) {
                Op::Concat(_, l) => Some(c.w(l)),
                Op::ZExt(x) => Some(c.w(x)),
                Op::Const(k) => {
                    // split constants at a boundary of a low/high mask
                    let w = c.w(e);
                    let m = mask(w);
                    if k == 0 || k == m {
                        return None;
                    }
                    let t = if k & 1 == 1 {
                        (!k).trailing_zeros()
                    } else {
                        k.trailing_zeros()
                    };
                    if t > 0 && t < w && op == B::And {
                        Some(t)
                    } else {
                        None
                    }
                }
                _ => None,
            }
        };
        let w = self.w(a);
        if self.as_const(b).is_some() && op == B::And {
            // masks: bit-slice normal form (only for structural / opaque values)
            if matches!(self.op(a), Op::Tab(..)) {
                return None;
            }
            let p = pt(self, b)?;
            let (al, ah) = (self.extract(a, 0, p), self.extract(a, p, w - p));
            let (bl, bh) = (self.extract(b, 0, p), self.extract(b, p, w - p));
            let h = self.bin(op, ah, bh);
            let l = self.bin(op, al, bl);
            return Some(self.concat(h, l));
        }
        if matches!(self.op(a), Op::Tab(..)) && matches!(self.op(b), Op::Tab(..) | Op::Const(_)) {
            return None;
        }
        let p = match (pt(self, a), pt(self, b)) {
            (Some(x), Some(y)) => x.min(y),
            (Some(x), None) => x,
            (None, Some(y)) => y,
            _ => return None,
        };
        if p == 0 || p >= w {
            return None;
        }
        let (al, ah) = (self.extract(a, 0, p), self.extract(a, p, w - p));
        let (bl, bh) = (self.extract(b, 0, p), self.extract(b, p, w - p));
        // only if it simplifies something: some part constant
        let c = |s: &Ctx, e: E| s.as_const(e).is_some();
        if c(self, al) || c(self, ah) || c(self, bl) || c(self, bh) {
            let h = self.bin(op, ah, bh);
            let l = self.bin(op, al, bl);
            return Some(self.concat(h, l));
        }
        None
    }

    // ---------------------------------------------------------------- evaluation
    pub fn eval(&self, e: E, model: &dyn Fn(u32) -> u128, memo: &mut HashMap<E, u128>) -> u128 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const(v) => return v,
            Op::Var(v) => return model(v) & mask(n.w),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let v = match n.op {
            Op::Const(_) | Op::Var(_) => unreachable!(),
            Op::Bin(o, a, b) => {
                let w = self.w(a);
                let x = self.eval(a, model, memo);
                let y = self.eval(b, model, memo);
                fold(o, x, y, w)
            }
            Op::Ite(c, a, b) => {
                if self.eval(c, model, memo) & 1 == 1 {
                    self.eval(a, model, memo)
                } else {
                    self.eval(b, model, memo)
                }
            }
            Op::ZExt(a) => self.eval(a, model, memo),
            Op::SExt(a) => sext(self.eval(a, model, memo), self.w(a)) as u128 & mask(n.w),
            Op::Extract(a, lo) => (self.eval(a, model, memo) >> lo) & mask(n.w),
            Op::Concat(a, b) => {
                (self.eval(a, model, memo) << self.w(b)) | self.eval(b, model, memo)
            }
            Op::Tab(t, b) => {
                let i = self.eval(b, model, memo);
                self.tables[t as usize][i as usize & 255] as u128
            }
        };
        memo.insert(e, v);
        v
    }

    /// Truth table of a boolean over a single 8-bit variable.
    pub fn truth(&mut self, e: E) -> [u64; 4] {
        if let Some(t) = self.tt.get(&e) {
            return *t;
        }
        let mut t = [0u64; 4];
        for i in 0..256usize {
            let mut memo = HashMap::new();
            if self.eval(e, &|_| i as u128, &mut memo) & 1 == 1 {
                t[i / 64] |= 1 << (i % 64);
            }
        }
        self.tt.insert(e, t);
        t
    }

    pub fn show(&self, e: E, d: u32) -> String {
        let n = &self.nodes[e as usize];
        if d == 0 {
            return format!("#{}", e);
        }
        match &n.op {
            Op::Const(v) => format!("{:#x}:{}", v, n.w),
            Op::Var(v) => self.vars[*v as usize].name.clone(),
            Op::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(*a, d - 1), self.show(*b, d - 1)),
            Op::Ite(a, b, c) => format!(
                "(ite {} {} {})",
                self.show(*a, d - 1),
                self.show(*b, d - 1),
                self.show(*c, d - 1)
            ),
            Op::ZExt(a) => format!("(zext{} {})", n.w, self.show(*a, d - 1)),
            Op::SExt(a) => format!("(sext{} {})", n.w, self.show(*a, d - 1)),
            Op::Extract(a, lo) => format!("{}[{}+{}]", self.show(*a, d - 1), lo, n.w),
            Op::Concat(a, b) => format!("({} . {})", self.show(*a, d - 1), self.show(*b, d - 1)),
            Op::Tab(t, a) => format!("T{}[{}]", t, self.show(*a, d - 1)),
        }
    }
}

impl Ctx {
    pub fn var_expr(&mut self, v: u32, w: u32) -> E {
        self.intern(Op::Var(v), w)
    }
}
