//! Parser for textual LLVM IR (as printed by llvm-dis), lazily compiling function bodies.
use crate::expr::{mask, E};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

// ---------------------------------------------------------------- values and types
#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(E),
    A(Rc<Vec<Val>>),
}

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, TyId),
    Vec(u64, TyId),
    Struct(bool, Vec<TyId>),
    Label,
    Meta,
    Opaque,
}

#[derive(Clone, Debug)]
pub struct TyInfo {
    pub ty: Ty,
    pub size: u64,
    pub align: u64,
    pub offs: Vec<u64>,
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BK {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
    UIToFP,
    SIToFP,
    FPToUI,
    FPToSI,
    FPExt,
    FPTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BK, u32, u32, bool, Opd, Opd), // kind, lanes (0 scalar), width, is float
    ICmp(Pred, u32, u32, Opd, Opd),
    FCmp(String, bool, Opd, Opd),
    FNeg(bool, Opd),
    Select(Opd, TyId, Opd, Opd),
    Cast(CastK, TyId, TyId, Opd),
    Freeze(Opd),
    Alloca(u64, Opd),
    Load(TyId, Opd),
    Store(TyId, Opd, Opd),
    Gep(Opd, i64, Vec<(i64, Opd, u32)>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Call {
        callee: Callee,
        args: Vec<(TyId, Opd)>,
        ret: TyId,
        next: u32, // invoke normal destination or u32::MAX
    },
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Opd, Opd, Vec<u32>),
    ExtractElem(Opd, Opd),
    InsertElem(Opd, Opd, Opd),
    Shuffle(Opd, Opd, u32, Vec<Option<u32>>),
    AtomicRmw(String, TyId, Opd, Opd),
    CmpXchg(TyId, Opd, Opd, Opd),
    Fence,
    Unsup(String),
}

pub struct Inst {
    pub i: I,
    pub dst: u32, // u32::MAX when none
    pub dbg: u32,
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
    pub hit: Cell<bool>,
}

pub struct Func {
    pub id: u32,
    pub name: String,
    pub params: Vec<(TyId, u32)>,
    pub blocks: Vec<Block>,
    pub reg_ty: Vec<TyId>,
    pub reg_blk: Vec<u32>,
    pub dbg: u32,
    doms: RefCell<Option<(Vec<u32>, Vec<u32>)>>, // (idom, ipdom); u32::MAX none / exit
}

pub const NONE: u32 = u32::MAX;

impl Block {
    pub fn succs(&self) -> Vec<u32> {
        match self.insts.last().map(|x| &x.i) {
            Some(I::Br(b)) => vec![*b],
            Some(I::CondBr(_, a, b)) => vec![*a, *b],
            Some(I::Switch(_, _, d, cs)) => {
                let mut v = vec![*d];
                v.extend(cs.iter().map(|c| c.1));
                v.sort();
                v.dedup();
                v
            }
            Some(I::Call { next, .. }) if *next != NONE => vec![*next],
            _ => vec![],
        }
    }
    fn is_ret(&self) -> bool {
        matches!(self.insts.last().map(|x| &x.i), Some(I::Ret(_)))
    }
}

/// Cooper-Harvey-Kennedy dominators; returns idom indexed by node, NONE for unreachable nodes.
fn dominators(n: usize, root: usize, succ: &[Vec<u32>]) -> Vec<u32> {
    let mut order = vec![];
    let mut seen = vec![false; n];
    let mut stack = vec![(root, 0usize)];
    seen[root] = true;
    while let Some((b, i)) = stack.pop() {
        if i < succ[b].len() {
            stack.push((b, i + 1));
            let s = succ[b][i] as usize;
            if !seen[s] {
                seen[s] = true;
                stack.push((s, 0));
            }
        } else {
            order.push(b);
        }
    }
    order.reverse();
    let mut num = vec![usize::MAX; n];
    for (i, b) in order.iter().enumerate() {
        num[*b] = i;
    }
    let mut preds = vec![vec![]; n];
    for b in &order {
        for s in &succ[*b] {
            preds[*s as usize].push(*b);
        }
    }
    let mut idom = vec![NONE; n];
    idom[root] = root as u32;
    loop {
        let mut changed = false;
        for &b in order.iter().skip(1) {
            let mut new = NONE;
            for &p in &preds[b] {
                if idom[p] == NONE {
                    continue;
                }
                if new == NONE {
                    new = p as u32;
                } else {
                    let (mut x, mut y) = (new as usize, p);
                    while x != y {
                        while num[x] > num[y] {
                            x = idom[x] as usize;
                        }
                        while num[y] > num[x] {
                            y = idom[y] as usize;
                        }
                    }
                    new = x as u32;
                }
            }
            if new != idom[b] {
                idom[b] = new;
                changed = true;
            }
        }
        if !changed {
            break;
        }
    }
    idom
}

impl Func {
    fn ensure_doms(&self) {
        if self.doms.borrow().is_some() {
            return;
        }
        let n = self.blocks.len();
        let succ: Vec<Vec<u32>> = self.blocks.iter().map(|b| b.succs()).collect();
        let idom = dominators(n, 0, &succ);
        // reverse graph with virtual exit n
        let mut rs = vec![vec![]; n + 1];
        for (i, b) in self.blocks.iter().enumerate() {
            for s in &succ[i] {
                rs[*s as usize].push(i as u32);
            }
            if b.is_ret() {
                rs[n].push(i as u32);
            }
        }
        let mut ip = dominators(n + 1, n, &rs);
        ip.truncate(n);
        for x in ip.iter_mut() {
            if *x == n as u32 {
                *x = NONE;
            }
        }
        *self.doms.borrow_mut() = Some((idom, ip));
    }
    /// Immediate post-dominator, or NONE when it is the function's exit.
    pub fn ipdom(&self, b: u32) -> u32 {
        self.ensure_doms();
        self.doms.borrow().as_ref().unwrap().1[b as usize]
    }
    /// Does block a dominate block b?
    pub fn dominates(&self, a: u32, b: u32) -> bool {
        self.ensure_doms();
        let d = self.doms.borrow();
        let idom = &d.as_ref().unwrap().0;
        let mut x = b;
        loop {
            if x == a {
                return true;
            }
            let y = idom[x as usize];
            if y == x || y == NONE {
                return false;
            }
            x = y;
        }
    }
}

// ---------------------------------------------------------------- module
pub struct FnInfo {
    pub name: String,
    pub body: Option<(usize, usize)>, // header start, end offsets in text
    pub weak: bool,
    pub alias: Option<u32>,
}
pub struct GlobalInfo {
    pub name: String,
    pub off: usize,
    pub end: usize,
    pub konst: bool,
    pub external: bool,
    pub tls: bool,
}

pub enum Sym {
    Fn(u32),
    Global(u32),
}

pub struct Module {
    pub text: String,
    pub fns: Vec<FnInfo>,
    pub globals: Vec<GlobalInfo>,
    pub syms: HashMap<String, Sym>,
    named: HashMap<String, usize>, // named type -> offset of definition
    meta: Vec<(usize, u32)>,       // metadata offsets by id
    pub tys: RefCell<Vec<Rc<TyInfo>>>,
    tymap: RefCell<HashMap<Ty, TyId>>,
    cache: RefCell<HashMap<u32, Rc<Func>>>,
}

pub const FN_BASE: u64 = 1 << 28; // object ids of functions
pub fn fn_addr(i: u32) -> u64 {
    (FN_BASE + i as u64) << 24
}
pub fn addr_fn(a: u64) -> Option<u32> {
    let id = a >> 24;
    if a & 0xff_ffff == 0 && id >= FN_BASE && id < FN_BASE + (1 << 24) {
        Some((id - FN_BASE) as u32)
    } else {
        None
    }
}
pub fn glob_addr(i: u32) -> u64 {
    (i as u64 + 1) << 24
}

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    Word(&'a str),
    Local(String),
    Global(String),
    MetaId(u32),
    MetaOther,
    Num(&'a str),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(u8),
    Attr,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    p: usize,
    end: usize,
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() {
            let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            v.push(h(b[i + 1]) * 16 + h(b[i + 2]));
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            v.push(b'\\');
            i += 2;
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

impl<'a> Lex<'a> {
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.p += 1;
        let st = self.p;
        while self.s[self.p] != b'"' {
            self.p += 1;
        }
        let r = unescape(&self.s[st..self.p]);
        self.p += 1;
        r
    }
    fn name(&mut self) -> String {
        if self.s[self.p] == b'"' {
            return String::from_utf8_lossy(&self.quoted()).into_owned();
        }
        let st = self.p;
        while self.p < self.end {
            let c = self.s[self.p];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' {
                self.p += 1;
            } else {
                break;
            }
        }
        String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
    }
    fn next(&mut self) -> T<'a> {
        loop {
            while self.p < self.end && self.s[self.p].is_ascii_whitespace() {
                self.p += 1;
            }
            if self.p < self.end && self.s[self.p] == b';' {
                while self.p < self.end && self.s[self.p] != b'\n' {
                    self.p += 1;
                }
                continue;
            }
            break;
        }
        if self.p >= self.end {
            return T::Eof;
        }
        let c = self.s[self.p];
        match c {
            b'%' => {
                self.p += 1;
                T::Local(self.name())
            }
            b'@' => {
                self.p += 1;
                T::Global(self.name())
            }
            b'#' => {
                self.p += 1;
                while self.p < self.end && self.s[self.p].is_ascii_digit() {
                    self.p += 1;
                }
                T::Attr
            }
            b'!' => {
                self.p += 1;
                let st = self.p;
                while self.p < self.end && self.s[self.p].is_ascii_digit() {
                    self.p += 1;
                }
                if self.p > st {
                    let n = std::str::from_utf8(&self.s[st..self.p]).unwrap();
                    return T::MetaId(n.parse().unwrap());
                }
                while self.p < self.end
                    && (self.s[self.p].is_ascii_alphanumeric()
                        || self.s[self.p] == b'_'
                        || self.s[self.p] == b'.')
                {
                    self.p += 1;
                }
                T::MetaOther
            }
            b'"' => T::Str(self.quoted()),
            b'c' if self.p + 1 < self.end && self.s[self.p + 1] == b'"' => {
                self.p += 1;
                T::CStr(self.quoted())
            }
            b'-' | b'0'..=b'9' => {
                let st = self.p;
                self.p += 1;
                while self.p < self.end {
                    let c = self.s[self.p];
                    if c.is_ascii_alphanumeric() || c == b'.' || c == b'+' || (c == b'-' && matches!(self.s[self.p-1], b'e'|b'E')) {
                        self.p += 1;
                    } else {
                        break;
                    }
                }
                T::Num(std::str::from_utf8(&self.s[st..self.p]).unwrap())
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                let st = self.p;
                while self.p < self.end {
                    let c = self.s[self.p];
                    if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' {
                        self.p += 1;
                    } else {
                        break;
                    }
                }
                T::Word(std::str::from_utf8(&self.s[st..self.p]).unwrap())
            }
            _ => {
                self.p += 1;
                T::P(c)
            }
        }
    }
    fn peek(&mut self) -> T<'a> {
        let p = self.p;
        let t = self.next();
        self.p = p;
        t
    }
    fn eat(&mut self, c: u8) -> bool {
        let p = self.p;
        if self.next() == T::P(c) {
            true
        } else {
            self.p = p;
            false
        }
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let p = self.p;
        if self.next() == T::Word(w) {
            true
        } else {
            self.p = p;
            false
        }
    }
    fn expect(&mut self, c: u8) {
        let t = self.next();
        if t != T::P(c) {
            self.fail(&format!("expected '{}' got {:?}", c as char, t));
        }
    }
    fn fail(&self, m: &str) -> ! {
        let st = self.p.saturating_sub(120);
        let e = (self.p + 80).min(self.s.len());
        panic!(
            "IR parse error: {} near <<{}>>",
            m,
            String::from_utf8_lossy(&self.s[st..e])
        );
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                T::Eof => self.fail("eof in parens"),
                _ => {}
            }
        }
    }
}

struct FnCtx {
    regs: HashMap<String, u32>,
    reg_ty: Vec<TyId>,
    reg_blk: Vec<u32>,
    blocks: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.reg_ty.len() as u32;
        self.reg_ty.push(0);
        self.reg_blk.push(0);
        self.regs.insert(n.to_string(), r);
        r
    }
    fn blk(&mut self, n: &str) -> u32 {
        *self
            .blocks
            .get(n)
            .unwrap_or_else(|| panic!("unknown block {}", n))
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
            // tolerate non-utf8
            let b = std::fs::read(path).unwrap_or_else(|_| panic!("cannot read {}: {}", path, e));
            String::from_utf8_lossy(&b).into_owned()
        });
        let mut m = Module {
            text: String::new(),
            fns: vec![],
            globals: vec![],
            syms: HashMap::new(),
            named: HashMap::new(),
            meta: vec![],
            tys: RefCell::new(vec![]),
            tymap: RefCell::new(HashMap::new()),
            cache: RefCell::new(HashMap::new()),
        };
        m.ty(Ty::Void);
        let b = text.as_bytes();
        let mut p = 0;
        let mut aliases: Vec<(String, usize, usize)> = vec![];
        while p < b.len() {
            let e = p + memchr(b'\n', &b[p..]).unwrap_or(b.len() - p);
            let c = b[p.min(b.len() - 1)];
            if e > p {
                match c {
                    b'@' => {
                        let mut l = Lex { s: b, p: p + 1, end: e };
                        let name = l.name();
                        l.expect(b'=');
                        let mut external = false;
                        let mut tls = false;
                        loop {
                            match l.next() {
                                T::Word("global") | T::Word("constant") => break,
                                T::Word("external") | T::Word("extern_weak") => external = true,
                                T::Word("alias") => {
                                    aliases.push((name.clone(), l.p, e));
                                    break;
                                }
                                T::Word("thread_local") => {
                                    tls = true;
                                    if l.peek() == T::P(b'(') {
                                        l.skip_parens();
                                    }
                                }
                                T::Eof => break,
                                _ => {}
                            }
                        }
                        if aliases.last().map(|a| a.0 == name) != Some(true) {
                            let konst = b[p..l.p].ends_with(b"constant");
                            m.syms
                                .insert(name.clone(), Sym::Global(m.globals.len() as u32));
                            m.globals.push(GlobalInfo {
                                name,
                                off: l.p,
                                end: e,
                                konst,
                                external,
                                tls,
                            });
                        }
                    }
                    b'%' => {
                        let mut l = Lex { s: b, p: p + 1, end: e };
                        let name = l.name();
                        l.expect(b'=');
                        l.next(); // type
                        m.named.insert(name, l.p);
                    }
                    b'd' if b[p..].starts_with(b"define ") || b[p..].starts_with(b"declare ") => {
                        let at = p + memchr(b'@', &b[p..e]).unwrap_or_else(|| panic!("no @"));
                        let mut l = Lex { s: b, p: at + 1, end: e };
                        let name = l.name();
                        let def = b[p + 2] == b'f';
                        let weak = text[p..at].contains("extern_weak");
                        let mut end = e;
                        if def {
                            // find "\n}\n"
                            let mut q = e;
                            loop {
                                let n = q + 1 + memchr(b'\n', &b[q + 1..]).unwrap();
                                if b[q + 1] == b'}' {
                                    end = n;
                                    break;
                                }
                                q = n;
                            }
                        }
                        m.syms.insert(name.clone(), Sym::Fn(m.fns.len() as u32));
                        m.fns.push(FnInfo {
                            name,
                            body: if def { Some((p, end)) } else { None },
                            weak,
                            alias: None,
                        });
                        p = end + 1;
                        continue;
                    }
                    b'!' => {
                        let mut l = Lex { s: b, p, end: e };
                        if let T::MetaId(n) = l.next() {
                            let n = n as usize;
                            if m.meta.len() <= n {
                                m.meta.resize(n + 1, (0, 0));
                            }
                            m.meta[n] = (p, (e - p) as u32);
                        }
                    }
                    _ => {}
                }
            }
            p = e + 1;
        }
        m.text = text;
        for (name, p, e) in aliases {
            let t = m.text.clone();
            let mut l = Lex { s: t.as_bytes(), p, end: e };
            loop {
                match l.next() {
                    T::Global(g) => {
                        let s = match m.syms.get(&g) {
                            Some(Sym::Fn(i)) => Sym::Fn(*i),
                            Some(Sym::Global(i)) => Sym::Global(*i),
                            None => break,
                        };
                        m.syms.insert(name, s);
                        break;
                    }
                    T::Eof => break,
                    _ => {}
                }
            }
        }
        m
    }

    // ------------------------------------------------------------ types
    /// The number of bytes a load or store touches.
    pub fn store_size(&self, t: TyId) -> u64 {
        let i = self.info(t);
        match &i.ty {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => i.size,
        }
    }
    pub fn ty(&self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.borrow().get(&t) {
            return i;
        }
        let mut offs = vec![];
        let (size, align) = match &t {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Opaque => (0, 1),
            Ty::Int(w) => {
                let s = ((*w as u64) + 7) / 8;
                let a = match *w {
                    1..=8 => 1,
                    9..=16 => 2,
                    17..=32 => 4,
                    33..=64 => 8,
                    _ => 16,
                };
                ((s + a - 1) / a * a, a)
            }
            Ty::Ptr => (8, 8),
            Ty::F32 => (4, 4),
            Ty::F64 => (8, 8),
            Ty::Arr(n, e) => {
                let i = self.info(*e);
                (n * i.size, i.align)
            }
            Ty::Vec(n, e) => {
                let bits = n * self.bits(*e);
                let s = (bits + 7) / 8;
                (s, s.next_power_of_two())
            }
            Ty::Struct(packed, fs) => {
                let mut o = 0u64;
                let mut al = 1;
                for f in fs {
                    let i = self.info(*f);
                    if !packed {
                        o = (o + i.align - 1) / i.align * i.align;
                        al = al.max(i.align);
                    }
                    offs.push(o);
                    o += i.size;
                }
                ((o + al - 1) / al * al, al)
            }
        };
        let id = self.tys.borrow().len() as TyId;
        self.tys.borrow_mut().push(Rc::new(TyInfo {
            ty: t.clone(),
            size,
            align,
            offs,
        }));
        self.tymap.borrow_mut().insert(t, id);
        id
    }
    pub fn info(&self, t: TyId) -> Rc<TyInfo> {
        self.tys.borrow()[t as usize].clone()
    }
    pub fn bits(&self, t: TyId) -> u64 {
        match &self.info(t).ty {
            Ty::Int(w) => *w as u64,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, e) => n * self.bits(*e),
            _ => 0,
        }
    }
    /// (lanes, lane width); lanes == 0 for scalars
    pub fn lanes(&self, t: TyId) -> (u32, u32) {
        match &self.info(t).ty {
            Ty::Vec(n, e) => (*n as u32, self.bits(*e) as u32),
            _ => (0, self.bits(t) as u32),
        }
    }
    fn is_float(&self, t: TyId) -> bool {
        match &self.info(t).ty {
            Ty::F32 | Ty::F64 => true,
            Ty::Vec(_, e) => self.is_float(*e),
            _ => false,
        }
    }
    pub fn zero(&self, t: TyId) -> Val {
        match &self.info(t).ty {
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                let z = self.zero(*e);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(_, fs) => Val::A(Rc::new(fs.iter().map(|f| self.zero(*f)).collect())),
            _ => Val::C(0),
        }
    }

    fn lex(&self, p: usize, end: usize) -> Lex<'_> {
        Lex {
            s: self.text.as_bytes(),
            p,
            end,
        }
    }

    fn parse_ty(&self, l: &mut Lex) -> TyId {
        let t = match l.next() {
            T::Word(w) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    if l.eat_word("addrspace") {
                        l.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                "token" | "half" | "x86_fp80" | "fp128" => Ty::Opaque,
                _ if w.starts_with('i') => match w[1..].parse() {
                    Ok(n) => Ty::Int(n),
                    Err(_) => l.fail(&format!("type word {}", w)),
                },
                _ => l.fail(&format!("type word {}", w)),
            },
            T::P(b'[') => {
                let n = self.num(l) as u64;
                l.next();
                let e = self.parse_ty(l);
                l.expect(b']');
                Ty::Arr(n, e)
            }
            T::P(b'<') => {
                if l.eat(b'{') {
                    let fs = self.ty_list(l);
                    l.expect(b'>');
                    Ty::Struct(true, fs)
                } else {
                    let n = self.num(l) as u64;
                    l.next();
                    let e = self.parse_ty(l);
                    l.expect(b'>');
                    Ty::Vec(n, e)
                }
            }
            T::P(b'{') => {
                let fs = self.ty_list(l);
                Ty::Struct(false, fs)
            }
            T::Local(n) => {
                let off = *self
                    .named
                    .get(&n)
                    .unwrap_or_else(|| l.fail(&format!("named type {}", n)));
                let mut l2 = self.lex(off, self.text.len());
                return self.parse_ty(&mut l2);
            }
            t => l.fail(&format!("type {:?}", t)),
        };
        self.ty(t)
    }
    fn ty_list(&self, l: &mut Lex) -> Vec<TyId> {
        let mut v = vec![];
        if l.eat(b'}') {
            return v;
        }
        loop {
            v.push(self.parse_ty(l));
            if !l.eat(b',') {
                break;
            }
        }
        l.expect(b'}');
        v
    }
    fn num(&self, l: &mut Lex) -> i128 {
        match l.next() {
            T::Num(n) => n.parse().unwrap_or_else(|_| l.fail("number")),
            t => l.fail(&format!("number, got {:?}", t)),
        }
    }

    // ------------------------------------------------------------ constants
    pub fn sym_addr(&self, n: &str) -> u64 {
        match self.syms.get(n) {
            Some(Sym::Fn(i)) => {
                let f = &self.fns[*i as usize];
                if f.weak && f.body.is_none() {
                    0
                } else {
                    fn_addr(*i)
                }
            }
            Some(Sym::Global(i)) => glob_addr(*i),
            None => panic!("unknown symbol @{}", n),
        }
    }

    fn konst(&self, l: &mut Lex, t: TyId) -> Val {
        let info = self.info(t);
        match l.next() {
            T::Global(g) => Val::C(self.sym_addr(&g) as u128),
            T::Num(n) => match info.ty {
                Ty::F32 | Ty::F64 => {
                    let f: f64 = if n == "-inf" {
                        f64::NEG_INFINITY
                    } else if n.starts_with("-nan") || n.starts_with("-qnan") || n.starts_with("-snan") {
                        -f64::NAN
                    } else if let Some(h) = n.strip_prefix("0x") {
                        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                    } else {
                        n.parse().unwrap()
                    };
                    if info.ty == Ty::F32 {
                        Val::C((f as f32).to_bits() as u128)
                    } else {
                        Val::C(f.to_bits() as u128)
                    }
                }
                Ty::Int(w) => {
                    let v: i128 = match n.parse::<i128>() {
                        Ok(v) => v,
                        Err(_) => n.parse::<u128>().unwrap() as i128,
                    };
                    Val::C(v as u128 & mask(w))
                }
                _ => l.fail("numeric constant of odd type"),
            },
            T::Word(h) if h.starts_with("f0x") && matches!(info.ty, Ty::F32 | Ty::F64) => Val::C(u128::from_str_radix(&h[3..], 16).unwrap()),
            T::Word("true") => Val::C(1),
            T::Word("false") => Val::C(0),
            T::Word("null") | T::Word("none") => Val::C(0),
            T::Word("undef") | T::Word("poison") | T::Word("zeroinitializer") => self.zero(t),
            T::CStr(b) => Val::A(Rc::new(b.iter().map(|x| Val::C(*x as u128)).collect())),
            T::P(b'+') if matches!(info.ty, Ty::F32 | Ty::F64) => {
                let v = match l.next() {
                    T::Word("inf") => f64::INFINITY,
                    T::Word(_) => f64::NAN,
                    _ => l.fail("floating point constant"),
                };
                Val::C(if info.ty == Ty::F32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 })
            }
            T::P(b'[') => self.klist(l, b']'),
            T::P(b'<') => {
                if l.eat(b'{') {
                    let v = self.klist(l, b'}');
                    l.expect(b'>');
                    v
                } else {
                    self.klist(l, b'>')
                }
            }
            T::P(b'{') => self.klist(l, b'}'),
            T::Word("splat") => {
                l.expect(b'(');
                let e = self.parse_ty(l);
                let v = self.konst(l, e);
                l.expect(b')');
                let n = match info.ty {
                    Ty::Vec(n, _) => n,
                    _ => l.fail("splat"),
                };
                Val::A(Rc::new(vec![v; n as usize]))
            }
            T::Word("getelementptr") => {
                while let T::Word(_) = l.peek() {
                    l.next();
                    if l.peek() == T::P(b'(') {
                        // inrange(...) or the operand list
                        break;
                    }
                }
                l.expect(b'(');
                // inrange(-16, 32) form: numbers directly
                if let T::Num(_) = l.peek() {
                    self.num(l);
                    l.expect(b',');
                    self.num(l);
                    l.expect(b')');
                    l.expect(b'(');
                }
                let et = self.parse_ty(l);
                l.expect(b',');
                self.parse_ty(l);
                let base = cval(&self.konst(l, self.ty(Ty::Ptr)));
                let mut off = 0i64;
                let mut cur = et;
                let mut first = true;
                while l.eat(b',') {
                    let it = self.parse_ty(l);
                    let iv = cval(&self.konst(l, it));
                    let iw = self.bits(it) as u32;
                    let i = crate::expr::sext(iv, iw) as i64;
                    off += self.gep_step(&mut cur, i, first);
                    first = false;
                }
                l.expect(b')');
                Val::C((base as u64).wrapping_add(off as u64) as u128)
            }
            T::Word(w @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast")) => {
                let _ = w;
                l.expect(b'(');
                let ft = self.parse_ty(l);
                let v = self.konst(l, ft);
                l.next(); // to
                let tt = self.parse_ty(l);
                l.expect(b')');
                Val::C(cval(&v) & mask(self.bits(tt) as u32))
            }
            T::Word(w @ ("sub" | "add" | "xor" | "and" | "or" | "mul")) => {
                while let T::Word(_) = l.peek() {
                    l.next();
                }
                l.expect(b'(');
                let ft = self.parse_ty(l);
                let a = cval(&self.konst(l, ft));
                l.expect(b',');
                let tt = self.parse_ty(l);
                let b = cval(&self.konst(l, tt));
                l.expect(b')');
                let r = match w {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    "mul" => a.wrapping_mul(b),
                    "xor" => a ^ b,
                    "and" => a & b,
                    _ => a | b,
                };
                Val::C(r & mask(self.bits(ft) as u32))
            }
            t => l.fail(&format!("constant {:?}", t)),
        }
    }
    fn klist(&self, l: &mut Lex, close: u8) -> Val {
        let mut v = vec![];
        if l.eat(close) {
            return Val::A(Rc::new(v));
        }
        loop {
            let t = self.parse_ty(l);
            v.push(self.konst(l, t));
            if !l.eat(b',') {
                break;
            }
        }
        l.expect(close);
        Val::A(Rc::new(v))
    }
    fn gep_step(&self, cur: &mut TyId, i: i64, first: bool) -> i64 {
        if first {
            return i * self.info(*cur).size as i64;
        }
        let info = self.info(*cur);
        match &info.ty {
            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                *cur = *e;
                i * self.info(*e).size as i64
            }
            Ty::Struct(_, fs) => {
                let o = info.offs[i as usize] as i64;
                *cur = fs[i as usize];
                o
            }
            _ => panic!("gep into {:?}", info.ty),
        }
    }

    pub fn global_init(&self, gi: u32) -> (u64, Option<(TyId, Val)>) {
        let g = &self.globals[gi as usize];
        let mut l = self.lex(g.off, g.end);
        let t = self.parse_ty(&mut l);
        let size = self.info(t).size;
        if g.external {
            return (size, None);
        }
        let v = self.konst(&mut l, t);
        (size, Some((t, v)))
    }

    // ------------------------------------------------------------ functions
    pub fn func(&self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = self.cache.borrow().get(&id) {
            return Some(f.clone());
        }
        let fi = &self.fns[id as usize];
        let (p, e) = fi.body?;
        let f = Rc::new(self.parse_fn(id, p, e));
        self.cache.borrow_mut().insert(id, f.clone());
        Some(f)
    }
    pub fn parsed(&self) -> Vec<Rc<Func>> {
        self.cache.borrow().values().cloned().collect()
    }

    fn skip_attrs(&self, l: &mut Lex) {
        loop {
            let p = l.p;
            match l.next() {
                T::Word(w) => match w {
                    // type words end the attribute list
                    "void" | "ptr" | "float" | "double" | "label" | "metadata" | "half" => {
                        l.p = p;
                        return;
                    }
                    "align" => {
                        if l.peek() == T::P(b'(') {
                            l.skip_parens();
                        } else {
                            l.next();
                        }
                    }
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat"
                    | "getelementptr" | "ptrtoint" | "inttoptr" | "asm" => {
                        l.p = p;
                        return;
                    }
                    _ if w.len() > 1
                        && w.starts_with('i')
                        && w[1..].bytes().all(|c| c.is_ascii_digit()) =>
                    {
                        l.p = p;
                        return;
                    }
                    "cc" => {
                        l.next();
                    }
                    _ => {
                        if l.peek() == T::P(b'(') {
                            l.skip_parens();
                        }
                    }
                },
                T::Str(_) => {
                    // "key"="value" attribute
                    if l.eat(b'=') {
                        l.next();
                    }
                }
                _ => {
                    l.p = p;
                    return;
                }
            }
        }
    }

    fn parse_fn(&self, id: u32, p: usize, e: usize) -> Func {
        let mut l = self.lex(p, e);
        l.next(); // define
        let mut c = FnCtx {
            regs: HashMap::new(),
            reg_ty: vec![],
            reg_blk: vec![],
            blocks: HashMap::new(),
        };
        self.skip_attrs(&mut l);
        let _ret = self.parse_ty(&mut l);
        let name = match l.next() {
            T::Global(n) => n,
            t => l.fail(&format!("fn name {:?}", t)),
        };
        l.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0;
        if !l.eat(b')') {
            loop {
                if l.eat(b'.') {
                    l.next();
                    l.next();
                } else if l.peek() == T::Word("...") {
                    l.next();
                } else {
                    let t = self.parse_ty(&mut l);
                    self.skip_attrs(&mut l);
                    let n = match l.peek() {
                        T::Local(n) => {
                            l.next();
                            n
                        }
                        _ => {
                            unnamed += 1;
                            format!("{}", unnamed - 1)
                        }
                    };
                    let r = c.reg(&n);
                    c.reg_ty[r as usize] = t;
                    params.push((t, r));
                }
                if !l.eat(b',') {
                    break;
                }
            }
            l.expect(b')');
        }
        // to end of header line
        let hs = l.p;
        let he = hs + memchr(b'\n', &l.s[hs..]).unwrap();
        let hdr = &self.text[hs..he];
        let dbg = hdr
            .find("!dbg !")
            .map(|i| {
                hdr[i + 6..]
                    .chars()
                    .take_while(|c| c.is_ascii_digit())
                    .collect::<String>()
                    .parse()
                    .unwrap()
            })
            .unwrap_or(0);
        // collect lines / labels
        let body = &self.text[he + 1..e];
        let mut lines: Vec<(usize, usize)> = vec![];
        let mut labels: Vec<(String, usize)> = vec![]; // name, first line index
        let mut off = he + 1;
        let mut in_switch = false;
        for line in body.split('\n') {
            let st = off;
            off += line.len() + 1;
            let b = line.as_bytes();
            if b.is_empty() || b[0] == b'}' || b[0] == b';' {
                continue;
            }
            if b[0] != b' ' {
                // label
                let mut l2 = self.lex(st, st + line.len());
                let n = l2.name();
                labels.push((n, lines.len()));
                continue;
            }
            if in_switch {
                lines.last_mut().unwrap().1 = st + line.len();
                if line.trim_start().starts_with(']') {
                    in_switch = false;
                }
                continue;
            }
            if line.starts_with("  #dbg") || line.trim_start().starts_with("#dbg") {
                continue;
            }
            // continuation lines of invoke / landingpad
            if line.starts_with("          ") {
                lines.last_mut().unwrap().1 = st + line.len();
                continue;
            }
            if line.trim_start().starts_with("switch ") && line.trim_end().ends_with('[') {
                in_switch = true;
            }
            lines.push((st, st + line.len()));
        }
        if labels.is_empty() || labels[0].1 != 0 {
            // implicit entry label: number after the unnamed params
            let n = format!("{}", params.len());
            labels.insert(0, (n, 0));
        }
        for (i, (n, _)) in labels.iter().enumerate() {
            c.blocks.insert(n.clone(), i as u32);
        }
        let mut blocks: Vec<Block> = vec![];
        for (i, (_, st)) in labels.iter().enumerate() {
            let en = labels.get(i + 1).map(|x| x.1).unwrap_or(lines.len());
            let mut blk = Block {
                phis: vec![],
                insts: vec![],
                hit: Cell::new(false),
            };
            for (a, b) in &lines[*st..en] {
                let mut l = self.lex(*a, *b);
                self.parse_inst(&mut l, &mut c, &mut blk, i as u32);
            }
            blocks.push(blk);
        }
        Func {
            id,
            name,
            params,
            blocks,
            reg_ty: c.reg_ty,
            reg_blk: c.reg_blk,
            dbg,
            doms: RefCell::new(None),
        }
    }

    fn opd(&self, l: &mut Lex, c: &mut FnCtx, t: TyId) -> Opd {
        match l.peek() {
            T::Local(n) => {
                l.next();
                Opd::R(c.reg(&n))
            }
            T::Word("asm") => l.fail("asm operand"),
            T::MetaId(_) | T::MetaOther => {
                // metadata operand: skip to the next top-level comma / paren
                l.next();
                if l.peek() == T::P(b'{') {
                    l.next();
                    while l.next() != T::P(b'}') {}
                } else if l.peek() == T::P(b'(') {
                    l.skip_parens();
                }
                Opd::K(Val::C(0))
            }
            _ => Opd::K(self.konst(l, t)),
        }
    }
    fn topd(&self, l: &mut Lex, c: &mut FnCtx) -> (TyId, Opd) {
        let t = self.parse_ty(l);
        let o = self.opd(l, c, t);
        (t, o)
    }

    fn parse_inst(&self, l: &mut Lex, c: &mut FnCtx, blk: &mut Block, bi: u32) {
        let mut dst = NONE;
        let p = l.p;
        if let T::Local(n) = l.next() {
            if l.eat(b'=') {
                dst = c.reg(&n);
                c.reg_blk[dst as usize] = bi;
            } else {
                l.fail("inst");
            }
        } else {
            l.p = p;
        }
        // trailing dbg location
        let line = std::str::from_utf8(&l.s[l.p..l.end]).unwrap_or("");
        let dbg = line
            .rfind("!dbg !")
            .map(|i| {
                line[i + 6..]
                    .chars()
                    .take_while(|c| c.is_ascii_digit())
                    .collect::<String>()
                    .parse()
                    .unwrap_or(0)
            })
            .unwrap_or(0);
        let mut rty: TyId = 0;
        let mut op = match l.next() {
            T::Word(w) => w.to_string(),
            t => l.fail(&format!("opcode {:?}", t)),
        };
        while matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = match l.next() {
                T::Word(w) => w.to_string(),
                t => l.fail(&format!("opcode {:?}", t)),
            };
        }
        let i64t = self.ty(Ty::Int(64));
        let _ = i64t;
        let i = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor"
            | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while let T::Word(w) = l.peek() {
                    if matches!(
                        w,
                        "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz"
                            | "arcp" | "contract" | "afn" | "reassoc"
                    ) {
                        l.next();
                    } else {
                        break;
                    }
                }
                let (t, a) = self.topd(l, c);
                l.expect(b',');
                let b = self.opd(l, c, t);
                rty = t;
                let k = match op.as_str() {
                    "add" => BK::Add,
                    "sub" => BK::Sub,
                    "mul" => BK::Mul,
                    "udiv" => BK::UDiv,
                    "urem" => BK::URem,
                    "sdiv" => BK::SDiv,
                    "srem" => BK::SRem,
                    "and" => BK::And,
                    "or" => BK::Or,
                    "xor" => BK::Xor,
                    "shl" => BK::Shl,
                    "lshr" => BK::LShr,
                    "ashr" => BK::AShr,
                    "fadd" => BK::FAdd,
                    "fsub" => BK::FSub,
                    "fmul" => BK::FMul,
                    "fdiv" => BK::FDiv,
                    _ => BK::FRem,
                };
                let (n, w) = self.lanes(t);
                I::Bin(k, n, w, self.is_float(t), a, b)
            }
            "icmp" => {
                l.eat_word("samesign");
                let p = match l.next() {
                    T::Word(w) => w.to_string(),
                    _ => l.fail("icmp"),
                };
                let (t, a) = self.topd(l, c);
                l.expect(b',');
                let b = self.opd(l, c, t);
                let pr = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => l.fail("icmp predicate"),
                };
                let (n, w) = self.lanes(t);
                let b1 = self.ty(Ty::Int(1));
                rty = if n > 0 { self.ty(Ty::Vec(n as u64, b1)) } else { b1 };
                I::ICmp(pr, n, w, a, b)
            }
            "fcmp" => {
                let mut p = String::new();
                while let T::Word(w) = l.peek() {
                    if w == "float" || w == "double" {
                        break;
                    }
                    p = w.to_string();
                    l.next();
                }
                let (t, a) = self.topd(l, c);
                l.expect(b',');
                let b = self.opd(l, c, t);
                rty = self.ty(Ty::Int(1));
                I::FCmp(p, self.bits(t) == 64, a, b)
            }
            "fneg" => {
                let (t, a) = self.topd(l, c);
                rty = t;
                I::FNeg(self.bits(t) == 64, a)
            }
            "select" => {
                let (_ct, cnd) = self.topd(l, c);
                l.expect(b',');
                let (t, a) = self.topd(l, c);
                l.expect(b',');
                let (_, b) = self.topd(l, c);
                rty = t;
                I::Select(cnd, t, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp"
            | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                while let T::Word(w) = l.peek() {
                    if matches!(w, "nuw" | "nsw" | "nneg") {
                        l.next();
                    } else {
                        break;
                    }
                }
                let (ft, a) = self.topd(l, c);
                l.next(); // to
                let tt = self.parse_ty(l);
                rty = tt;
                let k = match op.as_str() {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "ptrtoint" => CastK::PtrToInt,
                    "inttoptr" => CastK::IntToPtr,
                    "bitcast" => CastK::Bitcast,
                    "uitofp" => CastK::UIToFP,
                    "sitofp" => CastK::SIToFP,
                    "fptoui" => CastK::FPToUI,
                    "fptosi" => CastK::FPToSI,
                    "fpext" => CastK::FPExt,
                    _ => CastK::FPTrunc,
                };
                I::Cast(k, ft, tt, a)
            }
            "freeze" => {
                let (t, a) = self.topd(l, c);
                rty = t;
                I::Freeze(a)
            }
            "alloca" => {
                l.eat_word("inalloca");
                let t = self.parse_ty(l);
                let mut n = Opd::K(Val::C(1));
                if l.eat(b',') {
                    if let T::Word("align") = l.peek() {
                    } else {
                        n = self.topd(l, c).1;
                    }
                }
                rty = self.ty(Ty::Ptr);
                I::Alloca(self.info(t).size, n)
            }
            "load" => {
                while let T::Word("atomic" | "volatile") = l.peek() {
                    l.next();
                }
                let t = self.parse_ty(l);
                l.expect(b',');
                let (_, a) = self.topd(l, c);
                rty = t;
                I::Load(t, a)
            }
            "store" => {
                while let T::Word("atomic" | "volatile") = l.peek() {
                    l.next();
                }
                let (t, v) = self.topd(l, c);
                l.expect(b',');
                let (_, a) = self.topd(l, c);
                I::Store(t, v, a)
            }
            "getelementptr" => {
                while let T::Word(w) = l.peek() {
                    if matches!(w, "inbounds" | "nuw" | "nusw" | "inrange") {
                        l.next();
                        if l.peek() == T::P(b'(') {
                            l.skip_parens();
                        }
                    } else {
                        break;
                    }
                }
                let et = self.parse_ty(l);
                l.expect(b',');
                let (bt, base) = self.topd(l, c);
                let _ = bt;
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = et;
                let mut first = true;
                while l.eat(b',') {
                    // metadata (!dbg)
                    if let T::MetaOther | T::MetaId(_) = l.peek() {
                        break;
                    }
                    let (it, iv) = self.topd(l, c);
                    let iw = self.bits(it) as u32;
                    match iv {
                        Opd::K(Val::C(k)) => {
                            off += self.gep_step(&mut cur, crate::expr::sext(k, iw) as i64, first)
                        }
                        o => {
                            let sc = if first {
                                self.info(cur).size as i64
                            } else {
                                let info = self.info(cur);
                                match &info.ty {
                                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                        cur = *e;
                                        self.info(*e).size as i64
                                    }
                                    _ => l.fail("gep"),
                                }
                            };
                            terms.push((sc, o, iw));
                        }
                    }
                    first = false;
                }
                rty = self.ty(Ty::Ptr);
                I::Gep(base, off, terms)
            }
            "phi" => {
                let t = self.parse_ty(l);
                let mut v = vec![];
                loop {
                    l.expect(b'[');
                    let o = self.opd(l, c, t);
                    l.expect(b',');
                    let b = match l.next() {
                        T::Local(n) => c.blk(&n),
                        x => l.fail(&format!("phi label {:?}", x)),
                    };
                    l.expect(b']');
                    v.push((b, o));
                    if !l.eat(b',') {
                        break;
                    }
                    if l.peek() != T::P(b'[') {
                        break;
                    }
                }
                c.reg_ty[dst as usize] = t;
                blk.phis.push((dst, v));
                return;
            }
            "br" => {
                if l.eat_word("label") {
                    match l.next() {
                        T::Local(n) => I::Br(c.blk(&n)),
                        _ => l.fail("br"),
                    }
                } else {
                    let (_, cnd) = self.topd(l, c);
                    let mut tg = vec![];
                    for _ in 0..2 {
                        l.expect(b',');
                        l.next();
                        match l.next() {
                            T::Local(n) => tg.push(c.blk(&n)),
                            _ => l.fail("br"),
                        }
                    }
                    if tg[0] == tg[1] {
                        I::Br(tg[0])
                    } else {
                        I::CondBr(cnd, tg[0], tg[1])
                    }
                }
            }
            "switch" => {
                let (t, v) = self.topd(l, c);
                l.expect(b',');
                l.next();
                let d = match l.next() {
                    T::Local(n) => c.blk(&n),
                    _ => l.fail("switch"),
                };
                l.expect(b'[');
                let mut cs = vec![];
                while !l.eat(b']') {
                    let ct = self.parse_ty(l);
                    let k = cval(&self.konst(l, ct));
                    l.expect(b',');
                    l.next();
                    match l.next() {
                        T::Local(n) => cs.push((k, c.blk(&n))),
                        _ => l.fail("switch"),
                    }
                }
                I::Switch(v, self.bits(t) as u32, d, cs)
            }
            "ret" => {
                if l.eat_word("void") {
                    I::Ret(None)
                } else {
                    let (_, v) = self.topd(l, c);
                    I::Ret(Some(v))
                }
            }
            "unreachable" => I::Unreachable,
            "call" | "invoke" => {
                self.skip_attrs(l);
                let t = self.parse_ty(l);
                rty = t;
                // optional function type
                if l.peek() == T::P(b'(') {
                    l.skip_parens();
                }
                let mut asm = None;
                let callee = match l.peek() {
                    T::Word("asm") => {
                        l.next();
                        let mut s = String::new();
                        loop {
                            match l.next() {
                                T::Str(b) => {
                                    s = String::from_utf8_lossy(&b).into_owned();
                                    break;
                                }
                                T::Word(_) => {}
                                _ => l.fail("asm"),
                            }
                        }
                        l.expect(b',');
                        l.next(); // constraints
                        asm = Some(s);
                        None
                    }
                    _ => Some(self.opd(l, c, self.ty(Ty::Ptr))),
                };
                l.expect(b'(');
                let mut args = vec![];
                if !l.eat(b')') {
                    loop {
                        let at = self.parse_ty(l);
                        if self.info(at).ty == Ty::Meta {
                            // skip the metadata operand
                            loop {
                                match l.peek() {
                                    T::P(b',') | T::P(b')') => break,
                                    T::P(b'(') => l.skip_parens(),
                                    T::P(b'{') => {
                                        while l.next() != T::P(b'}') {}
                                    }
                                    _ => {
                                        l.next();
                                    }
                                }
                            }
                            args.push((at, Opd::K(Val::C(0))));
                        } else {
                            self.skip_attrs_arg(l);
                            let o = self.opd(l, c, at);
                            args.push((at, o));
                        }
                        if !l.eat(b',') {
                            break;
                        }
                    }
                    l.expect(b')');
                }
                let mut next = NONE;
                if op == "invoke" {
                    loop {
                        match l.next() {
                            T::Word("to") => {
                                l.next();
                                match l.next() {
                                    T::Local(n) => next = c.blk(&n),
                                    _ => l.fail("invoke"),
                                }
                                break;
                            }
                            T::P(b'[') => {
                                // operand bundle
                                let mut d = 1;
                                while d > 0 {
                                    match l.next() {
                                        T::P(b'[') => d += 1,
                                        T::P(b']') => d -= 1,
                                        T::Eof => l.fail("bundle"),
                                        _ => {}
                                    }
                                }
                            }
                            T::Eof => l.fail("invoke"),
                            _ => {}
                        }
                    }
                }
                let callee = match (callee, asm) {
                    (_, Some(a)) => Callee::Asm(a),
                    (Some(Opd::K(Val::C(a))), _) => match addr_fn(a as u64) {
                        Some(f) => Callee::Fn(f),
                        None => Callee::Ind(Opd::K(Val::C(a))),
                    },
                    (Some(o), _) => Callee::Ind(o),
                    _ => unreachable!(),
                };
                I::Call {
                    callee,
                    args,
                    ret: t,
                    next,
                }
            }
            "extractvalue" => {
                let (t, a) = self.topd(l, c);
                let mut idx = vec![];
                let mut cur = t;
                while l.eat(b',') {
                    if let T::Num(_) = l.peek() {
                        let i = self.num(l) as u32;
                        cur = self.sub_ty(cur, i);
                        idx.push(i);
                    } else {
                        break;
                    }
                }
                rty = cur;
                I::ExtractValue(a, idx)
            }
            "insertvalue" => {
                let (t, a) = self.topd(l, c);
                l.expect(b',');
                let (_, v) = self.topd(l, c);
                let mut idx = vec![];
                while l.eat(b',') {
                    if let T::Num(_) = l.peek() {
                        idx.push(self.num(l) as u32);
                    } else {
                        break;
                    }
                }
                rty = t;
                I::InsertValue(a, v, idx)
            }
            "extractelement" => {
                let (t, a) = self.topd(l, c);
                l.expect(b',');
                let (_, ix) = self.topd(l, c);
                rty = self.sub_ty(t, 0);
                I::ExtractElem(a, ix)
            }
            "insertelement" => {
                let (t, a) = self.topd(l, c);
                l.expect(b',');
                let (_, v) = self.topd(l, c);
                l.expect(b',');
                let (_, ix) = self.topd(l, c);
                rty = t;
                I::InsertElem(a, v, ix)
            }
            "shufflevector" => {
                let (t, a) = self.topd(l, c);
                l.expect(b',');
                let (_, b) = self.topd(l, c);
                l.expect(b',');
                let mt = self.parse_ty(l);
                let mlen = match self.info(mt).ty {
                    Ty::Vec(n, _) => n,
                    _ => l.fail("mask"),
                };
                let mut mv = vec![];
                match l.peek() {
                    T::Word("zeroinitializer") => {
                        l.next();
                        mv = vec![Some(0); mlen as usize];
                    }
                    T::Word("poison" | "undef") => {
                        l.next();
                        mv = vec![None; mlen as usize];
                    }
                    T::P(b'<') => {
                        l.next();
                        loop {
                            let it = self.parse_ty(l);
                            if let T::Word("poison" | "undef") = l.peek() {
                                l.next();
                                mv.push(None);
                            } else {
                                mv.push(Some(cval(&self.konst(l, it)) as u32));
                            }
                            if !l.eat(b',') {
                                break;
                            }
                        }
                        l.expect(b'>');
                    }
                    T::Word("splat") => {
                        let v = self.konst(l, mt);
                        if let Val::A(v) = v {
                            mv = v.iter().map(|x| Some(cval(x) as u32)).collect();
                        }
                    }
                    x => l.fail(&format!("mask {:?}", x)),
                }
                let (n, et) = match self.info(t).ty {
                    Ty::Vec(n, e) => (n as u32, e),
                    _ => l.fail("shuffle"),
                };
                rty = self.ty(Ty::Vec(mlen, et));
                I::Shuffle(a, b, n, mv)
            }
            "atomicrmw" => {
                l.eat_word("volatile");
                let k = match l.next() {
                    T::Word(w) => w.to_string(),
                    _ => l.fail("rmw"),
                };
                let (_, p) = self.topd(l, c);
                l.expect(b',');
                let (t, v) = self.topd(l, c);
                rty = t;
                I::AtomicRmw(k, t, p, v)
            }
            "cmpxchg" => {
                while let T::Word("weak" | "volatile") = l.peek() {
                    l.next();
                }
                let (_, p) = self.topd(l, c);
                l.expect(b',');
                let (t, e) = self.topd(l, c);
                l.expect(b',');
                let (_, n) = self.topd(l, c);
                let b1 = self.ty(Ty::Int(1));
                rty = self.ty(Ty::Struct(false, vec![t, b1]));
                I::CmpXchg(t, p, e, n)
            }
            "fence" => I::Fence,
            "landingpad" | "resume" | "cleanupret" | "catchswitch" | "va_arg" | "indirectbr" => {
                if op == "landingpad" {
                    rty = self.parse_ty(l);
                }
                I::Unsup(op.clone())
            }
            _ => l.fail(&format!("unknown opcode {}", op)),
        };
        if dst != NONE {
            c.reg_ty[dst as usize] = rty;
        }
        blk.insts.push(Inst { i, dst, dbg });
    }

    fn skip_attrs_arg(&self, l: &mut Lex) {
        loop {
            let p = l.p;
            match l.next() {
                T::Word(w) => match w {
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat"
                    | "getelementptr" | "ptrtoint" | "inttoptr" | "none" | "bitcast" | "sub"
                    | "add" | "trunc" => {
                        l.p = p;
                        return;
                    }
                    "align" => {
                        if l.peek() == T::P(b'(') {
                            l.skip_parens();
                        } else {
                            l.next();
                        }
                    }
                    _ => {
                        if l.peek() == T::P(b'(') {
                            l.skip_parens();
                        }
                    }
                },
                T::Str(_) => {
                    if l.eat(b'=') {
                        l.next();
                    }
                }
                _ => {
                    l.p = p;
                    return;
                }
            }
        }
    }

    pub fn sub_ty(&self, t: TyId, i: u32) -> TyId {
        match &self.info(t).ty {
            Ty::Arr(_, e) | Ty::Vec(_, e) => *e,
            Ty::Struct(_, fs) => fs[i as usize],
            x => panic!("sub_ty of {:?}", x),
        }
    }

    // ------------------------------------------------------------ debug metadata
    fn meta_str(&self, id: u32) -> &str {
        match self.meta.get(id as usize) {
            Some((p, n)) => &self.text[*p..*p + *n as usize],
            None => "",
        }
    }
    fn field<'b>(s: &'b str, k: &str) -> Option<&'b str> {
        for pre in ["(", ", "] {
            let pat = format!("{}{}: ", pre, k);
            if let Some(i) = s.find(&pat) {
                let r = &s[i + pat.len()..];
                if let Some(q) = r.strip_prefix('"') {
                    return q.find('"').map(|e| &q[..e]);
                }
                let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
                return Some(&r[..e]);
            }
        }
        None
    }
    fn field_id(s: &str, k: &str) -> Option<u32> {
        Self::field(s, k)?.strip_prefix('!')?.parse().ok()
    }
    fn file_of(&self, mut scope: u32) -> Option<(String, String)> {
        // returns (file path, subprogram linkage name)
        let mut file = None;
        for _ in 0..64 {
            let s = self.meta_str(scope);
            if file.is_none() {
                if let Some(f) = Self::field_id(s, "file") {
                    let fs = self.meta_str(f);
                    let name = Self::field(fs, "filename")?;
                    let dir = Self::field(fs, "directory").unwrap_or("");
                    file = Some(if name.starts_with('/') {
                        name.to_string()
                    } else {
                        format!("{}/{}", dir, name)
                    });
                }
            }
            if s.contains("DISubprogram(") {
                let n = Self::field(s, "linkageName")
                    .or(Self::field(s, "name"))
                    .unwrap_or("")
                    .to_string();
                return Some((file?, n));
            }
            scope = Self::field_id(s, "scope")?;
        }
        None
    }
    /// Chain of (file, line, subprogram) for a location, innermost first.
    pub fn loc(&self, mut id: u32) -> Vec<(String, u32, String)> {
        let mut v = vec![];
        while id != 0 && v.len() < 40 {
            let s = self.meta_str(id);
            if !s.contains("DILocation(") {
                break;
            }
            let line = Self::field(s, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
            if let Some(sc) = Self::field_id(s, "scope") {
                if let Some((f, n)) = self.file_of(sc) {
                    v.push((f, line, n));
                }
            }
            id = Self::field_id(s, "inlinedAt").unwrap_or(0);
        }
        v
    }
    pub fn subprogram_file(&self, id: u32) -> Option<(String, String)> {
        self.file_of(id)
    }
}

pub fn cval(v: &Val) -> u128 {
    match v {
        Val::C(x) => *x,
        _ => panic!("constant expected"),
    }
}

fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|x| *x == c)
}
