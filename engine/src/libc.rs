//! Intrinsics, the environment (libc, virtual file system) and the harness interface (psym_*).
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::BTreeMap;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq)]
pub enum FsNode {
    Dir,
    File(Rc<Vec<E>>),
}
#[derive(Clone, PartialEq)]
pub struct Fd {
    pub path: Vec<u8>,
    pub pos: usize,
    pub flags: u64,
    pub kind: u8, // b'f' file, b'd' dir, b'0' stdin, b'1' stdout, b'2' stderr
}
#[derive(Clone, PartialEq)]
pub struct Fs {
    pub nodes: BTreeMap<Vec<u8>, FsNode>,
    pub fds: Vec<Option<Fd>>,
    pub stdin: Rc<Vec<E>>,
    pub stdin_pos: usize,
    pub stdin_ends: u32,
    pub stdout: Rc<Vec<E>>,
    pub stderr: Rc<Vec<E>>,
    pub budget: u64, // remaining faults
    pub kinds: u64,  // bit 0: error, bit 1: short write, bit 2: crash
    pub ops: u64,
    pub tty: bool,
    pub keys: u64,
    pub specific: BTreeMap<u64, u64>,
}
impl Fs {
    pub fn new() -> Fs {
        let mut nodes = BTreeMap::new();
        for d in ["/", "/scratch", "/home", "/home/u"] {
            nodes.insert(d.as_bytes().to_vec(), FsNode::Dir);
        }
        let std = |k: u8| {
            Some(Fd {
                path: vec![],
                pos: 0,
                flags: 2,
                kind: k,
            })
        };
        Fs {
            nodes,
            fds: vec![std(b'0'), std(b'1'), std(b'2')],
            stdin: Rc::new(vec![]),
            stdin_pos: 0,
            stdin_ends: 0,
            stdout: Rc::new(vec![]),
            stderr: Rc::new(vec![]),
            budget: 0,
            kinds: 0,
            ops: 0,
            tty: false,
            keys: 0,
            specific: BTreeMap::new(),
        }
    }
}

pub fn init_extern_global(_name: &str, _o: &mut Obj) {}

/// Functions of the standard library replaced by environment models.
pub fn rust_hook(n: &str) -> Option<&'static str> {
    if n.contains("3std3sys6random5linux19hashmap_random_keys") || n.ends_with("19hashmap_random_keys") {
        return Some("rust_hashmap_keys");
    }
    if n.contains("4core5slice6memchr14memchr_aligned") {
        return Some("rust_memchr");
    }
    if n.contains("4core5slice6memchr15memrchr_aligned") {
        return Some("rust_memrchr");
    }
    None
}

/// More than this cannot be allocated.
const MEMORY: u64 = 0x7fff_ffff;
const ENOENT: u64 = 2;
const EIO: u64 = 5;
const EBADF: u64 = 9;
const EEXIST: u64 = 17;
const ENOTDIR: u64 = 20;
const EISDIR: u64 = 21;
const EINVAL: u64 = 22;
const ENOTTY: u64 = 25;
const ENOSYS: u64 = 38;

fn neg1(w: u32) -> Val {
    Val::C(mask(w))
}
fn norm(p: &[u8]) -> Vec<u8> {
    let mut out: Vec<Vec<u8>> = vec![];
    if p.first() != Some(&b'/') {
        out.push(b"scratch".to_vec());
    }
    for c in p.split(|b| *b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => {
                out.pop();
            }
            x => out.push(x.to_vec()),
        }
    }
    let mut r = vec![];
    for c in out {
        r.push(b'/');
        r.extend(c);
    }
    if r.is_empty() {
        r.push(b'/');
    }
    r
}
fn parent(p: &[u8]) -> Vec<u8> {
    let i = p.iter().rposition(|b| *b == b'/').unwrap_or(0);
    if i == 0 {
        b"/".to_vec()
    } else {
        p[..i].to_vec()
    }
}

#[derive(PartialEq, Clone, Copy)]
enum Fault {
    No,
    Err,
    Short,
    CrashBefore,
    CrashMid,
}

impl Exec {
    pub fn asm(&mut self, st: &mut State, s: &str, args: &[Val], ret: TyId) -> R<Val> {
        if s.contains("cpuid") || s.is_empty() {
            return Ok(self.m.zero(ret));
        }
        if s.contains("syscall") {
            return self.raw_syscall(st, args, ret);
        }
        fatal(&format!("inline assembly {:?}", s))
    }
    fn raw_syscall(&mut self, st: &mut State, args: &[Val], ret: TyId) -> R<Val> {
        // flock succeeds
        if matches!(args.first(), Some(Val::C(73))) {
            return Ok(self.m.zero(ret));
        }
        let _ = st;
        fatal("raw system call")
    }

    fn errno(&mut self, st: &mut State) -> u64 {
        if let Some(a) = st.locals.get("errno") {
            return *a;
        }
        let a = self.alloc(st, 8);
        Rc::make_mut(&mut st.locals).insert("errno".into(), a);
        a
    }
    fn fail(&mut self, st: &mut State, e: u64, w: u32) -> R<Option<Val>> {
        let a = self.errno(st);
        let t = self.m.ty(Ty::Int(32));
        self.store(st, &Val::C(a as u128), t, &Val::C(e as u128))?;
        Ok(Some(neg1(w)))
    }

    // ---------------------------------------------------------------- intrinsics
    pub fn intrinsic(
        &mut self,
        st: &mut State,
        n: &str,
        a: &[Val],
        tys: &[TyId],
        ret: TyId,
    ) -> R<Val> {
        let s = &n[5..];
        let base: &str = s;
        let pre = |p: &str| base.starts_with(p);
        if pre("lifetime.")
            || pre("assume")
            || pre("experimental.noalias")
            || pre("dbg.")
            || pre("x86.sse2.pause")
            || pre("prefetch")
            || pre("invariant.")
            || pre("x86.avx.vzeroupper")
            || pre("stacksave")
            || pre("stackrestore")
        {
            return Ok(Val::C(0));
        }
        if pre("memcpy") || pre("memmove") {
            let len = self.concrete(st, &a[2], self.m.bits(tys[2]) as u32)? as u64;
            let b = self.read_bytes(st, &a[1], len)?;
            self.write_bytes(st, &a[0], &b)?;
            return Ok(Val::C(0));
        }
        if pre("memset") {
            let len = self.concrete(st, &a[2], self.m.bits(tys[2]) as u32)? as u64;
            let e = ev(&a[1], 8);
            self.write_bytes(st, &a[0], &vec![e; len as usize])?;
            return Ok(Val::C(0));
        }
        if pre("trap") {
            if self.has_try(st) {
                return Err(Ev::Unwind(2));
            }
            self.violation(st, &st.pc.model.clone(), "panic", "trap");
            self.end_path(st, "trap");
            return Err(Ev::Kill);
        }
        if pre("is.constant") {
            return Ok(Val::C(0));
        }
        if pre("threadlocal.address") || pre("ptrmask") {
            return Ok(a[0].clone());
        }
        if pre("expect") {
            return Ok(a[0].clone());
        }
        let (ln, w) = self.m.lanes(tys[0]);
        if ln > 0 {
            // element-wise
            let f = |i: usize| -> Vec<Val> {
                a.iter()
                    .map(|v| match v {
                        Val::A(x) => x[i].clone(),
                        o => o.clone(),
                    })
                    .collect()
            };
            let mut out = vec![];
            for i in 0..ln as usize {
                out.push(self.scalar_intr(base, &f(i), w, self.m.sub_ty(ret, 0)));
            }
            return Ok(Val::A(Rc::new(out)));
        }
        Ok(self.scalar_intr(base, a, w, ret))
    }

    fn scalar_intr(&mut self, n: &str, a: &[Val], w: u32, ret: TyId) -> Val {
        let pre = |p: &str| n.starts_with(p);
        let ite = |s: &Exec, c: &Val, x: &Val, y: &Val| match c {
            Val::C(1) => x.clone(),
            Val::C(_) => y.clone(),
            Val::S(e) => {
                let _ = s;
                let (p, q) = (ev(x, w), ev(y, w));
                mkval(cx().ite(*e, p, q))
            }
            _ => panic!(),
        };
        let c1 = |v: u128| Val::C(v);
        if pre("umin") {
            return ite(self, &scmp(Pred::Ult, w, &a[0], &a[1]), &a[0], &a[1]);
        }
        if pre("umax") {
            return ite(self, &scmp(Pred::Ult, w, &a[0], &a[1]), &a[1], &a[0]);
        }
        if pre("smin") {
            return ite(self, &scmp(Pred::Slt, w, &a[0], &a[1]), &a[0], &a[1]);
        }
        if pre("smax") {
            return ite(self, &scmp(Pred::Slt, w, &a[0], &a[1]), &a[1], &a[0]);
        }
        if pre("abs.") {
            let neg = sbin(B::Sub, w, &c1(0), &a[0]);
            return ite(self, &scmp(Pred::Slt, w, &a[0], &c1(0)), &neg, &a[0]);
        }
        if n.contains(".with.overflow") {
            let (op, signed) = match &n[..4] {
                "uadd" => (B::Add, false),
                "sadd" => (B::Add, true),
                "usub" => (B::Sub, false),
                "ssub" => (B::Sub, true),
                "umul" => (B::Mul, false),
                "smul" => (B::Mul, true),
                _ => fatal(n),
            };
            let r = sbin(op, w, &a[0], &a[1]);
            let o = match (op, signed) {
                (B::Add, false) => scmp(Pred::Ult, w, &r, &a[0]),
                (B::Sub, false) => scmp(Pred::Ult, w, &a[0], &a[1]),
                (B::Add, true) => {
                    let x = sbin(B::Xor, w, &a[0], &r);
                    let y = sbin(B::Xor, w, &a[1], &r);
                    scmp(Pred::Slt, w, &sbin(B::And, w, &x, &y), &c1(0))
                }
                (B::Sub, true) => {
                    let x = sbin(B::Xor, w, &a[0], &a[1]);
                    let y = sbin(B::Xor, w, &a[0], &r);
                    scmp(Pred::Slt, w, &sbin(B::And, w, &x, &y), &c1(0))
                }
                _ => {
                    if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                        if signed {
                            let (x, y) = (sext(*x, w), sext(*y, w));
                            match x.checked_mul(y) {
                                Some(p) => {
                                    let t = sext(p as u128 & mask(w), w);
                                    c1((t != p) as u128)
                                }
                                None => c1(1),
                            }
                        } else {
                            match x.checked_mul(*y) {
                                Some(p) => c1((p > mask(w)) as u128),
                                None => c1(1),
                            }
                        }
                    } else if w <= 64 {
                        let ext = |v: &Val| if signed { ssext(v, w, 2 * w) } else { szext(v, w, 2 * w) };
                        let p = sbin(B::Mul, 2 * w, &ext(&a[0]), &ext(&a[1]));
                        let q = ext(&r);
                        scmp(Pred::Ne, 2 * w, &p, &q)
                    } else {
                        fatal("symbolic 128-bit multiplication overflow")
                    }
                }
            };
            return Val::A(Rc::new(vec![r, o]));
        }
        if pre("usub.sat") {
            let r = sbin(B::Sub, w, &a[0], &a[1]);
            return ite(self, &scmp(Pred::Ult, w, &a[0], &a[1]), &c1(0), &r);
        }
        if pre("uadd.sat") {
            let r = sbin(B::Add, w, &a[0], &a[1]);
            return ite(self, &scmp(Pred::Ult, w, &r, &a[0]), &c1(mask(w)), &r);
        }
        if pre("sadd.sat") || pre("ssub.sat") {
            if let (Val::C(x), Val::C(y)) = (&a[0], &a[1]) {
                let (x, y) = (sext(*x, w), sext(*y, w));
                let r = if pre("sadd") { x.saturating_add(y) } else { x.saturating_sub(y) };
                let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                return c1(r.clamp(lo, hi) as u128 & mask(w));
            }
            fatal(n);
        }
        if pre("scmp") || pre("ucmp") {
            let rw = self.m.bits(ret) as u32;
            let lt = if pre("scmp") { Pred::Slt } else { Pred::Ult };
            let l = scmp(lt, w, &a[0], &a[1]);
            let g = scmp(lt, w, &a[1], &a[0]);
            let (l, g) = (szext(&l, 1, rw), szext(&g, 1, rw));
            return sbin(B::Sub, rw, &g, &l);
        }
        if pre("bswap") {
            match &a[0] {
                Val::C(c) => {
                    let mut r = 0u128;
                    for i in 0..w / 8 {
                        r = (r << 8) | ((c >> (8 * i)) & 0xff);
                    }
                    return c1(r);
                }
                v => {
                    let mut e = ev(&sextract(v, 0, 8), 8);
                    for i in 1..w / 8 {
                        let b = ev(&sextract(v, 8 * i, 8), 8);
                        e = cx().concat(e, b);
                    }
                    return mkval(e);
                }
            }
        }
        if pre("bitreverse") {
            if let Val::C(c) = &a[0] {
                let mut r = 0;
                for i in 0..w {
                    if c >> i & 1 == 1 {
                        r |= 1u128 << (w - 1 - i);
                    }
                }
                return c1(r);
            }
            let mut e = ev(&sextract(&a[0], 0, 1), 1);
            for i in 1..w {
                let b = ev(&sextract(&a[0], i, 1), 1);
                e = cx().concat(e, b);
            }
            return mkval(e);
        }
        if pre("ctpop") {
            if let Val::C(c) = &a[0] {
                return c1(c.count_ones() as u128);
            }
            let mut r = c1(0);
            for i in 0..w {
                r = sbin(B::Add, w, &r, &szext(&sextract(&a[0], i, 1), 1, w));
            }
            return r;
        }
        if pre("cttz") || pre("ctlz") {
            let tz = pre("cttz");
            if let Val::C(c) = &a[0] {
                let v = if *c == 0 {
                    w
                } else if tz {
                    c.trailing_zeros()
                } else {
                    c.leading_zeros() - (128 - w)
                };
                return c1(v as u128);
            }
            let mut r = c1(w as u128);
            for j in 0..w {
                // lowest priority first
                let i = if tz { w - 1 - j } else { j };
                let bit = sextract(&a[0], i, 1);
                let v = if tz { i } else { w - 1 - i };
                r = ite(self, &bit, &c1(v as u128), &r);
            }
            return r;
        }
        if pre("fshl") || pre("fshr") {
            let k = sbin(B::URem, w, &a[2], &c1(w as u128));
            if let Val::C(k) = &k {
                let k = if pre("fshl") { *k as u32 } else { (w - *k as u32) % w };
                if k == 0 {
                    return if pre("fshl") { a[0].clone() } else { a[1].clone() };
                }
                let h = sbin(B::Shl, w, &a[0], &c1(k as u128));
                let l = sbin(B::LShr, w, &a[1], &c1((w - k) as u128));
                return sbin(B::Or, w, &h, &l);
            }
            // symbolic amount
            let wk = sbin(B::Sub, w, &c1(w as u128), &k);
            let (h, l) = if pre("fshl") {
                (sbin(B::Shl, w, &a[0], &k), sbin(B::LShr, w, &a[1], &wk))
            } else {
                (sbin(B::Shl, w, &a[0], &wk), sbin(B::LShr, w, &a[1], &k))
            };
            return sbin(B::Or, w, &h, &l);
        }
        if pre("fabs") {
            if let Val::C(c) = &a[0] {
                return c1(c & !(1u128 << (w - 1)));
            }
            return sbin(B::And, w, &a[0], &c1((1u128 << (w - 1)) - 1));
        }
        fatal(&format!("intrinsic llvm.{}", n))
    }

    // ---------------------------------------------------------------- inputs
    pub fn fresh(&mut self, st: &mut State, name: &str, n: usize) -> Vec<E> {
        let idx = st.inputs.len();
        let mut v = vec![];
        for i in 0..n {
            v.push(cx().new_var(format!("{}#{}[{}]", name, idx, i), 8, 0));
        }
        Rc::make_mut(&mut st.inputs).push(Input {
            name: name.into(),
            vars: Rc::new(v.clone()),
            kind: b'b',
        });
        v
    }
    /// Nondeterministic choice below n, resolved by forking. Keeps its variable across re-execution.
    pub fn choose(&mut self, st: &mut State, name: &str, n: u128) -> R<u128> {
        if n <= 1 {
            return Ok(0);
        }
        let e = match st.pending {
            Some(e) => e,
            None => {
                let idx = st.inputs.len();
                let e = cx().new_var(format!("{}#{}", name, idx), 32, 0);
                Rc::make_mut(&mut st.inputs).push(Input {
                    name: name.into(),
                    vars: Rc::new(vec![e]),
                    kind: b'c',
                });
                let lim = cx().konst(n, 32);
                let c = cx().bin(B::Ult, e, lim);
                st.pc.add(c); // fresh variable: zero (the default) satisfies it
                st.pending = Some(e);
                e
            }
        };
        let v = self.concrete(st, &Val::S(e), 32)?;
        st.pending = None;
        Ok(v)
    }
    fn assume(&mut self, st: &mut State, c: &Val) -> R<()> {
        match c {
            Val::C(1) => Ok(()),
            Val::C(_) => {
                self.end_path(st, "assumption");
                Err(Ev::Kill)
            }
            Val::S(e) => match self.solver.check(&st.pc, *e, false) {
                Res::Sat(m) => {
                    st.pc.add(*e);
                    st.pc.model = m;
                    st.narrow += 1;
                    Ok(())
                }
                Res::Unsat => {
                    self.end_path(st, "assumption");
                    Err(Ev::Kill)
                }
            },
            _ => panic!(),
        }
    }

    fn fault(&mut self, st: &mut State, op: &str, is_write: bool) -> R<Fault> {
        if st.fs.budget == 0 {
            return Ok(Fault::No);
        }
        let mut opts = vec![Fault::No];
        if st.fs.kinds & 1 != 0 {
            opts.push(Fault::Err);
        }
        if st.fs.kinds & 2 != 0 && is_write {
            opts.push(Fault::Short);
        }
        if st.fs.kinds & 4 != 0 {
            opts.push(Fault::CrashBefore);
            if is_write {
                opts.push(Fault::CrashMid);
            }
        }
        let k = self.choose(st, &format!("fault:{}", op), opts.len() as u128)?;
        let f = opts[k as usize];
        if f != Fault::No {
            let fs = Rc::make_mut(&mut st.fs);
            fs.budget -= 1;
        }
        if f == Fault::CrashBefore {
            return Err(self.crash(st));
        }
        Ok(f)
    }
    fn crash(&mut self, st: &mut State) -> Ev {
        // the process is gone: descriptors close, globals are lost
        let fs = Rc::make_mut(&mut st.fs);
        fs.fds.truncate(3);
        fs.budget = 0;
        if self.has_try(st) {
            Ev::Unwind(2)
        } else {
            self.end_path(st, "crash");
            Ev::Kill
        }
    }

    // ---------------------------------------------------------------- externals
    /// Some(v): returned v.  None: a frame was pushed.
    pub fn external(&mut self, st: &mut State, n: &str, a: &[Val]) -> R<Option<Val>> {
        let ok = |v: u128| Ok(Some(Val::C(v)));
        match n {
            // ------------------------------------------------ harness interface
            "psym_is_engine" => ok(1),
            "psym_bytes" => {
                let len = self.concrete(st, &a[1], 64)? as usize;
                let nl = self.concrete(st, &a[3], 64)? as u64;
                let name = self.read_str(st, &a[2], nl)?;
                // resolve the target first so that nothing is created twice
                if len == 0 {
                    return ok(0);
                }
                self.resolve(st, &a[0], len as u64, "write").map(|_| ())?;
                let v = self.fresh(st, &name, len);
                self.write_bytes(st, &a[0], &v)?;
                ok(0)
            }
            "psym_choice" => {
                let k = self.concrete(st, &a[0], 32)?;
                let nl = self.concrete(st, &a[2], 64)? as u64;
                let name = self.read_str(st, &a[1], nl)?;
                let v = self.choose(st, &name, k)?;
                ok(v)
            }
            "psym_assume" => {
                self.assume(st, &a[0])?;
                ok(0)
            }
            "psym_assert" => {
                let nl = self.concrete(st, &a[2], 64)? as u64;
                let msg = self.read_str(st, &a[1], nl)?;
                self.solver.stats.assert_total += 1;
                let m = self.assert_msgs.entry(msg.clone()).or_insert((0, 0, 0));
                m.0 += 1;
                match &a[0] {
                    Val::C(1) => {
                        m.1 += 1;
                        self.solver.stats.assert_folded += 1;
                        ok(0)
                    }
                    Val::C(_) => {
                        self.violation(st, &st.pc.model.clone(), "assertion", &msg);
                        self.end_path(st, "assertion failed");
                        Err(Ev::Kill)
                    }
                    Val::S(e) => {
                        m.2 += 1;
                        self.solver.stats.assert_z3 += 1;
                        let ne = cx().not(*e);
                        match self.solver.check(&st.pc, ne, true) {
                            Res::Unsat => ok(0),
                            Res::Sat(m) => {
                                self.violation(st, &m, "assertion", &msg);
                                match self.solver.check(&st.pc, *e, false) {
                                    Res::Sat(m) => {
                                        st.pc.add(*e);
                                        st.pc.model = m;
                                        st.narrow += 1;
                                        ok(0)
                                    }
                                    Res::Unsat => {
                                        self.end_path(st, "assertion failed");
                                        Err(Ev::Kill)
                                    }
                                }
                            }
                        }
                    }
                    _ => panic!(),
                }
            }
            "psym_reach" => {
                let nl = self.concrete(st, &a[1], 64)? as u64;
                let msg = self.read_str(st, &a[0], nl)?;
                *self.reached.entry(msg).or_insert(0) += 1;
                ok(0)
            }
            "psym_merge" => {
                let old = st.merge;
                st.merge = self.concrete(st, &a[0], 32)? as u32;
                ok(old as u128)
            }
            "psym_concretize" => {
                let v = self.concrete(st, &a[0], 64)?;
                ok(v)
            }
            "psym_concretize_bytes" => {
                let len = self.concrete(st, &a[1], 64)? as u64;
                let b = self.read_bytes(st, &a[0], len)?;
                let mut out = vec![];
                for e in b {
                    let v = self.concrete(st, &mkval(e), 8)?;
                    out.push(cx().konst(v, 8));
                }
                self.write_bytes(st, &a[0], &out)?;
                ok(0)
            }
            "psym_is_symbolic" => {
                let len = self.concrete(st, &a[1], 64)? as u64;
                let b = self.read_bytes(st, &a[0], len)?;
                ok(b.iter().any(|e| cx().as_const(*e).is_none()) as u128)
            }
            "psym_param" => {
                let nl = self.concrete(st, &a[1], 64)? as u64;
                let name = self.read_str(st, &a[0], nl)?;
                match self.params.get(&name) {
                    Some(v) => ok(*v as u128),
                    None => Ok(Some(a[2].clone())),
                }
            }
            "psym_trace" => {
                let len = self.concrete(st, &a[1], 64)? as u64;
                let b = self.read_bytes(st, &a[0], len)?;
                Rc::make_mut(&mut st.trace).push(b);
                ok(0)
            }
            "psym_mark_secret" => {
                let len = self.concrete(st, &a[1], 64)? as u64;
                let b = self.read_bytes(st, &a[0], len)?;
                for e in &b {
                    for v in cx().support(*e).iter() {
                        cx().vars[*v as usize].tag = 1;
                    }
                }
                if !b.is_empty() {
                    Rc::make_mut(&mut st.needles).push(b);
                }
                ok(0)
            }
            "psym_watch_secrets" => {
                let old = st.secret;
                st.secret = self.concrete(st, &a[0], 32)? != 0;
                ok(old as u128)
            }
            "psym_secrets_left" => {
                let mut objs = vec![];
                st.mem.heap.each(&mut |_, o| {
                    if o.watched {
                        objs.push(o.clone())
                    }
                });
                for o in objs {
                    if self.holds_secret(st, &o) {
                        return ok(1);
                    }
                }
                ok(0)
            }
            "psym_depends_secret" => {
                let len = self.concrete(st, &a[1], 64)? as u64;
                let b = self.read_bytes(st, &a[0], len)?;
                ok(b.iter().any(|e| is_secret(*e)) as u128)
            }
            "psym_try" => {
                let f = self.concrete(st, &a[0], 64)? as u64;
                let fid = addr_fn(f).unwrap_or_else(|| fatal("psym_try: not a function"));
                self.push_call(st, fid, vec![a[1].clone()], true);
                Ok(None)
            }
            "psym_args" => {
                // what the C library does before main
                let g = (0..self.m.globals.len()).find(|g| self.m.globals[*g].name.ends_with("3imp15ARGV_INIT_ARRAY"));
                let v = g.and_then(|g| self.m.global_init(g as u32).1);
                let f = match v {
                    Some((_, Val::C(f))) => addr_fn(f as u64),
                    _ => None,
                };
                let fid = f.unwrap_or_else(|| fatal("psym_args: no place for the arguments"));
                self.push_call(st, fid, vec![a[0].clone(), a[1].clone(), Val::C(0)], false);
                Ok(None)
            }
            "psym_faults" => {
                let b = self.concrete(st, &a[0], 32)? as u64;
                let k = self.concrete(st, &a[1], 32)? as u64;
                let fs = Rc::make_mut(&mut st.fs);
                fs.budget = b;
                fs.kinds = k;
                ok(0)
            }
            "psym_reset_globals" => {
                st.mem.globals = PMap::new();
                ok(0)
            }
            // file-system access for the harness: whole-file read/write without faults
            "psym_fs_read" => {
                let pl = self.concrete(st, &a[1], 64)? as u64;
                let p = norm(self.read_str(st, &a[0], pl)?.as_bytes());
                let cap = self.concrete(st, &a[3], 64)? as usize;
                match st.fs.nodes.get(&p) {
                    Some(FsNode::File(d)) => {
                        let d = d.clone();
                        let k = d.len().min(cap);
                        self.write_bytes(st, &a[2], &d[..k])?;
                        ok(d.len() as u128)
                    }
                    Some(FsNode::Dir) => ok(mask(64) - 1),
                    None => ok(mask(64)),
                }
            }
            "psym_fs_write" => {
                let pl = self.concrete(st, &a[1], 64)? as u64;
                let p = norm(self.read_str(st, &a[0], pl)?.as_bytes());
                let len = self.concrete(st, &a[3], 64)? as u64;
                let b = self.read_bytes(st, &a[2], len)?;
                Rc::make_mut(&mut st.fs).nodes.insert(p, FsNode::File(Rc::new(b)));
                ok(0)
            }
            "psym_fs_list" => {
                let cap = self.concrete(st, &a[1], 64)? as usize;
                let mut t = vec![];
                for (p, n) in &st.fs.nodes {
                    t.extend_from_slice(p);
                    if let FsNode::Dir = n {
                        t.push(b'/');
                    }
                    t.push(b'\n');
                }
                let b: Vec<E> = t.iter().take(cap).map(|c| cx().konst(*c as u128, 8)).collect();
                self.write_bytes(st, &a[0], &b)?;
                ok(t.len() as u128)
            }
            "psym_fs_remove" => {
                let pl = self.concrete(st, &a[1], 64)? as u64;
                let p = norm(self.read_str(st, &a[0], pl)?.as_bytes());
                let fs = Rc::make_mut(&mut st.fs);
                let mut pre = p.clone();
                pre.push(b'/');
                fs.nodes.retain(|k, _| *k != p && !k.starts_with(&pre));
                ok(0)
            }
            "psym_fs_mkdir" => {
                let pl = self.concrete(st, &a[1], 64)? as u64;
                let p = norm(self.read_str(st, &a[0], pl)?.as_bytes());
                Rc::make_mut(&mut st.fs).nodes.insert(p, FsNode::Dir);
                ok(0)
            }
            "psym_stdin" => {
                let len = self.concrete(st, &a[1], 64)? as u64;
                let b = self.read_bytes(st, &a[0], len)?;
                let fs = Rc::make_mut(&mut st.fs);
                fs.stdin = Rc::new(b);
                fs.stdin_pos = 0;
                fs.stdin_ends = 0;
                ok(0)
            }
            "psym_stdout" => {
                // fetch and clear captured output; which: 1 stdout, 2 stderr
                let which = self.concrete(st, &a[0], 32)?;
                let cap = self.concrete(st, &a[2], 64)? as usize;
                let d = if which == 1 { st.fs.stdout.clone() } else { st.fs.stderr.clone() };
                let k = d.len().min(cap);
                self.write_bytes(st, &a[1], &d[..k])?;
                let fs = Rc::make_mut(&mut st.fs);
                if which == 1 {
                    fs.stdout = Rc::new(vec![]);
                } else {
                    fs.stderr = Rc::new(vec![]);
                }
                ok(d.len() as u128)
            }
            // ------------------------------------------------ allocator
            "malloc" => {
                let s = self.concrete(st, &a[0], 64)? as u64;
                if s > MEMORY {
                    return ok(0);
                }
                let p = self.alloc(st, s);
                ok(p as u128)
            }
            "calloc" => {
                let s = self.concrete(st, &a[0], 64)? as u64;
                let k = self.concrete(st, &a[1], 64)? as u64;
                if s.checked_mul(k).is_none_or(|n| n > MEMORY) {
                    return ok(0);
                }
                let p = self.alloc(st, s * k);
                ok(p as u128)
            }
            "posix_memalign" => {
                let s = self.concrete(st, &a[2], 64)? as u64;
                if s > MEMORY {
                    return ok(12);
                }
                let p = self.alloc(st, s);
                let t = self.m.ty(Ty::Ptr);
                self.store(st, &a[0], t, &Val::C(p as u128))?;
                ok(0)
            }
            "realloc" => {
                let old = self.concrete(st, &a[0], 64)? as u64;
                let s = self.concrete(st, &a[1], 64)? as u64;
                if s > MEMORY {
                    return ok(0);
                }
                let o = match self.obj(st, old >> 24) {
                    Some(o) if old & 0xff_ffff == 0 && o.kind == Kind::Heap => o,
                    _ => return Err(self.bad_free(st, old)),
                };
                let p = self.alloc(st, s);
                {
                    let no = self.obj_mut(st, p >> 24).unwrap();
                    for i in 0..(o.size().min(s)) as usize {
                        if o.symat(i) != 0 {
                            no.set_s(i, o.symat(i));
                        } else {
                            no.data[i] = o.data[i];
                        }
                    }
                }
                self.check_secret_free(st, &o, "reallocated");
                *st.mem.slot(old >> 24) = None;
                ok(p as u128)
            }
            "free" => {
                let old = self.concrete(st, &a[0], 64)? as u64;
                if old == 0 {
                    return ok(0);
                }
                match self.obj(st, old >> 24) {
                    Some(o) if old & 0xff_ffff == 0 && o.kind == Kind::Heap => {
                        self.check_secret_free(st, &o, "freed");
                        *st.mem.slot(old >> 24) = None;
                        ok(0)
                    }
                    _ => Err(self.bad_free(st, old)),
                }
            }
            // ------------------------------------------------ strings
            // core::slice::memchr: the word-at-a-time search of the standard library, byte by byte
            "rust_memchr" | "rust_memrchr" => {
                let len = self.concrete(st, &a[2], 64)? as u64;
                let x = self.read_bytes(st, &a[1], len)?;
                let c = ev(&a[0], 8);
                let k = cx();
                let needle_const = k.as_const(c).is_some();
                let mut order: Vec<usize> = (0..x.len()).collect();
                if n == "rust_memrchr" {
                    order.reverse();
                }
                let pair = |t: Val, i: Val| Ok(Some(Val::A(Rc::new(vec![t, i]))));
                if needle_const {
                    for i in order {
                        let e = k.eq(x[i], c);
                        if e == k.false_ {
                            continue;
                        }
                        if e != k.true_ {
                            let valid = st.lazy.is_none();
                            if let Some(Res::Unsat) = self.solver.quick(&st.pc, e, valid) {
                                continue;
                            }
                            let ne = k.not(e);
                            if !matches!(self.solver.quick(&st.pc, ne, valid), Some(Res::Unsat)) {
                                return Err(Ev::Fork(e, None));
                            }
                        }
                        return pair(Val::C(1), Val::C(i as u128));
                    }
                    return pair(Val::C(0), Val::C(0));
                }
                let mut found = k.false_;
                let mut idx = k.konst(0, 64);
                for i in order.into_iter().rev() {
                    let e = k.eq(x[i], c);
                    found = k.or(found, e);
                    let ii = k.konst(i as u128, 64);
                    idx = k.ite(e, ii, idx);
                }
                let found = k.zext(found, 64);
                pair(mkval(found), mkval(idx))
            }
            "memcmp" | "bcmp" => {
                let len = self.concrete(st, &a[2], 64)? as u64;
                let x = self.read_bytes(st, &a[0], len)?;
                let y = self.read_bytes(st, &a[1], len)?;
                let k = cx();
                if n == "bcmp" {
                    let mut eq = k.true_;
                    for (p, q) in x.iter().zip(y.iter()) {
                        let e = k.eq(*p, *q);
                        eq = k.and(eq, e);
                        if eq == k.false_ {
                            break;
                        }
                    }
                    let ne = k.not(eq);
                    return Ok(Some(mkval(k.zext(ne, 32))));
                }
                let mut r = k.konst(0, 32);
                for (p, q) in x.iter().zip(y.iter()).rev() {
                    let e = k.eq(*p, *q);
                    let l = k.bin(B::Ult, *p, *q);
                    let (m, o) = (k.konst(mask(32), 32), k.konst(1, 32));
                    let d = k.ite(l, m, o);
                    r = k.ite(e, r, d);
                }
                Ok(Some(mkval(r)))
            }
            "strlen" => {
                let s = self.read_cstr(st, &a[0])?;
                ok(s.len() as u128)
            }
            "strnlen" => {
                let m = self.concrete(st, &a[1], 64)?;
                let s = self.read_cstr(st, &a[0])?;
                ok((s.len() as u128).min(m))
            }
            "__xpg_strerror_r" => {
                let e = self.concrete(st, &a[0], 32)?;
                let msg = format!("os error {}\0", e);
                let b: Vec<E> = msg.bytes().map(|c| cx().konst(c as u128, 8)).collect();
                self.write_bytes(st, &a[1], &b)?;
                ok(0)
            }
            // ------------------------------------------------ process
            "__errno_location" => {
                let p = self.errno(st);
                ok(p as u128)
            }
            "getenv" => {
                let name = self.read_cstr(st, &a[0])?;
                self.getenv(st, &name)
            }
            "exit" | "_exit" => {
                let c = self.concrete(st, &a[0], 32)?;
                Rc::make_mut(&mut st.fs).fds.truncate(3);
                if self.has_try(st) {
                    return Err(Ev::Unwind(100 + (c as i32 & 0xff)));
                }
                self.end_path(st, "exit");
                Err(Ev::Kill)
            }
            "abort" => {
                if self.has_try(st) {
                    return Err(Ev::Unwind(1));
                }
                self.violation(st, &st.pc.model.clone(), "panic", "abort");
                self.end_path(st, "abort");
                Err(Ev::Kill)
            }
            "rust_hashmap_keys" => Ok(Some(Val::A(Rc::new(vec![
                Val::C(0x0706050403020100),
                Val::C(0x0f0e0d0c0b0a0908),
            ])))),
            "getrandom" => {
                let len = self.concrete(st, &a[1], 64)? as usize;
                let b: Vec<E> = (0..len).map(|i| cx().konst(i as u128 * 7 + 1, 8)).collect();
                self.write_bytes(st, &a[0], &b)?;
                ok(len as u128)
            }
            "syscall" => {
                let k = self.concrete(st, &a[0], 64)?;
                match k {
                    318 => {
                        let len = self.concrete(st, &a[2], 64)? as usize;
                        let b: Vec<E> = (0..len).map(|i| cx().konst(i as u128 * 7 + 1, 8)).collect();
                        self.write_bytes(st, &a[1], &b)?;
                        ok(len as u128)
                    }
                    _ => self.fail(st, ENOSYS, 64),
                }
            }
            "pthread_key_create" => {
                let fs = Rc::make_mut(&mut st.fs);
                fs.keys += 1;
                let k = fs.keys as u128;
                let t = self.m.ty(Ty::Int(32));
                self.store(st, &a[0], t, &Val::C(k))?;
                ok(0)
            }
            "pthread_getspecific" => {
                let k = self.concrete(st, &a[0], 32)? as u64;
                let v = st.fs.specific.get(&k).copied().unwrap_or(0);
                ok(v as u128)
            }
            "pthread_setspecific" => {
                let k = self.concrete(st, &a[0], 32)? as u64;
                let v = self.concrete(st, &a[1], 64)? as u64;
                Rc::make_mut(&mut st.fs).specific.insert(k, v);
                ok(0)
            }
            "pthread_mutex_lock" | "pthread_mutex_unlock"
            | "pthread_key_delete" | "__cxa_thread_atexit_impl"
            | "pthread_atfork" | "sigaction" | "signal" | "sigaltstack" => ok(0),
            "pthread_self" => ok(1),
            "getpid" => ok(1234),
            "getuid" => ok(1000),
            "gettid" => ok(1234),
            "sysconf" => ok(4096),
            "clock_gettime" => {
                let t = self.m.ty(Ty::Int(64));
                self.store(st, &a[1], t, &Val::C(1_600_000_000))?;
                let p = sbin(B::Add, 64, &a[1], &Val::C(8));
                self.store(st, &p, t, &Val::C(0))?;
                ok(0)
            }
            "getauxval" => ok(0),
            "_Unwind_Backtrace" => ok(0),
            "dl_iterate_phdr" => ok(0),
            // ------------------------------------------------ files
            "open64" | "open" => {
                let p = self.read_cstr(st, &a[0])?;
                let fl = self.concrete(st, &a[1], 32)? as u64;
                self.fs_open(st, p, fl)
            }
            "openat64" | "openat" => {
                let p = self.read_cstr(st, &a[1])?;
                let fl = self.concrete(st, &a[2], 32)? as u64;
                self.fs_open(st, p, fl)
            }
            "close" => {
                let fd = self.concrete(st, &a[0], 32)? as usize;
                let fs = Rc::make_mut(&mut st.fs);
                if fd < fs.fds.len() && fs.fds[fd].is_some() {
                    fs.fds[fd] = None;
                    return ok(0);
                }
                self.fail(st, EBADF, 32)
            }
            "read" => {
                let fd = self.concrete(st, &a[0], 32)? as usize;
                let len = self.concrete(st, &a[2], 64)? as usize;
                self.fs_read(st, fd, &a[1], len)
            }
            "write" => {
                let fd = self.concrete(st, &a[0], 32)? as usize;
                let len = self.concrete(st, &a[2], 64)? as u64;
                let b = self.read_bytes(st, &a[1], len)?;
                self.fs_write(st, fd, b)
            }
            "writev" => {
                let fd = self.concrete(st, &a[0], 32)? as usize;
                let cnt = self.concrete(st, &a[2], 32)? as u64;
                let t = self.m.ty(Ty::Int(64));
                let mut b = vec![];
                for i in 0..cnt {
                    let p = sbin(B::Add, 64, &a[1], &Val::C((i * 16) as u128));
                    let q = sbin(B::Add, 64, &a[1], &Val::C((i * 16 + 8) as u128));
                    let base = self.load(st, &p, t)?;
                    let len = self.load(st, &q, t)?;
                    let len = self.concrete(st, &len, 64)? as u64;
                    b.extend(self.read_bytes(st, &base, len)?);
                }
                self.fs_write(st, fd, b)
            }
            "lseek64" | "lseek" => {
                let fd = self.concrete(st, &a[0], 32)? as usize;
                let off = sext(self.concrete(st, &a[1], 64)?, 64) as i64;
                let wh = self.concrete(st, &a[2], 32)?;
                let f = match st.fs.fds.get(fd).cloned().flatten() {
                    Some(f) if f.kind == b'f' => f,
                    _ => return self.fail(st, EBADF, 64),
                };
                let size = match st.fs.nodes.get(&f.path) {
                    Some(FsNode::File(d)) => d.len() as i64,
                    _ => 0,
                };
                let np = match wh {
                    0 => off,
                    1 => f.pos as i64 + off,
                    _ => size + off,
                };
                if np < 0 {
                    return self.fail(st, EINVAL, 64);
                }
                Rc::make_mut(&mut st.fs).fds[fd].as_mut().unwrap().pos = np as usize;
                ok(np as u128)
            }
            "fstat64" | "fstat" => {
                let fd = self.concrete(st, &a[0], 32)? as usize;
                match st.fs.fds.get(fd).cloned().flatten() {
                    Some(f) => self.fs_stat(st, Some(f), None, &a[1]),
                    None => self.fail(st, EBADF, 32),
                }
            }
            "stat64" | "lstat64" | "stat" | "lstat" => {
                let p = self.read_cstr(st, &a[0])?;
                self.fs_stat(st, None, Some(norm(&p)), &a[1])
            }
            "realpath" => {
                let p = norm(&self.read_cstr(st, &a[0])?);
                if !st.fs.nodes.contains_key(&p) {
                    return self.fail(st, ENOENT, 64).map(|_| Some(Val::C(0)));
                }
                let mut b = p.clone();
                b.push(0);
                let q = match &a[1] {
                    Val::C(0) => self.alloc(st, b.len() as u64) as u128,
                    Val::C(q) => *q,
                    _ => fatal("symbolic buffer for realpath"),
                };
                let b: Vec<E> = b.iter().map(|c| cx().konst(*c as u128, 8)).collect();
                self.write_bytes(st, &Val::C(q), &b)?;
                ok(q)
            }
            "statx" => self.fail(st, ENOSYS, 32),
            "mkdir" => {
                let p = norm(&self.read_cstr(st, &a[0])?);
                if st.fs.nodes.contains_key(&p) {
                    return self.fail(st, EEXIST, 32);
                }
                match st.fs.nodes.get(&parent(&p)) {
                    Some(FsNode::Dir) => {}
                    Some(_) => return self.fail(st, ENOTDIR, 32),
                    None => return self.fail(st, ENOENT, 32),
                }
                if self.fault(st, "mkdir", false)? == Fault::Err {
                    return self.fail(st, EIO, 32);
                }
                Rc::make_mut(&mut st.fs).nodes.insert(p, FsNode::Dir);
                ok(0)
            }
            "unlink" | "rmdir" => {
                let p = norm(&self.read_cstr(st, &a[0])?);
                if !st.fs.nodes.contains_key(&p) {
                    return self.fail(st, ENOENT, 32);
                }
                if self.fault(st, "unlink", false)? == Fault::Err {
                    return self.fail(st, EIO, 32);
                }
                Rc::make_mut(&mut st.fs).nodes.remove(&p);
                ok(0)
            }
            "rename" => {
                let p = norm(&self.read_cstr(st, &a[0])?);
                let q = norm(&self.read_cstr(st, &a[1])?);
                if !st.fs.nodes.contains_key(&p) {
                    return self.fail(st, ENOENT, 32);
                }
                match (st.fs.nodes.get(&p), st.fs.nodes.get(&q), st.fs.nodes.get(&parent(&q))) {
                    (Some(FsNode::File(_)), Some(FsNode::Dir), _) => return self.fail(st, EISDIR, 32),
                    (Some(FsNode::Dir), Some(FsNode::File(_)), _) => return self.fail(st, ENOTDIR, 32),
                    (_, _, Some(FsNode::Dir)) => {}
                    (_, _, Some(_)) => return self.fail(st, ENOTDIR, 32),
                    (_, _, None) => return self.fail(st, ENOENT, 32),
                }
                if self.fault(st, "rename", false)? == Fault::Err {
                    return self.fail(st, EIO, 32);
                }
                let fs = Rc::make_mut(&mut st.fs);
                let x = fs.nodes.remove(&p).unwrap();
                fs.nodes.insert(q.clone(), x);
                for f in fs.fds.iter_mut().flatten() {
                    if f.path == p {
                        f.path = q.clone();
                    }
                }
                ok(0)
            }
            "fsync" | "fdatasync" => {
                if self.fault(st, "fsync", false)? == Fault::Err {
                    return self.fail(st, EIO, 32);
                }
                ok(0)
            }
            "ftruncate64" => {
                let fd = self.concrete(st, &a[0], 32)? as usize;
                let len = self.concrete(st, &a[1], 64)? as usize;
                let f = match st.fs.fds.get(fd).cloned().flatten() {
                    Some(f) if f.kind == b'f' => f,
                    _ => return self.fail(st, EBADF, 32),
                };
                if self.fault(st, "truncate", false)? == Fault::Err {
                    return self.fail(st, EIO, 32);
                }
                if let Some(FsNode::File(d)) = Rc::make_mut(&mut st.fs).nodes.get_mut(&f.path) {
                    let z = cx().konst(0, 8);
                    Rc::make_mut(d).resize(len, z);
                }
                ok(0)
            }
            "fchmod" | "chmod" | "flock" => ok(0),
            "umask" => ok(0o22),
            "fcntl" | "fcntl64" => {
                let fd = self.concrete(st, &a[0], 32)? as usize;
                if st.fs.fds.get(fd).cloned().flatten().is_some() {
                    ok(0)
                } else {
                    self.fail(st, EBADF, 32)
                }
            }
            "isatty" | "ioctl" | "tcgetattr" => {
                if n == "isatty" {
                    let r = self.fail(st, ENOTTY, 32)?;
                    let _ = r;
                    return ok(0);
                }
                self.fail(st, ENOTTY, 32)
            }
            "getcwd" => {
                let b: Vec<E> = b"/scratch\0".iter().map(|c| cx().konst(*c as u128, 8)).collect();
                self.write_bytes(st, &a[0], &b)?;
                Ok(Some(a[0].clone()))
            }
            "poll" => ok(0),
            _ => fatal(&format!("external function {} is not modelled", n)),
        }
    }

    fn getenv(&mut self, st: &mut State, name: &[u8]) -> R<Option<Val>> {
        let v: Option<&[u8]> = match name {
            b"HOME" => Some(b"/home/u"),
            _ => None,
        };
        match v {
            None => Ok(Some(Val::C(0))),
            Some(s) => {
                let p = self.alloc(st, s.len() as u64 + 1);
                let mut b: Vec<E> = s.iter().map(|c| cx().konst(*c as u128, 8)).collect();
                b.push(cx().konst(0, 8));
                self.write_bytes(st, &Val::C(p as u128), &b)?;
                Ok(Some(Val::C(p as u128)))
            }
        }
    }

    fn bad_free(&mut self, st: &mut State, a: u64) -> Ev {
        self.violation(
            st,
            &st.pc.model.clone(),
            "memory",
            &format!("free of {:#x}, which is not a live allocation", a),
        );
        self.end_path(st, "memory error");
        Ev::Kill
    }
    /// Does the object hold some bytes of a secret in a row, whatever the inputs are?
    fn holds_secret(&mut self, st: &State, o: &Obj) -> bool {
        let k = cx();
        let mut byte: Vec<E> = vec![];
        for n in st.needles.clone().iter() {
            let w = n.len().min(8);
            if o.data.len() < w {
                continue;
            }
            if byte.is_empty() {
                byte = (0..o.data.len()).map(|i| if o.symat(i) != 0 { o.symat(i) } else { k.konst(o.data[i] as u128, 8) }).collect();
            }
            let close = |a: E, b: E| a == b || (cx().as_const(a).is_none() && cx().as_const(b).is_none() && cx().support(b).iter().any(|v| cx().vars[*v as usize].tag != 0 && cx().support(a).contains(v)));
            let mut at: HashMap<E, Vec<usize>> = HashMap::new();
            let mut vague = vec![];
            for p in 0..=n.len() - w {
                at.entry(n[p]).or_default().push(p);
                if k.as_const(n[p]).is_none() {
                    vague.push(p);
                }
            }
            let none = vec![];
            for i in 0..=byte.len() - w {
                let sym = k.as_const(byte[i]).is_none();
                for &p in at.get(&byte[i]).unwrap_or(&none).iter().chain(if sym { vague.iter() } else { none.iter() }) {
                    if !close(byte[i], n[p]) || !(1..w).all(|j| close(byte[i + j], n[p + j])) {
                        continue;
                    }
                    let mut differ = k.false_;
                    for j in 0..w {
                        let d = k.eq(byte[i + j], n[p + j]);
                        let d = k.not(d);
                        differ = k.or(differ, d);
                    }
                    if let Res::Unsat = self.solver.check(&st.pc, differ, true) {
                        return true;
                    }
                }
            }
        }
        false
    }
    fn check_secret_free(&mut self, st: &State, o: &Obj, what: &str) {
        if !st.secret || st.needles.is_empty() {
            return;
        }
        let msg = "memory given back holds no secret";
        self.solver.stats.assert_total += 1;
        self.assert_msgs.entry(msg.to_string()).or_insert((0, 0, 0)).0 += 1;
        if self.holds_secret(st, o) {
            let _ = what;
            self.violation(st, &st.pc.model.clone(), "assertion", msg);
        }
    }

    fn fs_open(&mut self, st: &mut State, p: Vec<u8>, fl: u64) -> R<Option<Val>> {
        let raw = if p.first() == Some(&b'/') {
            p
        } else {
            let mut r = b"/scratch/".to_vec();
            r.extend(p);
            r
        };
        if raw == b"/dev/tty" || raw.starts_with(b"/proc/") || raw.starts_with(b"/sys/") {
            return self.fail(st, ENOENT, 32);
        }
        let p = norm(&raw);
        let wr = fl & 3 != 0;
        let creat = fl & 0x40 != 0;
        let trunc = fl & 0x200 != 0;
        let excl = fl & 0x80 != 0;
        match st.fs.nodes.get(&p) {
            None => {
                if !creat {
                    return self.fail(st, ENOENT, 32);
                }
                match st.fs.nodes.get(&parent(&p)) {
                    Some(FsNode::Dir) => {}
                    Some(_) => return self.fail(st, ENOTDIR, 32),
                    None => return self.fail(st, ENOENT, 32),
                }
                if raw.ends_with(b"/") {
                    return self.fail(st, EISDIR, 32);
                }
            }
            Some(FsNode::Dir) => {
                if wr || creat {
                    return self.fail(st, EISDIR, 32);
                }
            }
            Some(FsNode::File(_)) => {
                if creat && excl {
                    return self.fail(st, EEXIST, 32);
                }
            }
        }
        if wr || creat {
            if self.fault(st, "open", false)? == Fault::Err {
                return self.fail(st, EIO, 32);
            }
        }
        let fs = Rc::make_mut(&mut st.fs);
        let kind = match fs.nodes.get(&p) {
            Some(FsNode::Dir) => b'd',
            _ => b'f',
        };
        if kind == b'f' && ((trunc && wr) || !fs.nodes.contains_key(&p)) {
            fs.nodes.insert(p.clone(), FsNode::File(Rc::new(vec![])));
        }
        let fd = Fd {
            path: p,
            pos: 0,
            flags: fl,
            kind,
        };
        for i in 3..fs.fds.len() {
            if fs.fds[i].is_none() {
                fs.fds[i] = Some(fd);
                return Ok(Some(Val::C(i as u128)));
            }
        }
        fs.fds.push(Some(fd));
        Ok(Some(Val::C(fs.fds.len() as u128 - 1)))
    }

    fn fs_read(&mut self, st: &mut State, fd: usize, buf: &Val, len: usize) -> R<Option<Val>> {
        let f = match st.fs.fds.get(fd).cloned().flatten() {
            Some(f) => f,
            None => return self.fail(st, EBADF, 64),
        };
        match f.kind {
            b'0' => {
                // as from a terminal: a line at a time
                let rest = st.fs.stdin[st.fs.stdin_pos..].to_vec();
                let line = rest.iter().position(|e| cx().as_const(*e) == Some(b'\n' as u128)).map(|i| i + 1);
                let k = line.unwrap_or(rest.len()).min(len);
                if k == 0 && len > 0 {
                    Rc::make_mut(&mut st.fs).stdin_ends += 1;
                    if st.fs.stdin_ends > 50 {
                        self.violation(st, &st.pc.model.clone(), "assertion", "the end of input is noticed");
                        self.end_path(st, "assertion failed");
                        return Err(Ev::Kill);
                    }
                }
                self.write_bytes(st, buf, &rest[..k])?;
                Rc::make_mut(&mut st.fs).stdin_pos += k;
                Ok(Some(Val::C(k as u128)))
            }
            b'd' => self.fail(st, EISDIR, 64),
            b'f' => {
                if f.flags & 3 == 1 {
                    return self.fail(st, EBADF, 64);
                }
                let d = match st.fs.nodes.get(&f.path) {
                    Some(FsNode::File(d)) => d.clone(),
                    _ => Rc::new(vec![]),
                };
                let s = f.pos.min(d.len());
                let k = (d.len() - s).min(len);
                self.write_bytes(st, buf, &d[s..s + k])?;
                Rc::make_mut(&mut st.fs).fds[fd].as_mut().unwrap().pos = s + k;
                Ok(Some(Val::C(k as u128)))
            }
            _ => Ok(Some(Val::C(0))),
        }
    }

    fn fs_write(&mut self, st: &mut State, fd: usize, b: Vec<E>) -> R<Option<Val>> {
        let f = match st.fs.fds.get(fd).cloned().flatten() {
            Some(f) => f,
            None => return self.fail(st, EBADF, 64),
        };
        match f.kind {
            b'1' => {
                let fs = Rc::make_mut(&mut st.fs);
                let k = b.len();
                Rc::make_mut(&mut fs.stdout).extend(b);
                Ok(Some(Val::C(k as u128)))
            }
            b'2' => {
                let fs = Rc::make_mut(&mut st.fs);
                let k = b.len();
                Rc::make_mut(&mut fs.stderr).extend(b);
                Ok(Some(Val::C(k as u128)))
            }
            b'f' => {
                if f.flags & 3 == 0 {
                    return self.fail(st, EBADF, 64);
                }
                let fault = if b.is_empty() {
                    Fault::No
                } else {
                    self.fault(st, "write", true)?
                };
                if fault == Fault::Err {
                    return self.fail(st, EIO, 64);
                }
                let k = match fault {
                    Fault::Short | Fault::CrashMid => b.len() / 2,
                    _ => b.len(),
                };
                {
                    let fs = Rc::make_mut(&mut st.fs);
                    let pos = fs.fds[fd].as_ref().unwrap().pos;
                    let mut end = pos;
                    if let Some(FsNode::File(d)) = fs.nodes.get_mut(&f.path) {
                        let d = Rc::make_mut(d);
                        let pos = if f.flags & 0x400 != 0 { d.len() } else { pos };
                        let z = cx().konst(0, 8);
                        if d.len() < pos + k {
                            d.resize(pos + k, z);
                        }
                        d[pos..pos + k].copy_from_slice(&b[..k]);
                        end = pos + k;
                    }
                    fs.fds[fd].as_mut().unwrap().pos = end;
                }
                if fault == Fault::CrashMid {
                    return Err(self.crash(st));
                }
                Ok(Some(Val::C(k as u128)))
            }
            _ => self.fail(st, EBADF, 64),
        }
    }

    fn fs_stat(
        &mut self,
        st: &mut State,
        f: Option<Fd>,
        p: Option<Vec<u8>>,
        buf: &Val,
    ) -> R<Option<Val>> {
        let (mode, size) = match (&f, &p) {
            (Some(f), _) if f.kind != b'f' && f.kind != b'd' => (0o020620u32, 0usize),
            _ => {
                let path = f.map(|f| f.path).or(p).unwrap();
                match st.fs.nodes.get(&path) {
                    Some(FsNode::Dir) => (0o040755, 4096),
                    Some(FsNode::File(d)) => (0o100644, d.len()),
                    None => return self.fail(st, ENOENT, 32),
                }
            }
        };
        let mut b = vec![0u8; 144];
        b[16] = 1;
        b[24..28].copy_from_slice(&mode.to_le_bytes());
        b[48..56].copy_from_slice(&(size as u64).to_le_bytes());
        b[57] = 16;
        let e: Vec<E> = b.iter().map(|c| cx().konst(*c as u128, 8)).collect();
        self.write_bytes(st, buf, &e)?;
        Ok(Some(Val::C(0)))
    }
}

pub fn is_secret(e: E) -> bool {
    cx().support(e).iter().any(|v| cx().vars[*v as usize].tag != 0)
}
