//! Path conditions and the SMT back end (z3, through its C API).
use crate::expr::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_full_version() -> *const c_char;
}

/// Complete assignment (missing variables are zero), with an evaluation cache.
pub struct Model {
    pub vals: Vec<u128>,
    memo: RefCell<HashMap<E, u128>>,
}
impl Model {
    pub fn new(vals: Vec<u128>) -> Rc<Model> {
        Rc::new(Model {
            vals,
            memo: RefCell::new(HashMap::new()),
        })
    }
    pub fn get(&self, v: u32) -> u128 {
        self.vals.get(v as usize).copied().unwrap_or(0)
    }
    pub fn eval(&self, e: E) -> u128 {
        cx().eval(e, &|v| self.get(v), &mut self.memo.borrow_mut())
    }
}

#[derive(Clone)]
pub struct Pc {
    pub cons: Rc<Vec<E>>,
    pub doms: Rc<HashMap<u32, [u64; 4]>>,
    /// variables occurring in constraints over several variables (or wide ones)
    pub multi: Rc<HashSet<u32>>,
    pub model: Rc<Model>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub z3: u64,
    pub z3_sat: u64,
    pub z3_unsat: u64,
    pub dom: u64,
    pub model_hit: u64,
    pub cache: u64,
    pub z3_time: f64,
    pub z3_max: f64,
    pub assert_total: u64,
    pub assert_folded: u64,
    pub assert_z3: u64,
}

pub enum Res {
    Sat(Rc<Model>),
    Unsat,
}

pub struct Solver {
    c: P,
    s: P,
    memo: HashMap<E, P>, // bool nodes as Bool, others as BitVec
    qcache: HashMap<Vec<E>, Option<Vec<(u32, u128)>>>,
    pub stats: Stats,
    pub dump: Option<String>,
    pub force_z3: bool,
    pub timeout_ms: u32,
    pub at: u32,
    pub trace_q: bool,
    pub prof: HashMap<u32, (u64, f64)>,
}

extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::abort();
}

impl Pc {
    pub fn new() -> Pc {
        Pc {
            cons: Rc::new(vec![]),
            doms: Rc::new(HashMap::new()),
            multi: Rc::new(HashSet::new()),
            model: Model::new(vec![]),
        }
    }
    /// Add a constraint; the caller has to install a model that satisfies it.
    pub fn add(&mut self, c: E) {
        let k = cx();
        if c == k.true_ {
            return;
        }
        if let Op::Bin(B::And, a, b) = *k.op(c) {
            self.add(a);
            self.add(b);
            return;
        }
        if self.cons.contains(&c) {
            return;
        }
        Rc::make_mut(&mut self.cons).push(c);
        let sup = k.support(c);
        if sup.len() == 1 && k.vars[sup[0] as usize].w == 8 {
            let t = k.truth(c);
            let d = Rc::make_mut(&mut self.doms).entry(sup[0]).or_insert([!0u64; 4]);
            for i in 0..4 {
                d[i] &= t[i];
            }
        } else {
            let m = Rc::make_mut(&mut self.multi);
            for v in sup.iter() {
                m.insert(*v);
            }
        }
    }
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let mut r = Solver {
                c,
                s,
                memo: HashMap::new(),
                qcache: HashMap::new(),
                stats: Stats::default(),
                dump: None,
                force_z3: false,
                timeout_ms: 120_000, at: 0, trace_q: std::env::var("SYMIR_Q").is_ok(), prof: HashMap::new(),
            };
            r.set_timeout(120_000);
            r
        }
    }
    pub fn set_timeout(&mut self, ms: u32) {
        self.timeout_ms = ms;
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms);
            Z3_solver_set_params(self.c, self.s, p);
        }
    }
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }

    unsafe fn num(&self, v: u128, w: u32) -> P {
        if w == 1 {
            return if v & 1 == 1 { Z3_mk_true(self.c) } else { Z3_mk_false(self.c) };
        }
        let s = Z3_mk_bv_sort(self.c, w);
        if v <= u64::MAX as u128 {
            Z3_mk_unsigned_int64(self.c, v as u64, s)
        } else {
            let t = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.c, t.as_ptr(), s)
        }
    }
    /// 1-bit value as a bit-vector
    unsafe fn bv(&self, p: P, w: u32) -> P {
        if w == 1 {
            let s = Z3_mk_bv_sort(self.c, 1);
            Z3_mk_ite(
                self.c,
                p,
                Z3_mk_unsigned_int64(self.c, 1, s),
                Z3_mk_unsigned_int64(self.c, 0, s),
            )
        } else {
            p
        }
    }
    unsafe fn unbv(&self, p: P, w: u32) -> P {
        if w == 1 {
            let s = Z3_mk_bv_sort(self.c, 1);
            Z3_mk_eq(self.c, p, Z3_mk_unsigned_int64(self.c, 1, s))
        } else {
            p
        }
    }
    unsafe fn tab(&self, t: &[u64], base: P, bits: u32, w: u32) -> P {
        if t.iter().all(|x| *x == t[0]) {
            return self.num(t[0] as u128, w);
        }
        let h = t.len() / 2;
        let b = Z3_mk_extract(self.c, bits - 1, bits - 1, base);
        let s = Z3_mk_bv_sort(self.c, 1);
        let cond = Z3_mk_eq(self.c, b, Z3_mk_unsigned_int64(self.c, 1, s));
        if t[..h] == t[h..] {
            return self.tab(&t[..h], base, bits - 1, w);
        }
        let hi = self.tab(&t[h..], base, bits - 1, w);
        let lo = self.tab(&t[..h], base, bits - 1, w);
        Z3_mk_ite(self.c, cond, hi, lo)
    }
    fn ast(&mut self, e: E) -> P {
        // iterative post-order to avoid deep recursion
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.memo.contains_key(&x) {
                st.pop();
                continue;
            }
            let kids: Vec<E> = match *cx().op(x) {
                Op::Const(_) | Op::Var(_) => vec![],
                Op::Bin(_, a, b) | Op::Concat(a, b) => vec![a, b],
                Op::Ite(a, b, c) => vec![a, b, c],
                Op::ZExt(a) | Op::SExt(a) | Op::Extract(a, _) | Op::Tab(_, a) => vec![a],
            };
            let mut ready = true;
            for k in &kids {
                if !self.memo.contains_key(k) {
                    st.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            st.pop();
            let p = unsafe { self.mk(x) };
            self.memo.insert(x, p);
        }
        self.memo[&e]
    }
    unsafe fn mk(&self, e: E) -> P {
        let k = cx();
        let w = k.w(e);
        let c = self.c;
        match *k.op(e) {
            Op::Const(v) => self.num(v, w),
            Op::Var(v) => {
                let n = CString::new(format!("v{}", v)).unwrap();
                let p = Z3_mk_const(
                    c,
                    Z3_mk_string_symbol(c, n.as_ptr()),
                    Z3_mk_bv_sort(c, w),
                );
                self.unbv(p, w)
            }
            Op::Bin(o, a, b) => {
                let aw = k.w(a);
                let (pa, pb) = (self.memo[&a], self.memo[&b]);
                if o == B::Eq {
                    return Z3_mk_eq(c, pa, pb);
                }
                if aw == 1 {
                    let ps = [pa, pb];
                    match o {
                        B::And => return Z3_mk_and(c, 2, ps.as_ptr()),
                        B::Or => return Z3_mk_or(c, 2, ps.as_ptr()),
                        B::Xor => {
                            if k.as_const(b) == Some(1) {
                                return Z3_mk_not(c, pa);
                            }
                            return Z3_mk_xor(c, pa, pb);
                        }
                        _ => {}
                    }
                }
                let (x, y) = (self.bv(pa, aw), self.bv(pb, aw));
                let r = match o {
                    B::Add => Z3_mk_bvadd(c, x, y),
                    B::Sub => Z3_mk_bvsub(c, x, y),
                    B::Mul => Z3_mk_bvmul(c, x, y),
                    B::UDiv => Z3_mk_bvudiv(c, x, y),
                    B::URem => Z3_mk_bvurem(c, x, y),
                    B::SDiv => Z3_mk_bvsdiv(c, x, y),
                    B::SRem => Z3_mk_bvsrem(c, x, y),
                    B::And => Z3_mk_bvand(c, x, y),
                    B::Or => Z3_mk_bvor(c, x, y),
                    B::Xor => Z3_mk_bvxor(c, x, y),
                    B::Shl => Z3_mk_bvshl(c, x, y),
                    B::LShr => Z3_mk_bvlshr(c, x, y),
                    B::AShr => Z3_mk_bvashr(c, x, y),
                    B::Ult => return Z3_mk_bvult(c, x, y),
                    B::Ule => return Z3_mk_bvule(c, x, y),
                    B::Slt => return Z3_mk_bvslt(c, x, y),
                    B::Sle => return Z3_mk_bvsle(c, x, y),
                    B::Eq => unreachable!(),
                };
                self.unbv(r, w)
            }
            Op::Ite(q, a, b) => Z3_mk_ite(c, self.memo[&q], self.memo[&a], self.memo[&b]),
            Op::ZExt(a) => {
                let aw = k.w(a);
                Z3_mk_zero_ext(c, w - aw, self.bv(self.memo[&a], aw))
            }
            Op::SExt(a) => {
                let aw = k.w(a);
                Z3_mk_sign_ext(c, w - aw, self.bv(self.memo[&a], aw))
            }
            Op::Extract(a, lo) => {
                let r = Z3_mk_extract(c, lo + w - 1, lo, self.memo[&a]);
                self.unbv(r, w)
            }
            Op::Concat(a, b) => {
                let (aw, bw) = (k.w(a), k.w(b));
                Z3_mk_concat(c, self.bv(self.memo[&a], aw), self.bv(self.memo[&b], bw))
            }
            Op::Tab(t, a) => {
                let tb = k.tables[t as usize].clone();
                self.tab(&tb[..], self.memo[&a], 8, w)
            }
        }
    }

    /// Constraints of the path condition that share variables (transitively) with `extra`.
    fn slice(&self, pc: &Pc, extra: E) -> (Vec<E>, Vec<u32>) {
        let k = cx();
        let mut vars: HashSet<u32> = k.support(extra).iter().copied().collect();
        let mut taken = vec![false; pc.cons.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in pc.cons.iter().enumerate() {
                if taken[i] {
                    continue;
                }
                let s = k.support(*c);
                if s.iter().any(|v| vars.contains(v)) {
                    taken[i] = true;
                    out.push(*c);
                    ch = true;
                    for v in s.iter() {
                        vars.insert(*v);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut v: Vec<u32> = vars.into_iter().collect();
        v.sort();
        (out, v)
    }

    fn overlay(m: &Model, upd: &[(u32, u128)]) -> Rc<Model> {
        let mut vals = m.vals.clone();
        for (v, x) in upd {
            if vals.len() <= *v as usize {
                vals.resize(*v as usize + 1, 0);
            }
            vals[*v as usize] = *x;
        }
        Model::new(vals)
    }

    /// A cheap answer to `check`, never a solver call.  `valid`: `pc.model` satisfies `pc`.
    pub fn quick(&mut self, pc: &Pc, c: E, valid: bool) -> Option<Res> {
        let k = cx();
        if c == k.false_ {
            return Some(Res::Unsat);
        }
        if valid && pc.model.eval(c) & 1 == 1 {
            self.stats.model_hit += 1;
            return Some(Res::Sat(pc.model.clone()));
        }
        let sup = k.support(c);
        if sup.len() == 1 && k.vars[sup[0] as usize].w == 8 && !self.force_z3 {
            let v = sup[0];
            let t = k.truth(c);
            let d = pc.doms.get(&v).copied().unwrap_or([!0u64; 4]);
            let x = [t[0] & d[0], t[1] & d[1], t[2] & d[2], t[3] & d[3]];
            if x == [0u64; 4] {
                self.stats.dom += 1;
                return Some(Res::Unsat);
            }
            if valid && !pc.multi.contains(&v) {
                return Some(self.check(pc, c, false));
            }
        }
        if pc.cons.contains(&c) {
            return if valid { Some(Res::Sat(pc.model.clone())) } else { None };
        }
        let nc = k.not(c);
        if pc.cons.contains(&nc) {
            return Some(Res::Unsat);
        }
        None
    }

    /// Is `pc && c` satisfiable?  `pc.model` must satisfy `pc`.
    pub fn check(&mut self, pc: &Pc, c: E, z3_only: bool) -> Res {
        self.stats.queries += 1;
        let k = cx();
        if c == k.false_ {
            return Res::Unsat;
        }
        if pc.model.eval(c) & 1 == 1 {
            self.stats.model_hit += 1;
            return Res::Sat(pc.model.clone());
        }
        let sup = k.support(c);
        if sup.len() == 1 && k.vars[sup[0] as usize].w == 8 && !z3_only && !self.force_z3 {
            let v = sup[0];
            let t = k.truth(c);
            let d = pc.doms.get(&v).copied().unwrap_or([!0u64; 4]);
            let x = [t[0] & d[0], t[1] & d[1], t[2] & d[2], t[3] & d[3]];
            if x == [0u64; 4] {
                self.stats.dom += 1;
                return Res::Unsat;
            }
            if !pc.multi.contains(&v) {
                self.stats.dom += 1;
                // prefer a printable letter when possible (readable counterexamples)
                let has = |i: usize| x[i / 64] >> (i % 64) & 1 == 1;
                let i = (97..123).chain(0..256).find(|i| has(*i)).unwrap();
                return Res::Sat(Self::overlay(&pc.model, &[(v, i as u128)]));
            }
        }
        let (mut cs, vars) = self.slice(pc, c);
        if sup.len() == 1 && k.vars[sup[0] as usize].w == 8 && !z3_only && !self.force_z3 {
            // change only this variable: often enough
            let v = sup[0];
            let t = k.truth(c);
            let d = pc.doms.get(&v).copied().unwrap_or([!0u64; 4]);
            let mut tries = 0;
            for i in (97..123usize).chain(0..256) {
                if (t[i / 64] & d[i / 64]) >> (i % 64) & 1 == 1 {
                    tries += 1;
                    if tries > 12 {
                        break;
                    }
                    let m = Self::overlay(&pc.model, &[(v, i as u128)]);
                    if cs.iter().all(|e| m.eval(*e) & 1 == 1) {
                        self.stats.dom += 1;
                        return Res::Sat(m);
                    }
                }
            }
        }
        cs.push(c);
        cs.sort();
        cs.dedup();
        if !z3_only {
            if let Some(r) = self.qcache.get(&cs) {
                self.stats.cache += 1;
                return match r {
                    Some(m) => Res::Sat(Self::overlay(&pc.model, m)),
                    None => Res::Unsat,
                };
            }
        }
        if self.trace_q {
            eprintln!("Q at {} cons {} vars {} : {}", self.at, cs.len(), vars.len(), cx().show(c, 5).chars().take(300).collect::<String>());
        }
        let asts: Vec<P> = cs.iter().map(|e| self.ast(*e)).collect();
        let t0 = Instant::now();
        let r = unsafe {
            Z3_solver_reset(self.c, self.s);
            for a in &asts {
                Z3_solver_assert(self.c, self.s, *a);
            }
            let r = Z3_solver_check(self.c, self.s);
            let _ = Z3_get_error_code;
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        let pr = self.prof.entry(self.at).or_insert((0, 0.0));
        pr.0 += 1;
        pr.1 += dt;
        self.stats.z3 += 1;
        self.stats.z3_time += dt;
        if dt > self.stats.z3_max {
            self.stats.z3_max = dt;
        }
        if let Some(d) = &self.dump {
            if z3_only {
                unsafe {
                    let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy();
                    let _ = std::fs::write(
                        format!("{}/q{:06}_{}.smt2", d, self.stats.z3, if r == 1 { "sat" } else { "unsat" }),
                        format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s),
                    );
                }
            }
        }
        match r {
            1 => {
                self.stats.z3_sat += 1;
                let mut upd = vec![];
                unsafe {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    for v in &vars {
                        let w = cx().vars[*v as usize].w;
                        let e = cx().var_expr(*v, w);
                        let a = self.ast(e);
                        let a = self.bv(a, w);
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, a, true, &mut o) {
                            let s = CStr::from_ptr(Z3_get_numeral_string(self.c, o))
                                .to_string_lossy()
                                .into_owned();
                            upd.push((*v, s.parse::<u128>().unwrap()));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                }
                let m = Self::overlay(&pc.model, &upd);
                // the model must satisfy the query under the engine's own semantics
                for e in &cs {
                    if m.eval(*e) & 1 != 1 {
                        eprintln!("internal error: z3 model does not satisfy {}", cx().show(*e, 6));
                        std::process::exit(70);
                    }
                }
                self.qcache.insert(cs, Some(upd));
                Res::Sat(m)
            }
            -1 => {
                self.stats.z3_unsat += 1;
                self.qcache.insert(cs, None);
                Res::Unsat
            }
            _ => {
                eprintln!("solver gave no answer within {} ms", self.timeout_ms);
                crate::exec::fatal("solver returned unknown (timeout)");
            }
        }
    }
}
