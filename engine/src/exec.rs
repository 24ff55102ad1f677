//! The symbolic interpreter: states, forking, merging, memory access.
use crate::expr::*;
use crate::ir::*;
use crate::libc::Fs;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub static mut FATAL_HOOK: Option<String> = None;
/// The run can give no verdict.
pub fn fatal(msg: &str) -> ! {
    eprintln!("INCONCLUSIVE: {}", msg);
    #[allow(static_mut_refs)]
    unsafe {
        if let Some(p) = &FATAL_HOOK {
            let _ = std::fs::write(
                p,
                format!("{{\"inconclusive\": {}}}\n", crate::json_str(msg)),
            );
        }
    }
    std::process::exit(70)
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub block: u32,
    pub idx: u32,
    pub regs: Vec<Val>,
    pub stack_mark: u64,
    pub is_try: bool,
}

#[derive(Clone)]
pub struct Input {
    pub name: Rc<str>,
    pub vars: Rc<Vec<E>>, // one expression per byte, or one wide value
    pub kind: u8,         // b'b' bytes, b'c' choice
}

/// A state entered without asking the solver: `cond` holds the conditions taken since `pc`,
/// whose model is valid.
#[derive(Clone)]
pub struct Lazy {
    pub pc: Rc<Pc>,
    pub cond: E,
    pub depth: u32,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Pc,
    pub narrow: u32,
    pub lazy: Option<Lazy>,
    pub conc: Rc<HashMap<E, u128>>,
    pub inputs: Rc<Vec<Input>>,
    pub trace: Rc<Vec<Vec<E>>>,
    pub pending: Option<E>,
    pub stack_next: u64,
    pub merge: u32,
    pub fs: Rc<Fs>,
    pub path_insts: u64,
    pub secret: bool,
    /// secrets that must not stay in memory, byte by byte
    pub needles: Rc<Vec<Vec<E>>>,
    pub locals: Rc<BTreeMap<String, u64>>,
}

#[derive(Clone, Copy)]
pub struct Stop {
    pub depth: usize,
    pub block: u32,
}

pub enum Ev {
    /// split the state on a condition and execute the same instruction again
    Fork(E, Option<(E, u128)>),
    /// the path ends
    Kill,
    /// unwind to the innermost try frame with this code
    Unwind(i32),
    /// states that have already moved on
    Split(Vec<(E, State)>),
}
pub type R<T> = Result<T, Ev>;

pub enum Flow {
    Next,
    Jumped,
    /// frame pushed or popped
    Frames,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, u8, Vec<u8>)>,
}

pub enum Off {
    C(u64),
    S(E, Vec<u64>),
}

#[derive(Clone, PartialEq)]
pub enum Hook {
    Run,
    Intr(String),
    Ext(String),
    Panic(&'static str),
}

pub struct Exec {
    pub m: Rc<Module>,
    pub solver: Solver,
    pub hooks: Vec<Hook>,
    ginit: Vec<Option<Rc<Obj>>>,
    pub heap_next: u64,
    pub violations: Vec<Violation>,
    vseen: HashMap<String, u32>,
    pub max_viol: usize,
    pub reached: BTreeMap<String, u64>,
    pub insts: u64,
    pub paths: u64,
    pub ended: BTreeMap<String, u64>,
    pub dropped: u64,
    pub forks: u64,
    pub merges: u64,
    pub params: HashMap<String, u64>,
    pub max_path_insts: u64,
    pub max_insts: u64,
    pub deadline: Option<(Instant, f64)>,
    pub traces: Vec<Vec<Vec<u8>>>,
    pub path_inputs: Vec<Vec<(String, u8, Vec<u8>)>>,
    pub keep_traces: bool,
    pub ext_used: BTreeSet<String>,
    pub fns_used: HashSet<u32>,
    pub max_cands: usize,
    pub fork_sites: HashMap<(u32, u32), u64>,
    pub verbose: bool,
    pub stop_all: bool,
    pub eager: bool,
    pub tick: Instant,
    pub chatty: u32,
    pub assert_msgs: BTreeMap<String, (u64, u64, u64)>,
    pub samples: Vec<String>,
}

enum Step {
    Stop,
    Dead,
    Fork(Vec<(E, State)>, bool),
}

pub fn ev(v: &Val, w: u32) -> E {
    match v {
        Val::C(c) => cx().konst(*c, w),
        Val::S(e) => {
            debug_assert!(cx().w(*e) == w, "width {} vs {}", cx().w(*e), w);
            *e
        }
        Val::A(_) => panic!("aggregate where a scalar is expected"),
    }
}
pub fn mkval(e: E) -> Val {
    match cx().as_const(e) {
        Some(c) => Val::C(c),
        None => Val::S(e),
    }
}

fn bk(k: BK) -> B {
    match k {
        BK::Add => B::Add,
        BK::Sub => B::Sub,
        BK::Mul => B::Mul,
        BK::UDiv => B::UDiv,
        BK::URem => B::URem,
        BK::SDiv => B::SDiv,
        BK::SRem => B::SRem,
        BK::And => B::And,
        BK::Or => B::Or,
        BK::Xor => B::Xor,
        BK::Shl => B::Shl,
        BK::LShr => B::LShr,
        BK::AShr => B::AShr,
        _ => panic!("float op"),
    }
}

pub fn sbin(op: B, w: u32, a: &Val, b: &Val) -> Val {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        return Val::C(fold(op, *x, *y, w));
    }
    let (x, y) = (ev(a, w), ev(b, w));
    mkval(cx().bin(op, x, y))
}
pub fn snot(a: &Val) -> Val {
    sbin(B::Xor, 1, a, &Val::C(1))
}
pub fn scmp(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
    match p {
        Pred::Eq => sbin(B::Eq, w, a, b),
        Pred::Ne => snot(&sbin(B::Eq, w, a, b)),
        Pred::Ult => sbin(B::Ult, w, a, b),
        Pred::Ule => sbin(B::Ule, w, a, b),
        Pred::Ugt => sbin(B::Ult, w, b, a),
        Pred::Uge => sbin(B::Ule, w, b, a),
        Pred::Slt => sbin(B::Slt, w, a, b),
        Pred::Sle => sbin(B::Sle, w, a, b),
        Pred::Sgt => sbin(B::Slt, w, b, a),
        Pred::Sge => sbin(B::Sle, w, b, a),
    }
}
pub fn szext(a: &Val, _f: u32, t: u32) -> Val {
    match a {
        Val::C(c) => Val::C(*c),
        Val::S(e) => mkval(cx().zext(*e, t)),
        _ => panic!("zext"),
    }
}
pub fn ssext(a: &Val, f: u32, t: u32) -> Val {
    match a {
        Val::C(c) => Val::C(sext(*c, f) as u128 & mask(t)),
        Val::S(e) => mkval(cx().sext(*e, t)),
        _ => panic!("sext"),
    }
}
pub fn strunc(a: &Val, t: u32) -> Val {
    match a {
        Val::C(c) => Val::C(*c & mask(t)),
        Val::S(e) => mkval(cx().trunc(*e, t)),
        _ => panic!("trunc"),
    }
}
pub fn sextract(a: &Val, lo: u32, w: u32) -> Val {
    match a {
        Val::C(c) => Val::C((*c >> lo) & mask(w)),
        Val::S(e) => mkval(cx().extract(*e, lo, w)),
        _ => panic!("extract"),
    }
}

impl Exec {
    pub fn new(m: Rc<Module>) -> Exec {
        let mut hooks = vec![];
        for f in &m.fns {
            let n = &f.name;
            let h = if n.starts_with("llvm.") {
                Hook::Intr(n.clone())
            } else if n.starts_with("psym_") {
                Hook::Ext(n.clone())
            } else if n.contains("4core9panicking9panic_fmt") {
                Hook::Panic("panic")
            } else if n.contains("4core9panicking18panic_nounwind_fmt")
                || n.contains("4core9panicking19panic_cannot_unwind")
                || n.contains("3std9panicking20rust_panic_with_hook")
            {
                Hook::Panic("abort")
            } else if n.contains("5alloc5alloc18handle_alloc_error") {
                Hook::Panic("alloc error")
            } else if let Some(k) = crate::libc::rust_hook(n) {
                Hook::Ext(k.to_string())
            } else if f.body.is_none() {
                Hook::Ext(n.clone())
            } else {
                Hook::Run
            };
            hooks.push(h);
        }
        let ng = m.globals.len();
        Exec {
            m,
            solver: Solver::new(),
            hooks,
            ginit: vec![None; ng],
            heap_next: 1,
            violations: vec![],
            vseen: HashMap::new(),
            max_viol: 8,
            reached: BTreeMap::new(),
            insts: 0,
            paths: 0,
            ended: BTreeMap::new(),
            dropped: 0,
            forks: 0,
            merges: 0,
            params: HashMap::new(),
            max_path_insts: 2_000_000_000,
            max_insts: 20_000_000_000,
            deadline: None,
            traces: vec![],
            path_inputs: vec![],
            keep_traces: false,
            ext_used: BTreeSet::new(),
            fns_used: HashSet::new(),
            max_cands: 512,
            fork_sites: HashMap::new(),
            verbose: false,
            stop_all: false,
            eager: false,
            tick: Instant::now(),
            chatty: std::env::var("SYMIR_CHATTY").ok().and_then(|x| x.parse().ok()).unwrap_or(1000),
            assert_msgs: BTreeMap::new(),
            samples: vec![],
        }
    }

    pub fn initial(&self) -> State {
        State {
            frames: vec![],
            mem: Mem::new(),
            pc: Pc::new(),
            narrow: 0,
            lazy: None,
            conc: Rc::new(HashMap::new()),
            inputs: Rc::new(vec![]),
            trace: Rc::new(vec![]),
            pending: None,
            stack_next: 1,
            merge: 0,
            fs: Rc::new(Fs::new()),
            path_insts: 0,
            secret: false,
            needles: Rc::new(vec![]),
            locals: Rc::new(BTreeMap::new()),
        }
    }

    // ---------------------------------------------------------------- reporting
    fn stack_of(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        for fr in st.frames.iter().rev() {
            let dbg = fr
                .f
                .blocks
                .get(fr.block as usize)
                .and_then(|b| b.insts.get(fr.idx as usize))
                .map(|i| i.dbg)
                .unwrap_or(0);
            let locs = self.m.loc(dbg);
            if locs.is_empty() {
                v.push(crate::demangle(&fr.f.name));
            }
            for (f, l, n) in locs {
                v.push(format!("{} at {}:{}", crate::demangle(&n), f, l));
            }
        }
        v
    }
    pub fn model_inputs(&self, st: &State, m: &Model) -> Vec<(String, u8, Vec<u8>)> {
        st.inputs
            .iter()
            .map(|i| {
                let mut bytes = vec![];
                for e in i.vars.iter() {
                    let v = m.eval(*e);
                    let n = (cx().w(*e) + 7) / 8;
                    for k in 0..n {
                        bytes.push((v >> (8 * k)) as u8);
                    }
                }
                (i.name.to_string(), i.kind, bytes)
            })
            .collect()
    }
    pub fn violation(&mut self, st: &State, m: &Model, kind: &str, msg: &str) {
        let n = self.vseen.entry(format!("{}:{}", kind, msg)).or_insert(0);
        *n += 1;
        if *n > 3 {
            return;
        }
        let v = Violation {
            kind: kind.to_string(),
            msg: msg.to_string(),
            stack: self.stack_of(st),
            inputs: self.model_inputs(st, m),
        };
        if self.verbose {
            eprintln!("violation {}: {}", kind, msg);
            for s in v.stack.iter().take(12) {
                eprintln!("    {}", s);
            }
        }
        self.violations.push(v);
        if self.violations.len() >= self.max_viol {
            self.stop_all = true;
        }
    }
    pub fn end_path(&mut self, st: &State, why: &str) {
        self.paths += 1;
        self.dropped += 1;
        *self.ended.entry(why.to_string()).or_insert(0) += 1;
        if self.samples.len() < 3 && why != "assumption" {
            let mut s = String::new();
            for (n, k, b) in self.model_inputs(st, &st.pc.model.clone()) {
                if s.len() > 300 {
                    s.push_str(" ...");
                    break;
                }
                if k == b'c' {
                    s.push_str(&format!("{}={} ", n, b[0]));
                } else {
                    s.push_str(&format!("{}={} ", n, crate::show_bytes(&b)));
                }
            }
            self.samples.push(format!(
                "path ended: {}; {} constraints; witness {}",
                why,
                st.pc.cons.len(),
                s
            ));
        }
        if self.keep_traces && self.traces.len() < 4000 {
            let m = st.pc.model.clone();
            self.traces.push(
                st.trace
                    .iter()
                    .map(|t| t.iter().map(|e| m.eval(*e) as u8).collect())
                    .collect(),
            );
            let mut inp = self.model_inputs(st, &m);
            inp.push(("__end".into(), b'e', why.as_bytes().to_vec()));
            self.path_inputs.push(inp);
        }
    }

    // ---------------------------------------------------------------- main loop
    /// Runs a state; returns the states that reached `stop` (or unwound past it).
    pub fn run(&mut self, st: State, stop: Stop) -> Vec<State> {
        let mut st = st;
        if self.at_stop(&st, stop) {
            return vec![st];
        }
        loop {
            if self.stop_all {
                return vec![];
            }
            match self.go(&mut st, stop) {
                Step::Stop => return vec![st],
                Step::Dead => return vec![],
                Step::Fork(kids, reexec) => {
                    self.forks += 1;
                    let fr = st.frames.last().unwrap();
                    *self.fork_sites.entry((fr.f.id, fr.block)).or_insert(0) += 1;
                    let join = if st.merge > 0 && !reexec {
                        let b = fr.f.ipdom(fr.block);
                        Some(Stop {
                            depth: st.frames.len(),
                            block: b,
                        })
                    } else {
                        None
                    };
                    match join {
                        None => {
                            let mut out = vec![];
                            drop(std::mem::replace(&mut st.frames, vec![]));
                            for (_, s) in kids {
                                out.extend(self.run(s, stop));
                            }
                            return out;
                        }
                        Some(j) => {
                            let d0 = self.dropped;
                            let parent = (st.pc.clone(), st.lazy.clone());
                            let narrow = st.narrow;
                            let mut res: Vec<State> = vec![];
                            for (_, s) in kids {
                                res.extend(self.run(s, j));
                            }
                            if self.stop_all {
                                return vec![];
                            }
                            let complete = self.dropped == d0
                                && res.iter().all(|s| s.narrow == narrow);
                            let mut merged = self.merge_all(res, &parent, complete, narrow);
                            if merged.len() == 1 {
                                st = merged.pop().unwrap();
                                if self.at_stop(&st, stop) {
                                    return vec![st];
                                }
                                continue;
                            }
                            let mut out = vec![];
                            for s in merged {
                                if self.at_stop(&s, stop) {
                                    out.push(s);
                                } else {
                                    out.extend(self.run(s, stop));
                                }
                            }
                            return out;
                        }
                    }
                }
            }
        }
    }

    fn progress(&self, st: &State) {
        let s = &self.solver.stats;
        eprintln!(
            "-- insts {} nodes {} paths {} forks {} merges {} z3 {} ({:.1} s, max {:.1}) merge {} cons {} depth {}",
            self.insts, cx().nodes.len(), self.paths, self.forks, self.merges, s.z3, s.z3_time,
            s.z3_max, st.merge, st.pc.cons.len(), st.frames.len()
        );
        for l in self.stack_of(st).iter().take(14) {
            let l = l.replace("/root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/src/rust/library/", "");
            eprintln!("     {}", l.chars().take(120).collect::<String>());
        }
        let mut v: Vec<_> = self.solver.prof.iter().collect();
        v.sort_by(|a, b| b.1 .1.partial_cmp(&a.1 .1).unwrap());
        for (d, (n, t)) in v.iter().take(5) {
            let l: Vec<String> = self.m.loc(**d).iter().take(9).map(|(f, l, _)| format!("{}:{}", f.rsplit('/').next().unwrap(), l)).collect();
            eprintln!("     z3 {} x {:.2} s at {}", n, t, l.join(" < "));
        }
    }

    fn at_stop(&self, st: &State, stop: Stop) -> bool {
        let d = st.frames.len();
        if d < stop.depth {
            return true;
        }
        if d == stop.depth && stop.block != NONE {
            let fr = st.frames.last().unwrap();
            return fr.block == stop.block && fr.idx == 0;
        }
        false
    }

    fn go(&mut self, st: &mut State, stop: Stop) -> Step {
        let mut n = 0u64;
        loop {
            n += 1;
            if self.insts & 0x3ff == 0 || n & 0xfff == 0 {
                if self.verbose && self.tick.elapsed().as_secs_f64() > 5.0 {
                    self.tick = Instant::now();
                    self.progress(st);
                }
                if st.path_insts > self.max_path_insts {
                    fatal(&format!(
                        "path longer than {} instructions; at {:?}",
                        self.max_path_insts,
                        self.stack_of(st).iter().take(6).collect::<Vec<_>>()
                    ));
                }
                if self.insts > self.max_insts {
                    fatal("instruction budget exhausted");
                }
                if n & 0xffff == 0 {
                    let rss = std::fs::read_to_string("/proc/self/statm")
                        .ok()
                        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
                        .unwrap_or(0);
                    if rss > (7 << 30) / 4096 {
                        fatal("memory budget of 7 GB exhausted");
                    }
                }
                if let Some((t, lim)) = self.deadline {
                    if t.elapsed().as_secs_f64() > lim {
                        if self.verbose {
                            eprintln!("{:?}", self.stack_of(st));
                        }
                        fatal(&format!("time budget of {} s exhausted", lim));
                    }
                }
            }
            self.insts += 1;
            st.path_insts += 1;
            let r = self.step(st);
            match r {
                Ok(Flow::Next) => {
                    let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                    fr.idx += 1;
                }
                Ok(Flow::Jumped) => {
                    if self.at_stop(st, stop) {
                        return Step::Stop;
                    }
                }
                Ok(Flow::Frames) => {
                    if st.frames.is_empty() {
                        self.end_path(st, "returned");
                        return Step::Dead;
                    }
                    if self.at_stop(st, stop) {
                        return Step::Stop;
                    }
                }
                Err(Ev::Kill) => return Step::Dead,
                Err(Ev::Split(kids)) => return Step::Fork(kids, false),
                Err(Ev::Unwind(code)) => {
                    if !self.unwind(st, code) {
                        return Step::Dead;
                    }
                    if self.at_stop(st, stop) {
                        return Step::Stop;
                    }
                }
                Err(Ev::Fork(c, conc)) => {
                    if st.lazy.is_some() {
                        if self.ensure(st).is_err() {
                            return Step::Dead;
                        }
                        continue;
                    }
                    // `conc`: on the true side expression e equals v
                    let nc = cx().not(c);
                    let mut kids = vec![];
                    for (cond, pos) in [(c, true), (nc, false)] {
                        if let Res::Sat(m) = self.solver.check(&st.pc, cond, false) {
                            let mut s = st.clone();
                            s.pc.add(cond);
                            s.pc.model = m;
                            if pos {
                                if let Some((e, v)) = conc {
                                    Rc::make_mut(&mut s.conc).insert(e, v);
                                    let fr = Rc::make_mut(s.frames.last_mut().unwrap());
                                    for r in fr.regs.iter_mut() {
                                        if let Val::S(x) = r {
                                            if *x == e {
                                                *r = Val::C(v);
                                            }
                                        }
                                    }
                                }
                            }
                            kids.push((cond, s));
                        }
                    }
                    if kids.len() == 1 {
                        *st = kids.pop().unwrap().1;
                        continue;
                    }
                    return Step::Fork(kids, true);
                }
            }
        }
    }

    /// Pop frames up to and including the innermost try frame.
    fn unwind(&mut self, st: &mut State, code: i32) -> bool {
        loop {
            match st.frames.pop() {
                None => return false,
                Some(fr) => {
                    self.free_stack(st, fr.stack_mark);
                    if fr.is_try {
                        st.pending = None;
                        self.finish_call(st, Some(Val::C(code as u32 as u128)));
                        return true;
                    }
                }
            }
        }
    }
    pub fn has_try(&self, st: &State) -> bool {
        st.frames.iter().any(|f| f.is_try)
    }

    fn free_stack(&mut self, st: &mut State, mark: u64) {
        for i in mark..st.stack_next {
            *st.mem.stack.slot(i) = None;
        }
        st.stack_next = mark;
    }

    /// The callee of the instruction the top frame points to has produced `v`.
    fn finish_call(&mut self, st: &mut State, v: Option<Val>) {
        if st.frames.is_empty() {
            return;
        }
        let f = st.frames.last().unwrap().f.clone();
        let (b, i) = {
            let fr = st.frames.last().unwrap();
            (fr.block, fr.idx)
        };
        let ins = &f.blocks[b as usize].insts[i as usize];
        if ins.dst != NONE {
            let v = v.unwrap_or(Val::C(0));
            Rc::make_mut(st.frames.last_mut().unwrap()).regs[ins.dst as usize] = v;
        }
        if let I::Call { next, .. } = ins.i {
            if next != NONE {
                self.jump(st, next);
                return;
            }
        }
        Rc::make_mut(st.frames.last_mut().unwrap()).idx += 1;
    }

    pub fn jump(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let f = fr.f.clone();
        let from = fr.block;
        let blk = &f.blocks[to as usize];
        blk.hit.set(true);
        match blk.phis.len() {
            0 => {}
            1 => {
                let (d, srcs) = &blk.phis[0];
                let o = &srcs.iter().find(|s| s.0 == from).expect("phi source").1;
                let v = match o {
                    Opd::R(r) => fr.regs[*r as usize].clone(),
                    Opd::K(v) => v.clone(),
                };
                fr.regs[*d as usize] = v;
            }
            _ => {
                let mut vals = Vec::with_capacity(blk.phis.len());
                for (_, srcs) in &blk.phis {
                    let o = &srcs.iter().find(|s| s.0 == from).expect("phi source").1;
                    vals.push(match o {
                        Opd::R(r) => fr.regs[*r as usize].clone(),
                        Opd::K(v) => v.clone(),
                    });
                }
                for ((d, _), v) in blk.phis.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.block = to;
        fr.idx = 0;
    }

    pub fn push_call(&mut self, st: &mut State, fid: u32, args: Vec<Val>, is_try: bool) {
        let f = match self.m.func(fid) {
            Some(f) => f,
            None => fatal(&format!("call of undefined function {}", self.m.fns[fid as usize].name)),
        };
        self.fns_used.insert(fid);
        let mut regs = vec![Val::C(0); f.reg_ty.len()];
        for (i, (_, r)) in f.params.iter().enumerate() {
            if let Some(v) = args.get(i) {
                regs[*r as usize] = v.clone();
            }
        }
        f.blocks[0].hit.set(true);
        if st.frames.len() > 2000 {
            fatal("call depth exceeds 2000 frames");
        }
        st.frames.push(Rc::new(Frame {
            f,
            block: 0,
            idx: 0,
            regs,
            stack_mark: st.stack_next,
            is_try,
        }));
    }

    #[inline]
    pub fn opv(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }
    fn set(&self, st: &mut State, dst: u32, v: Val) {
        if dst != NONE {
            Rc::make_mut(st.frames.last_mut().unwrap()).regs[dst as usize] = v;
        }
    }

    // ---------------------------------------------------------------- instructions
    fn step(&mut self, st: &mut State) -> R<Flow> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let ins = &f.blocks[fr.block as usize].insts[fr.idx as usize];
        let dst = ins.dst;
        self.solver.at = ins.dbg;
        if st.lazy.is_some() && !pure_inst(&ins.i, &self.hooks, st) {
            self.ensure(st)?;
        }
        match &ins.i {
            I::Bin(k, n, w, fl, a, b) => {
                let (a, b) = (self.opv(st, a), self.opv(st, b));
                let v = if *fl {
                    self.fbin(*k, *n, *w, &a, &b)
                } else if *n == 0 {
                    let op = bk(*k);
                    if matches!(op, B::UDiv | B::URem | B::SDiv | B::SRem) {
                        let z = scmp(Pred::Eq, *w, &b, &Val::C(0));
                        self.must_not(st, &z, "division by zero")?;
                    }
                    sbin(op, *w, &a, &b)
                } else {
                    lanes2(&a, &b, |x, y| sbin(bk(*k), *w, x, y))
                };
                self.set(st, dst, v);
                Ok(Flow::Next)
            }
            I::ICmp(p, n, w, a, b) => {
                let (a, b) = (self.opv(st, a), self.opv(st, b));
                let v = if *n == 0 {
                    scmp(*p, *w, &a, &b)
                } else {
                    lanes2(&a, &b, |x, y| scmp(*p, *w, x, y))
                };
                self.set(st, dst, v);
                Ok(Flow::Next)
            }
            I::FCmp(p, d, a, b) => {
                let (a, b) = (self.opv(st, a), self.opv(st, b));
                if !matches!((&a, &b), (Val::C(_), Val::C(_))) {
                    let v = havoc(1);
                    self.set(st, dst, v);
                    return Ok(Flow::Next);
                }
                let (x, y) = (self.fl(&a, *d), self.fl(&b, *d));
                let un = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => !un && x == y,
                    "one" => !un && x != y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "ueq" => un || x == y,
                    "une" => un || x != y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "uno" => un,
                    "ord" => !un,
                    "true" => true,
                    _ => false,
                };
                self.set(st, dst, Val::C(r as u128));
                Ok(Flow::Next)
            }
            I::FNeg(d, a) => {
                let a = self.opv(st, a);
                let v = if *d {
                    sbin(B::Xor, 64, &a, &Val::C(1 << 63))
                } else {
                    sbin(B::Xor, 32, &a, &Val::C(1 << 31))
                };
                self.set(st, dst, v);
                Ok(Flow::Next)
            }
            I::Select(c, t, a, b) => {
                let (c, a, b) = (self.opv(st, c), self.opv(st, a), self.opv(st, b));
                let v = match &c {
                    Val::C(1) => a,
                    Val::C(_) => b,
                    Val::S(e) => self.ite_val(*e, &a, &b, *t),
                    Val::A(cs) => {
                        let et = self.m.sub_ty(*t, 0);
                        let (av, bv) = (agg(&a), agg(&b));
                        let mut out = vec![];
                        for i in 0..cs.len() {
                            out.push(match &cs[i] {
                                Val::C(1) => av[i].clone(),
                                Val::C(_) => bv[i].clone(),
                                Val::S(e) => self.ite_val(*e, &av[i], &bv[i], et),
                                _ => panic!(),
                            });
                        }
                        Val::A(Rc::new(out))
                    }
                };
                self.set(st, dst, v);
                Ok(Flow::Next)
            }
            I::Cast(k, ft, tt, a) => {
                let a = self.opv(st, a);
                let v = self.cast(*k, *ft, *tt, a);
                self.set(st, dst, v);
                Ok(Flow::Next)
            }
            I::Freeze(a) => {
                let a = self.opv(st, a);
                self.set(st, dst, a);
                Ok(Flow::Next)
            }
            I::Alloca(sz, n) => {
                let n = self.opv(st, n);
                let n = self.concrete(st, &n, 64)? as u64;
                let id = st.stack_next;
                st.stack_next += 1;
                if id >= 1 << 24 {
                    fatal("stack ids exhausted");
                }
                *st.mem.stack.slot(id) = Some(Rc::new(Obj::new(sz * n, Kind::Stack)));
                self.set(st, dst, Val::C(((STACK_BASE + id) << 24) as u128));
                Ok(Flow::Next)
            }
            I::Load(t, p) => {
                let p = self.opv(st, p);
                let v = self.load(st, &p, *t)?;
                self.set(st, dst, v);
                Ok(Flow::Next)
            }
            I::Store(t, v, p) => {
                let (v, p) = (self.opv(st, v), self.opv(st, p));
                self.store(st, &p, *t, &v)?;
                Ok(Flow::Next)
            }
            I::Gep(b, off, terms) => {
                let b = self.opv(st, b);
                let mut v = match &b {
                    Val::C(c) => Val::C((*c as u64).wrapping_add(*off as u64) as u128),
                    _ => sbin(B::Add, 64, &b, &Val::C(*off as u64 as u128)),
                };
                for (sc, o, w) in terms {
                    let i = self.opv(st, o);
                    let i = match *w {
                        64 => i,
                        w if w < 64 => ssext(&i, w, 64),
                        _ => strunc(&i, 64),
                    };
                    let x = sbin(B::Mul, 64, &i, &Val::C(*sc as u64 as u128));
                    v = sbin(B::Add, 64, &v, &x);
                }
                self.set(st, dst, v);
                Ok(Flow::Next)
            }
            I::Br(b) => {
                self.jump(st, *b);
                Ok(Flow::Jumped)
            }
            I::CondBr(c, t, e) => {
                let c = self.opv(st, c);
                match c {
                    Val::C(1) => {
                        self.jump(st, *t);
                        Ok(Flow::Jumped)
                    }
                    Val::C(_) => {
                        self.jump(st, *e);
                        Ok(Flow::Jumped)
                    }
                    Val::S(x) => {
                        let nx = cx().not(x);
                        self.branch(st, vec![(x, *t), (nx, *e)])
                    }
                    _ => panic!("branch on aggregate"),
                }
            }
            I::Switch(v, w, d, cases) => {
                let v = self.opv(st, v);
                match v {
                    Val::C(k) => {
                        let to = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                        self.jump(st, to);
                        Ok(Flow::Jumped)
                    }
                    Val::S(e) => {
                        let mut by: Vec<(E, u32)> = vec![];
                        let c = cx();
                        let mut none = c.true_;
                        for (k, b) in cases {
                            let kk = c.konst(*k, *w);
                            let q = c.eq(e, kk);
                            if q == c.false_ {
                                continue;
                            }
                            let nq = c.not(q);
                            none = c.and(none, nq);
                            match by.iter_mut().find(|x| x.1 == *b) {
                                Some(x) => x.0 = c.or(x.0, q),
                                None => by.push((q, *b)),
                            }
                        }
                        match by.iter_mut().find(|x| x.1 == *d) {
                            Some(x) => x.0 = c.or(x.0, none),
                            None => by.push((none, *d)),
                        }
                        self.branch(st, by)
                    }
                    _ => panic!("switch on aggregate"),
                }
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|o| self.opv(st, o));
                let fr = st.frames.pop().unwrap();
                self.free_stack(st, fr.stack_mark);
                if fr.is_try {
                    self.finish_call(st, Some(Val::C(0)));
                } else {
                    self.finish_call(st, v);
                }
                Ok(Flow::Frames)
            }
            I::Unreachable => {
                self.violation(st, &st.pc.model.clone(), "unreachable", "unreachable code executed");
                self.end_path(st, "unreachable");
                Err(Ev::Kill)
            }
            I::Call { callee, args, ret, .. } => {
                let mut av = Vec::with_capacity(args.len());
                for (_, o) in args {
                    av.push(self.opv(st, o));
                }
                let fid = match callee {
                    Callee::Fn(i) => *i,
                    Callee::Ind(o) => {
                        let a = self.opv(st, o);
                        let a = self.concrete(st, &a, 64)? as u64;
                        match addr_fn(a) {
                            Some(i) => i,
                            None => {
                                self.violation(
                                    st,
                                    &st.pc.model.clone(),
                                    "memory",
                                    "call through an invalid function pointer",
                                );
                                self.end_path(st, "memory error");
                                return Err(Ev::Kill);
                            }
                        }
                    }
                    Callee::Asm(s) => {
                        let v = self.asm(st, s, &av, *ret)?;
                        self.set(st, dst, v);
                        return Ok(Flow::Next);
                    }
                };
                let hook = self.hooks[fid as usize].clone();
                match hook {
                    Hook::Run => {
                        self.push_call(st, fid, av, false);
                        Ok(Flow::Frames)
                    }
                    Hook::Panic(k) => {
                        let mut loc = String::new();
                        if let Some(Val::C(p)) = av.last() {
                            loc = self.read_location(st, *p as u64);
                        }
                        if self.has_try(st) {
                            if self.verbose {
                                eprintln!("caught panic at {}", loc);
                            }
                            return Err(Ev::Unwind(1));
                        }
                        self.violation(st, &st.pc.model.clone(), "panic", &format!("{} at {}", k, loc));
                        self.end_path(st, "panic");
                        Err(Ev::Kill)
                    }
                    Hook::Intr(n) => {
                        let tys: Vec<TyId> = args.iter().map(|a| a.0).collect();
                        let v = self.intrinsic(st, &n, &av, &tys, *ret)?;
                        self.set(st, dst, v);
                        Ok(Flow::Next)
                    }
                    Hook::Ext(n) => {
                        self.ext_used.insert(n.clone());
                        match self.external(st, &n, &av)? {
                            Some(v) => {
                                self.finish_call(st, Some(v));
                                Ok(Flow::Jumped)
                            }
                            None => Ok(Flow::Frames),
                        }
                    }
                }
            }
            I::ExtractValue(a, idx) => {
                let mut v = self.opv(st, a);
                for i in idx {
                    v = agg(&v)[*i as usize].clone();
                }
                self.set(st, dst, v);
                Ok(Flow::Next)
            }
            I::InsertValue(a, v, idx) => {
                let a = self.opv(st, a);
                let v = self.opv(st, v);
                let r = insert(&a, &v, idx);
                self.set(st, dst, r);
                Ok(Flow::Next)
            }
            I::ExtractElem(a, i) => {
                let (a, i) = (self.opv(st, a), self.opv(st, i));
                let i = self.concrete(st, &i, 64)?;
                let v = agg(&a)[i as usize].clone();
                self.set(st, dst, v);
                Ok(Flow::Next)
            }
            I::InsertElem(a, v, i) => {
                let (a, v, i) = (self.opv(st, a), self.opv(st, v), self.opv(st, i));
                let i = self.concrete(st, &i, 64)?;
                let mut av = agg(&a).clone();
                av[i as usize] = v;
                self.set(st, dst, Val::A(Rc::new(av)));
                Ok(Flow::Next)
            }
            I::Shuffle(a, b, n, mk) => {
                let (a, b) = (self.opv(st, a), self.opv(st, b));
                let (av, bv) = (agg(&a), agg(&b));
                let v = mk
                    .iter()
                    .map(|i| match i {
                        None => Val::C(0),
                        Some(i) if i < n => av[*i as usize].clone(),
                        Some(i) => bv[(*i - *n) as usize].clone(),
                    })
                    .collect();
                self.set(st, dst, Val::A(Rc::new(v)));
                Ok(Flow::Next)
            }
            I::AtomicRmw(k, t, p, v) => {
                let (p, v) = (self.opv(st, p), self.opv(st, v));
                let old = self.load(st, &p, *t)?;
                let w = self.m.bits(*t) as u32;
                let new = match k.as_str() {
                    "xchg" => v,
                    "add" => sbin(B::Add, w, &old, &v),
                    "sub" => sbin(B::Sub, w, &old, &v),
                    "and" => sbin(B::And, w, &old, &v),
                    "or" => sbin(B::Or, w, &old, &v),
                    "xor" => sbin(B::Xor, w, &old, &v),
                    _ => fatal(&format!("atomicrmw {}", k)),
                };
                self.store(st, &p, *t, &new)?;
                self.set(st, dst, old);
                Ok(Flow::Next)
            }
            I::CmpXchg(t, p, e, n) => {
                let (p, e, n) = (self.opv(st, p), self.opv(st, e), self.opv(st, n));
                let old = self.load(st, &p, *t)?;
                let w = self.m.bits(*t) as u32;
                let q = scmp(Pred::Eq, w, &old, &e);
                let q = self.concrete(st, &q, 1)?;
                if q == 1 {
                    self.store(st, &p, *t, &n)?;
                }
                self.set(st, dst, Val::A(Rc::new(vec![old, Val::C(q)])));
                Ok(Flow::Next)
            }
            I::Fence => Ok(Flow::Next),
            I::Unsup(s) => fatal(&format!("unsupported instruction {} in {}", s, f.name)),
        }
    }

    fn branch(&mut self, st: &mut State, opts: Vec<(E, u32)>) -> R<Flow> {
        if st.merge > 0 && !self.eager {
            if let Some(l) = &st.lazy {
                if l.depth >= LAZY_MAX {
                    self.ensure(st)?;
                }
            }
            return self.branch_lazy(st, opts);
        }
        self.ensure(st)?;
        let mut feas: Vec<(E, u32, Rc<Model>)> = vec![];
        let n = opts.len();
        for (i, (c, b)) in opts.into_iter().enumerate() {
            // the last alternative needs no query when nothing else was feasible
            if i + 1 == n && feas.is_empty() {
                self.jump(st, b);
                return Ok(Flow::Jumped);
            }
            if let Res::Sat(m) = self.solver.check(&st.pc, c, false) {
                feas.push((c, b, m));
            }
        }
        if feas.len() == 1 {
            let (_, b, _) = feas.pop().unwrap();
            self.jump(st, b);
            return Ok(Flow::Jumped);
        }
        let mut kids = vec![];
        for (c, b, m) in feas {
            let mut s = st.clone();
            s.pc.add(c);
            s.pc.model = m;
            self.jump(&mut s, b);
            kids.push((c, s));
        }
        Err(Ev::Split(kids))
    }

    /// Branch whose sides may be entered without knowing that they are feasible: they are
    /// joined again with an if-then-else on their condition, which is right either way.
    fn branch_lazy(&mut self, st: &mut State, opts: Vec<(E, u32)>) -> R<Flow> {
        let mut alts: Vec<(E, u32, Option<Rc<Model>>)> = vec![];
        for (c, b) in opts {
            match self.solver.quick(&st.pc, c, st.lazy.is_none()) {
                Some(Res::Sat(m)) => alts.push((c, b, Some(m))),
                Some(Res::Unsat) => {}
                None => alts.push((c, b, None)),
            }
        }
        match alts.len() {
            0 => {
                debug_assert!(st.lazy.is_some());
                return Err(Ev::Kill);
            }
            1 => {
                let (_, b, _) = alts.pop().unwrap();
                self.jump(st, b);
                return Ok(Flow::Jumped);
            }
            _ => {}
        }
        let mut kids = vec![];
        for (c, b, m) in alts {
            let mut s = st.clone();
            match m {
                Some(m) => s.pc.model = m,
                None => {
                    s.lazy = Some(match &st.lazy {
                        None => Lazy { pc: Rc::new(st.pc.clone()), cond: c, depth: 1 },
                        Some(l) => Lazy {
                            pc: l.pc.clone(),
                            cond: cx().and(l.cond, c),
                            depth: l.depth + 1,
                        },
                    })
                }
            }
            s.pc.add(c);
            self.jump(&mut s, b);
            kids.push((c, s));
        }
        Err(Ev::Split(kids))
    }

    /// Makes sure that the state is feasible and `pc.model` satisfies its path condition.
    pub fn ensure(&mut self, st: &mut State) -> R<()> {
        if let Some(l) = st.lazy.take() {
            if self.verbose && l.depth > self.chatty {
                eprintln!("deep check: depth {} {}", l.depth, cx().show(l.cond, 16).chars().take(9000).collect::<String>());
                self.progress(st);
            }
            match self.solver.check(&l.pc, l.cond, false) {
                Res::Sat(m) => st.pc.model = m,
                Res::Unsat => return Err(Ev::Kill),
            }
        }
        Ok(())
    }
}

const LAZY_MAX: u32 = 96;

/// May this instruction run in a state whose feasibility is not known?
fn pure_inst(i: &I, hooks: &[Hook], st: &State) -> bool {
    let con = |o: &Opd| match o {
        Opd::K(_) => true,
        Opd::R(r) => matches!(st.frames.last().unwrap().regs[*r as usize], Val::C(_)),
    };
    match i {
        I::Bin(k, _, _, fl, _, b) => {
            !*fl && (!matches!(k, BK::UDiv | BK::URem | BK::SDiv | BK::SRem) || con(b))
        }
        I::ICmp(..)
        | I::Select(..)
        | I::Cast(..)
        | I::Freeze(..)
        | I::Gep(..)
        | I::Br(..)
        | I::CondBr(..)
        | I::Switch(..)
        | I::ExtractValue(..)
        | I::InsertValue(..)
        | I::Shuffle(..) => true,
        I::Ret(_) => st.frames.len() > 1 && !st.frames.last().unwrap().is_try,
        I::Load(_, p) => con(p),
        I::Call { callee: Callee::Fn(f), .. } => match &hooks[*f as usize] {
            Hook::Run => true,
            Hook::Intr(n) => [
                "llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax", "llvm.expect", "llvm.fshl",
                "llvm.fshr", "llvm.ctpop", "llvm.cttz", "llvm.ctlz", "llvm.bswap", "llvm.uadd",
                "llvm.usub", "llvm.sadd", "llvm.ssub", "llvm.umul", "llvm.smul", "llvm.abs",
                "llvm.vector.reduce", "llvm.experimental.noalias",
            ]
            .iter()
            .any(|p| n.starts_with(p)),
            _ => false,
        },
        _ => false,
    }
}

pub fn agg(v: &Val) -> &Vec<Val> {
    match v {
        Val::A(a) => a,
        _ => panic!("scalar where an aggregate is expected"),
    }
}
fn insert(a: &Val, v: &Val, idx: &[u32]) -> Val {
    if idx.is_empty() {
        return v.clone();
    }
    let mut av = agg(a).clone();
    let i = idx[0] as usize;
    av[i] = insert(&av[i], v, &idx[1..]);
    Val::A(Rc::new(av))
}
pub fn lanes2(a: &Val, b: &Val, f: impl Fn(&Val, &Val) -> Val) -> Val {
    let (x, y) = (agg(a), agg(b));
    Val::A(Rc::new(
        x.iter().zip(y.iter()).map(|(p, q)| f(p, q)).collect(),
    ))
}

// ---------------------------------------------------------------- merging
impl Exec {
    fn merge_all(
        &mut self,
        states: Vec<State>,
        parent: &(Pc, Option<Lazy>),
        complete: bool,
        narrow: u32,
    ) -> Vec<State> {
        let (parent, plazy) = (&parent.0, &parent.1);
        // back to the path condition of the parent, which is satisfiable if a member is
        let reset = |s: &mut State| {
            let m = s.pc.model.clone();
            s.pc = parent.clone();
            if s.lazy.is_none() {
                s.pc.model = m;
            } else {
                s.lazy = plazy.clone();
            }
        };
        if states.len() <= 1 && complete {
            let mut v = states;
            for s in v.iter_mut() {
                reset(s);
            }
            return v;
        }
        if states.len() <= 1 {
            return states;
        }
        let n = states.len();
        let mut groups: Vec<(State, E, u32)> = vec![]; // accumulated state, its condition, members
        for s in states {
            let base = parent.cons.len();
            let mut c = cx().true_;
            for x in s.pc.cons[base.min(s.pc.cons.len())..].iter() {
                c = cx().and(c, *x);
            }
            let mut placed = false;
            for g in groups.iter_mut() {
                if self.compatible(&g.0, &s) {
                    self.merge_into(&mut g.0, &s, c);
                    if g.0.lazy.is_some() && s.lazy.is_none() {
                        g.0.lazy = None;
                        g.0.pc.model = s.pc.model.clone();
                    }
                    g.1 = cx().or(g.1, c);
                    g.2 += 1;
                    self.merges += 1;
                    placed = true;
                    break;
                }
            }
            if !placed {
                groups.push((s, c, 1));
            }
        }
        let single = groups.len() == 1;
        let mut out = vec![];
        for (mut s, c, k) in groups {
            if k > 1 || (single && complete) {
                let was_lazy = s.lazy.is_some();
                reset(&mut s);
                if !(single && complete) {
                    if was_lazy {
                        s.lazy = Some(match plazy {
                            None => Lazy { pc: Rc::new(parent.clone()), cond: c, depth: 1 },
                            Some(l) => Lazy {
                                pc: l.pc.clone(),
                                cond: cx().and(l.cond, c),
                                depth: l.depth + 1,
                            },
                        });
                    }
                    s.pc.add(c);
                    s.narrow = s.narrow.max(narrow + 1);
                }
            }
            out.push(s);
        }
        let _ = n;
        out
    }

    fn compatible(&self, a: &State, b: &State) -> bool {
        if a.frames.len() != b.frames.len()
            || a.stack_next != b.stack_next
            || a.merge != b.merge
            || a.pending != b.pending
            || a.secret != b.secret
            || a.needles != b.needles
        {
            return false;
        }
        for (x, y) in a.frames.iter().zip(b.frames.iter()) {
            if Rc::ptr_eq(x, y) {
                continue;
            }
            if x.f.id != y.f.id
                || x.block != y.block
                || x.idx != y.idx
                || x.stack_mark != y.stack_mark
                || x.is_try != y.is_try
            {
                return false;
            }
        }
        if !Rc::ptr_eq(&a.inputs, &b.inputs) && a.inputs.len() != b.inputs.len() {
            return false;
        }
        if !Rc::ptr_eq(&a.inputs, &b.inputs) {
            for (x, y) in a.inputs.iter().zip(b.inputs.iter()) {
                if x.name != y.name || x.vars != y.vars {
                    return false;
                }
            }
        }
        if !Rc::ptr_eq(&a.trace, &b.trace) && a.trace != b.trace {
            return false;
        }
        if !Rc::ptr_eq(&a.locals, &b.locals) && a.locals != b.locals {
            return false;
        }
        if !Rc::ptr_eq(&a.fs, &b.fs) && *a.fs != *b.fs {
            return false;
        }
        // registers that stay live must have mergeable shapes
        for (x, y) in a.frames.iter().zip(b.frames.iter()) {
            if Rc::ptr_eq(x, y) {
                continue;
            }
            for r in 0..x.regs.len() {
                if !shape_eq(&x.regs[r], &y.regs[r]) && x.f.dominates(x.f.reg_blk[r], x.block) {
                    return false;
                }
            }
        }
        let mut ok = true;
        let mut f = |_: u64, p: Option<&Rc<Obj>>, q: Option<&Rc<Obj>>| {
            if let (Some(p), Some(q)) = (p, q) {
                if p.size() != q.size() {
                    ok = false;
                }
            }
        };
        PMap::diff(&a.mem.globals, &b.mem.globals, &mut f);
        PMap::diff(&a.mem.heap, &b.mem.heap, &mut f);
        PMap::diff(&a.mem.stack, &b.mem.stack, &mut f);
        ok
    }

    /// acc := if c then s else acc
    fn merge_into(&mut self, acc: &mut State, s: &State, c: E) {
        for i in 0..acc.frames.len() {
            if Rc::ptr_eq(&acc.frames[i], &s.frames[i]) {
                continue;
            }
            let y = s.frames[i].clone();
            let x = Rc::make_mut(&mut acc.frames[i]);
            for r in 0..x.regs.len() {
                if same(&x.regs[r], &y.regs[r]) {
                    continue;
                }
                if !x.f.dominates(x.f.reg_blk[r], x.block) {
                    continue;
                }
                let t = x.f.reg_ty[r];
                let nv = self.ite_val(c, &y.regs[r], &x.regs[r], t);
                x.regs[r] = nv;
            }
        }
        let mut todo: Vec<(u8, u64, Option<Rc<Obj>>)> = vec![];
        for (k, a, b) in [
            (0u8, &acc.mem.globals, &s.mem.globals),
            (1, &acc.mem.heap, &s.mem.heap),
            (2, &acc.mem.stack, &s.mem.stack),
        ] {
            PMap::diff(a, b, &mut |id, p, q| {
                let r = match (p, q) {
                    (None, Some(q)) if k != 0 => Some(q.clone()),
                    (None, Some(q)) => {
                        // a global first written on one side only
                        let p = self.ginit.get(id as usize - 1).cloned().flatten();
                        p.map(|p| merge_obj(&p, q, c))
                    }
                    (Some(p), None) if k == 0 => {
                        let q = self.ginit.get(id as usize - 1).cloned().flatten();
                        q.map(|q| merge_obj(p, &q, c))
                    }
                    (Some(p), Some(q)) => Some(merge_obj(p, q, c)),
                    _ => return,
                };
                todo.push((k, id, r));
            });
        }
        for (k, id, o) in todo {
            let m = match k {
                0 => &mut acc.mem.globals,
                1 => &mut acc.mem.heap,
                _ => &mut acc.mem.stack,
            };
            *m.slot(id) = o;
        }
        if !Rc::ptr_eq(&acc.conc, &s.conc) {
            let keep: HashMap<E, u128> = acc
                .conc
                .iter()
                .filter(|(k, v)| s.conc.get(k) == Some(v))
                .map(|(k, v)| (*k, *v))
                .collect();
            acc.conc = Rc::new(keep);
        }
        acc.narrow = acc.narrow.max(s.narrow);
        acc.path_insts = acc.path_insts.max(s.path_insts);
    }

    pub fn ite_val(&self, c: E, a: &Val, b: &Val, t: TyId) -> Val {
        if same(a, b) {
            return a.clone();
        }
        match (a, b) {
            (Val::A(x), Val::A(y)) => Val::A(Rc::new(
                (0..x.len())
                    .map(|i| {
                        let st = self.m.sub_ty(t, i as u32);
                        self.ite_val(c, &x[i], &y[i], st)
                    })
                    .collect(),
            )),
            _ => {
                let w = self.m.bits(t) as u32;
                let (x, y) = (ev(a, w), ev(b, w));
                mkval(cx().ite(c, x, y))
            }
        }
    }
}

fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::C(x), Val::C(y)) => x == y,
        (Val::S(x), Val::S(y)) => x == y,
        (Val::A(x), Val::A(y)) => {
            Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q)))
        }
        _ => false,
    }
}
fn shape_eq(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::A(x), Val::A(y)) => x.len() == y.len(),
        (Val::A(_), _) | (_, Val::A(_)) => false,
        _ => true,
    }
}
/// if c then q else p
fn merge_obj(p: &Rc<Obj>, q: &Rc<Obj>, c: E) -> Rc<Obj> {
    let mut o = (**p).clone();
    for i in 0..p.data.len() {
        let (x, y) = (p.symat(i), q.symat(i));
        if x == y && (x != 0 || p.data[i] == q.data[i]) {
            continue;
        }
        let k = cx();
        let xe = if x == 0 { k.konst(p.data[i] as u128, 8) } else { x };
        let ye = if y == 0 { k.konst(q.data[i] as u128, 8) } else { y };
        let r = k.ite(c, ye, xe);
        match k.as_const(r) {
            Some(v) => o.set_c(i, v as u8),
            None => o.set_s(i, r),
        }
    }
    Rc::new(o)
}

// ---------------------------------------------------------------- conversions
impl Exec {
    fn fl(&self, v: &Val, d: bool) -> f64 {
        match v {
            Val::C(c) => {
                if d {
                    f64::from_bits(*c as u64)
                } else {
                    f32::from_bits(*c as u32) as f64
                }
            }
            _ => fatal("symbolic floating point"),
        }
    }
    fn unfl(&self, x: f64, d: bool) -> Val {
        if d {
            Val::C(x.to_bits() as u128)
        } else {
            Val::C((x as f32).to_bits() as u128)
        }
    }
    fn fbin(&self, k: BK, n: u32, w: u32, a: &Val, b: &Val) -> Val {
        if n > 0 {
            return lanes2(a, b, |x, y| self.fbin(k, 0, w, x, y));
        }
        let d = w == 64;
        if !matches!((a, b), (Val::C(_), Val::C(_))) {
            return havoc(w);
        }
        let (x, y) = (self.fl(a, d), self.fl(b, d));
        let r = match k {
            BK::FAdd => x + y,
            BK::FSub => x - y,
            BK::FMul => x * y,
            BK::FDiv => x / y,
            _ => x % y,
        };
        self.unfl(r, d)
    }
    fn cast(&self, k: CastK, ft: TyId, tt: TyId, a: Val) -> Val {
        let (fnn, fw) = self.m.lanes(ft);
        let (tn, tw) = self.m.lanes(tt);
        if k == CastK::Bitcast {
            if fnn == 0 && tn == 0 {
                return a;
            }
            return self.from_bytes_like(&a, ft, tt);
        }
        if fnn > 0 {
            let v = agg(&a)
                .iter()
                .map(|x| self.cast1(k, fw, tw, x))
                .collect();
            return Val::A(Rc::new(v));
        }
        self.cast1(k, fw, tw, &a)
    }
    fn cast1(&self, k: CastK, fw: u32, tw: u32, a: &Val) -> Val {
        match k {
            CastK::Trunc => strunc(a, tw),
            CastK::ZExt => szext(a, fw, tw),
            CastK::SExt => ssext(a, fw, tw),
            CastK::PtrToInt | CastK::IntToPtr => {
                if tw == fw {
                    a.clone()
                } else if tw < fw {
                    strunc(a, tw)
                } else {
                    szext(a, fw, tw)
                }
            }
            CastK::UIToFP => match a {
                Val::C(c) => self.unfl(*c as f64, tw == 64),
                _ => havoc(tw),
            },
            CastK::SIToFP => match a {
                Val::C(c) => self.unfl(sext(*c, fw) as f64, tw == 64),
                _ => havoc(tw),
            },
            CastK::FPToUI | CastK::FPToSI | CastK::FPExt | CastK::FPTrunc if !matches!(a, Val::C(_)) => havoc(tw),
            CastK::FPToUI => Val::C(self.fl(a, fw == 64) as u128 & mask(tw)),
            CastK::FPToSI => Val::C(self.fl(a, fw == 64) as i128 as u128 & mask(tw)),
            CastK::FPExt | CastK::FPTrunc => self.unfl(self.fl(a, fw == 64), tw == 64),
            CastK::Bitcast => a.clone(),
        }
    }
    /// reinterpret a scalar/vector as another scalar/vector of the same total width
    fn from_bytes_like(&self, a: &Val, ft: TyId, tt: TyId) -> Val {
        let (fnn, fw) = self.m.lanes(ft);
        let (tn, tw) = self.m.lanes(tt);
        let total = if fnn == 0 { fw } else { fnn * fw };
        if total <= 128 {
            // via one integer
            let whole = if fnn == 0 {
                a.clone()
            } else {
                let v = agg(a);
                if v.iter().all(|x| matches!(x, Val::C(_))) {
                    let mut r = 0u128;
                    for (i, x) in v.iter().enumerate() {
                        r |= cval(x) << (i as u32 * fw);
                    }
                    Val::C(r)
                } else {
                    let mut e = ev(&v[0], fw);
                    for x in v.iter().skip(1) {
                        let h = ev(x, fw);
                        e = cx().concat(h, e);
                    }
                    mkval(e)
                }
            };
            if tn == 0 {
                return whole;
            }
            return Val::A(Rc::new(
                (0..tn).map(|i| sextract(&whole, i * tw, tw)).collect(),
            ));
        }
        // wide vectors: through bytes
        let mut bytes: Vec<Val> = vec![];
        for x in agg(a) {
            for i in 0..fw / 8 {
                bytes.push(sextract(x, i * 8, 8));
            }
        }
        let per = (tw / 8) as usize;
        Val::A(Rc::new(
            bytes
                .chunks(per)
                .map(|c| {
                    let mut e = ev(&c[0], 8);
                    for x in &c[1..] {
                        let h = ev(x, 8);
                        e = cx().concat(h, e);
                    }
                    mkval(e)
                })
                .collect(),
        ))
    }
}

// ---------------------------------------------------------------- memory
impl Exec {
    fn ginit_obj(&mut self, gi: u32) -> Rc<Obj> {
        if let Some(o) = &self.ginit[gi as usize] {
            return o.clone();
        }
        let m = self.m.clone();
        let (size, init) = m.global_init(gi);
        let g = &m.globals[gi as usize];
        let mut o = Obj::new(size, Kind::Global);
        o.konst = g.konst;
        if let Some((t, v)) = init {
            self.put(&mut o, 0, t, &v);
        } else {
            crate::libc::init_extern_global(&g.name, &mut o);
        }
        let o = Rc::new(o);
        self.ginit[gi as usize] = Some(o.clone());
        o
    }
    pub fn obj(&mut self, st: &State, id: u64) -> Option<Rc<Obj>> {
        if let Some(o) = st.mem.get(id) {
            return Some(o.clone());
        }
        if id >= 1 && id <= self.m.globals.len() as u64 {
            return Some(self.ginit_obj(id as u32 - 1));
        }
        None
    }
    pub fn obj_mut<'a>(&mut self, st: &'a mut State, id: u64) -> Option<&'a mut Obj> {
        if st.mem.get(id).is_none() {
            if id >= 1 && id <= self.m.globals.len() as u64 {
                let o = self.ginit_obj(id as u32 - 1);
                *st.mem.slot(id) = Some(o);
            } else {
                return None;
            }
        }
        st.mem.slot(id).as_mut().map(Rc::make_mut)
    }
    pub fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        let id = self.heap_next;
        self.heap_next += 1;
        if id >= 1 << 24 {
            fatal("heap ids exhausted");
        }
        if size >= 1 << 24 {
            fatal(&format!("allocation of {} bytes", size));
        }
        let mut o = Obj::new(size, Kind::Heap);
        o.watched = st.secret;
        *st.mem.heap.slot(id) = Some(Rc::new(o));
        (HEAP_BASE + id) << 24
    }

    pub fn get(&self, o: &Obj, off: u64, t: TyId) -> Val {
        let info = self.m.info(t);
        match &info.ty {
            Ty::Struct(_, fs) => Val::A(Rc::new(
                fs.iter()
                    .enumerate()
                    .map(|(i, f)| self.get(o, off + info.offs[i], *f))
                    .collect(),
            )),
            Ty::Arr(n, e) => {
                let s = self.m.info(*e).size;
                Val::A(Rc::new((0..*n).map(|i| self.get(o, off + i * s, *e)).collect()))
            }
            Ty::Vec(n, e) => {
                let w = self.m.bits(*e);
                if w % 8 != 0 {
                    // packed bits
                    let whole = self.get_int(o, off, info.size, (n * w) as u32);
                    return Val::A(Rc::new(
                        (0..*n)
                            .map(|i| sextract(&whole, (i * w) as u32, w as u32))
                            .collect(),
                    ));
                }
                let s = w / 8;
                Val::A(Rc::new((0..*n).map(|i| self.get(o, off + i * s, *e)).collect()))
            }
            Ty::Void => Val::C(0),
            _ => {
                let w = self.m.bits(t) as u32;
                self.get_int(o, off, ((w + 7) / 8) as u64, w)
            }
        }
    }
    fn get_int(&self, o: &Obj, off: u64, n: u64, w: u32) -> Val {
        let (off, n) = (off as usize, n as usize);
        let symbolic = !o.sym.is_empty() && o.sym[off..off + n].iter().any(|e| *e != 0);
        if !symbolic {
            let mut v = 0u128;
            for i in (0..n).rev() {
                v = (v << 8) | o.data[off + i] as u128;
            }
            return Val::C(v & mask(w));
        }
        let k = cx();
        let mut e: Option<E> = None;
        for i in 0..n {
            let b = if o.sym[off + i] != 0 {
                o.sym[off + i]
            } else {
                k.konst(o.data[off + i] as u128, 8)
            };
            e = Some(match e {
                None => b,
                Some(l) => k.concat(b, l),
            });
        }
        let e = e.unwrap();
        mkval(if k.w(e) > w { k.trunc(e, w) } else { e })
    }
    pub fn put(&self, o: &mut Obj, off: u64, t: TyId, v: &Val) {
        let info = self.m.info(t);
        match &info.ty {
            Ty::Struct(_, fs) => {
                for (i, f) in fs.iter().enumerate() {
                    self.put(o, off + info.offs[i], *f, &agg(v)[i]);
                }
            }
            Ty::Arr(n, e) => {
                let s = self.m.info(*e).size;
                for i in 0..*n {
                    self.put(o, off + i * s, *e, &agg(v)[i as usize]);
                }
            }
            Ty::Vec(n, e) => {
                let w = self.m.bits(*e);
                if w % 8 != 0 {
                    let it = self.m.ty(Ty::Int((n * w) as u32));
                    let whole = self.from_bytes_like(v, t, it);
                    self.put(o, off, it, &whole);
                    return;
                }
                let s = w / 8;
                for i in 0..*n {
                    self.put(o, off + i * s, *e, &agg(v)[i as usize]);
                }
            }
            Ty::Void => {}
            _ => {
                let w = self.m.bits(t) as u32;
                let n = ((w + 7) / 8) as usize;
                match v {
                    Val::C(c) => {
                        for i in 0..n {
                            o.set_c(off as usize + i, (c >> (8 * i)) as u8);
                        }
                    }
                    Val::S(e) => {
                        let k = cx();
                        let e = if w % 8 != 0 { k.zext(*e, n as u32 * 8) } else { *e };
                        for i in 0..n {
                            let b = k.extract(e, 8 * i as u32, 8);
                            match k.as_const(b) {
                                Some(c) => o.set_c(off as usize + i, c as u8),
                                None => o.set_s(off as usize + i, b),
                            }
                        }
                    }
                    _ => panic!("aggregate stored as scalar"),
                }
            }
        }
    }

    /// Concrete value of `v` on this path; forks while several values remain.
    pub fn concrete(&mut self, st: &mut State, v: &Val, w: u32) -> R<u128> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => {
                if let Some(c) = st.conc.get(e) {
                    return Ok(*c);
                }
                let k = st.pc.model.eval(*e);
                let kk = cx().konst(k, w);
                let q = cx().eq(*e, kk);
                let nq = cx().not(q);
                match self.solver.check(&st.pc, nq, false) {
                    Res::Unsat => {
                        Rc::make_mut(&mut st.conc).insert(*e, k);
                        Ok(k)
                    }
                    Res::Sat(_) => Err(Ev::Fork(q, Some((*e, k)))),
                }
            }
            _ => panic!("concretizing an aggregate"),
        }
    }

    /// Report when `bad` can be true, then continue under its negation.
    pub fn must_not(&mut self, st: &mut State, bad: &Val, msg: &str) -> R<()> {
        match bad {
            Val::C(0) => Ok(()),
            Val::C(_) => {
                self.ensure(st)?;
                self.violation(st, &st.pc.model.clone(), "memory", msg);
                self.end_path(st, "memory error");
                Err(Ev::Kill)
            }
            Val::S(e) => {
                if let Res::Sat(m) = self.solver.check(&st.pc, *e, false) {
                    self.violation(st, &m, "memory", msg);
                    let ne = cx().not(*e);
                    match self.solver.check(&st.pc, ne, false) {
                        Res::Sat(m) => {
                            st.pc.add(ne);
                            st.pc.model = m;
                            st.narrow += 1;
                        }
                        Res::Unsat => {
                            self.end_path(st, "memory error");
                            return Err(Ev::Kill);
                        }
                    }
                }
                Ok(())
            }
            _ => panic!(),
        }
    }

    fn memerr(&mut self, st: &mut State, what: &str, a: u64, len: u64) -> Ev {
        if let Err(e) = self.ensure(st) {
            return e;
        }
        let msg = format!("invalid {} of {} bytes at {:#x}", what, len, a);
        self.violation(st, &st.pc.model.clone(), "memory", &msg);
        self.end_path(st, "memory error");
        Ev::Kill
    }

    /// Possible targets of an address: (condition, object, offset).
    pub fn resolve(
        &mut self,
        st: &mut State,
        a: &Val,
        len: u64,
        what: &str,
    ) -> R<Vec<(E, u64, Off)>> {
        let t = cx().true_;
        match a {
            Val::C(c) => {
                let c = *c as u64;
                let (id, off) = (c >> 24, c & 0xff_ffff);
                match self.obj(st, id) {
                    Some(o) if off + len <= o.size() => Ok(vec![(t, id, Off::C(off))]),
                    _ => Err(self.memerr(st, what, c, len)),
                }
            }
            Val::S(e) => {
                if let Some(c) = st.conc.get(e) {
                    let c = *c;
                    return self.resolve(st, &Val::C(c), len, what);
                }
                // top-level choices between concrete bases
                let mut leaves = vec![];
                let mut work = vec![(t, *e)];
                while let Some((c, x)) = work.pop() {
                    match *cx().op(x) {
                        Op::Ite(q, p, r) if leaves.len() + work.len() < 64 => {
                            let nq = cx().not(q);
                            let c1 = cx().and(c, q);
                            let c2 = cx().and(c, nq);
                            work.push((c1, p));
                            work.push((c2, r));
                        }
                        _ => leaves.push((c, x)),
                    }
                }
                let mut out: Vec<(E, u64, Off)> = vec![];
                for (c, x) in leaves {
                    if c == cx().false_ {
                        continue;
                    }
                    if let Some(k) = cx().as_const(x) {
                        let k = k as u64;
                        let (id, off) = (k >> 24, k & 0xff_ffff);
                        let good = matches!(self.obj(st, id), Some(o) if off + len <= o.size());
                        if good {
                            out.push((c, id, Off::C(off)));
                        } else {
                            self.must_not(st, &Val::S(c), &format!("invalid {} of {} bytes at {:#x}", what, len, k))
                                .or_else(|ev| if c == t { Err(ev) } else { Err(ev) })?;
                        }
                        continue;
                    }
                    // find the object
                    let (lo, hi) = cx().range(x);
                    let mut id = (lo >> 24) as u64;
                    if lo >> 24 != hi >> 24 || self.obj(st, id).is_none() {
                        // use a model in which this leaf is selected
                        let m = match self.solver.check(&st.pc, c, false) {
                            Res::Sat(m) => m,
                            Res::Unsat => continue,
                        };
                        let v = m.eval(x) as u64;
                        id = v >> 24;
                        let lob = cx().konst((id << 24) as u128, 64);
                        let hib = cx().konst(((id + 1) << 24) as u128, 64);
                        let p = cx().bin(B::Ult, x, lob);
                        let q = cx().bin(B::Ule, hib, x);
                        let outside = cx().or(p, q);
                        let oc = cx().and(outside, c);
                        if let Res::Sat(_) = self.solver.check(&st.pc, oc, false) {
                            if self.obj(st, id).is_none() {
                                // fall through: reported below for this part
                            }
                            return Err(Ev::Fork(oc, None));
                        }
                        if self.obj(st, id).is_none() {
                            self.must_not(st, &mkval(c), &format!("invalid {} at {:#x}", what, v))?;
                            continue;
                        }
                    }
                    let base = cx().konst((id << 24) as u128, 64);
                    let off = cx().bin(B::Sub, x, base);
                    let size = self.obj(st, id).unwrap().size();
                    let cands = self.candidates(st, off, c)?;
                    let mut good = vec![];
                    let mut bad = false;
                    for k in cands {
                        if k.checked_add(len).map_or(false, |e| e <= size) {
                            good.push(k);
                        } else {
                            bad = true;
                        }
                    }
                    if bad {
                        // off > size - len
                        let r = if len > size {
                            c
                        } else {
                            let lim = cx().konst((size - len) as u128, 64);
                            let g = cx().bin(B::Ult, lim, off);
                            cx().and(g, c)
                        };
                        self.must_not(st, &mkval(r), &format!("out-of-bounds {} of {} bytes in an object of {} bytes", what, len, size))?;
                    }
                    if good.is_empty() {
                        continue;
                    }
                    out.push((c, id, Off::S(off, good)));
                }
                if out.is_empty() {
                    // every leaf was infeasible or reported
                    self.end_path(st, "memory error");
                    return Err(Ev::Kill);
                }
                Ok(out)
            }
            _ => panic!("aggregate address"),
        }
    }

    /// All values an offset can take (over-approximated).
    fn candidates(&mut self, st: &mut State, off: E, cond: E) -> R<Vec<u64>> {
        let k = cx();
        if let Some((b, t)) = k.byte_fn(off) {
            let dom = match *k.op(b) {
                Op::Var(v) => st.pc.doms.get(&v).copied().unwrap_or([!0u64; 4]),
                _ => [!0u64; 4],
            };
            let mut s = BTreeSet::new();
            for i in 0..256usize {
                let n = &k.nodes[b as usize];
                let ok = (i as u128 & n.k0) == 0 && (!(i as u128) & n.k1) & 0xff == 0;
                if ok && dom[i / 64] >> (i % 64) & 1 == 1 {
                    s.insert(t[i]);
                }
            }
            return Ok(s.into_iter().collect());
        }
        let (lo, hi) = k.range(off);
        if hi - lo < 64 {
            return Ok((lo as u64..=hi as u64).collect());
        }
        // enumerate with the solver
        let mut pc = st.pc.clone();
        match self.solver.check(&pc, cond, false) {
            Res::Sat(m) => {
                pc.add(cond);
                pc.model = m;
            }
            Res::Unsat => return Ok(vec![]),
        }
        let mut out = vec![];
        loop {
            let v = pc.model.eval(off) as u64;
            out.push(v);
            if out.len() > self.max_cands {
                // too many: split instead
                let vv = st.pc.model.eval(off);
                let kk = cx().konst(vv, 64);
                let q = cx().eq(off, kk);
                return Err(Ev::Fork(q, Some((off, vv))));
            }
            let kk = cx().konst(v as u128, 64);
            let q = cx().eq(off, kk);
            let nq = cx().not(q);
            match self.solver.check(&pc, nq, false) {
                Res::Sat(m) => {
                    pc.add(nq);
                    pc.model = m;
                }
                Res::Unsat => break,
            }
        }
        out.sort();
        Ok(out)
    }

    pub fn load(&mut self, st: &mut State, a: &Val, t: TyId) -> R<Val> {
        let len = self.m.store_size(t);
        if len == 0 {
            return Ok(self.m.zero(t));
        }
        if let Val::C(c) = a {
            // fast path
            let c = *c as u64;
            let (id, off) = (c >> 24, c & 0xff_ffff);
            if let Some(o) = st.mem.get(id) {
                if off + len <= o.size() {
                    return Ok(self.get(o, off, t));
                }
            }
        }
        let tg = self.resolve(st, a, len, "read")?;
        let mut acc: Option<Val> = None;
        for (c, id, off) in tg {
            let o = self.obj(st, id).unwrap();
            let v = match off {
                Off::C(k) => self.get(&o, k, t),
                Off::S(oe, cands) => self.sym_load(&o, oe, &cands, t, len),
            };
            acc = Some(match acc {
                None => v,
                Some(p) => self.ite_val(c, &v, &p, t),
            });
        }
        Ok(acc.unwrap())
    }

    fn sym_load(&self, o: &Obj, off: E, cands: &[u64], t: TyId, len: u64) -> Val {
        let vals: Vec<Val> = cands.iter().map(|k| self.get(o, *k, t)).collect();
        let scalar = !matches!(vals[0], Val::A(_));
        let w = self.m.bits(t) as u32;
        let _ = len;
        if scalar && w <= 64 && vals.iter().all(|v| matches!(v, Val::C(_))) {
            if let Some((b, tab)) = cx().byte_fn(off) {
                let map: HashMap<u64, u64> = cands
                    .iter()
                    .zip(vals.iter())
                    .map(|(k, v)| (*k, cval(v) as u64))
                    .collect();
                let mut u = [0u64; 256];
                let dflt = cval(&vals[0]) as u64;
                for i in 0..256 {
                    u[i] = map.get(&tab[i]).copied().unwrap_or(dflt);
                }
                return mkval(cx().tab(u, b, w));
            }
        }
        // group equal values to keep the chain short
        let mut acc = vals.last().unwrap().clone();
        let mut i = vals.len();
        while i > 0 {
            i -= 1;
            if same(&vals[i], &acc) {
                continue;
            }
            let kk = cx().konst(cands[i] as u128, 64);
            let q = cx().eq(off, kk);
            acc = self.ite_val(q, &vals[i], &acc, t);
        }
        acc
    }

    pub fn store(&mut self, st: &mut State, a: &Val, t: TyId, v: &Val) -> R<()> {
        let len = self.m.store_size(t);
        if len == 0 {
            return Ok(());
        }
        let tg = self.resolve(st, a, len, "write")?;
        let single = tg.len() == 1;
        for (c, id, off) in tg {
            let m = self.m.clone();
            let _ = &m;
            let o = self.obj(st, id).unwrap();
            if o.konst {
                return Err(self.memerr(st, "write to constant", id << 24, len));
            }
            match off {
                Off::C(k) if single => {
                    // write in place
                    drop(o);
                    self.obj_mut(st, id);
                    let slot = st.mem.slot(id).as_mut().unwrap();
                    let om = Rc::make_mut(slot);
                    self.put(om, k, t, v);
                }
                Off::C(k) => {
                    let old = self.get(&o, k, t);
                    let nv = self.ite_val(c, v, &old, t);
                    let mut oo = (*o).clone();
                    self.put(&mut oo, k, t, &nv);
                    *st.mem.slot(id) = Some(Rc::new(oo));
                }
                Off::S(oe, cands) => {
                    let mut oo = (*o).clone();
                    for k in cands {
                        let kk = cx().konst(k as u128, 64);
                        let q = cx().eq(oe, kk);
                        let q = cx().and(q, c);
                        if q == cx().false_ {
                            continue;
                        }
                        let old = self.get(&oo, k, t);
                        let nv = self.ite_val(q, v, &old, t);
                        self.put(&mut oo, k, t, &nv);
                    }
                    *st.mem.slot(id) = Some(Rc::new(oo));
                }
            }
        }
        Ok(())
    }

    /// Bytes at an address, as expressions (constants included).
    pub fn read_bytes(&mut self, st: &mut State, a: &Val, n: u64) -> R<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let tg = self.resolve(st, a, n, "read")?;
        let mut acc: Option<Vec<E>> = None;
        for (c, id, off) in tg {
            let o = self.obj(st, id).unwrap();
            let at = |i: usize| {
                let s = o.symat(i);
                if s != 0 {
                    s
                } else {
                    cx().konst(o.data[i] as u128, 8)
                }
            };
            let v: Vec<E> = match off {
                Off::C(k) => (0..n as usize).map(|i| at(k as usize + i)).collect(),
                Off::S(oe, cands) => {
                    let mut v: Vec<E> = (0..n as usize)
                        .map(|i| at(*cands.last().unwrap() as usize + i))
                        .collect();
                    for k in cands.iter().rev().skip(1) {
                        let kk = cx().konst(*k as u128, 64);
                        let q = cx().eq(oe, kk);
                        for i in 0..n as usize {
                            v[i] = cx().ite(q, at(*k as usize + i), v[i]);
                        }
                    }
                    v
                }
            };
            acc = Some(match acc {
                None => v,
                Some(p) => v.iter().zip(p).map(|(x, y)| cx().ite(c, *x, y)).collect(),
            });
        }
        Ok(acc.unwrap())
    }
    pub fn write_bytes(&mut self, st: &mut State, a: &Val, bytes: &[E]) -> R<()> {
        let n = bytes.len() as u64;
        if n == 0 {
            return Ok(());
        }
        let tg = self.resolve(st, a, n, "write")?;
        let single = tg.len() == 1;
        for (c, id, off) in tg {
            if self.obj(st, id).unwrap().konst {
                return Err(self.memerr(st, "write to constant", id << 24, n));
            }
            let o = self.obj_mut(st, id).unwrap();
            let put = |o: &mut Obj, i: usize, e: E| match cx().as_const(e) {
                Some(v) => o.set_c(i, v as u8),
                None => o.set_s(i, e),
            };
            let at = |o: &Obj, i: usize| {
                let s = o.symat(i);
                if s != 0 {
                    s
                } else {
                    cx().konst(o.data[i] as u128, 8)
                }
            };
            match off {
                Off::C(k) => {
                    for (i, e) in bytes.iter().enumerate() {
                        let j = k as usize + i;
                        if single {
                            put(o, j, *e);
                        } else {
                            let old = at(o, j);
                            let nv = cx().ite(c, *e, old);
                            put(o, j, nv);
                        }
                    }
                }
                Off::S(oe, cands) => {
                    for k in cands {
                        let kk = cx().konst(k as u128, 64);
                        let q = cx().eq(oe, kk);
                        let q = cx().and(q, c);
                        if q == cx().false_ {
                            continue;
                        }
                        for (i, e) in bytes.iter().enumerate() {
                            let j = k as usize + i;
                            let old = at(o, j);
                            let nv = cx().ite(q, *e, old);
                            put(o, j, nv);
                        }
                    }
                }
            }
        }
        Ok(())
    }
    pub fn read_str(&mut self, st: &mut State, a: &Val, n: u64) -> R<String> {
        let b = self.read_bytes(st, a, n)?;
        let m = st.pc.model.clone();
        let b: Vec<u8> = b.iter().map(|e| m.eval(*e) as u8).collect();
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
    /// NUL-terminated concrete string
    pub fn read_cstr(&mut self, st: &mut State, a: &Val) -> R<Vec<u8>> {
        let mut out = vec![];
        loop {
            let p = sbin(B::Add, 64, a, &Val::C(out.len() as u128));
            let b = self.read_bytes(st, &p, 1)?[0];
            let c = self.concrete(st, &mkval(b), 8)? as u8;
            if c == 0 {
                return Ok(out);
            }
            out.push(c);
        }
    }
    fn read_location(&mut self, st: &mut State, p: u64) -> String {
        let id = p >> 24;
        let off = p & 0xff_ffff;
        if let Some(o) = self.obj(st, id) {
            if off + 24 <= o.size() {
                let rd = |i: u64, n: u64| {
                    let mut v = 0u64;
                    for k in (0..n).rev() {
                        v = v << 8 | o.data[(off + i + k) as usize] as u64;
                    }
                    v
                };
                let (fp, fl, line) = (rd(0, 8), rd(8, 8), rd(16, 4));
                if let Some(so) = self.obj(st, fp >> 24) {
                    let s = (fp & 0xff_ffff) as usize;
                    let e = s + fl as usize;
                    if fl < 500 && e <= so.data.len() {
                        return format!("{}:{}", String::from_utf8_lossy(&so.data[s..e]), line);
                    }
                }
            }
        }
        "unknown location".into()
    }
}

/// Floating point on symbolic operands: any value at all.
fn havoc(w: u32) -> Val {
    Val::S(cx().new_var("float".into(), w, 0))
}
