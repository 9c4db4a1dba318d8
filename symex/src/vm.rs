//! The symbolic machine: concrete-by-default interpretation of the bytecode with symbolic values,
//! forking at symbolic branches, feasibility decided by the SMT solver.
use crate::expr::{fold, mask, sext, Dag, Op, E};
use crate::ll::*;
use crate::z3::Solver;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, Debug, Default)]
pub struct Val {
    pub c: u128,
    pub e: E,
}
#[inline]
fn cv(c: u128) -> Val {
    Val { c, e: 0 }
}

#[derive(Clone, Copy, Debug)]
pub struct Dec {
    /// instruction count at the decision
    pub at: u64,
    pub v: u64,
    pub t: bool,
}

#[derive(Clone)]
pub struct Obj {
    data: Vec<u8>,
    sym: Option<Box<BTreeMap<u32, (E, u8)>>>,
    ro: bool,
    live: bool,
}

pub struct Model {
    id: u64,
    vals: Vec<u64>,
}

#[derive(Clone)]
struct Frame {
    func: u32,
    pc: u32,
    base: u32,
    dst: u32,
    nalloca: u32,
}

#[derive(Clone)]
pub struct State {
    stack: Vec<Val>,
    frames: Vec<Frame>,
    func: u32,
    pc: u32,
    base: usize,
    objs: Vec<Option<Rc<Obj>>>,
    free: Vec<u32>,
    allocas: Vec<u32>,
    pcs: Vec<E>,
    widths: Vec<u8>,
    model: Option<Rc<Model>>,
    trace: Vec<Dec>,
    replay: VecDeque<Dec>,
    obs: Vec<Val>,
    covers: u64,
    icount: u64,
    /// symbolic decisions so far within the current instruction
    sub: u64,
    mark_p: usize,
    mark_t: usize,
    nchecks: u64,
}

pub enum End {
    Done,
    Infeasible,
    Violation(String),
    Stop,
    Inconclusive(String),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub decisions: u64,
    pub instrs: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub solver_ns: u64,
    pub max_query_ns: u64,
    pub checks_concrete: u64,
    pub checks_solver: u64,
    pub max_vars: u64,
    pub max_path_instrs: u64,
    pub covers: Vec<u64>,
    pub sym_end_bits: u64,
}

pub struct Violation {
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<u64>,
}
pub struct Sample {
    pub inputs: Vec<u64>,
    pub obs: Vec<u64>,
    pub key: u64,
}

pub struct Shared {
    pub queue: Mutex<Vec<Vec<Dec>>>,
    pub cond: Condvar,
    pub idle: AtomicUsize,
    pub workers: usize,
    pub stop: AtomicBool,
    pub incomplete: Mutex<Vec<String>>,
    pub violations: Mutex<Vec<Violation>>,
    pub max_viol: usize,
    pub deadline: Instant,
    pub params: Vec<u64>,
    pub max_instr: u64,
    pub samples_per_worker: usize,
    pub seed: u64,
    pub query_ms: u32,
    pub max_paths: u64,
    pub total_paths: std::sync::atomic::AtomicU64,
}

pub struct Worker<'p> {
    p: &'p Program,
    sh: &'p Shared,
    d: Dag,
    s: Solver,
    pending: VecDeque<State>,
    pub st: Stats,
    memo_model: u64,
    next_model: u64,
    pub fn_used: Vec<bool>,
    pub samples: Vec<Sample>,
    entry: u32,
    rng: u64,
    scratch: Vec<u64>,
}

type R<T> = Result<T, End>;

impl<'p> Worker<'p> {
    pub fn new(p: &'p Program, sh: &'p Shared, entry: u32, idx: u64) -> Worker<'p> {
        Worker {
            p,
            sh,
            d: Dag::new(),
            s: Solver::new(sh.query_ms),
            pending: VecDeque::new(),
            st: Stats { covers: vec![0; 64], ..Default::default() },
            memo_model: 0,
            next_model: 1,
            fn_used: vec![false; p.fns.len()],
            samples: vec![],
            entry,
            scratch: vec![],
            rng: sh.seed.wrapping_mul(0x9e3779b97f4a7c15) ^ (idx + 1).wrapping_mul(0xd1b54a32d192ed03),
        }
    }
    fn initial(&mut self, replay: Vec<Dec>) -> State {
        let f = self.p.func(self.entry);
        let mut objs: Vec<Option<Rc<Obj>>> = vec![None];
        objs.resize(self.p.globals.len() + 1, None);
        self.fn_used[self.entry as usize] = true;
        let fresh = replay.is_empty();
        State {
            stack: vec![Val::default(); f.nslots as usize + 64],
            frames: vec![],
            func: self.entry,
            pc: 0,
            base: 0,
            objs,
            free: vec![],
            allocas: vec![],
            pcs: vec![],
            widths: vec![],
            model: if fresh { Some(Rc::new(Model { id: u64::MAX, vals: vec![] })) } else { None },
            trace: vec![],
            replay: replay.into(),
            obs: vec![],
            covers: 0,
            icount: 0,
            sub: 0,
            mark_p: 0,
            mark_t: 0,
            nchecks: 0,
        }
    }

    pub fn run(&mut self) {
        loop {
            // own work first
            if let Some(st) = self.pending.pop_back() {
                self.path(st);
                if self.sh.stop.load(Ordering::Relaxed) {
                    self.pending.clear();
                }
                continue;
            }
            if self.d.nodes.len() > 3_000_000 {
                self.flush_solver();
                self.d = Dag::new();
                self.s = Solver::new(self.sh.query_ms);
                self.memo_model = 0;
            }
            let mut q = self.sh.queue.lock().unwrap();
            let item = loop {
                if self.sh.stop.load(Ordering::Relaxed) {
                    q.clear();
                    self.sh.cond.notify_all();
                    drop(q);
                    self.flush_solver();
                    return;
                }
                if let Some(x) = q.pop() {
                    break x;
                }
                let n = self.sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                if n == self.sh.workers {
                    self.sh.stop.store(true, Ordering::SeqCst);
                    self.sh.cond.notify_all();
                    drop(q);
                    self.flush_solver();
                    return;
                }
                q = self.sh.cond.wait(q).unwrap();
                self.sh.idle.fetch_sub(1, Ordering::SeqCst);
            };
            drop(q);
            let st = self.initial(item);
            self.path(st);
        }
    }
    fn flush_solver(&mut self) {
        self.st.queries += self.s.queries;
        self.st.sat += self.s.sat;
        self.st.unsat += self.s.unsat;
        self.st.solver_ns += self.s.time_ns;
        self.st.max_query_ns = self.st.max_query_ns.max(self.s.max_ns);
        self.s.queries = 0;
        self.s.sat = 0;
        self.s.unsat = 0;
        self.s.time_ns = 0;
    }
    fn donate(&mut self) {
        if self.pending.is_empty() || self.sh.idle.load(Ordering::Relaxed) == 0 {
            return;
        }
        let mut q = self.sh.queue.lock().unwrap();
        while q.len() < self.sh.idle.load(Ordering::Relaxed) {
            match self.pending.pop_front() {
                Some(s) => {
                    let mut t = s.trace;
                    t.extend(s.replay.iter());
                    q.push(t);
                    self.sh.cond.notify_one();
                }
                None => break,
            }
        }
    }
    fn incomplete(&self, why: String) {
        let mut i = self.sh.incomplete.lock().unwrap();
        if i.len() < 20 {
            i.push(why);
        }
    }

    fn path(&mut self, mut st: State) {
        let r = match self.exec(&mut st) {
            Ok(()) => End::Done,
            Err(e) => e,
        };
        self.st.max_path_instrs = self.st.max_path_instrs.max(st.icount);
        match r {
            End::Done => {
                self.st.paths += 1;
                let tot = self.sh.total_paths.fetch_add(1, Ordering::Relaxed) + 1;
                if tot >= self.sh.max_paths {
                    if !self.sh.stop.swap(true, Ordering::SeqCst) {
                        self.incomplete(format!("path limit {} reached", self.sh.max_paths));
                    }
                    self.sh.cond.notify_all();
                }
                self.st.max_vars = self.st.max_vars.max(st.widths.len() as u64);
                self.cover_count(&st);
                self.sample(&mut st);
            }
            End::Infeasible => self.st.infeasible += 1,
            End::Violation(m) => {
                self.st.paths += 1;
                self.cover_count(&st);
                self.violation(&mut st, m);
            }
            End::Stop => {}
            End::Inconclusive(m) => {
                let stk = self.stack_names(&st);
                self.incomplete(format!("{} at {}", m, stk.join(" < ")));
                self.sh.stop.store(true, Ordering::SeqCst);
                self.sh.cond.notify_all();
            }
        }
        if Instant::now() > self.sh.deadline && !self.sh.stop.load(Ordering::Relaxed) {
            self.incomplete("time limit reached".into());
            self.sh.stop.store(true, Ordering::SeqCst);
            self.sh.cond.notify_all();
        }
    }
    fn cover_count(&mut self, st: &State) {
        for i in 0..64 {
            if st.covers >> i & 1 == 1 {
                self.st.covers[i] += 1;
            }
        }
    }
    fn stack_names(&self, st: &State) -> Vec<String> {
        let mut v = vec![format!("{}@{}", self.p.fns[st.func as usize].name, st.pc)];
        for f in st.frames.iter().rev() {
            v.push(self.p.fns[f.func as usize].name.clone());
        }
        v
    }
    fn violation(&mut self, st: &mut State, msg: String) {
        let Ok(m) = self.model(st) else {
            self.incomplete("no model for a violating path".into());
            return;
        };
        let mut inputs = m.vals.clone();
        inputs.resize(st.widths.len(), 0);
        let stack = self.stack_names(st);
        let mut v = self.sh.violations.lock().unwrap();
        v.push(Violation { msg, stack, inputs });
        if v.len() >= self.sh.max_viol {
            self.sh.stop.store(true, Ordering::SeqCst);
            self.sh.cond.notify_all();
        }
    }
    fn sample(&mut self, st: &mut State) {
        // reservoir: keep the paths with the smallest pseudo-random keys
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let key = self.rng;
        let k = self.sh.samples_per_worker;
        if k == 0 {
            return;
        }
        if self.samples.len() >= k {
            let (mi, mk) = self.samples.iter().enumerate().map(|(i, s)| (i, s.key)).max_by_key(|x| x.1).unwrap();
            if key >= mk {
                return;
            }
            self.samples.swap_remove(mi);
        }
        let Ok(m) = self.model(st) else { return };
        self.use_model(&m);
        let mut inputs = m.vals.clone();
        inputs.resize(st.widths.len(), 0);
        let obs = st.obs.iter().map(|v| if v.e == 0 { v.c as u64 } else { self.d.eval(v.e, &m.vals) as u64 }).collect();
        self.samples.push(Sample { inputs, obs, key });
    }

    // ---- solver glue ----
    fn use_model(&mut self, m: &Model) {
        if m.id != self.memo_model {
            self.d.new_epoch();
            self.memo_model = m.id;
        }
    }
    fn eval(&mut self, m: &Model, e: E) -> u128 {
        self.use_model(m);
        self.d.eval(e, &m.vals)
    }
    fn query(&mut self, st: &State, extra: Option<E>) -> R<Option<Rc<Model>>> {
        match self.s.check(&mut self.d, &st.pcs, extra, &st.widths) {
            Ok(Some(vals)) => {
                self.next_model += 1;
                Ok(Some(Rc::new(Model { id: self.next_model, vals })))
            }
            Ok(None) => Ok(None),
            Err(()) => Err(End::Inconclusive("solver returned unknown".into())),
        }
    }
    fn model(&mut self, st: &mut State) -> R<Rc<Model>> {
        if let Some(m) = &st.model {
            return Ok(m.clone());
        }
        match self.query(st, None)? {
            Some(m) => {
                st.model = Some(m.clone());
                Ok(m)
            }
            None => Err(End::Infeasible),
        }
    }
    fn add_pc(&mut self, st: &mut State, e: E) {
        if self.d.cv(e) == Some(1) || st.pcs.contains(&e) {
            return;
        }
        let n = self.d.nodes[e as usize];
        if n.op == Op::And && n.w == 1 {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        if n.op == Op::Xor && n.w == 1 && self.d.cv(n.b) == Some(1) {
            let i = self.d.nodes[n.a as usize];
            if i.op == Op::Or {
                let x = self.d.not(i.a);
                let y = self.d.not(i.b);
                self.add_pc(st, x);
                self.add_pc(st, y);
                return;
            }
        }
        st.pcs.push(e);
    }
    fn implied(&mut self, st: &State, c: E) -> Option<bool> {
        if let Some(v) = self.d.cv(c) {
            return Some(v == 1);
        }
        if st.pcs.contains(&c) {
            return Some(true);
        }
        let n = self.d.not(c);
        if st.pcs.contains(&n) {
            return Some(false);
        }
        let nd = self.d.nodes[c as usize];
        if nd.w == 1 {
            match nd.op {
                Op::And => {
                    let (x, y) = (self.implied(st, nd.a), self.implied(st, nd.b));
                    if x == Some(false) || y == Some(false) {
                        return Some(false);
                    }
                    if x == Some(true) && y == Some(true) {
                        return Some(true);
                    }
                }
                Op::Or => {
                    let (x, y) = (self.implied(st, nd.a), self.implied(st, nd.b));
                    if x == Some(true) || y == Some(true) {
                        return Some(true);
                    }
                    if x == Some(false) && y == Some(false) {
                        return Some(false);
                    }
                }
                Op::Xor if self.d.cv(nd.b) == Some(1) => return self.implied(st, nd.a).map(|b| !b),
                _ => {}
            }
        }
        match self.values(st, c) {
            Some(v) => Some(v == 1),
            None => None,
        }
    }
    /// Values of a narrow variable still possible on this path (from conditions on it alone).
    fn domain(&mut self, st: &State, v: u32) -> u64 {
        let w = st.widths[v as usize];
        let mut dom = if w < 6 { (1u64 << (1 << w)) - 1 } else { !0 };
        for &p in &st.pcs {
            if let Some((v2, m2)) = self.d.single(p) {
                if v2 == v {
                    dom &= m2
                }
            }
        }
        dom
    }
    /// If `e` has the same value for all remaining values of its (narrow) variables: that value.
    fn values(&mut self, st: &State, e: E) -> Option<u128> {
        let vars = self.d.vlist(e);
        if vars.is_empty() || vars.len() > 8 {
            return None;
        }
        let mut doms = [0u64; 8];
        let mut prod = 1u32;
        for (i, &(v, w)) in vars.iter().enumerate() {
            if w > 6 {
                return None;
            }
            doms[i] = self.domain(st, v);
            prod *= doms[i].count_ones();
            if prod > 128 || prod == 0 {
                return None;
            }
        }
        if vars.len() == 1 && self.d.w(e) == 1 {
            let (_, m) = self.d.single(e)?;
            return if doms[0] & !m == 0 {
                Some(1)
            } else if doms[0] & m == 0 {
                Some(0)
            } else {
                None
            };
        }
        let top = vars.iter().map(|x| x.0).max().unwrap() as usize;
        let mut model = std::mem::take(&mut self.scratch);
        if model.len() <= top {
            model.resize(top + 1, 0);
        }
        let mut left = doms;
        let mut r = None;
        for i in 0..vars.len() {
            model[vars[i].0 as usize] = doms[i].trailing_zeros() as u64;
        }
        let mut same = true;
        'all: loop {
            self.d.new_epoch();
            let v = self.d.eval(e, &model);
            match r {
                None => r = Some(v),
                Some(x) if x != v => {
                    same = false;
                    break;
                }
                _ => {}
            }
            // next combination
            for i in 0..vars.len() {
                left[i] &= left[i] - 1;
                if left[i] != 0 {
                    model[vars[i].0 as usize] = left[i].trailing_zeros() as u64;
                    continue 'all;
                }
                left[i] = doms[i];
                model[vars[i].0 as usize] = left[i].trailing_zeros() as u64;
            }
            break;
        }
        self.d.new_epoch();
        self.scratch = model;
        if same {
            r
        } else {
            None
        }
    }
    fn fork(&mut self, st: &State, m: Rc<Model>, dec: Dec) {
        let mut alt = st.clone();
        alt.replay = st.trace[st.mark_t..].iter().copied().collect();
        alt.replay.push_back(dec);
        alt.pcs.truncate(st.mark_p);
        alt.trace.truncate(st.mark_t);
        // the current instruction is executed again
        alt.icount -= 1;
        alt.model = Some(m);
        self.pending.push_back(alt);
        self.st.forks += 1;
        self.donate();
    }
    /// Decide a symbolic condition, forking if both sides are feasible.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if self.d.cv(c).is_some() {
            return Ok(self.d.cv(c) == Some(1));
        }
        st.sub += 1;
        let at = st.icount << 16 | st.sub;
        let imp = self.implied(st, c);
        if let Some(&dc) = st.replay.front() {
            if dc.at < at {
                return Err(End::Inconclusive("replay divergence".into()));
            }
            if dc.at == at {
                if imp.is_some() && imp != Some(dc.t) {
                    return Err(End::Inconclusive("replay divergence (polarity)".into()));
                }
                st.replay.pop_front();
                let e = if dc.t { c } else { self.d.not(c) };
                self.add_pc(st, e);
                st.trace.push(dc);
                return Ok(dc.t);
            }
        }
        if let Some(b) = imp {
            return Ok(b);
        }
        self.st.decisions += 1;
        if self.sh.stop.load(Ordering::Relaxed) {
            return Err(End::Stop);
        }
        let m = self.model(st)?;
        let b = self.eval(&m, c) == 1;
        let nc = self.d.not(c);
        let (yes, no) = if b { (c, nc) } else { (nc, c) };
        if let Some(alt) = self.query(st, Some(no))? {
            self.fork(st, alt, Dec { at, v: 0, t: !b });
        }
        self.add_pc(st, yes);
        st.trace.push(Dec { at, v: 0, t: b });
        Ok(b)
    }
    /// Pick a concrete value for an expression, forking over the others.
    fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        let w = self.d.w(e);
        loop {
            if let Some(v) = self.d.cv(e) {
                return Ok(v);
            }
            st.sub += 1;
            let at = st.icount << 16 | st.sub;
            let mut known = None;
            // already pinned by an equality on this path?
            for &p in st.pcs.iter().rev() {
                let n = self.d.nodes[p as usize];
                if n.op == Op::Eq && n.a == e {
                    if let Some(v) = self.d.cv(n.b) {
                        known = Some(v);
                    }
                }
            }
            if known.is_none() {
                known = self.values(st, e);
            }
            if let Some(&dc) = st.replay.front() {
                if dc.at < at {
                    return Err(End::Inconclusive("replay divergence".into()));
                }
                if dc.at == at {
                    if known.is_some() && (known == Some(dc.v as u128)) != dc.t {
                        return Err(End::Inconclusive("replay divergence (value)".into()));
                    }
                    st.replay.pop_front();
                    let k = self.d.konst(w, dc.v as u128);
                    let q = self.d.bin(Op::Eq, e, k);
                    let q2 = if dc.t { q } else { self.d.not(q) };
                    self.add_pc(st, q2);
                    st.trace.push(dc);
                    if dc.t {
                        return Ok(dc.v as u128);
                    }
                    continue;
                }
            }
            if let Some(v) = known {
                return Ok(v);
            }
            self.st.decisions += 1;
            if self.sh.stop.load(Ordering::Relaxed) {
                return Err(End::Stop);
            }
            let m = self.model(st)?;
            let v = self.eval(&m, e);
            if w > 64 && v >> 64 != 0 {
                return Err(End::Inconclusive("wide concretization".into()));
            }
            let k = self.d.konst(w, v);
            let q = self.d.bin(Op::Eq, e, k);
            let nq = self.d.not(q);
            if let Some(alt) = self.query(st, Some(nq))? {
                self.fork(st, alt, Dec { at, v: v as u64, t: false });
            }
            self.add_pc(st, q);
            st.trace.push(Dec { at, v: v as u64, t: true });
            return Ok(v);
        }
    }
    fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        match self.implied(st, c) {
            Some(true) => return Ok(()),
            Some(false) => return Err(End::Infeasible),
            None => {}
        }
        if st.model.is_some() {
            let m = self.model(st)?;
            if self.eval(&m, c) != 1 {
                match self.query(st, Some(c))? {
                    Some(m) => st.model = Some(m),
                    None => return Err(End::Infeasible),
                }
            }
        }
        self.add_pc(st, c);
        Ok(())
    }
    #[inline]
    fn te(&mut self, v: Val, w: u32) -> E {
        if v.e != 0 {
            v.e
        } else {
            self.d.konst(w, v.c)
        }
    }
    #[inline]
    fn fe(&self, e: E) -> Val {
        match self.d.cv(e) {
            Some(c) => cv(c),
            None => Val { c: 0, e },
        }
    }
    fn conc(&mut self, st: &mut State, v: Val) -> R<u128> {
        if v.e == 0 {
            Ok(v.c)
        } else {
            self.concretize(st, v.e)
        }
    }

    // ---- memory ----
    fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a mut Obj, usize)> {
        let idx = (addr >> 32) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        if idx == 0 || idx >= st.objs.len() {
            return Err(End::Violation(format!("memory: write of {} bytes at invalid address {:#x}", n, addr)));
        }
        if st.objs[idx].is_none() {
            self.materialize(st, idx)?;
        }
        let o = Rc::make_mut(st.objs[idx].as_mut().unwrap());
        if !o.live || off as u64 + n > o.data.len() as u64 || o.ro {
            return Err(End::Violation(format!("memory: bad write of {} bytes at {:#x} (object size {}, live {}, readonly {})", n, addr, o.data.len(), o.live, o.ro)));
        }
        Ok((o, off))
    }
    fn materialize(&self, st: &mut State, idx: usize) -> R<()> {
        if idx >= 1 && idx <= self.p.globals.len() {
            let g = &self.p.globals[idx - 1];
            let data = self.p.global_data(idx as u32 - 1).clone();
            st.objs[idx] = Some(Rc::new(Obj { data, sym: None, ro: g.constant, live: true }));
            Ok(())
        } else {
            Err(End::Violation(format!("memory: access to unallocated object {}", idx)))
        }
    }
    fn obj_ref<'a>(&self, st: &'a mut State, addr: u64, n: u64) -> R<(&'a Obj, usize)> {
        let idx = (addr >> 32) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        if idx == 0 || idx >= st.objs.len() {
            return Err(End::Violation(format!("memory: read of {} bytes at invalid address {:#x}", n, addr)));
        }
        if st.objs[idx].is_none() {
            self.materialize(st, idx)?;
        }
        let o = st.objs[idx].as_ref().unwrap();
        if !o.live || off as u64 + n > o.data.len() as u64 {
            return Err(End::Violation(format!("memory: bad read of {} bytes at {:#x} (object size {}, live {})", n, addr, o.data.len(), o.live)));
        }
        Ok((o, off))
    }
    fn load(&mut self, st: &mut State, addr: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        let (o, off) = self.obj_ref(st, addr, n as u64)?;
        let bytes = &o.data[off..off + n];
        let mut v: u128 = match n {
            1 => bytes[0] as u128,
            2 => u16::from_le_bytes(bytes.try_into().unwrap()) as u128,
            4 => u32::from_le_bytes(bytes.try_into().unwrap()) as u128,
            8 => u64::from_le_bytes(bytes.try_into().unwrap()) as u128,
            _ => {
                let mut v = 0u128;
                for (i, b) in bytes.iter().enumerate() {
                    v |= (*b as u128) << (8 * i);
                }
                v
            }
        };
        if let Some(sm) = &o.sym {
            let mut any = false;
            let mut parts: Vec<Option<(E, u8)>> = Vec::new();
            for (k, x) in sm.range(off as u32..(off + n) as u32) {
                if !any {
                    parts = vec![None; n];
                    any = true;
                }
                parts[*k as usize - off] = Some(*x);
            }
            if any {
                let mut acc: Option<E> = None;
                let mut i = 0;
                while i < n {
                    let piece = match parts[i] {
                        Some((e, b)) => {
                            let mut j = 1;
                            while i + j < n && parts[i + j] == Some((e, b + j as u8)) {
                                j += 1
                            }
                            i += j;
                            self.d.extract(e, b as u32 * 8, j as u32 * 8)
                        }
                        None => {
                            let b = (v >> (8 * i)) & 0xff;
                            i += 1;
                            self.d.konst(8, b)
                        }
                    };
                    acc = Some(match acc {
                        None => piece,
                        Some(lo) => self.d.concat(piece, lo),
                    });
                }
                let mut e = acc.unwrap();
                if self.d.w(e) > w {
                    e = self.d.extract(e, 0, w);
                }
                return Ok(self.fe(e));
            }
        }
        v &= mask(w);
        Ok(cv(v))
    }
    fn store(&mut self, st: &mut State, addr: u64, v: Val, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let ext = if v.e != 0 && w % 8 != 0 { self.d.zext(v.e, n as u32 * 8) } else { v.e };
        let (o, off) = self.obj_mut(st, addr, n as u64)?;
        if v.e == 0 {
            let dst = &mut o.data[off..off + n];
            match n {
                1 => dst[0] = v.c as u8,
                2 => dst.copy_from_slice(&(v.c as u16).to_le_bytes()),
                4 => dst.copy_from_slice(&(v.c as u32).to_le_bytes()),
                8 => dst.copy_from_slice(&(v.c as u64).to_le_bytes()),
                _ => {
                    for i in 0..n {
                        dst[i] = (v.c >> (8 * i)) as u8;
                    }
                }
            }
            if let Some(sm) = &mut o.sym {
                for i in 0..n {
                    sm.remove(&((off + i) as u32));
                }
                if sm.is_empty() {
                    o.sym = None;
                }
            }
        } else {
            let sm = o.sym.get_or_insert_with(Default::default);
            for i in 0..n {
                sm.insert((off + i) as u32, (ext, i as u8));
            }
        }
        Ok(())
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.obj_ref(st, src, n)?;
        let data = o.data[off..off + n as usize].to_vec();
        let syms: Vec<(u32, (E, u8))> = match &o.sym {
            Some(s) => s.range(off as u32..(off as u64 + n) as u32).map(|(k, v)| (*k - off as u32, *v)).collect(),
            None => vec![],
        };
        let (o, off) = self.obj_mut(st, dst, n)?;
        o.data[off..off + n as usize].copy_from_slice(&data);
        if let Some(sm) = &mut o.sym {
            let keys: Vec<u32> = sm.range(off as u32..(off as u64 + n) as u32).map(|x| *x.0).collect();
            for k in keys {
                sm.remove(&k);
            }
            if sm.is_empty() {
                o.sym = None;
            }
        }
        if !syms.is_empty() {
            let sm = o.sym.get_or_insert_with(Default::default);
            for (k, v) in syms {
                sm.insert(off as u32 + k, v);
            }
        }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, size: u64) -> R<u64> {
        if size >= 1 << 31 {
            return Err(End::Inconclusive(format!("allocation of {} bytes", size)));
        }
        let o = Rc::new(Obj { data: vec![0; size as usize], sym: None, ro: false, live: true });
        let idx = match st.free.pop() {
            Some(i) => {
                st.objs[i as usize] = Some(o);
                i as usize
            }
            None => {
                st.objs.push(Some(o));
                st.objs.len() - 1
            }
        };
        Ok((idx as u64) << 32)
    }
    fn dealloc(&mut self, st: &mut State, addr: u64) -> R<()> {
        let idx = (addr >> 32) as usize;
        if idx <= self.p.globals.len() || idx >= st.objs.len() || addr & 0xffff_ffff != 0 || !st.objs[idx].as_ref().map(|o| o.live).unwrap_or(false) {
            return Err(End::Violation(format!("memory: bad free of {:#x}", addr)));
        }
        // Heap objects are not recycled: a later access is a use-after-free.
        st.objs[idx] = Some(dead());
        Ok(())
    }

    fn call(&mut self, st: &mut State, f: u32, dst: u32, args: &[Val]) -> R<()> {
        let fun = self.p.func(f);
        self.fn_used[f as usize] = true;
        let cur = self.p.func(st.func);
        if st.frames.len() > 2000 {
            return Err(End::Violation("stack overflow (call depth > 2000)".into()));
        }
        st.frames.push(Frame { func: st.func, pc: st.pc + 1, base: st.base as u32, dst, nalloca: st.allocas.len() as u32 });
        let nb = st.base + cur.nslots as usize;
        let need = nb + fun.nslots as usize;
        if st.stack.len() < need {
            st.stack.resize(need + 64, Val::default());
        }
        st.stack[nb..nb + args.len()].copy_from_slice(args);
        st.base = nb;
        st.func = f;
        st.pc = 0;
        Ok(())
    }

    fn bin_sym(&mut self, op: BinOp, w: u32, a: Val, b: Val) -> Val {
        let x = self.te(a, w);
        let y = self.te(b, w);
        let r = self.d.bin(eop(op), x, y);
        self.fe(r)
    }
    fn icmp_sym(&mut self, p: Pred, w: u32, a: Val, b: Val) -> Val {
        let x = self.te(a, w);
        let y = self.te(b, w);
        let d = &mut self.d;
        let r = match p {
            Pred::Eq => d.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = d.bin(Op::Eq, x, y);
                d.not(e)
            }
            Pred::Ult => d.bin(Op::Ult, x, y),
            Pred::Ugt => d.bin(Op::Ult, y, x),
            Pred::Uge => {
                let e = d.bin(Op::Ult, x, y);
                d.not(e)
            }
            Pred::Ule => {
                let e = d.bin(Op::Ult, y, x);
                d.not(e)
            }
            Pred::Slt => d.bin(Op::Slt, x, y),
            Pred::Sgt => d.bin(Op::Slt, y, x),
            Pred::Sge => {
                let e = d.bin(Op::Slt, x, y);
                d.not(e)
            }
            Pred::Sle => {
                let e = d.bin(Op::Slt, y, x);
                d.not(e)
            }
        };
        self.fe(r)
    }

    fn take_edge(&mut self, st: &mut State, f: &Func, e: u32) {
        let ed = &f.edges[e as usize];
        let base = st.base;
        if ed.parallel {
            let mut tmp: [Val; 24] = [Val::default(); 24];
            let n = ed.moves.len();
            if n <= 24 {
                for (k, (_, o)) in ed.moves.iter().enumerate() {
                    tmp[k] = get(st, f, base, *o);
                }
                for (k, (d, _)) in ed.moves.iter().enumerate() {
                    st.stack[base + *d as usize] = tmp[k];
                }
            } else {
                let v: Vec<Val> = ed.moves.iter().map(|(_, o)| get(st, f, base, *o)).collect();
                for ((d, _), v) in ed.moves.iter().zip(v) {
                    st.stack[base + *d as usize] = v;
                }
            }
        } else {
            for (d, o) in ed.moves.iter() {
                let v = get(st, f, base, *o);
                st.stack[base + *d as usize] = v;
            }
        }
        st.pc = ed.target;
    }

    fn exec(&mut self, st: &mut State) -> R<()> {
        let mut start = st.icount;
        loop {
            let f = self.p.func(st.func);
            let base = st.base;
            macro_rules! g {
                ($o:expr) => {
                    get(st, f, base, $o)
                };
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    st.stack[base + $d as usize] = v
                }};
            }
            // straight-line run within one function activation
            loop {
                st.icount += 1;
                st.sub = 0;
                st.mark_p = st.pcs.len();
                st.mark_t = st.trace.len();
                let ins = &f.code[st.pc as usize];
                match ins {
                    Ins::Bin { op, w, d, a, b } => {
                        let (x, y) = (g!(*a), g!(*b));
                        let r = if x.e | y.e == 0 { cv(bin_c(*op, *w as u32, x.c, y.c)) } else { self.bin_sym(*op, *w as u32, x, y) };
                        set!(*d, r);
                    }
                    Ins::Icmp { p, w, d, a, b } => {
                        let (x, y) = (g!(*a), g!(*b));
                        let r = if x.e | y.e == 0 { cv(icmp_c(*p, *w as u32, x.c, y.c) as u128) } else { self.icmp_sym(*p, *w as u32, x, y) };
                        set!(*d, r);
                    }
                    Ins::ZExt { d, a, to, .. } => {
                        let x = g!(*a);
                        let r = if x.e == 0 {
                            x
                        } else {
                            let e = self.d.zext(x.e, *to as u32);
                            self.fe(e)
                        };
                        set!(*d, r);
                    }
                    Ins::SExt { d, a, from, to } => {
                        let x = g!(*a);
                        let r = if x.e == 0 {
                            cv((sext(x.c, *from as u32) as u128) & mask(*to as u32))
                        } else {
                            let e = self.d.sext(x.e, *to as u32);
                            self.fe(e)
                        };
                        set!(*d, r);
                    }
                    Ins::Trunc { d, a, to, .. } => {
                        let x = g!(*a);
                        let r = if x.e == 0 {
                            cv(x.c & mask(*to as u32))
                        } else {
                            let e = self.d.extract(x.e, 0, *to as u32);
                            self.fe(e)
                        };
                        set!(*d, r);
                    }
                    Ins::Mov { d, a } => set!(*d, g!(*a)),
                    Ins::Select { d, c, a, b, w, ptr } => {
                        let cc = g!(*c);
                        let r = if cc.e == 0 {
                            if cc.c & 1 == 1 {
                                g!(*a)
                            } else {
                                g!(*b)
                            }
                        } else {
                            let (x, y) = (g!(*a), g!(*b));
                            if x.e == y.e && x.c == y.c {
                                x
                            } else if *ptr {
                                if self.decide(st, cc.e)? {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                let ex = self.te(x, *w as u32);
                                let ey = self.te(y, *w as u32);
                                let e = self.d.ite(cc.e, ex, ey);
                                self.fe(e)
                            }
                        };
                        set!(*d, r);
                    }
                    Ins::Load { d, p, off, w } => {
                        let x = g!(*p);
                        let a = if x.e == 0 { x.c as u64 } else { self.concretize(st, x.e)? as u64 };
                        let v = self.load(st, a.wrapping_add(*off as u64), *w as u32)?;
                        set!(*d, v);
                    }
                    Ins::Store { v, p, off, w } => {
                        let x = g!(*p);
                        let a = if x.e == 0 { x.c as u64 } else { self.concretize(st, x.e)? as u64 };
                        let v = g!(*v);
                        self.store(st, a.wrapping_add(*off as u64), v, *w as u32)?;
                    }
                    Ins::Gep0 { d, base: bs, off } => {
                        let x = g!(*bs);
                        let r = if x.e == 0 { cv((x.c as u64).wrapping_add(*off as u64) as u128) } else { self.bin_sym(BinOp::Add, 64, x, cv(*off as u64 as u128)) };
                        set!(*d, r);
                    }
                    Ins::Gep1 { d, base: bs, idx, iw, scale, off } => {
                        let (x, i) = (g!(*bs), g!(*idx));
                        let r = if x.e | i.e == 0 {
                            let k = sext(i.c, *iw as u32) as i64 as u64;
                            cv((x.c as u64).wrapping_add(k.wrapping_mul(*scale as u64)).wrapping_add(*off as i64 as u64) as u128)
                        } else {
                            self.gep_sym(x, *off as i64, &[(i, *iw, *scale as u64)])
                        };
                        set!(*d, r);
                    }
                    Ins::GepN { d, base: bs, off, idx } => {
                        let x = g!(*bs);
                        let l: Vec<(Val, u8, u64)> = idx.iter().map(|(o, w, s)| (g!(*o), *w, *s)).collect();
                        let r = self.gep_sym(x, *off, &l);
                        set!(*d, r);
                    }
                    Ins::Alloca { d, size } => {
                        let a = self.alloc(st, *size)?;
                        st.allocas.push((a >> 32) as u32);
                        set!(*d, cv(a as u128));
                    }
                    Ins::Call { f: cf, d, args, .. } => {
                        let mut buf = [Val::default(); 32];
                        let n = args.len();
                        assert!(n <= 32);
                        for (k, o) in args.iter().enumerate() {
                            buf[k] = g!(*o);
                        }
                        self.call(st, *cf, *d, &buf[..n])?;
                        break;
                    }
                    Ins::CallInd { f: fo, d, args } => {
                        let x = g!(*fo);
                        let a = self.conc(st, x)? as u64;
                        if a & FN_BASE == 0 || ((a & !FN_BASE) >> 4) as usize >= self.p.fns.len() {
                            return Err(End::Violation(format!("indirect call to {:#x}", a)));
                        }
                        let id = ((a & !FN_BASE) >> 4) as u32;
                        let v: Vec<Val> = args.iter().map(|o| g!(*o)).collect();
                        let fd = &self.p.fns[id as usize];
                        if let Some(b) = fd.builtin {
                            self.builtin(st, b, *d, 64, &v, id)?;
                            st.pc += 1;
                            continue;
                        }
                        if fd.text.is_none() {
                            return Err(End::Inconclusive(format!("external function {}", fd.name)));
                        }
                        self.call(st, id, *d, &v)?;
                        break;
                    }
                    Ins::Builtin { k, d, w, args, name } => {
                        let mut buf = [Val::default(); 40];
                        let n = args.len();
                        for (k, o) in args.iter().enumerate() {
                            buf[k] = g!(*o);
                        }
                        self.builtin(st, *k, *d, *w as u32, &buf[..n], *name)?;
                    }
                    Ins::Br(e) => {
                        self.take_edge(st, f, *e);
                        continue;
                    }
                    Ins::CondBr { c, t, f: fe } => {
                        let x = g!(*c);
                        let b = if x.e == 0 { x.c & 1 == 1 } else { self.decide(st, x.e)? };
                        self.take_edge(st, f, if b { *t } else { *fe });
                        if st.icount - start > 5_000_000 {
                            start = st.icount;
                            if st.icount > self.sh.max_instr {
                                return Err(End::Violation(format!("no termination within {} interpreted instructions", self.sh.max_instr)));
                            }
                            if Instant::now() > self.sh.deadline {
                                return Err(End::Inconclusive("time limit reached inside a path".into()));
                            }
                        }
                        continue;
                    }
                    Ins::Switch { v, w, cases, def } => {
                        let x = g!(*v);
                        let mut tgt = *def;
                        if x.e == 0 {
                            for (k, e) in cases.iter() {
                                if *k == x.c {
                                    tgt = *e;
                                    break;
                                }
                            }
                        } else {
                            for (k, e) in cases.iter() {
                                let kc = self.d.konst(*w as u32, *k);
                                let q = self.d.bin(Op::Eq, x.e, kc);
                                if self.decide(st, q)? {
                                    tgt = *e;
                                    break;
                                }
                            }
                        }
                        self.take_edge(st, f, tgt);
                        continue;
                    }
                    Ins::Ret(vals) => {
                        let Some(fr) = st.frames.pop() else {
                            self.st.instrs += st.icount;
                            return Ok(());
                        };
                        let nb = fr.base as usize;
                        for (k, o) in vals.iter().enumerate() {
                            let v = g!(*o);
                            st.stack[nb + fr.dst as usize + k] = v;
                        }
                        while st.allocas.len() > fr.nalloca as usize {
                            let i = st.allocas.pop().unwrap();
                            st.objs[i as usize] = Some(dead());
                            st.free.push(i);
                        }
                        st.base = nb;
                        st.func = fr.func;
                        st.pc = fr.pc;
                        break;
                    }
                    Ins::Unreachable => {
                        return Err(End::Violation("unreachable code reached".into()));
                    }
                    Ins::FBin { op, w, d, a, b } => {
                        let (x, y) = (g!(*a), g!(*b));
                        let x = self.conc(st, x)?;
                        let y = self.conc(st, y)?;
                        let r = if *w == 64 {
                            let (p, q) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                            fbin(*op, p, q).to_bits() as u128
                        } else {
                            let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match op {
                                FOp::Add => p + q,
                                FOp::Sub => p - q,
                                FOp::Mul => p * q,
                                FOp::Div => p / q,
                                FOp::Rem => p % q,
                                FOp::Neg => -p,
                            })
                            .to_bits() as u128
                        };
                        set!(*d, cv(r));
                    }
                    Ins::FCmp { p, w, d, a, b } => {
                        let (x, y) = (g!(*a), g!(*b));
                        let x = self.conc(st, x)?;
                        let y = self.conc(st, y)?;
                        let o = if *w == 64 {
                            f64::from_bits(x as u64).partial_cmp(&f64::from_bits(y as u64))
                        } else {
                            f32::from_bits(x as u32).partial_cmp(&f32::from_bits(y as u32))
                        };
                        let bit = match o {
                            Some(std::cmp::Ordering::Less) => 1,
                            Some(std::cmp::Ordering::Equal) => 2,
                            Some(std::cmp::Ordering::Greater) => 4,
                            None => 8,
                        };
                        set!(*d, cv((*p & bit != 0) as u128));
                    }
                    Ins::FCast { k, from, to, d, a } => {
                        let x = g!(*a);
                        let x = self.conc(st, x)?;
                        let fv = || if *from == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
                        let out = |v: f64| if *to == 64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 };
                        let r = match k {
                            FCast::FpToUi => (fv() as u128) & mask(*to as u32),
                            FCast::FpToSi => (fv() as i128 as u128) & mask(*to as u32),
                            FCast::UiToFp => {
                                if *to == 32 {
                                    (x as f32).to_bits() as u128
                                } else {
                                    (x as f64).to_bits() as u128
                                }
                            }
                            FCast::SiToFp => {
                                let s = sext(x, *from as u32);
                                if *to == 32 {
                                    (s as f32).to_bits() as u128
                                } else {
                                    (s as f64).to_bits() as u128
                                }
                            }
                            FCast::FpExt | FCast::FpTrunc => out(fv()),
                        };
                        set!(*d, cv(r));
                    }
                    Ins::Concat { d, w, parts } => {
                        let w = *w as u32;
                        let vals: Vec<Val> = parts.iter().map(|o| g!(*o)).collect();
                        let r = if vals.iter().all(|v| v.e == 0) {
                            let mut x = 0u128;
                            for (k, v) in vals.iter().enumerate() {
                                x |= v.c << (k as u32 * w);
                            }
                            cv(x)
                        } else {
                            let mut acc = self.te(vals[0], w);
                            for v in &vals[1..] {
                                let h = self.te(*v, w);
                                acc = self.d.concat(h, acc);
                            }
                            self.fe(acc)
                        };
                        set!(*d, r);
                    }
                    Ins::Split { d, w, n, a } => {
                        let x = g!(*a);
                        let w = *w as u32;
                        for k in 0..*n {
                            let r = if x.e == 0 {
                                cv((x.c >> (k * w)) & mask(w))
                            } else {
                                let e = self.d.extract(x.e, k * w, w);
                                self.fe(e)
                            };
                            set!(*d + k, r);
                        }
                    }
                    Ins::AtomicRmw { op, d, p, v, w } => {
                        let a = g!(*p);
                        let a = self.conc(st, a)? as u64;
                        let w = *w as u32;
                        let old = self.load(st, a, w)?;
                        let v = g!(*v);
                        let new = match op {
                            0 => v,
                            1 => self.bin_sym(BinOp::Add, w, old, v),
                            2 => self.bin_sym(BinOp::Sub, w, old, v),
                            3 => self.bin_sym(BinOp::And, w, old, v),
                            4 => self.bin_sym(BinOp::Or, w, old, v),
                            5 => self.bin_sym(BinOp::Xor, w, old, v),
                            _ => return Err(End::Inconclusive("atomicrmw".into())),
                        };
                        self.store(st, a, new, w)?;
                        set!(*d, old);
                    }
                    Ins::CmpXchg { d, p, e, n, w } => {
                        let a = g!(*p);
                        let a = self.conc(st, a)? as u64;
                        let w = *w as u32;
                        let old = self.load(st, a, w)?;
                        let ev = g!(*e);
                        let q = self.icmp_sym(Pred::Eq, w, old, ev);
                        let ok = if q.e == 0 { q.c == 1 } else { self.decide(st, q.e)? };
                        if ok {
                            let nv = g!(*n);
                            self.store(st, a, nv, w)?;
                        }
                        set!(*d, old);
                        set!(*d + 1, cv(ok as u128));
                    }
                }
                st.pc += 1;
            }
        }
    }

    fn gep_sym(&mut self, x: Val, off: i64, idx: &[(Val, u8, u64)]) -> Val {
        let mut acc = x;
        for (v, w, s) in idx {
            let t = if v.e == 0 {
                cv((sext(v.c, *w as u32) as i64 as u64).wrapping_mul(*s) as u128)
            } else {
                let e = if *w < 64 {
                    self.d.sext(v.e, 64)
                } else if *w > 64 {
                    self.d.extract(v.e, 0, 64)
                } else {
                    v.e
                };
                self.bin_sym(BinOp::Mul, 64, Val { c: 0, e }, cv(*s as u128))
            };
            acc = if acc.e | t.e == 0 { cv((acc.c as u64).wrapping_add(t.c as u64) as u128) } else { self.bin_sym(BinOp::Add, 64, acc, t) };
        }
        if off != 0 {
            acc = if acc.e == 0 { cv((acc.c as u64).wrapping_add(off as u64) as u128) } else { self.bin_sym(BinOp::Add, 64, acc, cv(off as u64 as u128)) };
        }
        acc
    }

    fn builtin(&mut self, st: &mut State, k: Bi, d: u32, w: u32, a: &[Val], name: u32) -> R<()> {
        let base = st.base;
        let all_c = a.iter().all(|v| v.e == 0);
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                st.stack[base + d as usize] = v
            }};
        }
        macro_rules! ret2 {
            ($v:expr, $o:expr) => {{
                let (v, o) = ($v, $o);
                st.stack[base + d as usize] = v;
                st.stack[base + d as usize + 1] = o
            }};
        }
        match k {
            Bi::Nop => {}
            Bi::Mov => ret!(a[0]),
            Bi::IsConst => ret!(cv(0)),
            Bi::Trap => return Err(End::Violation("trap".into())),
            Bi::Panic => {
                return Err(End::Violation(format!("panic via {}", self.p.fns[name as usize].name)));
            }
            Bi::Unknown => return Err(End::Inconclusive(format!("unsupported function {}", self.p.fns[name as usize].name))),
            Bi::Memcpy => {
                let n = self.conc(st, a[2])? as u64;
                let dst = self.conc(st, a[0])? as u64;
                let src = self.conc(st, a[1])? as u64;
                self.copy(st, dst, src, n)?;
                if self.p.fns[name as usize].name.starts_with("mem") {
                    ret!(cv(dst as u128));
                }
            }
            Bi::Memset => {
                let n = self.conc(st, a[2])? as u64;
                let dst = self.conc(st, a[0])? as u64;
                let v = a[1];
                if n > 0 {
                    if v.e == 0 {
                        let (o, off) = self.obj_mut(st, dst, n)?;
                        o.data[off..off + n as usize].fill(v.c as u8);
                        if let Some(sm) = &mut o.sym {
                            let keys: Vec<u32> = sm.range(off as u32..(off as u64 + n) as u32).map(|x| *x.0).collect();
                            for k in keys {
                                sm.remove(&k);
                            }
                            if sm.is_empty() {
                                o.sym = None;
                            }
                        }
                    } else {
                        let e = if self.d.w(v.e) > 8 { self.d.extract(v.e, 0, 8) } else { v.e };
                        for i in 0..n {
                            self.store(st, dst + i, Val { c: 0, e }, 8)?;
                        }
                    }
                }
                if self.p.fns[name as usize].name == "memset" {
                    ret!(cv(dst as u128));
                }
            }
            Bi::Memcmp | Bi::Bcmp => {
                let n = self.conc(st, a[2])? as u64;
                let p = self.conc(st, a[0])? as u64;
                let q = self.conc(st, a[1])? as u64;
                let mut acc: Option<E> = None; // built from the last byte backwards
                let mut concrete = Some(0i32);
                for i in (0..n).rev() {
                    let x = self.load(st, p + i, 8)?;
                    let y = self.load(st, q + i, 8)?;
                    if x.e | y.e == 0 {
                        if x.c != y.c {
                            concrete = Some(if x.c < y.c { -1 } else { 1 });
                            acc = None;
                        }
                    } else {
                        let ex = self.te(x, 8);
                        let ey = self.te(y, 8);
                        let eq = self.d.bin(Op::Eq, ex, ey);
                        let lt = self.d.bin(Op::Ult, ex, ey);
                        let m1 = self.d.konst(32, 0xffff_ffff);
                        let p1 = self.d.konst(32, 1);
                        let rest = match acc {
                            Some(e) => e,
                            None => self.d.konst(32, concrete.unwrap() as u32 as u128),
                        };
                        let ne = self.d.ite(lt, m1, p1);
                        acc = Some(self.d.ite(eq, rest, ne));
                        concrete = None;
                    }
                    if acc.is_some() {
                        concrete = Some(0);
                    }
                }
                match acc {
                    Some(e) => ret!(self.fe(e)),
                    None => ret!(cv(concrete.unwrap() as u32 as u128)),
                }
            }
            Bi::Strlen => {
                let mut p = self.conc(st, a[0])? as u64;
                let s = p;
                loop {
                    let v = self.load(st, p, 8)?;
                    if self.conc(st, v)? == 0 {
                        break;
                    }
                    p += 1;
                }
                ret!(cv((p - s) as u128));
            }
            Bi::UAddO | Bi::USubO | Bi::SAddO | Bi::SSubO | Bi::UMulO | Bi::SMulO => {
                let m = mask(w);
                if all_c {
                    let (x, y) = (a[0].c, a[1].c);
                    let (sx, sy) = (sext(x, w), sext(y, w));
                    assert!(w <= 64);
                    let (r, o) = match k {
                        Bi::UAddO => (x + y, x + y > m),
                        Bi::USubO => (x.wrapping_sub(y), x < y),
                        Bi::UMulO => (x * y, x * y > m),
                        Bi::SAddO => ((sx + sy) as u128, sext((sx + sy) as u128 & m, w) != sx + sy),
                        Bi::SSubO => ((sx - sy) as u128, sext((sx - sy) as u128 & m, w) != sx - sy),
                        _ => ((sx * sy) as u128, sext((sx * sy) as u128 & m, w) != sx * sy),
                    };
                    ret2!(cv(r & m), cv(o as u128));
                } else {
                    let ew = if matches!(k, Bi::UMulO | Bi::SMulO) { 2 * w } else { w + 1 };
                    let signed = matches!(k, Bi::SAddO | Bi::SSubO | Bi::SMulO);
                    let x = self.te(a[0], w);
                    let y = self.te(a[1], w);
                    let (bx, by) = if signed { (self.d.sext(x, ew), self.d.sext(y, ew)) } else { (self.d.zext(x, ew), self.d.zext(y, ew)) };
                    let op = match k {
                        Bi::UAddO | Bi::SAddO => Op::Add,
                        Bi::USubO | Bi::SSubO => Op::Sub,
                        _ => Op::Mul,
                    };
                    let o = if k == Bi::USubO {
                        self.d.bin(Op::Ult, x, y)
                    } else {
                        let big = self.d.bin(op, bx, by);
                        let lo = self.d.extract(big, 0, w);
                        let back = if signed { self.d.sext(lo, ew) } else { self.d.zext(lo, ew) };
                        let e = self.d.bin(Op::Eq, big, back);
                        self.d.not(e)
                    };
                    let r = self.d.bin(op, x, y);
                    ret2!(self.fe(r), self.fe(o));
                }
            }
            Bi::USubSat | Bi::UAddSat | Bi::UMax | Bi::UMin | Bi::SMax | Bi::SMin => {
                let x = self.te(a[0], w);
                let y = self.te(a[1], w);
                let r = match k {
                    Bi::USubSat => {
                        let c = self.d.bin(Op::Ult, x, y);
                        let z = self.d.konst(w, 0);
                        let s = self.d.bin(Op::Sub, x, y);
                        self.d.ite(c, z, s)
                    }
                    Bi::UAddSat => {
                        let s = self.d.bin(Op::Add, x, y);
                        let c = self.d.bin(Op::Ult, s, x);
                        let z = self.d.konst(w, mask(w));
                        self.d.ite(c, z, s)
                    }
                    Bi::UMax | Bi::UMin => {
                        let c = self.d.bin(Op::Ult, x, y);
                        if k == Bi::UMax {
                            self.d.ite(c, y, x)
                        } else {
                            self.d.ite(c, x, y)
                        }
                    }
                    _ => {
                        let c = self.d.bin(Op::Slt, x, y);
                        if k == Bi::SMax {
                            self.d.ite(c, y, x)
                        } else {
                            self.d.ite(c, x, y)
                        }
                    }
                };
                ret!(self.fe(r));
            }
            Bi::CtPop | Bi::CtLz | Bi::CtTz => {
                if a[0].e == 0 {
                    let x = a[0].c;
                    let r = match k {
                        Bi::CtPop => x.count_ones(),
                        Bi::CtLz => {
                            if x == 0 {
                                w
                            } else {
                                x.leading_zeros() - (128 - w)
                            }
                        }
                        _ => {
                            if x == 0 {
                                w
                            } else {
                                x.trailing_zeros()
                            }
                        }
                    };
                    ret!(cv(r as u128));
                } else {
                    let x = a[0].e;
                    let r = if k == Bi::CtPop {
                        let mut acc = self.d.konst(w, 0);
                        for i in 0..w {
                            let b = self.d.extract(x, i, 1);
                            let z = self.d.zext(b, w);
                            acc = self.d.bin(Op::Add, acc, z);
                        }
                        acc
                    } else {
                        let mut acc = self.d.konst(w, w as u128);
                        for i in 0..w {
                            // innermost is the last bit tested
                            let pos = if k == Bi::CtTz { w - 1 - i } else { i };
                            let b = self.d.extract(x, pos, 1);
                            let v = if k == Bi::CtTz { pos } else { w - 1 - pos };
                            let kv = self.d.konst(w, v as u128);
                            acc = self.d.ite(b, kv, acc);
                        }
                        acc
                    };
                    ret!(self.fe(r));
                }
            }
            Bi::Fshl | Bi::Fshr => {
                let s = self.conc(st, a[2])? as u32 % w;
                if s == 0 {
                    ret!(if k == Bi::Fshl { a[0] } else { a[1] });
                } else {
                    let hi = self.te(a[0], w);
                    let lo = self.te(a[1], w);
                    let sh = if k == Bi::Fshl { s } else { w - s };
                    // (hi << sh) | (lo >> (w - sh))
                    let h = self.d.extract(hi, 0, w - sh);
                    let l = self.d.extract(lo, w - sh, sh);
                    let e = self.d.concat(h, l);
                    ret!(self.fe(e));
                }
            }
            Bi::Bswap | Bi::BitRev => {
                let unit = if k == Bi::Bswap { 8 } else { 1 };
                let x = self.te(a[0], w);
                let mut acc = self.d.extract(x, 0, unit);
                let mut i = unit;
                while i < w {
                    let p = self.d.extract(x, i, unit);
                    acc = self.d.concat(acc, p);
                    i += unit;
                }
                ret!(self.fe(acc));
            }
            Bi::Abs => {
                let x = self.te(a[0], w);
                let z = self.d.konst(w, 0);
                let c = self.d.bin(Op::Slt, x, z);
                let n = self.d.bin(Op::Sub, z, x);
                let e = self.d.ite(c, n, x);
                ret!(self.fe(e));
            }
            Bi::UCmp | Bi::SCmp => {
                let x = self.te(a[0], w);
                let y = self.te(a[1], w);
                let lt = self.d.bin(if k == Bi::UCmp { Op::Ult } else { Op::Slt }, x, y);
                let eq = self.d.bin(Op::Eq, x, y);
                // result width comes from the name: llvm.ucmp.iR.iA
                let nm = &self.p.fns[name as usize].name;
                let rw: u32 = nm.split('.').nth(2).and_then(|s| s[1..].parse().ok()).unwrap_or(8);
                let m1 = self.d.konst(rw, mask(rw));
                let z = self.d.konst(rw, 0);
                let p1 = self.d.konst(rw, 1);
                let r = self.d.ite(eq, z, p1);
                let r = self.d.ite(lt, m1, r);
                ret!(self.fe(r));
            }
            Bi::VecReduceAnd | Bi::VecReduceOr | Bi::VecReduceAdd => {
                let mut acc = a[0];
                for v in &a[1..] {
                    let op = match k {
                        Bi::VecReduceAnd => BinOp::And,
                        Bi::VecReduceOr => BinOp::Or,
                        _ => BinOp::Add,
                    };
                    acc = self.bin_sym(op, w, acc, *v);
                }
                ret!(acc);
            }
            Bi::FToUiSat | Bi::FToSiSat => {
                let fw = a[a.len() - 1].c;
                let x = self.conc(st, a[0])?;
                let v = if fw == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
                let r = if k == Bi::FToUiSat {
                    (v as u128).min(mask(w))
                } else {
                    let lim = 1i128 << (w - 1);
                    ((v as i128).clamp(-lim, lim - 1) as u128) & mask(w)
                };
                ret!(cv(r));
            }
            Bi::FAbs | Bi::FMaxNum | Bi::FMinNum => {
                let x = self.conc(st, a[0])?;
                let y = if a.len() > 1 { self.conc(st, a[1])? } else { 0 };
                let r = if w == 32 {
                    let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match k {
                        Bi::FAbs => p.abs(),
                        Bi::FMaxNum => p.max(q),
                        _ => p.min(q),
                    })
                    .to_bits() as u128
                } else {
                    let (p, q) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                    (match k {
                        Bi::FAbs => p.abs(),
                        Bi::FMaxNum => p.max(q),
                        _ => p.min(q),
                    })
                    .to_bits() as u128
                };
                ret!(cv(r));
            }
            Bi::LoadRel => {
                let p = self.conc(st, a[0])? as u64;
                let o = self.conc(st, a[1])? as u64;
                let v = self.load(st, p.wrapping_add(o), 32)?;
                let v = self.conc(st, v)?;
                ret!(cv(p.wrapping_add(sext(v, 32) as i64 as u64) as u128));
            }
            Bi::Alloc | Bi::AllocZeroed | Bi::Malloc => {
                let n = self.conc(st, a[0])? as u64;
                let p = self.alloc(st, n)?;
                ret!(cv(p as u128));
            }
            Bi::Calloc => {
                let n = self.conc(st, a[0])? as u64;
                let m = self.conc(st, a[1])? as u64;
                let p = self.alloc(st, n * m)?;
                ret!(cv(p as u128));
            }
            Bi::PosixMemalign => {
                let pp = self.conc(st, a[0])? as u64;
                let n = self.conc(st, a[2])? as u64;
                let p = self.alloc(st, n)?;
                self.store(st, pp, cv(p as u128), 64)?;
                ret!(cv(0));
            }
            Bi::Dealloc => {
                let p = self.conc(st, a[0])? as u64;
                self.dealloc(st, p)?;
            }
            Bi::Free => {
                let p = self.conc(st, a[0])? as u64;
                if p != 0 {
                    self.dealloc(st, p)?;
                }
            }
            Bi::Realloc | Bi::CRealloc => {
                let p = self.conc(st, a[0])? as u64;
                let (old, new) = if k == Bi::Realloc {
                    (self.conc(st, a[1])? as u64, self.conc(st, a[3])? as u64)
                } else {
                    let n = self.conc(st, a[1])? as u64;
                    let (o, _) = self.obj_ref(st, p, 0)?;
                    (o.data.len() as u64, n)
                };
                let q = self.alloc(st, new)?;
                self.copy(st, q, p, old.min(new))?;
                self.dealloc(st, p)?;
                ret!(cv(q as u128));
            }
            Bi::SxBits => {
                let n = self.conc(st, a[0])? as u32;
                let e = self.fresh(st, n);
                let z = self.d.zext(e, 64);
                ret!(Val { c: 0, e: z });
            }
            Bi::SxBelow => {
                let n = self.conc(st, a[0])? as u64;
                if n == 0 {
                    return Err(End::Inconclusive("sx_below(0)".into()));
                }
                if n == 1 {
                    ret!(cv(0));
                } else {
                    let w = 64 - (n - 1).leading_zeros();
                    let e = self.fresh(st, w);
                    if !n.is_power_of_two() {
                        let k = self.d.konst(w, n as u128);
                        let c = self.d.bin(Op::Ult, e, k);
                        self.add_pc(st, c);
                    }
                    let z = self.d.zext(e, 64);
                    ret!(Val { c: 0, e: z });
                }
            }
            Bi::SxAssume => {
                let c = self.te(a[0], 1);
                self.assume(st, c)?;
            }
            Bi::SxCheck => {
                let v = a[0];
                st.nchecks += 1;
                if v.e == 0 {
                    if v.c & 1 == 1 {
                        self.st.checks_concrete += 1;
                    } else {
                        return Err(End::Violation(format!("check {} failed", a[1].c)));
                    }
                } else {
                    match self.implied(st, v.e) {
                        Some(true) => {
                            self.st.checks_concrete += 1;
                            return Ok(());
                        }
                        Some(false) => return Err(End::Violation(format!("check {} failed", a[1].c))),
                        None => {}
                    }
                    if st.replay.is_empty() {
                        let n = self.d.not(v.e);
                        let bad = self.query(st, Some(n))?;
                        self.st.checks_solver += 1;
                        if let Some(m) = bad {
                            let keep = st.model.replace(m);
                            self.violation(st, format!("check {} failed", a[1].c));
                            st.model = keep;
                        }
                        self.assume(st, v.e)?;
                    } else {
                        self.add_pc(st, v.e);
                    }
                }
            }
            Bi::SxCover => {
                let v = self.conc(st, a[0])?;
                st.covers |= 1 << (v & 63);
            }
            Bi::SxObserve => st.obs.push(a[0]),
            Bi::SxParam => {
                let i = self.conc(st, a[0])? as usize;
                let v = self.sh.params.get(i).copied().unwrap_or(0);
                ret!(cv(v as u128));
            }
            Bi::SxVerbose => ret!(cv(0)),
            Bi::SxIte => {
                let c = self.te(a[0], 1);
                let (x, y) = (self.te(a[1], 64), self.te(a[2], 64));
                let e = self.d.ite(c, x, y);
                let v = self.fe(e);
                ret!(v);
            }
            Bi::SxFix => {
                let v = self.conc(st, a[0])?;
                ret!(cv(v));
            }
            Bi::SxFail => {
                return Err(End::Violation(format!("check {} failed", a[0].c)));
            }
            Bi::SxDone => {
                self.st.instrs += st.icount;
                return Err(End::Done);
            }
        }
        Ok(())
    }
    fn fresh(&mut self, st: &mut State, w: u32) -> E {
        let id = st.widths.len() as u32;
        st.widths.push(w as u8);
        self.d.var(id, w)
    }
}

fn dead() -> Rc<Obj> {
    thread_local!(static DEAD: Rc<Obj> = Rc::new(Obj{data: vec![], sym: None, ro: false, live: false}));
    DEAD.with(|d| d.clone())
}

#[inline(always)]
fn get(st: &State, f: &Func, base: usize, o: O) -> Val {
    if o >= 0 {
        st.stack[base + o as usize]
    } else {
        cv(f.consts[!o as usize])
    }
}

fn eop(op: BinOp) -> Op {
    match op {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
    }
}
#[inline(always)]
fn bin_c(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    match op {
        BinOp::Add if w == 64 => (a as u64).wrapping_add(b as u64) as u128,
        BinOp::Sub if w == 64 => (a as u64).wrapping_sub(b as u64) as u128,
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Mul if w <= 64 => ((a as u64).wrapping_mul(b as u64) as u128) & mask(w),
        _ => fold(eop(op), w, a, b),
    }
}
#[inline(always)]
fn icmp_c(p: Pred, w: u32, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sext(a, w) < sext(b, w),
        Pred::Sle => sext(a, w) <= sext(b, w),
        Pred::Sgt => sext(a, w) > sext(b, w),
        Pred::Sge => sext(a, w) >= sext(b, w),
    }
}
fn fbin(op: FOp, p: f64, q: f64) -> f64 {
    match op {
        FOp::Add => p + q,
        FOp::Sub => p - q,
        FOp::Mul => p * q,
        FOp::Div => p / q,
        FOp::Rem => p % q,
        FOp::Neg => -p,
    }
}
