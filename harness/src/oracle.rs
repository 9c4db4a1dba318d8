//! Independent oracle for allocator output, written from the API documentation only: forward
//! dataflow over locations plus per-instruction constraint and interference checks.
use crate::rt::*;
use crate::tf::*;
use regalloc2::*;

// Categories; a check only reports failures of the categories in its mask.
pub const C_FLOW: u32 = 1; // values reach their uses
pub const C_CONSTR: u32 = 2; // operand constraints
pub const C_INTERF: u32 = 4; // operands/clobbers of one instruction do not overlap
pub const C_EDITS: u32 = 8; // edit list well-formed
pub const C_SLOT: u32 = 16; // spillslots in bounds, aligned
pub const C_DEBUG: u32 = 32; // debug locations
pub const C_SHAPE: u32 = 64; // output tables and iteration
/// modifies C_DEBUG: a label may be reported over the whole live range of its vreg
pub const C_LOOSE: u32 = 128;

/// spurious failures
pub const C_ERR: u32 = 256;
/// programs that ask for more registers than there are, too
pub const C_OVER: u32 = 512;

pub const NL: usize = 224; // most dense locations (registers and slots) followed

#[derive(Clone, Copy)]
pub struct St {
    pub v: [u32; NL],
    pub len: [u8; NL],
    /// vregs defined on every path
    pub defd: u32,
}

pub struct Orc<'a> {
    f: &'a TF,
    env: &'a MachineEnv,
    out: &'a Output,
    mask: u32,
    nreg: usize,
    /// locations in use: registers and the reported number of slots
    nl: usize,
    reg_ix: [u8; 192],
    reg_cl: [u8; NL],
    /// 0 not usable, 1 allocatable, 2 scratch, 3 fixed stack, 4 other
    reg_kind: [u8; NL],
    /// collect instead of report: first failure
    quiet: bool,
    first: core::cell::Cell<u32>,
}

impl<'a> Orc<'a> {
    fn must(&self, cat: u32, code: u32, c: bool) {
        if self.mask & cat != 0 {
            if !self.quiet {
                check(c, code)
            } else if !c && self.first.get() == 0 {
                self.first.set(code)
            }
        }
    }
    fn bad(&self, cat: u32, code: u32) {
        self.must(cat, code, false)
    }
    /// code of the first failure in these categories, 0 if none
    pub fn judge(c: &'a Case, out: &'a Output, mask: u32) -> u32 {
        let mut o = Orc::new(c, out, mask);
        o.quiet = true;
        o.run();
        o.first.get()
    }
    pub fn new(c: &'a Case, out: &'a Output, mask: u32) -> Self {
        let mut o = Orc { f: &c.f, env: &c.env, out, mask, nreg: 0, nl: 0, reg_ix: [0xff; 192], reg_cl: [0; NL], reg_kind: [0; NL], quiet: false, first: core::cell::Cell::new(0) };
        for cl in 0..3 {
            for p in c.env.preferred_regs_by_class[cl] {
                o.add(p, 1)
            }
            for p in c.env.non_preferred_regs_by_class[cl] {
                o.add(p, 1)
            }
            if let Some(p) = c.env.scratch_by_class[cl] {
                o.add(p, 2)
            }
        }
        for &p in &c.env.fixed_stack_slots {
            o.add(p, 3)
        }
        o.nl = o.nreg + out.num_spillslots;
        if o.nl > NL {
            // beyond the followed locations; reported as uncovered
            cover(63);
            assume(false);
        }
        o
    }
    fn add(&mut self, p: PReg, kind: u8) {
        let n = self.nreg;
        self.reg_ix[p.index()] = n as u8;
        self.reg_cl[n] = p.class() as u8;
        self.reg_kind[n] = kind;
        self.nreg += 1;
    }
    fn alloc_kind(&self, p: PReg) -> u8 {
        let i = self.reg_ix[p.index()];
        if i == 0xff {
            4
        } else {
            self.reg_kind[i as usize]
        }
    }
    /// dense location and its length in slots, or None if unknown
    fn loc(&self, a: Allocation) -> Option<usize> {
        if let Some(p) = a.as_reg() {
            let i = self.reg_ix[p.index()];
            if i == 0xff {
                None
            } else {
                Some(i as usize)
            }
        } else if let Some(s) = a.as_stack() {
            let l = self.nreg + s.index();
            if l < self.nl {
                Some(l)
            } else {
                None
            }
        } else {
            None
        }
    }
    /// units covered by slot `s` for a class
    fn units(&self, s: usize, cl: usize) -> (usize, usize) {
        let n = self.f.sizes[cl];
        if self.f.last {
            ((s + 1).wrapping_sub(n), s + 1)
        } else {
            (s, s + n)
        }
    }
    fn slot_ok(&self, a: Allocation, cl: usize) {
        if let Some(s) = a.as_stack() {
            let (lo, hi) = self.units(s.index(), cl);
            if s.index() + 1 < self.f.sizes[cl] && self.f.last {
                self.bad(C_SLOT, 501);
                return;
            }
            self.must(C_SLOT, 502, !(hi > self.out.num_spillslots));
            self.must(C_SLOT, 503, !(lo % self.f.sizes[cl] != 0));
        }
    }
    /// do two allocations (with their classes) share storage?
    fn overlap(&self, a: Allocation, ca: usize, b: Allocation, cb: usize) -> bool {
        match (a.as_stack(), b.as_stack()) {
            (Some(x), Some(y)) => {
                let (l1, h1) = self.units(x.index(), ca);
                let (l2, h2) = self.units(y.index(), cb);
                l1 < h2 && l2 < h1
            }
            _ => a == b,
        }
    }
    fn is_stack(&self, a: Allocation) -> bool {
        match a.as_reg() {
            Some(p) => self.alloc_kind(p) == 3,
            None => a.is_stack(),
        }
    }
    fn write(&self, st: &mut St, a: Allocation, cl: usize, val: u32) {
        let Some(l) = self.loc(a) else { return };
        if let Some(s) = a.as_stack() {
            let (l1, h1) = self.units(s.index(), cl);
            let mut i = self.nreg;
            while i < self.nl {
                if st.v[i] != 0 {
                    let n = st.len[i] as usize;
                    let s2 = i - self.nreg;
                    let (l2, h2) = if self.f.last { ((s2 + 1).wrapping_sub(n), s2 + 1) } else { (s2, s2 + n) };
                    if l1 < h2 && l2 < h1 {
                        st.v[i] = 0
                    }
                }
                i += 1;
            }
            st.len[l] = self.f.sizes[cl] as u8;
        }
        st.v[l] = val;
    }
    fn kill(&self, st: &mut St, m: u32) {
        for x in st.v.iter_mut() {
            *x &= !m
        }
    }
    fn holds(&self, st: &St, a: Allocation, v: VReg) -> bool {
        match self.loc(a) {
            Some(l) => {
                st.v[l] >> v.vreg() & 1 == 1
                    && (!a.is_stack() || st.len[l] as usize == self.f.sizes[v.class() as usize])
            }
            None => false,
        }
    }
    fn mv(&self, st: &mut St, e: &Edit, checked: bool) {
        let Edit::Move { from, to } = e.clone();
        if checked {
            if from.is_none() || to.is_none() {
                self.bad(C_EDITS, 401);
                return;
            }
            let (fs, ts) = (self.is_stack(from), self.is_stack(to));
            self.must(C_EDITS, 402, !(fs && ts && from != to));
            if let (Some(a), Some(b)) = (from.as_reg(), to.as_reg()) {
                self.must(C_EDITS, 403, !(a.class() != b.class()));
            }
            for a in [from, to] {
                if let Some(p) = a.as_reg() {
                    self.must(C_EDITS, 404, !(self.alloc_kind(p) == 4));
                }
            }
        }
        let cl = match (from.as_reg(), to.as_reg()) {
            (Some(p), _) | (_, Some(p)) => p.class() as usize,
            _ => {
                // stack to itself: no effect
                return;
            }
        };
        if checked {
            self.slot_ok(from, cl);
            self.slot_ok(to, cl);
        }
        let val = match self.loc(from) {
            Some(l) if !from.is_stack() || st.len[l] as usize == self.f.sizes[cl] => st.v[l],
            _ => 0,
        };
        self.write(st, to, cl, val);
    }
    fn inst(&self, st: &mut St, i: usize, checked: bool) {
        let ops = &self.f.insts[i].ops;
        let al = self.out.inst_allocs(Inst::new(i));
        if checked {
            if al.len() != ops.len() {
                self.bad(C_SHAPE, 701);
                return;
            }
            for k in 0..ops.len() {
                if ops[k].kind() == OperandKind::Use && ops[k].as_fixed_nonallocatable().is_none() {
                    self.must(C_FLOW, 101, !(!self.holds(st, al[k], ops[k].vreg())));
                }
            }
        }
        for p in self.f.insts[i].clob {
            let l = self.reg_ix[p.index()];
            if l != 0xff {
                st.v[l as usize] = 0
            }
        }
        let mut m = 0;
        for o in ops.iter() {
            if o.kind() == OperandKind::Def {
                m |= 1 << o.vreg().vreg()
            }
        }
        self.kill(st, m);
        st.defd |= m;
        for k in 0..ops.len() {
            if ops[k].kind() == OperandKind::Def {
                self.write(st, al[k], ops[k].class() as usize, 0);
            }
        }
        for k in 0..ops.len() {
            if ops[k].kind() == OperandKind::Def {
                let v = ops[k].vreg();
                self.write(st, al[k], v.class() as usize, 1 << v.vreg());
            }
        }
    }
    fn constraints(&self, i: usize) {
        let ops = &self.f.insts[i].ops;
        let al = self.out.inst_allocs(Inst::new(i));
        if al.len() != ops.len() {
            self.bad(C_SHAPE, 702);
            return;
        }
        for k in 0..ops.len() {
            let (o, a) = (ops[k], al[k]);
            if let Some(p) = o.as_fixed_nonallocatable() {
                self.must(C_CONSTR, 200, !(a.as_reg() != Some(p)));
                continue;
            }
            let cl = o.class() as usize;
            if a.is_none() {
                self.bad(C_CONSTR, 201);
                continue;
            }
            self.slot_ok(a, cl);
            let fixed = matches!(o.constraint(), OperandConstraint::FixedReg(_));
            if let Some(p) = a.as_reg() {
                self.must(C_CONSTR, 202, !(p.class() as usize != cl));
                // only allocatable registers, unless the client fixed another location
                let k = self.alloc_kind(p);
                self.must(C_CONSTR, 203, !(!fixed && k != 1 && k != 3));
            }
            let in_reg = a.as_reg().map_or(false, |p| self.alloc_kind(p) == 1);
            match o.constraint() {
                OperandConstraint::Any => {}
                OperandConstraint::Reg => {
                    self.must(C_CONSTR, 204, !(!in_reg));
                }
                OperandConstraint::Stack => {
                    self.must(C_CONSTR, 205, !(!self.is_stack(a)));
                }
                OperandConstraint::FixedReg(p) => {
                    self.must(C_CONSTR, 206, !(a.as_reg() != Some(p)));
                }
                OperandConstraint::Reuse(j) => {
                    self.must(C_CONSTR, 207, !(a != al[j]));
                }
                OperandConstraint::Limit(n) => {
                    self.must(C_CONSTR, 208, !(!in_reg || a.as_reg().unwrap().hw_enc() >= n));
                }
            }
        }
        // interference
        for k in 0..ops.len() {
            if ops[k].as_fixed_nonallocatable().is_some() {
                continue;
            }
            let late_live = ops[k].kind() == OperandKind::Def || ops[k].pos() == OperandPos::Late;
            if late_live {
                if let Some(p) = al[k].as_reg() {
                    self.must(C_INTERF, 301, !(self.f.insts[i].clob.contains(p)));
                }
            }
            for j in 0..k {
                if ops[j].as_fixed_nonallocatable().is_some() {
                    continue;
                }
                let (a, b) = (ops[j], ops[k]);
                if !self.overlap(al[j], a.class() as usize, al[k], b.class() as usize) {
                    continue;
                }
                match (a.kind(), b.kind()) {
                    (OperandKind::Use, OperandKind::Use) => {}
                    (OperandKind::Def, OperandKind::Def) => {
                        self.must(C_INTERF, 302, !(a.vreg() != b.vreg()));
                    }
                    (x, _) => {
                        let (d, u) = if x == OperandKind::Def { (a, b) } else { (b, a) };
                        self.must(C_INTERF, 303, !(d.pos() == OperandPos::Early));
                        self.must(C_INTERF, 304, !(u.pos() == OperandPos::Late));
                    }
                }
            }
        }
    }
    /// edits at one point
    fn edits_at(&self, p: ProgPoint, at: &mut usize, st: &mut St, checked: bool) {
        while *at < self.out.edits.len() && self.out.edits[*at].0 <= p {
            self.mv(st, &self.out.edits[*at].1, checked);
            *at += 1;
        }
    }
    fn debug_point(&self, p: ProgPoint, st: &St, alt: Option<&St>) {
        let i = p.inst().index();
        for &(label, from, to, a) in &self.out.debug_locations {
            if from <= p && p < to {
                let mut ok = false;
                for &(v, s, e, l) in &self.f.labels {
                    let here = ProgPoint::before(s) <= p && p < ProgPoint::before(e);
                    if l == label && (here || self.mask & C_LOOSE != 0) {
                        ok |= self.holds(st, a, v);
                        if let Some(x) = alt {
                            ok |= self.holds(x, a, v);
                        }
                        // a def occupies its location from the instruction on
                        let al = self.out.inst_allocs(p.inst());
                        for (k, o) in self.f.insts[i].ops.iter().enumerate() {
                            ok |= p.pos() == InstPosition::Before && o.kind() == OperandKind::Def && o.vreg() == v && al[k] == a;
                        }
                        // nothing to say about a value that does not exist here
                        ok |= self.mask & C_LOOSE != 0 && st.defd >> v.vreg() & 1 == 0;
                    }
                }
                self.must(C_DEBUG, 601, !(!ok));
            }
        }
    }
    fn block(&self, b: usize, st: &mut St, checked: bool) {
        let bl = &self.f.blocks[b];
        let es = &self.out.edits;
        let mut at = 0;
        while at < es.len() && es[at].0 < ProgPoint::before(Inst::new(bl.first)) {
            at += 1
        }
        for i in bl.first..bl.end {
            // moves for the outgoing edges sit before the terminator; a value may end there.
            // Likewise an unused block parameter at the first instruction.
            let mut alt = if (i + 1 == bl.end || i == bl.first) && checked && self.mask & C_DEBUG != 0 { Some(*st) } else { None };
            let p = ProgPoint::before(Inst::new(i));
            while at < es.len() && es[at].0 <= p {
                self.mv(st, &es[at].1, checked);
                at += 1;
                if let Some(x) = &mut alt {
                    for l in 0..self.nl {
                        if x.len[l] != st.len[l] && st.v[l] != 0 {
                            x.len[l] = st.len[l];
                            x.v[l] = 0;
                        }
                        x.v[l] |= st.v[l];
                    }
                }
            }
            if checked && self.mask & C_DEBUG != 0 {
                self.debug_point(ProgPoint::before(Inst::new(i)), st, alt.as_ref());
            }
            self.inst(st, i, checked);
            // a dead def may be overwritten by the moves right after it
            let alt = if i + 1 < bl.end && checked && self.mask & C_DEBUG != 0 { Some(*st) } else { alt };
            if i + 1 < bl.end {
                self.edits_at(ProgPoint::after(Inst::new(i)), &mut at, st, checked);
            } else if at < es.len() && es[at].0 == ProgPoint::after(Inst::new(i)) {
                self.must(C_EDITS, 405, !(checked));
            }
            if checked && self.mask & C_DEBUG != 0 {
                self.debug_point(ProgPoint::after(Inst::new(i)), st, alt.as_ref());
            }
        }
    }
    fn edge(&self, b: usize, s: usize, st: &St) -> St {
        let to = self.f.blocks[b].succs[s].index();
        let params = &self.f.blocks[to].params;
        // (a value that goes out of scope is not expected anywhere)
        if params.is_empty() {
            return *st;
        }
        let args = &self.f.blocks[b].args[s];
        let mut kill = 0u32;
        for p in params {
            kill |= 1 << p.vreg()
        }
        let mut n = *st;
        n.defd |= kill;
        for l in 0..self.nl {
            let old = st.v[l];
            if old == 0 {
                continue;
            }
            let mut x = old & !kill;
            for k in 0..params.len() {
                if old >> args[k].vreg() & 1 == 1 {
                    x |= 1 << params[k].vreg()
                }
            }
            n.v[l] = x;
        }
        n
    }
    pub fn run(&self) {
        let (f, out) = (self.f, self.out);
        let n = f.insts.len();
        // shape of the tables
        if out.inst_alloc_offsets.len() != n {
            check(false, 703);
            return;
        }
        for w in out.edits.windows(2) {
            self.must(C_EDITS, 406, !(w[0].0 > w[1].0));
        }
        for e in &out.edits {
            self.must(C_EDITS, 407, !(e.0.inst().index() >= n));
        }
        for i in 0..n {
            self.constraints(i);
        }
        // dataflow to a fixed point
        let nb = f.blocks.len();
        let top = St { v: [!0; NL], len: [0; NL], defd: !0 };
        let mut ins: Vec<St> = vec![top; nb];
        let mut seen: Vec<bool> = vec![false; nb];
        let mut work: Vec<usize> = vec![f.entry];
        ins[f.entry] = St { v: [0; NL], len: [1; NL], defd: 0 };
        seen[f.entry] = true;
        while let Some(b) = work.pop() {
            let mut st = ins[b];
            self.block(b, &mut st, false);
            for s in 0..f.blocks[b].succs.len() {
                let to = f.blocks[b].succs[s].index();
                let e = self.edge(b, s, &st);
                if !seen[to] {
                    seen[to] = true;
                    ins[to] = e;
                    work.push(to);
                } else {
                    let t = &mut ins[to];
                    let mut ch = false;
                    for l in 0..self.nl {
                        let x = if t.len[l] == e.len[l] { t.v[l] & e.v[l] } else { 0 };
                        ch |= x != t.v[l];
                        t.v[l] = x;
                    }
                    ch |= t.defd & !e.defd != 0;
                    t.defd &= e.defd;
                    if ch {
                        work.push(to);
                    }
                }
            }
        }
        for b in 0..nb {
            if seen[b] {
                let mut st = ins[b];
                self.block(b, &mut st, true);
            }
        }
        if self.mask & C_DEBUG != 0 {
            self.debug_shape();
        }
        if self.mask & C_SHAPE != 0 {
            self.iteration();
        }
    }
    fn debug_shape(&self) {
        let d = &self.out.debug_locations;
        for w in d.windows(2) {
            self.must(C_DEBUG, 602, !((w[0].0, w[0].1) > (w[1].0, w[1].1)));
        }
        for i in 0..d.len() {
            let (l, s, e, a) = d[i];
            self.must(C_DEBUG, 603, !(s > e));
            self.must(C_DEBUG, 604, !(a.is_none()));
            // inside what was requested for this label
            let mut p = s;
            while p < e && self.mask & C_LOOSE == 0 {
                let mut ok = false;
                for &(_, s, e, l2) in &self.f.labels {
                    ok |= l == l2 && ProgPoint::before(s) <= p && p < ProgPoint::before(e);
                }
                if !ok || p.inst().index() > self.f.insts.len() {
                    self.bad(C_DEBUG, 605);
                    break;
                }
                p = p.next();
            }
            for j in 0..i {
                let (l2, s2, e2, _) = d[j];
                self.must(C_DEBUG, 606, !(l2 == l && s < e2 && s2 < e && self.mask & C_LOOSE == 0));
            }
        }
    }
    /// `block_insts_and_edits` yields every instruction and every edit of the block, in order
    fn iteration(&self) {
        let mut total = 0;
        for b in 0..self.f.blocks.len() {
            let bl = &self.f.blocks[b];
            let mut at = 0;
            let es = &self.out.edits;
            while at < es.len() && es[at].0 < ProgPoint::before(Inst::new(bl.first)) {
                at += 1
            }
            let mut next = bl.first;
            for x in self.out.block_insts_and_edits(self.f, Block::new(b)) {
                match x {
                    InstOrEdit::Inst(i) => {
                        self.must(C_SHAPE, 704, !(i.index() != next));
                        self.must(C_SHAPE, 705, !(at < es.len() && es[at].0 <= ProgPoint::before(i)));
                        next += 1;
                    }
                    InstOrEdit::Edit(e) => {
                        if at >= es.len() || !core::ptr::eq(e, &es[at].1) {
                            self.bad(C_SHAPE, 706);
                            return;
                        }
                        self.must(C_SHAPE, 707, !(es[at].0.inst().index() > next || (es[at].0.inst().index() == next && es[at].0.pos() == InstPosition::After)));
                        at += 1;
                        total += 1;
                    }
                }
            }
            self.must(C_SHAPE, 708, !(next != bl.end));
        }
        self.must(C_SHAPE, 709, !(total != self.out.edits.len()));
    }
}

/// Is every instruction within the documented rules and its register demand satisfiable?
pub fn legal(c: &Case) -> bool {
    c.f.insts.iter().all(|i| legal_inst(c, i, 0))
}
/// Does every instruction leave each operand a register of its own? For ion those operands that
/// need one, for fastalloc all of them and a scratch register.
pub fn slack(c: &Case, alg: usize) -> bool {
    c.f.insts.iter().all(|i| legal_inst(c, i, alg + 1))
}
/// possibly asking for more registers than there are
const STRUCTURE: usize = 9;
pub fn formed(c: &Case) -> bool {
    c.f.insts.iter().all(|i| legal_inst(c, i, STRUCTURE))
}
pub fn legal_inst(c: &Case, ins: &Ins, slack: usize) -> bool {
    let ops = &ins.ops;
    let mut reused = 0u32;
    for k in 0..ops.len() {
        let o = ops[k];
        if o.as_fixed_nonallocatable().is_some() {
            continue;
        }
        if let OperandConstraint::Reuse(j) = o.constraint() {
            if j >= ops.len() || ops[j].kind() != OperandKind::Use || ops[j].pos() != OperandPos::Early || ops[j].class() != o.class() {
                return false;
            }
            if !matches!(ops[j].constraint(), OperandConstraint::Reg) || reused >> j & 1 == 1 {
                return false;
            }
            reused |= 1 << j;
        }
        for j in 0..k {
            // unsupported: several mentions of a vreg, one of them on the stack
            if ops[j].vreg() == o.vreg()
                && ops[j].as_fixed_nonallocatable().is_none()
                && (matches!(o.constraint(), OperandConstraint::Stack) || matches!(ops[j].constraint(), OperandConstraint::Stack))
            {
                return false;
            }
            if let (OperandConstraint::FixedReg(p), OperandConstraint::FixedReg(q)) = (ops[j].constraint(), o.constraint()) {
                if p == q {
                    // fine only for an early use with a late def
                    let (a, b) = (ops[j], o);
                    let ok = match (a.kind(), b.kind()) {
                        (OperandKind::Use, OperandKind::Def) => a.pos() == OperandPos::Early && b.pos() == OperandPos::Late,
                        (OperandKind::Def, OperandKind::Use) => b.pos() == OperandPos::Early && a.pos() == OperandPos::Late,
                        _ => false,
                    };
                    if !ok {
                        return false;
                    }
                }
            }
        }
        if let OperandConstraint::FixedReg(p) = o.constraint() {
            if ins.clob.contains(p) && (o.kind() == OperandKind::Def || o.pos() == OperandPos::Late) {
                return false;
            }
        }
    }
    if slack == STRUCTURE {
        return true;
    }
    for cl in 0..3 {
        let all = c.env.preferred_regs_by_class[cl] | c.env.non_preferred_regs_by_class[cl];
        let n = all.len();
        let mut fe = PRegSet::empty();
        let mut fl = all & ins.clob;
        let (mut e, mut l, mut b) = (0, 0, 0);
        for k in 0..ops.len() {
            let o = ops[k];
            if o.as_fixed_nonallocatable().is_some() || o.class() as usize != cl {
                continue;
            }
            let def = o.kind() == OperandKind::Def;
            let early = !def || o.pos() == OperandPos::Early;
            let late = def || o.pos() == OperandPos::Late;
            let any = slack == 2 && matches!(o.constraint(), OperandConstraint::Any);
            match o.constraint() {
                OperandConstraint::FixedReg(p) => {
                    if all.contains(p) {
                        if early {
                            fe.add(p)
                        }
                        if late {
                            fl.add(p)
                        }
                    }
                }
                OperandConstraint::Any if !any => {}
                OperandConstraint::Any | OperandConstraint::Reg | OperandConstraint::Limit(_) => {
                    if reused >> k & 1 == 1 {
                        b += 1
                    } else if early && late {
                        b += 1
                    } else if early {
                        e += 1
                    } else {
                        l += 1
                    }
                }
                _ => {}
            }
        }
        for k in 0..ops.len() {
            if let (OperandConstraint::Limit(m), true) = (ops[k].constraint(), ops[k].class() as usize == cl) {
                let mut have = 0;
                for p in all {
                    if p.hw_enc() < m && !(fe | fl).contains(p) {
                        have += 1
                    }
                }
                for o in ops {
                    match o.constraint() {
                        OperandConstraint::Limit(m2) if o.class() as usize == cl && m2 <= m => have -= 1,
                        _ => {}
                    }
                }
                if have < 0 {
                    return false;
                }
            }
        }
        if slack == 1 {
            if !fits(c, ins, cl, reused, fe, fl) {
                return false;
            }
            continue;
        }
        let scratch = (slack == 2 && c.env.scratch_by_class[cl].is_none() && n > 0) as u32;
        // several reused inputs, or other operands needing a register before and after: each
        // reused input may need a register apart from its output
        let lasting = ops.iter().any(|o| (o.pos() == OperandPos::Late) == (o.kind() == OperandKind::Use));
        let more = if reused.count_ones() > 1 || lasting { reused.count_ones() } else { 0 };
        if slack > 0 && b + e + l + (fe | fl).len() + scratch + more > n {
            return false;
        }
        if b + (fe | fl).len() > n || b + e + fe.len() > n || b + l + fl.len() > n {
            return false;
        }
    }
    true
}

/// The registers of a class suffice for the instruction in ion's accounting: before it, after it,
/// and for what spans both. An early use next to a reused input spans both, so that the reused
/// input can be copied to its output's register.
fn fits(c: &Case, ins: &Ins, cl: usize, reused: u32, mut fe: PRegSet, mut fl: PRegSet) -> bool {
    let all = c.env.preferred_regs_by_class[cl] | c.env.non_preferred_regs_by_class[cl];
    let ops = &ins.ops;
    let n = all.len();
    let (mut e, mut l, mut b) = (0, 0, 0);
    for k in 0..ops.len() {
        let o = ops[k];
        if o.as_fixed_nonallocatable().is_some() || o.class() as usize != cl {
            continue;
        }
        let use_ = o.kind() == OperandKind::Use;
        let extended = use_
            && o.pos() == OperandPos::Early
            && reused >> k & 1 == 0
            && (0..ops.len()).any(|j| reused >> j & 1 == 1 && ops[j].vreg() != o.vreg());
        match o.constraint() {
            OperandConstraint::FixedReg(p) if extended && all.contains(p) => {
                fe.add(p);
                fl.add(p);
            }
            // as if it spanned both: which half is left to the others depends on the limit
            OperandConstraint::Limit(_) => b += 1,
            OperandConstraint::Reg | OperandConstraint::Reuse(_) => {
                if extended || use_ == (o.pos() == OperandPos::Late) {
                    b += 1
                } else if use_ {
                    e += 1
                } else {
                    l += 1
                }
            }
            _ => {}
        }
    }
    b + (fe | fl).len() <= n && b + e + fe.len() <= n && b + l + fl.len() <= n
}
