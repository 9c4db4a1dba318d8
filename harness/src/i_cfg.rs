//! Validation of the input program (src/cfg.rs, src/ssa.rs).
use crate::rt::*;
use regalloc2::verif::{cfg::CFGInfo, ssa::validate_ssa};
use regalloc2::*;

struct Mini {
    entry: usize,
    nv: usize,
    succs: Vec<Vec<Block>>,
    preds: Vec<Vec<Block>>,
    params: Vec<Vec<VReg>>,
    ranges: Vec<InstRange>,
    /// operands; how many of them count
    ops: Vec<(Vec<Operand>, usize)>,
    branch: Vec<bool>,
    ret: Vec<bool>,
    args: Vec<Vec<Vec<VReg>>>,
}
impl Function for Mini {
    fn num_insts(&self) -> usize {
        self.ops.len()
    }
    fn num_blocks(&self) -> usize {
        self.succs.len()
    }
    fn entry_block(&self) -> Block {
        Block::new(self.entry)
    }
    fn block_insns(&self, b: Block) -> InstRange {
        self.ranges[b.index()]
    }
    fn block_succs(&self, b: Block) -> &[Block] {
        &self.succs[b.index()]
    }
    fn block_preds(&self, b: Block) -> &[Block] {
        &self.preds[b.index()]
    }
    fn block_params(&self, b: Block) -> &[VReg] {
        &self.params[b.index()]
    }
    fn is_ret(&self, i: Inst) -> bool {
        self.ret[i.index()]
    }
    fn is_branch(&self, i: Inst) -> bool {
        self.branch[i.index()]
    }
    fn branch_blockparams(&self, b: Block, _: Inst, k: usize) -> &[VReg] {
        &self.args[b.index()][k]
    }
    fn inst_operands(&self, i: Inst) -> &[Operand] {
        let (o, n) = &self.ops[i.index()];
        &o[..*n]
    }
    fn inst_clobbers(&self, _: Inst) -> PRegSet {
        PRegSet::empty()
    }
    fn num_vregs(&self) -> usize {
        self.nv
    }
    fn spillslot_size(&self, _: RegClass) -> usize {
        1
    }
}
impl Mini {
    fn new(succs: Vec<Vec<usize>>, insts: &[usize], entry: usize) -> Mini {
        let n = succs.len();
        let succs: Vec<Vec<Block>> = succs.into_iter().map(|v| v.into_iter().map(Block::new).collect()).collect();
        let mut preds = vec![vec![]; n];
        for b in 0..n {
            for t in &succs[b] {
                preds[t.index()].push(Block::new(b));
            }
        }
        let mut at = 0;
        let (mut branch, mut ret) = (vec![], vec![]);
        let ranges = (0..n)
            .map(|b| {
                let r = InstRange::new(Inst::new(at), Inst::new(at + insts[b]));
                at += insts[b];
                branch.resize(at, false);
                ret.resize(at, false);
                branch[at - 1] = !succs[b].is_empty();
                ret[at - 1] = succs[b].is_empty();
                r
            })
            .collect();
        let args = succs.iter().map(|v| v.iter().map(|_| vec![]).collect()).collect();
        Mini { entry, nv: 0, succs, preds, params: vec![vec![]; n], ranges, ops: vec![(vec![], 0); at], branch, ret, args }
    }
    /// blocks reachable from the entry without passing `avoid`
    fn reach(&self, avoid: usize) -> u64 {
        let n = self.succs.len();
        if self.entry == avoid {
            return 0;
        }
        let mut seen = 1u64 << self.entry;
        for _ in 0..n {
            for b in 0..n {
                if seen >> b & 1 == 1 {
                    for t in &self.succs[b] {
                        if t.index() != avoid {
                            seen |= 1 << t.index();
                        }
                    }
                }
            }
        }
        seen
    }
}

/// params: blocks, entry, repeated targets allowed, successors per block
pub fn edges() {
    let n = param(0);
    let entry = param(1);
    let mut succs = vec![];
    for i in 0..n {
        let mut v: Vec<usize> = vec![];
        for k in 0..param(3 + i as u32) {
            let t = pick(n);
            if k > 0 && param(2) == 0 {
                assume(v[k - 1] < t);
            }
            v.push(t);
        }
        succs.push(v);
    }
    let insts: Vec<usize> = (0..n).map(|b| 1 + (b + 1) % 3).collect();
    let mut f = Mini::new(succs, &insts, entry);
    f.nv = 1;
    let o = Operand::any_use(VReg::new(0, RegClass::Int));
    let mut has = vec![];
    for i in 0..f.ops.len() {
        // whether an instruction has operands stays open
        let k = below(2);
        f.ops[i] = (vec![o], k);
        has.push(k == 1);
    }
    let np = |b: usize| f.preds[b].len() + (b == entry) as usize;
    let mut crit = false;
    let mut arg = false;
    for b in 0..n {
        for t in &f.succs[b] {
            crit |= np(t.index()) > 1 && f.succs[b].len() > 1;
        }
        if f.succs[b].iter().any(|t| np(t.index()) > 1) {
            arg |= has[f.ranges[b].last().index()];
        }
    }
    match CFGInfo::new(&f) {
        Ok(c) => {
            check(!crit, 1);
            check(!arg, 2);
            for b in 0..n {
                let r = f.ranges[b];
                check(c.block_entry[b] == ProgPoint::before(r.first()), 3);
                check(c.block_exit[b] == ProgPoint::after(r.last()), 4);
                for i in r.iter() {
                    check(c.insn_block[i.index()].index() == b, 5);
                }
            }
            check(c.insn_block.len() == f.ops.len() && c.block_entry.len() == n && c.block_exit.len() == n, 6);
            let seen = f.reach(n + 1);
            for a in 0..n {
                let without = f.reach(a);
                for b in 0..n {
                    if seen >> b & 1 == 1 {
                        check(c.dominates(Block::new(a), Block::new(b)) == (a == b || without >> b & 1 == 0), 7);
                    }
                }
            }
            check(c.postorder.len() == seen.count_ones() as usize, 8);
            cover(1);
        }
        Err(RegAllocError::CritEdge(a, b)) => {
            let there = f.succs[a.index()].iter().any(|t| *t == b);
            check(there && f.succs[a.index()].len() > 1 && np(b.index()) > 1, 10);
            cover(2);
        }
        Err(RegAllocError::DisallowedBranchArg(i)) => {
            let b = (0..n).find(|&b| f.ranges[b].last() == i);
            check(b.is_some(), 11);
            check(f.succs[b.unwrap()].iter().any(|t| np(t.index()) > 1), 12);
            check(has[i.index()], 13);
            cover(3);
        }
        Err(_) => check(false, 14),
    }
    observe(crit as u64);
}

fn cfgs(k: usize) -> Vec<Vec<usize>> {
    match k {
        0 => vec![vec![]],
        1 => vec![vec![1], vec![]],
        2 => vec![vec![1, 2], vec![3], vec![3], vec![]],
        3 => vec![vec![1], vec![2, 3], vec![1], vec![]],
        4 => vec![vec![2], vec![2], vec![]],
        5 => vec![vec![2], vec![], vec![1]],
        _ => vec![vec![1, 2], vec![], vec![]],
    }
}

/// params: control flow, values, what is open in it (0 operands, 1 block parameters and branch
/// arguments, 2 shape), operands per instruction, instructions per block
pub fn ssa() {
    let (k, nv, mode, nops) = (param(0), param(1), param(2), param(3));
    let succs = cfgs(k);
    let n = succs.len();
    let insts: Vec<usize> = (0..n).map(|b| param(4 + b as u32)).collect();
    let mut f = Mini::new(succs, &insts, 0);
    f.nv = nv;
    let v = |i: usize| VReg::new(i, RegClass::Int);
    let ni = f.ops.len();
    // operands: none, a use or a definition of any value, also of one that does not exist
    for i in 0..ni {
        for _ in 0..nops {
            let c = pick(2 * nv + 4);
            if c > 0 {
                let c = c - 1;
                let o = if c == 0 {
                    Operand::fixed_nonallocatable(PReg::new(5, RegClass::Int))
                } else if (c - 1) % 2 == 0 {
                    Operand::any_use(v((c - 1) / 2))
                } else {
                    Operand::any_def(v((c - 1) / 2))
                };
                f.ops[i].0.push(o);
            }
        }
        f.ops[i].1 = f.ops[i].0.len();
    }
    if mode >= 1 {
        for b in 0..n {
            let c = pick(nv + 2);
            if c > 0 {
                f.params[b].push(v(c - 1));
            }
        }
    }
    let mut lens_ok = true;
    for b in 0..n {
        for s in 0..f.succs[b].len() {
            let want = f.params[f.succs[b][s].index()].len();
            let have = if mode == 2 { pick(3) } else { want };
            for _ in 0..have {
                let a = if mode == 1 { pick(nv + 1) } else { 0 };
                f.args[b][s].push(v(a));
            }
            lens_ok &= have == want;
        }
    }
    let mut shape_ok = true;
    if mode == 2 {
        for i in 0..ni {
            let c = pick(4);
            f.branch[i] = c & 1 == 1;
            f.ret[i] = c & 2 == 2;
        }
        for b in 0..n {
            let last = f.ranges[b].last().index();
            for i in f.ranges[b].iter() {
                let t = f.branch[i.index()] || f.ret[i.index()];
                shape_ok &= t == (i.index() == last);
            }
            if !f.branch[last] {
                // nothing is asked of arguments when control does not leave by a branch
                let all = (0..f.succs[b].len()).all(|s| f.args[b][s].len() == f.params[f.succs[b][s].index()].len());
                if !all {
                    done();
                }
            }
        }
    }
    // what single assignment asks
    let seen = f.reach(n + 1);
    let mut defs: Vec<Vec<(usize, usize)>> = vec![vec![]; nv + 1]; // (block, position), parameters at 0
    for b in 0..n {
        for p in &f.params[b] {
            defs[p.vreg()].push((b, 0));
        }
        for (j, i) in f.ranges[b].iter().enumerate() {
            for o in f.inst_operands(i) {
                if o.kind() == OperandKind::Def {
                    defs[o.vreg().vreg()].push((b, 1 + j));
                }
            }
        }
    }
    let once = defs.iter().all(|d| d.len() <= 1) && defs[nv].is_empty();
    let mut open = false;
    let mut uses_ok = true;
    {
        let mut used = |x: usize, b: usize, j: usize| match defs[x].first() {
            None => uses_ok = false,
            Some(&(db, dj)) => {
                if db == b {
                    uses_ok &= dj < j;
                } else if seen >> b & 1 == 0 {
                    open = true; // in code that is never reached: no claim
                } else {
                    uses_ok &= f.reach(db) >> b & 1 == 0;
                }
            }
        };
        for b in 0..n {
            for (j, i) in f.ranges[b].iter().enumerate() {
                for o in f.inst_operands(i) {
                    if o.kind() == OperandKind::Use && o.as_fixed_nonallocatable().is_none() {
                        used(o.vreg().vreg(), b, 1 + j);
                    }
                }
            }
            if f.branch[f.ranges[b].last().index()] {
                for a in &f.args[b] {
                    for x in a {
                        used(x.vreg(), b, 99);
                    }
                }
            }
        }
    }
    if open && uses_ok {
        done();
    }
    let entry_ok = f.params[0].is_empty();
    let truth = once && uses_ok && lens_ok && shape_ok && entry_ok;
    let c = match CFGInfo::new(&f) {
        Ok(c) => c,
        Err(_) => done(),
    };
    let r = validate_ssa(&f, &c);
    check(r.is_ok() == truth, 1);
    if truth {
        cover(1);
    } else {
        cover(2);
    }
    observe(truth as u64);
}
