//! Test functions: a concrete skeleton (text) whose marked places are symbolic inputs.
//!
//! Skeleton grammar, one statement per line (`;` separates too):
//!   env <int> <float> <vector> ...      see `Env::parse`
//!   v <classes>                         e.g. `v iiifi`: class of each vreg
//!   sz a b c                            spill slot sizes by class
//!   last / multi                        multi-slot slots named by last unit / multiple defs allowed
//!   b <params|-> -> <succ(args)> ...    start of a block
//!   i <operands>                        ordinary instruction
//!   t <operands>                        terminator (branch if the block has successors, else return)
//!   l v s e label                       debug label (`?a-b` for a symbolic instruction index)
//! Operand: `u` or `d`, vreg choice `0|1|2`, `:` constraint alternatives, position suffix `e`, `l` or `x`
//! (symbolic). Constraint alternatives: A any, R reg, S stack, Fh fixed to one of hex mask h (in
//! env register numbering), Ln limit n, =n reuse of operand n, N none (operand absent).
//! `c<hexmask>` clobbers exactly, `c?<hexmask>` clobbers a symbolic subset, `n<reg>` fixed
//! non-allocatable operand.
use crate::rt::*;
use regalloc2::*;

#[derive(Clone, Default)]
pub struct Blk {
    pub first: usize,
    pub end: usize,
    pub succs: Vec<Block>,
    pub preds: Vec<Block>,
    pub params: Vec<VReg>,
    pub args: Vec<Vec<VReg>>,
}
#[derive(Clone, Default)]
pub struct Ins {
    pub branch: bool,
    pub ret: bool,
    pub ops: Vec<Operand>,
    pub clob: PRegSet,
}
pub struct TF {
    pub blocks: Vec<Blk>,
    pub insts: Vec<Ins>,
    pub classes: Vec<RegClass>,
    pub labels: Vec<(VReg, Inst, Inst, u32)>,
    pub sizes: [usize; 3],
    pub last: bool,
    pub multi: bool,
    pub entry: usize,
}

impl Function for TF {
    fn num_insts(&self) -> usize {
        self.insts.len()
    }
    fn num_blocks(&self) -> usize {
        self.blocks.len()
    }
    fn entry_block(&self) -> Block {
        Block::new(self.entry)
    }
    fn block_insns(&self, b: Block) -> InstRange {
        let b = &self.blocks[b.index()];
        InstRange::new(Inst::new(b.first), Inst::new(b.end))
    }
    fn block_succs(&self, b: Block) -> &[Block] {
        &self.blocks[b.index()].succs
    }
    fn block_preds(&self, b: Block) -> &[Block] {
        &self.blocks[b.index()].preds
    }
    fn block_params(&self, b: Block) -> &[VReg] {
        &self.blocks[b.index()].params
    }
    fn is_ret(&self, i: Inst) -> bool {
        self.insts[i.index()].ret
    }
    fn is_branch(&self, i: Inst) -> bool {
        self.insts[i.index()].branch
    }
    fn branch_blockparams(&self, b: Block, _: Inst, s: usize) -> &[VReg] {
        &self.blocks[b.index()].args[s]
    }
    fn inst_operands(&self, i: Inst) -> &[Operand] {
        &self.insts[i.index()].ops
    }
    fn inst_clobbers(&self, i: Inst) -> PRegSet {
        self.insts[i.index()].clob
    }
    fn num_vregs(&self) -> usize {
        self.classes.len()
    }
    fn debug_value_labels(&self) -> &[(VReg, Inst, Inst, u32)] {
        &self.labels
    }
    fn spillslot_size(&self, c: RegClass) -> usize {
        self.sizes[c as usize]
    }
    fn multi_spillslot_named_by_last_slot(&self) -> bool {
        self.last
    }
    fn allow_multiple_vreg_defs(&self) -> bool {
        self.multi
    }
}

pub fn class(i: usize) -> RegClass {
    match i {
        0 => RegClass::Int,
        1 => RegClass::Float,
        _ => RegClass::Vector,
    }
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn peek(&self) -> u8 {
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn ws(&mut self) {
        while self.peek() == b' ' {
            self.i += 1
        }
    }
    fn eol(&mut self) -> bool {
        self.ws();
        matches!(self.peek(), 0 | b'\n' | b';')
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn num(&mut self) -> usize {
        let mut n = 0;
        let s = self.i;
        while self.peek().is_ascii_digit() {
            n = n * 10 + (self.peek() - b'0') as usize;
            self.i += 1;
        }
        if s == self.i {
            fail(9001)
        }
        n
    }
    fn hex(&mut self) -> u64 {
        let mut n = 0;
        let s = self.i;
        while self.peek().is_ascii_hexdigit() {
            let c = self.peek();
            let d = if c <= b'9' { c - b'0' } else { (c | 32) - b'a' + 10 };
            n = n * 16 + d as u64;
            self.i += 1;
        }
        if s == self.i {
            fail(9002)
        }
        n
    }
    fn range(&mut self) -> usize {
        if self.eat(b'?') {
            let a = self.num();
            if !self.eat(b'-') {
                fail(9003)
            }
            let b = self.num();
            a + below(b + 1 - a)
        } else {
            self.num()
        }
    }
}

/// Register `n` in env numbering: hw_enc n%16 of class n/16. Fixed stack slots and the
/// non-allocatable register are among these numbers as well.
pub fn reg(n: usize) -> PReg {
    PReg::new(n & 15, class(n >> 4))
}

pub struct Case {
    /// assume `legal` (needed when the alternatives can combine to illegal input)
    pub filter: bool,
    pub f: TF,
    pub env: MachineEnv,
}

fn set(mask: u64, c: usize) -> PRegSet {
    let mut s = PRegSet::empty();
    for i in 0..16 {
        if mask >> i & 1 == 1 {
            s.add(PReg::new(i, class(c)));
        }
    }
    s
}

pub fn parse(text: &[u8]) -> Case {
    let mut p = P { s: text, i: 0 };
    let mut f = TF {
        blocks: vec![],
        insts: vec![],
        classes: vec![],
        labels: vec![],
        sizes: [1, 1, 2],
        last: false,
        multi: false,
        entry: 0,
    };
    let mut env = MachineEnv {
        preferred_regs_by_class: [PRegSet::empty(); 3],
        non_preferred_regs_by_class: [PRegSet::empty(); 3],
        scratch_by_class: [None; 3],
        fixed_stack_slots: vec![],
    };
    let mut filter = false;
    loop {
        p.ws();
        let c = p.peek();
        if c == 0 {
            break;
        }
        p.i += 1;
        match c {
            b'\n' | b';' => {}
            b'#' => {
                while p.peek() != 0 && p.peek() != b'\n' {
                    p.i += 1
                }
            }
            // `p0 3`: preferred regs of class 0 = mask 3; likewise `n`on-preferred, `s`cratch,
            // fixed stac`k`
            b'P' | b'Q' | b'X' | b'K' => {
                let cl = p.num();
                p.ws();
                let m = p.hex();
                match c {
                    b'P' => env.preferred_regs_by_class[cl] = set(m, cl),
                    b'Q' => env.non_preferred_regs_by_class[cl] = set(m, cl),
                    b'X' => env.scratch_by_class[cl] = Some(PReg::new(m.trailing_zeros() as usize, class(cl))),
                    _ => env.fixed_stack_slots.extend(set(m, cl)),
                }
            }
            b'v' => {
                p.ws();
                while !p.eol() {
                    f.classes.push(match p.peek() {
                        b'i' => RegClass::Int,
                        b'f' => RegClass::Float,
                        b'v' => RegClass::Vector,
                        _ => fail(9004),
                    });
                    p.i += 1;
                }
            }
            b'z' => {
                for k in 0..3 {
                    p.ws();
                    f.sizes[k] = p.num();
                }
            }
            b'!' => filter = true,
            b'L' => f.last = true,
            b'M' => f.multi = true,
            b'E' => {
                p.ws();
                f.entry = p.num()
            }
            b'b' => {
                let mut b = Blk { first: f.insts.len(), ..Default::default() };
                p.ws();
                if !p.eat(b'-') {
                    loop {
                        let n = p.num();
                        b.params.push(VReg::new(n, f.classes[n]));
                        if !p.eat(b',') {
                            break;
                        }
                    }
                }
                p.ws();
                // successors: `2(0,1|3) 3`
                while !p.eol() {
                    b.succs.push(Block::new(p.num()));
                    let mut a = vec![];
                    if p.eat(b'(') {
                        loop {
                            let mut n = vec![];
                            vreg_choice(&mut p, &mut n);
                            let alts: Vec<VReg> = n.iter().map(|&n| VReg::new(n, f.classes[n])).collect();
                            a.push(one_of(&alts));
                            if !p.eat(b',') {
                                break;
                            }
                        }
                        if !p.eat(b')') {
                            fail(9005)
                        }
                    }
                    b.args.push(a);
                }
                f.blocks.push(b);
            }
            b'i' | b't' => {
                let mut ins = Ins::default();
                while !p.eol() {
                    operand(&mut p, &f, &mut ins);
                }
                let bl = f.blocks.last_mut().unwrap();
                if c == b't' {
                    if bl.succs.is_empty() {
                        ins.ret = true
                    } else {
                        ins.branch = true
                    }
                }
                f.insts.push(ins);
                bl.end = f.insts.len();
            }
            b'l' => {
                p.ws();
                let v = p.num();
                p.ws();
                let s = p.range();
                p.ws();
                let e = p.range();
                assume(s <= e);
                p.ws();
                let l = p.range() as u32;
                f.labels.push((VReg::new(v, f.classes[v]), Inst::new(s), Inst::new(e), l));
            }
            _ => fail(9006),
        }
    }
    for i in 0..f.blocks.len() {
        let ss = f.blocks[i].succs.clone();
        for s in ss {
            f.blocks[s.index()].preds.push(Block::new(i));
        }
    }
    Case { f, env, filter }
}

fn vreg_choice(p: &mut P, out: &mut Vec<usize>) {
    out.push(p.num());
    while p.eat(b'|') {
        out.push(p.num())
    }
    if p.eat(b'~') {
        // inclusive range
        let e = p.num();
        while *out.last().unwrap() < e {
            let n = *out.last().unwrap() + 1;
            out.push(n)
        }
    }
}

fn operand(p: &mut P, f: &TF, ins: &mut Ins) {
    let k = p.peek();
    p.i += 1;
    match k {
        b'c' => {
            let sym = p.eat(b'?');
            let m = p.hex();
            for i in 0..48 {
                if m >> i & 1 == 1 {
                    let with = ins.clob.with(reg(i));
                    ins.clob = if sym { ite_copy(flag(), with, ins.clob) } else { with };
                }
            }
            return;
        }
        b'n' => {
            let r = p.num();
            ins.ops.push(Operand::fixed_nonallocatable(reg(r)));
            return;
        }
        b'u' | b'd' => {}
        _ => fail(9007),
    }
    // optional operand: decided first
    let optional = p.eat(b'?');
    if optional && !flag() {
        while !matches!(p.peek(), 0 | b' ' | b'\n' | b';') {
            p.i += 1
        }
        return;
    }
    let mut vregs = vec![];
    vreg_choice(p, &mut vregs);
    if !p.eat(b':') {
        fail(9008)
    }
    let mut cons: Vec<OperandConstraint> = vec![];
    let (mut early, mut late) = (k == b'u', k == b'd');
    loop {
        let c = p.peek();
        p.i += 1;
        match c {
            b'A' => cons.push(OperandConstraint::Any),
            b'R' => cons.push(OperandConstraint::Reg),
            b'S' => cons.push(OperandConstraint::Stack),
            b'F' => {
                let m = p.hex();
                for i in 0..48 {
                    if m >> i & 1 == 1 {
                        cons.push(OperandConstraint::FixedReg(reg(i)))
                    }
                }
            }
            b'L' => cons.push(OperandConstraint::Limit(p.num())),
            b'=' => cons.push(OperandConstraint::Reuse(p.num())),
            b'.' => {}
            b'e' => {
                early = true;
                late = false
            }
            b'l' => {
                early = false;
                late = true
            }
            b'x' => {
                early = true;
                late = true
            }
            0 | b' ' | b'\n' | b';' => {
                p.i -= 1;
                break;
            }
            _ => fail(9009),
        }
    }
    let kind = if k == b'u' { OperandKind::Use } else { OperandKind::Def };
    let mut alts = vec![];
    for &v in &vregs {
        for &c in &cons {
            let r = VReg::new(v, f.classes[v]);
            if early && !matches!(c, OperandConstraint::Reuse(_)) {
                alts.push(Operand::new(r, c, kind, OperandPos::Early))
            }
            if late {
                alts.push(Operand::new(r, c, kind, OperandPos::Late))
            }
        }
    }
    ins.ops.push(one_of(&alts));
}
