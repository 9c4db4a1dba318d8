//! Capture and serialization of functions and results (src/serialize.rs, serde derives), public interface.
use crate::rt::*;
use crate::tf::*;
use regalloc2::serialize::SerializableFunction;
use regalloc2::*;

fn any_class() -> RegClass {
    one_of(&[RegClass::Int, RegClass::Float, RegClass::Vector])
}
fn preg() -> PReg {
    PReg::new(below(64), any_class())
}
fn vreg() -> VReg {
    VReg::new(below(VReg::MAX + 1), any_class())
}
fn set(n: usize) -> PRegSet {
    let mut s = PRegSet::empty();
    for k in 0..n {
        s.add(PReg::new(below(64), class((n + k) % 3)));
    }
    s
}
fn operand(k: usize) -> Operand {
    let pos = one_of(&[OperandPos::Early, OperandPos::Late]);
    let kind = one_of(&[OperandKind::Use, OperandKind::Def]);
    match k % 7 {
        0 => Operand::new(vreg(), OperandConstraint::Reg, kind, pos),
        1 => Operand::new(vreg(), OperandConstraint::Any, kind, pos),
        2 => Operand::new(vreg(), OperandConstraint::Stack, kind, pos),
        3 => {
            let v = vreg();
            Operand::new(v, OperandConstraint::FixedReg(PReg::new(below(64), v.class())), kind, pos)
        }
        4 => Operand::reg_reuse_def(vreg(), below(32)),
        5 => Operand::new(vreg(), OperandConstraint::Limit(1 << fix(below(5)) as u32), kind, pos),
        _ => Operand::fixed_nonallocatable(preg()),
    }
}
fn alloc() -> Allocation {
    one_of(&[Allocation::none(), Allocation::reg(preg()), Allocation::stack(SpillSlot::new(below(SpillSlot::MAX + 1)))])
}
fn point() -> ProgPoint {
    let i = Inst::new(below(1 << 30));
    one_of(&[ProgPoint::before(i), ProgPoint::after(i)])
}

/// every question about the function has the same answer
fn same(a: &TF, b: &SerializableFunction, code: u32) {
    check(b.num_insts() == a.num_insts(), code);
    check(b.num_blocks() == a.num_blocks(), code);
    check(b.entry_block() == a.entry_block(), code + 1);
    for i in 0..a.num_insts() {
        let i = Inst::new(i);
        check(b.is_ret(i) == a.is_ret(i), code + 2);
        check(b.is_branch(i) == a.is_branch(i), code + 2);
        check(b.inst_clobbers(i) == a.inst_clobbers(i), code + 3);
        let (x, y) = (a.inst_operands(i), b.inst_operands(i));
        check(x.len() == y.len(), code + 4);
        for k in 0..x.len() {
            check(x[k] == y[k], code + 4);
        }
    }
    for n in 0..a.num_blocks() {
        let n = Block::new(n);
        check(b.block_insns(n).first() == a.block_insns(n).first(), code + 5);
        check(b.block_insns(n).len() == a.block_insns(n).len(), code + 5);
        for (x, y) in [(a.block_succs(n), b.block_succs(n)), (a.block_preds(n), b.block_preds(n))] {
            check(x.len() == y.len(), code + 6);
            for k in 0..x.len() {
                check(x[k] == y[k], code + 6);
            }
        }
        let mut v = vec![(a.block_params(n), b.block_params(n))];
        for s in 0..a.block_succs(n).len() {
            let l = a.block_insns(n).last();
            v.push((a.branch_blockparams(n, l, s), b.branch_blockparams(n, l, s)));
        }
        for (x, y) in v {
            check(x.len() == y.len(), code + 7);
            for k in 0..x.len() {
                check(x[k] == y[k], code + 7);
            }
        }
    }
    check(b.num_vregs() == a.num_vregs(), code + 8);
    let (x, y) = (a.debug_value_labels(), b.debug_value_labels());
    check(x.len() == y.len(), code + 9);
    for k in 0..x.len() {
        check((x[k].0 == y[k].0) & (x[k].1 == y[k].1) & (x[k].2 == y[k].2) & (x[k].3 == y[k].3), code + 9);
    }
    for c in [RegClass::Int, RegClass::Float, RegClass::Vector] {
        check(b.spillslot_size(c) == a.spillslot_size(c), code + 10);
    }
    check(b.multi_spillslot_named_by_last_slot() == a.multi_spillslot_named_by_last_slot(), code + 11);
    check(b.allow_multiple_vreg_defs() == a.allow_multiple_vreg_defs(), code + 12);
}
fn same_env(a: &MachineEnv, b: &MachineEnv, code: u32) {
    for c in 0..3 {
        check(a.preferred_regs_by_class[c] == b.preferred_regs_by_class[c], code);
        check(a.non_preferred_regs_by_class[c] == b.non_preferred_regs_by_class[c], code + 1);
        check(a.scratch_by_class[c].is_some() == b.scratch_by_class[c].is_some(), code + 2);
        if let (Some(x), Some(y)) = (a.scratch_by_class[c], b.scratch_by_class[c]) {
            check(x == y, code + 2);
        }
    }
    check(a.fixed_stack_slots.len() == b.fixed_stack_slots.len(), code + 3);
    for k in 0..a.fixed_stack_slots.len() {
        check(a.fixed_stack_slots[k] == b.fixed_stack_slots[k], code + 3);
    }
}

/// params: kind of operands to start with, number of blocks, per block: parameters, successors, instructions
pub fn function() {
    let first = param(0);
    let nb = param(1);
    let mut f = TF { blocks: vec![], insts: vec![], classes: vec![], labels: vec![], sizes: [0; 3], last: flag(), multi: flag(), entry: below(nb) };
    for c in 0..3 {
        f.sizes[c] = bits(64) as usize;
    }
    let mut k = first;
    for b in 0..nb {
        let (np, ns, ni) = (param(2 + 3 * b as u32), param(3 + 3 * b as u32), param(4 + 3 * b as u32));
        let mut bl = Blk { first: f.insts.len(), end: f.insts.len() + ni, ..Default::default() };
        for _ in 0..np {
            bl.params.push(vreg());
        }
        for s in 0..ns {
            bl.succs.push(Block::new(below(nb)));
            bl.preds.push(Block::new(below(nb)));
            bl.args.push((0..(s + b) % 3).map(|_| vreg()).collect());
        }
        for i in 0..ni {
            let mut ins = Ins { clob: set((i + b) % 3), ..Default::default() };
            for _ in 0..(first + i + b) % 3 {
                ins.ops.push(operand(k));
                k += 1;
            }
            let t = flag();
            if i + 1 == ni {
                ins.branch = t;
                ins.ret = !t;
            }
            f.insts.push(ins);
        }
        f.blocks.push(bl);
    }
    for _ in 0..first % 4 {
        f.classes.push(RegClass::Int);
    }
    for _ in 0..first % 3 {
        f.labels.push((vreg(), Inst::new(below(1 << 30)), Inst::new(below(1 << 30)), bits(32) as u32));
    }
    let mut env = MachineEnv {
        preferred_regs_by_class: [set(2), set(1), set(0)],
        non_preferred_regs_by_class: [set(1), set(0), set(2)],
        scratch_by_class: [None, None, None],
        fixed_stack_slots: (0..first % 3).map(|_| preg()).collect(),
    };
    for c in 0..3 {
        if (first + c) % 2 == 1 {
            env.scratch_by_class[c] = Some(PReg::new(below(64), class(c)));
        }
    }
    let s = SerializableFunction::new(&f, env.clone());
    same(&f, &s, 1);
    same_env(&env, s.machine_env(), 20);
    match bincode::serialize(&s) {
        Ok(v) => {
            observe(v.len() as u64);
            match bincode::deserialize::<SerializableFunction>(&v) {
                Ok(r) => {
                    same(&f, &r, 31);
                    same_env(&env, r.machine_env(), 50);
                    cover(1);
                }
                Err(_) => check(false, 61),
            }
        }
        Err(_) => check(false, 60),
    }
}

/// params: operands, moves, debug locations
pub fn output() {
    let (n, m, d) = (param(0), param(1), param(2));
    let mut o = Output::default();
    o.num_spillslots = bits(64) as usize;
    for _ in 0..n {
        o.allocs.push(alloc());
        o.inst_alloc_offsets.push(bits(32) as u32);
    }
    for _ in 0..m {
        o.edits.push((point(), Edit::Move { from: alloc(), to: alloc() }));
    }
    for _ in 0..d {
        o.debug_locations.push((bits(32) as u32, point(), point(), alloc()));
    }
    let v = match bincode::serialize(&o) {
        Ok(v) => v,
        Err(_) => {
            check(false, 60);
            return;
        }
    };
    observe(v.len() as u64);
    match bincode::deserialize::<Output>(&v) {
        Ok(r) => {
            check(r.num_spillslots == o.num_spillslots, 1);
            check((r.allocs.len() == n) & (r.inst_alloc_offsets.len() == n), 2);
            for i in 0..n {
                check(r.allocs[i] == o.allocs[i], 2);
                check(r.inst_alloc_offsets[i] == o.inst_alloc_offsets[i], 3);
            }
            check(r.edits.len() == m, 4);
            for i in 0..m {
                let ((p, Edit::Move { from, to }), (q, Edit::Move { from: f2, to: t2 })) = (&o.edits[i], &r.edits[i]);
                check((p == q) & (from == f2) & (to == t2), 4);
            }
            check(r.debug_locations.len() == d, 5);
            for i in 0..d {
                let (x, y) = (o.debug_locations[i], r.debug_locations[i]);
                check((x.0 == y.0) & (x.1 == y.1) & (x.2 == y.2) & (x.3 == y.3), 5);
            }
            cover(1);
        }
        Err(_) => check(false, 61),
    }
}

/// Walking a block of any result: all instructions in order, every move of the block once, in its place.
/// params: first instruction, number of instructions, instructions in all, moves
pub fn walk() {
    let (s, n, all, m) = (param(0), param(1), param(2), param(3));
    let mut o = Output::default();
    let mut last = 0;
    let mut at = vec![];
    for i in 0..m {
        let p = below(2 * all);
        assume(p >= last);
        last = p;
        at.push(p);
        let inst = Inst::new(p / 2);
        let pt = ite_copy(p % 2 == 0, ProgPoint::before(inst), ProgPoint::after(inst));
        // the destination tells the moves apart
        o.edits.push((pt, Edit::Move { from: Allocation::reg(PReg::new(0, RegClass::Int)), to: Allocation::stack(SpillSlot::new(i)) }));
    }
    let mut k = 0;
    for _ in 0..all {
        o.inst_alloc_offsets.push(k as u32);
        k += pick(3);
    }
    for i in 0..k {
        o.allocs.push(Allocation::stack(SpillSlot::new(i)));
    }
    for i in 0..all {
        let a = o.inst_allocs(Inst::new(i));
        let (x, y) = (o.inst_alloc_offsets[i] as usize, if i + 1 < all { o.inst_alloc_offsets[i + 1] as usize } else { k });
        check(a.len() == y - x, 11);
        for j in 0..a.len() {
            check(a[j] == Allocation::stack(SpillSlot::new(x + j)), 12);
        }
    }
    let mut f = TF { blocks: vec![], insts: vec![], classes: vec![], labels: vec![], sizes: [1; 3], last: false, multi: false, entry: 0 };
    f.blocks.push(Blk { first: 0, end: s, ..Default::default() });
    f.blocks.push(Blk { first: s, end: s + n, ..Default::default() });
    f.blocks.push(Blk { first: s + n, end: all, ..Default::default() });
    let b = Block::new(1);
    let (mut next, mut moves) = (s, at.iter().filter(|&&p| p < 2 * s).count());
    let first = moves;
    let mut steps = 0;
    for x in o.block_insts_and_edits(&f, b) {
        steps += 1;
        check(steps <= n + m, 1);
        match x {
            InstOrEdit::Inst(i) => {
                check(i.index() == next, 2);
                next += 1;
            }
            InstOrEdit::Edit(Edit::Move { to, .. }) => {
                check(moves < m, 3);
                check(to.as_stack().unwrap().index() == moves, 4);
                // before instruction i, or after the one before it
                check(at[moves] / 2 + at[moves] % 2 == next, 5);
                moves += 1;
            }
        }
    }
    check(next == s + n, 6);
    check(moves == at.iter().filter(|&&p| p <= 2 * (s + n - 1)).count(), 7);
    observe(steps as u64);
    cover(1);
    if moves > first {
        cover(2)
    }
}
