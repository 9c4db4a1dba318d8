//! Packed encodings and register sets (src/lib.rs, src/index.rs), public interface only.
use crate::rt::*;
use regalloc2::*;

fn class() -> RegClass {
    one_of(&[RegClass::Int, RegClass::Float, RegClass::Vector])
}
fn preg() -> PReg {
    PReg::new(below(64), class())
}
fn preg_in(c: RegClass) -> PReg {
    PReg::new(below(64), c)
}

/// registers, virtual registers, stack slots, allocations
pub fn regs() {
    let (c, x) = (class(), below(64));
    let p = PReg::new(x, c);
    check(p.hw_enc() == x, 1);
    check(p.class() == c, 2);
    check(p.index() < PReg::NUM_INDEX, 3);
    check(PReg::from_index(p.index()) == p, 4);
    let q = preg();
    check((p == q) == ((p.hw_enc() == q.hw_enc()) & (p.class() == q.class())), 5);
    check((p.index() == q.index()) == (p == q), 6);
    check(p.as_valid() == if p == PReg::invalid() { None } else { Some(p) }, 7);

    let n = below(VReg::MAX + 1);
    let v = VReg::new(n, c);
    check(v.vreg() == n, 8);
    check(v.class() == c, 9);
    check(VReg::from_bits(v.bits() as u32) == v, 10);
    check(VReg::from(v.bits() as u32) == v, 10);
    let w = VReg::new(below(VReg::MAX + 1), class());
    check((v == w) == ((v.vreg() == w.vreg()) & (v.class() == w.class())), 11);

    let s = below(SpillSlot::MAX + 1);
    let slot = SpillSlot::new(s);
    check(slot.index() == s, 12);
    check(slot.is_valid() & !slot.is_invalid(), 13);
    check(SpillSlot::invalid().is_invalid() & !SpillSlot::invalid().is_valid(), 13);
    let d = below(1 << 10);
    assume(s + d <= SpillSlot::MAX);
    check(slot.plus(d).index() == s + d, 14);

    for (k, a) in [Allocation::none(), Allocation::reg(p), Allocation::stack(slot)].iter().enumerate() {
        check(a.is_none() == (k == 0), 15);
        check(a.is_some() == (k != 0), 15);
        check(a.is_reg() == (k == 1), 16);
        check(a.is_stack() == (k == 2), 17);
        check(a.as_reg() == if k == 1 { Some(p) } else { None }, 18);
        check(a.as_stack() == if k == 2 { Some(slot) } else { None }, 19);
        check(Allocation::from_bits(a.bits()) == *a, 20);
        check(a.kind() as u8 == k as u8, 21);
        if k > 0 {
            check(a.index() == if k == 1 { p.index() } else { s }, 22);
        }
    }
    check((Allocation::reg(p) == Allocation::reg(q)) == (p == q), 23);
    cover(1);
    observe(p.index() as u64 + v.bits() as u64 + Allocation::stack(slot).bits() as u64);
}

/// operands: what goes in comes out, for every constraint
pub fn operand() {
    let c = class();
    let v = VReg::new(below(VReg::MAX + 1), c);
    let p = preg_in(c);
    let idx = below(32);
    let kind = one_of(&[OperandKind::Def, OperandKind::Use]);
    let pos = one_of(&[OperandPos::Early, OperandPos::Late]);
    use OperandConstraint::*;
    use OperandKind::*;
    use OperandPos::*;
    let k = param(0);
    let con = match k {
        0 => Any,
        1 => Reg,
        2 => Stack,
        3 => FixedReg(p),
        4 => Reuse(idx),
        _ => Limit(1 << pick(7)),
    };
    let o = Operand::new(v, con, kind, pos);
    let same = |o: Operand, con: OperandConstraint, kind: OperandKind, pos: OperandPos, code: u32| {
        check(o.vreg() == v, code);
        check(o.class() == c, code + 1);
        check(o.constraint() == con, code + 2);
        check(o.kind() == kind, code + 3);
        check(o.pos() == pos, code + 4);
    };
    same(o, con, kind, pos, 1);
    same(Operand::from_bits(o.bits()), con, kind, pos, 6);
    check(Operand::from_bits(o.bits()) == o, 11);
    // distinct contents, distinct operands
    let v2 = VReg::new(below(VReg::MAX + 1), c);
    let kind2 = one_of(&[OperandKind::Def, OperandKind::Use]);
    let pos2 = one_of(&[OperandPos::Early, OperandPos::Late]);
    let o2 = Operand::new(v2, con, kind2, pos2);
    check((o == o2) == ((v == v2) & (kind == kind2) & (pos == pos2)), 12);
    let fixed = k == 3 && v.vreg() == VReg::MAX;
    check(o.as_fixed_nonallocatable() == if fixed { Some(p) } else { None }, 13);
    if k == 0 {
        same(Operand::reg_use(v), Reg, Use, Early, 20);
        same(Operand::reg_use_at_end(v), Reg, Use, Late, 25);
        same(Operand::reg_def(v), Reg, Def, Late, 30);
        same(Operand::reg_def_at_start(v), Reg, Def, Early, 35);
        same(Operand::reg_temp(v), Reg, Def, Early, 40);
        same(Operand::reg_reuse_def(v, idx), Reuse(idx), Def, Late, 45);
        same(Operand::reg_fixed_use(v, p), FixedReg(p), Use, Early, 50);
        same(Operand::reg_fixed_def(v, p), FixedReg(p), Def, Late, 55);
        same(Operand::reg_fixed_use_at_end(v, p), FixedReg(p), Use, Late, 60);
        same(Operand::reg_fixed_def_at_start(v, p), FixedReg(p), Def, Early, 65);
        same(Operand::any_use(v), Any, Use, Early, 70);
        same(Operand::any_def(v), Any, Def, Late, 75);
        let f = Operand::fixed_nonallocatable(p);
        check(f.as_fixed_nonallocatable() == Some(p), 80);
        check(f.class() == c, 81);
        check(f.kind() == Use, 82);
    }
    cover(1);
    observe(o.bits());
}

/// program points and instruction ranges
pub fn points() {
    let max = (1usize << 30) - 1;
    let (i, j) = (below(max), below(max));
    let pos = |b: bool| ite_copy(b, InstPosition::After, InstPosition::Before);
    let (a, b) = (flag(), flag());
    let p = ProgPoint::new(Inst::new(i), pos(a));
    let q = ProgPoint::new(Inst::new(j), pos(b));
    check(p.inst().index() == i, 1);
    check((p.pos() == InstPosition::After) == a, 2);
    // order: by instruction, before first
    check((p < q) == ((i < j) | ((i == j) & !a & b)), 3);
    check((p == q) == ((i == j) & (a == b)), 4);
    check(ProgPoint::before(Inst::new(i)) == ProgPoint::new(Inst::new(i), InstPosition::Before), 5);
    check(ProgPoint::after(Inst::new(i)) == ProgPoint::new(Inst::new(i), InstPosition::After), 6);
    check(ProgPoint::from_index(p.to_index()) == p, 7);
    // next is the least point above
    let n = p.next();
    check(n > p, 8);
    check(!((q > p) & (q < n)), 9);
    check(n.prev() == p, 10);
    check(p != ProgPoint::invalid(), 11);
    check(ProgPoint::invalid().inst().is_invalid(), 12);

    let len = below(6);
    let from = below(1 << 20);
    let r = InstRange::new(Inst::new(from), Inst::new(from + len));
    check(r.len() == len, 20);
    let mut k = 0;
    for x in r.iter() {
        check(x.index() == from + k, 21);
        k += 1;
    }
    check(k == len, 22);
    let mut k = len;
    for x in r.iter().rev() {
        k -= 1;
        check(x.index() == from + k, 23);
    }
    check(k == 0, 24);
    if len > 0 {
        check(r.first().index() == from, 25);
        check(r.last().index() == from + len - 1, 26);
        check(r.rest().len() == len - 1, 27);
        if len > 1 {
            check(r.rest().first().index() == from + 1, 28);
        }
        cover(2);
    }
    let x = Inst::new(i);
    check(x.next().index() == i + 1, 29);
    check(x.next().prev() == x, 30);
    check(x.is_valid() & !x.is_invalid(), 31);
    check(Block::invalid().is_invalid() & !Block::invalid().is_valid(), 32);
    cover(1);
    observe(p.to_index() as u64);
}

/// register sets: membership after every operation, for an arbitrary register
pub fn set() {
    let (k, l) = (param(0), param(1));
    let mut s = PRegSet::empty();
    let mut t = PRegSet::empty();
    let q = preg();
    let (mut ins, mut int) = (false, false);
    check(!s.contains(q), 1);
    for _ in 0..k {
        let p = preg();
        s.add(p);
        ins |= p == q;
        check(s.contains(q) == ins, 2);
    }
    for _ in 0..l {
        let p = preg();
        t = t.with(p);
        int |= p == q;
        check(t.contains(q) == int, 3);
    }
    let mut u = s;
    u.union_from(t);
    check(u.contains(q) == (ins | int), 4);
    check((s | t).contains(q) == (ins | int), 5);
    let mut u = s;
    u.intersect_from(t);
    check(u.contains(q) == (ins & int), 6);
    check((s & t).contains(q) == (ins & int), 7);
    check(s.invert().contains(q) == !ins, 8);
    check((s & t.invert()).contains(q) == (ins & !int), 9);
    let r = preg();
    let mut u = s;
    u.remove(r);
    check(u.contains(q) == (ins & (q != r)), 10);
    let mut u = s;
    u.add_up_to(r);
    check(u.contains(q) == (ins | (q.index() < r.index())), 11);
    let mut u = PRegSet::empty();
    u.add_up_to(r);
    check(u.contains(q) == (q.index() < r.index()), 12);
    check(!ins | !s.is_empty(q.class()), 13);
    cover(1);
    observe(ins as u64);
}

/// register sets: size, iteration, largest member
pub fn set_iter() {
    let k = param(0);
    // either arbitrary registers, or case by case among the ends and the middle of each class
    let some = param(2) == 1;
    let m: Vec<PReg> = (0..k)
        .map(|_| if some { PReg::new([0, 1, 31, 63][pick(4)], [RegClass::Int, RegClass::Float, RegClass::Vector][pick(3)]) } else { preg() })
        .collect();
    let s = if param(1) == 0 {
        m.iter().cloned().collect::<PRegSet>()
    } else {
        let mut e = MachineEnv {
            preferred_regs_by_class: [PRegSet::empty(); 3],
            non_preferred_regs_by_class: [PRegSet::empty(); 3],
            scratch_by_class: [None; 3],
            fixed_stack_slots: vec![],
        };
        for (i, p) in m.iter().enumerate() {
            let c = fix(p.class() as usize);
            if i % 2 == 0 {
                e.preferred_regs_by_class[c].add(*p);
            } else {
                e.non_preferred_regs_by_class[c].add(*p);
            }
        }
        PRegSet::from(&e)
    };
    let mut distinct = 0;
    for i in 0..k {
        let mut new = true;
        for j in 0..i {
            new &= m[j] != m[i];
        }
        distinct += new as u32;
    }
    check(s.len() == distinct, 1);
    let mut n = 0;
    let mut last: Option<PReg> = None;
    for p in &s {
        let mut member = false;
        for x in &m {
            member |= *x == p;
        }
        check(member, 2);
        check(last.map_or(true, |l| l.index() < p.index()), 3);
        last = Some(p);
        n += 1;
        if n > k as u32 {
            break;
        }
    }
    check(n == distinct, 4);
    check(s.max_preg() == last, 5);
    for c in [RegClass::Int, RegClass::Float, RegClass::Vector] {
        let mut any = false;
        for x in &m {
            any |= x.class() == c;
        }
        check(s.is_empty(c) == !any, 6);
    }
    let n2 = s.into_iter().count() as u32;
    check(n2 == distinct, 7);
    cover(1);
    observe(s.len() as u64);
}
