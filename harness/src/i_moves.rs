//! Parallel-move resolution (src/moves.rs).
use crate::rt::*;
use regalloc2::verif::moves::*;
use regalloc2::*;
use smallvec::SmallVec;

type Mv = (Allocation, Allocation, u32);

fn reg(i: usize) -> Allocation {
    Allocation::reg(PReg::new(i, RegClass::Int))
}
fn slot(i: usize) -> Allocation {
    Allocation::stack(SpillSlot::new(i))
}
fn eq(a: Allocation, b: Allocation) -> bool {
    a.bits() == b.bits()
}
fn sel(c: bool, a: Allocation, b: Allocation) -> Allocation {
    ite_copy(c, a, b)
}

/// `n` moves with arbitrary ends among `locs`; destinations differ unless the moves are the same.
/// Labels are 1..=n (the same for the same move).
fn moves(n: usize, locs: &dyn Fn() -> Allocation, sorted: bool) -> Vec<Mv> {
    let mut v: Vec<Mv> = vec![];
    for i in 0..n {
        let (f, t) = (locs(), locs());
        let mut lab = 1 + i as u32;
        for &(f2, t2, l2) in &v {
            assume(!eq(t2, t) | eq(f2, f));
            lab = ite(eq(t2, t), l2 as u64, lab as u64) as u32;
        }
        if sorted && i > 0 {
            assume(v[i - 1].1.bits() < t.bits());
        }
        v.push((f, t, lab));
    }
    v
}
/// where the value that `moves`, done at once, leave in `x` was before
fn want(v: &[Mv], x: Allocation) -> Allocation {
    let mut w = x;
    for &(f, t, _) in v {
        w = sel(eq(t, x), f, w);
    }
    w
}
/// where the value that `moves`, done one after the other, leave in `x` was before
fn got(v: &[Mv], x: Allocation) -> Allocation {
    let mut w = x;
    for &(f, t, _) in v.iter().rev() {
        w = sel(eq(t, w), f, w);
    }
    w
}
fn labels(orig: &[Mv], v: &[Mv], code: u32) {
    for (k, &(_, t, lab)) in v.iter().enumerate() {
        if k >= 64 {
            done();
        }
        // a labelled move puts the value of the move with that label into its destination
        let have = got(&v[..k + 1], t);
        let mut w = have;
        for &(f, _, l) in orig {
            w = sel((l == lab) & (lab != 0), f, w);
        }
        check(eq(have, w), code);
    }
}

pub fn resolve() {
    let n = param(0);
    let sorted = param(1) == 1;
    // registers and spill slots, or any of 2^param(2) places
    let some = [reg(0), slot(0), reg(33), slot(1), reg(1)];
    let locs: &dyn Fn() -> Allocation = &|| match param(2) {
        0 => one_of(&some),
        k => reg(bits(k as u32) as usize),
    };
    let v = moves(n, locs, sorted);
    let mut p = ParallelMoves::<u32>::new();
    for &(f, t, l) in &v {
        p.add(f, t, l);
    }
    let r = p.resolve();
    let x = locs();
    let need = r.needs_scratch();
    let seq: SmallVec<[Mv; 16]> = match &r {
        MoveVecWithScratch::NoScratch(m) => m.iter().cloned().collect(),
        MoveVecWithScratch::Scratch(m) => m.iter().cloned().collect(),
    };
    // the open scratch place is written before it is read, and the result is the parallel one
    check(eq(got(&seq, x), want(&v, x)), 1);
    let mut uses = false;
    for &(f, t, _) in &seq {
        uses |= f.is_none() | t.is_none();
        check(!(f.is_none() & t.is_none()), 2);
    }
    check(!uses | need, 3);
    labels(&v, &seq, 4);
    // with a scratch place named
    let scratch = if param(3) == 0 { reg(40) } else { slot(20) };
    let seq2 = r.clone().with_scratch(scratch);
    check(eq(got(&seq2, x), want(&v, x)), 5);
    for &(f, t, _) in &seq2 {
        check(f.is_some() & t.is_some(), 6);
    }
    match r.without_scratch() {
        None => check(need, 7),
        Some(m) => {
            check(!need, 7);
            check(eq(got(&m, x), want(&v, x)), 8);
        }
    }
    // a scratch place is asked for only when some location's value goes round in a circle
    if need {
        let mut circle = false;
        for s in 0..n {
            let mut l = v[s].1;
            for _ in 0..n {
                l = want(&v, l);
                circle |= eq(l, v[s].1) & !eq(v[s].0, v[s].1);
            }
        }
        check(circle, 9);
        cover(2);
    }
    cover(1);
    observe(seq.len() as u64);
}

pub fn scratch() {
    let n = param(0);
    let nfree = param(1);
    // registers and spill slots, or registers of which the upper half stand for stack slots
    let some = [reg(0), slot(0), reg(1), slot(1), reg(50)];
    let locs: &dyn Fn() -> Allocation = &|| match param(2) {
        0 => one_of(&some),
        k => reg((bits(1) << 5 | bits(k as u32)) as usize),
    };
    let v = moves(n, locs, true);
    let mut p = ParallelMoves::<u32>::new();
    for &(f, t, l) in &v {
        p.add(f, t, l);
    }
    let r = p.resolve();
    let is_stack = |a: Allocation| a.is_stack() || a.as_reg().map_or(false, |p| p.hw_enc() >= 32);
    let mut given = 0;
    let mut slots = 0;
    let borrowed = pick(3);
    let borrowed = [0usize, 1, 5][borrowed];
    let out = MoveAndScratchResolver {
        find_free_reg: || {
            if given < nfree {
                given += 1;
                Some(reg(9 + given))
            } else {
                None
            }
        },
        get_stackslot: || {
            slots += 1;
            slot(29 + slots)
        },
        is_stack_alloc: is_stack,
        borrowed_scratch_reg: PReg::new(borrowed, RegClass::Int),
    }
    .compute(r);
    let x = if param(2) == 0 { one_of(&[reg(0), slot(0), reg(1), slot(1), reg(50), reg(5), slot(2)]) } else { reg(below(64)) };
    for k in 0..nfree {
        assume(!eq(x, reg(10 + k)));
    }
    check(eq(got(&out, x), want(&v, x)), 1);
    for &(f, t, _) in &out {
        check(!(is_stack(f) && is_stack(t)), 2);
        check(f.is_some() & t.is_some(), 3);
    }
    labels(&v, &out, 4);
    cover(1);
    if out.len() > v.len() {
        cover(2);
    }
    observe(out.len() as u64);
}
