//! Register traversal order and requirement merging (src/ion).
use crate::rt::*;
use regalloc2::verif::ion::{reg_traversal::*, requirement::*};
use regalloc2::*;

pub fn traverse() {
    let encs = [0usize, 1, 2, 31, 32, 62];
    let n = param(0);
    let c = [RegClass::Int, RegClass::Float, RegClass::Vector][param(1)];
    let mut env = MachineEnv {
        preferred_regs_by_class: [PRegSet::empty(); 3],
        non_preferred_regs_by_class: [PRegSet::empty(); 3],
        scratch_by_class: [None; 3],
        fixed_stack_slots: vec![],
    };
    // every register is preferred, not preferred, or not allocatable
    let mut group = [0usize; 6];
    for i in 0..n {
        let p = PReg::new(encs[i], c);
        group[i] = pick(3);
        if group[i] == 1 {
            env.preferred_regs_by_class[c as usize].add(p);
        } else if group[i] == 2 {
            env.non_preferred_regs_by_class[c as usize].add(p);
        }
    }
    // registers of other classes never appear
    env.preferred_regs_by_class[(c as usize + 1) % 3].add(PReg::new(3, [RegClass::Float, RegClass::Vector, RegClass::Int][c as usize]));
    let any = |i: usize| PReg::new(encs[i], c);
    let hint = if pick(2) == 1 { Some(any(pick(n))) } else { None };
    let fixed = if param(2) == 1 { Some(any(pick(n))) } else { None };
    let limit = if pick(2) == 1 { Some(1usize << pick(7)) } else { None };
    let offset = bits(20) as usize;
    let mut got: Vec<PReg> = vec![];
    let mut it = RegTraversalIter::new(&env, c, fixed, hint, offset, limit);
    while let Some(p) = it.next() {
        got.push(p);
        if got.len() > 8 {
            break;
        }
    }
    check(it.next().is_none(), 1);
    if let Some(f) = fixed {
        check(got.len() == 1 && got[0] == f, 2);
        cover(3);
        return;
    }
    let ok = |p: PReg| p.hw_enc() < limit.unwrap_or(64);
    for i in 0..n {
        let p = any(i);
        let times = got.iter().filter(|&&x| x == p).count();
        let want = (group[i] != 0 || hint == Some(p)) && ok(p);
        check(times == want as usize, 3);
    }
    for (k, &p) in got.iter().enumerate() {
        check(p.class() == c && encs[..n].contains(&p.hw_enc()), 4);
        check(ok(p), 5);
        // the hint comes first, then preferred registers, then the others
        if Some(p) == hint {
            check(k == 0, 6);
        }
        if k > 0 && Some(got[k - 1]) != hint {
            let g = |p: PReg| group[encs.iter().position(|&e| e == p.hw_enc()).unwrap()];
            check(g(got[k - 1]) <= g(p), 7);
        }
    }
    cover(1);
    if hint.is_some() && got.len() > 2 {
        cover(2);
    }
    observe(got.len() as u64);
}

/// the merged requirement admits exactly the places both admit
pub fn merge() {
    let any = || {
        let p = PReg::new(below(64), RegClass::Int);
        match pick(6) {
            0 => Requirement::Any,
            1 => Requirement::Register,
            2 => Requirement::FixedReg(p),
            3 => Requirement::Limit(1 << pick(7)),
            4 => Requirement::Stack,
            _ => Requirement::FixedStack(p),
        }
    };
    let (a, b) = (any(), any());
    // a place: a register, a spill slot or a register that stands for a stack slot
    let kind = pick(3);
    let x = PReg::new(below(64), RegClass::Int);
    let admits = |r: Requirement| match r {
        Requirement::Any => true,
        Requirement::Register => kind == 0,
        Requirement::FixedReg(p) => (kind == 0) & (p == x),
        Requirement::Limit(n) => (kind == 0) & (x.hw_enc() < n),
        Requirement::Stack => kind != 0,
        Requirement::FixedStack(p) => (kind == 2) & (p == x),
    };
    match a.merge(b) {
        Ok(r) => {
            check(admits(r) == (admits(a) & admits(b)), 1);
            cover(1);
        }
        Err(_) => {
            check(!(admits(a) & admits(b)), 2);
            cover(2);
        }
    }
    check(!a.is_stack() | !admits(a) | (kind != 0), 3);
    check(!a.is_reg() | !admits(a) | (kind == 0), 4);
    check(a.is_stack() | a.is_reg() | (a == Requirement::Any), 5);
    observe(kind as u64);
}
