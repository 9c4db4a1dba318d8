//! Data structures of the single-pass allocator.
use crate::rt::*;
use regalloc2::verif::fastalloc::*;
use regalloc2::*;

/// Least-recently-used order: after any sequence of uses, the register to go is one never used
/// since the start or else the one whose last use is the oldest, also among a subset.
pub fn lru() {
    let encs = [0usize, 5, 6, 40, 63];
    let n = param(0);
    let steps = param(1);
    let c = [RegClass::Int, RegClass::Float, RegClass::Vector][param(2)];
    let mut set = PRegSet::empty();
    for i in 0..n {
        set.add(PReg::new(encs[i], c));
    }
    let mut l = Lru::new(c, &set);
    check(l.is_empty() == (n == 0), 1);
    if n == 0 {
        cover(1);
        return;
    }
    let mut at = [0usize; 5];
    for k in 0..steps {
        let i = pick(n);
        l.poke(PReg::new(encs[i], c));
        at[i] = k + 1;
        if pick(2) == 1 {
            let p = l.pop();
            let j = encs.iter().position(|&e| e == p.hw_enc());
            check(p.class() == c && j.is_some(), 2);
            let j = j.unwrap();
            check(j < n && (0..n).all(|x| at[j] <= at[x]), 3);
            // looking does not change the order
            check(l.pop() == p, 4);
        }
    }
    let mask = bits(5) as usize;
    let mut from = PRegSet::empty();
    for i in 0..n {
        if fix(mask >> i & 1) == 1 {
            from.add(PReg::new(encs[i], c));
        }
    }
    let want: Vec<usize> = (0..n).filter(|&i| from.contains(PReg::new(encs[i], c))).collect();
    match l.last(from) {
        None => check(want.is_empty(), 5),
        Some(p) => {
            check(p.class() == c && from.contains(p), 6);
            check(want.iter().all(|&x| at[encs.iter().position(|&e| e == p.hw_enc()).unwrap()] <= at[x]), 7);
        }
    }
    check(!l.is_empty(), 8);
    cover(1);
    observe(l.pop().index() as u64);
}

/// The set of live virtual registers holds exactly what was put in and not taken out.
pub fn vset() {
    let n = param(0);
    let steps = param(1);
    let mut s = VRegSet::with_capacity(n);
    let mut held = vec![false; n];
    check(s.is_empty(), 1);
    let v = |i: usize| VReg::new(i, [RegClass::Int, RegClass::Float, RegClass::Vector][i % 3]);
    for _ in 0..steps {
        let i = pick(n);
        if held[i] {
            s.remove(i);
        } else {
            s.insert(v(i));
        }
        held[i] = !held[i];
        let mut times = vec![0; n];
        let mut total = 0;
        for x in s.iter() {
            check(x.vreg() < n && x == v(x.vreg()), 2);
            times[x.vreg()] += 1;
            total += 1;
            if total > n {
                break;
            }
        }
        for i in 0..n {
            check(times[i] == held[i] as usize, 3);
        }
        check(s.is_empty() == held.iter().all(|x| !x), 4);
    }
    cover(1);
    observe(held.iter().filter(|x| **x).count() as u64);
}
