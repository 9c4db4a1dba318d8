//! Whole-allocator harnesses (public API only).
//! params: 0 algorithm (0 ion, 1 fastalloc), 1 category mask, 2 length of the skeleton text, then the
//! text, 8 bytes per parameter
use crate::oracle::*;
use crate::rt::*;
use crate::tf::*;
use regalloc2::*;

pub fn opts(alg: usize) -> RegallocOptions {
    RegallocOptions {
        verbose_log: false,
        validate_ssa: true,
        algorithm: if alg == 0 { Algorithm::Ion } else { Algorithm::Fastalloc },
    }
}

pub fn observe_out(o: &Output) {
    let mut h = o.num_spillslots as u64;
    for a in &o.allocs {
        h = h.wrapping_mul(31).wrapping_add(a.bits() as u64);
    }
    observe(h);
    for (p, e) in &o.edits {
        let Edit::Move { from, to } = e;
        h = h.wrapping_mul(31).wrapping_add(p.to_index() as u64);
        h = h.wrapping_mul(31).wrapping_add(from.bits() as u64);
        h = h.wrapping_mul(31).wrapping_add(to.bits() as u64);
    }
    observe(h);
}

pub fn skeleton(at: u32) -> Vec<u8> {
    let n = param(at);
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push((param(at + 1 + (i / 8) as u32) >> (i % 8 * 8)) as u8)
    }
    v
}

pub fn alloc() {
    let c = parse(&skeleton(2));
    let alg = param(0);
    let mask = param(1) as u32;
    if c.filter {
        assume(if mask & C_OVER != 0 { formed(&c) } else { legal(&c) });
    }
    crate::rt::note(&|| describe(&c));
    match run(&c.f, &c.env, &opts(alg)) {
        Ok(out) => {
            crate::rt::note(&|| format!("{:?}\n{:?}\n{:?}", out.allocs, out.edits, out.debug_locations));
            #[cfg(panic = "unwind")]
            crate::rt::note(&|| {
                let mut ck = regalloc2::checker::Checker::new(&c.f, &c.env);
                ck.prepare(&out);
                format!("regalloc2's own checker: {:?}", ck.run())
            });
            observe_out(&out);
            Orc::new(&c, &out, mask).run();
            cover(1);
            if !out.edits.is_empty() {
                cover(2)
            }
            if out.num_spillslots > 0 {
                cover(3)
            }
        }
        Err(e) => {
            crate::rt::note(&|| format!("{:?}", e));
            // giving up is acceptable only when registers are tight
            if mask & C_ERR != 0 {
                check(matches!(e, RegAllocError::TooManyLiveRegs), 802);
                check(!slack(&c, alg), 801);
            }
            cover(4)
        }
    }
}

pub fn describe(c: &Case) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    let _ = writeln!(s, "{:?}", c.env);
    let mut b = 0;
    for (i, ins) in c.f.insts.iter().enumerate() {
        for (j, bl) in c.f.blocks.iter().enumerate() {
            if bl.first == i {
                let _ = writeln!(s, "b{} {:?} -> {:?} {:?}", j, bl.params, bl.succs, bl.args);
            }
        }
        b += 1;
        let _ = writeln!(s, "  i{}: {:?} clob {:?}{}", i, ins.ops, ins.clob, if ins.branch { " br" } else if ins.ret { " ret" } else { "" });
    }
    let _ = writeln!(s, "labels {:?} n {}", c.f.labels, b);
    s
}

fn same(a: &Output, b: &Output) {
    check(a.num_spillslots == b.num_spillslots, 1);
    check(a.inst_alloc_offsets == b.inst_alloc_offsets, 2);
    check(a.allocs.len() == b.allocs.len(), 3);
    for i in 0..a.allocs.len() {
        check(a.allocs[i].bits() == b.allocs[i].bits(), 4);
    }
    check(a.edits.len() == b.edits.len(), 5);
    for i in 0..a.edits.len() {
        let ((p, Edit::Move { from, to }), (p2, Edit::Move { from: f2, to: t2 })) = (&a.edits[i], &b.edits[i]);
        check(p == p2, 6);
        check(from.bits() == f2.bits() && to.bits() == t2.bits(), 7);
    }
    check(a.debug_locations.len() == b.debug_locations.len(), 8);
    for i in 0..a.debug_locations.len() {
        let ((l, s, e, a), (l2, s2, e2, a2)) = (a.debug_locations[i], b.debug_locations[i]);
        check(l == l2 && s == s2 && e == e2 && a.bits() == a2.bits(), 9);
    }
}

/// A context used before gives what a fresh one gives.
/// params: algorithm of the earlier run + 2 * algorithm, number of earlier runs, skeletons
pub fn reuse() {
    let (a0, a1) = (param(0) & 1, param(0) >> 1);
    let n = param(1);
    let mut at = 2;
    let mut cs = vec![];
    for _ in 0..=n {
        let t = skeleton(at);
        at += 1 + (t.len() as u32 + 7) / 8;
        let c = parse(&t);
        if c.filter {
            assume(legal(&c));
        }
        crate::rt::note(&|| describe(&c));
        cs.push(c);
    }
    let mut ctx = Ctx::default();
    for c in &cs[..n] {
        match run_with_ctx(&c.f, &c.env, &opts(a0), &mut ctx) {
            Ok(_) => cover(3),
            Err(e) => {
                crate::rt::note(&|| format!("earlier run: {:?}", e));
                cover(4)
            }
        }
    }
    let c = &cs[n];
    let fresh = run(&c.f, &c.env, &opts(a1));
    match (run_with_ctx(&c.f, &c.env, &opts(a1), &mut ctx), &fresh) {
        (Ok(a), Ok(b)) => {
            crate::rt::note(&|| format!("reused {:?} {:?}\nfresh {:?} {:?}", a.allocs, a.edits, b.allocs, b.edits));
            observe_out(a);
            same(a, b);
            cover(1);
            // and once more
            if let Ok(d) = run_with_ctx(&c.f, &c.env, &opts(a1), &mut ctx) {
                same(d, b);
            } else {
                check(false, 10);
            }
        }
        (Err(a), Err(b)) => {
            check(core::mem::discriminant(&a) == core::mem::discriminant(b), 11);
            cover(2)
        }
        _ => check(false, 12),
    }
}

/// Values that are used before they are given are reported.
/// params: algorithm, validate, skeleton
pub fn undefined() {
    let alg = param(0);
    let validate = param(1) == 1;
    let c = parse(&skeleton(2));
    if c.filter {
        assume(legal(&c));
    }
    crate::rt::note(&|| describe(&c));
    // liveness, as many rounds as blocks
    let nb = c.f.blocks.len();
    let mut live = vec![0u64; nb];
    for _ in 0..nb {
        for b in (0..nb).rev() {
            let bl = &c.f.blocks[b];
            let mut m = 0;
            for (k, s) in bl.succs.iter().enumerate() {
                let mut x = live[s.index()];
                for p in &c.f.blocks[s.index()].params {
                    x &= !(1 << p.vreg());
                }
                for a in &bl.args[k] {
                    x |= 1 << a.vreg();
                }
                m |= x;
            }
            for i in (bl.first..bl.end).rev() {
                for o in &c.f.insts[i].ops {
                    if o.as_fixed_nonallocatable().is_none() && o.kind() == OperandKind::Def {
                        m &= !(1 << o.vreg().vreg());
                    }
                }
                for o in &c.f.insts[i].ops {
                    if o.as_fixed_nonallocatable().is_none() && o.kind() == OperandKind::Use {
                        m |= 1 << o.vreg().vreg();
                    }
                }
            }
            live[b] = m & !bl.params.iter().fold(0, |a, p| a | 1 << p.vreg());
        }
    }
    let bad = live[c.f.entry] != 0;
    let mut o = opts(alg);
    o.validate_ssa = validate;
    let r = run(&c.f, &c.env, &o);
    crate::rt::note(&|| format!("{:?}", r.as_ref().err()));
    if !validate {
        check(matches!(r, Err(RegAllocError::EntryLivein)) == bad, 1);
    } else if bad {
        check(matches!(r, Err(RegAllocError::SSA(..))), 2);
    }
    observe(match r {
        Ok(_) => 0,
        Err(RegAllocError::EntryLivein) => 1,
        Err(RegAllocError::SSA(..)) => 2,
        _ => 3,
    });
    cover(if bad { 1 } else { 2 });
}
