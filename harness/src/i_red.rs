//! Redundant-move elimination (src/ion/redundant_moves.rs).
use crate::rt::*;
use regalloc2::verif::ion::redundant_moves::*;
use regalloc2::*;

/// Any sequence of moves (optionally labelled with the virtual register whose value they carry),
/// overwritten locations and forgotten states: an elided move must already be in effect.
pub fn elide() {
    let steps = param(0);
    let nreg = param(1);
    let nslot = param(2);
    let nl = nreg + nslot;
    let loc = |i: usize| {
        if i < nreg {
            Allocation::reg(PReg::new(3 + i, RegClass::Int))
        } else {
            Allocation::stack(SpillSlot::new(i - nreg))
        }
    };
    let mut fresh = 0;
    let mut token = || {
        fresh += 1;
        bits(16)
    };
    let mut held: Vec<u64> = (0..nl).map(|_| token()).collect();
    let value = [token(), token()];
    let mut e = RedundantMoveEliminator::default();
    let mut elided = 0;
    for _ in 0..steps {
        let op = pick(nl * nl + nl + 1);
        if op < nl * nl {
            let (f, t) = (op / nl, op % nl);
            let lab = pick(3);
            if lab > 0 {
                assume(held[f] == value[lab - 1]);
            }
            let l = if lab > 0 { Some(VReg::new(lab, RegClass::Int)) } else { None };
            if e.process_move(loc(f), loc(t), l).elide {
                check(held[t] == held[f], 1);
                elided += 1;
                if f != t {
                    cover(2);
                }
            }
            held[t] = held[f];
        } else if op < nl * nl + nl {
            let a = op - nl * nl;
            e.clear_alloc(loc(a));
            held[a] = token();
        } else {
            e.clear();
            for h in held.iter_mut() {
                *h = token();
            }
        }
    }
    cover(1);
    observe(elided);
}
