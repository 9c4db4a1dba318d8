//! The symbolic checker (src/checker.rs).
use crate::alloc::*;
use crate::oracle::*;
use crate::rt::*;
use crate::tf::*;
use regalloc2::checker::Checker;
use regalloc2::*;

/// the checker hashes operands and vregs: case-split on their encodings
fn concrete(c: &mut Case) {
    for i in &mut c.f.insts {
        for o in &mut i.ops {
            // (no public constructor from bits: rebuild from its parts)
            let o1 = *o;
            if o1.as_fixed_nonallocatable().is_some() {
                continue;
            }
            let v = vreg(o1.vreg());
            let kind = if fix(o1.kind() as usize) == OperandKind::Def as usize { OperandKind::Def } else { OperandKind::Use };
            let pos = if fix(o1.pos() as usize) == OperandPos::Early as usize { OperandPos::Early } else { OperandPos::Late };
            let k = match o1.constraint() {
                OperandConstraint::FixedReg(p) => OperandConstraint::FixedReg(PReg::from_index(fix(p.index()))),
                OperandConstraint::Reuse(i) => OperandConstraint::Reuse(fix(i)),
                OperandConstraint::Limit(n) => OperandConstraint::Limit(fix(n)),
                x => x,
            };
            *o = Operand::new(v, k, kind, pos);
        }
        let mut s = PRegSet::empty();
        for n in 0..48 {
            if fix(i.clob.contains(reg(n)) as usize) == 1 {
                s.add(reg(n))
            }
        }
        i.clob = s;
    }
    for b in &mut c.f.blocks {
        for a in b.args.iter_mut().flatten() {
            *a = vreg(*a);
        }
    }
}
fn vreg(v: VReg) -> VReg {
    let n = fix(v.bits());
    VReg::new(n >> 2, class(n & 3))
}

fn verdict(c: &Case, out: &Output) -> bool {
    let mut ck = Checker::new(&c.f, &c.env);
    ck.prepare(out);
    let r = ck.run();
    crate::rt::note(&|| format!("{:?}\n{:?}\nchecker: {:?}", out.allocs, out.edits, r));
    r.is_ok()
}

/// The checker accepts what the allocator produces.
/// params: algorithm, unused, skeleton
pub fn accept() {
    let mut c = parse(&skeleton(2));
    if c.filter {
        assume(legal(&c));
    }
    concrete(&mut c);
    crate::rt::note(&|| describe(&c));
    match run(&c.f, &c.env, &opts(param(0))) {
        Ok(out) => {
            observe_out(&out);
            let ok = verdict(&c, &out);
            if !ok && Orc::judge(&c, &out, C_FLOW | C_CONSTR | C_INTERF | C_EDITS) != 0 {
                // the allocator's fault
                cover(9);
                done()
            }
            check(ok, 1);
            cover(1);
            if !out.edits.is_empty() {
                cover(2)
            }
        }
        Err(_) => cover(4),
    }
}

/// every register of the env of class `cl`, then `slots` spill slots
fn places(c: &Case, cl: usize, slots: usize) -> Vec<Allocation> {
    let mut v = vec![];
    for p in c.env.preferred_regs_by_class[cl] | c.env.non_preferred_regs_by_class[cl] {
        v.push(Allocation::reg(p))
    }
    for &p in &c.env.fixed_stack_slots {
        if p.class() as usize == cl {
            v.push(Allocation::reg(p))
        }
    }
    for s in 0..slots {
        v.push(Allocation::stack(SpillSlot::new(s * c.f.sizes[cl])))
    }
    v
}

/// Ok exactly when values flow and constraints hold, among outputs where the operands of each
/// instruction are kept apart (which the checker does not look at)
fn agree(c: &Case, out: &Output, dir: usize) {
    let apart = Orc::judge(c, out, C_INTERF) == 0;
    if !apart {
        done()
    }
    let why = Orc::judge(c, out, C_FLOW | C_CONSTR | C_EDITS);
    let ok = verdict(c, out);
    crate::rt::note(&|| format!("oracle: {}", why));
    observe(why as u64);
    observe(ok as u64);
    if dir == 0 {
        check(!ok || why == 0, 2);
    } else {
        check(ok || why != 0, 3);
    }
    cover(if why == 0 { 1 } else { 2 });
    match why / 100 {
        1 => cover(3),
        2 => cover(4),
        4 => cover(5),
        _ => {}
    }
}

fn offsets(c: &Case) -> Vec<u32> {
    let mut n = 0;
    c.f.insts
        .iter()
        .map(|i| {
            let r = n;
            n += i.ops.len() as u32;
            r
        })
        .collect()
}

/// points where an edit may be: before each instruction and after each that ends no block
fn points(c: &Case) -> Vec<ProgPoint> {
    let mut v = vec![];
    for (i, ins) in c.f.insts.iter().enumerate() {
        v.push(ProgPoint::before(Inst::new(i)));
        if !ins.branch && !ins.ret {
            v.push(ProgPoint::after(Inst::new(i)));
        }
    }
    v
}

/// Any output at all.
/// params: slots, edits + 8 * direction, skeleton (values of class int)
pub fn judge() {
    let (slots, edits, dir) = (param(0), param(1) & 7, param(1) >> 3);
    let mut c = parse(&skeleton(2));
    if c.filter {
        assume(legal(&c));
    }
    concrete(&mut c);
    crate::rt::note(&|| describe(&c));
    let pl = places(&c, 0, slots);
    let mut out = Output::default();
    out.num_spillslots = slots;
    out.inst_alloc_offsets = offsets(&c);
    for i in &c.f.insts {
        for o in &i.ops {
            out.allocs.push(match o.as_fixed_nonallocatable() {
                Some(p) if pick(2) == 0 => Allocation::reg(p),
                Some(_) => pl[0],
                None => pl[pick(pl.len())],
            });
        }
    }
    let pts = points(&c);
    let mut from = 0;
    for _ in 0..edits {
        // None: fewer edits
        from += pick(pts.len() + 1 - from);
        if from == pts.len() {
            break;
        }
        let (a, b) = (pick(pl.len()), pick(pl.len()));
        if a == b {
            done()
        }
        out.edits.push((pts[from], Edit::Move { from: pl[a], to: pl[b] }));
    }
    agree(&c, &out, dir);
}

/// The allocator's output with changes.
/// params: algorithm + 2 * number of changes, 8 * direction, skeleton
pub fn mutant() {
    let (alg, changes, dir) = (param(0) & 1, param(0) >> 1, param(1) >> 3);
    let mut c = parse(&skeleton(2));
    if c.filter {
        assume(legal(&c));
    }
    concrete(&mut c);
    crate::rt::note(&|| describe(&c));
    let Ok(mut out) = run(&c.f, &c.env, &opts(alg)) else {
        cover(4);
        done()
    };
    let cl = 0;
    // one slot more than there are
    out.num_spillslots += c.f.sizes[cl];
    let pl = places(&c, cl, out.num_spillslots / c.f.sizes[cl]);
    let pts = points(&c);
    for _ in 0..changes {
        let (na, ne) = (out.allocs.len(), out.edits.len());
        match pick(6) {
            0 if na > 0 => out.allocs[pick(na)] = pl[pick(pl.len())],
            1 if ne > 0 => {
                out.edits.remove(pick(ne));
            }
            2 if ne > 0 => {
                let k = pick(ne);
                let Edit::Move { from, .. } = out.edits[k].1;
                let to = pl[pick(pl.len())];
                if from == to {
                    done()
                }
                out.edits[k].1 = Edit::Move { from, to };
            }
            3 if ne > 0 => {
                let k = pick(ne);
                let Edit::Move { to, .. } = out.edits[k].1;
                let from = pl[pick(pl.len())];
                if from == to {
                    done()
                }
                out.edits[k].1 = Edit::Move { from, to };
            }
            4 if ne > 1 => {
                // order at one point, or across points
                let k = pick(ne - 1);
                let (a, b) = (out.edits[k].1.clone(), out.edits[k + 1].1.clone());
                out.edits[k].1 = b;
                out.edits[k + 1].1 = a;
            }
            5 => {
                let p = pts[pick(pts.len())];
                let (a, b) = (pick(pl.len()), pick(pl.len()));
                if a == b {
                    done()
                }
                let mut k = 0;
                while k < ne && out.edits[k].0 <= p {
                    k += 1
                }
                out.edits.insert(k, (p, Edit::Move { from: pl[a], to: pl[b] }));
            }
            _ => done(),
        }
    }
    agree(&c, &out, dir);
}
