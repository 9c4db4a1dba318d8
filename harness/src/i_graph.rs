//! Postorder and dominator tree (src/postorder.rs, src/domtree.rs).
use crate::rt::*;
use regalloc2::verif::{domtree, postorder};
use regalloc2::*;

/// successor lists: block i has param(1 + i) successors, arbitrary targets below `n + extra`
fn graph(n: usize, extra: usize, ordered: bool) -> Vec<Vec<Block>> {
    (0..n)
        .map(|i| {
            let d = param(2 + i as u32);
            let mut v: Vec<usize> = vec![];
            for k in 0..d {
                let t = below(n + extra);
                // unless order and repetition matter: increasing targets
                if !ordered && k > 0 {
                    assume(v[k - 1] < t);
                }
                v.push(t);
            }
            v.into_iter().map(Block::new).collect()
        })
        .collect()
}
fn reach(n: usize, s: &[Vec<Block>], from: usize, avoid: usize) -> u64 {
    let mut seen = 0u64;
    if from == avoid {
        return 0;
    }
    seen |= 1 << from;
    for _ in 0..n {
        for b in 0..n {
            if seen >> b & 1 == 1 {
                for t in &s[b] {
                    if t.index() < n && t.index() != avoid {
                        seen |= 1 << t.index();
                    }
                }
            }
        }
    }
    seen
}

pub fn post() {
    let n = param(0);
    let extra = param(1);
    let s = graph(n, extra, true);
    let (mut vis, mut out) = (vec![], vec![Block::new(0); 2]);
    let r = postorder::calculate(n, Block::new(0), &mut vis, &mut out, |b| &s[b.index()][..]);
    let s: Vec<Vec<Block>> = s.iter().map(|v| v.iter().map(|b| Block::new(fix(b.index()))).collect()).collect();
    let seen = reach(n, &s, 0, n + 9);
    let mut bad = false;
    for b in 0..n {
        for t in &s[b] {
            bad |= seen >> b & 1 == 1 && t.index() >= n;
        }
    }
    check(r.is_err() == bad, 1);
    if let Err(e) = &r {
        match e {
            RegAllocError::BB(b) => check(b.index() >= n, 2),
            _ => check(false, 2),
        }
        cover(2);
        return;
    }
    let mut pos = vec![usize::MAX; n];
    for (i, b) in out.iter().enumerate() {
        check(b.index() < n && pos[b.index()] == usize::MAX, 3);
        pos[b.index()] = i;
    }
    for b in 0..n {
        check((pos[b] != usize::MAX) == (seen >> b & 1 == 1), 4);
    }
    check(out.last() == Some(&Block::new(0)), 5);
    for b in 0..n {
        if pos[b] != usize::MAX {
            for t in &s[b] {
                // an edge against the order closes a cycle
                if pos[t.index()] >= pos[b] {
                    check(reach(n, &s, t.index(), n + 9) >> b & 1 == 1, 6);
                }
            }
        }
    }
    cover(1);
    observe(out.len() as u64);
}

pub fn dom() {
    let n = param(0);
    let s = graph(n, 0, param(1) == 1);
    let s: Vec<Vec<Block>> = s.iter().map(|v| v.iter().map(|b| Block::new(fix(b.index()))).collect()).collect();
    let mut preds: Vec<Vec<Block>> = vec![vec![]; n];
    for b in 0..n {
        for t in &s[b] {
            preds[t.index()].push(Block::new(b));
        }
    }
    let (mut vis, mut po) = (vec![], vec![]);
    if postorder::calculate(n, Block::new(0), &mut vis, &mut po, |b| &s[b.index()][..]).is_err() {
        check(false, 1);
    }
    let (mut scr, mut idom) = (vec![Some(7); 1], vec![Block::new(0); 1]);
    domtree::calculate(n, |b| &preds[b.index()][..], &po, &mut scr, &mut idom, Block::new(0));
    let seen = reach(n, &s, 0, n + 9);
    for a in 0..n {
        let without = reach(n, &s, 0, a);
        for b in 0..n {
            if seen >> b & 1 == 1 {
                let truth = a == b || without >> b & 1 == 0;
                check(domtree::dominates(&idom, Block::new(a), Block::new(b)) == truth, 2);
            }
        }
    }
    cover(1);
    if seen != (1 << n) - 1 {
        cover(2);
    }
    observe(idom.iter().fold(0u64, |h, b| h * 31 + b.raw_u32() as u64));
}
