//! Sparse index sets (src/indexset.rs).
use crate::rt::*;
use regalloc2::verif::indexset::IndexSet;

/// members: index -> held, over a small universe of words
struct Model {
    w: [u64; 20],
}
const WORDS: [usize; 20] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 1000, 40000];
impl Model {
    fn set(&mut self, w: usize, bit: usize, v: bool) {
        let m = 1u64 << bit;
        self.w[w] = ite(v, self.w[w] | m, self.w[w] & !m);
    }
    fn get(&self, w: usize, bit: usize) -> bool {
        self.w[w] >> bit & 1 == 1
    }
}
/// the set agrees with the model on an arbitrary index of the universe and on what it iterates
fn same(s: &IndexSet, m: &Model, code: u32) {
    let b = below(64);
    for w in 0..WORDS.len() {
        check(s.get(WORDS[w] * 64 + b) == m.get(w, b), code);
    }
}
fn iterates(s: &IndexSet, m: &Model, code: u32) {
    let mut seen = [0u64; 20];
    let mut n = 0;
    for i in s.iter() {
        let w = fix(i / 64);
        let k = WORDS.iter().position(|&x| x == w);
        check(k.is_some(), code);
        let k = k.unwrap();
        let bit = 1u64 << (i % 64);
        check(seen[k] & bit == 0, code + 1);
        seen[k] |= bit;
        n += 1;
        if n > 60 {
            done();
        }
    }
    for k in 0..20 {
        check(seen[k] == m.w[k], code + 2);
    }
}
fn preset(words: usize, cleared: usize) -> (IndexSet, Model) {
    let mut s = IndexSet::new();
    let mut m = Model { w: [0; 20] };
    for w in 0..words {
        // an arbitrary bit in the first and last word
        let b = if w == 0 || w + 1 == words { below(64) } else { (w * 29) % 64 };
        s.set(WORDS[w] * 64 + b, true);
        m.set(w, b, true);
        if w > 0 && w <= cleared {
            s.set(WORDS[w] * 64 + b, false);
            m.set(w, b, false);
        }
    }
    (s, m)
}

/// params: words present at first, words emptied again, steps
pub fn ops() {
    let (words, cleared, steps, iter) = (param(0), param(1), param(2), param(3));
    let (mut s, mut m) = preset(words, cleared);
    for _ in 0..steps {
        // an old word, an emptied one, the next new ones
        let ws = [0, words.saturating_sub(1), words, words + 1, 18, 19];
        let w = ws[pick(6)];
        let b = below(64);
        let v = pick(2) == 1;
        s.set(WORDS[w] * 64 + b, v);
        m.set(w, b, v);
    }
    if iter == 1 {
        iterates(&s, &m, 2);
    } else {
        same(&s, &m, 1);
    }
    cover(1);
    observe(s.get(0) as u64);
}

/// union and assignment
pub fn union() {
    let (wa, wb, steps) = (param(0), param(1), param(2));
    let (mut a, mut ma) = preset(wa, param(3));
    let (mut b, mut mb) = preset(0, 0);
    // the other set lies across the first one's words
    for k in 0..wb {
        let w = (wa.saturating_sub(1) + k) % 20;
        let bit = below(64);
        b.set(WORDS[w] * 64 + bit, true);
        mb.set(w, bit, true);
    }
    for _ in 0..steps {
        let w = [0, wa, 18][pick(3)];
        let bit = below(64);
        let v = pick(2) == 1;
        b.set(WORDS[w] * 64 + bit, v);
        mb.set(w, bit, v);
    }
    let mut news = 0;
    for k in 0..20 {
        news |= mb.w[k] & !ma.w[k];
        ma.w[k] |= mb.w[k];
    }
    let r = a.union_with(&b);
    check(r == (news != 0), 10);
    same(&a, &ma, 11);
    same(&b, &mb, 12);
    let mut c = IndexSet::new();
    c.set(5, true);
    c.assign(&a);
    same(&c, &ma, 13);
    // the copy is independent
    a.set(64 * 17 + 3, true);
    check(c.get(64 * 17 + 3) == ma.get(17, 3), 14);
    cover(1);
    observe(r as u64);
}
