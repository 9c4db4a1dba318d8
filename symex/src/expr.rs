//! Hash-consed bit-vector expression DAG (widths 1..=128) with a simplifier and evaluator.
use std::collections::HashMap;

pub type E = u32; // expression id; 0 is reserved ("concrete value, no expression")

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub val: u128,
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        _ => unreachable!(),
    }
}

pub struct Dag {
    pub nodes: Vec<Node>,
    tree: Vec<u16>,
    map: HashMap<Node, E, BuildFx>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
    mark: Vec<u32>,
    /// conditions over one narrow variable: (state, variable, mask of satisfying values)
    sv: Vec<(u8, u32, u64)>,
    vlist: HashMap<E, std::rc::Rc<[(u32, u32)]>, BuildFx>,
}

#[derive(Default, Clone, Copy)]
pub struct BuildFx;
impl std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
pub struct Fx(u64);
impl Fx {
    #[inline]
    fn add(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
}
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.add(*x as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.add(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.add(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.add(v)
    }
    fn write_u128(&mut self, v: u128) {
        self.add(v as u64);
        self.add((v >> 64) as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.add(v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.add(v as u64)
    }
}

impl Dag {
    pub fn new() -> Dag {
        Dag {
            nodes: vec![Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, val: 0 }],
            tree: vec![1],
            map: HashMap::with_hasher(BuildFx),
            memo: vec![],
            epoch: 1,
            mark: vec![],
            sv: vec![],
            vlist: HashMap::with_hasher(BuildFx),
        }
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, val: u128) -> E {
        let n = Node { op, w: w as u8, a, b, c, val };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.tree.push(match op {
            Op::Const => 1,
            Op::Ite => {
                let (x, y) = (self.tree[b as usize], self.tree[c as usize]);
                if x > 0 && y > 0 && x as u32 + y as u32 <= 64 {
                    x + y
                } else {
                    0
                }
            }
            _ => 0,
        });
        self.map.insert(n, e);
        e
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.val)
        } else {
            None
        }
    }
    pub fn konst(&mut self, w: u32, v: u128) -> E {
        self.mk(Op::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn var(&mut self, id: u32, w: u32) -> E {
        self.mk(Op::Var, w, 0, 0, 0, id as u128)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.konst(w, mask(w));
        self.bin(Op::Xor, a, m)
    }
    /// Split `e` into pieces, high to low, through Concat/ZExt.
    fn pieces(&mut self, e: E, out: &mut Vec<E>) {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Concat => {
                self.pieces(n.a, out);
                self.pieces(n.b, out);
            }
            Op::ZExt => {
                let k = n.w as u32 - self.w(n.a);
                let z = self.konst(k, 0);
                out.push(z);
                self.pieces(n.a, out);
            }
            _ => out.push(e),
        }
    }
    fn join(&mut self, segs: &[E]) -> E {
        let mut r = segs[0];
        for &s in &segs[1..] {
            r = self.concat(r, s);
        }
        r
    }
    fn is_packed(&self, e: E) -> bool {
        matches!(self.nodes[e as usize].op, Op::Concat | Op::ZExt | Op::Const)
    }
    /// Or/Xor of two packed words segment by segment, when every segment has a zero side.
    fn seg_or(&mut self, op: Op, a: E, b: E) -> Option<E> {
        if !(self.is_packed(a) && self.is_packed(b)) {
            return None;
        }
        let w = self.w(a);
        let (mut pa, mut pb) = (vec![], vec![]);
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        if pa.len() > 24 || pb.len() > 24 {
            return None;
        }
        let mut cuts = vec![];
        for p in [&pa, &pb] {
            let mut pos = w;
            for &x in p.iter() {
                pos -= self.w(x);
                cuts.push(pos);
            }
        }
        cuts.sort_unstable();
        cuts.dedup();
        cuts.reverse();
        let mut segs = vec![];
        let mut hi = w;
        for lo in cuts {
            let sa = self.extract(a, lo, hi - lo);
            let sb = self.extract(b, lo, hi - lo);
            let s = match (self.cv(sa), self.cv(sb)) {
                (Some(0), _) => sb,
                (_, Some(0)) => sa,
                (Some(x), Some(y)) => {
                    let v = fold(op, hi - lo, x, y);
                    self.konst(hi - lo, v)
                }
                _ => return None,
            };
            segs.push(s);
            hi = lo;
        }
        Some(self.join(&segs))
    }
    fn and_mask(&mut self, a: E, m: u128) -> Option<E> {
        let w = self.w(a);
        let mut runs = vec![]; // (lo, len, bit) low to high
        let mut i = 0;
        while i < w {
            let bit = (m >> i) & 1;
            let mut j = i;
            while j < w && (m >> j) & 1 == bit {
                j += 1
            }
            runs.push((i, j - i, bit));
            i = j;
            if runs.len() > 6 {
                return None;
            }
        }
        let mut segs = vec![];
        for &(lo, len, bit) in runs.iter().rev() {
            segs.push(if bit == 1 { self.extract(a, lo, len) } else { self.konst(len, 0) });
        }
        Some(self.join(&segs))
    }
    /// leaves are constants: apply to the leaves
    fn tree(&self, e: E) -> bool {
        self.tree[e as usize] > 1
    }
    fn map_bin(&mut self, op: Op, t: E, k: E, left: bool) -> E {
        let n = self.nodes[t as usize];
        if n.op != Op::Ite {
            return if left { self.bin(op, t, k) } else { self.bin(op, k, t) };
        }
        let x = self.map_bin(op, n.b, k, left);
        let y = self.map_bin(op, n.c, k, left);
        self.ite(n.a, x, y)
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Slt) { 1 } else { w };
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(op, w, x, y);
            return self.konst(rw, v);
        }
        if cb.is_some() && self.tree(a) {
            return self.map_bin(op, a, b, true);
        }
        if ca.is_some() && self.tree(b) {
            return self.map_bin(op, b, a, false);
        }
        let m = mask(w);
        // commutative: constant on the right
        if ca.is_some() && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            return self.bin(op, b, a);
        }
        if cb.is_none() && a > b && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            return self.bin(op, b, a);
        }
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(c) = cb {
                    let n = self.nodes[a as usize];
                    if n.op == Op::Add {
                        if let Some(c2) = self.cv(n.b) {
                            let k = self.konst(w, c.wrapping_add(c2));
                            return self.bin(Op::Add, n.a, k);
                        }
                    }
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(c) = cb {
                    let k = self.konst(w, c.wrapping_neg());
                    return self.bin(Op::Add, a, k);
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let k = self.konst(w, c.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, k);
                    }
                }
            }
            Op::UDiv => {
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let k = self.konst(w, c.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, k);
                    }
                }
            }
            Op::URem => {
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let k = self.konst(w, c - 1);
                        return self.bin(Op::And, a, k);
                    }
                }
            }
            Op::Shl => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let hi = self.extract(a, 0, w - c as u32);
                    let z = self.konst(c as u32, 0);
                    return self.concat(hi, z);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let hi = self.extract(a, c as u32, w - c as u32);
                    return self.zext(hi, w);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    let c = (c as u32).min(w - 1);
                    let hi = self.extract(a, c, w - c);
                    return self.sext(hi, w);
                }
            }
            Op::And => {
                if a == b || cb == Some(m) {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if let Some(c) = cb {
                    if w > 1 {
                        if let Some(r) = self.and_mask(a, c) {
                            return r;
                        }
                    }
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.konst(1, 0);
                }
            }
            Op::Or => {
                if a == b || cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if let Some(r) = self.seg_or(op, a, b) {
                    return r;
                }
                if w == 1 && self.is_not_of(a, b) {
                    return self.konst(1, 1);
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if let Some(c) = cb {
                    let n = self.nodes[a as usize];
                    if n.op == Op::Xor {
                        if let Some(c2) = self.cv(n.b) {
                            let k = self.konst(w, c ^ c2);
                            return self.bin(Op::Xor, n.a, k);
                        }
                    }
                    if n.op == Op::ZExt || n.op == Op::Concat {
                        if let Some(r) = self.seg_or(op, a, b) {
                            return r;
                        }
                    }
                    if n.op == Op::Ite && (self.cv(n.b).is_some() && self.cv(n.c).is_some()) {
                        let x = self.bin(Op::Xor, n.b, b);
                        let y = self.bin(Op::Xor, n.c, b);
                        return self.ite(n.a, x, y);
                    }
                } else if let Some(r) = self.seg_or(op, a, b) {
                    return r;
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if let Some(c) = cb {
                    let n = self.nodes[a as usize];
                    if w == 1 {
                        return if c == 1 { a } else { self.not(a) };
                    }
                    match n.op {
                        Op::ZExt => {
                            let iw = self.w(n.a);
                            if c > mask(iw) {
                                return self.konst(1, 0);
                            }
                            let k = self.konst(iw, c);
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(n.a);
                            let t = c & mask(iw);
                            if (sext(t, iw) as u128) & m != c {
                                return self.konst(1, 0);
                            }
                            let k = self.konst(iw, t);
                            return self.bin(Op::Eq, n.a, k);
                        }
                        Op::Concat => {
                            let lw = self.w(n.b);
                            let hw = self.w(n.a);
                            let kh = self.konst(hw, c >> lw);
                            let kl = self.konst(lw, c);
                            let x = self.bin(Op::Eq, n.a, kh);
                            if self.cv(x) == Some(0) {
                                return x;
                            }
                            let y = self.bin(Op::Eq, n.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            let (x, y) = (self.cv(n.b), self.cv(n.c));
                            if x.is_some() || y.is_some() {
                                let p = self.bin(Op::Eq, n.b, b);
                                let q = self.bin(Op::Eq, n.c, b);
                                return self.ite(n.a, p, q);
                            }
                        }
                        Op::Add => {
                            if let Some(c2) = self.cv(n.b) {
                                let k = self.konst(w, c.wrapping_sub(c2));
                                return self.bin(Op::Eq, n.a, k);
                            }
                        }
                        Op::Xor => {
                            if let Some(c2) = self.cv(n.b) {
                                let k = self.konst(w, c ^ c2);
                                return self.bin(Op::Eq, n.a, k);
                            }
                        }
                        _ => {}
                    }
                } else {
                    // both symbolic; strip equal-width extensions
                    let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
                    if na.op == nb.op && matches!(na.op, Op::ZExt | Op::SExt) && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::ZExt && nb.op == Op::ZExt {
                        let (x, y) = (na.a, nb.a);
                        let k = self.w(x).max(self.w(y));
                        let x = self.zext(x, k);
                        let y = self.zext(y, k);
                        return self.bin(Op::Eq, x, y);
                    }
                    if w == 1 {
                        // Eq(a,b) = !(a^b)
                        let x = self.bin(Op::Xor, a, b);
                        return self.not(x);
                    }
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) {
                    return self.konst(1, 0);
                }
                if ca == Some(m) {
                    return self.konst(1, 0);
                }
                if cb == Some(1) {
                    let z = self.konst(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if ca == Some(0) {
                    let z = self.konst(w, 0);
                    let e = self.bin(Op::Eq, b, z);
                    return self.not(e);
                }
                if w == 1 {
                    let na = self.not(a);
                    return self.bin(Op::And, na, b);
                }
                let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
                if let Some(c) = cb {
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if c > mask(iw) {
                            return self.konst(1, 1);
                        }
                        let k = self.konst(iw, c);
                        return self.bin(Op::Ult, na.a, k);
                    }
                    if na.op == Op::Ite && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) {
                        let p = self.bin(Op::Ult, na.b, b);
                        let q = self.bin(Op::Ult, na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                if let Some(c) = ca {
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        if c > mask(iw) {
                            return self.konst(1, 0);
                        }
                        let k = self.konst(iw, c);
                        return self.bin(Op::Ult, k, nb.a);
                    }
                    if nb.op == Op::Ite && (self.cv(nb.b).is_some() || self.cv(nb.c).is_some()) {
                        let p = self.bin(Op::Ult, a, nb.b);
                        let q = self.bin(Op::Ult, a, nb.c);
                        return self.ite(nb.a, p, q);
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt {
                    let k = self.w(na.a).max(self.w(nb.a));
                    if k < w {
                        let x = self.zext(na.a, k);
                        let y = self.zext(nb.a, k);
                        return self.bin(Op::Ult, x, y);
                    }
                }
            }
            Op::Slt => {
                if a == b {
                    return self.konst(1, 0);
                }
                // both known non-negative: unsigned comparison
                if self.top_zero(a) && self.top_zero(b) {
                    return self.bin(Op::Ult, a, b);
                }
                if let Some(0) = cb {
                    return self.extract(a, w - 1, 1);
                }
                let n = self.nodes[a as usize];
                if n.op == Op::Ite && cb.is_some() && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
                    let p = self.bin(Op::Slt, n.b, b);
                    let q = self.bin(Op::Slt, n.c, b);
                    return self.ite(n.a, p, q);
                }
            }
            _ => {}
        }
        self.mk(op, rw, a, b, 0, 0)
    }
    fn top_zero(&self, e: E) -> bool {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::ZExt => true,
            Op::Const => n.val >> (n.w as u32 - 1) == 0,
            Op::Concat => self.top_zero(n.a),
            _ => false,
        }
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let (na, nb) = (&self.nodes[a as usize], &self.nodes[b as usize]);
        (na.op == Op::Xor && na.w == 1 && na.a == b && self.cv(na.b) == Some(1))
            || (nb.op == Op::Xor && nb.w == 1 && nb.a == a && self.cv(nb.b) == Some(1))
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cv(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let n = self.nodes[c as usize];
        if n.op == Op::Xor && self.cv(n.b) == Some(1) {
            return self.ite(n.a, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(0), _) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (_, Some(0)) => return self.bin(Op::And, c, a),
                (_, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        assert!(w <= 128, "concat too wide");
        match (self.cv(hi), self.cv(lo)) {
            (Some(h), Some(l)) => return self.konst(w, (h << wl) | l),
            (Some(0), _) => return self.zext(lo, w),
            _ => {}
        }
        let (nh, nl) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        // adjacent extracts of one value
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.val == nl.val + wl as u128 {
            return self.extract(nh.a, nl.val as u32, w);
        }
        if nl.op == Op::Extract && nh.op == Op::Extract {}
        // (sext sign bits): skip. Re-associate to the right for canonical form.
        if nh.op == Op::Concat {
            let r = self.concat(nh.b, lo);
            return self.concat(nh.a, r);
        }
        if nh.op == Op::ZExt {
            let r = self.concat(nh.a, lo);
            return self.zext(r, w);
        }
        if nl.op == Op::Concat {
            let nll = self.nodes[nl.a as usize];
            if nh.op == Op::Extract && nll.op == Op::Extract && nh.a == nll.a && nh.val == nll.val + nll.w as u128 {
                let x = self.extract(nh.a, nll.val as u32, wh + nll.w as u32);
                return self.concat(x, nl.b);
            }
            if let (Some(h), Some(l)) = (self.cv(hi), self.cv(nl.a)) {
                let lw = nll.w as u32;
                let k = self.konst(wh + lw, (h << lw) | l);
                return self.concat(k, nl.b);
            }
        }
        // whole value x = concat(extract(x, k..), trunc-part) handled via extract(…, 0, full)
        self.mk(Op::Concat, w, hi, lo, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, len: u32) -> E {
        let n = self.nodes[a as usize];
        let w = n.w as u32;
        debug_assert!(lo + len <= w && len > 0);
        if lo == 0 && len == w {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(len, n.val >> lo),
            Op::Extract => return self.extract(n.a, lo + n.val as u32, len),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, len);
                }
                if lo + len <= lw {
                    return self.extract(n.b, lo, len);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + len - lw);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(len, 0);
                }
                if lo + len <= iw {
                    return self.extract(n.a, lo, len);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, len);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + len <= iw {
                    return self.extract(n.a, lo, len);
                }
                if lo == 0 {
                    return self.sext(n.a, len);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, len);
                }
            }
            Op::Ite => {
                if self.tree(a) || self.cv(n.b).is_some() || self.cv(n.c).is_some() || len <= 8 {
                    let x = self.extract(n.b, lo, len);
                    let y = self.extract(n.c, lo, len);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, len);
                let y = self.extract(n.b, lo, len);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, len);
                let y = self.extract(n.b, 0, len);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.mk(Op::Extract, len, a, 0, 0, lo as u128)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.nodes[a as usize];
        let iw = n.w as u32;
        if iw == w {
            return a;
        }
        debug_assert!(iw < w);
        match n.op {
            Op::Const => return self.konst(w, n.val),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.tree(a) => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.nodes[a as usize];
        let iw = n.w as u32;
        if iw == w {
            return a;
        }
        match n.op {
            Op::Const => {
                let v = sext(n.val, iw) as u128;
                return self.konst(w, v);
            }
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite if self.tree(a) => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }

    pub fn new_epoch(&mut self) {
        self.epoch += 1;
    }
    /// Evaluate under `model` (value per variable id). Call `new_epoch` whenever the model changes.
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, (0, 0));
        }
        self.eval_rec(e, model)
    }
    fn eval_rec(&mut self, e: E, model: &[u64]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.val,
            Op::Var => return (model.get(n.val as usize).copied().unwrap_or(0) as u128) & mask(n.w as u32),
            _ => {}
        }
        let (ep, v) = self.memo[e as usize];
        if ep == self.epoch {
            return v;
        }
        let w = n.w as u32;
        let v = match n.op {
            Op::Ite => {
                if self.eval_rec(n.a, model) == 1 {
                    self.eval_rec(n.b, model)
                } else {
                    self.eval_rec(n.c, model)
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                (self.eval_rec(n.a, model) << lw) | self.eval_rec(n.b, model)
            }
            Op::Extract => (self.eval_rec(n.a, model) >> n.val as u32) & mask(w),
            Op::ZExt => self.eval_rec(n.a, model),
            Op::SExt => {
                let iw = self.w(n.a);
                (sext(self.eval_rec(n.a, model), iw) as u128) & mask(w)
            }
            _ => {
                let ow = self.w(n.a);
                let x = self.eval_rec(n.a, model);
                let y = self.eval_rec(n.b, model);
                fold(n.op, ow, x, y)
            }
        };
        self.memo[e as usize] = (self.epoch, v);
        v
    }
    /// Variables of `e` with their widths, cached.
    pub fn vlist(&mut self, e: E) -> std::rc::Rc<[(u32, u32)]> {
        if let Some(v) = self.vlist.get(&e) {
            return v.clone();
        }
        let mut v = vec![];
        self.vars_of(e, &mut v);
        let r: std::rc::Rc<[(u32, u32)]> = v.into();
        self.vlist.insert(e, r.clone());
        r
    }
    /// For a condition over a single variable of at most 6 bits: that variable and the set of its
    /// values that satisfy the condition.
    pub fn single(&mut self, e: E) -> Option<(u32, u64)> {
        if self.sv.len() < self.nodes.len() {
            self.sv.resize(self.nodes.len() + 1024, (0, 0, 0));
        }
        let (k, v, m) = self.sv[e as usize];
        match k {
            1 => return None,
            2 => return Some((v, m)),
            _ => {}
        }
        let mut vars = vec![];
        self.vars_of(e, &mut vars);
        let mut r = None;
        if vars.len() == 1 {
            let (v, w) = vars[0];
            if w <= 6 {
                let mut model = vec![0u64; v as usize + 1];
                let mut m = 0;
                for x in 0..1u64 << w {
                    model[v as usize] = x;
                    self.new_epoch();
                    if self.eval(e, &model) == 1 {
                        m |= 1 << x
                    }
                }
                self.new_epoch();
                r = Some((v, m));
            }
        }
        self.sv[e as usize] = match r {
            Some((v, m)) => (2, v, m),
            None => (1, 0, 0),
        };
        r
    }
    /// Variables occurring in `e`, appended to `out` (no duplicates within one call).
    pub fn vars_of(&mut self, e: E, out: &mut Vec<(u32, u32)>) {
        self.epoch += 1; // invalidates eval memo too, cheap enough
        let ep = self.epoch;
        if self.mark.len() < self.nodes.len() {
            self.mark.resize(self.nodes.len() + 1024, 0);
        }
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if self.mark[x as usize] == ep {
                continue;
            }
            self.mark[x as usize] = ep;
            let n = self.nodes[x as usize];
            match n.op {
                Op::Const => {}
                Op::Var => out.push((n.val as u32, n.w as u32)),
                Op::Ite => {
                    st.push(n.a);
                    st.push(n.b);
                    st.push(n.c)
                }
                Op::Extract | Op::ZExt | Op::SExt => st.push(n.a),
                _ => {
                    st.push(n.a);
                    st.push(n.b)
                }
            }
        }
    }
}
