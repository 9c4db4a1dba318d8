//! Symbolic-execution primitives. Under the engine these are intercepted; natively they are
//! defined by `bin/native.rs`, reading recorded inputs.
extern "C-unwind" {
    fn sx_bits(w: u32) -> u64;
    fn sx_below(n: u64) -> u64;
    fn sx_assume(c: bool);
    fn sx_check(c: bool, code: u32);
    fn sx_cover(code: u32);
    fn sx_observe(v: u64);
    fn sx_param(i: u32) -> u64;
    fn sx_fix(v: u64) -> u64;
    fn sx_fail(code: u32) -> !;
    fn sx_done() -> !;
    fn sx_verbose() -> bool;
    fn sx_ite(c: bool, a: u64, b: u64) -> u64;
}
/// arbitrary w-bit value
#[inline(always)]
pub fn bits(w: u32) -> u64 {
    unsafe { sx_bits(w) }
}
/// arbitrary value in 0..n
#[inline(always)]
pub fn below(n: usize) -> usize {
    unsafe { sx_below(n as u64) as usize }
}
#[inline(always)]
pub fn flag() -> bool {
    bits(1) == 1
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
/// the property: must hold on every path
#[inline(always)]
pub fn check(c: bool, code: u32) {
    unsafe { sx_check(c, code) }
}
#[inline(always)]
pub fn cover(code: u32) {
    unsafe { sx_cover(code) }
}
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { sx_observe(v) }
}
#[inline(always)]
pub fn param(i: u32) -> usize {
    unsafe { sx_param(i) as usize }
}
/// case-split: the same value, made concrete on each path
#[inline(always)]
pub fn fix(v: usize) -> usize {
    unsafe { sx_fix(v as u64) as usize }
}
/// case-split choice in 0..n
#[inline(always)]
pub fn pick(n: usize) -> usize {
    fix(below(n))
}
#[inline(always)]
pub fn fail(code: u32) -> ! {
    unsafe { sx_fail(code) }
}
/// end this path, nothing more to check
#[inline(always)]
pub fn done() -> ! {
    unsafe { sx_done() }
}

/// native replay only: explain a run
#[inline(always)]
pub fn note(f: &dyn Fn() -> String) {
    if unsafe { sx_verbose() } {
        println!("{}", f());
    }
}

/// select without branching, so that the choice stays symbolic
#[inline(always)]
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { sx_ite(c, a, b) }
}
/// `ite` for plain data without padding
#[inline(always)]
pub fn ite_copy<T: Copy>(c: bool, a: T, b: T) -> T {
    unsafe {
        let mut r = a;
        let n = core::mem::size_of::<T>();
        let (pa, pb, pr) = (&a as *const T as *const u8, &b as *const T as *const u8, &mut r as *mut T as *mut u8);
        let mut i = 0;
        while i + 8 <= n {
            let x = (pa.add(i) as *const u64).read_unaligned();
            let y = (pb.add(i) as *const u64).read_unaligned();
            (pr.add(i) as *mut u64).write_unaligned(ite(c, x, y));
            i += 8;
        }
        while i < n {
            pr.add(i).write(ite(c, pa.add(i).read() as u64, pb.add(i).read() as u64) as u8);
            i += 1;
        }
        r
    }
}
/// one of the alternatives, symbolically
#[inline(never)]
pub fn one_of<T: Copy>(alts: &[T]) -> T {
    let k = below(alts.len());
    let mut r = alts[0];
    for i in 1..alts.len() {
        r = ite_copy(k == i, alts[i], r);
    }
    r
}
