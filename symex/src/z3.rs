//! Minimal FFI to libz3 (C API) and the translation from the expression DAG.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
}

extern "C" fn on_err(_c: P, code: c_int) {
    eprintln!("symex: z3 error code {}", code);
    std::process::exit(3);
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub struct Solver {
    c: P,
    s: P,
    bv: Vec<P>,
    bo: Vec<P>,
    vars: Vec<Option<P>>,
    sorts: Vec<P>,
    stack: Vec<E>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time_ns: u64,
    pub max_ns: u64,
}

impl Drop for Solver {
    fn drop(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.c, self.s);
            Z3_del_context(self.c);
        }
    }
}
impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver {
                c,
                s,
                bv: vec![],
                bo: vec![],
                vars: vec![],
                sorts: vec![std::ptr::null_mut(); 129],
                stack: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                time_ns: 0,
                max_ns: 0,
            }
        }
    }
    fn r(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn sort(&mut self, w: u32) -> P {
        if self.sorts[w as usize].is_null() {
            let s = unsafe { Z3_mk_bv_sort(self.c, w) };
            self.sorts[w as usize] = self.r(s);
        }
        self.sorts[w as usize]
    }
    fn ensure(&mut self, n: usize) {
        if self.bv.len() < n {
            self.bv.resize(n + 1024, std::ptr::null_mut());
            self.bo.resize(n + 1024, std::ptr::null_mut());
        }
    }
    fn tbv(&mut self, d: &Dag, e: E) -> P {
        let i = e as usize;
        if !self.bv[i].is_null() {
            return self.bv[i];
        }
        let n = d.nodes[i];
        let c = self.c;
        let w = n.w as u32;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    let s = self.sort(w);
                    if w <= 64 {
                        Z3_mk_unsigned_int64(c, n.val as u64, s)
                    } else {
                        let t = CString::new(n.val.to_string()).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                Op::Var => {
                    let s = self.sort(w);
                    let id = n.val as usize;
                    // a variable id always has one width within one worker's lifetime of a symbol key
                    let sym = Z3_mk_int_symbol(c, (id as c_int) * 256 + w as c_int);
                    let v = Z3_mk_const(c, sym, s);
                    if self.vars.len() <= id {
                        self.vars.resize(id + 1, None);
                    }
                    v
                }
                Op::Eq | Op::Ult | Op::Slt => {
                    let b = self.tbool(d, e);
                    let s = self.sort(1);
                    let one = Z3_mk_unsigned_int64(c, 1, s);
                    let one = self.r(one);
                    let zero = Z3_mk_unsigned_int64(c, 0, s);
                    let zero = self.r(zero);
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::Ite => {
                    let p = self.tbool(d, n.a);
                    let x = self.tbv(d, n.b);
                    let y = self.tbv(d, n.c);
                    Z3_mk_ite(c, p, x, y)
                }
                Op::Extract => {
                    let x = self.tbv(d, n.a);
                    Z3_mk_extract(c, n.val as u32 + w - 1, n.val as u32, x)
                }
                Op::ZExt => {
                    let x = self.tbv(d, n.a);
                    Z3_mk_zero_ext(c, w - d.w(n.a), x)
                }
                Op::SExt => {
                    let x = self.tbv(d, n.a);
                    Z3_mk_sign_ext(c, w - d.w(n.a), x)
                }
                _ => {
                    let x = self.tbv(d, n.a);
                    let y = self.tbv(d, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        let r = self.r(r);
        self.bv[i] = r;
        r
    }
    fn tbool(&mut self, d: &Dag, e: E) -> P {
        let i = e as usize;
        if !self.bo[i].is_null() {
            return self.bo[i];
        }
        let n = d.nodes[i];
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.val == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq => {
                    let x = self.tbv(d, n.a);
                    let y = self.tbv(d, n.b);
                    Z3_mk_eq(c, x, y)
                }
                Op::Ult => {
                    let x = self.tbv(d, n.a);
                    let y = self.tbv(d, n.b);
                    Z3_mk_bvult(c, x, y)
                }
                Op::Slt => {
                    let x = self.tbv(d, n.a);
                    let y = self.tbv(d, n.b);
                    Z3_mk_bvslt(c, x, y)
                }
                Op::And => {
                    let a = [self.tbool(d, n.a), self.tbool(d, n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.tbool(d, n.a), self.tbool(d, n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Xor => {
                    let x = self.tbool(d, n.a);
                    if d.cv(n.b) == Some(1) {
                        Z3_mk_not(c, x)
                    } else {
                        let y = self.tbool(d, n.b);
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Ite => {
                    let p = self.tbool(d, n.a);
                    let x = self.tbool(d, n.b);
                    let y = self.tbool(d, n.c);
                    Z3_mk_ite(c, p, x, y)
                }
                _ => {
                    let x = self.tbv(d, e);
                    let s = self.sort(1);
                    let one = Z3_mk_unsigned_int64(c, 1, s);
                    let one = self.r(one);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        let r = self.r(r);
        self.bo[i] = r;
        r
    }
    fn sync(&mut self, d: &Dag, pcs: &[E]) {
        let mut k = 0;
        while k < self.stack.len() && k < pcs.len() && self.stack[k] == pcs[k] {
            k += 1;
        }
        let drop = self.stack.len() - k;
        if drop > 0 {
            unsafe { Z3_solver_pop(self.c, self.s, drop as c_uint) };
            self.stack.truncate(k);
        }
        for &e in &pcs[k..] {
            let a = self.tbool(d, e);
            unsafe {
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
            }
            self.stack.push(e);
        }
    }
    /// Satisfiability of pcs (and `extra`). `widths[i]` is the width of variable i.
    /// Ok(Some(model)) / Ok(None) = unsat / Err(()) = unknown.
    pub fn check(&mut self, d: &mut Dag, pcs: &[E], extra: Option<E>, widths: &[u8]) -> Result<Option<Vec<u64>>, ()> {
        self.ensure(d.nodes.len());
        let t = std::time::Instant::now();
        self.sync(d, pcs);
        let pushed = if let Some(x) = extra {
            let a = self.tbool(d, x);
            unsafe {
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, a);
            }
            true
        } else {
            false
        };
        let r = unsafe { Z3_solver_check(self.c, self.s) };
        self.queries += 1;
        let res = match r {
            1 => {
                self.sat += 1;
                let mut m = Vec::with_capacity(widths.len());
                unsafe {
                    let md = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, md);
                    for (id, &w) in widths.iter().enumerate() {
                        let v = {
                            let e = d.var(id as u32, w as u32);
                            self.ensure(d.nodes.len());
                            self.tbv(d, e)
                        };
                        let mut out: P = std::ptr::null_mut();
                        let mut val = 0u64;
                        if Z3_model_eval(self.c, md, v, true, &mut out) {
                            Z3_get_numeral_uint64(self.c, out, &mut val);
                        }
                        m.push(val);
                    }
                    Z3_model_dec_ref(self.c, md);
                }
                Ok(Some(m))
            }
            -1 => {
                self.unsat += 1;
                Ok(None)
            }
            _ => Err(()),
        };
        if pushed {
            unsafe { Z3_solver_pop(self.c, self.s, 1) };
        }
        let ns = t.elapsed().as_nanos() as u64;
        self.time_ns += ns;
        self.max_ns = self.max_ns.max(ns);
        res
    }
}
