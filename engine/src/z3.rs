//! Hand-written binding to libz3 and the query layer (slicing is done by the
//! caller; this file translates terms, asks Z3 and reads models).
#![allow(non_camel_case_types)]

use crate::expr::{Ctx, E, O};
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
}

#[derive(Debug)]
pub enum Res {
    Sat(Vec<(usize, u8)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    sol: P,
    timeout_ms: u32,
    cache: Vec<P>, // E -> ast
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub dump: Option<std::path::PathBuf>,
    pub dump_max: u64,
    dumped: u64,
}

unsafe fn mk_solver(c: P, logic: &str, timeout_ms: u32) -> P {
    let n = CString::new(logic).unwrap();
    let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, n.as_ptr()));
    Z3_solver_inc_ref(c, s);
    let p = Z3_mk_params(c);
    Z3_params_inc_ref(c, p);
    let n = CString::new("timeout").unwrap();
    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, n.as_ptr()), timeout_ms);
    Z3_solver_set_params(c, s, p);
    s
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, None);
            let sol = mk_solver(c, "QF_BV", timeout_ms);
            Z3 {
                c,
                sol,
                timeout_ms,
                cache: Vec::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
                dump: None,
                dump_max: 0,
                dumped: 0,
            }
        }
    }

    fn fp(&self, a: P, w: u32) -> P {
        unsafe {
            let s = if w == 64 { Z3_mk_fpa_sort_64(self.c) } else { Z3_mk_fpa_sort_32(self.c) };
            Z3_mk_fpa_to_fp_bv(self.c, a, s)
        }
    }

    fn tr(&mut self, cx: &Ctx, e: E) -> P {
        if let Some(&p) = self.cache.get(e as usize) {
            if !p.is_null() {
                return p;
            }
        }
        let n = cx.n[e as usize];
        let c = self.c;
        let w = n.w as u32;
        let r = unsafe {
            match n.op {
                O::Const => {
                    if w == 1 {
                        if n.k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        let s = Z3_mk_bv_sort(c, w);
                        if n.k <= u64::MAX as u128 {
                            Z3_mk_unsigned_int64(c, n.k as u64, s)
                        } else {
                            let t = CString::new(n.k.to_string()).unwrap();
                            Z3_mk_numeral(c, t.as_ptr(), s)
                        }
                    }
                }
                O::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, 8)),
                _ => {
                    let a = self.tr(cx, n.a);
                    let b = if n.b != 0 { self.tr(cx, n.b) } else { std::ptr::null_mut() };
                    let d = if n.c != 0 { self.tr(cx, n.c) } else { std::ptr::null_mut() };
                    let wa = cx.w(n.a);
                    let rne = || Z3_mk_fpa_rne(c);
                    let rtz = || Z3_mk_fpa_rtz(c);
                    let ts = |w: u32| if w == 64 { Z3_mk_fpa_sort_64(c) } else { Z3_mk_fpa_sort_32(c) };
                    let bvb = |x: P, w: u32| {
                        // boolean -> bv1 when a bit-vector is needed
                        if w == 1 {
                            let s = Z3_mk_bv_sort(c, 1);
                            Z3_mk_ite(c, x, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                        } else {
                            x
                        }
                    };
                    let tob = |x: P, w: u32| {
                        if w == 1 {
                            let s = Z3_mk_bv_sort(c, 1);
                            Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, s))
                        } else {
                            x
                        }
                    };
                    match n.op {
                        O::Not => Z3_mk_not(c, a),
                        O::And if w == 1 => Z3_mk_and(c, 2, [a, b].as_ptr()),
                        O::Or if w == 1 => Z3_mk_or(c, 2, [a, b].as_ptr()),
                        O::Xor if w == 1 => Z3_mk_xor(c, a, b),
                        O::And => Z3_mk_bvand(c, a, b),
                        O::Or => Z3_mk_bvor(c, a, b),
                        O::Xor => Z3_mk_bvxor(c, a, b),
                        O::Add => Z3_mk_bvadd(c, a, b),
                        O::Sub => Z3_mk_bvsub(c, a, b),
                        O::Mul => Z3_mk_bvmul(c, a, b),
                        O::UDiv => Z3_mk_bvudiv(c, a, b),
                        O::URem => Z3_mk_bvurem(c, a, b),
                        O::SDiv => Z3_mk_bvsdiv(c, a, b),
                        O::SRem => Z3_mk_bvsrem(c, a, b),
                        O::Shl => Z3_mk_bvshl(c, a, b),
                        O::LShr => Z3_mk_bvlshr(c, a, b),
                        O::AShr => Z3_mk_bvashr(c, a, b),
                        O::Eq => Z3_mk_eq(c, a, b),
                        O::Ult => Z3_mk_bvult(c, bvb(a, wa), bvb(b, wa)),
                        O::Slt => Z3_mk_bvslt(c, a, b),
                        O::Ite => Z3_mk_ite(c, a, b, d),
                        O::Concat => Z3_mk_concat(c, bvb(a, wa), bvb(b, cx.w(n.b))),
                        O::Extract => tob(Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a), w),
                        O::ZExt => Z3_mk_zero_ext(c, w - wa, bvb(a, wa)),
                        O::SExt => Z3_mk_sign_ext(c, w - wa, bvb(a, wa)),
                        O::FAdd => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, rne(), self.fp(a, w), self.fp(b, w))),
                        O::FSub => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, rne(), self.fp(a, w), self.fp(b, w))),
                        O::FMul => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, rne(), self.fp(a, w), self.fp(b, w))),
                        O::FDiv => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, rne(), self.fp(a, w), self.fp(b, w))),
                        O::FRem => panic!("symbolic frem"),
                        O::FEq => Z3_mk_fpa_eq(c, self.fp(a, wa), self.fp(b, wa)),
                        O::FLt => Z3_mk_fpa_lt(c, self.fp(a, wa), self.fp(b, wa)),
                        O::FLe => Z3_mk_fpa_leq(c, self.fp(a, wa), self.fp(b, wa)),
                        O::FIsNan => Z3_mk_fpa_is_nan(c, self.fp(a, wa)),
                        O::UToF => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rne(), bvb(a, wa), ts(w))),
                        O::SToF => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rne(), a, ts(w))),
                        O::FToU => Z3_mk_fpa_to_ubv(c, rtz(), self.fp(a, wa), w),
                        O::FToS => Z3_mk_fpa_to_sbv(c, rtz(), self.fp(a, wa), w),
                        O::FExt => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne(), self.fp(a, 32), ts(64))),
                        O::FTrunc => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne(), self.fp(a, 64), ts(32))),
                        O::FSqrt => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sqrt(c, rne(), self.fp(a, w))),
                        O::RTrunc | O::RFloor | O::RCeil | O::RRound | O::REven => {
                            let m = match n.op {
                                O::RTrunc => rtz(),
                                O::RFloor => Z3_mk_fpa_rtn(c),
                                O::RCeil => Z3_mk_fpa_rtp(c),
                                O::RRound => Z3_mk_fpa_rna(c),
                                _ => rne(),
                            };
                            Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, m, self.fp(a, w)))
                        }
                        O::Const | O::Var => unreachable!(),
                    }
                }
            }
        };
        unsafe {
            if r.is_null() || Z3_get_error_code(c) != 0 {
                panic!("z3 error translating {}", cx.show(e, 3));
            }
            Z3_inc_ref(c, r);
        }
        if self.cache.len() <= e as usize {
            self.cache.resize(e as usize + 1024, std::ptr::null_mut());
        }
        self.cache[e as usize] = r;
        r
    }

    pub fn check(&mut self, cx: &Ctx, cons: &[E]) -> Res {
        let fp = cons.iter().any(|&e| cx.fp[e as usize]);
        // floating-point queries go to a fresh one-shot solver: Z3's incremental
        // mode is far slower on them
        let sol = if fp { unsafe { mk_solver(self.c, "QF_FPBV", self.timeout_ms) } } else { self.sol };
        let asts: Vec<P> = cons.iter().map(|&e| self.tr(cx, e)).collect();
        let t = Instant::now();
        let mut m = [0u64; 2];
        for &e in cons {
            let k = cx.mask[e as usize];
            m[0] |= k[0];
            m[1] |= k[1];
        }
        let res = unsafe {
            if !fp {
                Z3_solver_push(self.c, sol);
            }
            for a in asts {
                Z3_solver_assert(self.c, sol, a);
            }
            let r = Z3_solver_check(self.c, sol);
            if Z3_get_error_code(self.c) != 0 {
                panic!("z3 error in check");
            }
            if let Some(d) = &self.dump {
                if self.dumped < self.dump_max {
                    let s = CStr::from_ptr(Z3_solver_to_string(self.c, sol)).to_string_lossy().into_owned();
                    let st = match r {
                        1 => "sat",
                        -1 => "unsat",
                        _ => "unknown",
                    };
                    let logic = if fp { "QF_BVFP" } else { "QF_BV" };
                    let _ = std::fs::write(
                        d.join(format!("q{}-{}-{}.smt2", std::process::id(), self.dumped, st)),
                        format!("(set-logic {})\n{}\n(check-sat)\n", logic, s),
                    );
                    self.dumped += 1;
                }
            }
            let res = match r {
                1 => {
                    let mo = Z3_solver_get_model(self.c, sol);
                    Z3_model_inc_ref(self.c, mo);
                    let mut v = Vec::new();
                    for i in 0..128usize {
                        if m[i / 64] >> (i % 64) & 1 == 1 {
                            let va = Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i as c_int), Z3_mk_bv_sort(self.c, 8));
                            Z3_inc_ref(self.c, va);
                            let mut out: P = std::ptr::null_mut();
                            let ok = Z3_model_eval(self.c, mo, va, true, &mut out);
                            let mut u = 0u64;
                            if !ok || !Z3_get_numeral_uint64(self.c, out, &mut u) {
                                panic!("z3 model eval failed");
                            }
                            v.push((i, u as u8));
                        }
                    }
                    Z3_model_dec_ref(self.c, mo);
                    self.sat += 1;
                    Res::Sat(v)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            if fp {
                Z3_solver_dec_ref(self.c, sol);
            } else {
                Z3_solver_pop(self.c, sol, 1);
            }
            res
        };
        let dt = t.elapsed().as_secs_f64();
        self.queries += 1;
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        res
    }
}
