//! Minimal FFI to libz3 and an incremental path solver.
use crate::term::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_camel_case_types)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_check_assumptions(c: P, s: P, n: c_uint, a: *const P) -> c_int;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_implies(c: P, a: P, b: P) -> P;
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_get_const_interp(c: P, m: P, d: P) -> P;
    fn Z3_get_app_decl(c: P, a: P) -> P;
    fn Z3_get_numeral_uint64(c: P, a: P, o: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
}

extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy().into_owned() };
    eprintln!("z3 error {}: {}", e, m);
    std::process::exit(3);
}

#[derive(Default, Clone, Copy, Debug)]
pub struct SolverStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_ns: u64,
    pub max_ns: u64,
}

pub struct Solver {
    c: P,
    s: P,
    bv: Vec<P>,
    bo: Vec<P>,
    decl: Vec<P>,
    stack: Vec<u64>,
    assume: bool,
    lits: Vec<P>,
    nlits: usize,
    pub slow: u64,
    last: T,
    pub stats: SolverStats,
}

pub enum Ans {
    Sat,
    Unsat,
    Unknown(String),
}

impl Solver {
    pub fn new(kind: &str) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let set = |k: &str, v: &str| {
                let (a, b) = (CString::new(k).unwrap(), CString::new(v).unwrap());
                Z3_set_param_value(cfg, a.as_ptr(), b.as_ptr());
            };
            set("model", "true");
            set("auto_config", "false");
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_err);
            let assume = kind.starts_with("a-");
            let kind = kind.trim_start_matches("a-");
            let s = if kind.is_empty() || kind == "simple" {
                Z3_mk_simple_solver(c)
            } else {
                let l = CString::new(kind).unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
            };
            Z3_solver_inc_ref(c, s);
            Solver { c, s, bv: vec![], bo: vec![], decl: vec![], stack: vec![], assume, lits: vec![], nlits: 0, slow: 0, last: 0, stats: SolverStats::default() }
        }
    }

    fn num(&self, v: u128, w: u8) -> P {
        unsafe {
            let so = Z3_mk_bv_sort(self.c, w as c_uint);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, so)
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), so)
            }
        }
    }

    fn fp(&mut self, t: T) -> P {
        let w = tm().w(t);
        let b = self.tr(t);
        unsafe {
            let so = if w == 32 { Z3_mk_fpa_sort_single(self.c) } else { Z3_mk_fpa_sort_double(self.c) };
            Z3_mk_fpa_to_fp_bv(self.c, b, so)
        }
    }

    /// bit-vector translation
    fn tr(&mut self, t: T) -> P {
        let ti = t as usize;
        if self.bv.len() <= ti {
            self.bv.resize(tm().nodes.len().max(ti + 1), std::ptr::null_mut());
        }
        if !self.bv[ti].is_null() {
            return self.bv[ti];
        }
        let n = tm().nodes[ti];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const(v) => self.num(v, n.w),
                Op::Var(v) => {
                    let name = CString::new(format!("v{}", v)).unwrap();
                    let so = Z3_mk_bv_sort(c, n.w as c_uint);
                    let k = Z3_mk_const(c, Z3_mk_string_symbol(c, name.as_ptr()), so);
                    let vi = v as usize;
                    if self.decl.len() <= vi {
                        self.decl.resize(vi + 1, std::ptr::null_mut());
                    }
                    self.decl[vi] = Z3_get_app_decl(c, k);
                    k
                }
                Op::Concat(h, l) => {
                    let (a, b) = (self.tr(h), self.tr(l));
                    Z3_mk_concat(c, a, b)
                }
                Op::Extract(x, lo) => {
                    let a = self.tr(x);
                    Z3_mk_extract(c, (lo + n.w - 1) as c_uint, lo as c_uint, a)
                }
                Op::Ite(k, x, y) => {
                    let kb = self.trb(k);
                    let (a, b) = (self.tr(x), self.tr(y));
                    Z3_mk_ite(c, kb, a, b)
                }
                Op::Un(u, x) => {
                    let wi = tm().w(x);
                    match u {
                        U::Not => {
                            let a = self.tr(x);
                            Z3_mk_bvnot(c, a)
                        }
                        U::ZExt => {
                            let a = self.tr(x);
                            Z3_mk_zero_ext(c, (n.w - wi) as c_uint, a)
                        }
                        U::SExt => {
                            let a = self.tr(x);
                            Z3_mk_sign_ext(c, (n.w - wi) as c_uint, a)
                        }
                        U::UToF | U::SToF => {
                            let a = self.tr(x);
                            let so = if n.w == 32 { Z3_mk_fpa_sort_single(c) } else { Z3_mk_fpa_sort_double(c) };
                            let f = if u == U::UToF {
                                Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, so)
                            } else {
                                Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, so)
                            };
                            Z3_mk_fpa_to_ieee_bv(c, f)
                        }
                        U::FToUSat | U::FToSSat => {
                            // range guards are built by the engine around this conversion
                            let a = self.fp(x);
                            if u == U::FToUSat {
                                Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), a, n.w as c_uint)
                            } else {
                                Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), a, n.w as c_uint)
                            }
                        }
                        _ => {
                            let a = self.fp(x);
                            let f = match u {
                                U::FSqrt => Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), a),
                                U::FFloor => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), a),
                                U::FCeil => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), a),
                                U::FTrunc => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), a),
                                U::FRound => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), a),
                                U::FRoundEven => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rne(c), a),
                                U::FExt => Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, Z3_mk_fpa_sort_double(c)),
                                U::FTruncTo32 => {
                                    Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, Z3_mk_fpa_sort_single(c))
                                }
                                _ => unreachable!(),
                            };
                            Z3_mk_fpa_to_ieee_bv(c, f)
                        }
                    }
                }
                Op::Bin(b, x, y) => match b {
                    B::Eq | B::Ult | B::Ule | B::Slt | B::Sle => {
                        let k = self.trb(t);
                        let (one, zero) = (self.num(1, 1), self.num(0, 1));
                        Z3_mk_ite(c, k, one, zero)
                    }
                    B::FAdd | B::FSub | B::FMul | B::FDiv => {
                        let (a, d) = (self.fp(x), self.fp(y));
                        let r = Z3_mk_fpa_rne(c);
                        let f = match b {
                            B::FAdd => Z3_mk_fpa_add(c, r, a, d),
                            B::FSub => Z3_mk_fpa_sub(c, r, a, d),
                            B::FMul => Z3_mk_fpa_mul(c, r, a, d),
                            _ => Z3_mk_fpa_div(c, r, a, d),
                        };
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    }
                    B::FRem => {
                        eprintln!("symbolic frem unsupported");
                        std::process::exit(3)
                    }
                    _ => {
                        let (a, d) = (self.tr(x), self.tr(y));
                        match b {
                            B::Add => Z3_mk_bvadd(c, a, d),
                            B::Sub => Z3_mk_bvsub(c, a, d),
                            B::Mul => Z3_mk_bvmul(c, a, d),
                            B::UDiv => Z3_mk_bvudiv(c, a, d),
                            B::URem => Z3_mk_bvurem(c, a, d),
                            B::SDiv => Z3_mk_bvsdiv(c, a, d),
                            B::SRem => Z3_mk_bvsrem(c, a, d),
                            B::Shl => Z3_mk_bvshl(c, a, d),
                            B::LShr => Z3_mk_bvlshr(c, a, d),
                            B::AShr => Z3_mk_bvashr(c, a, d),
                            B::And => Z3_mk_bvand(c, a, d),
                            B::Or => Z3_mk_bvor(c, a, d),
                            B::Xor => Z3_mk_bvxor(c, a, d),
                            _ => unreachable!(),
                        }
                    }
                },
            }
        };
        if self.bv.len() <= ti {
            self.bv.resize(tm().nodes.len().max(ti + 1), std::ptr::null_mut());
        }
        self.bv[ti] = r;
        r
    }

    /// boolean translation of a width-1 term
    fn trb(&mut self, t: T) -> P {
        let ti = t as usize;
        if self.bo.len() <= ti {
            self.bo.resize(tm().nodes.len().max(ti + 1), std::ptr::null_mut());
        }
        if !self.bo[ti].is_null() {
            return self.bo[ti];
        }
        let n = tm().nodes[ti];
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const(v) => {
                    if v != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Un(U::Not, x) => {
                    let a = self.trb(x);
                    Z3_mk_not(c, a)
                }
                Op::Bin(b @ (B::And | B::Or | B::Xor), x, y) => {
                    let v = [self.trb(x), self.trb(y)];
                    match b {
                        B::And => Z3_mk_and(c, 2, v.as_ptr()),
                        B::Or => Z3_mk_or(c, 2, v.as_ptr()),
                        _ => Z3_mk_xor(c, v[0], v[1]),
                    }
                }
                Op::Ite(k, x, y) => {
                    let (k, x, y) = (self.trb(k), self.trb(x), self.trb(y));
                    Z3_mk_ite(c, k, x, y)
                }
                Op::Bin(b @ (B::Eq | B::Ult | B::Ule | B::Slt | B::Sle), x, y) => {
                    let (a, d) = (self.tr(x), self.tr(y));
                    match b {
                        B::Eq => Z3_mk_eq(c, a, d),
                        B::Ult => Z3_mk_bvult(c, a, d),
                        B::Ule => Z3_mk_bvule(c, a, d),
                        B::Slt => Z3_mk_bvslt(c, a, d),
                        _ => Z3_mk_bvsle(c, a, d),
                    }
                }
                _ => {
                    let a = self.tr(t);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        if self.bo.len() <= ti {
            self.bo.resize(tm().nodes.len().max(ti + 1), std::ptr::null_mut());
        }
        self.bo[ti] = r;
        r
    }

    fn lit(&mut self, t: T) -> P {
        let ti = t as usize;
        if self.lits.len() <= ti {
            self.lits.resize(tm().nodes.len().max(ti + 1), std::ptr::null_mut());
        }
        if self.lits[ti].is_null() {
            let b = self.trb(t);
            unsafe {
                let n = CString::new(format!("p{}", ti)).unwrap();
                let l = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, n.as_ptr()), Z3_mk_bool_sort(self.c));
                Z3_solver_assert(self.c, self.s, Z3_mk_implies(self.c, l, b));
                self.lits[ti] = l;
            }
            self.nlits += 1;
        }
        self.lits[ti]
    }
    fn done(&mut self, start: Instant) {
        let dt = start.elapsed().as_nanos() as u64;
        self.stats.queries += 1;
        self.stats.time_ns += dt;
        self.stats.max_ns = self.stats.max_ns.max(dt);
        if self.slow > 0 && dt > self.slow {
            eprintln!("slow query: {:.2} s: {}", dt as f64 / 1e9, tm().show(self.last, 12));
        }
    }
    unsafe fn answer(&mut self, r: c_int, model: &mut Vec<u128>) -> Ans {
            match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let nv = tm().nvars as usize;
                    model.resize(nv, 0);
                    for v in 0..nv.min(self.decl.len()) {
                        let d = self.decl[v];
                        if d.is_null() {
                            continue;
                        }
                        let i = Z3_model_get_const_interp(self.c, m, d);
                        if i.is_null() {
                            continue;
                        }
                        if tm().var_w[v] <= 64 {
                            let mut o = 0u64;
                            if Z3_get_numeral_uint64(self.c, i, &mut o) {
                                model[v] = o as u128;
                            }
                        } else {
                            let s = CStr::from_ptr(Z3_get_numeral_string(self.c, i)).to_string_lossy();
                            model[v] = s.parse().unwrap_or(0);
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.stats.sat += 1;
                    Ans::Sat
                }
                -1 => {
                    self.stats.unsat += 1;
                    Ans::Unsat
                }
                _ => {
                    self.stats.unknown += 1;
                    Ans::Unknown(
                        CStr::from_ptr(Z3_solver_get_reason_unknown(self.c, self.s)).to_string_lossy().into_owned(),
                    )
                }
            }
    }
    /// Is `pc` together with `cond` satisfiable? On sat, `model` is updated.
    pub fn check(&mut self, pc: &[(u64, T)], cond: T, model: &mut Vec<u128>) -> Ans {
        self.last = cond;
        let start = Instant::now();
        if self.assume {
            let r = unsafe {
                if self.nlits > 4000 {
                    Z3_solver_reset(self.c, self.s);
                    self.lits.clear();
                    self.nlits = 0;
                }
                let mut v: Vec<P> = Vec::with_capacity(pc.len() + 1);
                for &(_, t) in pc {
                    let l = self.lit(t);
                    v.push(l);
                }
                let l = self.lit(cond);
                v.push(l);
                let r = Z3_solver_check_assumptions(self.c, self.s, v.len() as c_uint, v.as_ptr());
                self.answer(r, model)
            };
            self.done(start);
            return r;
        }
        let mut k = 0;
        while k < self.stack.len() && k < pc.len() && self.stack[k] == pc[k].0 {
            k += 1;
        }
        unsafe {
            if self.stack.len() > k {
                Z3_solver_pop(self.c, self.s, (self.stack.len() - k) as c_uint);
                self.stack.truncate(k);
            }
            for &(id, t) in &pc[k..] {
                let b = self.trb(t);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, b);
                self.stack.push(id);
            }
            let b = self.trb(cond);
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, b);
            let r = Z3_solver_check(self.c, self.s);
            let ans = self.answer(r, model);
            Z3_solver_pop(self.c, self.s, 1);
            self.done(start);
            ans
        }
    }
}
