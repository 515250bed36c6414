//! Minimal binding to libz3 and the translation of expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_round_nearest_ties_to_even(c: P) -> P;
    fn Z3_mk_fpa_round_nearest_ties_to_away(c: P) -> P;
    fn Z3_mk_fpa_round_toward_zero(c: P) -> P;
    fn Z3_mk_fpa_round_toward_positive(c: P) -> P;
    fn Z3_mk_fpa_round_toward_negative(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_neg(c: P, a: P) -> P;
    fn Z3_mk_fpa_abs(c: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, n: c_uint) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, r: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, r: *mut u64) -> bool;
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_uint) {
    unsafe {
        eprintln!("symx: Z3 error: {}", CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy());
    }
    std::process::exit(70);
}

pub enum Res {
    Sat(Vec<(u32, i64)>),
    Unsat,
    Unknown(String),
}

pub struct Z3 {
    c: P,
    cache: Vec<P>,
    vars: Vec<P>,
    fsort: P,
    rne: P,
    logic: P,
    pub rlimit: u32,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
}

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let l = CString::new("QF_BV").unwrap();
            Z3 {
                c,
                cache: vec![],
                vars: vec![],
                fsort: Z3_mk_fpa_sort_double(c),
                rne: Z3_mk_fpa_round_nearest_ties_to_even(c),
                logic: Z3_mk_string_symbol(c, l.as_ptr()),
                rlimit,
            }
        }
    }
    fn bv(&self, v: u128, w: u8) -> P {
        unsafe {
            if w <= 64 {
                Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, w as c_uint))
            } else {
                let h = Z3_mk_unsigned_int64(self.c, (v >> 64) as u64, Z3_mk_bv_sort(self.c, w as c_uint - 64));
                let l = Z3_mk_unsigned_int64(self.c, v as u64, Z3_mk_bv_sort(self.c, 64));
                Z3_mk_concat(self.c, h, l)
            }
        }
    }
    /// as a bit-vector even when width is 1
    fn trbv(&mut self, p: &Pool, e: E) -> P {
        let a = self.tr(p, e);
        if p.w(e) == 1 {
            unsafe { Z3_mk_ite(self.c, a, self.bv(1, 1), self.bv(0, 1)) }
        } else {
            a
        }
    }
    fn tobool(&self, a: P) -> P {
        unsafe { Z3_mk_eq(self.c, a, self.bv(1, 1)) }
    }
    fn var(&mut self, p: &Pool, i: u32) -> P {
        while self.vars.len() <= i as usize {
            let j = self.vars.len();
            let n = CString::new(format!("v{}", j)).unwrap();
            unsafe {
                let s = Z3_mk_string_symbol(self.c, n.as_ptr());
                let v = Z3_mk_const(self.c, s, Z3_mk_bv_sort(self.c, p.vars[j].w as c_uint));
                self.vars.push(v);
            }
        }
        self.vars[i as usize]
    }
    pub fn tr(&mut self, p: &Pool, e: E) -> P {
        if self.cache.len() < p.n.len() {
            self.cache.resize(p.n.len(), std::ptr::null_mut());
        }
        if !self.cache[e as usize].is_null() {
            return self.cache[e as usize];
        }
        let w = p.w(e);
        let r = unsafe {
            match p.n[e as usize] {
                N::C(v) => {
                    if w == 1 {
                        if v == 1 { Z3_mk_true(self.c) } else { Z3_mk_false(self.c) }
                    } else {
                        self.bv(v, w)
                    }
                }
                N::Var(i) => self.var(p, i),
                N::Bin(op, a, b) => {
                    if w == 1 {
                        let x = self.tr(p, a);
                        let y = self.tr(p, b);
                        match op {
                            B::And | B::Mul => {
                                let v = [x, y];
                                Z3_mk_and(self.c, 2, v.as_ptr())
                            }
                            B::Or => {
                                let v = [x, y];
                                Z3_mk_or(self.c, 2, v.as_ptr())
                            }
                            B::Xor | B::Add | B::Sub => {
                                if p.is_c(b) == Some(1) {
                                    Z3_mk_not(self.c, x)
                                } else {
                                    Z3_mk_xor(self.c, x, y)
                                }
                            }
                            _ => {
                                let x = self.trbv(p, a);
                                let y = self.trbv(p, b);
                                let r = self.binop(op, x, y);
                                self.tobool(r)
                            }
                        }
                    } else {
                        let x = self.tr(p, a);
                        let y = self.tr(p, b);
                        self.binop(op, x, y)
                    }
                }
                N::Cmp(op, a, b) => {
                    let x = self.trbv(p, a);
                    let y = self.trbv(p, b);
                    match op {
                        Cmp::Eq => Z3_mk_eq(self.c, x, y),
                        Cmp::Ult => Z3_mk_bvult(self.c, x, y),
                        Cmp::Ule => Z3_mk_bvule(self.c, x, y),
                        Cmp::Slt => Z3_mk_bvslt(self.c, x, y),
                        Cmp::Sle => Z3_mk_bvsle(self.c, x, y),
                    }
                }
                N::Ite(c, a, b) | N::FIte(c, a, b) => {
                    let c = self.tr(p, c);
                    let x = self.tr(p, a);
                    let y = self.tr(p, b);
                    Z3_mk_ite(self.c, c, x, y)
                }
                N::ZExt(a) => {
                    let x = self.trbv(p, a);
                    Z3_mk_zero_ext(self.c, (w - p.w(a)) as c_uint, x)
                }
                N::SExt(a) => {
                    let x = self.trbv(p, a);
                    Z3_mk_sign_ext(self.c, (w - p.w(a)) as c_uint, x)
                }
                N::Ext(a, lo) => {
                    let x = self.trbv(p, a);
                    let r = Z3_mk_extract(self.c, (lo + w - 1) as c_uint, lo as c_uint, x);
                    if w == 1 { self.tobool(r) } else { r }
                }
                N::Concat(h, l) => {
                    let x = self.trbv(p, h);
                    let y = self.trbv(p, l);
                    Z3_mk_concat(self.c, x, y)
                }
                N::FConst(b) => Z3_mk_fpa_to_fp_bv(self.c, self.bv(b as u128, 64), self.fsort),
                N::FDy(n, k, z) => {
                    let x = self.trbv(p, n);
                    let f = Z3_mk_fpa_to_fp_signed(self.c, self.rne, x, self.fsort);
                    let s = (2f64).powi(-(k as i32)).to_bits();
                    let s = Z3_mk_fpa_to_fp_bv(self.c, self.bv(s as u128, 64), self.fsort);
                    let f = if k == 0 { f } else { Z3_mk_fpa_mul(self.c, self.rne, f, s) };
                    if p.is_c(z) == Some(0) {
                        f
                    } else {
                        let zero = self.bv(0, p.w(n));
                        let isz = Z3_mk_eq(self.c, x, zero);
                        let z = self.tr(p, z);
                        let v = [isz, z];
                        let c = Z3_mk_and(self.c, 2, v.as_ptr());
                        let nz = Z3_mk_fpa_to_fp_bv(self.c, self.bv(1 << 63, 64), self.fsort);
                        Z3_mk_ite(self.c, c, nz, f)
                    }
                }
                N::FBin(op, a, b) => {
                    let x = self.tr(p, a);
                    let y = self.tr(p, b);
                    match op {
                        FB::Add => Z3_mk_fpa_add(self.c, self.rne, x, y),
                        FB::Sub => Z3_mk_fpa_sub(self.c, self.rne, x, y),
                        FB::Mul => Z3_mk_fpa_mul(self.c, self.rne, x, y),
                        FB::Div => Z3_mk_fpa_div(self.c, self.rne, x, y),
                    }
                }
                N::FUn(op, a) => {
                    let x = self.tr(p, a);
                    match op {
                        FU::Neg => Z3_mk_fpa_neg(self.c, x),
                        FU::Abs => Z3_mk_fpa_abs(self.c, x),
                        FU::Sqrt => Z3_mk_fpa_sqrt(self.c, self.rne, x),
                        FU::Round => Z3_mk_fpa_round_to_integral(self.c, Z3_mk_fpa_round_nearest_ties_to_away(self.c), x),
                        FU::Floor => Z3_mk_fpa_round_to_integral(self.c, Z3_mk_fpa_round_toward_negative(self.c), x),
                        FU::Ceil => Z3_mk_fpa_round_to_integral(self.c, Z3_mk_fpa_round_toward_positive(self.c), x),
                        FU::Trunc => Z3_mk_fpa_round_to_integral(self.c, Z3_mk_fpa_round_toward_zero(self.c), x),
                    }
                }
                N::FFromBits(a) => {
                    let x = self.tr(p, a);
                    Z3_mk_fpa_to_fp_bv(self.c, x, self.fsort)
                }
                N::FBits(a) => {
                    let x = self.tr(p, a);
                    Z3_mk_fpa_to_ieee_bv(self.c, x)
                }
                N::FCmp(op, a, b) => {
                    let x = self.tr(p, a);
                    let y = self.tr(p, b);
                    match op {
                        FC::Eq => Z3_mk_fpa_eq(self.c, x, y),
                        FC::Lt => Z3_mk_fpa_lt(self.c, x, y),
                        FC::Le => Z3_mk_fpa_leq(self.c, x, y),
                    }
                }
                N::FIsNan(a) => {
                    let x = self.tr(p, a);
                    Z3_mk_fpa_is_nan(self.c, x)
                }
                N::SToF(a) => {
                    let x = self.trbv(p, a);
                    Z3_mk_fpa_to_fp_signed(self.c, self.rne, x, self.fsort)
                }
                N::UToF(a) => {
                    let x = self.trbv(p, a);
                    Z3_mk_fpa_to_fp_unsigned(self.c, self.rne, x, self.fsort)
                }
                N::FToS(a) => {
                    let x = self.tr(p, a);
                    Z3_mk_fpa_to_sbv(self.c, Z3_mk_fpa_round_toward_zero(self.c), x, w as c_uint)
                }
                N::FToU(a) => {
                    let x = self.tr(p, a);
                    Z3_mk_fpa_to_ubv(self.c, Z3_mk_fpa_round_toward_zero(self.c), x, w as c_uint)
                }
            }
        };
        self.cache[e as usize] = r;
        r
    }
    fn binop(&self, op: B, x: P, y: P) -> P {
        unsafe {
            match op {
                B::Add => Z3_mk_bvadd(self.c, x, y),
                B::Sub => Z3_mk_bvsub(self.c, x, y),
                B::Mul => Z3_mk_bvmul(self.c, x, y),
                B::UDiv => Z3_mk_bvudiv(self.c, x, y),
                B::SDiv => Z3_mk_bvsdiv(self.c, x, y),
                B::URem => Z3_mk_bvurem(self.c, x, y),
                B::SRem => Z3_mk_bvsrem(self.c, x, y),
                B::Shl => Z3_mk_bvshl(self.c, x, y),
                B::LShr => Z3_mk_bvlshr(self.c, x, y),
                B::AShr => Z3_mk_bvashr(self.c, x, y),
                B::And => Z3_mk_bvand(self.c, x, y),
                B::Or => Z3_mk_bvor(self.c, x, y),
                B::Xor => Z3_mk_bvxor(self.c, x, y),
            }
        }
    }
    /// Is the conjunction satisfiable (with every variable inside its declared range)?
    pub fn check(&mut self, p: &Pool, conj: &[E]) -> Res {
        let mut seen = FSet::default();
        let mut vars = vec![];
        let mut fp = false;
        for &e in conj {
            p.collect_vars(e, &mut seen, &mut vars);
            fp |= p.info[e as usize].fp;
        }
        vars.sort();
        vars.dedup();
        unsafe {
            let s = if fp { Z3_mk_solver(self.c) } else { Z3_mk_solver_for_logic(self.c, self.logic) };
            Z3_solver_inc_ref(self.c, s);
            if self.rlimit > 0 {
                let pa = Z3_mk_params(self.c);
                Z3_params_inc_ref(self.c, pa);
                let k = CString::new("rlimit").unwrap();
                let k = Z3_mk_string_symbol(self.c, k.as_ptr());
                Z3_params_set_uint(self.c, pa, k, self.rlimit);
                Z3_solver_set_params(self.c, s, pa);
            }
            for &v in &vars {
                let x = self.var(p, v);
                let vi = &p.vars[v as usize];
                let lo = self.bv((vi.lo as i128 as u128) & mask(vi.w), vi.w);
                let hi = self.bv((vi.hi as i128 as u128) & mask(vi.w), vi.w);
                let a = Z3_mk_bvsle(self.c, lo, x);
                Z3_solver_assert(self.c, s, a);
                let a = Z3_mk_bvsle(self.c, x, hi);
                Z3_solver_assert(self.c, s, a);
            }
            for &e in conj {
                let a = self.tr(p, e);
                Z3_solver_assert(self.c, s, a);
            }
            if let Ok(f) = std::env::var("SYMX_DUMP") {
                use std::io::Write;
                let mut o = std::fs::OpenOptions::new().create(true).append(true).open(f).unwrap();
                writeln!(o, "(push)\n{}(check-sat)\n(pop)", CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy()).unwrap();
            }
            let r = Z3_solver_check(self.c, s);
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for &v in &vars {
                        let x = self.var(p, v);
                        let mut r: P = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, x, true, &mut r);
                        let mut n = 0u64;
                        Z3_get_numeral_uint64(self.c, r, &mut n);
                        out.push((v, sext128(n as u128, p.vars[v as usize].w) as i64));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown(CStr::from_ptr(Z3_solver_get_reason_unknown(self.c, s)).to_string_lossy().to_string()),
            };
            Z3_solver_dec_ref(self.c, s);
            res
        }
    }
}
