//! z3 behind a constraint-slice cache.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_get_symbol_int(c: P, s: P) -> c_int;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, i: P, t: P, e: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_from_string(c: P, s: P, t: *const c_char);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_get_num_consts(c: P, m: P) -> c_uint;
    fn Z3_model_get_const_decl(c: P, m: P, i: c_uint) -> P;
    fn Z3_model_get_const_interp(c: P, m: P, d: P) -> P;
    fn Z3_get_decl_name(c: P, d: P) -> P;
    fn Z3_get_symbol_string(c: P, s: P) -> *const c_char;
    fn Z3_get_symbol_kind(c: P, s: P) -> c_int;
    fn Z3_get_numeral_uint64(c: P, a: P, o: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error {}: {}", e, m.to_string_lossy());
    std::process::exit(4);
}

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Vec<(u32, u8)>>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub asked: u64,
    pub cache_hits: u64,
    pub z3: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub slow: u64,
    pub arith: u64,
    pub time: f64,
    pub max_time: f64,
}

pub struct Solver {
    c: P,
    memo: HashMap<E, P, BuildFx>,
    fmemo: HashMap<E, P, BuildFx>,
    rne: P,
    rtz: P,
    dbl: P,
    sgl: P,
    cache: HashMap<(u64, u64), Res, BuildFx>,
    text_cache: HashMap<u64, (i32, Rc<Vec<(u32, u8)>>)>,
    pub st: Stats,
    pub timeout_ms: u32,
    pub dump: Option<String>,
    pub dumped: u32,
    fast_params: P,
    slow_params: P,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

fn mix(h: (u64, u64), x: u64) -> (u64, u64) {
    let a = (h.0 ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
    let b = (h.1.rotate_left(7) ^ x.wrapping_mul(0xC2B2AE3D27D4EB4F)).wrapping_mul(0x165667B19E3779F9);
    (a, b)
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let keep = |a: P| {
                Z3_inc_ref(c, a);
                a
            };
            let mkp = |ms: u32| {
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let k = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), ms);
                p
            };
            let fast_params = mkp(400);
            let slow_params = mkp(timeout_ms);
            Solver {
                c,
                memo: HashMap::default(),
                fmemo: HashMap::default(),
                rne: keep(Z3_mk_fpa_rne(c)),
                rtz: keep(Z3_mk_fpa_rtz(c)),
                dbl: keep(Z3_mk_fpa_sort_double(c)),
                sgl: keep(Z3_mk_fpa_sort_single(c)),
                cache: HashMap::default(),
                text_cache: HashMap::new(),
                st: Stats::default(),
                timeout_ms,
                dump: None,
                dumped: 0,
                fast_params,
                slow_params,
            }
        }
    }

    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }

    /// As a bit-vector term (width-1 values as 1-bit vectors).
    fn bv(&mut self, e: E) -> P {
        let t = self.term(e);
        if width(e) == 1 {
            unsafe {
                let s = Z3_mk_bv_sort(self.c, 1);
                let one = Z3_mk_unsigned_int64(self.c, 1, s);
                let zero = Z3_mk_unsigned_int64(self.c, 0, s);
                Z3_mk_ite(self.c, t, one, zero)
            }
        } else {
            t
        }
    }

    /// As a floating point term.
    fn fp(&mut self, e: E) -> P {
        if let Some(&t) = self.fmemo.get(&e) {
            return t;
        }
        let n = node(e);
        let c = self.c;
        let sort = if n.w == 64 { self.dbl } else { self.sgl };
        let t = unsafe {
            match n.op {
                Op::FAdd => Z3_mk_fpa_add(c, self.rne, self.fp(n.a), self.fp(n.b)),
                Op::FSub => Z3_mk_fpa_sub(c, self.rne, self.fp(n.a), self.fp(n.b)),
                Op::FMul => Z3_mk_fpa_mul(c, self.rne, self.fp(n.a), self.fp(n.b)),
                Op::FDiv => Z3_mk_fpa_div(c, self.rne, self.fp(n.a), self.fp(n.b)),
                Op::FExt | Op::FTrunc => Z3_mk_fpa_to_fp_float(c, self.rne, self.fp(n.a), sort),
                Op::UToF => Z3_mk_fpa_to_fp_unsigned(c, self.rne, self.bv(n.a), sort),
                Op::SToF => Z3_mk_fpa_to_fp_signed(c, self.rne, self.bv(n.a), sort),
                Op::Ite => {
                    let i = self.term(n.a);
                    let x = self.fp(n.b);
                    let y = self.fp(n.c);
                    Z3_mk_ite(c, i, x, y)
                }
                _ => {
                    let b = self.bv(e);
                    Z3_mk_fpa_to_fp_bv(c, b, sort)
                }
            }
        };
        let t = self.keep(t);
        self.fmemo.insert(e, t);
        t
    }

    fn term(&mut self, e: E) -> P {
        if let Some(&t) = self.memo.get(&e) {
            return t;
        }
        let n = node(e);
        let c = self.c;
        let w = n.w as u32;
        let t = unsafe {
            match n.op {
                Op::Const => {
                    let v = as_const(e).unwrap();
                    if w == 1 {
                        if v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else if w <= 64 {
                        Z3_mk_unsigned_int64(c, v as u64, Z3_mk_bv_sort(c, w))
                    } else {
                        let s = CString::new(v.to_string()).unwrap();
                        Z3_mk_numeral(c, s.as_ptr(), Z3_mk_bv_sort(c, w))
                    }
                }
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), Z3_mk_bv_sort(c, 8)),
                Op::And | Op::Or | Op::Xor if w == 1 => {
                    if n.op == Op::Xor && as_const(n.b) == Some(1) {
                        let x = self.term(n.a);
                        Z3_mk_not(c, x)
                    } else {
                        let x = self.term(n.a);
                        let y = self.term(n.b);
                        match n.op {
                            Op::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                            _ => Z3_mk_xor(c, x, y),
                        }
                    }
                }
                Op::Eq if width(n.a) == 1 => {
                    let x = self.term(n.a);
                    let y = self.term(n.b);
                    Z3_mk_eq(c, x, y)
                }
                Op::Ite => {
                    let i = self.term(n.a);
                    let x = self.term(n.b);
                    let y = self.term(n.c);
                    Z3_mk_ite(c, i, x, y)
                }
                Op::FLt => Z3_mk_fpa_lt(c, self.fp(n.a), self.fp(n.b)),
                Op::FLe => Z3_mk_fpa_leq(c, self.fp(n.a), self.fp(n.b)),
                Op::FEq => Z3_mk_fpa_eq(c, self.fp(n.a), self.fp(n.b)),
                Op::FIsNan => Z3_mk_fpa_is_nan(c, self.fp(n.a)),
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FExt | Op::FTrunc | Op::UToF | Op::SToF => {
                    let x = self.fp(e);
                    Z3_mk_fpa_to_ieee_bv(c, x)
                }
                Op::FToU => Z3_mk_fpa_to_ubv(c, self.rtz, self.fp(n.a), w),
                Op::FToS => Z3_mk_fpa_to_sbv(c, self.rtz, self.fp(n.a), w),
                _ => {
                    let x = self.bv(n.a);
                    match n.op {
                        Op::Extract => {
                            let r = Z3_mk_extract(c, n.b + w - 1, n.b, x);
                            if w == 1 {
                                let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                                Z3_mk_eq(c, r, one)
                            } else {
                                r
                            }
                        }
                        Op::ZExt => Z3_mk_zero_ext(c, w - width(n.a), x),
                        Op::SExt => Z3_mk_sign_ext(c, w - width(n.a), x),
                        _ => {
                            let y = self.bv(n.b);
                            let f: unsafe extern "C" fn(P, P, P) -> P = match n.op {
                                Op::Add => Z3_mk_bvadd,
                                Op::Sub => Z3_mk_bvsub,
                                Op::Mul => Z3_mk_bvmul,
                                Op::UDiv => Z3_mk_bvudiv,
                                Op::SDiv => Z3_mk_bvsdiv,
                                Op::URem => Z3_mk_bvurem,
                                Op::SRem => Z3_mk_bvsrem,
                                Op::And => Z3_mk_bvand,
                                Op::Or => Z3_mk_bvor,
                                Op::Xor => Z3_mk_bvxor,
                                Op::Shl => Z3_mk_bvshl,
                                Op::LShr => Z3_mk_bvlshr,
                                Op::AShr => Z3_mk_bvashr,
                                Op::Eq => Z3_mk_eq,
                                Op::Ult => Z3_mk_bvult,
                                Op::Slt => Z3_mk_bvslt,
                                Op::Concat => Z3_mk_concat,
                                _ => panic!("no z3 term for {:?}", n.op),
                            };
                            let r = f(c, x, y);
                            if w == 1 && !matches!(n.op, Op::Eq | Op::Ult | Op::Slt) {
                                let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                                Z3_mk_eq(c, r, one)
                            } else {
                                r
                            }
                        }
                    }
                }
            }
        };
        let t = self.keep(t);
        self.memo.insert(e, t);
        t
    }

    /// Satisfiability of the conjunction. `cs` must be sorted.
    /// `alt` gives an equivalent integer query to try when bit blasting is not quick.
    pub fn check(&mut self, cs: &[E], alt: &dyn Fn() -> Option<String>) -> Res {
        self.st.asked += 1;
        let mut h = (0x243F6A8885A308D3u64, 0x13198A2E03707344u64);
        for &e in cs {
            h = mix(h, e as u64 + 1);
        }
        if let Some(r) = self.cache.get(&h) {
            self.st.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        // sums of many scaled digits are left to integer arithmetic
        let mut seen = std::collections::HashSet::new();
        let first = cs.iter().map(|&e| muls(e, &mut seen)).sum::<u32>() >= 8;
        let mut r = if first { Res::Unknown } else { self.run(cs, true) };
        if let Res::Unknown = r {
            self.st.slow += 1;
            if let Some(q) = alt() {
                let (x, m) = self.check_text_model(&q);
                self.st.asked -= 1;
                r = match x {
                    1 => Res::Sat(m),
                    -1 => Res::Unsat,
                    _ => Res::Unknown,
                };
            }
            if let Res::Unknown = r {
                r = self.run(cs, false);
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.st.time += dt;
        if dt > self.st.max_time {
            self.st.max_time = dt;
        }
        self.st.z3 += 1;
        match r {
            Res::Sat(_) => self.st.sat += 1,
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        self.cache.insert(h, r.clone());
        r
    }

    /// Checks an arithmetic query given as SMT-LIB text: 1 sat, -1 unsat, 0 unknown.
    pub fn check_text(&mut self, q: &str) -> i32 {
        self.check_text_model(q).0
    }

    /// With values for the integers named v0, v1, ... when satisfiable.
    pub fn check_text_model(&mut self, q: &str) -> (i32, Rc<Vec<(u32, u8)>>) {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        q.hash(&mut h);
        let h = h.finish();
        self.st.asked += 1;
        if let Some(r) = self.text_cache.get(&h) {
            self.st.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let c = self.c;
        let mut model: Vec<(u32, u8)> = Vec::new();
        let r = unsafe {
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            Z3_solver_set_params(c, s, self.slow_params);
            let t = CString::new(q).unwrap();
            Z3_solver_from_string(c, s, t.as_ptr());
            let r = Z3_solver_check(c, s);
            if r == 1 {
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                for i in 0..Z3_model_get_num_consts(c, m) {
                    let d = Z3_model_get_const_decl(c, m, i);
                    let sy = Z3_get_decl_name(c, d);
                    if Z3_get_symbol_kind(c, sy) != 1 {
                        continue;
                    }
                    let nm = CStr::from_ptr(Z3_get_symbol_string(c, sy)).to_string_lossy().into_owned();
                    let val = Z3_model_get_const_interp(c, m, d);
                    let mut o = 0u64;
                    if nm.starts_with('v') && !val.is_null() && Z3_get_numeral_uint64(c, val, &mut o) {
                        if let Ok(k) = nm[1..].parse::<u32>() {
                            model.push((k, o as u8));
                        }
                    }
                }
                Z3_model_dec_ref(c, m);
            }
            Z3_solver_dec_ref(c, s);
            r
        };
        let model = Rc::new(model);
        if let Some(d) = &self.dump {
            if self.dumped < 400 && r != 0 {
                let _ = std::fs::write(
                    format!("{}/q{}_{}.smt2", d, std::process::id(), self.dumped),
                    format!("; expect {}\n(set-logic ALL)\n{}(check-sat)\n", if r == 1 { "sat" } else { "unsat" }, q),
                );
                self.dumped += 1;
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.st.time += dt;
        self.st.max_time = self.st.max_time.max(dt);
        self.st.z3 += 1;
        self.st.arith += 1;
        match r {
            1 => self.st.sat += 1,
            -1 => self.st.unsat += 1,
            _ => self.st.unknown += 1,
        }
        self.text_cache.insert(h, (r, model.clone()));
        (r, model)
    }

    fn run(&mut self, cs: &[E], fast: bool) -> Res {
        let ts: Vec<P> = cs.iter().map(|&e| self.term(e)).collect();
        let c = self.c;
        unsafe {
            let s = if fast {
                Z3_mk_simple_solver(c)
            } else {
                let k = CString::new("QF_FPBV").unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, k.as_ptr()))
            };
            Z3_solver_inc_ref(c, s);
            Z3_solver_set_params(c, s, if fast { self.fast_params } else { self.slow_params });
            for t in ts {
                Z3_solver_assert(c, s, t);
            }
            let r = Z3_solver_check(c, s);
            if let Some(d) = &self.dump {
                if self.dumped < 400 && r != 0 {
                    let txt = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy();
                    let txt = txt.replace("k!", "kk");
                    let _ = std::fs::write(
                        format!("{}/q{}_{}.smt2", d, std::process::id(), self.dumped),
                        format!("; expect {}\n(set-logic ALL)\n{}(check-sat)\n", if r == 1 { "sat" } else { "unsat" }, txt),
                    );
                    self.dumped += 1;
                }
            }
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let n = Z3_model_get_num_consts(c, m);
                    let mut v = Vec::new();
                    for i in 0..n {
                        let d = Z3_model_get_const_decl(c, m, i);
                        let sy = Z3_get_decl_name(c, d);
                        if Z3_get_symbol_kind(c, sy) != 0 {
                            continue;
                        }
                        let id = Z3_get_symbol_int(c, sy);
                        let val = Z3_model_get_const_interp(c, m, d);
                        let mut o = 0u64;
                        if !val.is_null() && Z3_get_numeral_uint64(c, val, &mut o) {
                            v.push((id as u32, o as u8));
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(Rc::new(v))
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(c, s);
            res
        }
    }
}
