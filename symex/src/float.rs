//! Accuracy of floating point results: the expression the code computed is decomposed into S * C with the
//! rounding error of each operation as a bounded unknown, and compared with the exact decimal value in a
//! linear query over the digits (z3, linear integer/real arithmetic).
use crate::exec::*;
use crate::expr::*;
#[path = "../../harness/src/fcheck.rs"]
pub mod fcheck;
use crate::lia::Tr;
use fcheck::*;

#[derive(Clone)]
pub struct Lin {
    pub terms: Vec<(u32, i128)>,
    pub k: i128,
    pub lo: i128,
    pub hi: i128,
}

/// The value of a bit vector as a linear form over the input bytes, when no operation wraps unevenly.
pub fn linear(e: E, dom: &dyn Fn(u32) -> (u8, u8), depth: u32) -> Option<Lin> {
    if depth == 0 {
        return None;
    }
    let n = node(e);
    let w = n.w as u32;
    let wrap = |mut l: Lin| -> Option<Lin> {
        if w >= 127 {
            return if l.lo >= 0 { Some(l) } else { None };
        }
        let m = 1i128 << w;
        let q = l.lo.div_euclid(m);
        if l.hi.div_euclid(m) != q {
            return None;
        }
        let d = q.checked_mul(m)?;
        l.k = l.k.checked_sub(d)?;
        l.lo -= d;
        l.hi -= d;
        Some(l)
    };
    let scale = |l: Lin, c: i128| -> Option<Lin> {
        let mut t = Vec::new();
        for (v, k) in l.terms {
            t.push((v, k.checked_mul(c)?));
        }
        let (a, b) = (l.lo.checked_mul(c)?, l.hi.checked_mul(c)?);
        Some(Lin { terms: t, k: l.k.checked_mul(c)?, lo: a.min(b), hi: a.max(b) })
    };
    let add = |a: Lin, b: Lin| -> Option<Lin> {
        let mut t = a.terms;
        for (v, k) in b.terms {
            match t.iter_mut().find(|x| x.0 == v) {
                Some(x) => x.1 = x.1.checked_add(k)?,
                None => t.push((v, k)),
            }
        }
        Some(Lin { terms: t, k: a.k.checked_add(b.k)?, lo: a.lo.checked_add(b.lo)?, hi: a.hi.checked_add(b.hi)? })
    };
    match n.op {
        Op::Const => {
            let v = as_const(e)?;
            if v >> 126 != 0 {
                return None;
            }
            Some(Lin { terms: vec![], k: v as i128, lo: v as i128, hi: v as i128 })
        }
        Op::Var => {
            let (l, h) = dom(n.a);
            Some(Lin { terms: vec![(n.a, 1)], k: 0, lo: l as i128, hi: h as i128 })
        }
        Op::ZExt => linear(n.a, dom, depth - 1),
        Op::Add => wrap(add(linear(n.a, dom, depth - 1)?, linear(n.b, dom, depth - 1)?)?),
        Op::Sub => wrap(add(linear(n.a, dom, depth - 1)?, scale(linear(n.b, dom, depth - 1)?, -1)?)?),
        Op::Mul => {
            if let Some(c) = as_const(n.b).filter(|c| c >> 126 == 0) {
                wrap(scale(linear(n.a, dom, depth - 1)?, c as i128)?)
            } else if let Some(c) = as_const(n.a).filter(|c| c >> 126 == 0) {
                wrap(scale(linear(n.b, dom, depth - 1)?, c as i128)?)
            } else {
                None
            }
        }
        Op::Shl => {
            let c = as_const(n.b).filter(|c| *c < 100)?;
            wrap(scale(linear(n.a, dom, depth - 1)?, 1i128 << c)?)
        }
        Op::Concat => {
            let lw = width(n.b);
            if lw > 100 {
                return None;
            }
            let h = node(n.a);
            if h.op == Op::Extract && h.b == lw {
                // the two halves of one sum
                let l = linear(h.a, dom, depth - 1)?;
                let m = 1u128 << lw;
                let (mut t, k) = linear_mod(n.b, lw, dom, depth - 1)?;
                t.retain(|x| x.1 % m != 0);
                let mut u: Vec<(u32, u128)> = l.terms.iter().map(|(v, k)| (*v, k.rem_euclid(m as i128) as u128)).filter(|x| x.1 != 0).collect();
                t.sort();
                u.sort();
                if t == u && k == l.k.rem_euclid(m as i128) as u128 {
                    return wrap(l);
                }
                return None;
            }
            add(scale(linear(n.a, dom, depth - 1)?, 1i128 << lw)?, linear(n.b, dom, depth - 1)?)
        }
        Op::Extract if n.b == 0 => wrap(linear(n.a, dom, depth - 1)?),
        _ => None,
    }
}

/// A linear form congruent to the low `w` bits of a bit vector.
fn linear_mod(e: E, w: u32, dom: &dyn Fn(u32) -> (u8, u8), depth: u32) -> Option<(Vec<(u32, u128)>, u128)> {
    if depth == 0 {
        return None;
    }
    let m = (1u128 << w) - 1;
    let n = node(e);
    let scale = |(t, k): (Vec<(u32, u128)>, u128), c: u128| (t.into_iter().map(|(v, x)| (v, x.wrapping_mul(c) & m)).collect::<Vec<_>>(), k.wrapping_mul(c) & m);
    match n.op {
        Op::Const => Some((vec![], as_const(e)? & m)),
        Op::Var => Some((vec![(n.a, 1)], 0)),
        Op::Add | Op::Sub if n.w as u32 >= w => {
            let (mut t, k) = linear_mod(n.a, w, dom, depth - 1)?;
            let b = linear_mod(n.b, w, dom, depth - 1)?;
            let (u, l) = if n.op == Op::Sub { scale(b, m) } else { b };
            for (v, x) in u {
                match t.iter_mut().find(|y| y.0 == v) {
                    Some(y) => y.1 = y.1.wrapping_add(x) & m,
                    None => t.push((v, x)),
                }
            }
            Some((t, k.wrapping_add(l) & m))
        }
        Op::Mul if n.w as u32 >= w => {
            if let Some(c) = as_const(n.b) {
                Some(scale(linear_mod(n.a, w, dom, depth - 1)?, c))
            } else {
                None
            }
        }
        Op::Extract if n.b == 0 && n.w as u32 >= w => linear_mod(n.a, w, dom, depth - 1),
        Op::Concat if width(n.b) >= w => linear_mod(n.b, w, dom, depth - 1),
        _ => {
            let l = linear(e, dom, depth - 1)?;
            Some((l.terms.iter().map(|(v, k)| (*v, *k as u128 & m)).collect(), l.k as u128 & m))
        }
    }
}

/// A positive rational.
#[derive(Clone)]
pub struct Rat {
    pub n: Big,
    pub d: Big,
}
impl Rat {
    fn one() -> Rat {
        Rat { n: big_of(1), d: big_of(1) }
    }
    fn of_f64(f: f64) -> Option<Rat> {
        if !(f.is_finite() && f > 0.0) {
            return None;
        }
        let b = f.to_bits();
        let (m, e) = if b >> 52 == 0 { (b, -1074i64) } else { ((b & ((1 << 52) - 1)) | 1 << 52, (b >> 52) as i64 - 1075) };
        let mut r = Rat { n: big_of(m as u128), d: big_of(1) };
        if e >= 0 {
            r.n = mul_pow(r.n, e, 10, 0);
        } else {
            r.d = mul_pow(r.d, -e, 10, 0);
        }
        Some(r)
    }
    fn pow10(e: i64) -> Rat {
        let p = mul_pow(big_of(1), 0, 10, e.abs());
        if e >= 0 {
            Rat { n: p, d: big_of(1) }
        } else {
            Rat { n: big_of(1), d: p }
        }
    }
    fn mul(&self, o: &Rat) -> Rat {
        Rat { n: big_mul(&self.n, &o.n), d: big_mul(&self.d, &o.d) }
    }
    fn inv(&self) -> Rat {
        Rat { n: self.d.clone(), d: self.n.clone() }
    }
    fn smt(&self) -> String {
        format!("(/ {}.0 {}.0)", big_dec(&self.n), big_dec(&self.d))
    }
}

pub struct Dec {
    pub neg: bool,
    /// None: the constant 1
    pub s: Option<E>,
    pub c: Rat,
    /// rounding steps
    pub r: u32,
    /// absolute error in units of 2^-1075
    pub a: f64,
    pub approx: f64,
}

pub fn decompose(e: E, depth: u32) -> Option<Dec> {
    if depth == 0 || width(e) != 64 {
        return None;
    }
    let n = node(e);
    let cst = |x: E| as_const(x).map(|v| f64::from_bits(v as u64));
    match n.op {
        Op::Const => {
            let f = cst(e)?;
            Some(Dec { neg: f.is_sign_negative(), s: None, c: Rat::of_f64(f.abs())?, r: 0, a: 0.0, approx: f.abs() })
        }
        Op::UToF => Some(Dec { neg: false, s: Some(n.a), c: Rat::one(), r: (umax(n.a) >= 1 << 53) as u32, a: 0.0, approx: 1.0 }),
        Op::Xor if as_const(n.b) == Some(1 << 63) => {
            let mut d = decompose(n.a, depth - 1)?;
            d.neg = !d.neg;
            Some(d)
        }
        Op::FMul | Op::FDiv => {
            let (x, k, div) = match (cst(n.a), cst(n.b)) {
                (None, Some(k)) => (n.a, k, n.op == Op::FDiv),
                (Some(k), None) if n.op == Op::FMul => (n.b, k, false),
                _ => return None,
            };
            let mut d = decompose(x, depth - 1)?;
            if k.is_sign_negative() {
                d.neg = !d.neg;
            }
            let q = Rat::of_f64(k.abs())?;
            let f = if div { 1.0 / k.abs() } else { k.abs() };
            d.c = d.c.mul(&if div { q.inv() } else { q });
            d.approx *= f;
            d.r += 1;
            d.a *= f * 1.0000001;
            if d.approx < 1e-300 {
                d.a += 1.0;
            }
            Some(d)
        }
        _ => None,
    }
}

/// Satisfiable iff some digits make the result leave its tolerance. `sv`, `sig`: integer terms.
fn close_query(d: &Dec, sv: &str, sig: &str, exp: i64) -> String {
    let mut q = format!("(define-fun S () Real (to_real {}))\n(define-fun X () Real (* {} (to_real {})))\n", sv, Rat::pow10(exp).smt(), sig);
    // relative errors: r roundings of at most 2^-53 each, together at most r * 1.0001 * 2^-53
    q.push_str("(declare-fun W () Real)\n(declare-fun A () Real)\n");
    let e = format!("(/ {}.0 {}.0)", d.r as u64 * 10001, 10000u128 * (1u128 << 53));
    q.push_str(&format!("(assert (<= W (* {} S)))\n(assert (<= (- W) (* {} S)))\n", e, e));
    let two1075 = big_dec(&mul_pow(big_of(1), 1075, 10, 0));
    let a = format!("(/ {}.0 (* 1000000.0 {}.0))", (d.a * 1e6).ceil() as u64, two1075);
    q.push_str(&format!("(assert (<= A {}))\n(assert (<= (- A) {}))\n", a, a));
    q.push_str(&format!("(define-fun T () Real (+ (* {} S) (* {} W) A))\n", d.c.smt(), d.c.smt()));
    q.push_str("(define-fun D () Real (ite (>= T X) (- T X) (- X T)))\n");
    q.push_str(&format!("(assert (> (* 1000000000000000.0 D) X))\n(assert (> D (/ 2.0 {}.0)))\n", two1075));
    q
}

/// Satisfiable iff some digits give less than the largest double (minus 1e-15 of it).
fn over_query(sig: &str, exp: i64) -> String {
    let max = mul_pow(big_of((1 << 53) - 1), 971, 10, 0);
    format!(
        "(assert (< (* {} (to_real {})) (* (/ 999999999999999.0 1000000000000000.0) {}.0)))\n",
        Rat::pow10(exp).smt(),
        sig,
        big_dec(&max)
    )
}

impl Engine {
    fn bounds(&self, st: &State, v: u32) -> (u8, u8) {
        match st.dom.get(&v) {
            None => (0, 255),
            Some(d) => {
                let lo = (0..256).find(|i| d[i / 64] >> (i % 64) & 1 == 1).unwrap_or(0);
                let hi = (0..256).rev().find(|i| d[i / 64] >> (i % 64) & 1 == 1).unwrap_or(255);
                (lo as u8, hi as u8)
            }
        }
    }

    /// Decides a comparison of two sums over input bytes by their linear forms, when that is enough.
    pub fn linear_decide(&self, st: &State, q: E) -> Option<bool> {
        let n = node(q);
        let (op, a, b, neg) = if n.op == Op::Xor && as_const(n.b) == Some(1) {
            let m = node(n.a);
            (m.op, m.a, m.b, true)
        } else {
            (n.op, n.a, n.b, false)
        };
        if !matches!(op, Op::Eq | Op::Ult) || width(a) < 9 {
            return None;
        }
        let dom = |v: u32| self.bounds(st, v);
        let (x, y) = (linear(a, &dom, 100)?, linear(b, &dom, 100)?);
        // x - y
        let mut t: Vec<(u32, i128)> = x.terms.clone();
        for (v, k) in &y.terms {
            match t.iter_mut().find(|z| z.0 == *v) {
                Some(z) => z.1 = z.1.checked_sub(*k)?,
                None => t.push((*v, k.checked_neg()?)),
            }
        }
        let k = x.k.checked_sub(y.k)?;
        let (mut lo, mut hi) = (k, k);
        for (v, c) in t {
            if c == 0 {
                continue;
            }
            let (l, h) = dom(v);
            let (p, q) = (c.checked_mul(l as i128)?, c.checked_mul(h as i128)?);
            lo = lo.checked_add(p.min(q))?;
            hi = hi.checked_add(p.max(q))?;
        }
        let r = match op {
            Op::Eq => {
                if lo == 0 && hi == 0 {
                    Some(true)
                } else if lo > 0 || hi < 0 {
                    Some(false)
                } else {
                    None
                }
            }
            _ => {
                if hi < 0 {
                    Some(true)
                } else if lo >= 0 {
                    Some(false)
                } else {
                    None
                }
            }
        };
        r.map(|x| x != neg)
    }

    /// Forks on the first undecided byte behind `e` if only a few are left.
    fn free_bytes(&self, st: &State, es: &[E]) -> Vec<u32> {
        let mut out = Vec::new();
        for v in 0..st.nvars.min(64 * NSUP as u32) {
            let (k, b) = (v as usize / 64, 1u64 << (v % 64));
            if st.fixed[k] & b == 0 && es.iter().any(|e| sup(*e)[k] & b != 0) {
                out.push(v);
            }
        }
        out
    }

    pub fn float_assert(&mut self, st: &mut State, over: bool, bits: &V, neg: &V, sig: E, exp: &V) -> R<()> {
        self.asserts += 1;
        // exponents beyond all doubles
        if let V::S(e) = exp {
            let e = self.simp_once(st, *e);
            if as_const(e).is_none() {
                let sg = self.simp_once(st, sig);
                let w = width(e);
                if over {
                    let q = or(bin(Op::Slt, e, konst(w, 400)), eq(sg, konst(width(sg), 0)));
                    let q = self.simp_once(st, q);
                    if self.sat(st, q)?.is_none() {
                        self.asserts_solver += 1;
                        return Ok(());
                    }
                } else if let V::C(b) = bits {
                    let n = self.dec(st, neg)?;
                    if *b as u64 == bits_of_zero(n) {
                        let mut q = bin(Op::Slt, konst(w, (-400i64) as u64 as u128), e);
                        q = and(q, not(eq(sg, konst(width(sg), 0))));
                        let q = self.simp_once(st, q);
                        if self.sat(st, q)?.is_none() {
                            self.asserts_solver += 1;
                            return Ok(());
                        }
                    }
                }
            }
        }
        // the exponent, byte by byte
        let exp = match exp {
            V::S(e) => {
                let e2 = self.simp_once(st, *e);
                match as_const(e2) {
                    Some(k) => k as u64 as i64,
                    None => {
                        let f = self.free_bytes(st, &[e2]);
                        if st.nvars <= 64 * NSUP as u32 && f.len() <= 24 && !f.is_empty() {
                            return Err(Ev::Conc(var(f[0])));
                        }
                        self.conc(st, exp, "exponent")? as i64
                    }
                }
            }
            _ => self.conc(st, exp, "exponent")? as i64,
        };
        let sig = self.simp_once(st, sig);
        if over {
            if let Some(s) = as_const(sig) {
                return match over_check(s, exp) {
                    None => Ok(()),
                    Some(m) => Err(Ev::Bug("assert", m.into())),
                };
            }
            let s1 = &*st;
            let dom = |v: u32| self.domain_of(s1, v);
            let mut t = Tr::new(&dom);
            if let Some(l) = t.term(sig) {
                // a literal that is zero never overflows
                if l.lo > 0 && exp > 400 {
                    return Ok(());
                }
                if exp.abs() <= 400 {
                    let pc = t.path(st);
                    let q = format!("{}{}{}{}", t.decls(), t.out, pc, over_query(&l.s, exp));
                    if self.solver.check_text(&q) == -1 {
                        self.asserts_solver += 1;
                        return Ok(());
                    }
                }
            }
            let f = self.free_bytes(st, &[sig]);
            if f.len() <= 4 && !f.is_empty() {
                return Err(Ev::Conc(var(f[0])));
            }
            // a candidate counterexample
            if let Some(m) = over_check(eval(sig, &st.model), exp) {
                return Err(Ev::Bug("assert", m.into()));
            }
            return Err(Ev::Stuck("undecided overflow".into()));
        }
        let neg = self.dec(st, neg)?;
        let bits = match bits {
            V::C(x) => konst(64, *x as u128),
            V::S(e) => {
                let mut e = self.simp_once(st, *e);
                while node(e).op == Op::Ite {
                    let n = node(e);
                    e = if self.dec(st, &V::S(n.a))? { n.b } else { n.c };
                    e = self.simp_once(st, e);
                }
                e
            }
            _ => return Err(Ev::Bug("uninit", "undefined float".into())),
        };
        if let (Some(b), Some(s)) = (as_const(bits), as_const(sig)) {
            return match float_check(b as u64, neg, s, exp) {
                None => Ok(()),
                Some(m) => Err(Ev::Bug("assert", m.into())),
            };
        }
        // the model of this path may refute it at once
        if let Some(m) = float_check(eval(bits, &st.model) as u64, neg, eval(sig, &st.model), exp) {
            return Err(Ev::Bug("assert", m.into()));
        }
        // zero significands are a case of their own
        let nz = not(eq(sig, konst(width(sig), 0)));
        if !self.dec(st, &V::S(nz))? {
            // sig == 0 leaves one value for every digit
            let f = self.free_bytes(st, &[sig, bits]);
            if st.nvars <= 64 * NSUP as u32 && !f.is_empty() && f.len() <= 60 {
                return Err(Ev::Conc(var(f[0])));
            }
            let z = eq(extract(bits, 0, 63), konst(63, 0));
            let ok = and(z, eq(extract(bits, 63, 1), konst(1, neg as u128)));
            return match self.sat(st, not(ok))? {
                None => Ok(()),
                Some(m) => {
                    st.model = m;
                    Err(Ev::Bug("assert", "float should be zero of the literal's sign".into()))
                }
            };
        }
        let s1 = &*st;
        let dom = |v: u32| self.domain_of(s1, v);
        let mut t = Tr::new(&dom);
        let lsig = t.term(sig);
        if as_const(bits).map_or(false, |b| b & !(1 << 63) == 0) {
            // zero: fine when even the largest significand underflows
            if let Some(l) = lsig.as_ref().filter(|l| l.hi < 1 << 100) {
                if float_check(bits_of_zero(neg), neg, l.hi as u128, exp).is_none() && (as_const(bits).unwrap() >> 63 == 1) == neg {
                    return Ok(());
                }
            }
        } else if let (Some(d), Some(l)) = (decompose(bits, 50), &lsig) {
            if d.neg == neg && exp.abs() <= 700 {
                let ls = match d.s {
                    Some(s) => t.term(s).map(|x| x.s),
                    None => Some("1".into()),
                };
                if let Some(ls) = ls {
                    let pc = t.path(st);
                    let q = format!("{}{}{}{}", t.decls(), t.out, pc, close_query(&d, &ls, &l.s, exp));
                    let r = self.solver.check_text(&q);
                    if self.log {
                        eprintln!("float query {} r {} a {}", r, d.r, d.a);
                    }
                    if r == -1 {
                        // and it does not overflow
                        let inf = bin(Op::FEq, zext(extract(bits, 0, 63), 64), konst(64, f64::INFINITY.to_bits() as u128));
                        let inf = self.simp_once(st, inf);
                        self.asserts_solver += 1;
                        return match self.quick(st, inf) {
                            Some(false) => Ok(()),
                            _ => match self.sat(st, inf)? {
                                None => Ok(()),
                                Some(m) => {
                                    st.model = m;
                                    Err(Ev::Bug("assert", "float is not finite".into()))
                                }
                            },
                        };
                    }
                }
            }
        }
        if self.log {
            let (mut x, mut y) = (show(bits), show(sig));
            x.truncate(300);
            y.truncate(300);
            eprintln!("float fallback {} vs {} exp {} lin {}", x, y, exp, lsig.is_some());
        }
        let f = self.free_bytes(st, &[sig, bits]);
        if f.len() <= 4 && !f.is_empty() {
            return Err(Ev::Conc(var(f[0])));
        }
        Err(Ev::Stuck("float result of a form that cannot be compared with the literal".into()))
    }
}
fn bits_of_zero(neg: bool) -> u64 {
    (neg as u64) << 63
}
