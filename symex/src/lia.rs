//! Translation of bit vector constraints into linear integer arithmetic. Bit blasting is poor at sums of many
//! scaled digits; over the integers they are linear. Wrapping is modelled exactly: a result of width w is
//! L - 2^w * q with q an integer and 0 <= result < 2^w.
use crate::exec::*;
use crate::expr::*;
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write;

#[derive(Clone)]
pub struct T {
    pub s: String,
    pub lo: i128,
    pub hi: i128,
}

const BIG: i128 = 1 << 125;

pub struct Tr<'a> {
    pub dom: &'a dyn Fn(u32) -> [u64; 4],
    pub vars: BTreeSet<u32>,
    pub out: String,
    memo: HashMap<E, Option<T>>,
    bmemo: HashMap<E, Option<String>>,
    n: u32,
}

pub fn pow2(w: u32) -> String {
    if w < 128 {
        (1u128 << w).to_string()
    } else {
        "340282366920938463463374607431768211456".into()
    }
}
fn int(k: i128) -> String {
    if k < 0 {
        format!("(- {})", k.unsigned_abs())
    } else {
        k.to_string()
    }
}

impl<'a> Tr<'a> {
    pub fn new(dom: &'a dyn Fn(u32) -> [u64; 4]) -> Tr<'a> {
        Tr { dom, vars: BTreeSet::new(), out: String::new(), memo: HashMap::new(), bmemo: HashMap::new(), n: 0 }
    }

    fn def(&mut self, s: String, lo: i128, hi: i128) -> T {
        if s.len() < 40 {
            return T { s, lo, hi };
        }
        let v = format!("t{}", self.n);
        self.n += 1;
        let _ = writeln!(self.out, "(define-fun {} () Int {})", v, s);
        T { s: v, lo, hi }
    }

    /// x modulo 2^w.
    fn wrap(&mut self, x: T, w: u32) -> T {
        if w <= 120 && x.lo > -BIG && x.hi < BIG {
            let m = 1i128 << w;
            let q = x.lo.div_euclid(m);
            if x.hi.div_euclid(m) == q {
                if q == 0 {
                    return x;
                }
                let d = q * m;
                return self.def(format!("(- {} {})", x.s, int(d)), x.lo - d, x.hi - d);
            }
        } else if w > 120 && x.lo >= 0 && x.hi < BIG {
            return x;
        }
        self.split(x, w).1
    }

    /// x = 2^w * q + r with 0 <= r < 2^w: (q, r)
    fn split(&mut self, x: T, w: u32) -> (T, T) {
        let n = self.n;
        self.n += 1;
        let p = pow2(w);
        let _ = writeln!(
            self.out,
            "(declare-fun q{n} () Int)\n(define-fun r{n} () Int (- {} (* {} q{n})))\n(assert (<= 0 r{n}))\n(assert (< r{n} {}))",
            x.s, p, p
        );
        let sh = |k: i128| if w >= 126 { if k < 0 { -1 } else { 0 } } else { k >> w };
        let (ql, qh) = (if x.lo <= -BIG { -BIG } else { sh(x.lo) }, if x.hi >= BIG { BIG } else { sh(x.hi) });
        let rh = if w >= 126 { BIG } else { (1i128 << w) - 1 };
        (T { s: format!("q{}", n), lo: ql, hi: qh }, T { s: format!("r{}", n), lo: 0, hi: rh })
    }

    pub fn term(&mut self, e: E) -> Option<T> {
        if let Some(t) = self.memo.get(&e) {
            return t.clone();
        }
        let t = self.term1(e);
        self.memo.insert(e, t.clone());
        t
    }

    fn term1(&mut self, e: E) -> Option<T> {
        let n = node(e);
        let w = n.w as u32;
        let sat = |k: Option<i128>, neg: bool| k.unwrap_or(if neg { -BIG } else { BIG }).max(-BIG).min(BIG);
        match n.op {
            Op::Const => {
                let v = as_const(e)?;
                let b = if v >> 125 != 0 { BIG } else { v as i128 };
                Some(T { s: v.to_string(), lo: b, hi: b })
            }
            Op::Var => {
                let d = (self.dom)(n.a);
                let lo = (0..256).find(|i| d[i / 64] >> (i % 64) & 1 == 1).unwrap_or(0);
                let hi = (0..256).rev().find(|i| d[i / 64] >> (i % 64) & 1 == 1).unwrap_or(255);
                self.vars.insert(n.a);
                Some(T { s: format!("v{}", n.a), lo: lo as i128, hi: hi as i128 })
            }
            Op::Add | Op::Sub => {
                let (a, b) = (self.term(n.a)?, self.term(n.b)?);
                let r = if n.op == Op::Add {
                    self.def(format!("(+ {} {})", a.s, b.s), sat(a.lo.checked_add(b.lo), true), sat(a.hi.checked_add(b.hi), false))
                } else {
                    self.def(format!("(- {} {})", a.s, b.s), sat(a.lo.checked_sub(b.hi), true), sat(a.hi.checked_sub(b.lo), false))
                };
                Some(self.wrap(r, w))
            }
            Op::Mul => {
                let (x, c) = match (as_const(n.a), as_const(n.b)) {
                    (_, Some(c)) => (n.a, c),
                    (Some(c), _) => (n.b, c),
                    _ => return None,
                };
                if c >> 100 != 0 {
                    return None;
                }
                let a = self.term(x)?;
                let c = c as i128;
                let r = self.def(format!("(* {} {})", c, a.s), sat(a.lo.checked_mul(c), true), sat(a.hi.checked_mul(c), false));
                Some(self.wrap(r, w))
            }
            Op::Shl => {
                let c = as_const(n.b).filter(|c| *c < w as u128)? as u32;
                let a = self.term(n.a)?;
                let k = 1i128.checked_shl(c).filter(|_| c < 125)?;
                let r = self.def(format!("(* {} {})", k, a.s), sat(a.lo.checked_mul(k), true), sat(a.hi.checked_mul(k), false));
                Some(self.wrap(r, w))
            }
            Op::LShr => {
                let c = as_const(n.b).filter(|c| *c < w as u128)? as u32;
                let a = self.term(n.a)?;
                Some(self.split(a, c).0)
            }
            Op::UDiv | Op::URem => {
                let c = as_const(n.b).filter(|c| *c > 0 && *c >> 100 == 0)? as i128;
                let a = self.term(n.a)?;
                let k = self.n;
                self.n += 1;
                let _ = writeln!(
                    self.out,
                    "(declare-fun q{k} () Int)\n(define-fun r{k} () Int (- {} (* {} q{k})))\n(assert (<= 0 r{k}))\n(assert (< r{k} {}))",
                    a.s, c, c
                );
                if n.op == Op::UDiv {
                    Some(T { s: format!("q{}", k), lo: 0, hi: if a.hi >= BIG { BIG } else { a.hi / c } })
                } else {
                    Some(T { s: format!("r{}", k), lo: 0, hi: c - 1 })
                }
            }
            Op::And => {
                let c = as_const(n.b)?;
                if (c + 1) & c != 0 {
                    return None;
                }
                let a = self.term(n.a)?;
                Some(self.split(a, c.count_ones()).1)
            }
            Op::ZExt => self.term(n.a),
            Op::SExt => {
                let iw = width(n.a);
                let a = self.term(n.a)?;
                if iw < 120 && a.hi < 1i128 << (iw - 1) {
                    return Some(a);
                }
                if iw >= 126 {
                    return None;
                }
                let r = self.def(format!("(ite (< {} {}) {} (- {} {}))", a.s, pow2(iw - 1), a.s, a.s, pow2(iw)), -(1i128 << (iw - 1)), (1i128 << (iw - 1)) - 1);
                Some(self.wrap(r, w))
            }
            Op::Concat => {
                let lw = width(n.b);
                let (a, b) = (self.term(n.a)?, self.term(n.b)?);
                let k = 1i128.checked_shl(lw).filter(|_| lw < 120);
                let hi = match k {
                    Some(k) => sat(a.hi.checked_mul(k).and_then(|x| x.checked_add(b.hi)), false),
                    None => BIG,
                };
                let lo = match k {
                    Some(k) => sat(a.lo.checked_mul(k).and_then(|x| x.checked_add(b.lo)), true).max(0),
                    None => 0,
                };
                Some(self.def(format!("(+ (* {} {}) {})", pow2(lw), a.s, b.s), lo, hi))
            }
            Op::Extract => {
                let a = self.term(n.a)?;
                let hi = if n.b == 0 { a } else { self.split(a, n.b).0 };
                if n.b + w == width(n.a) {
                    return Some(hi);
                }
                Some(self.wrap(hi, w))
            }
            Op::Ite => {
                let c = self.cond(n.a)?;
                let (a, b) = (self.term(n.b)?, self.term(n.c)?);
                Some(self.def(format!("(ite {} {} {})", c, a.s, b.s), a.lo.min(b.lo), a.hi.max(b.hi)))
            }
            _ if w == 1 => {
                let c = self.cond(e)?;
                Some(T { s: format!("(ite {} 1 0)", c), lo: 0, hi: 1 })
            }
            _ => None,
        }
    }

    pub fn cond(&mut self, e: E) -> Option<String> {
        if let Some(t) = self.bmemo.get(&e) {
            return t.clone();
        }
        let t = self.cond1(e);
        self.bmemo.insert(e, t.clone());
        t
    }

    fn cond1(&mut self, e: E) -> Option<String> {
        let n = node(e);
        match n.op {
            Op::Const => Some(if as_const(e)? == 1 { "true" } else { "false" }.into()),
            Op::Xor if as_const(n.b) == Some(1) => Some(format!("(not {})", self.cond(n.a)?)),
            Op::And | Op::Or | Op::Xor if n.w == 1 => {
                let (a, b) = (self.cond(n.a)?, self.cond(n.b)?);
                Some(format!("({} {} {})", match n.op { Op::And => "and", Op::Or => "or", _ => "xor" }, a, b))
            }
            Op::Ite if n.w == 1 => Some(format!("(ite {} {} {})", self.cond(n.a)?, self.cond(n.b)?, self.cond(n.c)?)),
            Op::Eq if width(n.a) == 1 => Some(format!("(= {} {})", self.cond(n.a)?, self.cond(n.b)?)),
            Op::Eq | Op::Ult => {
                let (a, b) = (self.term(n.a)?, self.term(n.b)?);
                Some(format!("({} {} {})", if n.op == Op::Eq { "=" } else { "<" }, a.s, b.s))
            }
            Op::Slt => {
                let w = width(n.a);
                let (a, b) = (self.term(n.a)?, self.term(n.b)?);
                let sg = |t: &T| {
                    if w < 120 && t.hi < 1i128 << (w - 1) {
                        t.s.clone()
                    } else {
                        format!("(ite (< {} {}) {} (- {} {}))", t.s, pow2(w - 1), t.s, t.s, pow2(w))
                    }
                };
                Some(format!("(< {} {})", sg(&a), sg(&b)))
            }
            Op::Extract if n.b + 1 == width(n.a) => {
                let a = self.term(n.a)?;
                Some(format!("(>= {} {})", a.s, pow2(n.b)))
            }
            Op::Extract if n.w == 1 => {
                let t = self.term(e)?;
                Some(format!("(= {} 1)", t.s))
            }
            _ => None,
        }
    }

    /// The constraints of the path that involve several bytes and have a linear form (the others are left out).
    pub fn path(&mut self, st: &State) -> String {
        let mut a = String::new();
        for &c in &st.pc {
            if sup(c).iter().map(|x| x.count_ones()).sum::<u32>() > 1 {
                if let Some(x) = self.cond(c) {
                    let _ = writeln!(a, "(assert {})", x);
                }
            }
        }
        a
    }

    /// Declarations of the bytes with their possible values.
    pub fn decls(&self) -> String {
        let mut s = String::new();
        for &v in &self.vars {
            let d = (self.dom)(v);
            let mut r: Vec<(usize, usize)> = Vec::new();
            for i in 0..256 {
                if d[i / 64] >> (i % 64) & 1 == 1 {
                    match r.last_mut() {
                        Some(l) if l.1 + 1 == i => l.1 = i,
                        _ => r.push((i, i)),
                    }
                }
            }
            let p: Vec<String> = r.iter().map(|(a, b)| format!("(and (<= {} v{}) (<= v{} {}))", a, v, v, b)).collect();
            let _ = writeln!(s, "(declare-fun v{} () Int)\n(assert (or false {}))", v, p.join(" "));
        }
        s
    }
}

impl Engine {
    pub fn domain_of(&self, st: &State, v: u32) -> [u64; 4] {
        st.dom.get(&v).copied().unwrap_or([!0; 4])
    }

    /// The conjunction as an integer query. With `partial`, conjuncts that have no linear form are left out
    /// (sound for concluding that there is no solution).
    pub fn lia_text(&self, st: &State, cs: &[E], partial: bool) -> Option<String> {
        let dom = |v: u32| self.domain_of(st, v);
        let mut t = Tr::new(&dom);
        let mut a = String::new();
        for &c in cs {
            if sup(c).iter().map(|x| x.count_ones()).sum::<u32>() == 1 && st.pc.contains(&c) {
                // in the byte's domain already
                continue;
            }
            match t.cond(c) {
                Some(x) => {
                    let _ = writeln!(a, "(assert {})", x);
                }
                None if partial => {}
                None => return None,
            }
        }
        Some(format!("{}{}{}", t.decls(), t.out, a))
    }
}
