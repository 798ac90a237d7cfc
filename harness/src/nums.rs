//! Number literals: C05 (integers as untyped values), C06 (fractions and exponents), C07 (typed integers).
use crate::json::{self, J};
use crate::{gen, sym};
use miniserde::json as mj;
use miniserde::json::{Number, Value};
use crate::model::Model;
use crate::types::Job;
use miniserde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// [-] followed by k digits without a leading zero.
fn int_literal(neg: bool, k: usize) -> String {
    let mut t: Vec<u8> = Vec::with_capacity(k + 1);
    if neg {
        t.push(b'-');
    }
    for _ in 0..k {
        t.push(b'#');
    }
    let s = gen::fill(&t);
    if k > 1 {
        sym::assume(s.as_bytes()[neg as usize] != b'0');
    }
    s
}

fn check_untyped(s: &str) {
    let o = json::parse(s.as_bytes());
    let r = mj::from_str::<Value>(s);
    match (&r, &o) {
        (Ok(Value::Number(n)), Some(J::Num(l))) => {
            match n {
                Number::U64(_) => sym::cover(1),
                Number::I64(_) => sym::cover(2),
                Number::F64(_) => sym::cover(3),
            }
            json::same_num(n, l);
        }
        (Err(_), Some(j @ J::Num(_))) => {
            sym::cover(4);
            json::refused(j, "refused a number")
        }
        (Err(_), None) => sym::cover(5),
        (Ok(_), None) => sym::fail("accepted a text that is no number"),
        _ => sym::fail("kind of value"),
    }
    sym::log(r.is_ok() as u64);
}

fn typed<T: Int>(s: &str) {
    let (lo, hi) = (T::LO, T::HI);
    let o = json::parse(s.as_bytes());
    let r = mj::from_str::<T>(s);
    let l = match o {
        Some(J::Num(l)) => l,
        _ => {
            sym::check(r.is_err(), "an integer out of something else");
            return;
        }
    };
    if !l.int {
        sym::check(r.is_err(), "an integer out of a literal with fraction or exponent");
        return;
    }
    // the literal's value; "-0" is the integer 0 but is delivered as negative, which the unsigned types may refuse
    let fits = if l.neg {
        // -sig >= lo
        l.exp == 0 && l.sig <= lo.unsigned_abs()
    } else {
        l.exp == 0 && l.sig <= hi as u128
    };
    match r {
        Ok(x) => {
            sym::cover(1);
            sym::check(fits, "accepted an integer out of range");
            let v = x.wide();
            if l.neg {
                sym::check((v as u128).wrapping_neg() == l.sig, "integer value");
            } else {
                sym::check(v as u128 == l.sig, "integer value");
            }
        }
        Err(_) => {
            sym::cover(2);
            if lo == 0 && l.neg {
                sym::check(!fits || l.sig == 0, "refused an integer in range");
            } else {
                sym::check(!fits, "refused an integer in range");
            }
        }
    }
}

pub trait Int: Deserialize + Copy + Ord + std::hash::Hash + std::str::FromStr + std::fmt::Display {
    const LO: i128;
    const HI: i128;
    fn wide(self) -> i128;
}
macro_rules! ints {
    ($($t:ident)*) => { $(
        impl Int for $t {
            const LO: i128 = $t::MIN as i128;
            const HI: i128 = $t::MAX as i128;
            fn wide(self) -> i128 { self as i128 }
        }
    )* };
}
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);

fn run_typed(t: u64, s: &str) {
    match t {
        0 => typed::<u8>(s),
        1 => typed::<u16>(s),
        2 => typed::<u32>(s),
        3 => typed::<u64>(s),
        4 => typed::<usize>(s),
        5 => typed::<i8>(s),
        6 => typed::<i16>(s),
        7 => typed::<i32>(s),
        8 => typed::<i64>(s),
        _ => typed::<isize>(s),
    }
}

/// Templates for decimal literals: # is a digit, ? any byte.
pub const F: &[&[u8]] = &[
    b"#.#",
    b"-#.##",
    b"#.####",
    b"0.000#####",
    b"##########.##########",
    b"0.0000000000000000000000000000##",
    b"#e##",
    b"#e-##",
    b"#E+##",
    b"#.#e3##",
    b"#.#e-3##",
    b"-##e30#",
    b"#.######e-31#",
    b"1.7976931348623##e308",
    b"#.##e-32#",
    b"4.9#e-324",
    b"2.225073858507201#e-308",
    b"1e#########",
    b"1e-##########",
    b"#e99999999999999999999",
    b"-#e-99999999999999999999",
    b"0e############",
    b"0.0e-#############",
    b"####################.#e-3",
    b"123456789012345678901234567890###.5",
    b"-0.#",
    b"-#e#",
    b"0.#e#",
    b"#######.#######e-1#",
    b"17977#0000000000000e29#",
    b"0.00000000000000000001###e32#",
    b"9007199254740993.###",
    b"18446744073709551615.#",
    b"18446744073709551616.#",
    b"1844674407370955161#.#e##",
    b"#.#e2147483647",
    b"#.#e2147483648",
    b"#.#e-2147483647",
    b"#.#e-2147483648",
    b"#.#e-2147483649",
    b"#0000000000000000000000e21474836##",
    b"0.000000000000000000000000#e-21474836##",
    b"0.0000000000000000000000#e21474836##",
    b"#000000000000000000000000e-21474836##",
    b"0.0#e4294967###",
    b"#e-4294967###",
    b"0.#e18446744073709551###",
    b"0.0e############",
    b"0e-############",
    b"0.000e+#############",
    b"00e######",
    b"0.00000000000000000000000000e##########",
    b"#e+0000000000000000000000##",
    b"#e-0000000000000000000000##",
];

fn held<T: Model + Deserialize + Serialize + Int + crate::model::Key>(how: u64, s: &str) {
    use crate::types::{HmIf, Parse, G};
    let around = |a: &str, b: &str| {
        let mut t = String::from(a);
        t.push_str(s);
        t.push_str(b);
        Parse { s: t }
    };
    match how {
        0 => around("", "").run::<Option<T>>(),
        1 => around("", "").run::<Box<T>>(),
        2 => around("", "").run::<Option<Box<T>>>(),
        3 => around("[1,", "]").run::<Vec<T>>(),
        4 => around("[", ",2]").run::<[T; 2]>(),
        5 => around("[[true,", "],0]").run::<((bool, T), T)>(),
        6 => around("{\"a\":", "}").run::<BTreeMap<String, T>>(),
        7 => around("{\"b\":0,\"a\":", "}").run::<HmIf<String, T>>(),
        8 => around("{\"v\":1,\"o\":", "}").run::<G<T>>(),
        9 => around("{\"v\":", "}").run::<G<Box<T>>>(),
        10 => around("[null,", "]").run::<Vec<Option<T>>>(),
        11 => around("{\"", "\":true}").run::<BTreeMap<T, bool>>(),
        12 => around("{\"", "\":true}").run::<HmIf<T, bool>>(),
        _ => around("{\"a\":0,\"a\":", "}").run::<BTreeMap<String, Option<T>>>(),
    }
}

/// What a floating point number of either precision is to be, from the number read untyped.
trait Fl: Deserialize + Copy {
    fn check(self, n: &Number);
}
impl Fl for f64 {
    fn check(self, n: &Number) {
        let w = match n {
            Number::U64(n) => *n as f64,
            Number::I64(n) => *n as f64,
            Number::F64(n) => *n,
        };
        sym::check(self.to_bits() == w.to_bits(), "another number than the untyped one");
    }
}
impl Fl for f32 {
    fn check(self, n: &Number) {
        let w = match n {
            Number::U64(n) => *n as f32,
            Number::I64(n) => *n as f32,
            Number::F64(n) => *n as f32,
        };
        sym::check(self.to_bits() == w.to_bits(), "another number than the untyped one, rounded");
    }
}
fn floats<T: Fl>(how: u64, s: &str) {
    use crate::types::G;
    let around = |a: &str, b: &str| {
        let mut t = String::from(a);
        t.push_str(s);
        t.push_str(b);
        t
    };
    // the first time tells apart the cases, so that the next ones compute alike
    drop(mj::from_str::<Number>(s));
    let n = mj::from_str::<Number>(s);
    let r: Option<T> = match how {
        0 => mj::from_str::<T>(s).ok(),
        1 => mj::from_str::<Option<T>>(s).ok().map(|x| x.expect("null")),
        2 => mj::from_str::<Box<T>>(s).ok().map(|x| *x),
        3 => mj::from_str::<Vec<T>>(&around("[1, ", "]")).ok().map(|x| x[1]),
        4 => mj::from_str::<[T; 2]>(&around("[", " ,2]")).ok().map(|x| x[0]),
        5 => mj::from_str::<(bool, T)>(&around("[true,", "]")).ok().map(|x| x.1),
        6 => mj::from_str::<BTreeMap<String, T>>(&around("{\"a\":", "}")).ok().map(|x| x["a"]),
        _ => mj::from_str::<G<T>>(&around("{\"v\":1,\"o\":", "}")).ok().map(|x| x.o.expect("null")),
    };
    match (r, n) {
        (Some(r), Ok(n)) => {
            sym::cover(1);
            r.check(&n)
        }
        (None, Err(_)) => sym::cover(2),
        (Some(_), Err(_)) => sym::fail("accepted what is no number"),
        (None, Ok(_)) => sym::fail("refused a number"),
    }
}

harness! {
    /// A floating point number asked for. params: 0 double, 1 single; what holds it; 0 and 1: an integer of that sign,
    /// 2: a template, 3: number bytes; digits, template or bytes
    fn num_as() {
        json::set_exact(false);
        let s = match sym::param(2) {
            k @ (0 | 1) => int_literal(k == 1, sym::param(3) as usize),
            2 => gen::fill(F[sym::param(3) as usize]),
            _ => gen::numberish(sym::param(3) as usize),
        };
        if sym::param(0) == 0 {
            floats::<f64>(sym::param(1), &s)
        } else {
            floats::<f32>(sym::param(1), &s)
        }
    }
    /// An integer inside something. params: type, what holds it, sign, digits
    fn num_held() {
        json::set_exact(false);
        let s = int_literal(sym::param(2) == 1, sym::param(3) as usize);
        let h = sym::param(1);
        match sym::param(0) {
            0 => held::<u64>(h, &s),
            1 => held::<i64>(h, &s),
            2 => held::<u8>(h, &s),
            _ => held::<i32>(h, &s),
        }
    }
    /// params: sign, digits
    fn num_int() {
        let s = int_literal(sym::param(0) == 1, sym::param(1) as usize);
        check_untyped(&s);
    }
    /// params: template, sign (1: a minus before the templates that have none)
    fn num_float() {
        let mut t = F[sym::param(0) as usize].to_vec();
        if sym::param(1) == 1 && t[0] != b'-' {
            t.insert(0, b'-');
        }
        let s = gen::fill(&t);
        check_untyped(&s);
    }
    /// params: integer digits, fraction digits, exponent digits, exponent sign (0 none, 1 +, 2 -), sign
    fn num_shape() {
        let (a, b, e, es, neg) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4));
        let mut t: Vec<u8> = Vec::new();
        if neg == 1 { t.push(b'-'); }
        for _ in 0..a { t.push(b'#'); }
        if b > 0 { t.push(b'.'); }
        for _ in 0..b { t.push(b'#'); }
        if e > 0 {
            t.push(b'e');
            if es == 1 { t.push(b'+'); }
            if es == 2 { t.push(b'-'); }
            for _ in 0..e { t.push(b'#'); }
        }
        let s = gen::fill(&t);
        if a > 1 { sym::assume(s.as_bytes()[neg as usize] != b'0'); }
        check_untyped(&s);
    }
    /// params: type, sign, digits
    fn num_typed() {
        let s = int_literal(sym::param(1) == 1, sym::param(2) as usize);
        run_typed(sym::param(0), &s);
    }
    /// params: type, bytes; any number-like text
    fn num_typed_any() {
        let s = gen::numberish(sym::param(1) as usize);
        run_typed(sym::param(0), &s);
    }
}
