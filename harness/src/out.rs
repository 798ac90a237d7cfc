//! Text written for values: C10..C17.
use crate::json::P;
use crate::model::{quote, Model};
use crate::sym;
use crate::types::{with, Job};
use miniserde::json as mj;
use miniserde::json::{Number, Value};
use miniserde::{Deserialize, Serialize};

/// The text with every string literal rewritten the way `model::quote` writes it. None when a literal is malformed
/// or escapes a character that needs no escape.
pub fn canon(b: &[u8]) -> Option<Vec<u8>> {
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        i += 1;
        if c != b'"' {
            out.push(c);
            continue;
        }
        out.push(c);
        loop {
            let c = *b.get(i)?;
            i += 1;
            if c == b'"' {
                out.push(c);
                break;
            }
            if c < 0x20 {
                return None;
            }
            if c != b'\\' {
                out.push(c);
                continue;
            }
            let e = *b.get(i)?;
            i += 1;
            let d = match e {
                b'"' | b'\\' => e,
                b'b' => 8,
                b't' => 9,
                b'n' => 10,
                b'f' => 12,
                b'r' => 13,
                b'u' => {
                    let mut v = 0u16;
                    for _ in 0..4 {
                        let h = *b.get(i)?;
                        i += 1;
                        let d = if h.wrapping_sub(b'0') < 10 {
                            h - b'0'
                        } else if (h | 0x20).wrapping_sub(b'a') < 6 {
                            (h | 0x20) - b'a' + 10
                        } else {
                            return None;
                        };
                        v = v << 4 | d as u16;
                    }
                    if v >= 0x20 && v != 0x22 && v != 0x5c {
                        return None;
                    }
                    v as u8
                }
                _ => return None,
            };
            let mut q = Vec::new();
            quote(&[d], &mut q);
            out.extend_from_slice(&q[1..q.len() - 1]);
        }
    }
    Some(out)
}

pub fn wrote(text: &str, want: &[u8]) {
    match canon(text.as_bytes()) {
        Some(c) => sym::check(crate::json::bytes_eq(&c, want), "text written"),
        None => sym::fail("a malformed or needlessly escaped string literal"),
    }
}

pub struct Write {
    pub size: u64,
    /// 1: check the text, 2: read it back
    pub mode: u64,
}
impl Job for Write {
    fn run<T: Model + Deserialize + Serialize>(&self) {
        round(self.mode, || T::any(self.size))
    }
}
/// mode 1: check the text, 2: read it back
pub fn round<T: Model + Deserialize + Serialize>(mode: u64, make: impl FnOnce() -> T) {
    let l0 = sym::live();
    {
        let v = make();
        let l1 = sym::live();
        let text = mj::to_string(&v);
        sym::check(sym::live() == l1 + (text.capacity() > 0) as u64, "serializing left memory behind");
        if mode & 1 != 0 {
            let mut want = Vec::new();
            v.text(&mut want);
            wrote(&text, &want);
            sym::cover(1);
        }
        if mode & 2 != 0 {
            let r = mj::from_str::<T>(&text);
            match &r {
                Ok(w) => {
                    sym::check(v.equal(w), "another value came back");
                    sym::cover(2);
                }
                Err(_) => sym::fail("the text written is refused"),
            }
        }
        sym::log(text.len() as u64);
    }
    sym::check(sym::live() == l0, "memory left behind");
}

/// The integer a decimal text without leading zeros denotes.
fn int_text(t: &[u8], neg: bool, mag: u64) {
    let d = if neg {
        sym::check(t.len() > 1 && t[0] == b'-', "sign written");
        &t[1..]
    } else {
        t
    };
    sym::check(d.len() > 0 && d.len() <= 20, "number of digits");
    let mut v: u128 = 0;
    for &c in d {
        let x = c.wrapping_sub(b'0');
        sym::check(x < 10, "digit");
        v = v * 10 + x as u128;
    }
    sym::check(d.len() == 1 || d[0] != b'0', "leading zero");
    sym::check(v == mag as u128, "integer written");
}

fn nul(b: u64) -> bool {
    b & 0x7ff0_0000_0000_0000 == 0x7ff0_0000_0000_0000
}

harness! {
    /// params: type, size, mode
    fn out_type() {
        with(sym::param(0), &Write { size: sym::param(1), mode: sym::param(2) });
    }
    /// A string: params: classes of its characters as the digits 1..4 (bytes in UTF-8), 0 ends; place (0 value,
    /// 1 member name, 2 struct-free slice of strings).
    fn out_str() {
        let mut k = sym::param(0);
        let mut t: Vec<u8> = Vec::new();
        while k > 0 {
            t.push(match k % 10 { 1 => b'?', 2 => 2, 3 => 3, 4 => 4, 5 => b'a', _ => 5 });
            k /= 10;
        }
        let s = crate::gen::fill(&t);
        let mut want = Vec::new();
        match sym::param(1) {
            0 => {
                let text = mj::to_string(&s);
                quote(s.as_bytes(), &mut want);
                wrote(&text, &want);
                let text = mj::to_string(&Value::String(s.clone()));
                wrote(&text, &want);
                let text = mj::to_string(s.as_str());
                wrote(&text, &want);
            }
            1 => {
                let mut m = std::collections::BTreeMap::new();
                m.insert(s.clone(), true);
                let text = mj::to_string(&m);
                want.push(b'{');
                quote(s.as_bytes(), &mut want);
                want.extend_from_slice(b":true}");
                wrote(&text, &want);
                let mut o = miniserde::json::Object::new();
                o.insert(s.clone(), Value::Bool(true));
                let text = mj::to_string(&o);
                wrote(&text, &want);
                let text = mj::to_string(&Value::Object(o));
                wrote(&text, &want);
            }
            _ => {
                // read back, as value and as name
                let text = mj::to_string(&s);
                match mj::from_str::<String>(&text) {
                    Ok(r) => sym::check(crate::json::bytes_eq(r.as_bytes(), s.as_bytes()), "another string came back"),
                    Err(_) => sym::fail("the text written is refused"),
                }
                let mut m = std::collections::BTreeMap::new();
                m.insert(s.clone(), true);
                match mj::from_str::<std::collections::BTreeMap<String, bool>>(&mj::to_string(&m)) {
                    Ok(r) => {
                        sym::check(r.len() == 1, "number of entries");
                        for (k, v) in &r {
                            sym::check(*v && crate::json::bytes_eq(k.as_bytes(), s.as_bytes()), "another name came back");
                        }
                    }
                    Err(_) => sym::fail("the text written is refused"),
                }
            }
        }
        sym::cover(1);
    }
    /// Any integer of a type: params: how it is held; 0: text as itoa gives it (which may be a stand-in),
    /// 1: the digits, non-negative, 2: the digits, negative, 3: the digits, near powers of ten and the ends
    fn out_int() {
        let how = sym::param(0);
        let mode = sym::param(1);
        let raw = if mode < 3 {
            sym::u64("integer")
        } else {
            let k = sym::pick("base", 24) as u32;
            let b = match k {
                0..=19 => 10u64.pow(k),
                20 => i64::MAX as u64,
                21 => u32::MAX as u64,
                22 => i32::MAX as u64,
                _ => 0,
            };
            b.wrapping_add(sym::conc(sym::u8("offset") as u64)).wrapping_sub(128)
        };
        // what the number stands between
        let (before, after) = match how {
            16 => ("[", "]"),
            17 => ("[true,", "]"),
            18 => ("{\"k\":", "}"),
            19 => ("{\"v\":", ",\"o\":null}"),
            20 => ("{\"", "\":null}"),
            21 => ("[null,", "]"),
            _ => ("", ""),
        };
        macro_rules! go {
            ($v:expr, $text:expr) => {{
                let v = $v;
                let w = v as i128;
                if mode == 1 || mode == 2 {
                    sym::assume((w < 0) == (mode == 2));
                }
                let text: String = $text(v);
                sym::check(text.len() > before.len() + after.len() && text.starts_with(before) && text.ends_with(after), "text around");
                let text = String::from(&text[before.len()..text.len() - after.len()]);
                if mode == 0 {
                    sym::check(crate::json::bytes_eq(text.as_bytes(), itoa::Buffer::new().format(w).as_bytes()), "integer written");
                } else {
                    int_text(text.as_bytes(), w < 0, w.unsigned_abs() as u64);
                }
                sym::cover(1 + (w < 0) as u32);
            }};
        }
        match how {
            0 => go!(raw as u8, |v| mj::to_string(&v)),
            1 => go!(raw as u16, |v| mj::to_string(&v)),
            2 => go!(raw as u32, |v| mj::to_string(&v)),
            3 => go!(raw, |v| mj::to_string(&v)),
            4 => go!(raw as usize, |v| mj::to_string(&v)),
            5 => go!(raw as i8, |v| mj::to_string(&v)),
            6 => go!(raw as i16, |v| mj::to_string(&v)),
            7 => go!(raw as i32, |v| mj::to_string(&v)),
            8 => go!(raw as i64, |v| mj::to_string(&v)),
            9 => go!(raw as isize, |v| mj::to_string(&v)),
            10 => go!(raw, |v| mj::to_string(&Number::U64(v))),
            11 => go!(raw as i64, |v| mj::to_string(&Value::Number(Number::I64(v)))),
            12 => go!(raw, |v| Number::U64(v).to_string()),
            13 => go!(raw as i64, |v| Number::I64(v).to_string()),
            14 => go!(raw as i64, |v| mj::to_string(&Some(Box::new(&v)))),
            15 => go!(raw, |v| mj::to_string(&Value::Number(Number::U64(v)))),
            16 => go!(raw, |v| mj::to_string(&vec![v])),
            17 => go!(raw as i64, |v| mj::to_string(&(true, v))),
            18 => go!(raw as i32, |v| {
                let mut m = std::collections::BTreeMap::new();
                m.insert(String::from("k"), v);
                mj::to_string(&m)
            }),
            19 => go!(raw as u16, |v| mj::to_string(&crate::types::G { v, o: None })),
            20 => go!(raw, |v| {
                let mut m = std::collections::BTreeMap::new();
                m.insert(v, ());
                mj::to_string(&m)
            }),
            _ => go!(raw as i8, |v| mj::to_string(&[None, Some(v)])),
        }
    }
    /// Any floating point number. params: how it is held
    fn out_float() {
        let bits = sym::u64("double");
        let f = f64::from_bits(bits);
        let mut b = ryu::Buffer::new();
        match sym::param(0) {
            0 | 1 | 2 => {
                let text = match sym::param(0) {
                    0 => mj::to_string(&f),
                    1 => mj::to_string(&Number::F64(f)),
                    _ => mj::to_string(&Value::Number(Number::F64(f))),
                };
                let want = if nul(bits) { "null" } else { b.format_finite(f) };
                sym::check(crate::json::bytes_eq(text.as_bytes(), want.as_bytes()), "number written");
                sym::cover(1 + nul(bits) as u32);
            }
            3 => {
                let g = f32::from_bits(bits as u32);
                let text = mj::to_string(&g);
                let none = bits as u32 & 0x7f80_0000 == 0x7f80_0000;
                let want = if none { "null" } else { b.format_finite(g as f64) };
                sym::check(crate::json::bytes_eq(text.as_bytes(), want.as_bytes()), "single precision number written");
                sym::cover(1 + none as u32);
            }
            4 => {
                // between others, twice
                let text = mj::to_string(&(f, vec![f]));
                let want = if nul(bits) { "null" } else { b.format_finite(f) };
                let mut w = String::from("[");
                w.push_str(want);
                w.push_str(",[");
                w.push_str(want);
                w.push_str("]]");
                sym::check(crate::json::bytes_eq(text.as_bytes(), w.as_bytes()), "number written");
                sym::cover(1 + nul(bits) as u32);
            }
            6 => {
                // values of all magnitudes with the real number writer: a JSON number close to the value
                let e = sym::pick("exponent", 16) as u64;
                let m = sym::conc(sym::u8("mantissa") as u64);
                let x = (m >> 7) << 63 | [0, 1, 2, 900, 950, 1000, 1022, 1023, 1024, 1030, 1060, 1075, 1100, 1500, 2045, 2046][e as usize] << 52
                    | [0, 1, 2, 3, (1 << 51), (1 << 52) - 1, 0x999999999999a, 0x3333333333333][(m & 7) as usize] ^ (m >> 3 & 15) << 20;
                let f = f64::from_bits(x);
                let t = mj::to_string(&f);
                match crate::json::parse(t.as_bytes()) {
                    Some(crate::json::J::Num(n)) => {
                        if n.sig == 0 {
                            sym::check(x << 1 == 0, "zero written for another number");
                        }
                        sym::check(n.neg == (x >> 63 == 1), "sign written");
                        sym::float_is(f, n.neg, n.sig, n.exp);
                        sym::cover(1);
                    }
                    _ => sym::fail("not a JSON number"),
                }
            }
            _ => {
                sym::assume(!nul(bits));
                let text = Number::F64(f).to_string();
                sym::check(crate::json::bytes_eq(text.as_bytes(), b.format_finite(f).as_bytes()), "number displayed");
                sym::cover(1);
            }
        }
    }
    /// Values of borrowed and unsized types. params: which
    fn out_unsized() {
        use std::borrow::Cow;
        let s = crate::gen::run(b'?', 2);
        let mut want = Vec::new();
        let v = [sym::flag("a"), sym::flag("b"), sym::flag("c")];
        let list = |out: &mut Vec<u8>, n: usize| {
            out.push(b'[');
            for i in 0..n {
                if i > 0 {
                    out.push(b',');
                }
                v[i].text(out);
            }
            out.push(b']');
        };
        let text = match sym::param(0) {
            0 => {
                quote(s.as_bytes(), &mut want);
                mj::to_string::<str>(&s)
            }
            1 => {
                quote(s.as_bytes(), &mut want);
                mj::to_string(&Cow::Borrowed(s.as_str()))
            }
            2 => {
                quote(s.as_bytes(), &mut want);
                mj::to_string(&Cow::<str>::Owned(s.clone()))
            }
            3 => {
                quote(s.as_bytes(), &mut want);
                mj::to_string(&&s.as_str())
            }
            4 => {
                let n = sym::pick("length", 4);
                list(&mut want, n);
                mj::to_string::<[bool]>(&v[..n])
            }
            5 => {
                list(&mut want, 3);
                mj::to_string(&v)
            }
            6 => {
                list(&mut want, 3);
                mj::to_string(&&v[..])
            }
            7 => {
                want.push(b'[');
                list(&mut want, 2);
                want.push(b',');
                list(&mut want, 0);
                want.push(b']');
                mj::to_string(&[&v[..2], &v[..0]][..])
            }
            8 => {
                list(&mut want, 2);
                let d: Box<dyn Serialize> = Box::new((v[0], v[1]));
                mj::to_string(&*d)
            }
            9 => {
                let e: [bool; 0] = [];
                list(&mut want, 0);
                mj::to_string(&e)
            }
            _ => {
                let d: &dyn Serialize = &v[0];
                v[0].text(&mut want);
                mj::to_string(d)
            }
        };
        wrote(&text, &want);
        sym::cover(1);
    }
}
#[allow(dead_code)]
fn unused(_: P) {}
