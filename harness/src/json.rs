//! Reference reading of JSON texts (RFC 8259), written independently of the crate under test: a recursive
//! descent over the bytes that builds a plain tree. Numbers keep their exact decimal value.
#![allow(dead_code)]
use crate::sym;
use miniserde::json::{Array, Number, Object, Value};

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Num {
    pub neg: bool,
    /// no fraction and no exponent
    pub int: bool,
    /// value = sig * 10^exp
    pub sig: u128,
    pub exp: i64,
    /// digits counted into sig
    pub digits: u32,
}

#[derive(Clone)]
pub enum J {
    Null,
    Bool(bool),
    Num(Num),
    Str(Vec<u8>),
    Arr(Vec<J>),
    Obj(Vec<(Vec<u8>, J)>),
}

pub struct P<'a> {
    pub b: &'a [u8],
    pub i: usize,
}

fn hexval(c: u8) -> Option<u16> {
    let d = c.wrapping_sub(b'0');
    if d < 10 {
        return Some(d as u16);
    }
    let d = (c | 0x20).wrapping_sub(b'a');
    if d < 6 {
        return Some(10 + d as u16);
    }
    None
}

fn is_digit(c: u8) -> bool {
    c.wrapping_sub(b'0') < 10
}

impl<'a> P<'a> {
    pub fn peek(&self) -> Option<u8> {
        if self.i < self.b.len() {
            Some(self.b[self.i])
        } else {
            None
        }
    }
    pub fn ws(&mut self) {
        while let Some(c) = self.peek() {
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Some(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self, w: &[u8]) -> Option<()> {
        for &c in w {
            if !self.eat(c) {
                return None;
            }
        }
        Some(())
    }
    fn hex4(&mut self) -> Option<u32> {
        let mut v = 0u16;
        for _ in 0..4 {
            let h = hexval(self.peek()?)?;
            self.i += 1;
            v = v * 16 + h;
        }
        Some(v as u32)
    }
    /// After the opening quote.
    pub fn string(&mut self) -> Option<Vec<u8>> {
        let mut o = Vec::new();
        loop {
            let c = self.peek()?;
            self.i += 1;
            if c == b'"' {
                return Some(o);
            }
            if c < 0x20 {
                return None;
            }
            if c != b'\\' {
                o.push(c);
                continue;
            }
            let e = self.peek()?;
            self.i += 1;
            match e {
                b'"' => o.push(0x22),
                b'\\' => o.push(0x5c),
                b'/' => o.push(0x2f),
                b'b' => o.push(8),
                b'f' => o.push(12),
                b'n' => o.push(10),
                b'r' => o.push(13),
                b't' => o.push(9),
                b'u' => {
                    let h = self.hex4()?;
                    let cp = if h >= 0xd800 && h < 0xdc00 {
                        if !self.eat(b'\\') || !self.eat(b'u') {
                            return None;
                        }
                        let l = self.hex4()?;
                        if l < 0xdc00 || l >= 0xe000 {
                            return None;
                        }
                        0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00)
                    } else if h >= 0xdc00 && h < 0xe000 {
                        return None;
                    } else {
                        h
                    };
                    utf8(cp, &mut o);
                }
                _ => return None,
            }
        }
    }
    pub fn number(&mut self) -> Option<Num> {
        let neg = self.eat(b'-');
        let mut n = Num { neg, int: true, sig: 0, exp: 0, digits: 0 };
        let c = self.peek()?;
        if !is_digit(c) {
            return None;
        }
        self.i += 1;
        // long literals: leading zeros do not count, digits after the 38th only scale
        let long = self.b.len() > 36;
        n.digit(c, false, long);
        if c != b'0' {
            while let Some(c) = self.peek() {
                if !is_digit(c) {
                    break;
                }
                self.i += 1;
                n.digit(c, false, long);
            }
        }
        if self.eat(b'.') {
            n.int = false;
            let c = self.peek()?;
            if !is_digit(c) {
                return None;
            }
            while let Some(c) = self.peek() {
                if !is_digit(c) {
                    break;
                }
                self.i += 1;
                n.digit(c, true, long);
            }
        }
        let e = match self.peek() {
            Some(b'e') | Some(b'E') => true,
            _ => false,
        };
        if e {
            self.i += 1;
            n.int = false;
            let mut eneg = false;
            match self.peek() {
                Some(b'+') => self.i += 1,
                Some(b'-') => {
                    eneg = true;
                    self.i += 1;
                }
                _ => {}
            }
            let c = self.peek()?;
            if !is_digit(c) {
                return None;
            }
            let mut e = 0i64;
            let mut k = 0;
            while let Some(c) = self.peek() {
                if !is_digit(c) {
                    break;
                }
                self.i += 1;
                k += 1;
                if k > 15 && e > 1_000_000_000_000 {
                    continue;
                }
                e = e * 10 + (c - b'0') as i64;
            }
            n.exp += if eneg { -e } else { e };
        }
        Some(n)
    }
    pub fn value(&mut self) -> Option<J> {
        let c = self.peek()?;
        match c {
            b'n' => {
                self.word(b"null")?;
                Some(J::Null)
            }
            b't' => {
                self.word(b"true")?;
                Some(J::Bool(true))
            }
            b'f' => {
                self.word(b"false")?;
                Some(J::Bool(false))
            }
            b'"' => {
                self.i += 1;
                Some(J::Str(self.string()?))
            }
            b'[' => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.eat(b']') {
                    return Some(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value()?);
                    self.ws();
                    if self.eat(b']') {
                        return Some(J::Arr(v));
                    }
                    if !self.eat(b',') {
                        return None;
                    }
                }
            }
            b'{' => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.eat(b'}') {
                    return Some(J::Obj(v));
                }
                loop {
                    self.ws();
                    if !self.eat(b'"') {
                        return None;
                    }
                    let k = self.string()?;
                    self.ws();
                    if !self.eat(b':') {
                        return None;
                    }
                    self.ws();
                    let x = self.value()?;
                    v.push((k, x));
                    self.ws();
                    if self.eat(b'}') {
                        return Some(J::Obj(v));
                    }
                    if !self.eat(b',') {
                        return None;
                    }
                }
            }
            _ => Some(J::Num(self.number()?)),
        }
    }
}

impl Num {
    fn digit(&mut self, c: u8, frac: bool, long: bool) {
        let d = (c - b'0') as u128;
        if long {
            if self.digits >= 37 {
                if !frac {
                    self.exp += 1;
                }
                return;
            }
            if self.sig == 0 && d == 0 {
                if frac {
                    self.exp -= 1;
                }
                return;
            }
        }
        self.sig = self.sig * 10 + d;
        self.digits += 1;
        if frac {
            self.exp -= 1;
        }
    }
    pub fn zero(&self) -> bool {
        self.sig == 0
    }
    /// Fits u64 (non-negative literals) or i64 (negative ones) as an integer.
    pub fn fits(&self) -> bool {
        self.int && self.exp == 0 && if self.neg { self.sig <= 1 << 63 } else { self.sig <= u64::MAX as u128 }
    }
}

pub fn utf8(cp: u32, o: &mut Vec<u8>) {
    if cp < 0x80 {
        o.push(cp as u8);
    } else if cp < 0x800 {
        o.push(0xc0 | (cp >> 6) as u8);
        o.push(0x80 | (cp & 63) as u8);
    } else if cp < 0x10000 {
        o.push(0xe0 | (cp >> 12) as u8);
        o.push(0x80 | (cp >> 6 & 63) as u8);
        o.push(0x80 | (cp & 63) as u8);
    } else {
        o.push(0xf0 | (cp >> 18) as u8);
        o.push(0x80 | (cp >> 12 & 63) as u8);
        o.push(0x80 | (cp >> 6 & 63) as u8);
        o.push(0x80 | (cp & 63) as u8);
    }
}

/// The document's tree, or None if it is not a JSON text (overflowing numbers not considered).
pub fn parse(b: &[u8]) -> Option<J> {
    let mut p = P { b, i: 0 };
    p.ws();
    let j = p.value()?;
    p.ws();
    if p.i == b.len() {
        Some(j)
    } else {
        None
    }
}

/// Numbers that might exceed the double range, in document order.
fn huge(j: &J, out: &mut Vec<Num>) {
    match j {
        J::Num(n) => {
            if n.digits as i64 + n.exp > 300 && !n.zero() {
                out.push(*n);
            }
        }
        J::Arr(v) => {
            for x in v {
                huge(x, out);
            }
        }
        J::Obj(v) => {
            for (_, x) in v {
                huge(x, out);
            }
        }
        _ => {}
    }
}

/// The parse of a text whose grammar is right was refused: only an overflowing number can be the reason.
pub fn refused(j: &J, msg: &'static str) {
    let mut h = Vec::new();
    huge(j, &mut h);
    if h.len() == 0 {
        sym::fail(msg);
    } else if h.len() == 1 {
        sym::overflows(h[0].sig, h[0].exp);
    }
    // more than one candidate: not told apart
}

pub fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a == b
}

static EXACT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);
/// Whether floats are compared with the literal's value (costly) or only by sign.
pub fn set_exact(x: bool) {
    EXACT.store(x, std::sync::atomic::Ordering::Relaxed)
}
pub fn exact() -> bool {
    EXACT.load(std::sync::atomic::Ordering::Relaxed)
}

/// Does the untyped number hold the literal's value?
pub fn same_num(n: &Number, l: &Num) {
    if l.fits() {
        match n {
            Number::U64(u) => sym::check(!l.neg && *u as u128 == l.sig, "integer value"),
            Number::I64(i) => sym::check(l.neg && (*i as u64).wrapping_neg() as u128 == l.sig, "negative integer value"),
            Number::F64(_) => sym::fail("an integer literal became a float"),
        }
    } else {
        match n {
            Number::F64(f) => {
                if exact() {
                    sym::float_is(*f, l.neg, l.sig, l.exp)
                } else {
                    sym::check((f.to_bits() >> 63 == 1) == l.neg, "sign of a float")
                }
            }
            _ => sym::fail("a float literal became an integer"),
        }
    }
}

pub fn same(v: &Value, j: &J) {
    match (v, j) {
        (Value::Null, J::Null) => {}
        (Value::Bool(a), J::Bool(b)) => sym::check(*a == *b, "boolean"),
        (Value::Number(n), J::Num(l)) => same_num(n, l),
        (Value::String(s), J::Str(t)) => sym::check(bytes_eq(s.as_bytes(), t), "string contents"),
        (Value::Array(a), J::Arr(t)) => same_arr(a, t),
        (Value::Object(o), J::Obj(t)) => same_obj(o, t),
        _ => sym::fail("kind of value"),
    }
}
pub fn same_arr(a: &Array, t: &[J]) {
    sym::check(a.len() == t.len(), "number of elements");
    for i in 0..t.len() {
        same(&a[i], &t[i]);
    }
}
pub fn same_obj(o: &Object, t: &[(Vec<u8>, J)]) {
    let mut n = 0;
    for i in 0..t.len() {
        let mut last = true;
        for k in i + 1..t.len() {
            if bytes_eq(&t[k].0, &t[i].0) {
                last = false;
                break;
            }
        }
        if last {
            n += 1;
            let mut found = false;
            for (k, v) in o {
                if bytes_eq(k.as_bytes(), &t[i].0) {
                    sym::check(!found, "member twice");
                    found = true;
                    same(v, &t[i].1);
                }
            }
            sym::check(found, "member missing");
        }
    }
    sym::check(o.len() == n, "number of members");
    // ordered, and reachable by name
    let mut prev: Option<&String> = None;
    for (k, v) in o {
        if let Some(p) = prev {
            sym::check(p.as_bytes() < k.as_bytes(), "members out of order");
        }
        prev = Some(k);
        match o.get(k) {
            Some(x) => sym::check(std::ptr::eq(x, v), "lookup finds another member"),
            None => sym::fail("lookup misses a member"),
        }
    }
}
