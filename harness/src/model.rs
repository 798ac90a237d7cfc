//! What a JSON tree means for a Rust type: an independent statement of which trees a type accepts and of the value
//! they give, and of the text a value has.
use crate::json::{self, J};
use crate::sym;
use miniserde::json::{Array, Number, Object, Value};
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, Hasher};
use std::str::FromStr;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tri {
    No,
    /// not specified (the literal "-0" for unsigned integers)
    Either,
    Yes,
}
use Tri::*;
impl Tri {
    pub fn and(self, o: Tri) -> Tri {
        match (self, o) {
            (No, _) | (_, No) => No,
            (Yes, Yes) => Yes,
            _ => Either,
        }
    }
    pub fn of(b: bool) -> Tri {
        if b {
            Yes
        } else {
            No
        }
    }
}

pub trait Model: Sized {
    fn accepts(j: &J) -> Tri;
    /// Checks that this is the value the (accepted) tree gives.
    fn same(&self, j: &J);
    /// Checks a struct field that no member was given for.
    fn absent(&self) {
        sym::fail("a missing member was made up")
    }
    fn optional() -> bool {
        false
    }
    /// Appends the JSON text.
    fn text(&self, out: &mut Vec<u8>);
    fn equal(&self, o: &Self) -> bool;
    /// Some value, with symbolic parts. `size` bounds the containers.
    fn any(size: u64) -> Self;
}

impl Model for () {
    fn accepts(j: &J) -> Tri {
        Tri::of(matches!(j, J::Null))
    }
    fn same(&self, _: &J) {}
    fn text(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(b"null")
    }
    fn equal(&self, _: &Self) -> bool {
        true
    }
    fn any(_: u64) -> Self {}
}
impl Model for bool {
    fn accepts(j: &J) -> Tri {
        Tri::of(matches!(j, J::Bool(_)))
    }
    fn same(&self, j: &J) {
        if let J::Bool(b) = j {
            sym::check(*self == *b, "boolean")
        }
    }
    fn text(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(if *self { b"true" } else { b"false" })
    }
    fn equal(&self, o: &Self) -> bool {
        *self == *o
    }
    fn any(_: u64) -> Self {
        sym::flag("bool")
    }
}
impl Model for String {
    fn accepts(j: &J) -> Tri {
        Tri::of(matches!(j, J::Str(_)))
    }
    fn same(&self, j: &J) {
        if let J::Str(b) = j {
            sym::check(json::bytes_eq(self.as_bytes(), b), "string contents");
        }
    }
    fn text(&self, out: &mut Vec<u8>) {
        quote(self.as_bytes(), out)
    }
    fn equal(&self, o: &Self) -> bool {
        json::bytes_eq(self.as_bytes(), o.as_bytes())
    }
    fn any(size: u64) -> Self {
        let n = sym::pick("string length", size as u8 + 1);
        let mut s = crate::gen::run(b'?', n);
        s.shrink_to_fit();
        s
    }
}

/// A string literal as a compact writer gives it: only what must be escaped is, with the short escapes.
pub fn quote(s: &[u8], out: &mut Vec<u8>) {
    out.push(b'"');
    for &c in s {
        match c {
            b'"' => out.extend_from_slice(b"\\\""),
            b'\\' => out.extend_from_slice(b"\\\\"),
            8 => out.extend_from_slice(b"\\b"),
            9 => out.extend_from_slice(b"\\t"),
            10 => out.extend_from_slice(b"\\n"),
            12 => out.extend_from_slice(b"\\f"),
            13 => out.extend_from_slice(b"\\r"),
            c if c < 0x20 => {
                out.extend_from_slice(b"\\u00");
                out.push(b'0' + (c >> 4));
                out.push(b"0123456789abcdef"[(c & 15) as usize]);
            }
            c => out.push(c),
        }
    }
    out.push(b'"');
}

pub fn digits(neg: bool, mut m: u64, out: &mut Vec<u8>) {
    if neg {
        out.push(b'-');
    }
    let mut b = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        b[i] = b'0' + (m % 10) as u8;
        m /= 10;
        if m == 0 {
            break;
        }
    }
    out.extend_from_slice(&b[i..]);
}

macro_rules! ints {
    ($($t:ident $signed:literal)*) => { $(
        impl Model for $t {
            fn accepts(j: &J) -> Tri {
                match j {
                    J::Num(n) if n.int => {
                        if n.exp != 0 {
                            No
                        } else if n.neg {
                            if n.sig == 0 && !$signed { Either } else { Tri::of(n.sig <= ($t::MIN as i128).unsigned_abs()) }
                        } else {
                            Tri::of(n.sig <= $t::MAX as u128)
                        }
                    }
                    _ => No,
                }
            }
            fn same(&self, j: &J) {
                if let J::Num(n) = j {
                    let v = *self as i128 as u128;
                    sym::check(if n.neg { v.wrapping_neg() == n.sig } else { v == n.sig }, "integer value");
                }
            }
            fn text(&self, out: &mut Vec<u8>) {
                let v = *self as i128;
                digits(v < 0, v.unsigned_abs() as u64, out)
            }
            fn equal(&self, o: &Self) -> bool { *self == *o }
            /// One digit, maybe a sign; longer ones are the business of out_int.
            fn any(_: u64) -> Self {
                let b = sym::u8("int");
                if $signed {
                    sym::assume((b as i8 > -10) & ((b as i8) < 10));
                    b as i8 as $t
                } else {
                    sym::assume(b < 10);
                    b as $t
                }
            }
        }
    )* };
}
ints!(u8 false u16 false u32 false u64 false usize false i8 true i16 true i32 true i64 true isize true);

impl Model for f64 {
    fn accepts(j: &J) -> Tri {
        Tri::of(matches!(j, J::Num(_)))
    }
    fn same(&self, j: &J) {
        if let J::Num(n) = j {
            if n.fits() && n.zero() {
                sym::check(*self == 0.0, "zero");
            } else if json::exact() {
                sym::float_is(*self, n.neg, n.sig, n.exp);
            } else {
                sym::check((self.to_bits() >> 63 == 1) == n.neg, "sign of a float");
            }
        }
    }
    fn text(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(b"0.0")
    }
    fn equal(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
    fn any(_: u64) -> Self {
        0.0
    }
}
impl Model for f32 {
    fn accepts(j: &J) -> Tri {
        Tri::of(matches!(j, J::Num(_)))
    }
    fn same(&self, j: &J) {
        if let J::Num(n) = j {
            if n.zero() {
                sym::check(*self == 0.0, "zero");
            } else if n.digits <= 5 && n.exp == 0 {
                // exactly representable
                sym::check(*self == n.sig as u32 as f32 * if n.neg { -1.0 } else { 1.0 }, "single precision value");
            } else {
                sym::check((self.to_bits() >> 31 == 1) == n.neg, "sign of a float");
            }
        }
    }
    fn text(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(b"0.0")
    }
    fn equal(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
    fn any(_: u64) -> Self {
        0.0
    }
}
impl<T: Model> Model for Box<T> {
    fn accepts(j: &J) -> Tri {
        T::accepts(j)
    }
    fn same(&self, j: &J) {
        (**self).same(j)
    }
    fn text(&self, out: &mut Vec<u8>) {
        (**self).text(out)
    }
    fn equal(&self, o: &Self) -> bool {
        (**self).equal(&**o)
    }
    fn any(size: u64) -> Self {
        Box::new(T::any(size))
    }
}
impl<T: Model> Model for Option<T> {
    fn accepts(j: &J) -> Tri {
        if let J::Null = j {
            return Yes;
        }
        T::accepts(j)
    }
    fn same(&self, j: &J) {
        match (self, j) {
            (None, J::Null) => {}
            (Some(_), J::Null) => sym::fail("null became a present value"),
            (None, _) => sym::fail("a value became absent"),
            (Some(x), _) => x.same(j),
        }
    }
    fn absent(&self) {
        sym::check(self.is_none(), "a missing optional member became present");
    }
    fn optional() -> bool {
        true
    }
    fn text(&self, out: &mut Vec<u8>) {
        match self {
            None => out.extend_from_slice(b"null"),
            Some(x) => x.text(out),
        }
    }
    fn equal(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.equal(b),
            _ => false,
        }
    }
    fn any(size: u64) -> Self {
        if sym::pick("present", 2) == 1 {
            Some(T::any(size))
        } else {
            None
        }
    }
}
impl<A: Model, B: Model> Model for (A, B) {
    fn accepts(j: &J) -> Tri {
        match j {
            J::Arr(v) if v.len() == 2 => A::accepts(&v[0]).and(B::accepts(&v[1])),
            _ => No,
        }
    }
    fn same(&self, j: &J) {
        if let J::Arr(v) = j {
            self.0.same(&v[0]);
            self.1.same(&v[1]);
        }
    }
    fn text(&self, out: &mut Vec<u8>) {
        out.push(b'[');
        self.0.text(out);
        out.push(b',');
        self.1.text(out);
        out.push(b']');
    }
    fn equal(&self, o: &Self) -> bool {
        self.0.equal(&o.0) && self.1.equal(&o.1)
    }
    fn any(size: u64) -> Self {
        let a = A::any(size);
        (a, B::any(size))
    }
}
pub fn seq_accepts<T: Model>(v: &[J]) -> Tri {
    let mut r = Yes;
    for x in v {
        r = r.and(T::accepts(x));
        if r == No {
            break;
        }
    }
    r
}
pub fn seq_text<T: Model>(v: &[T], out: &mut Vec<u8>) {
    out.push(b'[');
    for i in 0..v.len() {
        if i > 0 {
            out.push(b',');
        }
        v[i].text(out);
    }
    out.push(b']');
}
pub fn seq_equal<T: Model>(a: &[T], b: &[T]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if !a[i].equal(&b[i]) {
            return false;
        }
    }
    true
}
impl<T: Model> Model for Vec<T> {
    fn accepts(j: &J) -> Tri {
        match j {
            J::Arr(v) => seq_accepts::<T>(v),
            _ => No,
        }
    }
    fn same(&self, j: &J) {
        if let J::Arr(v) = j {
            sym::check(self.len() == v.len(), "number of elements");
            for i in 0..v.len() {
                self[i].same(&v[i]);
            }
        }
    }
    fn text(&self, out: &mut Vec<u8>) {
        seq_text(self, out)
    }
    fn equal(&self, o: &Self) -> bool {
        seq_equal(self, o)
    }
    fn any(size: u64) -> Self {
        let n = sym::pick("length", size as u8 + 1);
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(T::any(size));
        }
        v
    }
}
impl<T: Model, const N: usize> Model for [T; N] {
    fn accepts(j: &J) -> Tri {
        match j {
            J::Arr(v) if v.len() == N => seq_accepts::<T>(v),
            _ => No,
        }
    }
    fn same(&self, j: &J) {
        if let J::Arr(v) = j {
            for i in 0..N {
                self[i].same(&v[i]);
            }
        }
    }
    fn text(&self, out: &mut Vec<u8>) {
        seq_text(self, out)
    }
    fn equal(&self, o: &Self) -> bool {
        seq_equal(self, o)
    }
    fn any(size: u64) -> Self {
        std::array::from_fn(|_| T::any(size))
    }
}

/// A key type: what std's FromStr makes of the decoded member name.
pub trait Key: FromStr + ToString + Ord {
    fn any_key(size: u64) -> Self;
    fn key_text(&self, out: &mut Vec<u8>);
}
impl Key for String {
    fn any_key(size: u64) -> Self {
        String::any(size)
    }
    fn key_text(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(self.as_bytes())
    }
}
macro_rules! intkeys {
    ($($t:ident)*) => { $( impl Key for $t {
        fn any_key(size: u64) -> Self { <$t as Model>::any(size) }
        fn key_text(&self, out: &mut Vec<u8>) { let v = *self as i128; digits(v < 0, v.unsigned_abs() as u64, out) }
    } )* };
}
intkeys!(u8 i8 i32 u64 i64);
impl Key for bool {
    fn any_key(_: u64) -> Self {
        sym::flag("bool")
    }
    fn key_text(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(if *self { b"true" } else { b"false" })
    }
}
impl Key for char {
    fn any_key(_: u64) -> Self {
        let b = sym::u8("char");
        sym::assume(b < 0x80);
        b as char
    }
    fn key_text(&self, out: &mut Vec<u8>) {
        out.push(*self as u8)
    }
}

fn key_of<K: FromStr>(b: &[u8]) -> Option<K> {
    // decoded names are valid UTF-8 (checked by the string harnesses)
    K::from_str(unsafe { std::str::from_utf8_unchecked(b) }).ok()
}
pub fn map_accepts<K: Key, V: Model>(j: &J) -> Tri {
    match j {
        J::Obj(m) => {
            let mut r = Yes;
            for (k, v) in m {
                if key_of::<K>(k).is_none() {
                    return No;
                }
                r = r.and(V::accepts(v));
                if r == No {
                    break;
                }
            }
            r
        }
        _ => No,
    }
}
/// Each distinct key once, with its last value.
fn map_same<'a, K: Key + 'a, V: Model + 'a>(j: &J, len: usize, get: &dyn Fn(&K) -> Option<&'a V>) {
    if let J::Obj(m) = j {
        let mut n = 0;
        for i in 0..m.len() {
            let k = match key_of::<K>(&m[i].0) {
                Some(k) => k,
                None => return,
            };
            let mut last = true;
            for l in i + 1..m.len() {
                if let Some(x) = key_of::<K>(&m[l].0) {
                    if x == k {
                        last = false;
                        break;
                    }
                }
            }
            if last {
                n += 1;
                match get(&k) {
                    Some(v) => v.same(&m[i].1),
                    None => sym::fail("entry missing"),
                }
            }
        }
        sym::check(len == n, "number of entries");
    }
}
impl<K: Key, V: Model> Model for BTreeMap<K, V> {
    fn accepts(j: &J) -> Tri {
        map_accepts::<K, V>(j)
    }
    fn same(&self, j: &J) {
        map_same::<K, V>(j, self.len(), &|k| self.get(k));
        let mut n = 0;
        let mut prev: Option<&K> = None;
        for (k, _) in self {
            if let Some(p) = prev {
                sym::check(*p < *k, "entries out of order");
            }
            prev = Some(k);
            n += 1;
        }
        sym::check(n == self.len(), "length of the map");
    }
    fn text(&self, out: &mut Vec<u8>) {
        out.push(b'{');
        let mut first = true;
        for (k, v) in self {
            if !first {
                out.push(b',');
            }
            first = false;
            let mut t = Vec::new();
            k.key_text(&mut t);
            quote(&t, out);
            out.push(b':');
            v.text(out);
        }
        out.push(b'}');
    }
    fn equal(&self, o: &Self) -> bool {
        if self.len() != o.len() {
            return false;
        }
        let mut b = o.iter();
        for (k, v) in self {
            match b.next() {
                Some((l, w)) => {
                    if *k != *l || !v.equal(w) {
                        return false;
                    }
                }
                None => return false,
            }
        }
        true
    }
    fn any(size: u64) -> Self {
        let n = sym::pick("entries", size as u8 + 1);
        let mut m = BTreeMap::new();
        for _ in 0..n {
            let k = K::any_key(size);
            m.insert(k, V::any(size));
        }
        m
    }
}

/// Puts everything into one chain, so that no key needs to be hashed symbolically.
#[derive(Default, Clone)]
pub struct OneChain;
pub struct Zero;
impl Hasher for Zero {
    fn finish(&self) -> u64 {
        7
    }
    fn write(&mut self, _: &[u8]) {}
}
impl BuildHasher for OneChain {
    type Hasher = Zero;
    fn build_hasher(&self) -> Zero {
        Zero
    }
}
pub type Hm<K, V> = HashMap<K, V, OneChain>;
impl<K: Key + std::hash::Hash + Eq, V: Model> Model for Hm<K, V> {
    fn accepts(j: &J) -> Tri {
        map_accepts::<K, V>(j)
    }
    fn same(&self, j: &J) {
        map_same::<K, V>(j, self.len(), &|k| self.get(k));
        let mut n = 0;
        for (k, v) in self {
            n += 1;
            match self.get(k) {
                Some(w) => sym::check(std::ptr::eq(v, w), "lookup finds another entry"),
                None => sym::fail("lookup misses an entry"),
            }
        }
        sym::check(n == self.len(), "length of the map");
    }
    fn text(&self, out: &mut Vec<u8>) {
        out.push(b'{');
        let mut first = true;
        for (k, v) in self {
            if !first {
                out.push(b',');
            }
            first = false;
            let mut t = Vec::new();
            k.key_text(&mut t);
            quote(&t, out);
            out.push(b':');
            v.text(out);
        }
        out.push(b'}');
    }
    fn equal(&self, o: &Self) -> bool {
        if self.len() != o.len() {
            return false;
        }
        for (k, v) in self {
            match o.get(k) {
                Some(w) => {
                    if !v.equal(w) {
                        return false;
                    }
                }
                None => return false,
            }
        }
        true
    }
    fn any(size: u64) -> Self {
        let n = sym::pick("entries", size as u8 + 1);
        let mut m = HashMap::with_hasher(OneChain);
        for _ in 0..n {
            let k = K::any_key(size);
            m.insert(k, V::any(size));
        }
        m
    }
}

impl Model for Value {
    fn accepts(_: &J) -> Tri {
        Yes
    }
    fn same(&self, j: &J) {
        json::same(self, j)
    }
    fn text(&self, out: &mut Vec<u8>) {
        match self {
            Value::Null => ().text(out),
            Value::Bool(b) => b.text(out),
            Value::Number(n) => n.text(out),
            Value::String(s) => s.text(out),
            Value::Array(a) => a.text(out),
            Value::Object(o) => o.text(out),
        }
    }
    fn equal(&self, o: &Self) -> bool {
        match (self, o) {
            (Value::Null, Value::Null) => true,
            (Value::Bool(a), Value::Bool(b)) => *a == *b,
            (Value::Number(a), Value::Number(b)) => a.equal(b),
            (Value::String(a), Value::String(b)) => a.equal(b),
            (Value::Array(a), Value::Array(b)) => a.equal(b),
            (Value::Object(a), Value::Object(b)) => a.equal(b),
            _ => false,
        }
    }
    fn any(size: u64) -> Self {
        match sym::pick("kind", if size == 0 { 4 } else { 6 }) {
            0 => Value::Null,
            1 => Value::Bool(bool::any(size)),
            2 => Value::Number(Number::any(size)),
            3 => Value::String(String::any(size.min(1))),
            4 => Value::Array(Array::any(size - 1)),
            _ => Value::Object(Object::any(size - 1)),
        }
    }
}
impl Model for Number {
    fn accepts(j: &J) -> Tri {
        Tri::of(matches!(j, J::Num(_)))
    }
    fn same(&self, j: &J) {
        if let J::Num(n) = j {
            json::same_num(self, n)
        }
    }
    fn text(&self, out: &mut Vec<u8>) {
        match self {
            Number::U64(u) => digits(false, *u, out),
            Number::I64(i) => digits(*i < 0, i.unsigned_abs(), out),
            Number::F64(_) => {}
        }
    }
    /// A non-negative signed number may come back as an unsigned one.
    fn equal(&self, o: &Self) -> bool {
        match (self, o) {
            (Number::U64(a), Number::U64(b)) => *a == *b,
            (Number::I64(a), Number::I64(b)) => *a == *b,
            (Number::I64(a), Number::U64(b)) => *a >= 0 && *a as u64 == *b,
            (Number::F64(a), Number::F64(b)) => a.to_bits() == b.to_bits(),
            _ => false,
        }
    }
    fn any(_: u64) -> Self {
        let b = sym::u8("number");
        sym::assume((b as i8 > -10) & ((b as i8) < 10));
        if sym::pick("signed", 2) == 1 {
            Number::I64(b as i8 as i64)
        } else {
            sym::assume(b < 10);
            Number::U64(b as u64)
        }
    }
}
impl Model for Array {
    fn accepts(j: &J) -> Tri {
        Tri::of(matches!(j, J::Arr(_)))
    }
    fn same(&self, j: &J) {
        if let J::Arr(v) = j {
            json::same_arr(self, v)
        }
    }
    fn text(&self, out: &mut Vec<u8>) {
        seq_text(self, out)
    }
    fn equal(&self, o: &Self) -> bool {
        seq_equal(self, o)
    }
    fn any(size: u64) -> Self {
        let n = sym::pick("length", size as u8 + 2);
        let mut a = Array::new();
        for _ in 0..n {
            a.push(Value::any(size));
        }
        a
    }
}
impl Model for Object {
    fn accepts(j: &J) -> Tri {
        Tri::of(matches!(j, J::Obj(_)))
    }
    fn same(&self, j: &J) {
        if let J::Obj(v) = j {
            json::same_obj(self, v)
        }
    }
    fn text(&self, out: &mut Vec<u8>) {
        out.push(b'{');
        let mut first = true;
        for (k, v) in self {
            if !first {
                out.push(b',');
            }
            first = false;
            quote(k.as_bytes(), out);
            out.push(b':');
            v.text(out);
        }
        out.push(b'}');
    }
    fn equal(&self, o: &Self) -> bool {
        if self.len() != o.len() {
            return false;
        }
        let mut b = o.iter();
        for (k, v) in self {
            match b.next() {
                Some((l, w)) => {
                    if !k.equal(l) || !v.equal(w) {
                        return false;
                    }
                }
                None => return false,
            }
        }
        true
    }
    fn any(size: u64) -> Self {
        let n = sym::pick("members", size as u8 + 2);
        let mut o = Object::new();
        for _ in 0..n {
            let k = String::any(1);
            o.insert(k, Value::any(size));
        }
        o
    }
}

/// The model of a struct with named members.

macro_rules! model_struct {
    ($name:ident $(<$g:ident>)? { $($field:ident : $key:literal : $t:ty),* }) => {
        model_struct!([$($g: Model)?] $name [$($g)?] { $($field: $key: $t),* });
    };
    ([$($par:tt)*] $name:ident [$($arg:tt)*] { $($field:ident : $key:literal : $t:ty),* }) => {
        impl<$($par)*> Model for $name<$($arg)*> {
            #[allow(unused_mut, unused_variables)]
            fn accepts(j: &J) -> Tri {
                let m = match j { J::Obj(m) => m, _ => return Tri::No };
                let mut r = Tri::Yes;
                $(
                    let mut seen = false;
                    for (k, v) in m {
                        if $crate::json::bytes_eq(k, $key.as_bytes()) {
                            seen = true;
                            r = r.and(<$t as Model>::accepts(v));
                        }
                    }
                    if !seen && !<$t as Model>::optional() {
                        return Tri::No;
                    }
                )*
                r
            }
            #[allow(unused_variables)]
            fn same(&self, j: &J) {
                if let J::Obj(m) = j {
                    $(
                        let mut last: Option<&J> = None;
                        for (k, v) in m {
                            if $crate::json::bytes_eq(k, $key.as_bytes()) { last = Some(v); }
                        }
                        match last {
                            Some(v) => self.$field.same(v),
                            None => self.$field.absent(),
                        }
                    )*
                }
            }
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn text(&self, out: &mut Vec<u8>) {
                out.push(b'{');
                let mut first = true;
                $(
                    if !first { out.push(b','); }
                    first = false;
                    $crate::model::quote($key.as_bytes(), out);
                    out.push(b':');
                    self.$field.text(out);
                )*
                out.push(b'}');
            }
            #[allow(unused_variables)]
            fn equal(&self, o: &Self) -> bool {
                $( if !self.$field.equal(&o.$field) { return false; } )*
                true
            }
            #[allow(unused_variables)]
            fn any(size: u64) -> Self {
                $( let $field = <$t as Model>::any(size); )*
                $name { $($field),* }
            }
        }
    };
}

macro_rules! model_enum {
    ($name:ident { $($var:ident : $key:literal),* }) => {
        impl Model for $name {
            fn accepts(j: &J) -> Tri {
                if let J::Str(s) = j {
                    $( if $crate::json::bytes_eq(s, $key.as_bytes()) { return Tri::Yes; } )*
                }
                Tri::No
            }
            fn same(&self, j: &J) {
                if let J::Str(s) = j {
                    let n: &str = match self { $( $name::$var => $key, )* };
                    $crate::sym::check($crate::json::bytes_eq(s, n.as_bytes()), "variant");
                }
            }
            fn text(&self, out: &mut Vec<u8>) {
                let n: &str = match self { $( $name::$var => $key, )* };
                $crate::model::quote(n.as_bytes(), out)
            }
            fn equal(&self, o: &Self) -> bool {
                std::mem::discriminant(self) == std::mem::discriminant(o)
            }
            fn any(_: u64) -> Self {
                const N: u8 = [$( $key ),*].len() as u8;
                let mut c = $crate::sym::pick("variant", N);
                $( if c == 0 { return $name::$var; } c = c.wrapping_sub(1); )*
                let _ = c;
                unreachable!()
            }
        }
    };
}
