//! The crate with and without the standard library, side by side: C25.
use crate::{gen, sym};
use std::collections::BTreeMap;

/// Templates on top of short texts of every kind.
pub const T: &[&[u8]] = &[
    b"[?,?]",
    b"{\"a\":?,\"b\":?}",
    b"{\"?\":1,\"?\":2}",
    b"[[],{},[?]]",
    b"[1,[2,{\"k\":[?]}],3]",
    b"[null?true]",
    b"{\"a\"?1}",
    b"{\"a\":1?\"b\":2}",
    b"\"\\?\"",
    b"\"\\u??41\"",
    b"\"\\u@@4@\"",
    b"\"\\ud8@0\\ud?00\"",
    b"\"a\x02b\\n\x03\"",
    b"{\"\x04\\t\":\"\x03\"}",
    b"-?",
    b"-#",
    b"1.?",
    b"1e?5",
    b"1e#?",
    b"0?",
    b"##",
    b"-##.##",
    b"#.###e-1#",
    b"#.#e5",
    b"1.5e#",
    b"-#e3##",
    b"#.2e-32#",
    b"####################",
    b"1844674407370955161?",
    b"-922337203685477580?",
    b"184467440737095516###.#",
    b"0.00000000000000000000000000#",
    b"1e#########",
    b"#e-9999999999999999999#",
    b"[true,?]",
    b"[1,2,?]",
    b"[[1,2],[3,?]]",
    b"{\"a\":1,\"t\":\"?\",\"o\":[true,?]}",
    b"{\"t\":\"x\",\"?\":7,\"a\":8}",
    b"{\"a\":##,\"t\":\"x\",\"a\":###}",
    b"{\"1\":true,\"?\":false}",
    b"\"Va?\"",
    b"\"Var\"",
    b" [ 1 , { \"a\" : ? } ] ?",
    b"%[%1%]%",
    b"[[[[[[?]]]]]]",
    b"{\"a\":{\"a\":{\"a\":?}}}",
    b"nul?",
    b"###",
    b"-1##",
    b"6553#",
    b"\"?\"",
    b"[1,2?3]",
];

fn bytes(a: &str, b: &str, msg: &'static str) {
    sym::check(a.len() == b.len() && a.as_bytes() == b.as_bytes(), msg);
}

mod cmp {
    use super::{bytes, sym};
    use miniserde::json as a;
    use nostd::json as b;

    pub fn value(x: &a::Value, y: &b::Value) {
        match (x, y) {
            (a::Value::Null, b::Value::Null) => {}
            (a::Value::Bool(x), b::Value::Bool(y)) => sym::check(x == y, "another boolean"),
            (a::Value::Number(x), b::Value::Number(y)) => number(x, y),
            (a::Value::String(x), b::Value::String(y)) => bytes(x, y, "another string"),
            (a::Value::Array(x), b::Value::Array(y)) => {
                sym::check(x.len() == y.len(), "another length");
                for (x, y) in x.iter().zip(y.iter()) {
                    value(x, y);
                }
            }
            (a::Value::Object(x), b::Value::Object(y)) => {
                sym::check(x.len() == y.len(), "another number of members");
                for ((k, x), (l, y)) in x.iter().zip(y.iter()) {
                    bytes(k, l, "another member");
                    value(x, y);
                }
            }
            _ => sym::fail("another kind of value"),
        }
    }
    pub fn number(x: &a::Number, y: &b::Number) {
        match (x, y) {
            (a::Number::U64(x), b::Number::U64(y)) => sym::check(x == y, "another number"),
            (a::Number::I64(x), b::Number::I64(y)) => sym::check(x == y, "another number"),
            (a::Number::F64(x), b::Number::F64(y)) => sym::check(x.to_bits() == y.to_bits(), "another number"),
            _ => sym::fail("another kind of number"),
        }
    }
}

fn untyped(s: &str) {
    let x = miniserde::json::from_str::<miniserde::json::Value>(s);
    let y = nostd::json::from_str::<nostd::json::Value>(s);
    sym::log(x.is_ok() as u64);
    match (&x, &y) {
        (Ok(x), Ok(y)) => {
            sym::cover(1);
            cmp::value(x, y);
            bytes(&miniserde::json::to_string(x), &nostd::json::to_string(y), "another text");
            let (c, d) = (x.clone(), y.clone());
            cmp::value(&c, &d);
        }
        (Err(_), Err(_)) => sym::cover(2),
        (Ok(_), Err(_)) => sym::fail("accepted only with the standard library"),
        (Err(_), Ok(_)) => sym::fail("accepted only without the standard library"),
    }
}

trait Same {
    fn same(&self, o: &Self) -> bool;
}
macro_rules! eq {
    ($($t:ty)*) => { $( impl Same for $t { fn same(&self, o: &Self) -> bool { self == o } } )* };
}
eq!(() bool u8 u16 u32 u64 usize i8 i16 i32 i64 isize String);
impl Same for f64 {
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Same for f32 {
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl<T: Same> Same for Option<T> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}
impl<T: Same> Same for Box<T> {
    fn same(&self, o: &Self) -> bool {
        (**self).same(&**o)
    }
}
impl<T: Same> Same for Vec<T> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}
impl<T: Same, const N: usize> Same for [T; N] {
    fn same(&self, o: &Self) -> bool {
        self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}
impl<A: Same, B: Same> Same for (A, B) {
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
impl<K: Same, V: Same> Same for BTreeMap<K, V> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|((k, a), (l, b))| k.same(l) && a.same(b))
    }
}

fn typed<T>(s: &str)
where
    T: Same + miniserde::Deserialize + nostd::Deserialize + miniserde::Serialize + nostd::Serialize,
{
    let x = miniserde::json::from_str::<T>(s);
    let y = nostd::json::from_str::<T>(s);
    sym::log(x.is_ok() as u64);
    match (&x, &y) {
        (Ok(x), Ok(y)) => {
            sym::cover(1);
            sym::check(x.same(y), "another value");
            bytes(&miniserde::json::to_string(x), &nostd::json::to_string(x), "another text");
        }
        (Err(_), Err(_)) => sym::cover(2),
        (Ok(_), Err(_)) => sym::fail("accepted only with the standard library"),
        (Err(_), Ok(_)) => sym::fail("accepted only without the standard library"),
    }
}

macro_rules! derived {
    ($m:ident, $c:ident) => {
        mod $m {
            use super::Same;
            use $c as miniserde;
            use miniserde::{Deserialize, Serialize};
            #[derive(Deserialize, Serialize)]
            pub struct S {
                pub a: u8,
                #[serde(rename = "t")]
                pub r#type: String,
                pub o: Option<(bool, Box<i8>)>,
                pub e: Option<E>,
            }
            #[derive(Deserialize, Serialize)]
            pub enum E {
                Var,
                #[serde(rename = "Vas")]
                Other,
                r#Va,
            }
            impl E {
                pub fn n(&self) -> u8 {
                    match self {
                        E::Var => 0,
                        E::Other => 1,
                        E::r#Va => 2,
                    }
                }
            }
            pub fn parse(s: &str) -> (Option<S>, Option<E>, Option<String>) {
                let x = miniserde::json::from_str::<S>(s).ok();
                let e = miniserde::json::from_str::<E>(s).ok();
                let t = match (&x, &e) {
                    (Some(x), _) => Some(miniserde::json::to_string(x)),
                    (_, Some(e)) => Some(miniserde::json::to_string(e)),
                    _ => None,
                };
                (x, e, t)
            }
            #[allow(dead_code)]
            pub fn u(a: &u8) -> bool {
                a.same(a)
            }

            // a recording visitor and what it saw
            pub type Events = Vec<(u8, u64, Vec<u8>)>;
            static mut EV: Events = Vec::new();
            static mut LEFT: usize = 0;
            fn ev() -> &'static mut Events {
                unsafe { &mut *std::ptr::addr_of_mut!(EV) }
            }
            fn note(k: u8, n: u64, s: &str) -> miniserde::Result<()> {
                ev().push((k, n, s.as_bytes().to_vec()));
                unsafe {
                    if LEFT == 0 {
                        return Err(miniserde::Error);
                    }
                    LEFT -= 1;
                }
                Ok(())
            }
            pub struct Spy;
            struct Rec;
            use miniserde::de::{Map, Seq, Visitor};
            miniserde::make_place!(Place);
            static mut REC: Rec = Rec;
            impl Deserialize for Spy {
                fn begin(_: &mut Option<Self>) -> &mut dyn Visitor {
                    unsafe { &mut *std::ptr::addr_of_mut!(REC) }
                }
            }
            impl Visitor for Rec {
                fn null(&mut self) -> miniserde::Result<()> {
                    note(0, 0, "")
                }
                fn boolean(&mut self, b: bool) -> miniserde::Result<()> {
                    note(1, b as u64, "")
                }
                fn string(&mut self, s: &str) -> miniserde::Result<()> {
                    note(2, 0, s)
                }
                fn negative(&mut self, n: i64) -> miniserde::Result<()> {
                    note(3, n as u64, "")
                }
                fn nonnegative(&mut self, n: u64) -> miniserde::Result<()> {
                    note(4, n, "")
                }
                fn float(&mut self, n: f64) -> miniserde::Result<()> {
                    note(5, n.to_bits(), "")
                }
                fn seq(&mut self) -> miniserde::Result<Box<dyn Seq + '_>> {
                    note(6, 0, "")?;
                    Ok(Box::new(B(Box::new(Rec))))
                }
                fn map(&mut self) -> miniserde::Result<Box<dyn Map + '_>> {
                    note(7, 0, "")?;
                    Ok(Box::new(B(Box::new(Rec))))
                }
            }
            struct B(Box<Rec>);
            impl Seq for B {
                fn element(&mut self) -> miniserde::Result<&mut dyn Visitor> {
                    note(8, 0, "")?;
                    Ok(&mut *self.0)
                }
                fn finish(&mut self) -> miniserde::Result<()> {
                    note(9, 0, "")
                }
            }
            impl Map for B {
                fn key(&mut self, k: &str) -> miniserde::Result<&mut dyn Visitor> {
                    note(10, 0, k)?;
                    Ok(&mut *self.0)
                }
                fn finish(&mut self) -> miniserde::Result<()> {
                    note(11, 0, "")
                }
            }
            impl Drop for B {
                fn drop(&mut self) {
                    ev().push((12, 0, Vec::new()));
                }
            }
            pub fn spy(s: &str, left: usize) -> Events {
                unsafe { LEFT = left }
                *ev() = Vec::new();
                let r = miniserde::json::from_str::<Spy>(s).is_ok();
                ev().push((13, r as u64, Vec::new()));
                std::mem::take(ev())
            }
        }
    };
}
derived!(with, miniserde);
derived!(without, nostd);

fn structs(s: &str) {
    let (x, e, t) = with::parse(s);
    let (y, f, u) = without::parse(s);
    match (&x, &y) {
        (Some(x), Some(y)) => {
            sym::cover(1);
            sym::check(x.a == y.a && x.r#type.same(&y.r#type) && x.o.same(&y.o), "another value");
            sym::check(x.e.as_ref().map(|e| e.n()) == y.e.as_ref().map(|e| e.n()), "another value");
        }
        (None, None) => sym::cover(2),
        _ => sym::fail("accepted by one build only"),
    }
    match (&e, &f) {
        (Some(x), Some(y)) => {
            sym::cover(1);
            sym::check(x.n() == y.n(), "another variant")
        }
        (None, None) => {}
        _ => sym::fail("accepted by one build only"),
    }
    match (&t, &u) {
        (Some(t), Some(u)) => bytes(t, u, "another text"),
        (None, None) => {}
        _ => sym::fail("accepted by one build only"),
    }
    sym::log(t.is_some() as u64);
}

harness! {
    /// params: generator, size or template
    fn both_value() {
        let s = gen::doc(sym::param(0), sym::param(1), T);
        untyped(&s);
    }
    /// Two templates, one in a member, one after it. params: how many of the first ones
    fn both_pair() {
        let n = sym::param(0) as u8;
        let mut s = String::from("[{\"k\":");
        s.push_str(&gen::fill(T[sym::pick("template", n)]));
        s.push_str("},");
        s.push_str(&gen::fill(T[sym::pick("template", n)]));
        s.push(']');
        untyped(&s);
    }
    /// params: type, generator, size or template
    fn both_typed() {
        let s = gen::doc(sym::param(1), sym::param(2), T);
        let s = &s[..];
        match sym::param(0) {
            0 => typed::<()>(s),
            1 => typed::<bool>(s),
            2 => typed::<u8>(s),
            3 => typed::<u16>(s),
            4 => typed::<u32>(s),
            5 => typed::<u64>(s),
            6 => typed::<usize>(s),
            7 => typed::<i8>(s),
            8 => typed::<i16>(s),
            9 => typed::<i32>(s),
            10 => typed::<i64>(s),
            11 => typed::<isize>(s),
            12 => typed::<f64>(s),
            13 => typed::<f32>(s),
            14 => typed::<String>(s),
            15 => typed::<Vec<u8>>(s),
            16 => typed::<(u8, bool)>(s),
            17 => typed::<[bool; 2]>(s),
            18 => typed::<Option<u8>>(s),
            19 => typed::<Box<Vec<Option<String>>>>(s),
            20 => typed::<BTreeMap<u8, bool>>(s),
            21 => typed::<BTreeMap<String, Vec<u8>>>(s),
            22 => typed::<[(u8, Box<u8>); 2]>(s),
            23 => typed::<Vec<Vec<u8>>>(s),
            24 => typed::<Option<Box<[u8; 2]>>>(s),
            _ => structs(s),
        }
    }
    /// The calls a user's visitor gets. params: generator, size or template, 1: one of them fails
    fn both_calls() {
        let s = gen::doc(sym::param(0), sym::param(1), T);
        let left = if sym::param(2) == 1 { sym::pick("failing call", 8) } else { 1000 };
        let a = with::spy(&s, left);
        let b = without::spy(&s, left);
        sym::check(a.len() == b.len(), "number of calls");
        for (x, y) in a.iter().zip(&b) {
            sym::check(x.0 == y.0, "another call");
            sym::check(x.1 == y.1, "another argument");
            sym::check(x.2.len() == y.2.len() && x.2 == y.2, "another text");
        }
        sym::cover(1);
        sym::log(a.len() as u64);
    }
    /// Text of strings and numbers. params: what
    fn both_text() {
        use miniserde::json::to_string as f;
        use nostd::json::to_string as g;
        macro_rules! of { ($e:expr) => {{ let x = $e; bytes(&f(&x), &g(&x), "another text"); }}; }
        let b: [u8; 8] = sym::bytes("bits");
        match sym::param(0) {
            0 => of!(b[0]),
            1 => of!(u16::from_le_bytes([b[0], b[1]])),
            2 => of!(u32::from_le_bytes([b[0], b[1], b[2], b[3]])),
            3 => of!(u64::from_le_bytes(b)),
            4 => of!(b[0] as i8),
            5 => of!(i16::from_le_bytes([b[0], b[1]])),
            6 => of!(i32::from_le_bytes([b[0], b[1], b[2], b[3]])),
            7 => of!(i64::from_le_bytes(b)),
            8 => of!(usize::from_le_bytes(b)),
            9 => of!(isize::from_le_bytes(b)),
            10 => of!(f64::from_bits(u64::from_le_bytes(b))),
            11 => of!(f32::from_bits(u32::from_le_bytes([b[0], b[1], b[2], b[3]]))),
            12 => of!(gen::run(b'?', 1)),
            13 => of!(gen::run(b'?', 3)),
            14 => of!(gen::fill(b"a\x02?\x03")),
            15 => of!(gen::fill(b"?\x04?")),
            16 => {
                let n = u64::from_le_bytes(b);
                bytes(&f(&miniserde::json::Number::U64(n)), &g(&nostd::json::Number::U64(n)), "another text");
            }
            17 => {
                let n = u64::from_le_bytes(b) as i64;
                bytes(&f(&miniserde::json::Number::I64(n)), &g(&nostd::json::Number::I64(n)), "another text");
            }
            18 => {
                let n = f64::from_bits(u64::from_le_bytes(b));
                bytes(&f(&miniserde::json::Number::F64(n)), &g(&nostd::json::Number::F64(n)), "another text");
            }
            19 => {
                let mut m = BTreeMap::new();
                m.insert(gen::run(b'?', 1), vec![Some(b[0] as i8), None]);
                m.insert(gen::run(b'?', 1), vec![]);
                of!(m)
            }
            _ => bytes(&miniserde::Error.to_string(), &nostd::Error.to_string(), "another message"),
        }
        sym::cover(1);
    }
}
