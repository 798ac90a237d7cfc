//! Typed documents and typed output over a table of types: C07..C15, C17, C22, C24.
use crate::json::{self, J};
use crate::model::{Hm, Model, Tri};
use crate::{gen, sym};
use miniserde::json as mj;
use miniserde::json::{Array, Number, Object, Value};
use miniserde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Deserialize, Serialize)]
pub struct S1 {
    a: u8,
    #[serde(rename = "b b")]
    bee: Option<bool>,
    r#type: String,
}
model_struct!(S1 { a: "a": u8, bee: "b b": Option<bool>, r#type: "type": String });

#[derive(Deserialize, Serialize)]
pub struct Inner {
    x: i8,
    t: (bool, Option<u8>),
}
model_struct!(Inner { x: "x": i8, t: "t": (bool, Option<u8>) });

#[derive(Deserialize, Serialize)]
pub struct Nested {
    id: u16,
    inner: Option<Box<Inner>>,
    list: Vec<Inner>,
}
model_struct!(Nested { id: "id": u16, inner: "inner": Option<Box<Inner>>, list: "list": Vec<Inner> });

#[derive(Deserialize, Serialize)]
pub struct G<T> {
    pub v: T,
    pub o: Option<T>,
}
model_struct!(G<T> { v: "v": T, o: "o": Option<T> });

#[derive(Deserialize, Serialize)]
pub struct Empty {}
model_struct!(Empty {});

/// Names that are prefixes of one another, empty, with quotes and controls, beyond ASCII.
#[derive(Deserialize, Serialize)]
pub struct Odd {
    #[serde(rename = "")]
    e: Option<u8>,
    a: Option<u8>,
    aa: Option<u8>,
    #[serde(rename = "A")]
    upper: Option<u8>,
    #[serde(rename = "\"\\\n\u{1}")]
    q: Option<u8>,
    #[serde(rename = "\u{e9}\u{1f600}")]
    u: Option<u8>,
    r#fn: Option<u8>,
    #[serde(rename = "r#x")]
    raw: Option<u8>,
}
model_struct!(Odd { e: "": Option<u8>, a: "a": Option<u8>, aa: "aa": Option<u8>, upper: "A": Option<u8>, q: "\"\\\n\u{1}": Option<u8>, u: "\u{e9}\u{1f600}": Option<u8>, r#fn: "fn": Option<u8>, raw: "r#x": Option<u8> });

/// All fields required, of kinds that own memory.
#[derive(Deserialize, Serialize)]
pub struct Own {
    p: Box<u8>,
    s: String,
    v: Vec<Box<bool>>,
}
model_struct!(Own { p: "p": Box<u8>, s: "s": String, v: "v": Vec<Box<bool>> });

#[derive(Deserialize, Serialize)]
pub enum E {
    A,
    Ab,
    #[serde(rename = "abc d")]
    Renamed,
    r#Loop,
    #[serde(rename = "")]
    Blank,
    #[serde(rename = "\"\u{e9}")]
    Odd,
    a,
}
model_enum!(E { A: "A", Ab: "Ab", Renamed: "abc d", r#Loop: "Loop", Blank: "", Odd: "\"\u{e9}", a: "a" });

#[derive(Deserialize, Serialize)]
pub enum One {
    Only,
}
model_enum!(One { Only: "Only" });

/// Names that begin like a raw identifier, or with an underscore.
#[derive(Deserialize, Serialize)]
pub struct Raws {
    r: Option<u8>,
    r_x: Option<u8>,
    rr: Option<u8>,
    _u: Option<u8>,
    r#match: Option<u8>,
}
model_struct!(Raws { r: "r": Option<u8>, r_x: "r_x": Option<u8>, rr: "rr": Option<u8>, _u: "_u": Option<u8>, r#match: "match": Option<u8> });

/// Names in mixed case, beyond ASCII, swapped, looking like literals, long.
#[allow(non_snake_case)]
#[derive(Deserialize, Serialize)]
pub struct Names {
    camelCase: Option<bool>,
    ñu: Option<bool>,
    #[serde(rename = "b")]
    a: bool,
    #[serde(rename = "a")]
    b: Option<u8>,
    #[serde(rename = "null")]
    n: bool,
    #[serde(rename = " a")]
    sp: Option<bool>,
    a_field_name_that_is_longer_than_most_are_in_practice: bool,
    #[serde(rename = "a_field_name_that_is_longer_than_most_are_in_practicf")]
    other: Option<bool>,
}
model_struct!(Names { camelCase: "camelCase": Option<bool>, ñu: "ñu": Option<bool>, a: "b": bool, b: "a": Option<u8>, n: "null": bool, sp: " a": Option<bool>,
    a_field_name_that_is_longer_than_most_are_in_practice: "a_field_name_that_is_longer_than_most_are_in_practice": bool, other: "a_field_name_that_is_longer_than_most_are_in_practicf": Option<bool> });

/// Many fields, some of which differ in one character only.
#[derive(Deserialize, Serialize)]
pub struct Many {
    f0: (), f1: (), f2: (), f3: (), f4: (), f5: (), f6: (), f7: u8, f8: (), f9: (),
    f10: (), f11: (), f12: (), f13: (), f14: (), f15: (), f16: (), f17: bool, f18: (), f19: Option<bool>,
}
model_struct!(Many { f0: "f0": (), f1: "f1": (), f2: "f2": (), f3: "f3": (), f4: "f4": (), f5: "f5": (), f6: "f6": (), f7: "f7": u8, f8: "f8": (), f9: "f9": (),
    f10: "f10": (), f11: "f11": (), f12: "f12": (), f13: "f13": (), f14: "f14": (), f15: "f15": (), f16: "f16": (), f17: "f17": bool, f18: "f18": (), f19: "f19": Option<bool> });

/// Bounds, a where clause and a constant among the generics.
#[derive(Deserialize, Serialize)]
pub struct Gen<T: Model, U, const N: usize>
where
    U: Model,
{
    t: [T; N],
    u: Option<U>,
    both: Vec<(T, U)>,
}
model_struct!([T: Model, U: Model, const N: usize] Gen [T, U, N] { t: "t": [T; N], u: "u": Option<U>, both: "both": Vec<(T, U)> });

/// Values that look like nothing or like other variants, numbered.
#[allow(non_camel_case_types)]
#[derive(Deserialize, Serialize)]
pub enum Nums {
    R = 7,
    r_x = 200,
    r = 9,
    #[serde(rename = "Y")]
    X = 30,
    #[serde(rename = "X")]
    Y = 2,
    #[serde(rename = "X ")]
    Xs,
    #[serde(rename = "null")]
    Null,
    Ñu,
    #[serde(rename = "1")]
    Digit = 1,
    AVariantWithALongNameThatEndsInOne = 100,
    AVariantWithALongNameThatEndsInTwo,
}
model_enum!(Nums { R: "R", r_x: "r_x", r: "r", X: "Y", Y: "X", Xs: "X ", Null: "null", Ñu: "Ñu", Digit: "1", AVariantWithALongNameThatEndsInOne: "AVariantWithALongNameThatEndsInOne", AVariantWithALongNameThatEndsInTwo: "AVariantWithALongNameThatEndsInTwo" });

/// A type that tells how many of it are alive, delegating to u8.
pub struct Tok(pub Box<u8>);
impl Deserialize for Tok {
    fn begin(out: &mut Option<Self>) -> &mut dyn miniserde::de::Visitor {
        miniserde::make_place!(Place);
        impl miniserde::de::Visitor for Place<Tok> {
            fn nonnegative(&mut self, n: u64) -> miniserde::Result<()> {
                if n > 200 {
                    return Err(miniserde::Error);
                }
                self.out = Some(Tok(Box::new(n as u8)));
                Ok(())
            }
        }
        Place::new(out)
    }
}
impl Serialize for Tok {
    fn begin(&self) -> miniserde::ser::Fragment<'_> {
        miniserde::ser::Fragment::U64(*self.0 as u64)
    }
}
impl Model for Tok {
    fn accepts(j: &J) -> Tri {
        match j {
            J::Num(n) if n.int => {
                if n.neg {
                    Tri::No
                } else {
                    Tri::of(n.exp == 0 && n.sig <= 200)
                }
            }
            _ => Tri::No,
        }
    }
    fn same(&self, j: &J) {
        if let J::Num(n) = j {
            sym::check(*self.0 as u128 == n.sig, "integer value");
        }
    }
    fn text(&self, out: &mut Vec<u8>) {
        self.0.text(out)
    }
    fn equal(&self, o: &Self) -> bool {
        *self.0 == *o.0
    }
    fn any(_: u64) -> Self {
        let b = sym::u8("tok");
        sym::assume(b < 10);
        Tok(Box::new(b))
    }
}

/// A visitor that does not always deliver: only odd numbers (integers), true, and strings, arrays and objects of odd
/// length leave a value behind.
pub struct Shy(pub u8);
struct ShyList<'a> {
    out: &'a mut Option<Shy>,
    n: usize,
}
fn shy(n: u64) -> Option<Shy> {
    if n % 2 == 1 {
        Some(Shy(n as u8))
    } else {
        None
    }
}
impl Deserialize for Shy {
    fn begin(out: &mut Option<Self>) -> &mut dyn miniserde::de::Visitor {
        use miniserde::de::{Map, Seq, Visitor};
        use miniserde::Result;
        miniserde::make_place!(Place);
        impl Visitor for Place<Shy> {
            fn null(&mut self) -> Result<()> {
                Ok(())
            }
            fn boolean(&mut self, b: bool) -> Result<()> {
                self.out = shy(b as u64);
                Ok(())
            }
            fn string(&mut self, s: &str) -> Result<()> {
                self.out = shy(s.len() as u64);
                Ok(())
            }
            fn negative(&mut self, n: i64) -> Result<()> {
                self.out = shy(n as u64);
                Ok(())
            }
            fn nonnegative(&mut self, n: u64) -> Result<()> {
                self.out = shy(n);
                Ok(())
            }
            fn float(&mut self, _: f64) -> Result<()> {
                Ok(())
            }
            fn seq(&mut self) -> Result<Box<dyn Seq + '_>> {
                Ok(Box::new(ShyList { out: &mut self.out, n: 0 }))
            }
            fn map(&mut self) -> Result<Box<dyn Map + '_>> {
                Ok(Box::new(ShyList { out: &mut self.out, n: 0 }))
            }
        }
        impl<'a> Seq for ShyList<'a> {
            fn element(&mut self) -> Result<&mut dyn Visitor> {
                self.n += 1;
                Ok(<dyn Visitor>::ignore())
            }
            fn finish(&mut self) -> Result<()> {
                *self.out = shy(self.n as u64);
                Ok(())
            }
        }
        impl<'a> Map for ShyList<'a> {
            fn key(&mut self, _: &str) -> Result<&mut dyn Visitor> {
                self.n += 1;
                Ok(<dyn Visitor>::ignore())
            }
            fn finish(&mut self) -> Result<()> {
                *self.out = shy(self.n as u64);
                Ok(())
            }
        }
        Place::new(out)
    }
}
impl Serialize for Shy {
    fn begin(&self) -> miniserde::ser::Fragment<'_> {
        miniserde::ser::Fragment::U64(self.0 as u64)
    }
}
impl Shy {
    fn of(j: &J) -> Option<u8> {
        let n = match j {
            J::Bool(b) => *b as u64,
            J::Str(s) => s.len() as u64,
            J::Num(n) if n.fits() => {
                if n.neg {
                    (n.sig as u64).wrapping_neg()
                } else {
                    n.sig as u64
                }
            }
            J::Arr(a) => a.len() as u64,
            // every member, repeated or not
            J::Obj(m) => m.len() as u64,
            _ => 0,
        };
        if n % 2 == 1 {
            Some(n as u8)
        } else {
            None
        }
    }
}
impl Model for Shy {
    fn accepts(j: &J) -> Tri {
        Tri::of(Shy::of(j).is_some())
    }
    fn same(&self, j: &J) {
        sym::check(Shy::of(j) == Some(self.0), "value delivered")
    }
    fn text(&self, out: &mut Vec<u8>) {
        self.0.text(out)
    }
    fn equal(&self, o: &Self) -> bool {
        self.0 == o.0
    }
    fn any(_: u64) -> Self {
        let b = sym::u8("shy");
        sym::assume((b < 10) & (b % 2 == 1));
        Shy(b)
    }
}
#[derive(Deserialize, Serialize)]
pub struct Shys {
    a: Box<Shy>,
    b: Option<bool>,
}
model_struct!(Shys { a: "a": Box<Shy>, b: "b": Option<bool> });

pub trait Job {
    fn run<T: Model + Deserialize + Serialize>(&self);
}
#[cfg(not(feature = "std"))]
pub type HmIf<K, V> = BTreeMap<K, V>;
#[cfg(feature = "std")]
pub type HmIf<K, V> = Hm<K, V>;
#[cfg(not(feature = "std"))]
#[allow(dead_code)]
type Unused = Hm<u8, u8>;

/// Calls the job with the type of that number.
pub fn with<J: Job>(t: u64, j: &J) {
    match t {
        0 => j.run::<()>(),
        1 => j.run::<bool>(),
        2 => j.run::<String>(),
        3 => j.run::<u8>(),
        4 => j.run::<i16>(),
        5 => j.run::<f64>(),
        6 => j.run::<f32>(),
        7 => j.run::<Vec<bool>>(),
        8 => j.run::<[bool; 2]>(),
        9 => j.run::<(u8, bool)>(),
        10 => j.run::<BTreeMap<String, u8>>(),
        11 => j.run::<HmIf<String, bool>>(),
        12 => j.run::<S1>(),
        13 => j.run::<E>(),
        14 => j.run::<Option<u8>>(),
        15 => j.run::<Box<u8>>(),
        16 => j.run::<Option<String>>(),
        17 => j.run::<Box<Vec<u8>>>(),
        18 => j.run::<Option<[Box<u8>; 2]>>(),
        19 => j.run::<Vec<Option<bool>>>(),
        20 => j.run::<[[u8; 2]; 2]>(),
        21 => j.run::<((u8, bool), Option<()>)>(),
        22 => j.run::<BTreeMap<u8, bool>>(),
        23 => j.run::<HmIf<i8, Vec<()>>>(),
        24 => j.run::<Nested>(),
        25 => j.run::<G<bool>>(),
        26 => j.run::<Box<S1>>(),
        27 => j.run::<Option<Box<Inner>>>(),
        28 => j.run::<Vec<E>>(),
        29 => j.run::<BTreeMap<bool, ()>>(),
        30 => j.run::<BTreeMap<char, u8>>(),
        31 => j.run::<[u8; 0]>(),
        32 => j.run::<[Tok; 3]>(),
        33 => j.run::<(Tok, Tok)>(),
        34 => j.run::<Vec<Vec<Vec<u8>>>>(),
        35 => j.run::<BTreeMap<String, BTreeMap<String, ()>>>(),
        36 => j.run::<Option<E>>(),
        37 => j.run::<Empty>(),
        38 => j.run::<Odd>(),
        39 => j.run::<Value>(),
        40 => j.run::<(Value, Array)>(),
        41 => j.run::<Vec<Number>>(),
        42 => j.run::<Own>(),
        43 => j.run::<Vec<Tok>>(),
        44 => j.run::<BTreeMap<String, Tok>>(),
        45 => j.run::<HmIf<u8, Tok>>(),
        46 => j.run::<G<Tok>>(),
        47 => j.run::<Box<Tok>>(),
        48 => j.run::<Option<Box<(Tok, Tok)>>>(),
        49 => j.run::<[Box<[Tok; 2]>; 2]>(),
        50 => j.run::<G<Box<[Tok; 2]>>>(),
        51 => j.run::<One>(),
        52 => j.run::<Object>(),
        53 => j.run::<BTreeMap<String, Value>>(),
        54 => j.run::<Vec<Box<Option<String>>>>(),
        55 => j.run::<G<G<bool>>>(),
        56 => j.run::<u64>(),
        57 => j.run::<i64>(),
        58 => j.run::<Box<BTreeMap<u8, Box<E>>>>(),
        59 => j.run::<Option<HmIf<String, Own>>>(),
        60 => j.run::<Vec<(u8, [bool; 1])>>(),
        61 => j.run::<Box<Box<Vec<Box<Vec<u8>>>>>>(),
        62 => j.run::<i8>(),
        63 => j.run::<u16>(),
        64 => j.run::<i32>(),
        65 => j.run::<u32>(),
        66 => j.run::<isize>(),
        67 => j.run::<usize>(),
        68 => j.run::<Option<f64>>(),
        69 => j.run::<Box<f64>>(),
        70 => j.run::<Box<Option<Vec<Tok>>>>(),
        71 => j.run::<Raws>(),
        72 => j.run::<Names>(),
        73 => j.run::<Many>(),
        74 => j.run::<Gen<u8, bool, 2>>(),
        75 => j.run::<Gen<Tok, G<Tok>, 1>>(),
        76 => j.run::<Nums>(),
        77 => j.run::<Vec<Option<Box<Raws>>>>(),
        78 => j.run::<Vec<[(Box<bool>, Option<Nums>); 1]>>(),
        79 => j.run::<BTreeMap<u64, (i64, bool)>>(),
        80 => j.run::<[Option<()>; 3]>(),
        81 => j.run::<[bool; 33]>(),
        82 => j.run::<Shy>(),
        83 => j.run::<Box<Shy>>(),
        84 => j.run::<Shys>(),
        85 => j.run::<(Box<Shy>, Box<Box<Shy>>)>(),
        _ => j.run::<[Box<Shy>; 2]>(),
    }
}
pub const NTYPES: u64 = 87;

/// One document of each kind, with a hole; the last ones broken in some way.
pub const K: &[&[u8]] = &[
    b"null",
    b"true",
    b"false",
    b"#",
    b"-#",
    b"#.#",
    b"-#.5",
    b"#e1",
    b"\"?\"",
    b"\"\"",
    b"[]",
    b"{}",
    b"[?]",
    b"[1,?]",
    b"[true,?]",
    b"[?,?]",
    b"[1,2,?]",
    b"[1,2,3,?]",
    b"{\"?\":1}",
    b"{\"a\":?}",
    b"[[?],[]]",
    b"[[],{}]",
    b"{\"a\":{\"?\":null}}",
    b"{\"a\":[?]}",
    b"#####",
    b"-#####",
    b"\"???\"",
    b"{\"?\":#,\"?\":#}",
    b"[null,?]",
    b"[\"?\",\"?\"]",
    b"[[1,2],[3,?]]",
    b"[[1,2],[3,4]?",
    b"{\"1\":true,\"?\":false}",
    b"{\"?\":{\"?\":null},\"a\":{}}",
    b"[[[?]],[],[[1],[]]]",
    b"[{},?]",
];

/// Documents for the struct types: type number, template.
pub const D: &[(u64, &[u8])] = &[
    (12, b"{\"a\":1,\"b b\":true,\"type\":\"?\"}"),
    (12, b"{\"a\":?,\"type\":\"x\"}"),
    (12, b"{\"type\":\"x\",\"?\":7}"),
    (12, b"{\"type\":\"x\",\"?\":7,\"a\":8}"),
    (12, b"{\"a\":8,\"type\":\"x\",\"?\":7}"),
    (12, b"{\"a\":1,\"a\":?,\"type\":\"\"}"),
    (12, b"{\"a\":?,\"a\":2,\"type\":\"\"}"),
    (12, b"{\"type\":\"a\",\"a\":#,\"type\":\"?\",\"a\":##}"),
    (12, b"{\"b?b\":false,\"type\":\"x\",\"a\":1}"),
    (12, b"{\"b b\":nul?,\"type\":\"x\",\"a\":1}"),
    (12, b"{\"b b\":true,\"b b\":null,\"typ?\":\"x\",\"a\":1}"),
    (12, b"{\"t?pe\":\"x\",\"a\":1}"),
    (12, b"{\"ty??\":\"x\",\"a\":1}"),
    (12, b"{\"typ\\u00@@\":\"x\",\"a\":1}"),
    (12, b"{\"a\":1,\"b b\":1,\"type\":\"?\"}"),
    (12, b"{\"a\":256,\"type\":\"?\"}"),
    (12, b"{\"a\":###,\"type\":\"\"}"),
    (12, b"{\"a\":1,\"type\":\"\",\"z\":[?]}"),
    (12, b"{\"z\":{\"a\":?},\"a\":1,\"type\":\"\"}"),
    (12, b"{\"a\":1,\"z\":{\"type\":\"?\"}}"),
    (12, b"[{\"a\":1,\"type\":\"\"}?"),
    (26, b"{\"a\":1,\"?\":true,\"type\":\"\"}"),
    (24, b"{\"id\":1,\"inner\":{\"x\":-#,\"t\":[true,?]},\"list\":[]}"),
    (24, b"{\"id\":1,\"inner\":null,\"list\":[{\"x\":1,\"t\":[false,null]},{\"t\":[true,##],\"x\":?}]}"),
    (24, b"{\"id\":1,\"list\":[{\"x\":1,\"t\":[false,1]?]}"),
    (24, b"{\"list\":[],\"list\":[{\"x\":1,\"t\":[false,?]}],\"id\":65###}"),
    (24, b"{\"list\":[{\"x\":1,\"t\":[false,2]}],\"id\":1,\"list\":[?]}"),
    (24, b"{\"inner\":{\"x\":1,\"t\":[true,1]},\"inner\":?,\"id\":1,\"list\":[]}"),
    (24, b"{\"inner\":{\"x\":1},\"id\":1,\"?\":[]}"),
    (24, b"{\"inner\":{\"t\":[true,1],\"?\":1},\"id\":1,\"list\":[]}"),
    (25, b"{\"v\":true,\"o\":?}"),
    (25, b"{\"?\":true,\"v\":false}"),
    (25, b"{\"o\":true,\"?\":false}"),
    (37, b"{\"?\":?}"),
    (37, b"{\"?\":null,\"x\":[{}?}"),
    (38, b"{\"?\":1,\"?\":2}"),
    (38, b"{\"??\":1}"),
    (38, b"{\"\":1,\"a\":2,\"A\":3,\"a?\":4}"),
    (38, b"{\"\\\"\\\\\\n\\u00@@\":5}"),
    (38, b"{\"\\u00e@\\ud83d\\ude00\":6,\"fn\":#}"),
    (38, b"{\"\x02\x04\":6,\"r#?\":#}"),
    (38, b"{\"f?\":1,\"r#f?\":2}"),
    (42, b"{\"p\":#,\"s\":\"?\",\"v\":[true,false]}"),
    (42, b"{\"p\":1,\"v\":[true,?],\"s\":\"abc\"}"),
    (42, b"{\"p\":1,\"v\":[true,false],\"v\":[?],\"s\":\"abc\",\"s\":\"\"}"),
    (42, b"{\"p\":1,\"p\":2,\"s\":\"abc\",\"v\":[tru?]}"),
    (42, b"{\"p\":1,\"s\":\"abc\",\"?\":[true]}"),
    (46, b"{\"v\":1,\"v\":?,\"o\":2,\"o\":null}"),
    (46, b"{\"v\":1,\"o\":2,\"o\":?}"),
    (46, b"{\"o\":1,\"o\":2??"),
    (50, b"{\"v\":[1,2],\"v\":[3,?],\"o\":[4,5]}"),
    (50, b"{\"v\":[1,2],\"o\":[4,5],\"o\":[6?7]}"),
    (50, b"{\"v\":[1,2],\"o\":[4,5,?]}"),
    (55, b"{\"v\":{\"v\":true,\"o\":false},\"o\":{\"v\":?}}"),
    (55, b"{\"v\":{\"v\":true,\"?\":false},\"v\":{\"o\":null,\"v\":true}}"),
    (13, b"\"?\""),
    (13, b"\"??\""),
    (13, b"\"Loo?\""),
    (13, b"\"?oop\""),
    (13, b"\"abc??\""),
    (13, b"\"abc d?\""),
    (13, b"\"Re?amed\""),
    (13, b"\"\\\"\x02\""),
    (13, b"\"\\u00@@\""),
    (13, b"\"r#Loo?\""),
    (13, b"?"),
    (13, b"[\"A\"]"),
    (13, b"{\"A\":null}"),
    (36, b"\"?\""),
    (36, b"nul?"),
    (28, b"[\"A\",\"?\",\"Ab\"]"),
    (28, b"[\"A\",\"Ab\"?"),
    (51, b"\"Onl?\""),
    (51, b"\"???y\""),
    (10, b"{\"a\":1,\"?\":2,\"a\":3}"),
    (10, b"{\"?\":1,\"?\":2,\"?\":3}"),
    (10, b"{\"a\":1,\"b\":?}"),
    (10, b"{\"a\":1,\"b\":256}"),
    (10, b"{\"a\\u00@@\":1,\"aa\":2}"),
    (11, b"{\"a\":true,\"?\":false,\"a\":false}"),
    (11, b"{\"?\":true,\"?\":false,\"?\":true}"),
    (11, b"{\"a\":true,\"b\":?}"),
    (22, b"{\"##\":true,\"##\":false}"),
    (22, b"{\"??\":true}"),
    (22, b"{\"1\":true,\"01\":false,\"?1\":true}"),
    (22, b"{\"2##\":true}"),
    (22, b"{\"1\":true,\"?\":false,\"3\":1}"),
    (23, b"{\"-#\":[null],\"#\":[]}"),
    (23, b"{\"-1##\":[],\"1\":[null?]}"),
    (23, b"{\"#\":[null],\"0\":[],\"#\":[null,null]}"),
    (29, b"{\"true\":null,\"fals?\":null}"),
    (29, b"{\"true\":null,\"tru?\":null,\"false\":null}"),
    (30, b"{\"?\":1,\"\x02\":2}"),
    (30, b"{\"\x03\":1,\"\x03\":2}"),
    (30, b"{\"\":1}"),
    (30, b"{\"a?\":1}"),
    (35, b"{\"a\":{\"?\":null},\"?\":{}}"),
    (35, b"{\"a\":{\"b\":null},\"a\":{\"?\":null}}"),
    (44, b"{\"a\":1,\"?\":2,\"a\":?}"),
    (44, b"{\"a\":1,\"b\":2,\"c\":2##}"),
    (45, b"{\"1\":1,\"?\":2,\"01\":3}"),
    (45, b"{\"1\":1,\"2\":2,\"?\":2##}"),
    (53, b"{\"a\":[1,{\"b\":?}],\"?\":null}"),
    (59, b"{\"k\":{\"p\":1,\"s\":\"x\",\"v\":[true]},\"?\":{\"p\":1,\"s\":\"x\",\"v\":[?]}}"),
    (58, b"{\"1\":\"A\",\"?\":\"Ab\"}"),
    (58, b"{\"1\":\"A\",\"2\":\"?\"}"),
    (8, b"[true,false?"),
    (8, b"[?rue,false]"),
    (8, b"[true,false,true]"),
    (8, b"[true]"),
    (8, b"[true?false]"),
    (20, b"[[1,2],[3,4]]"),
    (20, b"[[1,2],[3,4],[5,6]]"),
    (20, b"[[1,2],[3?4]]"),
    (20, b"[[1,2,3],[3,4]]"),
    (20, b"[[1,2]?[3,4]]"),
    (32, b"[#,##,2##]"),
    (32, b"[1,2,3?"),
    (32, b"[1,2?3]"),
    (32, b"[1,2,3,4]"),
    (32, b"[1,2]"),
    (32, b"[]"),
    (32, b"[1,2,?]"),
    (33, b"[#,2##]"),
    (33, b"[1,2?3]"),
    (33, b"[1?2]"),
    (33, b"[1,?]"),
    (33, b"[]"),
    (33, b"[1,2,3]"),
    (21, b"[[1,true],null]"),
    (21, b"[[1,true],?]"),
    (21, b"[[1,true?,null]"),
    (21, b"[[1],null]"),
    (31, b"[?]"),
    (31, b"[]?"),
    (43, b"[1,2,3,?]"),
    (43, b"[1,2,3,4,5,6,7,8,2##]"),
    (43, b"[1,2,3,4,5?6]"),
    (48, b"[1,2?"),
    (48, b"[1,2##]"),
    (48, b"nul?"),
    (49, b"[[1,2],[3,2##]]"),
    (49, b"[[1,2],[3?4]]"),
    (49, b"[[1,2]]"),
    (49, b"[[1,2],[3,4],[5]]"),
    (18, b"[1,?]"),
    (18, b"nul?"),
    (18, b"[1,2?"),
    (19, b"[null,?]"),
    (19, b"[true,null,false?"),
    (54, b"[\"a\",null,\"?\"]"),
    (60, b"[[1,[true]],[2,[?]]]"),
    (60, b"[[1,[true]],[2,[true]]?"),
    (61, b"[[1,2],[?]]"),
    (70, b"[1,2##]"),
    (70, b"null"),
    (70, b"[1,2?3]"),
    (17, b"[1,##]"),
    (27, b"{\"x\":1,\"t\":[true,?]}"),
    (27, b"{\"x\":1,\"t\":[true]}"),
    (34, b"[[[1,2],[3]],[[?]]]"),
    (40, b"[{\"a\":[?]},[1,?]]"),
    (41, b"[1,-2,?]"),
    (73, b"{\"f0\":null,\"f1\":null,\"f2\":null,\"f3\":null,\"f4\":null,\"f5\":null,\"f6\":null,\"f7\":#,\"f8\":null,\"f9\":null,\"f10\":null,\"f11\":null,\"f12\":null,\"f13\":null,\"f14\":null,\"f15\":null,\"f16\":null,\"f17\":true,\"f18\":null,\"f19\":?}"),
    (73, b"{\"f0\":null,\"f1\":null,\"f2\":null,\"f3\":null,\"f4\":null,\"f5\":null,\"f6\":null,\"f7\":1,\"f8\":null,\"f9\":null,\"f10\":null,\"f11\":null,\"f12\":null,\"f13\":null,\"f14\":null,\"f15\":null,\"f1?\":null,\"f17\":false,\"f18\":null}"),
    (73, b"{\"f19\":null,\"f18\":null,\"f17\":true,\"f16\":null,\"f15\":null,\"f14\":null,\"f13\":null,\"f12\":null,\"f11\":null,\"f10\":null,\"f9\":null,\"f8\":null,\"f7\":2,\"f6\":null,\"f5\":null,\"f4\":null,\"f3\":null,\"f2\":null,\"f1\":null,\"f0\":null}"),
    (73, b"{\"f0\":null,\"f1\":null,\"f2\":null,\"f3\":null,\"f4\":null,\"f5\":null,\"f6\":null,\"f7\":2,\"f8\":null,\"f9\":null,\"f10\":null,\"f11\":null,\"f12\":null,\"f13\":null,\"f14\":null,\"f15\":null,\"f16\":null,\"f17\":true,\"f18\":null,\"f?\":null}"),
    (73, b"{\"f0\":null,\"f1\":null,\"f2\":null,\"f3\":null,\"f4\":null,\"f5\":null,\"f6\":null,\"f8\":null,\"f9\":null,\"f10\":null,\"f11\":null,\"f13\":null,\"f14\":null,\"f15\":null,\"f16\":null,\"f17\":true,\"f18\":null,\"f7\":1,\"f??\":null}"),
    (71, b"{\"r\":1,\"r_x\":2,\"rr\":3,\"_u\":4,\"match\":5}"),
    (71, b"{\"r#match\":1,\"?\":2}"),
    (71, b"{\"r_?\":1,\"_?\":2,\"?_x\":3}"),
    (71, b"{\"x\":1,\"_x\":2,\"?x\":3}"),
    (71, b"{\"matc?\":1,\"r#?\":2,\"u\":3}"),
    (71, b"{\"r?\":1,\"r\":#,\"??\":2}"),
    (71, b"{\"Match\":1,\"R\":2,\"?\":3,\"\":4}"),
    (71, b"{\"r#r\":1,\"r#rr\":2,\"r#r?x\":3}"),
    (71, b"{\"match?\":1,\"#\":2}"),
    (72, b"{\"b\":true,\"null\":false,\"a_field_name_that_is_longer_than_most_are_in_practice\":true}"),
    (72, b"{\"b\":true,\"a\":#,\"null\":false,\"a_field_name_that_is_longer_than_most_are_in_practice\":true,\"?\":true}"),
    (72, b"{\"b\":true,\"?\":7,\"null\":false,\"a_field_name_that_is_longer_than_most_are_in_practice\":true}"),
    (72, b"{\"?\":true,\"a\":7,\"null\":false,\"a_field_name_that_is_longer_than_most_are_in_practice\":true}"),
    (72, b"{\"b\":true,\"null\":false,\"a_field_name_that_is_longer_than_most_are_in_practice\":true,\"a_field_name_that_is_longer_than_most_are_in_practic?\":false}"),
    (72, b"{\"b\":true,\"null\":false,\"a_field_name_that_is_longer_than_most_are_in_practic?\":true}"),
    (72, b"{\"b\":true,\"null\":false,\"a_field_name_that_is_longer_than_most_are_in_practice\":true,\"cam?lCase\":true,\"camelcas?\":1}"),
    (72, b"{\"b\":true,\"null\":false,\"a_field_name_that_is_longer_than_most_are_in_practice\":true,\"\x02u\":true,\"?a\":true}"),
    (72, b"{\"b\":true,\"nul?\":false,\"a_field_name_that_is_longer_than_most_are_in_practice\":true}"),
    (72, b"{\"b\":true,\"n\":true,\"sp\":1,\"null\":false,\"a_field_name_that_is_longer_than_most_are_in_practice\":true,\"other\":true,\"camel_case\":?}"),
    (74, b"{\"t\":[1,2],\"u\":true,\"both\":[[#,true],[2,?]]}"),
    (74, b"{\"t\":[1,?2],\"both\":[]}"),
    (74, b"{\"u\":nul?,\"t\":[#,2],\"both\":[[1,false]],\"both\":[]}"),
    (74, b"{\"t\":[1,2,3],\"?\":[]}"),
    (75, b"{\"t\":[1],\"u\":{\"v\":2,\"?\":3},\"both\":[[4,{\"v\":#}]]}"),
    (75, b"{\"t\":[1],\"t\":[2?],\"both\":[[4,{\"v\":1,\"o\":5}]]}"),
    (75, b"{\"both\":[[4,{\"v\":1,\"o\":5}],[6,{\"o\":7?}]],\"t\":[1]}"),
    (75, b"{\"both\":[[4,{\"v\":1,\"o\":5}]],\"both\":[],\"t\":[1?"),
    (76, b"\"?\""),
    (76, b"\"??\""),
    (76, b"\"r_?\""),
    (76, b"\"X?\""),
    (76, b"\"r#?\""),
    (76, b"\"AVariantWithALongNameThatEndsInOn?\""),
    (76, b"\"AVariantWithALongNameThatEndsIn???\""),
    (76, b"\"nul?\""),
    (76, b"nul?"),
    (76, b"##"),
    (76, b"\"\\u00d1u\""),
    (76, b"\"\x02u\""),
    (77, b"[{\"r\":1},null,{\"?\":2},{}]"),
    (77, b"[nul?,{\"r\":1,\"match\":2}]"),
    (78, b"[[[true,\"X\"]],[[false,null]],[[true,\"?\"]]]"),
    (78, b"[[[true,nul?]]]"),
    (78, b"[[[true,\"Y\"]],[[true?]]]"),
    (79, b"{\"18446744073709551615\":[-9223372036854775808,true],\"1844674407370955161?\":[1,false]}"),
    (79, b"{\"?\":[1,true],\"+1\":[2,false],\"1\":[#,true]}"),
    (79, b"{\"-?\":[1,true]}"),
    (80, b"[null,?ull,null]"),
    (80, b"[null,null]"),
    (80, b"[null,null,null,null]"),
    (81, b"[true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true?"),
    (81, b"[true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false]"),
    (81, b"[true,?alse,true,?alse,true,?alse,true,?alse,true,?alse,true,?alse,true,?alse,true,?alse,true,?alse,true,?alse,true,?alse,true,?alse,true,?alse,true,?alse,true,?alse,true,?alse,true,false]"),
    (81, b"[true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,true,false,?]"),
    (83, b"[1,[2,{\"?\":3}],#]"),
    (83, b"{\"a\":1,\"?\":#}"),
    (84, b"{\"a\":#,\"b\":true}"),
    (84, b"{\"a\":[[],[?]],\"a\":[?]}"),
    (84, b"{\"a\":1,\"?\":2}"),
    (85, b"[[1],{\"a\":{\"b\":?}}]"),
    (85, b"[#,#]"),
    (85, b"[\"?\",nul?]"),
    (86, b"[[{},{},?],#]"),
    (86, b"[{\"a\":[]},{}]"),
];

pub struct Parse {
    pub s: String,
}
impl Job for Parse {
    fn run<T: Model + Deserialize + Serialize>(&self) {
        let o = json::parse(self.s.as_bytes());
        let l0 = sym::live();
        let r = mj::from_str::<T>(&self.s);
        sym::log(r.is_ok() as u64);
        match (&r, &o) {
            (Ok(v), Some(j)) => {
                sym::cover(1);
                sym::check(T::accepts(j) != Tri::No, "accepted a document that does not give this type");
                v.same(j);
            }
            (Err(_), Some(j)) => {
                if T::accepts(j) == Tri::Yes {
                    json::refused(j, "refused a document that gives this type");
                } else {
                    sym::cover(2);
                }
            }
            (Ok(_), None) => sym::fail("accepted a text that is not JSON"),
            (Err(_), None) => sym::cover(3),
        }
        drop(r);
        sym::check(sym::live() == l0, "memory left behind");
    }
}

harness! {
    /// params: type, generator, size or template of K
    fn ty_doc() {
        let (t, g, n) = (sym::param(0), sym::param(1), sym::param(2));
        json::set_exact(false);
        let s = gen::doc(g, n, K);
        with(t, &Parse { s });
    }
    /// params: first row of D, number of rows
    fn ty_row() {
        let n = (sym::param(1) as usize).min(D.len() - sym::param(0) as usize);
        let r = &D[sym::param(0) as usize + sym::pick("row", n as u8)];
        json::set_exact(false);
        let s = gen::fill(r.1);
        with(r.0, &Parse { s });
    }
}
