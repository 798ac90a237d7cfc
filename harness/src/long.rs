//! Inputs longer than what a counter or a block of some fixed size holds, and calls after, or within, other calls.
use crate::json::{self, bytes_eq, J};
use crate::model::{quote, Model};
use crate::types::{HmIf, Job, Parse, Tok, G};
use crate::{gen, sym};
use miniserde::de::Visitor;
use miniserde::json as mj;
use miniserde::json::{Array, Object, Value};
use miniserde::ser::Fragment;
use miniserde::{make_place, Deserialize, Error, Result, Serialize};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::str::FromStr;

/// What becomes of the element in question.
const HOLES: &[&[u8]] = &[b"#", b"?", b"1?", b"1,#", b"", b"1]", b"nul?", b"\"?\"", b"[#", b"2 %,%#"];
/// What becomes of the member in question.
const MHOLES: &[&[u8]] = &[b"\"7\":#", b"\"5\":?", b"\"1\":1,\"1\":#", b"", b"\"6\":1}", b"\"300\":3", b"\"+4\":#", b"\"\\u0035\":#", b"\"5\"?6", b"\"?\":2", b"\"#?\":3"];

fn list(n: usize, at: usize, hole: &str, el: &dyn Fn(usize, &mut String)) -> String {
    let mut s = String::from("[");
    for i in 0..n {
        if i > 0 {
            s.push(',');
        }
        if i == at {
            s.push_str(hole);
        } else {
            el(i, &mut s);
        }
    }
    s.push(']');
    s
}
fn num(i: usize, s: &mut String) {
    let mut v = Vec::new();
    crate::model::digits(false, (i % 200) as u64, &mut v);
    s.push_str(unsafe { std::str::from_utf8_unchecked(&v) });
}

struct Long {
    n: u64,
    kind: u64,
}
impl Long {
    fn at(&self) -> usize {
        let n = self.n as usize;
        let k = sym::pick("position", 6);
        [0, 1, n / 2, n - 2, n - 1, usize::MAX][k]
    }
    fn go<T: Model + Deserialize + Serialize>(&self, s: String) {
        Parse { s }.run::<T>()
    }
    fn run(&self) {
        let n = self.n as usize;
        let at = self.at();
        let maps = matches!(self.kind, 8..=13 | 15);
        let holes = if maps { MHOLES } else { HOLES };
        // only strings are compared cheaply when they are symbolic
        let some = if maps && self.kind != 12 { 9 } else { holes.len() };
        let hole = if at < n { gen::fill(holes[sym::pick("hole", some as u8)]) } else { String::new() };
        let map = |key: &dyn Fn(usize) -> usize| {
            let s = list(n, at, &hole, &|i, s| {
                s.push('"');
                num(key(i), s);
                s.push_str("\":");
                num(i, s);
            });
            let mut t = String::from("{");
            t.push_str(&s[1..s.len() - 1]);
            t.push('}');
            t
        };
        match self.kind {
            0 => self.go::<[u8; 300]>(list(n, at, &hole, &num)),
            1 => self.go::<Vec<u8>>(list(n, at, &hole, &num)),
            2 => self.go::<[Tok; 70]>(list(n, at, &hole, &num)),
            3 => self.go::<Vec<Tok>>(list(n, at, &hole, &num)),
            4 => self.go::<Vec<(u8, Box<bool>)>>(list(n, at, &hole, &|i, s| {
                s.push('[');
                num(i, s);
                s.push_str(",true]")
            })),
            5 => self.go::<Array>(list(n, at, &hole, &|i, s| match i % 4 {
                0 => s.push_str("[]"),
                1 => s.push_str("\"s\""),
                2 => s.push_str("{\"a\":null}"),
                _ => num(i, s),
            })),
            6 => self.go::<Vec<Vec<u8>>>(list(n, at, &hole, &|i, s| s.push_str(if i % 3 == 0 { "[]" } else { "[1,2]" }))),
            7 => self.go::<Box<Option<Vec<Option<u8>>>>>(list(n, at, &hole, &|i, s| if i % 2 == 0 { num(i, s) } else { s.push_str("null") })),
            // in order, backwards, all over the place, again and again
            8 => self.go::<BTreeMap<u8, u8>>(map(&|i| i)),
            9 => self.go::<BTreeMap<u8, u8>>(map(&|i| n - i)),
            10 => self.go::<BTreeMap<u8, u8>>(map(&|i| i * 7 % 64)),
            11 => self.go::<Object>(map(&|i| i * 5 % 97)),
            12 => self.go::<BTreeMap<String, u8>>(map(&|i| i % 5)),
            13 => self.go::<HmIf<u8, u8>>(map(&|i| i * 7 % 64)),
            14 => self.go::<Value>(list(n, at, &hole, &|i, s| match i % 4 {
                0 => s.push_str("[]"),
                1 => s.push_str("\"s\""),
                2 => s.push_str("{\"a\":null}"),
                _ => num(i, s),
            })),
            _ => self.go::<Value>(map(&|i| i * 5 % 97)),
        }
    }
}

/// Texts for the first of two calls: whole or broken.
pub const FIRST: &[&[u8]] = &[
    b"\"ab\\nc?",
    b"\"ab\\n\\?\"",
    b"\"\\u00@@",
    b"\"\\ud83d\\u?\"",
    b"[\"a\\n?\",[1,{\"k\\t",
    b"{\"a\\n\":[1,{\"b\":?",
    b"[[[[?",
    b"[[1,2],{\"a\":[\"x\"]}]?",
    b"[1e400,?]",
    b"-?",
    b"12345678901234567890123?",
    b"1.5e?",
    b"tru?",
    b"[1,\"\\n\",?]",
    b"{\"a\":1,\"a\\n\":\"\\t\",?}",
    b"\"\\n\x03?\"",
    b"",
    b"[?",
];
/// And for the second.
pub const SECOND: &[&[u8]] = &[b"[\"?\",\"b\"]", b"\"\\n?\"", b"{\"a\\n\":[?],\"?\":2}", b"[1,-2.5,?]", b"?", b"[[],{}?]"];

pub fn value(s: &str, v: &Result<Value>) {
    match (v, &json::parse(s.as_bytes())) {
        (Ok(v), Some(j)) => {
            sym::cover(1);
            json::same(v, j)
        }
        (Ok(_), None) => sym::fail("accepted a text that is not JSON"),
        (Err(_), Some(j)) => json::refused(j, "refused a JSON text"),
        (Err(_), None) => sym::cover(2),
    }
}
pub fn string(s: &str, v: &Result<String>) {
    match (v, &json::parse(s.as_bytes())) {
        (Ok(t), Some(J::Str(b))) => sym::check(bytes_eq(t.as_bytes(), b), "decoded text"),
        (Ok(_), _) => sym::fail("accepted what is no string literal"),
        (Err(_), Some(J::Str(_))) => sym::fail("refused a string literal"),
        (Err(_), _) => sym::cover(2),
    }
}

/// JSON in a string: its visitor and its begin call the crate again.
pub struct Emb(pub Value);
impl Deserialize for Emb {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        make_place!(Place);
        impl Visitor for Place<Emb> {
            fn string(&mut self, s: &str) -> Result<()> {
                self.out = Some(Emb(mj::from_str(s)?));
                Ok(())
            }
        }
        Place::new(out)
    }
}
impl Serialize for Emb {
    fn begin(&self) -> Fragment<'_> {
        Fragment::Str(Cow::Owned(mj::to_string(&self.0)))
    }
}
impl Model for Emb {
    fn accepts(j: &J) -> crate::model::Tri {
        crate::model::Tri::of(match j {
            J::Str(s) => match json::parse(s) {
                Some(_) => true,
                None => false,
            },
            _ => false,
        })
    }
    fn same(&self, j: &J) {
        if let J::Str(s) = j {
            if let Some(k) = json::parse(s) {
                json::same(&self.0, &k)
            }
        }
    }
    fn text(&self, out: &mut Vec<u8>) {
        let mut v = Vec::new();
        self.0.text(&mut v);
        quote(&v, out)
    }
    fn equal(&self, o: &Self) -> bool {
        self.0.equal(&o.0)
    }
    fn any(size: u64) -> Self {
        Emb(Value::any(size))
    }
}
/// A name that is read by parsing it.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
pub struct Name(pub u8);
impl FromStr for Name {
    type Err = Error;
    fn from_str(s: &str) -> Result<Self> {
        mj::from_str::<Vec<u8>>(s).map(|v| Name(v.len() as u8))
    }
}
/// Parses while it is dropped, as when an error unwinds what was read before it.
pub struct Late(pub u8);
impl Drop for Late {
    fn drop(&mut self) {
        let r = mj::from_str::<Vec<String>>("[\"\\n\",\"late\"]");
        match r {
            Ok(v) => sym::check(v.len() == 2 && bytes_eq(v[0].as_bytes(), b"\n") && bytes_eq(v[1].as_bytes(), b"late"), "parsed while dropping"),
            Err(_) => sym::fail("refused while dropping"),
        }
        if let Err(_) = mj::from_str::<bool>("\"\\n") {
            sym::cover(3)
        }
    }
}
impl Deserialize for Late {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        make_place!(Place);
        impl Visitor for Place<Late> {
            fn nonnegative(&mut self, n: u64) -> Result<()> {
                self.out = Some(Late(n as u8));
                Ok(())
            }
        }
        Place::new(out)
    }
}

const EMB: &[&[u8]] = &[
    b"\"[1,?]\"",
    b"[\"\\n1\",\"\\\"\\\\n?\\\"\",\"\\t[2]\"]",
    b"[\"a\\n\",\"\\\"x?\",\"b\"]",
    b"[\"{}\",\"\\\"\\\\u00@@\\\"\",\"\\n?\"]",
    b"{\"\\n[]\":1,\"[1\\n,2]\":#,\"[?]\":3}",
    b"{\"[1,2,3]\":#,\"[1,2,3]?\":5}",
    b"[\"[\\\"\\\\n\\\"]\",\"?\"]",
];

/// Texts written that take each other's place.
pub const PLAIN: &[&[u8]] = &[b"?", b"a?", b"??", b"\x02a", b"\x03", b"a\nb?c", b"\\\"\x01"];
struct Named<'a>(&'a str);
impl<'a> Serialize for Named<'a> {
    fn begin(&self) -> Fragment<'_> {
        struct One<'a>(&'a str, u8);
        impl<'a> miniserde::ser::Map for One<'a> {
            fn next(&mut self) -> Option<(Cow<'_, str>, &dyn Serialize)> {
                self.1 += 1;
                if self.1 == 1 {
                    Some((Cow::Borrowed(self.0), &1u8))
                } else {
                    None
                }
            }
        }
        Fragment::Map(Box::new(One(self.0, 0)))
    }
}
/// Both, filled in, the shorter one made as long as the other.
fn same_size(a: &[u8], b: &[u8], pad: &[u8]) -> (String, String) {
    let (mut a, mut b) = (gen::fill(a), gen::fill(b));
    let n = a.len().max(b.len());
    for s in [&mut a, &mut b] {
        while s.len() < n {
            s.push(pad[0] as char);
        }
    }
    (a, b)
}

harness! {
    /// params: elements, kind
    fn long_doc() {
        json::set_exact(false);
        Long { n: sym::param(0), kind: sym::param(1) }.run();
    }
    /// A long string written. params: length before, between, after; 1: as a name
    fn long_str() {
        let (a, b, c) = (sym::param(0), sym::param(1), sym::param(2));
        let mut t: Vec<u8> = Vec::new();
        let kinds = [b'?', 2, 3, b'\n', b'"'];
        for i in 0..a { t.push(b'a' + (i % 23) as u8); }
        t.push(kinds[sym::pick("first", 5)]);
        for i in 0..b { t.push(b'A' + (i % 21) as u8); }
        t.push(kinds[sym::pick("second", 3)]);
        for i in 0..c { t.push(b'a' + (i % 19) as u8); }
        let s = gen::fill(&t);
        let mut want = Vec::new();
        if sym::param(3) == 0 {
            quote(s.as_bytes(), &mut want);
            let text = mj::to_string(&s);
            crate::out::wrote(&text, &want);
            string(&text, &mj::from_str::<String>(&text));
        } else {
            let mut m = BTreeMap::new();
            m.insert(s.clone(), ());
            want.push(b'{');
            quote(s.as_bytes(), &mut want);
            want.extend_from_slice(b":null}");
            let text = mj::to_string(&m);
            crate::out::wrote(&text, &want);
            value(&text, &mj::from_str::<Value>(&text));
        }
        sym::cover(1);
    }
    /// A call after another one. params: template of the first, what the first asks for, what the second does
    fn again() {
        json::set_exact(false);
        {
            let a = gen::fill(FIRST[sym::param(0) as usize]);
            let mut kept = None;
            match sym::param(1) {
                0 => kept = Some(mj::from_str::<Value>(&a)),
                1 => drop(mj::from_str::<String>(&a)),
                2 => drop(mj::from_str::<Vec<BTreeMap<String, Tok>>>(&a)),
                _ => drop(mj::from_str::<bool>(&a)),
            }
            let b = gen::fill(SECOND[sym::pick("second", SECOND.len() as u8)]);
            match sym::param(2) {
                0 => value(&b, &mj::from_str::<Value>(&b)),
                1 => string(&b, &mj::from_str::<String>(&b)),
                _ => {
                    let v = mj::from_str::<Value>(&b);
                    value(&b, &v);
                    if let Ok(v) = v {
                        let t = mj::to_string(&v);
                        let u = mj::to_string(&v);
                        sym::check(bytes_eq(t.as_bytes(), u.as_bytes()), "another text the second time");
                        match json::parse(t.as_bytes()) {
                            Some(j) => json::same(&v, &j),
                            None => sym::fail("the text is not JSON"),
                        }
                    }
                }
            }
            // what the first gave is still what it was
            if let Some(v) = &kept {
                value(&a, v)
            }
            drop(kept);
            // and the first again, to the same effect
            value(&a, &mj::from_str::<Value>(&a));
        }
    }
    /// A call after very many. params: how many, what they are (0 read, 1 refused, 2 written, 3 all), template of the last
    fn again_many() {
        json::set_exact(false);
        for i in 0..sym::param(0) {
            let k = sym::param(1);
            if k == 0 || k == 3 {
                sym::check(mj::from_str::<u8>(if i % 2 == 0 { "7" } else { " 7 " }).is_ok(), "refused");
                sym::check(mj::from_str::<[bool; 1]>("[true]").is_ok(), "refused");
            }
            if k == 1 || k == 3 {
                sym::check(mj::from_str::<[u8; 1]>(if i % 2 == 0 { "[7" } else { "[true]" }).is_err(), "accepted");
                sym::check(mj::from_str::<G<u8>>(if i % 2 == 0 { "{\"o\":\"" } else { "{\"v\":1,\"o\":-" }).is_err(), "accepted");
            }
            if k == 2 || k == 3 {
                sym::check(bytes_eq(mj::to_string("\n").as_bytes(), b"\"\\n\""), "text written");
                sym::check(bytes_eq(mj::to_string(&[None, Some(true)]).as_bytes(), b"[null,true]"), "text written");
            }
        }
        {
            let b = gen::fill(SECOND[sym::param(2) as usize]);
            let v = mj::from_str::<Value>(&b);
            value(&b, &v);
            if let Ok(v) = v {
                match json::parse(mj::to_string(&v).as_bytes()) {
                    Some(j) => json::same(&v, &j),
                    None => sym::fail("the text is not JSON"),
                }
            }
        }
    }
    /// What lies at one place is changed between two calls. params: kind, template of the first
    fn again_place() {
        json::set_exact(false);
        let kind = sym::param(0);
        match kind {
            // texts read
            0 | 1 => {
                let (a, b) = same_size(FIRST[sym::param(1) as usize], SECOND[sym::pick("second", SECOND.len() as u8)], b" ");
                let mut s = String::with_capacity(a.len());
                for t in [&a, &b, &a] {
                    s.clear();
                    s.push_str(t);
                    if kind == 0 {
                        value(&s, &mj::from_str::<Value>(&s))
                    } else {
                        string(&s, &mj::from_str::<String>(&s))
                    }
                }
            }
            // strings, names, and variants written
            2 | 3 | 4 => {
                let (a, b) = same_size(PLAIN[sym::param(1) as usize], PLAIN[sym::pick("second", PLAIN.len() as u8)], b"x");
                let mut s = String::with_capacity(a.len());
                for t in [&a, &b, &a] {
                    s.clear();
                    s.push_str(t);
                    let mut want = Vec::new();
                    match kind {
                        2 => {
                            quote(t.as_bytes(), &mut want);
                            crate::out::wrote(&mj::to_string(&s), &want);
                        }
                        3 => {
                            want.push(b'{');
                            quote(t.as_bytes(), &mut want);
                            want.extend_from_slice(b":1}");
                            crate::out::wrote(&mj::to_string(&Named(&s)), &want);
                        }
                        _ => {
                            want.push(b'[');
                            quote(t.as_bytes(), &mut want);
                            want.push(b',');
                            quote(t.as_bytes(), &mut want);
                            want.push(b']');
                            crate::out::wrote(&mj::to_string(&[&s, &s]), &want);
                        }
                    }
                }
                sym::cover(1);
            }
            // values written, changed in place
            5 => {
                let mut v = Value::any(0);
                let mut first = Vec::new();
                v.text(&mut first);
                crate::out::wrote(&mj::to_string(&v), &first);
                v = Value::any(1);
                let mut second = Vec::new();
                v.text(&mut second);
                crate::out::wrote(&mj::to_string(&v), &second);
                sym::cover(1);
            }
            6 => {
                let mut v = [bool::any(0), bool::any(0), bool::any(0)];
                for i in 0..3 {
                    let mut t = Vec::new();
                    v.text(&mut t);
                    crate::out::wrote(&mj::to_string(&v), &t);
                    v[i] = bool::any(0);
                }
                sym::cover(1);
            }
            // results released and read again
            _ => {
                let mut slot: Option<Value> = None;
                for i in 0..3 {
                    let t = gen::fill(SECOND[(sym::param(1) as usize + i) % SECOND.len()]);
                    slot = mj::from_str(&t).ok();
                    if let Some(v) = &slot {
                        match json::parse(t.as_bytes()) {
                            Some(j) => json::same(v, &j),
                            None => sym::fail("accepted a text that is not JSON"),
                        }
                        sym::cover(1);
                    }
                }
                drop(slot);
            }
        }
    }
    /// Members that are ignored, long or deep. params: kind, size
    fn skip_long() {
        json::set_exact(false);
        let n = sym::param(1) as usize;
        let at = [0, n / 2, n - 1][sym::pick("position", 3)];
        let hole = gen::fill(crate::user::HOLES[sym::pick("hole", crate::user::HOLES.len() as u8)]);
        let mut s = String::from("{\"v\":1,\"zz\":");
        s.push_str(&crate::user::big(sym::param(0), n, at, &hole));
        s.push_str(",\"o\":2}");
        Parse { s }.run::<crate::types::G<u8>>()
    }
    /// Texts written one after the other. params: sizes of the first and the second
    fn again_out() {
        let (v, w) = (Value::any(sym::param(0)), Value::any(sym::param(1)));
        let (mut a, mut b) = (Vec::new(), Vec::new());
        v.text(&mut a);
        w.text(&mut b);
        let t = mj::to_string(&v);
        let u = mj::to_string(&w);
        crate::out::wrote(&t, &a);
        crate::out::wrote(&u, &b);
        crate::out::wrote(&mj::to_string(&v), &a);
        sym::cover(1);
    }
    /// Calls within calls. params: what
    fn within() {
        json::set_exact(false);
        {
            let k = sym::param(0);
            match k {
                0..=6 => {
                    let s = gen::fill(EMB[k as usize]);
                    match k {
                        4 | 5 => {
                            let o = json::parse(s.as_bytes());
                            match (mj::from_str::<BTreeMap<Name, u8>>(&s), &o) {
                                (Ok(m), Some(J::Obj(t))) => {
                                    sym::cover(1);
                                    let mut left = [false; 256];
                                    let mut n = 0;
                                    for (k, v) in t.iter().rev() {
                                        let l = match json::parse(k) {
                                            Some(J::Arr(a)) => a.len(),
                                            _ => { sym::fail("accepted a name that does not parse"); 0 }
                                        };
                                        if !left[l] {
                                            left[l] = true;
                                            n += 1;
                                            match m.get(&Name(l as u8)) {
                                                Some(u) => u.same(v),
                                                None => sym::fail("member lost"),
                                            }
                                        }
                                    }
                                    sym::check(m.len() == n, "number of entries");
                                }
                                (Ok(_), _) => sym::fail("accepted what is no object"),
                                (Err(_), Some(J::Obj(t))) => {
                                    let ok = t.iter().all(|(k, v)| match json::parse(k) {
                                        Some(k) => Vec::<u8>::accepts(&k) == crate::model::Tri::Yes && u8::accepts(v) == crate::model::Tri::Yes,
                                        None => false,
                                    });
                                    sym::check(!ok, "refused a document that gives this type");
                                    sym::cover(2);
                                }
                                (Err(_), _) => {}
                            }
                        }
                        0 => Parse { s }.run::<Emb>(),
                        _ => Parse { s }.run::<Vec<Emb>>(),
                    }
                }
                7 => {
                    // an error after some were read, and the string that is read next
                    let s = gen::fill(b"[[1,2],[3],\"\\n?\"]");
                    sym::check(mj::from_str::<Vec<Vec<Late>>>(&s).is_err(), "a list out of a string");
                    let s = gen::fill(b"[1,2,?]");
                    let r = mj::from_str::<Vec<Late>>(&s);
                    match (&r, &json::parse(s.as_bytes())) {
                        (Ok(v), Some(j)) => {
                            sym::check(<Vec<u64> as Model>::accepts(j) != crate::model::Tri::No, "accepted a document that does not give this type");
                            sym::check(v.len() == 3, "number of elements");
                            sym::cover(1);
                        }
                        (Err(_), Some(j)) => sym::check(<Vec<u64> as Model>::accepts(j) != crate::model::Tri::Yes, "refused a document that gives this type"),
                        (Ok(_), None) => sym::fail("accepted a text that is not JSON"),
                        (Err(_), None) => sym::cover(2),
                    }
                }
                8 => {
                    // repeated members: the one before is dropped in the middle of it all
                    let s = gen::fill(b"{\"a\":1,\"\\n\":2,\"?\":3,\"\\t?\":4}");
                    let r = mj::from_str::<BTreeMap<String, Late>>(&s);
                    match (&r, &json::parse(s.as_bytes())) {
                        (Ok(v), Some(J::Obj(t))) => {
                            sym::cover(1);
                            for (k, l) in v {
                                let mut want = None;
                                for (n, x) in t {
                                    if bytes_eq(n, k.as_bytes()) {
                                        want = Some(x);
                                    }
                                }
                                match want {
                                    Some(x) => l.0.same(x),
                                    None => sym::fail("a member made up"),
                                }
                            }
                        }
                        (Ok(_), _) => sym::fail("accepted what is no object"),
                        (Err(_), Some(_)) => sym::fail("refused a document that gives this type"),
                        (Err(_), None) => sym::cover(2),
                    }
                }
                _ => {
                    // written
                    let l = [Emb(Value::any(1)), Emb(Value::any(0)), Emb(Value::String(gen::fill(b"?\n")))];
                    let mut want = Vec::new();
                    want.push(b'[');
                    for (i, e) in l.iter().enumerate() {
                        if i > 0 {
                            want.push(b',');
                        }
                        e.text(&mut want);
                    }
                    want.push(b']');
                    crate::out::wrote(&mj::to_string(&l), &want);
                    sym::cover(1);
                }
            }
        }
    }
}
