//! Deep nesting: C18, and C24 for what was built before a late error.
use crate::json::bytes_eq;
use crate::{gen, sym};
use miniserde::json as mj;
use miniserde::json::{Array, Number, Object, Value};
use miniserde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// What a level looks like: before and after the next one.
const L: &[(&str, &str)] = &[
    ("[", "]"),
    ("{\"a\":", "}"),
    ("[1,", "]"),
    ("{\"a\":\"x\",\"b\":", "}"),
    ("[[],", ",{}]"),
    ("{\"b\":", ",\"a\":[]}"),
    ("[ ", " ] "),
    ("{ \"\\u0061\" : ", " , \"c\" : null } "),
];
/// Openers of the levels chosen in turn, the middle, the closers.
fn text(pat: &[usize], depth: u64, mid: &str) -> String {
    let mut s = String::new();
    for i in 0..depth {
        s.push_str(L[pat[i as usize % pat.len()]].0);
    }
    s.push_str(mid);
    for i in (0..depth).rev() {
        s.push_str(L[pat[i as usize % pat.len()]].1);
    }
    s
}
fn pattern(n: u64) -> Vec<usize> {
    let mut p = Vec::new();
    for _ in 0..n {
        p.push(sym::pick("level", L.len() as u8));
    }
    p
}

/// Ignores everything but a member it knows.
#[derive(Deserialize)]
struct Skipping {
    known: Option<bool>,
}
/// Nests through its optional member.
#[derive(Deserialize, Serialize, Default)]
struct Chain {
    a: Option<Box<Chain>>,
    b: Option<Vec<Chain>>,
    c: Option<BTreeMap<String, Chain>>,
}
impl Drop for Chain {
    fn drop(&mut self) {
        // flattened, as the type is the user's and its depth his business
        let mut q: Vec<Chain> = Vec::new();
        take(self, &mut q);
        while let Some(mut c) = q.pop() {
            take(&mut c, &mut q);
        }
        fn take(c: &mut Chain, q: &mut Vec<Chain>) {
            if let Some(b) = c.a.take() {
                q.push(*b);
            }
            if let Some(v) = c.b.take() {
                q.extend(v);
            }
            if let Some(m) = c.c.take() {
                q.extend(m.into_values());
            }
        }
    }
}
const CL: &[(&str, &str)] = &[("{\"a\":", "}"), ("{\"b\":[", "]}"), ("{\"c\":{\"x\":", "}}"), ("{\"b\":[{},", "]}"), ("{\"zz\":[[{}]],\"a\":", ",\"b\":null}")];

fn flat(d: u64, used: &mut dyn FnMut(u64) -> u64, what: &'static str, more: u64) {
    let a = used(d);
    let b = used(d + more);
    sym::check(!sym::grew(a, b, more), what);
}

fn parse_as(kind: u64, s: &str, want: Option<bool>) -> u64 {
    sym::stack_of(&mut || {
        let ok = match kind {
            0 => mj::from_str::<Value>(s).is_ok(),
            1 => mj::from_str::<Vec<Value>>(s).is_ok(),
            2 => mj::from_str::<BTreeMap<String, Value>>(s).is_ok(),
            3 => mj::from_str::<Skipping>(s).is_ok(),
            4 => mj::from_str::<Array>(s).is_ok(),
            5 => mj::from_str::<Object>(s).is_ok(),
            _ => mj::from_str::<Option<Box<Value>>>(s).is_ok(),
        };
        if let Some(w) = want {
            sym::check(ok == w, "accepted or refused because of its depth");
        }
    })
}

fn build(pat: &[usize], depth: u64) -> Value {
    let mut v = Value::Number(Number::U64(7));
    for i in (0..depth).rev() {
        let k = pat[i as usize % pat.len()];
        v = if k % 2 == 0 {
            let mut a = Array::new();
            if k == 4 {
                a.push(Value::Array(Array::new()));
            }
            a.push(v);
            if k == 2 {
                a.push(Value::Bool(true));
            }
            Value::Array(a)
        } else {
            let mut o = Object::new();
            o.insert(String::from("m"), v);
            if k == 3 {
                o.insert(String::from("a"), Value::Object(Object::new()));
            }
            if k == 5 {
                o.insert(String::from("z"), Value::String(String::from("s")));
            }
            Value::Object(o)
        };
    }
    v
}
fn expect(pat: &[usize], depth: u64) -> String {
    let mut s = String::new();
    for i in 0..depth {
        s.push_str(match pat[i as usize % pat.len()] {
            4 => "[[],",
            3 => "{\"a\":{},\"m\":",
            k if k % 2 == 0 => "[",
            _ => "{\"m\":",
        });
    }
    s.push('7');
    for i in (0..depth).rev() {
        s.push_str(match pat[i as usize % pat.len()] {
            2 => ",true]",
            5 => ",\"z\":\"s\"}",
            k if k % 2 == 0 => "]",
            _ => "}",
        });
    }
    s
}

harness! {
    /// Parsing: the same document at two depths. params: type, levels in the pattern, depth, levels more, what
    /// happens in the middle (0 a number, 1 any byte, 2 the text ends, 3 any byte among the closers)
    fn deep_parse() {
        let (kind, n, d, more, how) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3), sym::param(4));
        let l0 = sym::live();
        {
            let pat = pattern(n);
            let mid = match how {
                1 => gen::fill(b"?"),
                _ => String::from("7"),
            };
            let fits = match kind {
                1 | 4 => pat[0] % 2 == 0,
                2 | 3 | 5 => pat[0] % 2 == 1,
                _ => true,
            };
            let want = if how == 0 { Some(fits) } else { None };
            let at = gen::fill(b"?");
            flat(d, &mut |d| {
                let mut s = text(&pat, d, &mid);
                match how {
                    2 => {
                        let e = s.find('7').unwrap_or(0);
                        s.truncate(e);
                    }
                    3 => {
                        let e = s.find('7').unwrap_or(0);
                        let i = e + 1 + (s.len() - e - 1) / 2;
                        s.replace_range(i..i + 1, &at);
                    }
                    _ => {}
                }
                parse_as(kind, &s, want)
            }, "stack grows with nesting in parsing, or in dropping what was parsed", more);
            sym::cover(1);
            if fits { sym::cover(2); }
            sym::log(fits as u64);
        }
        sym::check(sym::live() == l0, "memory left behind");
    }
    /// A user's recursive struct. params: levels in the pattern, depth, levels more, 1: any byte in the middle
    fn deep_chain() {
        let (n, d, more, how) = (sym::param(0), sym::param(1), sym::param(2), sym::param(3));
        let mut pat = Vec::new();
        for _ in 0..n { pat.push(sym::pick("level", CL.len() as u8)); }
        let any = gen::fill(b"?");
        let mut ser = Vec::new();
        flat(d, &mut |d| {
            let mut s = String::new();
            for i in 0..d { s.push_str(CL[pat[i as usize % pat.len()]].0); }
            s.push_str("{}");
            if how == 1 { s.push_str(&any); }
            for i in (0..d).rev() { s.push_str(CL[pat[i as usize % pat.len()]].1); }
            let mut r = None;
            let used = sym::stack_of(&mut || { r = mj::from_str::<Chain>(&s).ok(); });
            if how == 0 {
                sym::check(r.is_some(), "refused because of its depth");
                sym::cover(1);
            }
            if let Some(c) = &r {
                let mut t = String::new();
                ser.push(sym::stack_of(&mut || { t = mj::to_string(c); }));
                sym::log(t.len() as u64);
            }
            used
        }, "stack grows with nesting in parsing", more);
        if ser.len() == 2 {
            sym::check(!sym::grew(ser[0], ser[1], more), "stack grows with nesting in serializing");
        }
    }
    /// Serializing, dropping. params: levels in the pattern, depth, levels more
    fn deep_value() {
        let (n, d, more) = (sym::param(0), sym::param(1), sym::param(2));
        let l0 = sym::live();
        {
            let mut pat = Vec::new();
            for _ in 0..n { pat.push(sym::pick("level", 6)); }
            let hold = sym::pick("held by", 6);
            let mut drops = [0u64; 2];
            for i in 0..2 {
                let d = d + i as u64 * more;
                let v = build(&pat, d);
                let mut t = String::new();
                let used = sym::stack_of(&mut || t = mj::to_string(&v));
                sym::check(bytes_eq(t.as_bytes(), expect(&pat, d).as_bytes()), "text");
                drops[i] = used;
            }
            sym::check(!sym::grew(drops[0], drops[1], more), "stack grows with nesting in serializing");
            for i in 0..2 {
                let v = build(&pat, d + i as u64 * more);
                drops[i] = match hold {
                    0 => sym::stack_of(&mut || drop(build(&pat, d + i as u64 * more))),
                    1 => {
                        let mut a = Array::new();
                        a.push(Value::Null);
                        a.push(v);
                        a.push(Value::Bool(true));
                        let mut a = Some(a);
                        sym::stack_of(&mut || a = None)
                    }
                    2 => {
                        let mut o = Object::new();
                        o.insert(String::from("k"), v);
                        o.insert(String::from("l"), Value::Null);
                        let mut o = Some(o);
                        sym::stack_of(&mut || o = None)
                    }
                    3 => {
                        let mut o = Object::new();
                        o.insert(String::from("k"), v);
                        sym::stack_of(&mut || { o.insert(String::from("k"), Value::Null); })
                    }
                    4 => {
                        let mut a = Array::new();
                        a.push(v);
                        sym::stack_of(&mut || a.clear())
                    }
                    _ => {
                        // partly consumed by value
                        let mut a = Array::new();
                        a.push(Value::Null);
                        a.push(v);
                        let mut it = a.into_iter();
                        it.next();
                        let mut it = Some(it);
                        sym::stack_of(&mut || it = None)
                    }
                };
            }
            sym::check(!sym::grew(drops[0], drops[1], more), "stack grows with nesting in dropping");
            sym::cover(1);
            sym::log(hold as u64);
        }
        sym::check(sym::live() == l0, "memory left behind");
    }
    /// Depth alone is no reason to refuse. params: depth, levels in the pattern (0: arrays only, 1: objects only)
    fn deep_accept() {
        let (d, n) = (sym::param(0), sym::param(1));
        let pat = match n { 0 => vec![0], 1 => vec![1], _ => vec![4, 1, 0, 3] };
        let any = gen::fill(b"#");
        let s = text(&pat, d, &any);
        let r = mj::from_str::<Value>(&s);
        sym::check(r.is_ok(), "refused because of its depth");
        if let Ok(v) = r {
            let t = mj::to_string(&v);
            sym::check(bytes_eq(t.as_bytes(), s.as_bytes()), "text");
            sym::cover(1);
        }
    }
    /// Breadth, too. params: elements, 0 array, 1 object, 2 empty arrays
    fn wide_accept() {
        let (d, k) = (sym::param(0), sym::param(1));
        let any = gen::fill(b"#");
        let mut s = String::from(if k == 1 { "{" } else { "[" });
        for i in 0..d {
            if i > 0 { s.push(','); }
            if k == 1 {
                s.push_str("\"k");
                for j in [4096u64, 256, 16, 1] { s.push((b'a' + (i / j % 16) as u8) as char); }
                s.push_str("\":");
            }
            s.push_str(if k == 2 { "[]" } else if i + 1 == d { &any } else { "3" });
        }
        s.push(if k == 1 { '}' } else { ']' });
        let r = mj::from_str::<Value>(&s);
        sym::check(r.is_ok(), "refused because of its breadth");
        if let Ok(v) = r {
            let t = mj::to_string(&v);
            sym::check(bytes_eq(t.as_bytes(), s.as_bytes()), "text");
            sym::cover(1);
        }
    }
}
