//! String literals: C04.
use crate::json::{self, bytes_eq, J};
use crate::{gen, sym};
use miniserde::json as mj;
use miniserde::json::{Object, Value};
use std::collections::BTreeMap;

pub const S: &[&[u8]] = &[
    b"\"\"",
    b"\"?\"",
    b"\"??\"",
    b"\"\\?\"",
    b"\"\\??\"",
    b"\"\\?\\?\"",
    b"\"a\\?b\"",
    b"\"\\u@@@@\"",
    b"\"\\u?@@@\"",
    b"\"\\u@?@@\"",
    b"\"\\u@@?@\"",
    b"\"\\u@@@?\"",
    b"\"\\u00??\"",
    b"\"\\u?\"",
    b"\"\\u1?\"",
    b"\"\\u12?\"",
    b"\"\\u123?\"",
    b"\"\\u1234?\"",
    b"\"\\ud8@@\\udc@@\"",
    b"\"\\ud@00\\ud@00\"",
    b"\"\\uD@f@\\u@C0@\"",
    b"\"\\udb@@\\u@@ff\"",
    b"\"\\ud83d\\ud?00\"",
    b"\"\\ud83d?udc00\"",
    b"\"\\ud83d\\?dc00\"",
    b"\"\\ud83d\\u?c00\"",
    b"\"\\ud83d\\udc0?\"",
    b"\"\\ud83d\\udc?\"",
    b"\"\\ud83d\\u?\"",
    b"\"\\ud83d\\?\"",
    b"\"\\ud83d?\"",
    b"\"\\ud83d\\n\\udc00?\"",
    b"\"\\udc00?\"",
    b"\"\\udc00\\ud83d?\"",
    b"\"\\ud83d\\ud83d\\udc00?\"",
    b"\"\\u@@@@\\n?\"",
    b"\"\x02\"",
    b"\"\x03\"",
    b"\"\x04\"",
    b"\"\x02\\n\x03\\t\x04\"",
    b"\"\\n\x02?\"",
    b"\"\x03\\u00@@\x02\"",
    b"\"\x04\\\\\x04?\"",
    b"\"ab\\ncd\\t?e\"",
    b"\"\\n?\\n?\\n\"",
    b"\"a\\\"?\\\"b\"",
    b"\"\\/?/\"",
    b"\"abc",
    b"\"abc?",
    b"\"abc\\",
    b"\"abc\\?",
    b"\"\\u12",
    b"\"\\u123@?",
    b"\"\\ud83d\\",
    b"\"\\ud83d\\u",
    b"\"\\ud83d\\udc0",
    b"\"\\ud83d\\udc00",
    b"\"\\ud83d\\udc00?",
    b"\"\x02",
    b"\"\x04\\",
    b"\"\\b\\f\\n\\r\\t?\"",
    b"\"\\u0000?\"",
    b"\"\\uffff\\ufffe\\u@fff\"",
    b"\"\\ud7ff\\ue000\\u07@@\\u08@@\"",
    b"\"\\u00@@\\u01@@\"",
];

/// Documents in which the scratch space is used again.
pub const M: &[&[u8]] = &[
    b"[\"\\na\",\"b?\",\"\\t?\"]",
    b"[\"\\n\",\"\",\"?\"]",
    b"[\"\\u@@@@\",\"?\",\"\\u00e@\"]",
    b"{\"\\na?\":\"b\",\"c\":\"\\t?\"}",
    b"{\"k\\n\":\"\\?\",\"\\?\":\"k\"}",
    b"[\"long enough to need room \\n?\",\"s\\n?\",\"longer again and longer than before \\t?\"]",
    b"{\"a\\u00@@\":{\"b\\n\":[\"c\\n?\"]}}",
    b"[\"\\\\\",\"\\\\\\?\",\"\\\\\\\\\"]",
];

fn check(s: &str) {
    let o = json::parse(s.as_bytes());
    let r = mj::from_str::<String>(s);
    match (&r, &o) {
        (Ok(t), Some(J::Str(b))) => {
            sym::cover(1);
            sym::check(bytes_eq(t.as_bytes(), b), "decoded text");
            sym::check(std::str::from_utf8(t.as_bytes()).is_ok(), "not valid UTF-8");
        }
        (Ok(_), _) => sym::fail("accepted what is no string literal"),
        (Err(_), Some(J::Str(_))) => sym::fail("refused a string literal"),
        (Err(_), _) => sym::cover(2),
    }
    let v = mj::from_str::<Value>(s);
    match (&v, &o) {
        (Ok(v), Some(j)) => json::same(v, j),
        (Ok(_), None) => sym::fail("accepted what is no JSON"),
        (Err(_), Some(j)) => json::refused(j, "refused a JSON text"),
        _ => {}
    }
    sym::log(r.is_ok() as u64);
}
fn check_key(s: &str) {
    let mut t = String::from("{");
    t.push_str(s);
    t.push_str(":true}");
    let o = json::parse(t.as_bytes());
    let v = mj::from_str::<Object>(&t);
    match (&v, &o) {
        (Ok(v), Some(J::Obj(m))) => {
            sym::cover(3);
            json::same_obj(v, m);
            for (k, _) in v {
                sym::check(std::str::from_utf8(k.as_bytes()).is_ok(), "not valid UTF-8");
            }
        }
        (Ok(_), _) => sym::fail("accepted what is no object"),
        (Err(_), Some(J::Obj(_))) => sym::fail("refused an object"),
        (Err(_), _) => sym::cover(4),
    }
    let v = mj::from_str::<BTreeMap<String, bool>>(&t);
    match (&v, &o) {
        (Ok(v), Some(J::Obj(m))) => {
            sym::check(v.len() == 1, "number of entries");
            for (k, b) in v {
                sym::check(*b && bytes_eq(k.as_bytes(), &m[0].0), "decoded name");
            }
        }
        (Ok(_), _) => sym::fail("accepted what is no object"),
        (Err(_), Some(J::Obj(m))) => {
            if m.len() == 1 && matches!(m[0].1, J::Bool(true)) {
                sym::fail("refused an object")
            }
        }
        _ => {}
    }
}

harness! {
    /// params: first template, how many, 1: as a member name
    fn str_doc() {
        let (a, n) = (sym::param(0) as usize, sym::param(1) as usize);
        let n = n.min(S.len() - a);
        let s = gen::fill(S[a + sym::pick("template", n as u8)]);
        if sym::param(2) == 1 {
            check_key(&s);
        } else {
            check(&s);
        }
    }
    /// n bytes between quotes, any ASCII. params: n, 1: as a name, 2: the last quote is missing
    fn str_any() {
        let mut s = String::from("\"");
        s.push_str(&gen::run(b'?', sym::param(0) as usize));
        if sym::param(1) != 2 {
            s.push('"');
        }
        if sym::param(1) == 1 {
            check_key(&s);
        } else {
            check(&s);
        }
    }
    /// Several strings in one document. params: template
    fn str_many() {
        let s = gen::fill(M[sym::param(0) as usize]);
        let o = json::parse(s.as_bytes());
        match (&mj::from_str::<Value>(&s), &o) {
            (Ok(v), Some(j)) => {
                sym::cover(1);
                json::same(v, j)
            }
            (Ok(_), None) => sym::fail("accepted what is no JSON"),
            (Err(_), Some(_)) => sym::fail("refused a JSON text"),
            _ => sym::cover(2),
        }
    }
    /// A long literal with an escape and a byte of any kind in it. params: length before, between, after, what the first is
    fn str_long() {
        let mut t = vec![b'"'];
        let (a, b, c) = (sym::param(0), sym::param(1), sym::param(2));
        for i in 0..a {
            t.push(b'a' + (i % 23) as u8);
        }
        if b < 1 << 20 {
            let first: &[&[u8]] = &[b"\\?", b"?", b"\x02", b"\x03", b"\\u00@@", b"\x04"];
            t.extend_from_slice(first[sym::param(3) as usize]);
            for i in 0..b {
                t.push(b'a' + (i % 21) as u8);
            }
        }
        t.push(b'?');
        for i in 0..c {
            t.push(b'a' + (i % 19) as u8);
        }
        t.push(b'"');
        let s = gen::fill(&t);
        check(&s);
        check_key(&s);
    }
}
