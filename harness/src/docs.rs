//! Whole documents parsed as untyped values: C01 (no fault), C02 (accepted or not), C03 (the tree).
use crate::json::{self, J};
use crate::{gen, sym};
use miniserde::json as mj;
use miniserde::json::{Array, Number, Object, Value};

pub const T: &[&[u8]] = &[
    b"[?,?]",
    b"{\"a\":?,\"b\":?}",
    b"{\"?\":1,\"?\":2}",
    b"[[],{},[?]]",
    b"[1,[2,{\"k\":[?]}],3]",
    b"{\"a\":{\"b\":[{\"c\":?}]}}",
    b"nul?",
    b"tru?",
    b"fals?",
    b"[null?true]",
    b"{\"a\"?1}",
    b"{\"a\":1?\"b\":2}",
    b"[1,2?",
    b"[\"a\"?\"b\"]",
    b"{\"a\":[1,2]?}",
    b"[{\"a\":1},{\"b\":2}?",
    b"\"\\?\"",
    b"\"\\u??41\"",
    b"\"\\u00??\"",
    b"\"\\ud8@@\\ud?00\"",
    b"-?",
    b"1.?",
    b"1?5",
    b"1e?5",
    b"0?",
    b"-0?1",
    b"1234567890123456789?",
    b"1844674407370955161?",
    b"-922337203685477580?",
    b"[[[[[[[[?]]]]]]]]",
    b"{\"a\":{\"a\":{\"a\":{\"a\":?}}}}",
    b"[1,2,3,4,5,6,7,8,9?",
    b"{\"a\":1,\"b\":2,\"c\":3,\"d\":4,\"e\":5,\"?\":6}",
    b"  [ 1 , 2 ] ?",
    b"{ \"a\" : 1 , \"b\" :? }",
    b"[1?[2]]",
    b"[[1]?2]",
    b"{\"a\":{}?\"b\":[]}",
    b"{\"a\":[]?}",
    b"[]?",
    b"{}?",
    b"[{}?]",
    b"{\"\":?}",
    b"[\"?\",\"\\?\"]",
    b"{\"\\?\":\"?\"}",
    b"\"\x02\x03\"",
    b"{\"\x04\":\"\x03\"}",
    b"[1,\x02]",
    b"\x03[1]",
    b"[1]\x02",
    b"[\"\\n\",?]",
    b"[\"\\n\"?]",
    b"[\"\\n\",?,\"a\"?]",
    b"{\"\\n\":?,\"b\\t\":1?}",
    b"{\"a\":\"\\n\",?}",
    b"{\"a\":\"\\n\",\"b\"?}",
    b"[[\"\\n\"],?]",
    b"\"\\n\"?",
    b"[{\"\\u0041\":\"\\\"\"}?]",
    b"[true,\"\\n\",null?,[]]",
];

fn check(s: &str, mode: u64) {
    let r = mj::from_str::<Value>(s);
    let o = json::parse(s.as_bytes());
    match (&r, &o) {
        (Ok(v), Some(j)) => {
            sym::cover(1);
            match j {
                J::Arr(_) => sym::cover(2),
                J::Obj(_) => sym::cover(3),
                J::Str(_) => sym::cover(4),
                J::Num(_) => sym::cover(5),
                J::Bool(_) => sym::cover(6),
                J::Null => sym::cover(7),
            }
            if mode & 2 != 0 {
                json::same(v, j);
            }
        }
        (Ok(_), None) => {
            if mode & 1 != 0 {
                sym::fail("accepted a text that is not JSON");
            }
        }
        (Err(_), Some(j)) => {
            if mode & 1 != 0 {
                json::refused(j, "refused a JSON text");
                sym::cover(8);
            }
        }
        (Err(_), None) => sym::cover(9),
    }
    sym::log(r.is_ok() as u64);
}

harness! {
    /// params: mode (1 acceptance, 2 tree), generator, size or template
    fn doc_value() {
        let (mode, g, n) = (sym::param(0), sym::param(1), sym::param(2));
        json::set_exact(mode & 4 != 0);
        let s = gen::doc(g, n, T);
        let l0 = sym::live();
        check(&s, mode);
        sym::check(sym::live() == l0, "memory left behind");
    }
    /// The dedicated types: accepted exactly when the document is of their kind.
    fn doc_kind() {
        let (k, g, n) = (sym::param(0), sym::param(1), sym::param(2));
        let s = gen::doc(g, n, T);
        let o = json::parse(s.as_bytes());
        match k {
            0 => match (mj::from_str::<Array>(&s), &o) {
                (Ok(a), Some(J::Arr(t))) => {
                    sym::cover(1);
                    json::same_arr(&a, t)
                }
                (Ok(_), _) => sym::fail("an array out of something else"),
                (Err(_), Some(j @ J::Arr(_))) => json::refused(j, "refused an array"),
                (Err(_), _) => {}
            },
            1 => match (mj::from_str::<Object>(&s), &o) {
                (Ok(a), Some(J::Obj(t))) => {
                    sym::cover(1);
                    json::same_obj(&a, t)
                }
                (Ok(_), _) => sym::fail("an object out of something else"),
                (Err(_), Some(j @ J::Obj(_))) => json::refused(j, "refused an object"),
                (Err(_), _) => {}
            },
            _ => match (mj::from_str::<Number>(&s), &o) {
                (Ok(a), Some(J::Num(t))) => {
                    sym::cover(1);
                    json::same_num(&a, t)
                }
                (Ok(_), _) => sym::fail("a number out of something else"),
                (Err(_), Some(j @ J::Num(_))) => json::refused(j, "refused a number"),
                (Err(_), _) => {}
            },
        }
    }
}
