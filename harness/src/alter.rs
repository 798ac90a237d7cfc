//! Documents that are altered: members added (C22), blanks moved (C23), cut off or broken (C24).
use crate::json::{self, J};
use crate::model::Model;
use crate::types::{with, Job, Parse};
use crate::{gen, sym};
use miniserde::json as mj;
use miniserde::{Deserialize, Serialize};

// ---------------------------------------------------------------- members added

/// Type, document, the names its structs know. A member goes where one of the marks is: < with a comma after it,
/// > with one before it, = alone.
const R: &[(u64, &[u8], &[&[u8]])] = &[
    (12, b"{<\"a\":1,<\"b b\":true,<\"type\":\"x\">}", &[b"a", b"b b", b"type"]),
    (12, b"{<\"type\":\"x\",<\"a\":2>}", &[b"a", b"b b", b"type"]),
    (12, b"{<\"a\":1,<\"type\":\"x\",<\"a\":9>}", &[b"a", b"b b", b"type"]),
    (12, b"{<\"a\":1>}", &[b"a", b"b b", b"type"]),
    (24, b"{<\"id\":1,<\"inner\":{<\"x\":1,<\"t\":[true,2]>},<\"list\":[{<\"x\":1,<\"t\":[false,null]>},{<\"t\":[true,3],<\"x\":4>}]>}", &[b"id", b"inner", b"list", b"x", b"t"]),
    (25, b"{<\"v\":true,<\"o\":false>}", &[b"v", b"o"]),
    (37, b"{=}", &[]),
    (38, b"{<\"\":1,<\"a\":2,<\"aa\":3,<\"A\":4,<\"fn\":5>}", &[b"", b"a", b"aa", b"A", b"\"\\\n\x01", "\u{e9}\u{1f600}".as_bytes(), b"fn", b"r#x"]),
    (38, b"{=}", &[b"", b"a", b"aa", b"A", b"\"\\\n\x01", "\u{e9}\u{1f600}".as_bytes(), b"fn", b"r#x"]),
    (42, b"{<\"p\":1,<\"s\":\"x\",<\"v\":[true]>}", &[b"p", b"s", b"v"]),
    (26, b"{<\"a\":1,<\"type\":\"x\">}", &[b"a", b"b b", b"type"]),
    (27, b"{<\"x\":1,<\"t\":[true,1]>}", &[b"x", b"t"]),
    (46, b"{<\"v\":1,<\"o\":2>}", &[b"v", b"o"]),
    (50, b"{<\"v\":[1,2],<\"o\":[3,4]>}", &[b"v", b"o"]),
    (55, b"{<\"v\":{<\"v\":true,<\"o\":false>},<\"o\":{<\"v\":true>}>}", &[b"v", b"o"]),
    (59, b"{\"k\":{<\"p\":1,<\"s\":\"x\",<\"v\":[true]>}}", &[b"p", b"s", b"v"]),
    (71, b"{<\"r\":1,<\"r_x\":2>}", &[b"r", b"r_x", b"rr", b"_u", b"match"]),
    (74, b"{<\"t\":[1,2],<\"u\":true,<\"both\":[[1,false]]>}", &[b"t", b"u", b"both"]),
    (75, b"{<\"t\":[1],\"u\":{<\"v\":2>},\"both\":[[4,{<\"v\":5>}]]}", &[b"t", b"u", b"both", b"v", b"o"]),
    (77, b"[{<\"r\":1>},null,{=},{<\"r\":2,<\"r\":3>}]", &[b"r", b"r_x", b"rr", b"_u", b"match"]),
];
const NAMES: &[&[u8]] = &[b"zz", b"?", b"??", b"\\u00@1", b"v?", b"?ype", b"\x02", b"", b"a member with a long name \\n?"];
const VALUES: &[&[u8]] = &[
    b"null",
    b"tru?",
    b"-#",
    b"#.#e1",
    b"\"?\"",
    b"\"\\?\"",
    b"[]",
    b"{}",
    b"[?]",
    b"{\"?\":?}",
    b"{\"a\":1,\"type\":\"y\",\"?\":2}",
    b"[1,[2,{\"k\":[?]}],3]",
    b"{\"a\":{\"a\":1},\"v\":?}",
    b"[[],{},[?]]",
    b"[[[[?]]]]",
    b"{\"a\":{\"x\":{\"v\":{}?}}",
    b"\"\\u@0@0\"",
    b"[1,]",
    b"[1 2]",
    b"{\"a\":}",
    b"{\"a\",1}",
    b"{1:2}",
    b"[}",
    b"{]",
    b"[{]}",
    b"\"\\ud800\"",
    b"0#",
    b"#.",
    b"#e?",
    b"??",
    b"???",
    b"18446744073709551616",
    b"-9223372036854775809",
    b"1844674407370955161#",
    b"-922337203685477580#",
    b"-9223372036854775808",
    b"922337203685477580#",
    b"-10000000000000000000000#",
    b"-0.0",
    b"-0e#",
    b"#e-400",
    b"1.7976931348623157e308",
    b"#e308",
    b"{\"k\":-922337203685477580#}",
    b"[\"\\n\",]",
    b"[\"\\n\"?]",
    b"{\"\\n\":1,}",
    b"{\"\\n\":\"\\t\"?}",
    b" [ 1 , { } ] ",
    b"\"\"",
    b"{\"\":#}",
    b"[{\"\":{}}]",
    b"{\"\":[],\"\":[?]}",
    b"{\"k\":\"\",\"\":\"\"}",
    b"{\"k\":[{\"\":\"?\"},\"\"]}",
    b"{\"a\":{\"\":{\"\":{}}},\"b\":[[],[[]]]}",
    b"{\"\\\"\\n\\u00e9\":\"\\ud83d\\ude0@\"}",
    b"\"a text of more than a few words, long enough to be copied in chunks: ?\"",
    b"{\"a member name of more than a few words, long enough\":0.0000000000001e-#}",
    b"[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,?]",
    b"[[[[[[[[[[[[[[[[[[[[?]]]]]]]]]]]]]]]]]]]]",
    b"1e99#",
    b"-0",
    b"{\"a\":1,}",
    b"[,1]",
    b"\"\\x\"",
    b"\"\x01?\"",
];

fn marks(b: &[u8]) -> usize {
    b.iter().filter(|c| matches!(c, b'<' | b'>' | b'=')).count()
}
/// The document with the member at that mark, or none.
fn place(b: &[u8], at: usize, m: &[u8]) -> String {
    let mut o = Vec::new();
    let mut k = 0;
    for &c in b {
        match c {
            b'<' | b'>' | b'=' => {
                if k == at {
                    if c == b'>' {
                        o.push(b',');
                    }
                    o.extend_from_slice(m);
                    if c == b'<' {
                        o.push(b',');
                    }
                }
                k += 1;
            }
            c => o.push(c),
        }
    }
    unsafe { String::from_utf8_unchecked(o) }
}
struct Skip {
    plain: String,
    with: String,
    value: String,
}
impl Job for Skip {
    fn run<T: Model + Deserialize + Serialize>(&self) {
        let l0 = sym::live();
        let a = mj::from_str::<T>(&self.plain);
        let b = mj::from_str::<T>(&self.with);
        match json::parse(self.value.as_bytes()) {
            Some(j) => match (&a, &b) {
                (Ok(x), Ok(y)) => {
                    sym::cover(1);
                    sym::check(x.equal(y), "an unknown member changes the result")
                }
                (Ok(_), Err(_)) => json::refused(&j, "an unknown member makes the parse fail"),
                (Err(_), Ok(_)) => sym::fail("an unknown member makes the parse succeed"),
                (Err(_), Err(_)) => sym::cover(2),
            },
            None => {
                if json::parse(self.with.as_bytes()).is_none() {
                    sym::cover(3);
                    sym::check(b.is_err(), "an ignored value that is not JSON was accepted");
                }
            }
        }
        sym::log(a.is_ok() as u64 * 2 + b.is_ok() as u64);
        drop((a, b));
        sym::check(sym::live() == l0, "memory left behind");
    }
}

// ---------------------------------------------------------------- documents that give a value

/// Type, document that gives a value of it.
pub const V: &[(u64, &[u8])] = &[
    (39, b"[1,{\"a\":[true,null],\"b\":\"x\"},-2.5e1,[],{}]"),
    (39, b"{\"a\":{\"b\":{\"c\":[1,2]}},\"d\":[[\"\\n\\u00e9\"]]}"),
    (12, b"{\"a\":1,\"b b\":true,\"type\":\"x\"}"),
    (24, b"{\"id\":1,\"inner\":{\"x\":1,\"t\":[true,2]},\"list\":[{\"x\":1,\"t\":[false,null]},{\"t\":[true,3],\"x\":4}]}"),
    (42, b"{\"p\":1,\"s\":\"x\",\"v\":[true,false],\"z\":[{}]}"),
    (42, b"{\"v\":[true],\"p\":1,\"v\":[],\"s\":\"x\",\"s\":\"y\",\"p\":2}"),
    (10, b"{\"a\":1,\"b\":2,\"a\":3}"),
    (11, b"{\"a\":true,\"b\":false,\"a\":false}"),
    (22, b"{\"1\":true,\"2\":false,\"01\":true}"),
    (23, b"{\"-1\":[null],\"2\":[]}"),
    (35, b"{\"a\":{\"x\":null},\"b\":{},\"a\":{\"y\":null}}"),
    (53, b"{\"a\":[1,{\"b\":\"c\"}],\"d\":{}}"),
    (44, b"{\"a\":1,\"b\":2,\"a\":3}"),
    (45, b"{\"1\":1,\"2\":2,\"01\":3}"),
    (59, b"{\"k\":{\"p\":1,\"s\":\"x\",\"v\":[true]},\"l\":{\"v\":[],\"s\":\"\",\"p\":2}}"),
    (58, b"{\"1\":\"A\",\"2\":\"Ab\"}"),
    (32, b"[1,2,3]"),
    (33, b"[1,2]"),
    (43, b"[1,2,3,4,5]"),
    (46, b"{\"v\":1,\"o\":2,\"v\":3}"),
    (47, b"1"),
    (48, b"[1,2]"),
    (49, b"[[1,2],[3,4]]"),
    (50, b"{\"v\":[1,2],\"o\":[3,4],\"v\":[5,6]}"),
    (55, b"{\"v\":{\"v\":true,\"o\":false},\"o\":{\"v\":true}}"),
    (54, b"[\"a\",null,\"b\"]"),
    (60, b"[[1,[true]],[2,[false]]]"),
    (61, b"[[1,2],[],[3]]"),
    (70, b"[1,2,3]"),
    (34, b"[[[1,2],[3]],[[4]],[]]"),
    (40, b"[{\"a\":[1]},[2,\"x\"]]"),
    (52, b"{\"a\":{\"b\":[\"c\"]},\"d\":\"e\"}"),
    (28, b"[\"A\",\"Ab\",\"\"]"),
    (20, b"[[1,2],[3,4]]"),
    (21, b"[[1,true],null]"),
    (18, b"[1,2]"),
    (27, b"{\"x\":1,\"t\":[true,2]}"),
    (38, b"{\"a\":1,\"aa\":2,\"\":3,\"\\u00e9\\ud83d\\ude00\":4}"),
];
pub const NV: u64 = 38;
const _: () = assert!(V.len() == NV as usize);

/// Beginning and end of every value, and of every token, of a compact text.
fn spans(b: &[u8], tokens: bool) -> Vec<(usize, usize)> {
    let mut o = Vec::new();
    let mut open = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let s = i;
        match b[i] {
            b'[' | b'{' => {
                i += 1;
                if tokens {
                    o.push((s, i));
                } else {
                    open.push(s);
                }
            }
            b']' | b'}' => {
                i += 1;
                if tokens {
                    o.push((s, i));
                } else if let Some(s) = open.pop() {
                    o.push((s, i));
                }
            }
            b',' | b':' => {
                i += 1;
                if tokens {
                    o.push((s, i));
                }
            }
            b'"' => {
                i += 1;
                while b[i] != b'"' {
                    if b[i] == b'\\' {
                        i += 1;
                    }
                    i += 1;
                }
                i += 1;
                if tokens || i == b.len() || b[i] != b':' {
                    o.push((s, i));
                }
            }
            _ => {
                while i < b.len() && !matches!(b[i], b',' | b']' | b'}') {
                    i += 1;
                }
                o.push((s, i));
            }
        }
    }
    o
}

const OTHER: &[&[u8]] = &[b"null", b"true", b"-1", b"\"x\"", b"[]", b"{}", b"1.5", b"[1]", b"{\"a\":1}", b"201", b"[1,2,3,4]", b"{\"a\":}", b"1e999", b"\"\\ud800\""];

struct Blank<'a> {
    plain: &'a [u8],
    other: String,
}
impl<'a> Job for Blank<'a> {
    fn run<T: Model + Deserialize + Serialize>(&self) {
        let l0 = sym::live();
        let a = mj::from_str::<T>(unsafe { std::str::from_utf8_unchecked(self.plain) });
        let b = mj::from_str::<T>(&self.other);
        match (&a, &b) {
            (Ok(x), Ok(y)) => {
                sym::cover(1);
                sym::check(x.equal(y), "blanks change the result")
            }
            (Ok(_), Err(_)) => sym::fail("blanks make the parse fail"),
            (Err(_), Ok(_)) => sym::fail("blanks make the parse succeed"),
            (Err(_), Err(_)) => sym::cover(2),
        }
        sym::log(b.is_ok() as u64);
        drop((a, b));
        sym::check(sym::live() == l0, "memory left behind");
    }
}
fn splice(b: &[u8], from: usize, to: usize, x: &[u8]) -> String {
    let mut o = b[..from].to_vec();
    o.extend_from_slice(x);
    o.extend_from_slice(&b[to..]);
    unsafe { String::from_utf8_unchecked(o) }
}

harness! {
    /// params: row of R, name; -- any mark, any value
    fn skip_member() {
        let (row, name) = (&R[sym::param(0) as usize], NAMES[sym::param(1) as usize]);
        json::set_exact(false);
        let at = sym::pick("mark", marks(row.1) as u8);
        let first = sym::param(2) as usize;
        let many = sym::param(3) as usize;
        let value = gen::fill(VALUES[first + sym::pick("value", many.min(VALUES.len() - first) as u8)]);
        let mut key = String::from("\"");
        key.push_str(&gen::fill(name));
        key.push('"');
        let k = match json::parse(key.as_bytes()) {
            Some(J::Str(k)) => k,
            _ => return,
        };
        for n in row.2 {
            if json::bytes_eq(n, &k) {
                return;
            }
        }
        let mut m = key.clone();
        m.push(':');
        m.push_str(&value);
        with(row.0, &Skip { plain: place(row.1, usize::MAX, b""), with: place(row.1, at, m.as_bytes()), value });
    }
    /// Blanks between two tokens, or around the document. params: row of V, how many
    fn blank_one() {
        let row = &V[sym::param(0) as usize];
        json::set_exact(false);
        let t = spans(row.1, true);
        let g = sym::pick("gap", t.len() as u8 + 1);
        let at = if g == t.len() { row.1.len() } else { t[g].0 };
        let w = gen::run(b'%', sym::param(1) as usize);
        with(row.0, &Blank { plain: row.1, other: splice(row.1, at, at, w.as_bytes()) });
    }
    /// The same blank in every gap, or some of them. params: row of V, blanks per gap
    fn blank_all() {
        let row = &V[sym::param(0) as usize];
        json::set_exact(false);
        let w = gen::run(b'%', sym::param(1) as usize);
        let which = sym::pick("which gaps", 4);
        let mut o = Vec::new();
        for (i, (a, b)) in spans(row.1, true).iter().enumerate() {
            let c = row.1[*a];
            let here = match which {
                0 => true,
                1 => i % 2 == 1,
                2 => c == b',' || c == b':',
                _ => matches!(c, b']' | b'}'),
            };
            if here {
                o.extend_from_slice(w.as_bytes());
            }
            o.extend_from_slice(&row.1[*a..*b]);
        }
        if which == 0 {
            o.extend_from_slice(w.as_bytes());
        }
        with(row.0, &Blank { plain: row.1, other: unsafe { String::from_utf8_unchecked(o) } });
    }
    /// Anything anywhere. params: row of V, class of what is inserted (0 ASCII, 2, 3, 4: characters of so many bytes,
    /// 9 a blank)
    fn blank_any() {
        let row = &V[sym::param(0) as usize];
        json::set_exact(false);
        let at = sym::pick("place", row.1.len() as u8 + 1);
        let c = match sym::param(1) { 0 => b'?', 9 => b'%', k => k as u8 };
        let x = gen::run(c, 1);
        with(row.0, &Parse { s: splice(row.1, at, at, x.as_bytes()) });
    }
    /// A long run of blanks with any byte in it. params: row of V, length
    fn blank_long() {
        let row = &V[sym::param(0) as usize];
        json::set_exact(false);
        let t = spans(row.1, true);
        let g = sym::pick("gap", t.len() as u8 + 1);
        let at = if g == t.len() { row.1.len() } else { t[g].0 };
        let n = sym::param(1) as usize;
        let mut w = vec![b' '; n];
        for i in 0..n {
            w[i] = b" \n\t\r"[i / 5 % 4];
        }
        let k = match sym::pick("odd one", 3) { 0 => 0, 1 => n / 2, _ => n - 1 };
        w[k] = gen::run(b'?', 1).as_bytes()[0];
        with(row.0, &Parse { s: splice(row.1, at, at, &w) });
    }
    /// params: row of V, what happens (0 the text ends, 1 a byte is replaced by any other, 2 any byte comes in,
    /// 3 a byte goes, 4 a value becomes another one, 5 the text ends and goes on with any byte, 6 two texts)
    fn cut_doc() {
        let row = &V[sym::param(0) as usize];
        json::set_exact(false);
        let b = row.1;
        let how = sym::param(1);
        let s = match how {
            4 => {
                let v = spans(b, false);
                let (f, t) = v[sym::pick("which value", v.len() as u8)];
                splice(b, f, t, OTHER[sym::pick("by", OTHER.len() as u8)])
            }
            0 => splice(b, sym::pick("end", b.len() as u8), b.len(), b""),
            5 => {
                let at = sym::pick("end", b.len() as u8);
                splice(b, at, b.len(), gen::run(b'?', 2).as_bytes())
            }
            6 => {
                let at = sym::pick("end", b.len() as u8 + 1);
                let mut s = splice(b, at, b.len(), b"");
                s.push_str(unsafe { std::str::from_utf8_unchecked(b) });
                s
            }
            _ => {
                let at = sym::pick("place", b.len() as u8);
                let x = if how == 3 { String::new() } else { gen::run(b'?', 1) };
                splice(b, at, if how == 2 { at } else { at + 1 }, x.as_bytes())
            }
        };
        with(row.0, &Parse { s });
    }
}
