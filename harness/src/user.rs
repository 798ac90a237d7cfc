//! User-written visitors and streams: C20, C21, C24, and what they see of the crate's drivers.
use crate::json::{Num, P};
use crate::{gen, sym};
use miniserde::de::{Deserialize, Map, Seq, Visitor};
use miniserde::ser::{Fragment, Serialize};
use miniserde::{json as mj, make_place, Error, Result};
use std::borrow::Cow;

pub const NULL: u8 = 0;
pub const BOOL: u8 = 1;
pub const STR: u8 = 2;
pub const NEG: u8 = 3;
pub const NONNEG: u8 = 4;
pub const FLOAT: u8 = 5;
pub const SEQ: u8 = 6;
pub const MAP: u8 = 7;
pub const ELEMENT: u8 = 8;
pub const KEY: u8 = 9;
pub const FINISH: u8 = 10;

pub struct Call {
    pub kind: u8,
    /// the builder concerned, or the one whose element this is; 0 is the top level
    pub of: u32,
    pub bits: u64,
    pub text: Vec<u8>,
}

pub struct World {
    pub calls: Vec<Call>,
    /// the builders alive, outermost first
    pub alive: Vec<u32>,
    pub built: u32,
    pub fail: usize,
    pub failed: bool,
}
static mut W: World = World { calls: Vec::new(), alive: Vec::new(), built: 0, fail: usize::MAX, failed: false };
pub fn world() -> &'static mut World {
    unsafe { &mut *std::ptr::addr_of_mut!(W) }
}
fn reset(fail: usize) {
    let w = world();
    w.calls = Vec::with_capacity(16);
    w.alive = Vec::with_capacity(8);
    w.built = 0;
    w.fail = fail;
    w.failed = false;
}
fn close() {
    let w = world();
    w.calls = Vec::new();
    w.alive = Vec::new();
}

fn call(kind: u8, of: u32, bits: u64, text: &[u8]) -> Result<()> {
    let w = world();
    sym::check(!w.failed, "called again after an error");
    w.calls.push(Call { kind, of, bits, text: text.to_vec() });
    if w.calls.len() - 1 == w.fail {
        w.failed = true;
        return Err(Error);
    }
    Ok(())
}

struct Builder {
    id: u32,
    /// lives in its own block, so that a use after the builder is gone is noticed
    child: Box<Child>,
}
struct Child {
    of: u32,
}
fn open(kind: u8, of: u32) -> Result<Builder> {
    call(kind, of, 0, b"")?;
    let w = world();
    w.built += 1;
    let id = w.built;
    w.alive.push(id);
    Ok(Builder { id, child: Box::new(Child { of: id }) })
}
impl Drop for Builder {
    fn drop(&mut self) {
        let w = world();
        match w.alive.pop() {
            Some(i) => sym::check(i == self.id, "builders not dropped innermost first"),
            None => sym::fail("builder dropped twice"),
        }
    }
}
impl Seq for Builder {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        call(ELEMENT, self.id, 0, b"")?;
        self.child = Box::new(Child { of: self.id });
        Ok(&mut *self.child)
    }
    fn finish(&mut self) -> Result<()> {
        call(FINISH, self.id, 0, b"")
    }
}
impl Map for Builder {
    fn key(&mut self, k: &str) -> Result<&mut dyn Visitor> {
        call(KEY, self.id, 0, k.as_bytes())?;
        self.child = Box::new(Child { of: self.id });
        Ok(&mut *self.child)
    }
    fn finish(&mut self) -> Result<()> {
        call(FINISH, self.id, 0, b"")
    }
}

macro_rules! visitor {
    ($t:ty, $self:ident, $of:expr, $done:expr) => {
        impl Visitor for $t {
            fn null(&mut $self) -> Result<()> {
                call(NULL, $of, 0, b"")?;
                $done
            }
            fn boolean(&mut $self, b: bool) -> Result<()> {
                call(BOOL, $of, b as u64, b"")?;
                $done
            }
            fn string(&mut $self, s: &str) -> Result<()> {
                call(STR, $of, 0, s.as_bytes())?;
                $done
            }
            fn negative(&mut $self, n: i64) -> Result<()> {
                call(NEG, $of, n as u64, b"")?;
                $done
            }
            fn nonnegative(&mut $self, n: u64) -> Result<()> {
                call(NONNEG, $of, n, b"")?;
                $done
            }
            fn float(&mut $self, n: f64) -> Result<()> {
                call(FLOAT, $of, n.to_bits(), b"")?;
                $done
            }
            fn seq(&mut $self) -> Result<Box<dyn Seq + '_>> {
                Ok(Box::new(open(SEQ, $of)?))
            }
            fn map(&mut $self) -> Result<Box<dyn Map + '_>> {
                Ok(Box::new(open(MAP, $of)?))
            }
        }
    };
}
visitor!(Child, self, self.of, Ok(()));

struct Spy;
make_place!(Place);
visitor!(Place<Spy>, self, 0, {
    self.out = Some(Spy);
    Ok(())
});
impl Deserialize for Spy {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        Place::new(out)
    }
    fn default() -> Option<Self> {
        None
    }
}

// ---- the reference: calls in the order in which a reader from left to right comes upon them ----

struct Want {
    kind: u8,
    of: u32,
    b: bool,
    num: Option<Num>,
    text: Vec<u8>,
}
fn want(v: &mut Vec<Want>, kind: u8, of: u32) {
    v.push(Want { kind, of, b: false, num: None, text: Vec::new() });
}
fn stream(p: &mut P, of: u32, v: &mut Vec<Want>, ids: &mut u32) -> Option<()> {
    p.ws();
    let c = p.peek()?;
    match c {
        b'n' => {
            word(p, b"null")?;
            want(v, NULL, of)
        }
        b't' => {
            word(p, b"true")?;
            v.push(Want { kind: BOOL, of, b: true, num: None, text: Vec::new() })
        }
        b'f' => {
            word(p, b"false")?;
            want(v, BOOL, of)
        }
        b'"' => {
            p.i += 1;
            let s = p.string()?;
            v.push(Want { kind: STR, of, b: false, num: None, text: s })
        }
        b'[' => {
            p.i += 1;
            want(v, SEQ, of);
            *ids += 1;
            let id = *ids;
            p.ws();
            if p.peek() == Some(b']') {
                p.i += 1;
            } else {
                loop {
                    want(v, ELEMENT, id);
                    stream(p, id, v, ids)?;
                    p.ws();
                    let c = p.peek()?;
                    p.i += 1;
                    if c == b']' {
                        break;
                    }
                    if c != b',' {
                        return None;
                    }
                }
            }
            want(v, FINISH, id);
        }
        b'{' => {
            p.i += 1;
            want(v, MAP, of);
            *ids += 1;
            let id = *ids;
            p.ws();
            if p.peek() == Some(b'}') {
                p.i += 1;
            } else {
                loop {
                    p.ws();
                    if p.peek()? != b'"' {
                        return None;
                    }
                    p.i += 1;
                    let k = p.string()?;
                    v.push(Want { kind: KEY, of: id, b: false, num: None, text: k });
                    p.ws();
                    if p.peek()? != b':' {
                        return None;
                    }
                    p.i += 1;
                    stream(p, id, v, ids)?;
                    p.ws();
                    let c = p.peek()?;
                    p.i += 1;
                    if c == b'}' {
                        break;
                    }
                    if c != b',' {
                        return None;
                    }
                }
            }
            want(v, FINISH, id);
        }
        _ => {
            let n = p.number()?;
            let kind = if !n.fits() {
                FLOAT
            } else if n.neg {
                NEG
            } else {
                NONNEG
            };
            v.push(Want { kind, of, b: false, num: Some(n), text: Vec::new() })
        }
    }
    Some(())
}
fn word(p: &mut P, w: &[u8]) -> Option<()> {
    for &c in w {
        if p.peek()? != c {
            return None;
        }
        p.i += 1;
    }
    Some(())
}

fn same(c: &Call, w: &Want) {
    sym::check(c.kind == w.kind, "another kind of call");
    sym::check(c.of == w.of, "call on another builder or visitor");
    match w.kind {
        BOOL => sym::check(c.bits == w.b as u64, "boolean"),
        STR | KEY => sym::check(crate::json::bytes_eq(&c.text, &w.text), "string"),
        NEG | NONNEG => {
            if let Some(n) = &w.num {
                let m = if w.kind == NEG { c.bits.wrapping_neg() } else { c.bits };
                sym::check(m as u128 == n.sig, "integer")
            }
        }
        _ => {}
    }
}

pub const U: &[&[u8]] = &[
    b"[1,[\"?\",null],{\"k?\":[true]},2]",
    b"{\"a\":{\"b\":[],\"?\":{}},\"c\":?}",
    b"[[],[[]],[[?]]]",
    b"[1,2?3]",
    b"[1,2]?",
    b"{\"a\":1?\"b\":2}",
    b"{\"a\"?[]}",
    b"{\"a\":[{\"b\":[-#]}?}",
    b"[{\"a\":1},{\"a\":2}?",
    b"{\"\\?\":\"\\?\"}",
    b"[{},[],{\"x\":[]}?",
    b" [ 1 , { \"a\" : ? } ] ",
    b"[null,false,-#,#.#,\"\\u00@@\",18446744073709551616]",
    b"{\"a\":{\"a\":{\"a\":?}}}",
    b"[[[[[?]]]]]",
    b"?",
    b"[?",
    b"{?",
    b"[1,?",
    b"{\"a\":?",
    b"{\"a\":1,?",
    b"[\"?\"",
];

fn recorded(s: String, mode: u64, wrap: u64) {
    let mut v = Vec::new();
    let mut ids = 0;
    let valid = {
        let mut p = P { b: s.as_bytes(), i: 0 };
        let r = stream(&mut p, 0, &mut v, &mut ids).is_some();
        p.ws();
        r && p.i == p.b.len()
    };
    let fail = if mode > 0 {
        if v.len() == 0 {
            return;
        }
        let n = v.len();
        if mode == 1 {
            sym::pick("failing call", n as u8)
        } else {
            [0, 1, n / 4, n / 2, n / 4 * 3, n.saturating_sub(3), n.saturating_sub(2), n - 1][sym::pick("failing call", 8)].min(n - 1)
        }
    } else {
        usize::MAX
    };
    let l0 = sym::live();
    reset(fail);
    let l1 = sym::live();
    let r = match wrap {
        0 => mj::from_str::<Spy>(&s).map(|_| ()),
        1 => mj::from_str::<Box<Spy>>(&s).map(|_| ()),
        2 => mj::from_str::<Option<Spy>>(&s).map(|_| ()),
        3 => mj::from_str::<Box<Box<Spy>>>(&s).map(|_| ()),
        _ => mj::from_str::<Box<Option<Box<Spy>>>>(&s).map(|_| ()),
    };
    // an option takes a null for itself, and any document for something
    let opt = wrap == 2 || wrap == 4;
    if opt && v.len() > 0 && v[0].kind == NULL {
        v.clear();
    }
    let w = world();
    sym::check(w.alive.len() == 0, "builder not dropped");
    let n = w.calls.len();
    if valid && fail == usize::MAX {
        sym::cover(1);
        sym::check(n == v.len(), "number of calls");
    } else if fail != usize::MAX {
        // the call that was to fail comes before any error of the input, or at it
        sym::cover(2);
        sym::check(n <= fail + 1, "calls after the failing one");
        sym::check(n == fail + 1 || n + 1 >= v.len(), "call missing before an error");
        sym::check(n == fail + 1 || !valid || v.len() == 0, "call missing");
        sym::check(r.is_err() || v.len() == 0, "result in spite of an error");
    } else {
        sym::cover(3);
        sym::check(n <= v.len(), "calls past the error");
        sym::check(n + 1 >= v.len(), "call missing before an error");
        sym::check(r.is_err(), "accepted a text that is not JSON");
    }
    for i in 0..n {
        same(&w.calls[i], &v[i]);
    }
    // the top level value is there when the visitor delivered it
    if valid && fail == usize::MAX {
        let scalar = opt || v[0].kind < SEQ;
        sym::check(r.is_ok() == scalar || wrap == 4, "result although nothing was delivered, or none although it was");
    }
    sym::log(n as u64);
    let held = w.calls.iter().filter(|c| c.text.capacity() > 0).count() as u64;
    let grown = (w.calls.capacity() > 0) as u64 + (w.alive.capacity() > 0) as u64;
    sym::check(sym::live() == l0 + held + grown, "memory left behind");
    let _ = l1;
    close();
    sym::check(sym::live() == l0, "memory left behind");
}

pub const HOLES: &[&[u8]] = &[b"?", b"\"?\"", b"[#,{}]", b"{\"?\":null}", b"", b"[[?", b"#?#"];

/// Long and deep documents with a hole.
pub fn big(kind: u64, n: usize, at: usize, hole: &str) -> String {
    let mut s = String::new();
    match kind {
        0 | 1 | 5 => {
            s.push(if kind == 1 { '{' } else { '[' });
            for i in 0..n {
                if i > 0 {
                    s.push(',');
                }
                if kind == 1 {
                    s.push_str("\"k");
                    s.push((b'a' + (i % 26) as u8) as char);
                    s.push_str("\":");
                }
                if i == at {
                    s.push_str(hole)
                } else if kind == 5 {
                    s.push_str("{\"a\":[1]}")
                } else {
                    s.push_str(["null", "true", "\"s\"", "-7", "12"][i % 5])
                }
            }
            s.push(if kind == 1 { '}' } else { ']' });
        }
        _ => {
            let open: &[&str] = match kind {
                2 => &["["],
                3 => &["{\"a\":"],
                _ => &["[1,", "{\"x\":\"y\",\"a\":"],
            };
            let close: &[&str] = match kind {
                2 => &["]"],
                3 => &["}"],
                _ => &[",[0]]", ",\"b\":{}}"],
            };
            for i in 0..n {
                s.push_str(open[i % open.len()]);
                if i == at && at != n - 1 {
                    // a sibling
                    if kind == 3 || kind == 4 && i % 2 == 1 {
                        s.push_str("0,\"h\":");
                        s.push_str(hole);
                        s.push_str(",\"i\":");
                    } else {
                        s.push_str(hole);
                        s.push(',');
                    }
                }
            }
            s.push_str(if at == n - 1 { hole } else { "8" });
            for i in (0..n).rev() {
                s.push_str(close[i % close.len()]);
            }
        }
    }
    s
}

/// Long and deep values with one that is any.
fn grand(kind: u64, n: usize, at: usize, some: Plan) -> Plan {
    let mut some = Some(some);
    let leaf = |i: usize| Plan { kind: (i % 6) as u8, kids: Vec::new() };
    if kind < 2 {
        let mut kids = Vec::new();
        for i in 0..n {
            kids.push(if i == at { some.take().unwrap() } else { leaf(i) });
        }
        return Plan { kind: 6 + kind as u8, kids };
    }
    let mut p = if at == n - 1 { some.take().unwrap() } else { leaf(n) };
    for i in (0..n).rev() {
        let map = kind == 3 || kind == 4 && i % 2 == 1;
        let mut kids = Vec::new();
        if kind == 4 {
            kids.push(leaf(i));
        }
        if i == at {
            if let Some(q) = some.take() {
                kids.push(q);
            }
        }
        kids.push(p);
        if kind == 4 {
            kids.push(leaf(i + 3));
        }
        p = Plan { kind: 6 + map as u8, kids };
    }
    p
}

fn written(plan: &Plan) {
    reset(usize::MAX);
    let root = El::new(plan);
    let text = mj::to_string(&root);
    let w = world();
    sym::check(w.alive.len() == 0, "stream not dropped");
    let mut v = Vec::new();
    let mut t = Vec::new();
    let mut ids = 0;
    expect(plan, &mut v, &mut t, &mut ids);
    sym::check(w.calls.len() == v.len(), "number of calls");
    for i in 0..v.len() {
        sym::check(w.calls[i].kind == v[i].0 && w.calls[i].of == v[i].1, "order of calls");
    }
    crate::out::wrote(&text, &t);
    sym::cover(1);
    if v.len() > 6 {
        sym::cover(2);
    }
    sym::log(v.len() as u64);
    close();
}

harness! {
    /// A recording deserializer. params: generator, size or template, 1: a user call fails, what the visitor is
    /// wrapped in (0 nothing, 1 a box, 2 an option, 3 two boxes, 4 a box, an option and a box)
    fn user_de() {
        let s = gen::doc(sym::param(0), sym::param(1), U);
        recorded(s, sym::param(2), sym::param(3));
    }
    /// The same for long and deep documents. params: kind, size, 2: a user call fails, wrapper
    fn user_long() {
        let n = sym::param(1) as usize;
        let at = [0, 1, n / 2, n - 1][sym::pick("position", 4)];
        let hole = gen::fill(HOLES[sym::pick("hole", HOLES.len() as u8)]);
        recorded(big(sym::param(0), n, at, &hole), sym::param(2), sym::param(3));
    }
    /// And for writing. params: kind, size
    fn user_out() {
        let n = sym::param(1) as usize;
        let at = [0, 1, n / 2, n - 1][sym::pick("position", 4)];
        let kind = sym::pick("kind of value", 10) as u8;
        let some = Plan { kind, kids: if kind > 7 { vec![Plan { kind: 2, kids: Vec::new() }, Plan { kind: 15 - kind, kids: Vec::new() }] } else { Vec::new() } };
        let plan = grand(sym::param(0), n, at, some);
        let l0 = sym::live();
        written(&plan);
        sym::check(sym::live() == l0, "memory left behind");
    }
    /// A recording serializer. params: nodes at most, elements at most
    fn user_ser() {
        let l0 = sym::live();
        {
            let mut left = sym::param(0);
            let plan = plan(&mut left, sym::param(1));
            written(&plan);
        }
        sym::check(sym::live() == l0, "memory left behind");
    }
}

// ---- serialization ----

pub const BEGIN: u8 = 20;
pub const NEXT: u8 = 21;

pub struct Plan {
    kind: u8,
    kids: Vec<Plan>,
}
fn plan(left: &mut u64, wide: u64) -> Plan {
    *left -= 1;
    let kind = sym::pick("kind of value", if *left > 0 { 10 } else { 8 }) as u8;
    let mut kids = Vec::new();
    if kind >= 6 {
        while *left > 0 && (kids.len() as u64) < wide && sym::pick("more", 2) == 1 {
            kids.push(plan(left, wide));
        }
    }
    // 6, 8: sequences; 7, 9: maps
    Plan { kind, kids }
}
/// An element that lives in its stream, in a block of its own.
struct El<'p> {
    plan: &'p Plan,
    id: u32,
    name: String,
}
impl<'p> El<'p> {
    fn new(plan: &'p Plan) -> Self {
        let w = world();
        w.built += 1;
        let mut name = String::from("n");
        name.push((b'a' + (w.built % 26) as u8) as char);
        El { plan, id: w.built, name }
    }
}
impl<'p> Drop for El<'p> {
    fn drop(&mut self) {
        self.id = u32::MAX;
    }
}
struct Stream<'a, 'p> {
    el: &'a El<'p>,
    i: usize,
    cur: Option<Box<El<'p>>>,
    key: String,
    ended: bool,
}
impl<'a, 'p> Stream<'a, 'p> {
    fn new(el: &'a El<'p>) -> Self {
        world().alive.push(el.id);
        Stream { el, i: 0, cur: None, key: String::new(), ended: false }
    }
    fn advance(&mut self) -> Option<()> {
        note(NEXT, self.el.id);
        sym::check(!self.ended, "asked again after the end");
        let w = world();
        sym::check(w.alive[w.alive.len() - 1] == self.el.id, "asked while a nested stream is unfinished");
        self.cur = None;
        if self.i == self.el.plan.kids.len() {
            self.ended = true;
            return None;
        }
        self.cur = Some(Box::new(El::new(&self.el.plan.kids[self.i])));
        self.i += 1;
        self.key = String::from("k");
        self.key.push((b'a' + (self.i % 26) as u8) as char);
        Some(())
    }
}
impl<'a, 'p> Drop for Stream<'a, 'p> {
    fn drop(&mut self) {
        match world().alive.pop() {
            Some(i) => sym::check(i == self.el.id, "streams not dropped innermost first"),
            None => sym::fail("stream dropped twice"),
        }
        sym::check(self.ended, "stream dropped before its end");
    }
}
impl<'a, 'p> miniserde::ser::Seq for Stream<'a, 'p> {
    fn next(&mut self) -> Option<&dyn Serialize> {
        self.advance()?;
        self.cur.as_deref().map(|e| e as &dyn Serialize)
    }
}
impl<'a, 'p> miniserde::ser::Map for Stream<'a, 'p> {
    fn next(&mut self) -> Option<(Cow<'_, str>, &dyn Serialize)> {
        self.advance()?;
        let k = if self.i % 2 == 0 { Cow::Borrowed(self.key.as_str()) } else { Cow::Owned(self.key.clone()) };
        self.cur.as_deref().map(|e| (k, e as &dyn Serialize))
    }
}
fn note(kind: u8, of: u32) {
    world().calls.push(Call { kind, of, bits: 0, text: Vec::new() });
}
impl<'p> Serialize for El<'p> {
    fn begin(&self) -> Fragment<'_> {
        sym::check(self.id != u32::MAX, "element used after its stream moved on");
        note(BEGIN, self.id);
        match self.plan.kind {
            0 => Fragment::Null,
            1 => Fragment::Bool(self.id % 2 == 0),
            2 => Fragment::Str(Cow::Borrowed(&self.name)),
            3 => Fragment::Str(Cow::Owned(self.name.clone())),
            4 => Fragment::U64(self.id as u64),
            5 => Fragment::I64(-(self.id as i64)),
            6 | 8 => Fragment::Seq(Box::new(Stream::new(self))),
            _ => Fragment::Map(Box::new(Stream::new(self))),
        }
    }
}
fn expect(p: &Plan, v: &mut Vec<(u8, u32)>, t: &mut Vec<u8>, ids: &mut u32) {
    use crate::model::{digits, quote};
    *ids += 1;
    let id = *ids;
    v.push((BEGIN, id));
    let name = [b'n', b'a' + (id % 26) as u8];
    match p.kind {
        0 => t.extend_from_slice(b"null"),
        1 => t.extend_from_slice(if id % 2 == 0 { b"true" } else { b"false" }),
        2 | 3 => quote(&name, t),
        4 => digits(false, id as u64, t),
        5 => digits(true, id as u64, t),
        k => {
            let map = k == 7 || k == 9;
            t.push(if map { b'{' } else { b'[' });
            for (i, c) in p.kids.iter().enumerate() {
                v.push((NEXT, id));
                if i > 0 {
                    t.push(b',');
                }
                if map {
                    quote(&[b'k', b'a' + ((i + 1) % 26) as u8], t);
                    t.push(b':');
                }
                expect(c, v, t, ids);
            }
            v.push((NEXT, id));
            t.push(if map { b'}' } else { b']' });
        }
    }
}
