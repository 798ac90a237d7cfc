//! User code that panics: C26. Runs in the build with unwinding.
//!
//! Everything user-written below counts its calls; one of them returns an error and one of them panics, at places
//! chosen by the solver's input. Objects live in blocks of their own and are registered while alive.
use crate::{gen, sym};
use miniserde::de::{Deserialize, Map, Seq, Visitor};
use miniserde::ser::{Fragment, Serialize};
use miniserde::{json as mj, make_place, Error, Result};
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::BTreeMap;
#[cfg(feature = "std")]
use std::collections::HashMap;
use std::str::FromStr;

struct World {
    alive: Vec<u32>,
    made: u32,
    /// all user calls, destructors included
    ticks: usize,
    throw_at: usize,
    thrown: bool,
    /// the panic came from a destructor
    dropping: bool,
    /// calls that can return an error
    calls: usize,
    err_at: usize,
    erred: bool,
}
static mut W: World = World { alive: Vec::new(), made: 0, ticks: 0, throw_at: usize::MAX, thrown: false, dropping: false, calls: 0, err_at: usize::MAX, erred: false };
fn w() -> &'static mut World {
    unsafe { &mut *std::ptr::addr_of_mut!(W) }
}
fn reset(throw_at: usize, err_at: usize) {
    *w() = World { alive: Vec::with_capacity(16), made: 0, ticks: 0, throw_at, thrown: false, dropping: false, calls: 0, err_at, erred: false };
}
fn tick() {
    let w = w();
    w.ticks += 1;
    if w.ticks - 1 == w.throw_at {
        w.thrown = true;
        sym::throw()
    }
}
fn call() -> Result<()> {
    tick();
    let w = w();
    w.calls += 1;
    if w.calls - 1 == w.err_at {
        w.erred = true;
        return Err(Error);
    }
    Ok(())
}

/// Something that must be released at most once.
struct Obj(Box<u32>);
impl Obj {
    fn new() -> Self {
        let w = w();
        w.made += 1;
        w.alive.push(w.made);
        Obj(Box::new(w.made))
    }
    fn touch(&self) {
        sym::check(w().alive.contains(&self.0), "used after it was released")
    }
}
impl Drop for Obj {
    fn drop(&mut self) {
        let w = w();
        match w.alive.iter().position(|x| *x == *self.0) {
            Some(i) => {
                w.alive.swap_remove(i);
            }
            None => sym::fail("released twice"),
        }
        if w.ticks == w.throw_at {
            w.dropping = true;
        }
        tick();
    }
}

// ---- deserialization ----

/// A number, or any number of these in an array or object.
pub struct U {
    kids: Vec<U>,
    o: Obj,
}
impl U {
    fn touch(&self) {
        self.o.touch();
        for k in &self.kids {
            k.touch();
        }
    }
}
make_place!(Place);
impl Deserialize for U {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        Place::new(out)
    }
}
impl Visitor for Place<U> {
    fn nonnegative(&mut self, _: u64) -> Result<()> {
        call()?;
        self.out = Some(U { kids: Vec::new(), o: Obj::new() });
        Ok(())
    }
    fn seq(&mut self) -> Result<Box<dyn Seq + '_>> {
        call()?;
        Ok(Box::new(Builder { out: &mut self.out, kids: Vec::new(), element: None, o: Obj::new() }))
    }
    fn map(&mut self) -> Result<Box<dyn Map + '_>> {
        call()?;
        Ok(Box::new(Builder { out: &mut self.out, kids: Vec::new(), element: None, o: Obj::new() }))
    }
}
struct Builder<'a> {
    out: &'a mut Option<U>,
    kids: Vec<U>,
    element: Option<U>,
    o: Obj,
}
impl<'a> Builder<'a> {
    fn shift(&mut self) {
        if let Some(e) = self.element.take() {
            e.touch();
            self.kids.push(e);
        }
    }
    fn done(&mut self) -> Result<()> {
        call()?;
        self.o.touch();
        self.shift();
        *self.out = Some(U { kids: std::mem::take(&mut self.kids), o: Obj::new() });
        Ok(())
    }
}
impl<'a> Seq for Builder<'a> {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        call()?;
        self.shift();
        Ok(U::begin(&mut self.element))
    }
    fn finish(&mut self) -> Result<()> {
        self.done()
    }
}
impl<'a> Map for Builder<'a> {
    fn key(&mut self, _: &str) -> Result<&mut dyn Visitor> {
        call()?;
        self.shift();
        Ok(U::begin(&mut self.element))
    }
    fn finish(&mut self) -> Result<()> {
        self.done()
    }
}
impl<'a> Drop for Builder<'a> {
    /// Looks at what it was to fill in, which belongs to whatever encloses it.
    fn drop(&mut self) {
        self.o.touch();
        if let Some(u) = &*self.out {
            u.touch();
        }
    }
}

/// A key.
pub struct K {
    c: u8,
    o: Obj,
}
impl FromStr for K {
    type Err = Error;
    fn from_str(s: &str) -> Result<K> {
        let o = Obj::new();
        call()?;
        Ok(K { c: s.as_bytes().first().copied().unwrap_or(0), o })
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.o.touch();
        o.o.touch();
        tick();
        self.c == o.c
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        self.o.touch();
        o.o.touch();
        tick();
        self.c.cmp(&o.c)
    }
}
impl std::hash::Hash for K {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {
        tick();
    }
}

trait Touch {
    fn all(&self);
}
impl Touch for U {
    fn all(&self) {
        self.touch()
    }
}
impl<T: Touch + ?Sized> Touch for Box<T> {
    fn all(&self) {
        (**self).all()
    }
}
impl<T: Touch> Touch for Option<T> {
    fn all(&self) {
        if let Some(x) = self {
            x.all()
        }
    }
}
impl<T: Touch> Touch for Vec<T> {
    fn all(&self) {
        for x in self {
            x.all()
        }
    }
}
impl<T: Touch, const N: usize> Touch for [T; N] {
    fn all(&self) {
        for x in self {
            x.all()
        }
    }
}
impl<A: Touch, B: Touch> Touch for (A, B) {
    fn all(&self) {
        self.0.all();
        self.1.all();
    }
}
impl<V: Touch> Touch for BTreeMap<K, V> {
    fn all(&self) {
        for (k, v) in self {
            k.o.touch();
            v.all();
        }
    }
}
#[cfg(feature = "std")]
type Hm<K, V> = HashMap<K, V, crate::model::OneChain>;
#[cfg(feature = "std")]
impl<V: Touch> Touch for Hm<K, V> {
    fn all(&self) {
        for (k, v) in self {
            k.o.touch();
            v.all();
        }
    }
}
#[derive(miniserde::Deserialize)]
pub struct D {
    a: U,
    b: Option<U>,
    c: Option<Vec<U>>,
}
impl Touch for D {
    fn all(&self) {
        self.a.all();
        self.b.all();
        self.c.all();
    }
}

pub const DOCS: &[&[u8]] = &[
    b"[1,2]",
    b"[[1],[2,3]]",
    b"[[[1,2],[3]],[[4],5]]",
    b"{\"a\":1,\"b\":[2]}",
    b"{\"a\":1,\"b\":2,\"a\":[3],\"b\":{\"c\":4}}",
    b"{\"b\":[1,2],\"a\":{\"x\":[3]},\"c\":[4,5],\"c\":[6]}",
    b"[1,[2,[3,[4,?",
    b"{\"a\":{\"b\":{\"c\":[1?",
    b"[[1,2],[3?4],[5]]",
    b"{\"a\":[1,{\"b\":2},3]?",
    b"[{\"a\":1,\"b\":2},{\"a\":[3,4],\"b\":[5]}]",
    b"[{\"a\":[1]},{\"a\":[2],\"?\":[3]}]",
    b"[null,[1,null]]",
    b"[[[1],[2]],[[3],[4?]]]",
    b"{\"a\":[[1,2],[3,4]],\"b\":[[5,6],[7]]}",
];

fn settle(l0: u64) {
    let w = w();
    // a destructor that panics may well leave behind what was to be released after it
    let all = !w.dropping;
    if all {
        sym::check(w.alive.len() == 0, "not released");
    }
    w.alive = Vec::new();
    if all {
        sym::check(sym::live() == l0, "memory left behind");
    }
}

/// Where the error and the panic happen.
fn plan() {
    let t = sym::param(3) as u8;
    let e = sym::param(4) as u8;
    let err = if e == 0 { usize::MAX } else { sym::pick("failing call", e) };
    let throw = if t == 0 { usize::MAX } else { sym::pick("panicking call", t) };
    reset(throw, err);
}
/// Drops the runs in which the panic comes too late: they are all alike.
fn late() -> bool {
    let w = w();
    (w.throw_at != usize::MAX && !w.thrown) || (w.err_at != usize::MAX && !w.erred && !w.thrown)
}

fn parse<T: Deserialize + Touch>(s: &str) {
    let mut ok = 0;
    let thrown = sym::catch(&mut || {
        let r = mj::from_str::<T>(s);
        ok = 1 + r.is_ok() as u64;
        if let Ok(x) = &r {
            x.all();
        }
        drop(r);
        ok += 2;
    });
    sym::check(thrown == w().thrown, "panic lost");
    sym::log(ok);
    if thrown {
        sym::cover(if ok != 0 { 1 } else { 2 });
    } else {
        sym::cover(3);
    }
}

/// Takes anything, looking at it.
struct Any;
impl Touch for Any {
    fn all(&self) {}
}
make_place!(AnyPlace);
impl Deserialize for Any {
    fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
        AnyPlace::new(out)
    }
}
impl Visitor for AnyPlace<Any> {
    fn string(&mut self, _: &str) -> Result<()> {
        call()?;
        self.out = Some(Any);
        Ok(())
    }
    fn nonnegative(&mut self, _: u64) -> Result<()> {
        call()?;
        self.out = Some(Any);
        Ok(())
    }
    fn seq(&mut self) -> Result<Box<dyn Seq + '_>> {
        call()?;
        Ok(Box::new(AnyList { out: &mut self.out, el: None, o: Obj::new() }))
    }
    fn map(&mut self) -> Result<Box<dyn Map + '_>> {
        call()?;
        Ok(Box::new(AnyList { out: &mut self.out, el: None, o: Obj::new() }))
    }
}
struct AnyList<'a> {
    out: &'a mut Option<Any>,
    el: Option<Any>,
    o: Obj,
}
impl<'a> Seq for AnyList<'a> {
    fn element(&mut self) -> Result<&mut dyn Visitor> {
        call()?;
        self.o.touch();
        Ok(Any::begin(&mut self.el))
    }
    fn finish(&mut self) -> Result<()> {
        call()?;
        *self.out = Some(Any);
        Ok(())
    }
}
impl<'a> Map for AnyList<'a> {
    fn key(&mut self, _: &str) -> Result<&mut dyn Visitor> {
        call()?;
        self.o.touch();
        Ok(Any::begin(&mut self.el))
    }
    fn finish(&mut self) -> Result<()> {
        call()?;
        *self.out = Some(Any);
        Ok(())
    }
}
struct Panics;
impl Serialize for Panics {
    fn begin(&self) -> Fragment<'_> {
        tick();
        Fragment::Null
    }
}

fn walk(v: &mut dyn Visitor, b: &[u8], i: &mut usize) -> Result<()> {
    let c = *b.get(*i).ok_or(Error)?;
    *i += 1;
    match c {
        b'[' => {
            let mut s = v.seq()?;
            if b.get(*i) == Some(&b']') {
                *i += 1;
                return s.finish();
            }
            loop {
                walk(s.element()?, b, i)?;
                let c = *b.get(*i).ok_or(Error)?;
                *i += 1;
                if c == b']' {
                    return s.finish();
                }
                if c != b',' {
                    return Err(Error);
                }
            }
        }
        b'{' => {
            let mut m = v.map()?;
            loop {
                // all keys are of one character
                let k = [*b.get(*i + 1).ok_or(Error)?];
                *i += 4;
                walk(m.key(std::str::from_utf8(&k).map_err(|_| Error)?)?, b, i)?;
                let c = *b.get(*i).ok_or(Error)?;
                *i += 1;
                if c == b'}' {
                    return m.finish();
                }
                if c != b',' {
                    return Err(Error);
                }
            }
        }
        b'n' => {
            *i += 3;
            v.null()
        }
        b'0'..=b'9' => v.nonnegative((c - b'0') as u64),
        _ => Err(Error),
    }
}
/// The caller's slot survives the panic, and is filled again.
fn slot<T: Deserialize + Touch>(s: &str) {
    let mut x: Option<T> = None;
    let mut first = false;
    let thrown = sym::catch(&mut || {
        first = walk(T::begin(&mut x), s.as_bytes(), &mut 0).is_ok();
        // once more into the same slot
        let _ = walk(T::begin(&mut x), s.as_bytes(), &mut 0);
    });
    sym::check(thrown == w().thrown, "panic lost");
    x.all();
    w().throw_at = usize::MAX;
    w().err_at = usize::MAX;
    if thrown {
        let again = walk(T::begin(&mut x), s.as_bytes(), &mut 0).is_ok();
        if first {
            sym::check(again && x.is_some(), "slot not usable after a panic");
        }
        x.all();
    }
    sym::log(x.is_some() as u64);
    sym::cover(if thrown { 2 } else { 3 });
    drop(x);
}

macro_rules! kinds {
    ($f:ident, $t:expr, $s:expr) => {
        match $t {
            0 => $f::<U>($s),
            1 => $f::<Vec<U>>($s),
            2 => $f::<[U; 2]>($s),
            3 => $f::<(U, U)>($s),
            4 => $f::<Option<Box<U>>>($s),
            5 => $f::<BTreeMap<K, U>>($s),
            6 => $f::<D>($s),
            7 => $f::<Vec<Vec<U>>>($s),
            8 => $f::<[[U; 2]; 2]>($s),
            9 => $f::<(Vec<U>, Option<[U; 2]>)>($s),
            10 => $f::<Box<Vec<Box<U>>>>($s),
            11 => $f::<Vec<BTreeMap<K, Vec<U>>>>($s),
            12 => $f::<Vec<D>>($s),
            13 => $f::<BTreeMap<K, Box<[U; 2]>>>($s),
            14 => $f::<Vec<Option<U>>>($s),
            15 => $f::<Box<[Box<U>; 2]>>($s),
            16 => $f::<Box<D>>($s),
            17 => $f::<BTreeMap<K, (Box<U>, U)>>($s),
            #[cfg(feature = "std")]
            18 => $f::<Hm<K, U>>($s),
            #[cfg(feature = "std")]
            19 => $f::<Vec<Hm<K, Vec<U>>>>($s),
            _ => $f::<Vec<Vec<Vec<U>>>>($s),
        }
    };
}

harness! {
    /// params: type, document, 0: from_str, 1: a slot filled by hand, how many calls may panic, how many may fail
    fn unw_de() {
        let s = gen::fill(DOCS[sym::param(1) as usize]);
        let l0 = sym::live();
        plan();
        if sym::param(2) == 0 {
            kinds!(parse, sym::param(0), &s)
        } else {
            kinds!(slot, sym::param(0), &s)
        }
        settle(l0);
    }
    /// params: nodes at most, elements at most, -, how many calls may panic
    fn unw_ser() {
        let l0 = sym::live();
        {
            let mut left = sym::param(0);
            let p = tree(&mut left, sym::param(1));
            plan();
            let mut done = 0;
            let thrown = sym::catch(&mut || {
                let root = Node::new(&p);
                let t = mj::to_string(&root);
                done = t.len() as u64;
            });
            sym::check(thrown == w().thrown, "panic lost");
            sym::log(done);
            sym::cover(if !thrown { 3 } else if done == 0 { 2 } else { 1 });
        }
        settle(l0);
    }
    /// A call after one that a panic cut short. params: 0: reading, 1: writing; -; -; how many calls may panic, fail
    fn unw_again() {
        let l0 = sym::live();
        crate::json::set_exact(false);
        plan();
        {
            if sym::param(0) == 0 {
                let s = gen::fill(b"[\"ab\\n\",{\"k\\t\":\"x\\n?\",\"l\":[1,\"\\u00e9\"]},\"y\\n\"]");
                parse::<Any>(&s);
            } else {
                let l = ((vec![String::from("a\n"), gen::run(b'?', 1)], Panics), (Panics, String::from("b\t")));
                let mut t = String::new();
                let thrown = sym::catch(&mut || t = mj::to_string(&l));
                sym::check(thrown == w().thrown, "panic lost");
                sym::cover(if thrown { 2 } else { 3 });
            }
            w().throw_at = usize::MAX;
            w().err_at = usize::MAX;
            let b = gen::fill(b"[\"\\n?\",{\"c?\":[#]}]");
            let r = mj::from_str::<mj::Value>(&b);
            crate::long::value(&b, &r);
            if let Ok(v) = &r {
                let t = mj::to_string(v);
                let mut want = Vec::new();
                crate::model::Model::text(v, &mut want);
                crate::out::wrote(&t, &want);
                sym::cover(4);
            }
            sym::log(r.is_ok() as u64);
            drop(r);
        }
        settle(l0);
    }
    /// Collecting into untyped containers. params: kind, elements, -, how many calls may panic
    fn unw_own() {
        let l0 = sym::live();
        plan();
        let n = sym::param(1);
        let mut arr = mj::Array::new();
        let mut obj = mj::Object::new();
        let thrown = sym::catch(&mut || {
            let it = Source { i: 0, n, o: Obj::new() };
            match sym::param(0) {
                0 => drop(it.collect::<mj::Array>()),
                1 => drop(it.map(|v| (key(&v), v)).collect::<mj::Object>()),
                2 => arr.extend(it),
                3 => obj.extend(it.map(|v| (key(&v), v))),
                4 => {
                    arr.extend(it);
                    arr.retain(|_| {
                        tick();
                        w().ticks % 2 == 0
                    });
                }
                5 => {
                    arr.extend(it);
                    for _ in std::mem::take(&mut arr) {
                        tick();
                    }
                }
                6 => {
                    obj.extend(it.map(|v| (key(&v), v)));
                    for _ in std::mem::take(&mut obj) {
                        tick();
                    }
                }
                7 => {
                    arr.extend(it);
                    for v in &mut arr {
                        tick();
                        *v = mj::Value::String(String::from("new"));
                    }
                }
                _ => {
                    arr.extend(it);
                    arr.sort_by(|a, b| {
                        tick();
                        key(b).cmp(&key(a))
                    });
                }
            }
        });
        sym::check(thrown == w().thrown, "panic lost");
        sym::cover(if thrown { 2 } else { 3 });
        let a = arr.len() + obj.len();
        sym::log(a as u64);
        w().throw_at = usize::MAX;
        drop(arr);
        drop(obj);
        settle(l0);
    }
}

fn key(v: &mj::Value) -> String {
    mj::to_string(v)
}
struct Source {
    i: u64,
    n: u64,
    o: Obj,
}
impl Iterator for Source {
    type Item = mj::Value;
    fn next(&mut self) -> Option<mj::Value> {
        tick();
        self.o.touch();
        if self.i == self.n {
            return None;
        }
        self.i += 1;
        Some(if self.i % 2 == 0 {
            mj::Value::String(String::from(if self.i % 4 == 0 { "x" } else { "y" }))
        } else {
            let mut a = mj::Array::new();
            a.push(mj::Value::String(String::from("z")));
            mj::Value::Array(a)
        })
    }
}

// ---- serialization ----

pub struct Tree {
    kind: u8,
    kids: Vec<Tree>,
}
fn tree(left: &mut u64, wide: u64) -> Tree {
    *left -= 1;
    let kind = if *left > 0 { sym::pick("kind of value", 4) as u8 } else { 3 };
    let mut kids = Vec::new();
    if kind < 3 {
        while *left > 0 && (kids.len() as u64) < wide && (kids.is_empty() || sym::pick("more", 2) == 1) {
            kids.push(tree(left, wide));
        }
    }
    Tree { kind, kids }
}
/// Lives in the stream it is an element of.
struct Node<'p> {
    p: &'p Tree,
    o: Obj,
}
impl<'p> Node<'p> {
    fn new(p: &'p Tree) -> Self {
        Node { p, o: Obj::new() }
    }
}
struct Stream<'a, 'p> {
    of: &'a Node<'p>,
    i: usize,
    cur: Option<Box<Node<'p>>>,
    name: String,
    o: Obj,
}
impl<'a, 'p> Stream<'a, 'p> {
    fn advance(&mut self) -> Option<()> {
        tick();
        self.of.o.touch();
        self.cur = None;
        if self.i == self.of.p.kids.len() {
            return None;
        }
        self.cur = Some(Box::new(Node::new(&self.of.p.kids[self.i])));
        self.i += 1;
        self.name.push('k');
        Some(())
    }
}
impl<'a, 'p> Drop for Stream<'a, 'p> {
    /// Looks at the value it belongs to.
    fn drop(&mut self) {
        self.o.touch();
        self.of.o.touch();
    }
}
impl<'a, 'p> miniserde::ser::Seq for Stream<'a, 'p> {
    fn next(&mut self) -> Option<&dyn Serialize> {
        self.advance()?;
        self.cur.as_deref().map(|e| e as &dyn Serialize)
    }
}
impl<'a, 'p> miniserde::ser::Map for Stream<'a, 'p> {
    fn next(&mut self) -> Option<(Cow<'_, str>, &dyn Serialize)> {
        self.advance()?;
        let k = if self.i % 2 == 0 { Cow::Borrowed(self.name.as_str()) } else { Cow::Owned(self.name.clone()) };
        self.cur.as_deref().map(|e| (k, e as &dyn Serialize))
    }
}
impl<'p> Serialize for Node<'p> {
    fn begin(&self) -> Fragment<'_> {
        tick();
        self.o.touch();
        let s = || Box::new(Stream { of: self, i: 0, cur: None, name: String::new(), o: Obj::new() });
        match self.p.kind {
            0 => Fragment::Seq(s()),
            1 | 2 => Fragment::Map(s()),
            _ => Fragment::U64(7),
        }
    }
}
