//! Histories of untyped containers: C19.
use crate::sym;
use miniserde::json as mj;
use miniserde::json::{Array, Number, Object, Value};

/// A value that owns memory (mostly) and carries a number.
fn child(id: u64) -> Value {
    match id % 5 {
        0 => Value::Number(Number::U64(id)),
        1 => Value::String(name(id)),
        2 => {
            let mut a = Array::new();
            a.push(Value::Null);
            a.push(Value::String(name(id)));
            Value::Array(a)
        }
        3 => {
            let mut o = Object::new();
            o.insert(name(id), Value::Bool(true));
            o.insert(String::from("a"), Value::Array(Array::new()));
            Value::Object(o)
        }
        _ => {
            let mut o = Object::new();
            o.insert(String::from("z"), Value::String(name(id)));
            let mut a = Array::new();
            a.push(Value::Object(o));
            Value::Array(a)
        }
    }
}
fn name(id: u64) -> String {
    let mut s = String::from("n");
    let mut k = id;
    loop {
        s.push((b'a' + (k % 26) as u8) as char);
        k /= 26;
        if k == 0 {
            return s;
        }
    }
}
fn is(v: &Value, id: u64) {
    let ok = match (v, id % 5) {
        (Value::Number(Number::U64(n)), 0) => *n == id,
        (Value::String(s), 1) => s.as_bytes() == name(id).as_bytes(),
        (Value::Array(a), 2) => a.len() == 2 && matches!(a[0], Value::Null) && matches!(&a[1], Value::String(s) if s.as_bytes() == name(id).as_bytes()),
        (Value::Object(o), 3) => o.len() == 2 && matches!(o.get(&name(id)), Some(Value::Bool(true))) && matches!(o.get("a"), Some(Value::Array(a)) if a.is_empty()),
        (Value::Array(a), 4) => a.len() == 1 && matches!(&a[0], Value::Object(o) if o.len() == 1 && matches!(o.get("z"), Some(Value::String(s)) if s.as_bytes() == name(id).as_bytes())),
        _ => false,
    };
    sym::check(ok, "another child, or a damaged one");
}

struct Ids(u64);
impl Ids {
    fn next(&mut self) -> u64 {
        self.0 += 1;
        self.0
    }
}

fn agree(a: &Array, w: &[u64]) {
    sym::check(a.len() == w.len(), "number of elements");
    let mut i = 0;
    for v in a {
        is(v, w[i]);
        i += 1;
    }
    sym::check(i == w.len(), "elements iterated over");
    if !w.is_empty() {
        is(&a[w.len() - 1], w[w.len() - 1]);
    }
}
fn made(n: usize, ids: &mut Ids) -> (Array, Vec<u64>) {
    let mut a = Array::new();
    let mut w = Vec::new();
    for _ in 0..n {
        let i = ids.next();
        a.push(child(i));
        w.push(i);
    }
    (a, w)
}

const AOPS: u8 = 22;
fn array_op(op: usize, a: &mut Array, w: &mut Vec<u64>, ids: &mut Ids) {
    match op {
        0 => {
            let i = ids.next();
            a.push(child(i));
            w.push(i);
        }
        1 => match (a.pop(), w.pop()) {
            (Some(v), Some(i)) => is(&v, i),
            (None, None) => {}
            _ => sym::fail("pop"),
        },
        2 => {
            let i = ids.next();
            let at = w.len() / 2;
            a.insert(at, child(i));
            w.insert(at, i);
        }
        3 => {
            if !w.is_empty() {
                let v = a.remove(0);
                is(&v, w.remove(0));
            }
        }
        4 => {
            // a clone, which replaces the original
            let c = a.clone();
            agree(&c, w);
            agree(a, w);
            *a = c;
        }
        5 => {
            // a clone that is changed leaves the original alone
            let mut c = a.clone();
            for v in &mut c {
                match v {
                    Value::Array(a) => a.clear(),
                    Value::Object(o) => {
                        o.insert(String::from("new"), Value::Null);
                    }
                    Value::String(s) => s.push('!'),
                    v => *v = Value::Null,
                }
            }
            c.push(Value::Null);
        }
        6 => {
            // clone_from into a longer or a shorter array
            let n = sym::pick("length", 4);
            let (mut c, _) = made(n, ids);
            c.clone_from(a);
            agree(&c, w);
            agree(a, w);
            std::mem::swap(a, &mut c);
        }
        7 => {
            for (v, i) in (&mut *a).into_iter().zip(w.iter_mut()) {
                is(v, *i);
                *i = ids.next();
                *v = child(*i);
            }
        }
        8 => {
            // by value, some of them
            let n = sym::pick("taken", 4);
            let old = std::mem::take(a);
            let mut it = old.into_iter();
            for i in 0..n {
                match it.next() {
                    Some(v) => {
                        sym::check(i < w.len(), "too many");
                        is(&v, w[i]);
                        a.push(v);
                    }
                    None => sym::check(i >= w.len(), "too few"),
                }
            }
            w.truncate(n);
        }
        9 => {
            // by value from the back, the rest collected
            let old = std::mem::replace(a, Array::new());
            let mut it = old.into_iter();
            if let Some(v) = it.next_back() {
                is(&v, w[w.len() - 1]);
                w.pop();
            }
            *a = it.collect();
        }
        10 => {
            if !w.is_empty() {
                let i = ids.next();
                let k = w.len() - 1;
                a[k] = child(i);
                w[k] = i;
            }
        }
        11 => {
            a.truncate(1);
            w.truncate(1);
        }
        12 => {
            a.clear();
            w.clear();
        }
        13 => {
            *a = Array::default();
            w.clear();
        }
        14 => {
            let v = Value::Array(std::mem::take(a));
            if let Value::Array(b) = v.clone() {
                agree(&b, w);
            }
            match v {
                Value::Array(b) => *a = b,
                _ => sym::fail("kind"),
            }
        }
        15 => {
            let (mut b, mut x) = made(2, ids);
            a.append(&mut b);
            w.append(&mut x);
            agree(&b, &x);
        }
        16 => {
            let (b, x) = made(2, ids);
            a.extend(b);
            w.extend(x);
        }
        17 => {
            let n = w.len().min(2);
            {
                let mut d = a.drain(..n);
                if let Some(v) = d.next() {
                    is(&v, w[0]);
                }
            }
            w.drain(..n);
        }
        18 => {
            if w.len() >= 2 {
                let v = a.swap_remove(0);
                is(&v, w.swap_remove(0));
                a.swap(0, w.len() - 1);
                let k = w.len() - 1;
                w.swap(0, k);
            }
        }
        19 => {
            let r = mj::from_str::<Array>(&mj::to_string(a));
            match r {
                Ok(b) => *a = b,
                Err(_) => sym::fail("read back"),
            }
        }
        20 => {
            let mut v = Value::Array(std::mem::take(a));
            let t = std::mem::take(&mut v);
            sym::check(matches!(v, Value::Null), "default");
            match t {
                Value::Array(b) => *a = b,
                _ => sym::fail("kind"),
            }
        }
        _ => {
            let mut k = 0;
            a.retain(|_| {
                k += 1;
                k % 2 == 1
            });
            let mut k = 0;
            w.retain(|_| {
                k += 1;
                k % 2 == 1
            });
        }
    }
}

/// What the object holds, by key.
type W = Vec<(u8, u64)>;
fn key(k: u8) -> String {
    let mut s = String::from("key ");
    s.push((b'a' + k) as char);
    s
}
fn put(w: &mut W, k: u8, i: u64) -> Option<u64> {
    let mut at = 0;
    while at < w.len() && w[at].0 < k {
        at += 1;
    }
    if at < w.len() && w[at].0 == k {
        let old = w[at].1;
        w[at].1 = i;
        return Some(old);
    }
    w.insert(at, (k, i));
    None
}
fn agree_obj(o: &Object, w: &W) {
    sym::check(o.len() == w.len(), "number of members");
    let mut i = 0;
    for (k, v) in o {
        sym::check(k.as_bytes() == key(w[i].0).as_bytes(), "order of members");
        is(v, w[i].1);
        i += 1;
    }
    sym::check(i == w.len(), "members iterated over");
    if i > 0 {
        match o.get(&key(w[i / 2].0)) {
            Some(v) => is(v, w[i / 2].1),
            None => sym::fail("lookup"),
        }
    }
}
fn same(a: Option<Value>, b: Option<u64>) {
    match (a, b) {
        (Some(v), Some(i)) => is(&v, i),
        (None, None) => {}
        _ => sym::fail("previous member"),
    }
}
const OOPS: u8 = 18;
fn object_op(op: usize, o: &mut Object, w: &mut W, ids: &mut Ids) {
    match op {
        0 => {
            let k = sym::pick("key", 4) as u8;
            let i = ids.next();
            same(o.insert(key(k), child(i)), put(w, k, i));
        }
        1 => {
            let k = sym::pick("key", 4) as u8;
            let was = w.iter().position(|e| e.0 == k).map(|p| w.remove(p).1);
            same(o.remove(&key(k)), was);
        }
        2 => {
            let c = o.clone();
            agree_obj(&c, w);
            agree_obj(o, w);
            *o = c;
        }
        3 => {
            let mut c = o.clone();
            for (_, v) in &mut c {
                match v {
                    Value::Array(a) => a.clear(),
                    Value::Object(o) => {
                        o.insert(String::from("new"), Value::Null);
                    }
                    Value::String(s) => s.push('!'),
                    v => *v = Value::Null,
                }
            }
            c.insert(String::from("new"), Value::Null);
        }
        4 => {
            let mut c = Object::new();
            c.insert(key(9), child(ids.next()));
            c.clone_from(o);
            agree_obj(&c, w);
            agree_obj(o, w);
            std::mem::swap(o, &mut c);
        }
        5 => {
            for ((k, v), e) in (&mut *o).into_iter().zip(w.iter_mut()) {
                sym::check(k.as_bytes() == key(e.0).as_bytes(), "order of members");
                is(v, e.1);
                e.1 = ids.next();
                *v = child(e.1);
            }
        }
        6 => {
            let n = sym::pick("taken", 4);
            let old = std::mem::take(o);
            let mut it = old.into_iter();
            for i in 0..n {
                match it.next() {
                    Some((k, v)) => {
                        sym::check(i < w.len(), "too many");
                        sym::check(k.as_bytes() == key(w[i].0).as_bytes(), "order of members");
                        is(&v, w[i].1);
                        o.insert(k, v);
                    }
                    None => sym::check(i >= w.len(), "too few"),
                }
            }
            w.truncate(n);
        }
        7 => {
            let old = std::mem::replace(o, Object::new());
            let mut it = old.into_iter();
            if let Some((_, v)) = it.next_back() {
                is(&v, w[w.len() - 1].1);
                w.pop();
            }
            *o = it.collect();
        }
        8 => {
            // the last of several with one key
            let a = ids.next();
            let b = ids.next();
            let c = ids.next();
            *o = [(key(2), child(a)), (key(0), child(b)), (key(2), child(c))].into_iter().collect();
            w.clear();
            w.push((0, b));
            w.push((2, c));
        }
        9 => {
            o.clear();
            w.clear();
        }
        10 => {
            *o = Object::default();
            w.clear();
        }
        11 => {
            let v = Value::Object(std::mem::take(o));
            if let Value::Object(b) = v.clone() {
                agree_obj(&b, w);
            }
            match v {
                Value::Object(b) => *o = b,
                _ => sym::fail("kind"),
            }
        }
        12 => {
            if !w.is_empty() {
                let at = w.len() - 1;
                match o.get_mut(&key(w[at].0)) {
                    Some(v) => {
                        is(v, w[at].1);
                        w[at].1 = ids.next();
                        *v = child(w[at].1);
                    }
                    None => sym::fail("lookup"),
                }
            }
        }
        13 => {
            let mut c = Object::new();
            for k in [1, 3] {
                let i = ids.next();
                c.insert(key(k), child(i));
                put(w, k, i);
            }
            if sym::flag("append") {
                o.append(&mut c);
            } else {
                o.extend(c);
            }
        }
        14 => {
            let i = ids.next();
            let k = 1;
            match w.iter().position(|e| e.0 == k) {
                Some(p) => is(o.entry(key(k)).or_insert(child(i)), w[p].1),
                None => {
                    is(o.entry(key(k)).or_insert(child(i)), i);
                    put(w, k, i);
                }
            }
        }
        15 => match mj::from_str::<Object>(&mj::to_string(o)) {
            Ok(b) => *o = b,
            Err(_) => sym::fail("read back"),
        },
        16 => {
            let mut n = 0;
            o.retain(|_, _| {
                n += 1;
                n % 2 == 1
            });
            let mut n = 0;
            w.retain(|_| {
                n += 1;
                n % 2 == 1
            });
        }
        _ => {
            let mut v = Value::Object(std::mem::take(o));
            match std::mem::take(&mut v) {
                Value::Object(b) => *o = b,
                _ => sym::fail("kind"),
            }
            sym::check(matches!(v, Value::Null), "default");
        }
    }
}

fn equal(a: &Value, b: &Value, msg: &'static str) {
    let ok = match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(a), Value::Bool(b)) => a == b,
        (Value::Number(Number::U64(a)), Value::Number(Number::U64(b))) => a == b,
        (Value::Number(Number::I64(a)), Value::Number(Number::I64(b))) => a == b,
        (Value::Number(Number::F64(a)), Value::Number(Number::F64(b))) => a.to_bits() == b.to_bits(),
        (Value::String(a), Value::String(b)) => crate::json::bytes_eq(a.as_bytes(), b.as_bytes()),
        (Value::Array(a), Value::Array(b)) => {
            sym::check(a.len() == b.len(), msg);
            for i in 0..a.len() {
                equal(&a[i], &b[i], msg);
            }
            true
        }
        (Value::Object(a), Value::Object(b)) => {
            sym::check(a.len() == b.len(), msg);
            for ((k, v), (l, w)) in a.iter().zip(b.iter()) {
                sym::check(crate::json::bytes_eq(k.as_bytes(), l.as_bytes()), msg);
                equal(v, w, msg);
            }
            true
        }
        _ => false,
    };
    sym::check(ok, msg);
}

harness! {
    /// params: operations, elements at first
    fn own_array() {
        let l0 = sym::live();
        {
            let mut ids = Ids(sym::param(2));
            let (mut a, mut w) = made(sym::param(1) as usize, &mut ids);
            for _ in 0..sym::param(0) {
                array_op(sym::pick("operation", AOPS), &mut a, &mut w, &mut ids);
                agree(&a, &w);
            }
            sym::log(w.len() as u64);
            if w.len() > 2 { sym::cover(2); }
            drop(a);
            sym::cover(1);
        }
        sym::check(sym::live() == l0, "a child was not released");
    }
    /// params: operations, members at first
    fn own_object() {
        let l0 = sym::live();
        {
            let mut ids = Ids(sym::param(2));
            let mut o = Object::new();
            let mut w = W::new();
            for k in 0..sym::param(1) {
                let i = ids.next();
                o.insert(key(k as u8), child(i));
                w.push((k as u8, i));
            }
            for _ in 0..sym::param(0) {
                object_op(sym::pick("operation", OOPS), &mut o, &mut w, &mut ids);
                agree_obj(&o, &w);
            }
            sym::log(w.len() as u64);
            if w.len() > 2 { sym::cover(2); }
            drop(o);
            sym::cover(1);
        }
        sym::check(sym::live() == l0, "a child was not released");
    }
    /// A clone of any of the values a document gives is that value, and stands alone. params: generator, size
    fn own_clone() {
        let s = crate::gen::doc(sym::param(0), sym::param(1), crate::docs::T);
        let l0 = sym::live();
        let (v, t) = (mj::from_str::<Value>(&s), mj::from_str::<Value>(&s));
        if let (Ok(v), Ok(t)) = (v, t) {
            equal(&t, &v, "read twice");
            let c = v.clone();
            equal(&t, &c, "clone");
            let mut d = Value::Array(Array::new());
            d.clone_from(&c);
            drop(c);
            equal(&t, &v, "original after its clone was dropped");
            drop(v);
            equal(&t, &d, "clone after the original was dropped");
            sym::cover(1);
        }
        sym::check(sym::live() == l0, "a child was not released");
    }
    /// Every child taken from a container of many, by value. params: elements, 0 array, 1 object; taken: any number
    fn own_many() {
        let l0 = sym::live();
        {
            let n = sym::param(0) as usize;
            let mut ids = Ids(0);
            let take = sym::pick("taken", n as u8 + 1);
            if sym::param(1) == 0 {
                let (a, w) = made(n, &mut ids);
                let mut it = a.into_iter();
                for i in 0..take {
                    match it.next() {
                        Some(v) => is(&v, w[i]),
                        None => sym::fail("too few"),
                    }
                }
                sym::check(it.len() == n - take, "what is left");
            } else {
                let mut o = Object::new();
                let mut w = W::new();
                for k in 0..n {
                    let i = ids.next();
                    o.insert(key(k as u8), child(i));
                    w.push((k as u8, i));
                }
                let mut it = o.into_iter();
                for i in 0..take {
                    match it.next() {
                        Some((k, v)) => {
                            sym::check(k.as_bytes() == key(w[i].0).as_bytes(), "order of members");
                            is(&v, w[i].1)
                        }
                        None => sym::fail("too few"),
                    }
                }
            }
            sym::cover(1);
        }
        sym::check(sym::live() == l0, "a child was not released");
    }
}
