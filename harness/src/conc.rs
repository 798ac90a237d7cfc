//! Calls on two threads at once.
use crate::json::{self, J};
use crate::long::{string, value, FIRST, PLAIN, SECOND};
use crate::model::{quote, Model, Tri};
use crate::{gen, sym};
use miniserde::json as mj;
use miniserde::json::Value;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

/// Something a thread does, with what it needs made beforehand.
struct Work {
    kind: u64,
    text: String,
    val: Option<Value>,
    want: Vec<u8>,
    num: (u8, i64, f64),
}

fn deep(levels: usize, hole: &str, close: bool) -> String {
    let mut s = String::new();
    for i in 0..levels {
        s.push_str(if i % 3 == 1 { "{\"a\\n\":" } else { "[" });
    }
    s.push_str(hole);
    if close {
        for i in (0..levels).rev() {
            s.push(if i % 3 == 1 { '}' } else { ']' });
        }
    }
    s
}

type Typed = BTreeMap<String, Vec<Option<u8>>>;

impl Work {
    fn new(kind: u64, t: u64) -> Work {
        let t = t as usize;
        let mut w = Work { kind, text: String::new(), val: None, want: Vec::new(), num: (0, 0, 0.0) };
        match kind {
            // texts read
            0 | 1 => {
                let all = FIRST.len();
                w.text = gen::fill(if t < all { FIRST[t] } else { SECOND[t - all] });
            }
            2 => w.text = gen::fill([&b"{\"a\\n\":[?,null],\"#\":[]}"[..], b"{\"a\":[1,2,3],\"\\t?\":[7]}", b"{\"b\":[1?,\"b\":[3]}"][t]),
            // nested, complete or not
            3 | 4 => w.text = deep(if t == 0 { 40 } else { 130 }, &gen::fill(b"\"\\n?\""), kind == 3),
            // strings written, as values and as names
            5 | 6 => {
                w.text = gen::fill(PLAIN[t]);
                if kind == 5 {
                    quote(w.text.as_bytes(), &mut w.want);
                } else {
                    w.want.push(b'{');
                    quote(w.text.as_bytes(), &mut w.want);
                    w.want.extend_from_slice(b":[]}");
                }
            }
            // values written, copied, and released
            7 => {
                let v = Value::any(t as u64);
                v.text(&mut w.want);
                w.val = Some(v);
            }
            // numbers written
            _ => {
                w.num = (sym::u8("number"), [-9223372036854775808, -17, 4096][t % 3], [0.1, -1.5e300, 2.0][t % 3]);
                w.want.push(b'[');
                w.num.0.text(&mut w.want);
                w.want.push(b']');
            }
        }
        w
    }
    fn go(&self) {
        let s = &self.text;
        match self.kind {
            0 | 3 | 4 => value(s, &mj::from_str::<Value>(s)),
            1 => string(s, &mj::from_str::<String>(s)),
            2 => match (mj::from_str::<Typed>(s), json::parse(s.as_bytes())) {
                (Ok(v), Some(j)) => {
                    sym::check(<Typed as Model>::accepts(&j) != Tri::No, "accepted a document that does not give this type");
                    v.same(&j);
                }
                (Ok(_), None) => sym::fail("accepted a text that is not JSON"),
                (Err(_), Some(j)) => sym::check(<Typed as Model>::accepts(&j) != Tri::Yes, "refused a document that gives this type"),
                (Err(_), None) => {}
            },
            5 => crate::out::wrote(&mj::to_string(s), &self.want),
            6 => {
                let mut m = BTreeMap::new();
                m.insert(s, [false; 0]);
                crate::out::wrote(&mj::to_string(&m), &self.want)
            }
            7 => {
                let v = self.val.as_ref().unwrap();
                let c = v.clone();
                crate::out::wrote(&mj::to_string(v), &self.want);
                crate::out::wrote(&mj::to_string(&c), &self.want);
            }
            _ => {
                crate::out::wrote(&mj::to_string(&[self.num.0]), &self.want);
                let t = mj::to_string(&(self.num.1, self.num.2));
                match (&json::parse(t.as_bytes()), mj::from_str::<(i64, f64)>(&t)) {
                    (Some(J::Arr(a)), Ok(b)) => {
                        sym::check(a.len() == 2, "number of elements");
                        self.num.1.same(&a[0]);
                        sym::check(b.0 == self.num.1, "integer written");
                        // such as these come back exactly
                        let d = b.1 / self.num.2 - 1.0;
                        sym::check(d < 1e-14 && d > -1e-14, "float written");
                    }
                    _ => sym::fail("the text is not JSON"),
                }
            }
        }
    }
}

static SHARED_COUNT: AtomicU64 = AtomicU64::new(0);
static SHARED_RAN: AtomicU64 = AtomicU64::new(0);
static SHARED_LOCK: Mutex<u64> = Mutex::new(0);

harness! {
    /// params: what the first thread does and on which template, what the second does and on which, 1: after a call of the
    /// first by itself
    fn beside() {
        json::set_exact(false);
        let a = Work::new(sym::param(0), sym::param(1));
        let b = Work::new(sym::param(2), sym::param(3));
        if sym::param(4) == 1 {
            a.go()
        }
        sym::beside(&|| a.go(), &|| b.go());
        sym::cover(9);
    }
    /// Both do the same with the same. params: what, template, 1: after such a call by itself
    fn beside_same() {
        json::set_exact(false);
        let a = Work::new(sym::param(0), sym::param(1));
        if sym::param(2) == 1 {
            a.go()
        }
        sym::beside(&|| a.go(), &|| a.go());
        sym::cover(9);
    }
    /// The engine's interleaving itself: an increment that is not atomic is lost on some path, and one under a
    /// lock never is.
    fn beside_self() {
        let plain = || SHARED_COUNT.store(SHARED_COUNT.load(SeqCst) + 1, SeqCst);
        sym::beside(&plain, &|| {
            SHARED_RAN.fetch_add(1, SeqCst);
            plain()
        });
        let locked = || *SHARED_LOCK.lock().unwrap() += 1;
        sym::beside(&locked, &|| {
            locked();
            SHARED_RAN.fetch_add(16, SeqCst);
        });
        if sym::native() {
            sym::cover(1);
        } else {
            let ran = SHARED_RAN.load(SeqCst);
            sym::check(*SHARED_LOCK.lock().unwrap() == 1 + ran / 16, "the lock does not lock");
            match (ran % 16, SHARED_COUNT.load(SeqCst)) {
                (0, 1) | (1, 2) => sym::cover(1),
                (1, 1) => sym::cover(2),
                _ => sym::fail("neither"),
            }
        }
    }
}
