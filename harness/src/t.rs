use crate::sym;
use miniserde::json::{self, Value};
harness! {
    fn t_value() {
        let n = sym::param(0) as usize;
        let mut b = [0u8; 16];
        sym::fill("doc", &mut b[..n]);
        for i in 0..n { sym::assume(b[i] < 0x80); }
        let s = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
        let l0 = sym::live();
        if let Ok(v) = json::from_str::<Value>(s) {
            sym::cover(1);
            let o = if sym::param(1) == 1 { json::to_string(&v) } else { String::from("x") };
            sym::check(o.len() > 0, "non-empty");
        }
        sym::check(sym::live() == l0, "leak");
    }
}
