// Exact comparison of a double with a decimal number; shared by the native replayer and the symbolic engine.

/// Is the double the decimal number (-1)^neg * sig * 10^exp up to a relative error of 1e-15 or one subnormal
/// step, finite, and of that sign? Exact arithmetic on little-endian base 2^32 numbers.
pub fn float_check(bits: u64, neg: bool, sig: u128, exp: i64) -> Option<&'static str> {
    let f = f64::from_bits(bits);
    if f.is_nan() || f.is_infinite() {
        return Some("float is not finite");
    }
    if (bits >> 63 == 1) != neg {
        return Some("float has the wrong sign");
    }
    let f = f64::from_bits(bits & !(1 << 63));
    if sig == 0 {
        return if f == 0.0 { None } else { Some("float should be zero") };
    }
    if exp < -400 {
        return if f <= f64::from_bits(1) { None } else { Some("float is too large") };
    }
    if exp > 400 {
        return Some("float should have been an overflow");
    }
    let b = f.to_bits();
    let (m, e) = if b >> 52 == 0 { (b, -1074i64) } else { ((b & ((1 << 52) - 1)) | 1 << 52, (b >> 52) as i64 - 1075) };
    // compare m * 2^e with sig * 10^exp, both scaled by 10^400 * 2^1074: integers
    let x = mul_pow(big_of(m as u128), e + 1074, 10, 400);
    let y = mul_pow(big_of(sig), 1074, 10, exp + 400);
    let d = diff(&x, &y);
    // |x - y| * 10^15 <= y  or  |x - y| <= 1 subnormal step = 10^400
    let l = mul_pow(d.clone(), 0, 10, 15);
    if cmp(&l, &y) != std::cmp::Ordering::Greater {
        return None;
    }
    let step = mul_pow(big_of(1), 0, 10, 400);
    if cmp(&d, &step) != std::cmp::Ordering::Greater {
        return None;
    }
    Some("float is not the literal's value")
}

/// Is sig * 10^exp at least the largest double, up to a relative error of 1e-15?
pub fn over_check(sig: u128, exp: i64) -> Option<&'static str> {
    if sig != 0 && exp > 400 {
        return None;
    }
    if sig == 0 || exp < -400 {
        return Some("literal does not exceed the double range");
    }
    let max = mul_pow(big_of((1 << 53) - 1), 971, 10, 400);
    let y = mul_pow(big_of(sig), 0, 10, exp + 400 + 15);
    let mut l = mul_pow(max.clone(), 0, 10, 15);
    l = diff(&l, &max);
    if cmp(&y, &l) == std::cmp::Ordering::Less {
        return Some("literal does not exceed the double range");
    }
    None
}

pub type Big = Vec<u32>;
pub fn big_of(mut v: u128) -> Big {
    let mut b = Vec::new();
    while v > 0 {
        b.push(v as u32);
        v >>= 32;
    }
    b
}
pub fn mul_small(b: &mut Big, k: u32) {
    let mut c = 0u64;
    for d in b.iter_mut() {
        let t = *d as u64 * k as u64 + c;
        *d = t as u32;
        c = t >> 32;
    }
    if c > 0 {
        b.push(c as u32);
    }
}
pub fn mul_pow(mut b: Big, two: i64, k: u32, n: i64) -> Big {
    for _ in 0..two / 16 {
        mul_small(&mut b, 1 << 16);
    }
    for _ in 0..two % 16 {
        mul_small(&mut b, 2);
    }
    for _ in 0..n {
        mul_small(&mut b, k);
    }
    b
}
pub fn cmp(a: &Big, b: &Big) -> std::cmp::Ordering {
    let t = |x: &Big| x.iter().rposition(|&d| d != 0).map_or(0, |p| p + 1);
    let (n, m) = (t(a), t(b));
    if n != m {
        return n.cmp(&m);
    }
    for i in (0..n).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    std::cmp::Ordering::Equal
}
pub fn diff(a: &Big, b: &Big) -> Big {
    let (x, y) = if cmp(a, b) == std::cmp::Ordering::Less { (b, a) } else { (a, b) };
    let mut r = Vec::new();
    let mut c = 0i64;
    for i in 0..x.len() {
        let mut t = x[i] as i64 - c - *y.get(i).unwrap_or(&0) as i64;
        c = 0;
        if t < 0 {
            t += 1 << 32;
            c = 1;
        }
        r.push(t as u32);
    }
    r
}
pub fn big_mul(a: &Big, b: &Big) -> Big {
    let mut r = vec![0u32; a.len() + b.len() + 1];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        let mut k = i + b.len();
        while c > 0 {
            let t = r[k] as u64 + c;
            r[k] = t as u32;
            c = t >> 32;
            k += 1;
        }
    }
    while r.last() == Some(&0) {
        r.pop();
    }
    r
}
pub fn big_dec(b: &Big) -> String {
    let mut b = b.clone();
    let mut s = Vec::new();
    loop {
        while b.last() == Some(&0) {
            b.pop();
        }
        if b.is_empty() {
            break;
        }
        let mut c = 0u64;
        for d in b.iter_mut().rev() {
            let t = c << 32 | *d as u64;
            *d = (t / 1_000_000_000) as u32;
            c = t % 1_000_000_000;
        }
        s.push(c);
    }
    match s.pop() {
        None => "0".into(),
        Some(h) => {
            let mut o = h.to_string();
            for x in s.iter().rev() {
                o.push_str(&format!("{:09}", x));
            }
            o
        }
    }
}
