//! Hash-consed bit-vector expressions (widths 1..=128) with light simplification.
//! Floating point values are carried as their bit patterns; FP operators are nodes of their own.

use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var, // 8-bit input byte; a = variable id
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Concat,  // a = high, b = low
    Extract, // a, lo = b, width = w
    ZExt,
    SExt,
    Ite,
    // floating point, operands are bit patterns of width 32 or 64
    FAdd,
    FSub,
    FMul,
    FDiv,
    FLt,
    FLe,
    FEq,
    FIsNan,
    FExt,   // f32 -> f64
    FTrunc, // f64 -> f32
    UToF,
    SToF,
    FToU, // rounds towards zero; only for in-range values
    FToS,
}

/// Variables from here on stand for uninitialised bytes.
pub const UNDEF0: u32 = 1 << 20;

pub const NSUP: usize = 4;
pub type Sup = [u64; NSUP];

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    /// depends on uninitialised data
    pub und: bool,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub sup: Sup,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub consts: Vec<u128>,
    cmap: HashMap<(u16, u128), E>,
    map: HashMap<(Op, u16, u32, u32, u32), E, BuildFx>,
    // memo for evaluation under a model
    ev_gen: Vec<u32>,
    ev_val: Vec<u128>,
    gen: u32,
}

#[derive(Clone, Default)]
pub struct BuildFx;
pub struct Fx(u64);
impl std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.write_u64(b as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}

static mut CTX: *mut Ctx = std::ptr::null_mut();

pub fn init() {
    let c = Box::new(Ctx {
        nodes: Vec::new(),
        consts: Vec::new(),
        cmap: HashMap::new(),
        map: HashMap::default(),
        ev_gen: Vec::new(),
        ev_val: Vec::new(),
        gen: 0,
    });
    unsafe { CTX = Box::into_raw(c) }
    // ids 0 and 1 are reserved as memory markers
    konst(1, 0);
    konst(1, 1);
}

#[inline]
pub fn ctx() -> &'static mut Ctx {
    unsafe { &mut *CTX }
}

#[inline]
pub fn node(e: E) -> Node {
    ctx().nodes[e as usize]
}
#[inline]
pub fn width(e: E) -> u32 {
    ctx().nodes[e as usize].w as u32
}
#[inline]
pub fn sup(e: E) -> &'static Sup {
    &ctx().nodes[e as usize].sup
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn konst(w: u32, v: u128) -> E {
    let v = v & mask(w);
    let c = ctx();
    if let Some(&e) = c.cmap.get(&(w as u16, v)) {
        return e;
    }
    let id = c.nodes.len() as E;
    c.consts.push(v);
    c.nodes.push(Node { op: Op::Const, und: false, w: w as u16, a: (c.consts.len() - 1) as u32, b: 0, c: 0, sup: [0; NSUP] });
    c.cmap.insert((w as u16, v), id);
    id
}
pub fn as_const(e: E) -> Option<u128> {
    let c = ctx();
    let n = &c.nodes[e as usize];
    if n.op == Op::Const {
        Some(c.consts[n.a as usize])
    } else {
        None
    }
}
pub fn tru() -> E {
    konst(1, 1)
}
pub fn fls() -> E {
    konst(1, 0)
}

fn intern(op: Op, w: u32, a: u32, b: u32, cc: u32) -> E {
    let c = ctx();
    let key = (op, w as u16, a, b, cc);
    if let Some(&e) = c.map.get(&key) {
        return e;
    }
    let mut s: Sup = [0; NSUP];
    let und;
    match op {
        Op::Var => {
            und = a >= UNDEF0;
            let id = a as usize % (64 * NSUP);
            s[id / 64] |= 1 << (id % 64);
        }
        Op::Extract | Op::ZExt | Op::SExt | Op::FIsNan | Op::FExt | Op::FTrunc | Op::UToF | Op::SToF | Op::FToU | Op::FToS => {
            s = c.nodes[a as usize].sup;
            und = c.nodes[a as usize].und;
        }
        Op::Ite => {
            und = c.nodes[a as usize].und || c.nodes[b as usize].und || c.nodes[cc as usize].und;
            for i in 0..NSUP {
                s[i] = c.nodes[a as usize].sup[i] | c.nodes[b as usize].sup[i] | c.nodes[cc as usize].sup[i];
            }
        }
        _ => {
            und = c.nodes[a as usize].und || c.nodes[b as usize].und;
            for i in 0..NSUP {
                s[i] = c.nodes[a as usize].sup[i] | c.nodes[b as usize].sup[i];
            }
        }
    }
    let id = c.nodes.len() as E;
    c.nodes.push(Node { op, und, w: w as u16, a, b, c: cc, sup: s });
    c.map.insert(key, id);
    id
}

pub fn var(id: u32) -> E {
    intern(Op::Var, 8, id, 0, 0)
}

fn fold2(op: Op, w: u32, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                return None;
            }
            x / y
        }
        Op::URem => {
            if y == 0 {
                return None;
            }
            x % y
        }
        Op::SDiv => {
            if y == 0 {
                return None;
            }
            (sext(x, w).wrapping_div(sext(y, w)) as u128) & m
        }
        Op::SRem => {
            if y == 0 {
                return None;
            }
            (sext(x, w).wrapping_rem(sext(y, w)) as u128) & m
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w - 1 } else { y as u32 };
            ((sext(x, w) >> s) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Slt => (sext(x, w) < sext(y, w)) as u128,
        _ => return None,
    })
}

pub fn fop(op: Op, w: u32, x: u128, y: u128) -> u128 {
    if w == 64 {
        let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        (match op {
            Op::FAdd => (a + b).to_bits(),
            Op::FSub => (a - b).to_bits(),
            Op::FMul => (a * b).to_bits(),
            Op::FDiv => (a / b).to_bits(),
            Op::FLt => (a < b) as u64,
            Op::FLe => (a <= b) as u64,
            Op::FEq => (a == b) as u64,
            Op::FIsNan => a.is_nan() as u64,
            _ => unreachable!(),
        }) as u128
    } else {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        (match op {
            Op::FAdd => (a + b).to_bits(),
            Op::FSub => (a - b).to_bits(),
            Op::FMul => (a * b).to_bits(),
            Op::FDiv => (a / b).to_bits(),
            Op::FLt => (a < b) as u32,
            Op::FLe => (a <= b) as u32,
            Op::FEq => (a == b) as u32,
            Op::FIsNan => a.is_nan() as u32,
            _ => unreachable!(),
        }) as u128
    }
}

fn is_bool_op(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Slt | Op::FLt | Op::FLe | Op::FEq | Op::FIsNan)
}

pub fn not(e: E) -> E {
    bin(Op::Xor, e, konst(width(e), mask(width(e))))
}

/// Is `e` an Ite tree whose leaves are all constants (up to a depth)?
fn const_ite(e: E, d: u32) -> bool {
    let n = node(e);
    match n.op {
        Op::Const => true,
        Op::Ite if d > 0 => const_ite(n.b, d - 1) && const_ite(n.c, d - 1),
        _ => false,
    }
}

fn map_ite(e: E, f: &dyn Fn(E) -> E) -> E {
    let n = node(e);
    if n.op == Op::Ite {
        let t = map_ite(n.b, f);
        let l = map_ite(n.c, f);
        ite(n.a, t, l)
    } else {
        f(e)
    }
}

const ITE_DEPTH: u32 = 400;

/// Largest value `e` can take by its shape alone.
pub fn umax(e: E) -> u128 {
    let n = node(e);
    let m = mask(n.w as u32);
    match n.op {
        Op::Const => as_const(e).unwrap(),
        Op::ZExt => umax(n.a),
        Op::Concat => {
            let lw = width(n.b);
            (umax(n.a) << lw) | umax(n.b)
        }
        Op::And => umax(n.a).min(umax(n.b)),
        Op::Ite => {
            let mut x = umax(n.b);
            let c = node(n.c);
            if c.op == Op::Ite {
                return m;
            }
            x = x.max(umax(n.c));
            x
        }
        Op::URem => match as_const(n.b) {
            Some(k) if k > 0 => k - 1,
            _ => m,
        },
        Op::UDiv => match as_const(n.b) {
            Some(k) if k > 0 => umax(n.a) / k,
            _ => m,
        },
        Op::Add => {
            let s = umax(n.a).checked_add(umax(n.b));
            match s {
                Some(s) if s <= m => s,
                _ => m,
            }
        }
        Op::Mul => {
            let s = umax(n.a).checked_mul(umax(n.b));
            match s {
                Some(s) if s <= m => s,
                _ => m,
            }
        }
        _ => m,
    }
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b), "{:?} {} {}", op, show(a), show(b));
    let rw = if is_bool_op(op) { 1 } else { w };
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        if matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FLt | Op::FLe | Op::FEq) {
            return konst(rw, fop(op, w, x, y));
        }
        if let Some(v) = fold2(op, w, x, y) {
            return konst(rw, v);
        }
    }
    let (mut a, mut b) = (a, b);
    let (mut ca, mut cb) = (ca, cb);
    let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
    if comm && (ca.is_some() || (cb.is_none() && a > b)) {
        std::mem::swap(&mut a, &mut b);
        std::mem::swap(&mut ca, &mut cb);
    }
    // push into constant Ite trees
    if cb.is_some() && node(a).op == Op::Ite && const_ite(a, ITE_DEPTH) {
        return map_ite(a, &|x| bin(op, x, b));
    }
    if ca.is_some() && node(b).op == Op::Ite && const_ite(b, ITE_DEPTH) {
        return map_ite(b, &|x| bin(op, a, x));
    }
    let na = node(a);
    let nb = node(b);
    let m = mask(w);
    if w == 64 && matches!(op, Op::FLt | Op::FLe | Op::FEq) {
        if let (Some((al, ah)), Some((bl, bh))) = (frange(a, 12), frange(b, 12)) {
            let r = match op {
                Op::FLt if ah < bl => Some(true),
                Op::FLt if al >= bh => Some(false),
                Op::FLe if ah <= bl => Some(true),
                Op::FLe if al > bh => Some(false),
                Op::FEq if ah < bl || bh < al => Some(false),
                _ => None,
            };
            if let Some(r) = r {
                return if r { tru() } else { fls() };
            }
        }
    }
    match op {
        Op::Add => {
            if cb == Some(0) {
                return a;
            }
            if let Some(k) = cb {
                if na.op == Op::Add {
                    if let Some(k2) = as_const(na.b) {
                        return bin(Op::Add, na.a, konst(w, k.wrapping_add(k2)));
                    }
                }
            }
            // keep constants outermost
            if na.op == Op::Add && as_const(na.b).is_some() {
                return bin(Op::Add, bin(Op::Add, na.a, b), na.b);
            }
            if nb.op == Op::Add && as_const(nb.b).is_some() {
                return bin(Op::Add, bin(Op::Add, a, nb.a), nb.b);
            }
        }
        Op::Sub => {
            if a == b {
                return konst(w, 0);
            }
            if let Some(k) = cb {
                return bin(Op::Add, a, konst(w, (0u128).wrapping_sub(k)));
            }
            if nb.op == Op::Add && nb.a == a {
                return bin(Op::Sub, konst(w, 0), nb.b);
            }
            if nb.op == Op::Sub && as_const(nb.a) == Some(0) {
                return bin(Op::Add, a, nb.b);
            }
            if na.op == Op::Add && na.a == b {
                return na.b;
            }
        }
        Op::Mul => {
            if let Some(k) = cb {
                if k == 0 {
                    return b;
                }
                if k == 1 {
                    return a;
                }
                if k.is_power_of_two() {
                    return bin(Op::Shl, a, konst(w, k.trailing_zeros() as u128));
                }
            }
        }
        Op::UDiv => {
            if let Some(k) = cb {
                if k == 1 {
                    return a;
                }
                if k.is_power_of_two() {
                    return bin(Op::LShr, a, konst(w, k.trailing_zeros() as u128));
                }
                if k > 0 && umax(a) < k {
                    return konst(w, 0);
                }
            }
        }
        Op::URem => {
            if let Some(k) = cb {
                if k.is_power_of_two() {
                    return bin(Op::And, a, konst(w, k - 1));
                }
                if k > 0 && umax(a) < k {
                    return a;
                }
            }
        }
        Op::And => {
            if a == b {
                return a;
            }
            if let Some(k) = cb {
                if k == 0 {
                    return b;
                }
                if k == m {
                    return a;
                }
                if w > 1 {
                    if na.op == Op::Concat {
                        let lw = width(na.b);
                        let hi = bin(Op::And, na.a, konst(w - lw, k >> lw));
                        let lo = bin(Op::And, na.b, konst(lw, k));
                        return concat(hi, lo);
                    }
                    if na.op == Op::ZExt {
                        let iw = width(na.a);
                        let x = bin(Op::And, na.a, konst(iw, k));
                        return zext(x, w);
                    }
                    // contiguous masks become extractions
                    let tz = k.trailing_zeros();
                    let kk = k >> tz;
                    if (kk & (kk + 1)) == 0 {
                        let len = 128 - kk.leading_zeros();
                        let x = extract(a, tz, len);
                        let y = if tz > 0 { concat(x, konst(tz, 0)) } else { x };
                        return zext(y, w);
                    }
                    if na.op == Op::And {
                        if let Some(k2) = as_const(na.b) {
                            return bin(Op::And, na.a, konst(w, k & k2));
                        }
                    }
                }
            }
            if w == 1 {
                // x & (x & y)
                if na.op == Op::And && (na.a == b || na.b == b) {
                    return a;
                }
                if nb.op == Op::And && (nb.a == a || nb.b == a) {
                    return b;
                }
                if is_not_of(a, b) {
                    return fls();
                }
            }
        }
        Op::Or => {
            if a == b {
                return a;
            }
            if let Some(k) = cb {
                if k == 0 {
                    return a;
                }
                if k == m {
                    return b;
                }
            }
            if w == 1 {
                if is_not_of(a, b) {
                    return tru();
                }
                // a | b == !(!a & !b): keep as Or, the solver copes
            } else if let Some(r) = merge_disjoint(a, b, w) {
                return r;
            }
        }
        Op::Xor => {
            if a == b {
                return konst(w, 0);
            }
            if let Some(k) = cb {
                if k == 0 {
                    return a;
                }
                if na.op == Op::Xor {
                    if let Some(k2) = as_const(na.b) {
                        return bin(Op::Xor, na.a, konst(w, k ^ k2));
                    }
                }
                if w == 1 && na.op == Op::Ite {
                    // not over ite of bools
                    if as_const(na.b).is_some() || as_const(na.c).is_some() {
                        return ite(na.a, not(na.b), not(na.c));
                    }
                }
            }
        }
        Op::Shl => {
            if let Some(k) = cb {
                if k == 0 {
                    return a;
                }
                if k >= w as u128 {
                    return konst(w, 0);
                }
                let k = k as u32;
                return concat(extract(a, 0, w - k), konst(k, 0));
            }
        }
        Op::LShr => {
            if let Some(k) = cb {
                if k == 0 {
                    return a;
                }
                if k >= w as u128 {
                    return konst(w, 0);
                }
                let k = k as u32;
                return zext(extract(a, k, w - k), w);
            }
        }
        Op::AShr => {
            if let Some(k) = cb {
                if k == 0 {
                    return a;
                }
                let k = (k.min(w as u128 - 1)) as u32;
                return sext_to(extract(a, k, w - k), w);
            }
        }
        Op::Eq => {
            if a == b {
                return tru();
            }
            if let Some(k) = cb {
                if w == 1 {
                    return if k == 1 { a } else { not(a) };
                }
                if k > umax(a) {
                    return fls();
                }
                match na.op {
                    Op::ZExt => {
                        let iw = width(na.a);
                        return if k > mask(iw) { fls() } else { bin(Op::Eq, na.a, konst(iw, k)) };
                    }
                    Op::SExt => {
                        let iw = width(na.a);
                        let lo = k & mask(iw);
                        return if (sext(lo, iw) as u128) & m == k { bin(Op::Eq, na.a, konst(iw, lo)) } else { fls() };
                    }
                    Op::Concat => {
                        let lw = width(na.b);
                        let h = bin(Op::Eq, na.a, konst(w - lw, k >> lw));
                        let l = bin(Op::Eq, na.b, konst(lw, k));
                        return bin(Op::And, h, l);
                    }
                    Op::Add => {
                        if let Some(k2) = as_const(na.b) {
                            return bin(Op::Eq, na.a, konst(w, k.wrapping_sub(k2)));
                        }
                    }
                    Op::Xor => {
                        if let Some(k2) = as_const(na.b) {
                            return bin(Op::Eq, na.a, konst(w, k ^ k2));
                        }
                    }
                    Op::Ite => {
                        let t = as_const(na.b);
                        let f = as_const(na.c);
                        if t.is_some() || f.is_some() {
                            return ite(na.a, bin(Op::Eq, na.b, b), bin(Op::Eq, na.c, b));
                        }
                    }
                    _ => {}
                }
            } else {
                if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a) == width(nb.a) {
                    return bin(Op::Eq, na.a, nb.a);
                }
                if na.op == Op::Concat && nb.op == Op::Concat && width(na.b) == width(nb.b) {
                    return bin(Op::And, bin(Op::Eq, na.a, nb.a), bin(Op::Eq, na.b, nb.b));
                }
                if w > 1 && na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
                    return ite(na.a, bin(Op::Eq, na.b, nb.b), bin(Op::Eq, na.c, nb.c));
                }
            }
        }
        Op::Ult => {
            if a == b {
                return fls();
            }
            if cb == Some(0) {
                return fls();
            }
            if ca == Some(m) {
                return fls();
            }
            if let Some(k) = cb {
                if umax(a) < k {
                    return tru();
                }
                if k == 1 {
                    return bin(Op::Eq, a, konst(w, 0));
                }
                if na.op == Op::ZExt {
                    let iw = width(na.a);
                    return if k > mask(iw) { tru() } else { bin(Op::Ult, na.a, konst(iw, k)) };
                }
                if na.op == Op::Concat && as_const(na.a) == Some(0) {
                    let lw = width(na.b);
                    return if k > mask(lw) { tru() } else { bin(Op::Ult, na.b, konst(lw, k)) };
                }
            }
            if let Some(k) = ca {
                if k >= umax(b) {
                    return fls();
                }
                if k == 0 {
                    return not(bin(Op::Eq, b, konst(w, 0)));
                }
                // k < b  ==  !(b < k+1)
                return not(bin(Op::Ult, b, konst(w, k + 1)));
            }
            if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.a) == width(nb.a) {
                return bin(Op::Ult, na.a, nb.a);
            }
        }
        Op::Slt => {
            if a == b {
                return fls();
            }
            let h = 1u128 << (w - 1);
            // both known non-negative: unsigned comparison
            if umax(a) < h && umax(b) < h {
                return bin(Op::Ult, a, b);
            }
            if cb == Some(0) {
                // sign bit test
                return extract(a, w - 1, 1);
            }
            if ca == Some(m) {
                // -1 < b
                return not(extract(b, w - 1, 1));
            }
            if let Some(k) = ca {
                // k < b == !(b < k+1), k is not the maximum
                if k == h - 1 {
                    return fls();
                }
                return not(bin(Op::Slt, b, konst(w, k.wrapping_add(1))));
            }
            if cb == Some(h) {
                return fls();
            }
        }
        _ => {}
    }
    intern(op, rw, a, b, 0)
}

fn is_not_of(a: E, b: E) -> bool {
    let na = node(a);
    if na.op == Op::Xor && na.a == b && as_const(na.b) == Some(1) {
        return true;
    }
    let nb = node(b);
    nb.op == Op::Xor && nb.a == a && as_const(nb.b) == Some(1)
}

/// Splits off the topmost field of a concat-like value: (field, rest).
fn merge_disjoint(a: E, b: E, w: u32) -> Option<E> {
    // Collect both as lists of pieces (lo, len, Option<E>) with None meaning zero bits.
    fn pieces(e: E, lo: u32, out: &mut Vec<(u32, u32, Option<E>)>, depth: u32) {
        let n = node(e);
        let w = n.w as u32;
        match n.op {
            Op::Const if as_const(e) == Some(0) => out.push((lo, w, None)),
            Op::Concat if depth > 0 => {
                let lw = width(n.b);
                pieces(n.b, lo, out, depth - 1);
                pieces(n.a, lo + lw, out, depth - 1);
            }
            Op::ZExt => {
                let iw = width(n.a);
                pieces(n.a, lo, out, depth.saturating_sub(1));
                out.push((lo + iw, w - iw, None));
            }
            _ => out.push((lo, w, Some(e))),
        }
    }
    let (mut pa, mut pb) = (Vec::new(), Vec::new());
    pieces(a, 0, &mut pa, 20);
    pieces(b, 0, &mut pb, 20);
    if pa.len() == 1 || pb.len() == 1 {
        return None;
    }
    // walk
    let (mut i, mut j) = (0, 0);
    let (mut oa, mut ob) = (0u32, 0u32); // consumed of the current piece
    let mut res: Option<E> = None;
    let mut pos = 0;
    while pos < w {
        let (_, la, xa) = pa[i];
        let (_, lb, xb) = pb[j];
        let len = (la - oa).min(lb - ob);
        let piece = match (xa, xb) {
            (Some(_), Some(_)) => return None,
            (Some(x), None) => extract(x, oa, len),
            (None, Some(x)) => extract(x, ob, len),
            (None, None) => konst(len, 0),
        };
        res = Some(match res {
            None => piece,
            Some(r) => concat(piece, r),
        });
        pos += len;
        oa += len;
        ob += len;
        if oa == la {
            i += 1;
            oa = 0;
        }
        if ob == lb {
            j += 1;
            ob = 0;
        }
    }
    res
}

pub fn concat(a: E, b: E) -> E {
    {
        // one half of x with some bits flipped, next to the other half
        let (na, nb) = (node(a), node(b));
        let half = |n: &Node| if n.op == Op::Extract { Some((n.a, n.b, n.w as u32)) } else { None };
        if na.op == Op::Xor && as_const(na.b).is_some() {
            if let (Some((x, lo, _)), Some((y, l2, w2))) = (half(&node(na.a)), half(&nb)) {
                if x == y && lo == l2 + w2 {
                    let c = as_const(na.b).unwrap() << w2;
                    let v = concat(na.a, b);
                    return bin(Op::Xor, v, konst(width(v), c));
                }
            }
        }
    }
    let (wa, wb) = (width(a), width(b));
    let w = wa + wb;
    assert!(w <= 128, "concat width {}", w);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return konst(w, (x << wb) | y);
    }
    let (na, nb) = (node(a), node(b));
    if as_const(a) == Some(0) {
        return zext(b, w);
    }
    if na.op == Op::ZExt {
        // hi zero bits stay on top
        return zext(concat(na.a, b), w);
    }
    if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.b == nb.b + wb {
        return extract(na.a, nb.b, w);
    }
    if na.op == Op::Extract && na.b == wb && matches!(node(na.a).op, Op::Add | Op::Sub | Op::Mul) && extract(na.a, 0, wb) == b {
        // both halves of one sum, the lower one narrowed
        return extract(na.a, 0, w);
    }
    if nb.op == Op::Concat {
        // right-associate towards merging of extracts: concat(x[..], concat(x[..], y))
        let h = node(nb.a);
        if na.op == Op::Extract && h.op == Op::Extract && na.a == h.a && na.b == h.b + width(nb.a) {
            return concat(extract(na.a, h.b, wa + width(nb.a)), nb.b);
        }
        // full value split: concat(extract(x,hi), concat(x-low..)) handled above
    }
    if na.op == Op::Concat {
        let l = node(na.b);
        if nb.op == Op::Extract && l.op == Op::Extract && l.a == nb.a && l.b == nb.b + wb {
            return concat(na.a, extract(nb.a, nb.b, width(na.b) + wb));
        }
        // normalise to right-nested
        return concat(na.a, concat(na.b, b));
    }
    if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
        return ite(na.a, concat(na.b, nb.b), concat(na.c, nb.c));
    }
    if na.op == Op::Ite && as_const(b).is_some() && const_ite(a, ITE_DEPTH) {
        return map_ite(a, &|x| concat(x, b));
    }
    intern(Op::Concat, w, a, b, 0)
}

pub fn extract(e: E, lo: u32, len: u32) -> E {
    if lo == 63 && len == 1 && width(e) == 64 {
        // the sign of a floating point result
        let n = node(e);
        match n.op {
            Op::UToF => return konst(1, 0),
            Op::FMul | Op::FDiv if frange(e, 12).is_some() => {
                let (x, y) = (extract(n.a, 63, 1), extract(n.b, 63, 1));
                return bin(Op::Xor, x, y);
            }
            _ => {}
        }
    }
    let w = width(e);
    debug_assert!(lo + len <= w && len > 0);
    if lo == 0 && len == w {
        return e;
    }
    if let Some(v) = as_const(e) {
        return konst(len, v >> lo);
    }
    let n = node(e);
    match n.op {
        Op::Extract => return extract(n.a, n.b + lo, len),
        Op::Concat => {
            let lw = width(n.b);
            if lo >= lw {
                return extract(n.a, lo - lw, len);
            }
            if lo + len <= lw {
                return extract(n.b, lo, len);
            }
            let l = extract(n.b, lo, lw - lo);
            let h = extract(n.a, 0, lo + len - lw);
            return concat(h, l);
        }
        Op::ZExt => {
            let iw = width(n.a);
            if lo >= iw {
                return konst(len, 0);
            }
            if lo + len <= iw {
                return extract(n.a, lo, len);
            }
            return zext(extract(n.a, lo, iw - lo), len);
        }
        Op::SExt => {
            let iw = width(n.a);
            if lo + len <= iw {
                return extract(n.a, lo, len);
            }
            if lo < iw {
                return sext_to(extract(n.a, lo, iw - lo), len);
            }
            return sext_to(extract(n.a, iw - 1, 1), len);
        }
        Op::Ite => {
            if const_ite(e, ITE_DEPTH) {
                return map_ite(e, &|x| extract(x, lo, len));
            }
            return ite(n.a, extract(n.b, lo, len), extract(n.c, lo, len));
        }
        Op::And | Op::Or | Op::Xor => {
            if as_const(n.b).is_some() {
                return bin(n.op, extract(n.a, lo, len), extract(n.b, lo, len));
            }
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 => {
            return bin(n.op, extract(n.a, 0, len), extract(n.b, 0, len));
        }
        _ => {}
    }
    intern(Op::Extract, len, e, lo, 0)
}

pub fn zext(e: E, w: u32) -> E {
    let iw = width(e);
    if iw == w {
        return e;
    }
    debug_assert!(iw < w);
    if let Some(v) = as_const(e) {
        return konst(w, v);
    }
    let n = node(e);
    if n.op == Op::ZExt {
        return zext(n.a, w);
    }
    if n.op == Op::Ite && const_ite(e, ITE_DEPTH) {
        return map_ite(e, &|x| zext(x, w));
    }
    intern(Op::ZExt, w, e, 0, 0)
}
pub fn sext_to(e: E, w: u32) -> E {
    let iw = width(e);
    if iw == w {
        return e;
    }
    if let Some(v) = as_const(e) {
        return konst(w, sext(v, iw) as u128);
    }
    let n = node(e);
    if n.op == Op::ZExt {
        return zext(n.a, w);
    }
    if n.op == Op::SExt {
        return sext_to(n.a, w);
    }
    if n.op == Op::Ite && const_ite(e, ITE_DEPTH) {
        return map_ite(e, &|x| sext_to(x, w));
    }
    intern(Op::SExt, w, e, 0, 0)
}

pub fn ite(c: E, t: E, f: E) -> E {
    if t == f {
        return t;
    }
    if let Some(k) = as_const(c) {
        return if k == 1 { t } else { f };
    }
    let w = width(t);
    debug_assert_eq!(w, width(f));
    let nc = node(c);
    if nc.op == Op::Xor && as_const(nc.b) == Some(1) {
        return ite(nc.a, f, t);
    }
    if w == 1 {
        match (as_const(t), as_const(f)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Op::Or, c, f),
            (Some(0), None) => return bin(Op::And, not(c), f),
            (None, Some(1)) => return bin(Op::Or, not(c), t),
            (None, Some(0)) => return bin(Op::And, c, t),
            _ => {}
        }
    }
    let nf = node(f);
    if nf.op == Op::Ite && nf.a == c {
        return ite(c, t, nf.c);
    }
    let nt = node(t);
    if nt.op == Op::Ite && nt.a == c {
        return ite(c, nt.b, f);
    }
    if nf.op == Op::Ite && nf.b == t {
        return ite(bin(Op::Or, c, nf.a), t, nf.c);
    }
    intern(Op::Ite, w, c, t, f)
}

/// An interval that contains the value of a double-valued expression, by its shape alone.
/// None when nothing is known or it could be NaN.
pub fn frange(e: E, d: u32) -> Option<(f64, f64)> {
    if d == 0 {
        return None;
    }
    let n = node(e);
    if n.w != 64 {
        return None;
    }
    let ok = |lo: f64, hi: f64| if lo.is_nan() || hi.is_nan() { None } else { Some((lo, hi)) };
    match n.op {
        Op::Const => {
            let v = f64::from_bits(as_const(e).unwrap() as u64);
            ok(v, v)
        }
        Op::UToF => ok(0.0, umax(n.a) as f64),
        Op::FMul | Op::FDiv | Op::FAdd | Op::FSub => {
            let (al, ah) = frange(n.a, d - 1)?;
            let (bl, bh) = frange(n.b, d - 1)?;
            if n.op == Op::FDiv && bl <= 0.0 && bh >= 0.0 {
                return None;
            }
            let f = |x: f64, y: f64| match n.op {
                Op::FMul => x * y,
                Op::FDiv => x / y,
                Op::FAdd => x + y,
                _ => x - y,
            };
            let c = [f(al, bl), f(al, bh), f(ah, bl), f(ah, bh)];
            if c.iter().any(|x| x.is_nan()) {
                return None;
            }
            // 0 * inf and the like inside the box
            if [al, ah, bl, bh].iter().any(|x| x.is_infinite()) {
                return None;
            }
            ok(c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
        }
        Op::Xor if as_const(n.b) == Some(1 << 63) => {
            let (l, h) = frange(n.a, d - 1)?;
            ok(-h, -l)
        }
        Op::ZExt => {
            let x = node(n.a);
            if x.op == Op::Extract && x.b == 0 && x.w == 63 && width(x.a) == 64 {
                let (l, h) = frange(x.a, d - 1)?;
                let m = l.abs().max(h.abs());
                let lo = if l <= 0.0 && h >= 0.0 { 0.0 } else { l.abs().min(h.abs()) };
                return ok(lo, m);
            }
            None
        }
        Op::Ite => {
            let (al, ah) = frange(n.b, d - 1)?;
            let (bl, bh) = frange(n.c, d - 1)?;
            ok(al.min(bl), ah.max(bh))
        }
        _ => None,
    }
}

/// Does the expression contain floating point arithmetic?
pub fn has_fp(e: E, seen: &mut std::collections::HashSet<E>) -> bool {
    if !seen.insert(e) {
        return false;
    }
    let n = node(e);
    match n.op {
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FLt | Op::FLe | Op::FEq | Op::FIsNan | Op::FExt | Op::FTrunc | Op::UToF | Op::SToF | Op::FToU | Op::FToS => true,
        Op::Const | Op::Var => false,
        Op::Extract | Op::ZExt | Op::SExt => has_fp(n.a, seen),
        Op::Ite => has_fp(n.a, seen) || has_fp(n.b, seen) || has_fp(n.c, seen),
        _ => has_fp(n.a, seen) || has_fp(n.b, seen),
    }
}

/// Number of multiplications in an expression (up to a few).
pub fn muls(e: E, seen: &mut std::collections::HashSet<E>) -> u32 {
    if seen.len() > 2000 || !seen.insert(e) {
        return 0;
    }
    let n = node(e);
    match n.op {
        Op::Const | Op::Var => 0,
        Op::Extract | Op::ZExt | Op::SExt => muls(n.a, seen),
        Op::Ite => muls(n.a, seen) + muls(n.b, seen) + muls(n.c, seen),
        op => (op == Op::Mul && n.w >= 32) as u32 + muls(n.a, seen) + muls(n.b, seen),
    }
}

/// A table lookup feeding floating point arithmetic, if there is one.
pub fn fp_table(e: E, seen: &mut std::collections::HashSet<E>) -> Option<E> {
    if !seen.insert(e) {
        return None;
    }
    let n = node(e);
    match n.op {
        Op::Const | Op::Var => None,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            for x in [n.a, n.b] {
                if node(x).op == Op::Ite && const_ite(x, ITE_DEPTH) {
                    // a lookup by comparisons with one index: that index
                    let c = node(node(x).a);
                    if c.op == Op::Ult && as_const(c.b).is_some() && as_const(c.a).is_none() {
                        let i = node(c.a);
                        if i.op == Op::Concat && as_const(i.b).is_some() {
                            return Some(i.a);
                        }
                        return Some(c.a);
                    }
                    return Some(x);
                }
            }
            fp_table(n.a, seen).or_else(|| fp_table(n.b, seen))
        }
        Op::Extract | Op::ZExt | Op::SExt | Op::FIsNan | Op::FExt | Op::FTrunc | Op::UToF | Op::SToF | Op::FToU | Op::FToS => fp_table(n.a, seen),
        Op::Ite => fp_table(n.a, seen).or_else(|| fp_table(n.b, seen)).or_else(|| fp_table(n.c, seen)),
        _ => fp_table(n.a, seen).or_else(|| fp_table(n.b, seen)),
    }
}

/// A narrow integer feeding floating point arithmetic, if there is one.
pub fn fp_small(e: E, lim: u128, seen: &mut std::collections::HashSet<E>) -> Option<E> {
    if !seen.insert(e) {
        return None;
    }
    let n = node(e);
    match n.op {
        Op::Const | Op::Var => None,
        Op::UToF if as_const(n.a).is_none() && umax(n.a) <= lim => Some(n.a),
        Op::Extract | Op::ZExt | Op::SExt | Op::FIsNan | Op::FExt | Op::FTrunc | Op::UToF | Op::SToF | Op::FToU | Op::FToS => fp_small(n.a, lim, seen),
        Op::Ite => fp_small(n.a, lim, seen).or_else(|| fp_small(n.b, lim, seen)).or_else(|| fp_small(n.c, lim, seen)),
        _ => fp_small(n.a, lim, seen).or_else(|| fp_small(n.b, lim, seen)),
    }
}

pub fn un_f(op: Op, e: E, w: u32) -> E {
    if op == Op::FIsNan && frange(e, 12).is_some() {
        return fls();
    }
    if let Some(v) = as_const(e) {
        return konst(w, eval_unf(op, v, width(e), w));
    }
    if node(e).op == Op::Ite && const_ite(e, ITE_DEPTH) {
        return map_ite(e, &|x| un_f(op, x, w));
    }
    intern(op, w, e, 0, 0)
}

fn eval_unf(op: Op, v: u128, iw: u32, w: u32) -> u128 {
    match op {
        Op::FIsNan => fop(Op::FIsNan, iw, v, 0),
        Op::FExt => (f32::from_bits(v as u32) as f64).to_bits() as u128,
        Op::FTrunc => (f64::from_bits(v as u64) as f32).to_bits() as u128,
        Op::UToF => {
            if w == 64 {
                (v as f64).to_bits() as u128
            } else {
                (v as f32).to_bits() as u128
            }
        }
        Op::SToF => {
            let s = sext(v, iw);
            if w == 64 {
                (s as f64).to_bits() as u128
            } else {
                (s as f32).to_bits() as u128
            }
        }
        Op::FToU => {
            let f = if iw == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
            (f as u128) & mask(w)
        }
        Op::FToS => {
            let f = if iw == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
            (f as i128 as u128) & mask(w)
        }
        _ => unreachable!(),
    }
}

/// The same operation over other operands.
pub fn rebuild(e: E, f: &mut dyn FnMut(E) -> E) -> E {
    let n = node(e);
    let w = n.w as u32;
    match n.op {
        Op::Const | Op::Var => e,
        Op::Extract => {
            let x = f(n.a);
            extract(x, n.b, w)
        }
        Op::ZExt => {
            let x = f(n.a);
            zext(x, w)
        }
        Op::SExt => {
            let x = f(n.a);
            sext_to(x, w)
        }
        Op::Ite => {
            let c = f(n.a);
            match as_const(c) {
                Some(1) => f(n.b),
                Some(_) => f(n.c),
                None => {
                    let (x, y) = (f(n.b), f(n.c));
                    ite(c, x, y)
                }
            }
        }
        Op::FIsNan | Op::FExt | Op::FTrunc | Op::UToF | Op::SToF | Op::FToU | Op::FToS => {
            let x = f(n.a);
            un_f(n.op, x, w)
        }
        Op::Concat => {
            let (x, y) = (f(n.a), f(n.b));
            concat(x, y)
        }
        _ => {
            let (x, y) = (f(n.a), f(n.b));
            bin(n.op, x, y)
        }
    }
}

/// Conjunction / disjunction helpers for width-1 values.
pub fn and(a: E, b: E) -> E {
    bin(Op::And, a, b)
}
pub fn or(a: E, b: E) -> E {
    bin(Op::Or, a, b)
}
pub fn eq(a: E, b: E) -> E {
    bin(Op::Eq, a, b)
}

/// Evaluates `e` under an assignment of the input bytes (missing bytes are 0).
pub fn eval(e: E, model: &[u8]) -> u128 {
    let c = ctx();
    c.gen += 1;
    let n = c.nodes.len();
    if c.ev_gen.len() < n {
        c.ev_gen.resize(n + n / 2, 0);
        c.ev_val.resize(n + n / 2, 0);
    }
    ev(c, e, model)
}

fn ev(c: &mut Ctx, e: E, m: &[u8]) -> u128 {
    let n = c.nodes[e as usize];
    match n.op {
        Op::Const => return c.consts[n.a as usize],
        Op::Var => return *m.get(n.a as usize).unwrap_or(&0) as u128,
        _ => {}
    }
    if c.ev_gen[e as usize] == c.gen {
        return c.ev_val[e as usize];
    }
    let w = n.w as u32;
    let r = match n.op {
        Op::Concat => {
            let lw = c.nodes[n.b as usize].w;
            (ev(c, n.a, m) << lw) | ev(c, n.b, m)
        }
        Op::Extract => (ev(c, n.a, m) >> n.b) & mask(w),
        Op::ZExt => ev(c, n.a, m),
        Op::SExt => {
            let iw = c.nodes[n.a as usize].w as u32;
            (sext(ev(c, n.a, m), iw) as u128) & mask(w)
        }
        Op::Ite => {
            if ev(c, n.a, m) == 1 {
                ev(c, n.b, m)
            } else {
                ev(c, n.c, m)
            }
        }
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FLt | Op::FLe | Op::FEq => {
            let iw = c.nodes[n.a as usize].w as u32;
            let (x, y) = (ev(c, n.a, m), ev(c, n.b, m));
            fop(n.op, iw, x, y)
        }
        Op::FIsNan | Op::FExt | Op::FTrunc | Op::UToF | Op::SToF | Op::FToU | Op::FToS => {
            let iw = c.nodes[n.a as usize].w as u32;
            let x = ev(c, n.a, m);
            eval_unf(n.op, x, iw, w)
        }
        _ => {
            let iw = c.nodes[n.a as usize].w as u32;
            let (x, y) = (ev(c, n.a, m), ev(c, n.b, m));
            match fold2(n.op, iw, x, y) {
                Some(v) => v,
                // SMT-LIB semantics of division by zero
                None => match n.op {
                    Op::UDiv => mask(iw),
                    Op::URem | Op::SRem => x,
                    Op::SDiv => {
                        if sext(x, iw) < 0 {
                            1
                        } else {
                            mask(iw)
                        }
                    }
                    _ => unreachable!(),
                },
            }
        }
    };
    c.ev_gen[e as usize] = c.gen;
    c.ev_val[e as usize] = r;
    r
}

pub fn show(e: E) -> String {
    fn go(e: E, d: u32) -> String {
        let n = node(e);
        if d == 0 {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{}:{}", as_const(e).unwrap(), n.w),
            Op::Var => format!("v{}", n.a),
            Op::Extract => format!("{}[{}+{}]", go(n.a, d - 1), n.b, n.w),
            Op::ZExt | Op::SExt | Op::FIsNan | Op::FExt | Op::FTrunc | Op::UToF | Op::SToF | Op::FToU | Op::FToS => {
                format!("{:?}{}({})", n.op, n.w, go(n.a, d - 1))
            }
            Op::Ite => format!("Ite({}, {}, {})", go(n.a, d - 1), go(n.b, d - 1), go(n.c, d - 1)),
            _ => format!("{:?}({}, {})", n.op, go(n.a, d - 1), go(n.b, d - 1)),
        }
    }
    go(e, 8)
}
