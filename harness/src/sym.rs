//! Interface between harnesses and whoever runs them: the symbolic engine (which models these functions)
//! or the native replayer (which defines them and feeds recorded inputs).
#![allow(dead_code)]

use std::alloc::{GlobalAlloc, Layout};

extern "C" {
    fn sym_bytes(label: *const u8, label_len: usize, p: *mut u8, n: usize);
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, msg: *const u8, len: usize);
    fn sym_cover(id: u32);
    fn sym_alloc(size: usize, align: usize) -> *mut u8;
    fn sym_alloc_zeroed(size: usize, align: usize) -> *mut u8;
    fn sym_dealloc(p: *mut u8, size: usize, align: usize);
    fn sym_realloc(p: *mut u8, size: usize, align: usize, new: usize) -> *mut u8;
    fn sym_live_blocks() -> u64;
    fn sym_live_bytes() -> u64;
    fn sym_depth_reset();
    fn sym_depth_peak() -> u64;
    fn sym_param(i: u64) -> u64;
    fn sym_conc(v: u64) -> u64;
    fn sym_log(v: u64);
    fn sym_native() -> u64;
    fn sym_float(bits: u64, neg: bool, lo: u64, hi: u64, exp: i64);
    fn sym_over(lo: u64, hi: u64, exp: i64);
    fn sym_more() -> bool;
}
extern "C-unwind" {
    fn sym_throw() -> !;
    fn sym_catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> i32;
    fn sym_beside(f: extern "C-unwind" fn(*mut u8), data: *mut u8);
    fn sym_beside_end();
}

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sym_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sym_dealloc(p, l.size(), l.align())
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        sym_alloc_zeroed(l.size(), l.align())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        sym_realloc(p, l.size(), l.align(), new)
    }
}

#[inline(always)]
pub fn fill(label: &'static str, b: &mut [u8]) {
    unsafe { sym_bytes(label.as_ptr(), label.len(), b.as_mut_ptr(), b.len()) }
}
#[inline(always)]
pub fn bytes<const N: usize>(label: &'static str) -> [u8; N] {
    let mut b = [0u8; N];
    fill(label, &mut b);
    b
}
#[inline(always)]
pub fn u8(label: &'static str) -> u8 {
    bytes::<1>(label)[0]
}
#[inline(always)]
pub fn u16(label: &'static str) -> u16 {
    u16::from_le_bytes(bytes(label))
}
#[inline(always)]
pub fn u32(label: &'static str) -> u32 {
    u32::from_le_bytes(bytes(label))
}
#[inline(always)]
pub fn u64(label: &'static str) -> u64 {
    u64::from_le_bytes(bytes(label))
}
/// One of 0..n.
#[inline(always)]
pub fn choice(label: &'static str, n: u8) -> u8 {
    let c = u8(label);
    assume(c < n);
    c
}
/// One of 0..n, explored one value at a time.
#[inline(always)]
pub fn pick(label: &'static str, n: u8) -> usize {
    let c = choice(label, n);
    conc(c as u64) as usize
}
#[inline(always)]
pub fn flag(label: &'static str) -> bool {
    choice(label, 2) == 1
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, msg: &'static str) {
    unsafe { sym_assert(c, msg.as_ptr(), msg.len()) }
}
#[inline(always)]
pub fn fail(msg: &'static str) {
    check(false, msg)
}
#[inline(always)]
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
#[inline(always)]
pub fn live() -> u64 {
    unsafe { sym_live_blocks() }
}
#[inline(always)]
pub fn live_bytes() -> u64 {
    unsafe { sym_live_bytes() }
}
#[inline(always)]
pub fn param(i: u64) -> u64 {
    unsafe { sym_param(i) }
}
/// Checks that a double denotes (-1)^neg * sig * 10^exp: finite, of that sign, and off by at most 1e-15 of
/// the value or one subnormal step.
#[inline(always)]
pub fn float_is(f: f64, neg: bool, sig: u128, exp: i64) {
    unsafe { sym_float(f.to_bits(), neg, sig as u64, (sig >> 64) as u64, exp) }
}
/// Checks that sig * 10^exp is (up to 1e-15) at least the largest double.
#[inline(always)]
pub fn overflows(sig: u128, exp: i64) {
    unsafe { sym_over(sig as u64, (sig >> 64) as u64, exp) }
}
/// Makes the engine explore one value at a time from here on.
#[inline(always)]
pub fn conc(v: u64) -> u64 {
    unsafe { sym_conc(v) }
}
#[inline(always)]
pub fn log(v: u64) {
    unsafe { sym_log(v) }
}
#[inline(always)]
pub fn native() -> bool {
    unsafe { sym_native() != 0 }
}
#[inline(always)]
pub fn throw() -> ! {
    unsafe { sym_throw() }
}

/// Stack used by `f` beyond the current depth: call frames under the engine, bytes natively.
#[inline(never)]
pub fn stack_of(f: &mut dyn FnMut()) -> u64 {
    unsafe { sym_depth_reset() };
    f();
    unsafe { sym_depth_peak() }
}
/// Does going from `a` to `b` mean that the stack grew with the `levels` added in between?
#[inline(always)]
pub fn grew(a: u64, b: u64, levels: u64) -> bool {
    let unit = if native() { 16 } else { 1 };
    b > a && b - a >= levels * unit / 2
}

/// Runs `a` while another thread runs `b`: the engine lets `b` run at any one point at which `a` touches memory
/// that threads share; natively both are repeated for a while.
pub fn beside(a: &dyn Fn(), b: &dyn Fn()) {
    extern "C-unwind" fn tramp(p: *mut u8) {
        unsafe { (*(p as *const &dyn Fn()))() }
    }
    unsafe {
        sym_beside(tramp, &b as *const &dyn Fn() as *mut u8);
        a();
        while native() && sym_more() {
            a();
        }
        sym_beside_end();
    }
}

/// Runs `f`, reporting whether it was left by `throw`.
pub fn catch<F: FnMut()>(f: &mut F) -> bool {
    extern "C-unwind" fn tramp<F: FnMut()>(p: *mut u8) {
        unsafe { (*(p as *mut F))() }
    }
    unsafe { sym_catch(tramp::<F>, f as *mut F as *mut u8) != 0 }
}

#[macro_export]
macro_rules! harness {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $( #[no_mangle] pub extern "C" fn $name() $body )*
        pub const TABLE: &[(&str, extern "C" fn())] = &[ $( (stringify!($name), $name as extern "C" fn()) ),* ];
    };
}
