//! Runs a harness natively on recorded inputs.
//!
//!   vreplay [--plain-alloc] HARNESS PARAMS HEX[,HEX...]     one run
//!   vreplay --batch < lines of "HARNESS PARAMS HEX,..."     many runs, one result line each (no failures expected)
//!
//! Exit codes: 0 finished, 10 check failed, 11 panic, 12 memory misuse, 20 assumption not met, 21 inputs exhausted.
#[macro_use]
#[path = "../../harness/src/sym.rs"]
pub mod sym;
#[cfg(not(both))]
include!("../../harness/src/mods.rs");
#[cfg(both)]
include!("../../harness-both/src/mods.rs");

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

// ---- allocator that checks layouts and double frees ----

struct Check;
static PLAIN: AtomicBool = AtomicBool::new(cfg!(miri));
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicU64 = AtomicU64::new(0);
static BYTES: AtomicU64 = AtomicU64::new(0);
const LIVE_MAGIC: u64 = 0x5afe_a110_ca7e_d001;
const DEAD_MAGIC: u64 = 0xdead_b10c_dead_b10c;
const HDR: usize = 32;

fn die(code: i32, m: &str) -> ! {
    use std::io::Write;
    let _ = writeln!(std::io::stdout(), "RESULT {} {}", code, m);
    let _ = std::io::stdout().flush();
    if cfg!(miri) {
        std::process::exit(code)
    }
    unsafe { _exit(code) }
}
extern "C" {
    fn _exit(c: i32) -> !;
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
}

unsafe impl GlobalAlloc for Check {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        BYTES.fetch_add(l.size() as u64, Relaxed);
        if PLAIN.load(Relaxed) {
            return System.alloc(l);
        }
        let h = HDR.max(l.align());
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + h + 16, l.align().max(16)));
        if p.is_null() {
            return p;
        }
        let u = p.add(h);
        let w = u.sub(HDR) as *mut u64;
        *w = LIVE_MAGIC;
        *w.add(1) = l.size() as u64;
        *w.add(2) = l.align() as u64;
        std::ptr::write_bytes(u, 0xA5, l.size());
        std::ptr::write_bytes(u.add(l.size()), 0xC3, 16);
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        if PLAIN.load(Relaxed) {
            LIVE.fetch_sub(1, Relaxed);
            BYTES.fetch_sub(l.size() as u64, Relaxed);
            return System.dealloc(u, l);
        }
        let w = u.sub(HDR) as *mut u64;
        if ON.load(Relaxed) || *w == LIVE_MAGIC {
            if *w == DEAD_MAGIC {
                die(12, "double free");
            }
            if *w != LIVE_MAGIC {
                die(12, "free of something that was never allocated");
            }
            if *w.add(1) != l.size() as u64 || *w.add(2) != l.align() as u64 {
                die(12, "free with another layout");
            }
            for i in 0..16 {
                if *u.add(l.size() + i) != 0xC3 {
                    die(12, "write past the end of a block");
                }
            }
        }
        LIVE.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(l.size() as u64, Relaxed);
        *w = DEAD_MAGIC;
        // never reused, so that later uses of it are noticed
        std::ptr::write_bytes(u, 0xDD, l.size());
        if !ON.load(Relaxed) {
            let h = HDR.max(l.align());
            System.dealloc(u.sub(h), Layout::from_size_align_unchecked(l.size() + h + 16, l.align().max(16)));
        }
    }
}
#[global_allocator]
static A: Check = Check;

// ---- the interface of sym.rs ----

static mut PARAMS: Vec<u64> = Vec::new();
static mut INPUT: Vec<u8> = Vec::new();
static mut POS: usize = 0;
static mut COVERS: [u64; 64] = [0; 64];
static mut LOGS: [u64; 256] = [0; 256];
static mut NLOGS: usize = 0;
static mut LIVE0: u64 = 0;
static mut PAINT: usize = 0;
const PAINT_LEN: usize = 4 << 20;

#[no_mangle]
pub unsafe extern "C" fn sym_bytes(_l: *const u8, _n: usize, p: *mut u8, n: usize) {
    let inp = &*std::ptr::addr_of!(INPUT);
    for i in 0..n {
        let v = match inp.get(POS) {
            Some(b) => *b,
            None => 0,
        };
        POS += 1;
        *p.add(i) = v;
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_assume(c: bool) {
    if !c {
        die(20, "assumption not met");
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_assert(c: bool, m: *const u8, n: usize) {
    if !c {
        let s = String::from_utf8_lossy(std::slice::from_raw_parts(m, n)).into_owned();
        die(10, &s);
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_cover(id: u32) {
    // what counts is what the first thread does
    if !SECOND.with(|x| x.get()) {
        COVERS[(id / 64) as usize] |= 1 << (id % 64);
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_alloc(_: usize, _: usize) -> *mut u8 {
    unreachable!()
}
#[no_mangle]
pub unsafe extern "C" fn sym_alloc_zeroed(_: usize, _: usize) -> *mut u8 {
    unreachable!()
}
#[no_mangle]
pub unsafe extern "C" fn sym_dealloc(_: *mut u8, _: usize, _: usize) {
    unreachable!()
}
#[no_mangle]
pub unsafe extern "C" fn sym_realloc(_: *mut u8, _: usize, _: usize, _: usize) -> *mut u8 {
    unreachable!()
}
#[no_mangle]
pub unsafe extern "C" fn sym_live_blocks() -> u64 {
    LIVE.load(Relaxed) - LIVE0
}
#[no_mangle]
pub unsafe extern "C" fn sym_live_bytes() -> u64 {
    BYTES.load(Relaxed)
}
const PAINT_BYTE: u8 = 0x5e;
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn sym_depth_reset() {
    if cfg!(miri) {
        return;
    }
    let here = 0u8;
    let top = ((&here as *const u8 as usize) - 4096) & !15;
    PAINT = top - PAINT_LEN;
    std::ptr::write_bytes(PAINT as *mut u8, PAINT_BYTE, PAINT_LEN);
}
#[inline(never)]
#[no_mangle]
pub unsafe extern "C" fn sym_depth_peak() -> u64 {
    if cfg!(miri) {
        return 0;
    }
    let mut i = 0;
    while i < PAINT_LEN && *((PAINT + i) as *const u64) == u64::from_ne_bytes([PAINT_BYTE; 8]) {
        i += 8;
    }
    (PAINT_LEN - i) as u64
}
#[no_mangle]
pub unsafe extern "C" fn sym_param(i: u64) -> u64 {
    (&*std::ptr::addr_of!(PARAMS)).get(i as usize).copied().unwrap_or(0)
}
#[no_mangle]
pub unsafe extern "C" fn sym_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
pub unsafe extern "C" fn sym_log(v: u64) {
    if NLOGS < 256 {
        LOGS[NLOGS] = v;
        NLOGS += 1;
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_native() -> u64 {
    1
}
struct Thrown;
#[no_mangle]
pub unsafe extern "C-unwind" fn sym_throw() -> ! {
    std::panic::resume_unwind(Box::new(Thrown))
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sym_catch(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> i32 {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(d))) {
        Ok(()) => 0,
        Err(e) => {
            if e.is::<Thrown>() {
                1
            } else {
                die(11, "panic")
            }
        }
    }
}
#[path = "../../harness/src/fcheck.rs"]
#[allow(dead_code)]
mod fcheck;
#[no_mangle]
pub unsafe extern "C" fn sym_float(bits: u64, neg: bool, lo: u64, hi: u64, exp: i64) {
    if let Some(m) = fcheck::float_check(bits, neg, (hi as u128) << 64 | lo as u128, exp) {
        die(10, m);
    }
}
#[no_mangle]
pub unsafe extern "C" fn sym_over(lo: u64, hi: u64, exp: i64) {
    if let Some(m) = fcheck::over_check((hi as u128) << 64 | lo as u128, exp) {
        die(10, m);
    }
}

// ---- another thread ----

thread_local! {
    static SECOND: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
static STRESS: AtomicBool = AtomicBool::new(false);
static STOP: AtomicBool = AtomicBool::new(false);
static mut BESIDE: Vec<std::thread::JoinHandle<()>> = Vec::new();
static mut UNTIL: Option<std::time::Instant> = None;
static mut ROUNDS: u64 = 0;
#[no_mangle]
pub unsafe extern "C" fn sym_beside(f: extern "C-unwind" fn(*mut u8), d: *mut u8) {
    let d = d as usize;
    STOP.store(false, Relaxed);
    let n = if cfg!(miri) { 1 } else if STRESS.load(Relaxed) { 3 } else { 1 };
    for _ in 0..n {
        (*std::ptr::addr_of_mut!(BESIDE)).push(std::thread::spawn(move || {
            SECOND.with(|x| x.set(true));
            while !STOP.load(Relaxed) {
                f(d as *mut u8);
                if cfg!(miri) {
                    std::thread::yield_now();
                }
            }
        }));
    }
    ROUNDS = 0;
    let ms = if STRESS.load(Relaxed) { 20000 } else { 1 };
    UNTIL = Some(std::time::Instant::now() + std::time::Duration::from_millis(ms));
}
#[no_mangle]
pub unsafe extern "C" fn sym_more() -> bool {
    ROUNDS += 1;
    if cfg!(miri) {
        std::thread::yield_now();
        return ROUNDS < 30;
    }
    std::time::Instant::now() < UNTIL.unwrap()
}
#[no_mangle]
pub unsafe extern "C" fn sym_beside_end() {
    STOP.store(true, Relaxed);
    for t in (*std::ptr::addr_of_mut!(BESIDE)).drain(..) {
        if t.join().is_err() {
            die(11, "panic");
        }
    }
}

// ---- driver ----

fn unhex(s: &str) -> Vec<u8> {
    let s: String = s.chars().filter(|c| c.is_ascii_hexdigit()).collect();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn find(n: &str) -> extern "C" fn() {
    for t in TABLES {
        for (k, f) in t.iter() {
            if *k == n {
                return *f;
            }
        }
    }
    eprintln!("no harness {}", n);
    std::process::exit(3)
}
fn one(h: &str, p: &str, i: &str) -> String {
    let f = find(h);
    unsafe {
        PARAMS = p.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        INPUT = unhex(i);
        POS = 0;
        COVERS = [0; 64];
        NLOGS = 0;
        LIVE0 = LIVE.load(Relaxed);
        // threads allocate a lot: blocks are reused then
        let threads = h.starts_with("beside");
        let plain = PLAIN.load(Relaxed);
        PLAIN.store(plain || threads, Relaxed);
        ON.store(!threads, Relaxed);
        f();
        PLAIN.store(plain, Relaxed);
        ON.store(false, Relaxed);
        let mut c = Vec::new();
        for i in 0..64 * 64 {
            if COVERS[i / 64] >> (i % 64) & 1 == 1 {
                c.push(i.to_string());
            }
        }
        let l: Vec<String> = (0..NLOGS).map(|i| LOGS[i].to_string()).collect();
        format!("covers {} logs {}", c.join(","), l.join(","))
    }
}
fn main() {
    let mut a: Vec<String> = std::env::args().skip(1).collect();
    if a.first().map(|s| s.as_str()) == Some("--plain-alloc") {
        PLAIN.store(true, Relaxed);
        a.remove(0);
    }
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace('\n', " ");
        die(11, &m);
    }));
    let stack = if PLAIN.load(Relaxed) { 256usize << 20 } else { 512 << 20 };
    let t = std::thread::Builder::new().stack_size(stack).spawn(move || {
        if a.first().map(|s| s.as_str()) == Some("--batch") {
            for l in std::io::stdin().lines() {
                let l = l.unwrap();
                let mut w = l.split(' ');
                let (h, p, i) = (w.next().unwrap(), w.next().unwrap_or(""), w.next().unwrap_or(""));
                // in a process of its own, so that nothing one run leaves behind reaches the next
                use std::io::Write;
                let _ = std::io::stdout().flush();
                unsafe {
                    let pid = fork();
                    if pid == 0 {
                        println!("{}", one(h, p, i));
                        let _ = std::io::stdout().flush();
                        _exit(0);
                    }
                    let mut st = 0;
                    waitpid(pid, &mut st, 0);
                    if pid < 0 || st != 0 {
                        break;
                    }
                }
            }
        } else {
            let e = String::new();
            STRESS.store(true, Relaxed);
            let r = one(&a[0], a.get(1).unwrap_or(&e), a.get(2).unwrap_or(&e));
            println!("RESULT 0 {}", r);
        }
    });
    match t.unwrap().join() {
        Ok(()) => {}
        Err(_) => die(11, "panic"),
    }
}
