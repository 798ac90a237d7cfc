//! Symbolic execution of LLVM IR, one path at a time, with a worklist of pending paths.

use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(E),
    U,
    A(Rc<Vec<V>>),
}

/// What can stop the execution of an instruction.
pub enum Ev {
    /// needs this expression to have one value; re-executed after the fork
    Conc(E),
    /// needs this condition decided; re-executed after the fork
    Br(E),
    Bug(&'static str, String),
    /// path ended (assumption not satisfiable, harness returned)
    Prune,
    /// the engine cannot go on
    Stuck(String),
    /// sym_throw or resume: unwind from the current frame
    Unwind,
    /// about to touch memory that another thread may touch
    Shared,
}

/// A second thread: what it runs, and how far the first one is.
#[derive(Clone)]
pub struct Other {
    /// objects from here on are the first thread's own
    first: u64,
    f: u32,
    data: V,
    /// the access being executed by this step is the first thread's
    pass: u64,
    /// thread locals of the first thread while the second runs
    saved: Option<Rc<Vec<(u64, Obj)>>>,
    /// points at which it could have run
    points: u64,
}
pub type R<T> = Result<T, Ev>;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<V>,
    pub blk: u32,
    pub prev: u32,
    pub ip: u32,
    pub allocas: Vec<u64>,
    /// unwinding stops here (frame entered by sym_catch)
    pub catch: bool,
    /// the second thread's first frame: the one below was interrupted
    pub other: bool,
}

#[derive(Clone)]
pub struct Input {
    pub label: Rc<str>,
    pub first: u32,
    pub n: u32,
    pub conc: Option<Rc<Vec<u8>>>,
}

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Rc<Vec<u8>>,
    pub known: Rc<HashMap<E, u64>>,
    pub fixed: Sup,
    /// possible values of input bytes, from the constraints over that byte alone
    pub dom: Rc<HashMap<u32, [u64; 4]>>,
    pub nvars: u32,
    pub inputs: Rc<Vec<Input>>,
    pub steps: u64,
    pub peak: u64,
    pub covers: Rc<BTreeSet<u32>>,
    pub logs: Rc<Vec<V>>,
    pub unwinding: bool,
    pub forks: u32,
    pub other: Option<Other>,
    /// the second thread ran amid the first
    pub mixed: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Act {
    Body,
    Panic,
    SymBytes,
    SymAssume,
    SymAssert,
    SymCover,
    SymAlloc,
    SymAllocZ,
    SymDealloc,
    SymRealloc,
    SymLive,
    SymLiveBytes,
    SymDepthReset,
    SymDepthPeak,
    SymParam,
    SymThrow,
    SymCatch,
    SymConc,
    SymLog,
    SymNative,
    SymFloat,
    SymOver,
    SymBeside,
    SymBesideEnd,
    Block,
    Bcmp,
    Memcmp,
    Strlen,
    Noop,
    Abort,
    Unknown,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum In {
    Memcpy,
    Memset,
    Assume,
    Expect,
    Trap,
    IsConst,
    Umax,
    Umin,
    Smax,
    Smin,
    AddO(bool),
    SubO(bool),
    MulO(bool),
    AddSat(bool),
    SubSat(bool),
    Ctpop,
    Ctlz,
    Cttz,
    Fshl,
    Fshr,
    Bswap,
    Bitrev,
    Ucmp,
    Scmp,
    Abs,
    Fabs,
    Fma,
    Copysign,
    FSat(bool),
    Tls,
    Pause,
    Nop,
    VecRed(u8),
    IsFpClass,
    Unknown,
}

pub struct Bug {
    pub kind: String,
    pub msg: String,
    pub trace: Vec<String>,
    pub inputs: Vec<(String, Vec<u8>)>,
}

pub struct Limits {
    pub max_steps: u64,
    pub max_paths: u64,
    pub max_secs: f64,
    pub max_bugs: usize,
}

pub struct Engine {
    pub m: Module,
    pub solver: Solver,
    acts: Vec<Act>,
    intr: HashMap<*const u8, In>,
    pub params: Vec<u64>,
    pub concrete: Option<Vec<u8>>,
    pub lim: Limits,
    pub undef_next: u32,
    // results
    pub paths: u64,
    pub pruned: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub branch_queries: u64,
    pub bugs: Vec<Bug>,
    pub stuck: BTreeMap<String, u64>,
    pub covers: BTreeMap<u32, u64>,
    pub entered: Vec<u64>,
    domains: HashMap<E, [u64; 4]>,
    pub linear: u64,
    pub log: bool,
    pub start: Instant,
    pub samples: Vec<(Vec<(String, Vec<u8>)>, Vec<u32>, Vec<u64>)>,
    pub out_of_time: bool,
    /// globals that threads share: writable, not thread local, not the harness's own
    shared: Vec<bool>,
    tls: Vec<(u64, Obj)>,
    pub switches: u64,
    pub max_pc: usize,
    pub oom: bool,
}

fn cv(e: E) -> V {
    match as_const(e) {
        Some(v) if width(e) <= 64 => V::C(v as u64),
        _ => V::S(e),
    }
}
#[inline]
fn m64(w: u32) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
#[inline]
fn sx(v: u64, w: u32) -> i64 {
    let s = 64 - w;
    ((v << s) as i64) >> s
}

fn decide_act(name: &str, dem: &str, has_body: bool) -> Act {
    match name {
        "sym_bytes" => return Act::SymBytes,
        "sym_assume" => return Act::SymAssume,
        "sym_assert" => return Act::SymAssert,
        "sym_cover" => return Act::SymCover,
        "sym_alloc" => return Act::SymAlloc,
        "sym_alloc_zeroed" => return Act::SymAllocZ,
        "sym_dealloc" => return Act::SymDealloc,
        "sym_realloc" => return Act::SymRealloc,
        "sym_live_blocks" => return Act::SymLive,
        "sym_live_bytes" => return Act::SymLiveBytes,
        "sym_depth_reset" => return Act::SymDepthReset,
        "sym_depth_peak" => return Act::SymDepthPeak,
        "sym_param" => return Act::SymParam,
        "sym_throw" => return Act::SymThrow,
        "sym_catch" => return Act::SymCatch,
        "sym_conc" => return Act::SymConc,
        "sym_log" => return Act::SymLog,
        "sym_native" => return Act::SymNative,
        "sym_float" => return Act::SymFloat,
        "sym_over" => return Act::SymOver,
        "sym_beside" => return Act::SymBeside,
        "sym_beside_end" => return Act::SymBesideEnd,
        "syscall" | "sched_yield" | "pthread_mutex_lock" | "pthread_cond_wait" | "nanosleep" | "clock_nanosleep" => return Act::Block,
        "bcmp" => return Act::Bcmp,
        "memcmp" => return Act::Memcmp,
        "strlen" => return Act::Strlen,
        "abort" | "exit" | "_exit" => return Act::Abort,
        // destructors of thread locals do not run before the program ends
        "__cxa_thread_atexit_impl" | "__cxa_atexit" => return Act::Noop,
        _ => {}
    }
    if dem.starts_with("core::panicking::") || dem.contains("::core::panicking::") {
        return Act::Panic;
    }
    for p in [
        "std::panicking::begin_panic",
        "std::panicking::panic_handler",
        "std::panicking::rust_panic",
        "std::process::abort",
        "alloc::alloc::handle_alloc_error",
        "alloc::raw_vec::capacity_overflow",
        "std::alloc::rust_oom",
    ] {
        if dem.starts_with(p) {
            return Act::Panic;
        }
    }
    if dem.ends_with("rust_begin_unwind") || dem.ends_with("rust_panic") || dem.ends_with("rust_alloc_error_handler") {
        return Act::Panic;
    }
    if dem.contains("rust_no_alloc_shim_is_unstable") {
        return Act::Noop;
    }
    if has_body {
        Act::Body
    } else {
        Act::Unknown
    }
}

fn intr_kind(n: &str) -> In {
    let r = n.strip_prefix("llvm.").unwrap_or(n);
    let p = |s: &str| r.starts_with(s);
    if p("memcpy") || p("memmove") {
        In::Memcpy
    } else if p("memset") {
        In::Memset
    } else if p("assume") {
        In::Assume
    } else if p("expect") {
        In::Expect
    } else if p("trap") || p("ubsantrap") || p("debugtrap") {
        In::Trap
    } else if p("is.constant") {
        In::IsConst
    } else if p("umax.") {
        In::Umax
    } else if p("umin.") {
        In::Umin
    } else if p("smax.") {
        In::Smax
    } else if p("smin.") {
        In::Smin
    } else if p("uadd.with") {
        In::AddO(false)
    } else if p("sadd.with") {
        In::AddO(true)
    } else if p("usub.with") {
        In::SubO(false)
    } else if p("ssub.with") {
        In::SubO(true)
    } else if p("umul.with") {
        In::MulO(false)
    } else if p("smul.with") {
        In::MulO(true)
    } else if p("uadd.sat") {
        In::AddSat(false)
    } else if p("sadd.sat") {
        In::AddSat(true)
    } else if p("usub.sat") {
        In::SubSat(false)
    } else if p("ssub.sat") {
        In::SubSat(true)
    } else if p("ctpop") {
        In::Ctpop
    } else if p("ctlz") {
        In::Ctlz
    } else if p("cttz") {
        In::Cttz
    } else if p("fshl") {
        In::Fshl
    } else if p("fshr") {
        In::Fshr
    } else if p("bswap") {
        In::Bswap
    } else if p("bitreverse") {
        In::Bitrev
    } else if p("ucmp") {
        In::Ucmp
    } else if p("scmp") {
        In::Scmp
    } else if p("abs.") {
        In::Abs
    } else if p("fabs") {
        In::Fabs
    } else if p("fma") || p("fmuladd") {
        In::Fma
    } else if p("copysign") {
        In::Copysign
    } else if p("fptoui.sat") {
        In::FSat(false)
    } else if p("fptosi.sat") {
        In::FSat(true)
    } else if p("threadlocal.address") {
        In::Tls
    } else if p("x86.sse2.pause") {
        In::Pause
    } else if p("vector.reduce.or") {
        In::VecRed(0)
    } else if p("vector.reduce.and") {
        In::VecRed(1)
    } else if p("vector.reduce.add") {
        In::VecRed(2)
    } else if p("vector.reduce.xor") {
        In::VecRed(3)
    } else if p("vector.reduce.umax") {
        In::VecRed(4)
    } else if p("is.fpclass") {
        In::IsFpClass
    } else if p("prefetch") || p("donothing") || p("sideeffect") || p("stackrestore") || p("invariant") {
        In::Nop
    } else {
        In::Unknown
    }
}

/// A condition without undefined bytes that selects between parts of `e` of which one has some.
fn und_choice(e: E, seen: &mut std::collections::HashSet<E>) -> Option<E> {
    let n = node(e);
    if !n.und || !seen.insert(e) {
        return None;
    }
    if n.op == Op::Ite && !node(n.a).und {
        return Some(n.a);
    }
    if n.w == 1 && (n.op == Op::And || n.op == Op::Or) {
        for x in [n.a, n.b] {
            if !node(x).und {
                return Some(x);
            }
        }
    }
    let mut r = None;
    rebuild(e, &mut |x| {
        if r.is_none() {
            r = und_choice(x, seen);
        }
        x
    });
    r
}

impl Engine {
    pub fn new(m: Module, timeout_ms: u32, lim: Limits) -> Engine {
        let acts = m.funcs.iter().map(|f| decide_act(&f.name, &f.demangled, f.body.is_some())).collect();
        let n = m.funcs.len();
        Engine {
            m,
            solver: Solver::new(timeout_ms),
            acts,
            intr: HashMap::new(),
            params: Vec::new(),
            concrete: None,
            lim,
            undef_next: UNDEF0,
            paths: 0,
            pruned: 0,
            steps: 0,
            forks: 0,
            asserts: 0,
            asserts_solver: 0,
            branch_queries: 0,
            bugs: Vec::new(),
            stuck: BTreeMap::new(),
            covers: BTreeMap::new(),
            entered: vec![0; n],
            domains: HashMap::new(),
            linear: 0,
            log: false,
            start: Instant::now(),
            samples: Vec::new(),
            out_of_time: false,
            shared: Vec::new(),
            tls: Vec::new(),
            switches: 0,
            max_pc: 0,
            oom: false,
        }
    }

    fn base_mem(&self) -> Mem {
        let mut mem = Mem::new(self.m.dyn0());
        for (i, g) in self.m.globals.iter().enumerate() {
            let id = GLOBAL0 + i as u64;
            let (size, _) = with_types(|t| t.sizes[g.ty as usize]);
            let kind = if g.external {
                Kind::Ext
            } else if g.constant {
                Kind::Const
            } else {
                Kind::Global
            };
            let mut o = Obj { size, base: addr_of(id, g.align), align: g.align, kind, bytes: vec![0; size as usize], meta: None };
            if let Some(k) = self.m.global_init(i) {
                put_const(&mut o, 0, g.ty, &k);
            }
            mem.put(id, o);
        }
        let f0 = self.m.func0();
        for i in 0..self.m.funcs.len() as u64 {
            mem.put(f0 + i, Obj { size: 0, base: addr_of(f0 + i, 16), align: 16, kind: Kind::Func, bytes: vec![], meta: None });
        }
        mem
    }

    fn undef(&mut self, w: u32) -> E {
        let mut r: Option<E> = None;
        let mut left = w;
        while left > 0 {
            let v = var(self.undef_next);
            self.undef_next += 1;
            let n = left.min(8);
            let p = extract(v, 0, n);
            r = Some(match r {
                None => p,
                Some(x) => concat(p, x),
            });
            left -= n;
        }
        r.unwrap()
    }

    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => konst(w, *x as u128),
            V::S(e) => *e,
            V::U => self.undef(w),
            V::A(_) => panic!("aggregate as scalar"),
        }
    }

    fn kv(k: &K, ty: TyId) -> V {
        match k {
            K::Undef => V::U,
            K::Int(v) => {
                let w = with_types(|t| t.bits(ty));
                if w <= 64 {
                    V::C(*v as u64)
                } else {
                    V::S(konst(w, *v))
                }
            }
            K::Agg(ks) => {
                let fs = with_types(|t| match &t.tys[ty as usize] {
                    Ty::Struct(fs, _) => fs.clone(),
                    Ty::Arr(n, e) => vec![*e; *n as usize],
                    Ty::Vec(n, e) => vec![*e; *n as usize],
                    _ => panic!("aggregate constant of scalar type"),
                });
                V::A(Rc::new(ks.iter().zip(fs).map(|(k, t)| Engine::kv(k, t)).collect()))
            }
        }
    }

    #[inline]
    fn val(&self, st: &State, o: &Opnd) -> V {
        match o {
            Opnd::Reg(r) => match &st.cur.regs[*r as usize] {
                V::S(e) => cv(self.settle(st, *e)),
                v => v.clone(),
            },
            Opnd::C(c) => V::C(*c),
            Opnd::Undef => V::U,
            Opnd::K(k, t) => Engine::kv(k, *t),
        }
    }

    /// A choice whose condition the path has decided is what was chosen.
    #[inline]
    fn settle(&self, st: &State, mut e: E) -> E {
        loop {
            let n = node(e);
            if n.op != Op::Ite {
                return e;
            }
            match self.decided(st, n.a, 8) {
                Some(true) => e = n.b,
                Some(false) => e = n.c,
                None => return e,
            }
        }
    }
    fn decided(&self, st: &State, c: E, depth: u32) -> Option<bool> {
        if let Some(b) = self.quick(st, c) {
            return Some(b);
        }
        if depth == 0 {
            return None;
        }
        let n = node(c);
        match n.op {
            Op::Xor if as_const(n.b) == Some(1) => self.decided(st, n.a, depth - 1).map(|b| !b),
            Op::And | Op::Or if n.w == 1 => {
                let hit = n.op == Op::Or;
                match (self.decided(st, n.a, depth - 1), self.decided(st, n.b, depth - 1)) {
                    (Some(x), _) | (_, Some(x)) if x == hit => Some(hit),
                    (Some(_), Some(_)) => Some(!hit),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// Decides a condition from comparisons of sums.
    fn lin_cond(&self, st: &State, c: E, depth: u32) -> Option<bool> {
        if let Some(b) = self.quick(st, c) {
            return Some(b);
        }
        if depth == 0 {
            return None;
        }
        let n = node(c);
        match n.op {
            Op::Xor if as_const(n.b) == Some(1) => self.lin_cond(st, n.a, depth - 1).map(|b| !b),
            Op::And | Op::Or if n.w == 1 => {
                let hit = n.op == Op::Or;
                match (self.lin_cond(st, n.a, depth - 1), self.lin_cond(st, n.b, depth - 1)) {
                    (Some(x), _) | (_, Some(x)) if x == hit => Some(hit),
                    (Some(_), Some(_)) => Some(!hit),
                    _ => None,
                }
            }
            _ => self.linear_decide(st, c),
        }
    }

    pub fn is_fixed(&self, st: &State, e: E) -> bool {
        let n = node(e);
        if n.und || st.nvars > 64 * NSUP as u32 {
            return false;
        }
        (0..NSUP).all(|i| n.sup[i] & !st.fixed[i] == 0)
    }

    pub fn conc(&self, st: &State, v: &V, what: &str) -> R<u64> {
        match v {
            V::C(x) => Ok(*x),
            V::S(e) => {
                if let Some(c) = as_const(*e) {
                    return Ok(c as u64);
                }
                let e = self.defined(st, *e, &format!("{} depends on", what))?;
                if let Some(c) = as_const(e) {
                    return Ok(c as u64);
                }
                if self.is_fixed(st, e) {
                    return Ok(eval(e, &st.model) as u64);
                }
                if let Some(x) = st.known.get(&e) {
                    return Ok(*x);
                }
                Err(Ev::Conc(e))
            }
            V::U => Err(Ev::Bug("uninit", format!("{} is undefined", what))),
            V::A(_) => Err(Ev::Stuck("aggregate where a scalar is needed".into())),
        }
    }

    /// Decides a condition: Some(b) when it holds one way on this path by simple means.
    pub fn quick(&self, st: &State, c: E) -> Option<bool> {
        if let Some(k) = as_const(c) {
            return Some(k == 1);
        }
        if self.is_fixed(st, c) {
            return Some(eval(c, &st.model) == 1);
        }
        let n = not(c);
        for &p in st.pc.iter().rev() {
            if p == c {
                return Some(true);
            }
            if p == n {
                return Some(false);
            }
        }
        None
    }

    /// An expression that mentions undefined bytes, with every choice this path has already made applied;
    /// asks for a fork on a choice that is still open and matters; an error when undefinedness is really reachable.
    fn defined(&self, st: &State, e: E, what: &str) -> R<E> {
        if !node(e).und {
            return Ok(e);
        }
        let r = self.und_simp(st, e, &mut HashMap::new());
        if !node(r).und {
            return Ok(r);
        }
        let mut seen = std::collections::HashSet::new();
        if let Some(c) = und_choice(r, &mut seen) {
            return Err(Ev::Br(c));
        }
        { if self.log { let mut x = show(r); x.truncate(1500); eprintln!("und {}", x); } Err(Ev::Bug("uninit", format!("{} uninitialised memory", what))) }
    }

    fn und_simp(&self, st: &State, e: E, memo: &mut HashMap<E, E>) -> E {
        let n = node(e);
        if !n.und {
            return match if n.w == 1 { self.quick(st, e) } else { None } {
                Some(k) => konst(1, k as u128),
                None => e,
            };
        }
        if let Some(x) = memo.get(&e) {
            return *x;
        }
        let r = if n.op == Op::Ite && !node(n.a).und && self.quick(st, n.a).is_some() {
            let t = self.quick(st, n.a) == Some(true);
            self.und_simp(st, if t { n.b } else { n.c }, memo)
        } else {
            rebuild(e, &mut |x| self.und_simp(st, x, memo))
        };
        memo.insert(e, r);
        r
    }

    /// A condition over floating point arithmetic: explore the table entries and small operands behind it
    /// one by one instead of handing them to the floating point theory.
    fn fp_split(&self, st: &State, c: E) -> R<E> {
        let mut seen = std::collections::HashSet::new();
        if !has_fp(c, &mut seen) {
            return Ok(c);
        }
        let c2 = self.simp(st, c, &mut HashMap::new());
        if as_const(c2).is_some() {
            return Ok(c2);
        }
        seen.clear();
        let t = fp_table(c2, &mut seen).or_else(|| {
            seen.clear();
            fp_small(c2, 999, &mut seen)
        });
        if let Some(t) = t {
            // byte by byte: small queries, and everything that depends on the bytes becomes concrete
            let sp = node(t).sup;
            let free: Vec<u32> = (0..st.nvars.min(64 * NSUP as u32)).filter(|v| sp[*v as usize / 64] & !st.fixed[*v as usize / 64] & (1 << (v % 64)) != 0).collect();
            if st.nvars <= 64 * NSUP as u32 && !free.is_empty() && free.len() <= 4 {
                return Err(Ev::Conc(var(free[0])));
            }
            return Err(Ev::Conc(t));
        }
        if self.log {
            let mut x = show(c2);
            x.truncate(300);
            eprintln!("fp {} {}", self.trace(st)[0], x);
        }
        Ok(c2)
    }

    /// Decides a condition or asks for a fork.
    pub fn dec(&mut self, st: &State, v: &V) -> R<bool> {
        match v {
            V::C(x) => Ok(*x & 1 == 1),
            V::U => Err(Ev::Bug("uninit", "condition is undefined".into())),
            V::S(e) => {
                let e = self.defined(st, *e, "condition depends on")?;
                match self.quick(st, e) {
                    Some(b) => Ok(b),
                    None => {
                        let c = self.fp_split(st, e)?;
                        match as_const(c) {
                            Some(k) => Ok(k == 1),
                            None => Err(Ev::Br(c)),
                        }
                    }
                }
            }
            V::A(_) => Err(Ev::Stuck("aggregate condition".into())),
        }
    }

    fn slice(&self, st: &State, q: E) -> Vec<E> {
        let mut s = *sup(q);
        let n = st.pc.len();
        let mut used = vec![false; n];
        let mut out = vec![q];
        loop {
            let mut ch = false;
            for i in 0..n {
                if used[i] {
                    continue;
                }
                let t = sup(st.pc[i]);
                if (0..NSUP).any(|k| s[k] & t[k] != 0) {
                    used[i] = true;
                    out.push(st.pc[i]);
                    for k in 0..NSUP {
                        if t[k] & !s[k] != 0 {
                            ch = true;
                            s[k] |= t[k];
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out.sort_unstable();
        out.dedup();
        out
    }

    /// Is pc && q satisfiable? Returns an updated model when it is.
    pub fn sat(&mut self, st: &State, q: E) -> R<Option<Rc<Vec<u8>>>> {
        if as_const(q) == Some(0) {
            return Ok(None);
        }
        if eval(q, &st.model) == 1 {
            return Ok(Some(st.model.clone()));
        }
        if let Some(b) = self.linear_decide(st, q) {
            self.linear += 1;
            if !b {
                return Ok(None);
            }
        }
        let cs = self.slice(st, q);
        let t0 = Instant::now();
        let r = {
            let me: *const Engine = self;
            // only reads the path and the expressions, never the solver
            let alt = || unsafe { (*me).lia_text(st, &cs, false) };
            self.solver.check(&cs, &alt)
        };
        if self.log && t0.elapsed().as_millis() > 200 {
            let mut x = show(q);
            x.truncate(400);
            eprintln!("slow {} ms, {} conjuncts at {}: {}", t0.elapsed().as_millis(), cs.len(), self.trace(st)[0], x);
        }
        match r {
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Ev::Stuck("solver gave no answer".into())),
            Res::Sat(asg) => {
                let mut m = (*st.model).clone();
                for &(i, b) in asg.iter() {
                    if (i as usize) < m.len() {
                        m[i as usize] = b;
                    }
                }
                if eval(q, &m) != 1 {
                    // z3 leaves irrelevant variables out; anything else is an encoding error
                    return Err(Ev::Stuck("solver model does not satisfy the query".into()));
                }
                for &c in &cs {
                    if eval(c, &m) != 1 {
                        return Err(Ev::Stuck("solver model does not satisfy the path".into()));
                    }
                }
                Ok(Some(Rc::new(m)))
            }
        }
    }

    /// The values of byte `v` that satisfy `c`, which depends on nothing else.
    fn domain(&mut self, c: E, v: u32) -> [u64; 4] {
        if let Some(d) = self.domains.get(&c) {
            return *d;
        }
        let mut m = vec![0u8; v as usize + 1];
        let mut d = [0u64; 4];
        for i in 0..256usize {
            m[v as usize] = i as u8;
            if eval(c, &m) == 1 {
                d[i / 64] |= 1 << (i % 64);
            }
        }
        self.domains.insert(c, d);
        d
    }

    /// Rewrites an expression with what is known on this path.
    pub fn simp_once(&self, st: &State, e: E) -> E {
        self.simp(st, e, &mut HashMap::new())
    }

    pub fn simp(&self, st: &State, e: E, memo: &mut HashMap<E, E>) -> E {
        if as_const(e).is_some() {
            return e;
        }
        if let Some(x) = memo.get(&e) {
            return *x;
        }
        let settled = self.settle(st, e);
        let r = if settled != e {
            self.simp(st, settled, memo)
        } else if self.is_fixed(st, e) {
            konst(width(e), eval(e, &st.model))
        } else if let Some(k) = st.known.get(&e) {
            konst(width(e), *k as u128)
        } else {
            let n = node(e);
            let side = match n.op {
                Op::Ite => {
                    let c = self.simp(st, n.a, memo);
                    match as_const(c) {
                        Some(k) => Some(k == 1),
                        None => self.lin_cond(st, c, 8),
                    }
                }
                _ => None,
            };
            match side {
                Some(b) => self.simp(st, if b { n.b } else { n.c }, memo),
                None => {
                    let r = rebuild(e, &mut |x| self.simp(st, x, memo));
                    match st.known.get(&r) {
                        Some(k) => konst(width(r), *k as u128),
                        None => r,
                    }
                }
            }
        };
        memo.insert(e, r);
        r
    }

    fn add(&mut self, st: &mut State, c: E) {
        if as_const(c).is_some() {
            return;
        }
        let n = node(c);
        if n.op == Op::And {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        if n.op == Op::Xor && as_const(n.b) == Some(1) {
            let o = node(n.a);
            if o.op == Op::Or {
                self.add(st, not(o.a));
                self.add(st, not(o.b));
                return;
            }
        }
        if st.pc.contains(&c) {
            return;
        }
        if st.nvars <= 64 * NSUP as u32 && !n.und {
            let ones: u32 = n.sup.iter().map(|x| x.count_ones()).sum();
            if ones == 1 {
                let k = n.sup.iter().position(|&x| x != 0).unwrap();
                let v = (k * 64) as u32 + n.sup[k].trailing_zeros();
                let d = self.domain(c, v);
                let m = Rc::make_mut(&mut st.dom);
                let cur = m.entry(v).or_insert([!0; 4]);
                let mut left = 0;
                for i in 0..4 {
                    cur[i] &= d[i];
                    left += cur[i].count_ones();
                }
                if left == 1 {
                    st.fixed[k] |= n.sup[k];
                }
            }
        }
        st.pc.push(c);
        if st.pc.len() > self.max_pc {
            self.max_pc = st.pc.len();
        }
    }

    // ---- memory ----

    fn find(&self, st: &State, a: u64, n: u64, write: bool) -> R<(u64, usize)> {
        let id = a >> 32;
        match st.mem.get(id) {
            None => {
                if id < GLOBAL0 {
                    return Err(Ev::Bug("memory", format!("access through invalid pointer {:#x}", a)));
                }
                Err(Ev::Bug("memory", format!("access to a dead or unknown object at {:#x}", a)))
            }
            Some(o) => {
                let off = a.wrapping_sub(o.base);
                if off > o.size || o.size - off < n {
                    return Err(Ev::Bug(
                        "memory",
                        format!("out-of-bounds {} of {} bytes at offset {} of a {:?} object of {} bytes", if write { "write" } else { "read" }, n, off as i64, o.kind, o.size),
                    ));
                }
                if write && o.kind == Kind::Const {
                    return Err(Ev::Bug("memory", "write to a constant".into()));
                }
                if o.kind == Kind::Ext {
                    return Err(Ev::Stuck("access to an external global".into()));
                }
                if let Some(x) = &st.other {
                    if x.saved.is_none() && st.steps > x.pass {
                        let shared = match o.kind {
                            Kind::Global => self.shared[(id - GLOBAL0) as usize],
                            Kind::Heap => write && id < x.first,
                            _ => false,
                        };
                        if shared {
                            return Err(Ev::Shared);
                        }
                    }
                }
                Ok((id, off as usize))
            }
        }
    }

    fn fold(&self, st: &State, e: E) -> E {
        if e != CONC && e != UNINIT && self.is_fixed(st, e) {
            return konst(8, eval(e, &st.model));
        }
        e
    }

    /// Byte of an object as an expression.
    fn byte(&mut self, st: &State, id: u64, off: usize) -> E {
        let o = st.mem.get(id).unwrap();
        match o.meta_at(off) {
            CONC => konst(8, o.bytes[off] as u128),
            UNINIT => self.undef(8),
            e => self.fold(st, e),
        }
    }

    fn load_at(&mut self, st: &State, id: u64, off: usize, w: u32) -> V {
        let n = ((w + 7) / 8) as usize;
        let o = st.mem.get(id).unwrap();
        if n <= 8 && o.all_conc(off, n) {
            return V::C(o.read_conc(off, n) & m64(w));
        }
        if let Some(m) = &o.meta {
            if m[off..off + n].iter().all(|&x| x == UNINIT) {
                return V::U;
            }
        }
        let mut r: Option<E> = None;
        for i in 0..n {
            let b = self.byte(st, id, off + i);
            r = Some(match r {
                None => b,
                Some(x) => concat(b, x),
            });
        }
        let r = r.unwrap();
        let r = if width(r) > w { extract(r, 0, w) } else { r };
        cv(self.settle(st, r))
    }

    fn load_ty(&mut self, st: &State, id: u64, off: usize, ty: TyId) -> V {
        let t = with_types(|t| t.tys[ty as usize].clone());
        match t {
            Ty::Vec(n, et) => {
                let ew = with_types(|t| t.bits(et));
                if ew % 8 == 0 {
                    let s = (ew / 8) as usize;
                    V::A(Rc::new((0..n as usize).map(|i| self.load_at(st, id, off + i * s, ew)).collect()))
                } else {
                    let total = ew * n;
                    let v = self.load_at(st, id, off, total);
                    let e = self.e(&v, total);
                    V::A(Rc::new((0..n).map(|i| cv(extract(e, i * ew, ew))).collect()))
                }
            }
            Ty::Arr(..) | Ty::Struct(..) => {
                let fs = with_types(|t| t.fields(ty));
                V::A(Rc::new(fs.into_iter().map(|(o, t)| self.load_ty(st, id, off + o as usize, t)).collect()))
            }
            Ty::Void | Ty::Other => V::U,
            _ => {
                let w = with_types(|t| t.bits(ty));
                self.load_at(st, id, off, w)
            }
        }
    }

    fn load(&mut self, st: &State, p: &V, ty: TyId, w: u32, align: u64) -> R<V> {
        let n = if w > 0 { ((w + 7) / 8) as u64 } else { with_types(|t| t.size(ty)) };
        match p {
            V::S(e) if as_const(*e).is_none() && !self.is_fixed(st, *e) && !st.known.contains_key(e) && w > 0 => self.load_sym(st, *e, n, w),
            _ => {
                let a = self.conc(st, p, "pointer")?;
                let (id, off) = self.find(st, a, n, false)?;
                if align > 1 && a % align != 0 {
                    return Err(Ev::Bug("memory", format!("misaligned read at {:#x}, needs {}", a, align)));
                }
                Ok(if w > 0 { self.load_at(st, id, off, w) } else { self.load_ty(st, id, off, ty) })
            }
        }
    }

    /// Load through a symbolic address: all candidates within the object the current model points to.
    fn load_sym(&mut self, st: &State, e: E, n: u64, w: u32) -> R<V> {
        let e = self.defined(st, e, "pointer depends on")?;
        let a0 = eval(e, &st.model) as u64;
        let (id, _) = self.find(st, a0, n, false)?;
        let o = st.mem.get(id).unwrap();
        let (base, size) = (o.base, o.size);
        if size > 16384 {
            return Err(Ev::Conc(e));
        }
        let inb = {
            // base <= e <= base+size-n, written so that constant offsets cancel
            let d = bin(Op::Sub, e, konst(64, base as u128));
            bin(Op::Ult, d, konst(64, (size - n + 1) as u128))
        };
        match self.quick(st, inb) {
            Some(true) => {}
            Some(false) => return Err(Ev::Stuck("model and path disagree".into())),
            None => return Err(Ev::Br(inb)),
        }
        // which offsets are possible by shape: known low zero bits
        let d = bin(Op::Sub, e, konst(64, base as u128));
        let step = 1u64 << low_zero_bits(d).min(6);
        let max = shape_max(d).min((size - n) as u128) as u64;
        let mut vals: Vec<(u64, E)> = Vec::new();
        let mut k = 0;
        while k <= max {
            let v = self.load_at(st, id, k as usize, w);
            let x = self.e(&v, w);
            vals.push((k, x));
            k += step;
        }
        // runs of equal values, then a balanced decision tree over the offset
        let mut runs: Vec<(u64, E)> = Vec::new();
        for (k, x) in vals {
            match runs.last() {
                Some(&(_, y)) if y == x => {}
                _ => runs.push((k, x)),
            }
        }
        if runs.len() > 2048 {
            return Err(Ev::Conc(e));
        }
        fn tree(d: E, r: &[(u64, E)]) -> E {
            if r.len() == 1 {
                return r[0].1;
            }
            let mid = r.len() / 2;
            let c = bin(Op::Ult, d, konst(64, r[mid].0 as u128));
            let a = tree(d, &r[..mid]);
            let b = tree(d, &r[mid..]);
            ite(c, a, b)
        }
        Ok(cv(tree(d, &runs)))
    }

    fn store_at(&mut self, st: &mut State, id: u64, off: usize, w: u32, v: &V) {
        let n = ((w + 7) / 8) as usize;
        match v {
            V::C(x) if n <= 8 => st.mem.get_mut(id).unwrap().write_conc(off, n, *x & m64(w)),
            V::U => st.mem.get_mut(id).unwrap().write_uninit(off, n),
            _ => {
                let mut e = self.e(v, w);
                if (w % 8) != 0 {
                    e = zext(e, n as u32 * 8);
                }
                let o = st.mem.get_mut(id).unwrap();
                for i in 0..n {
                    o.write_byte(off + i, extract(e, i as u32 * 8, 8));
                }
            }
        }
    }

    fn store_ty(&mut self, st: &mut State, id: u64, off: usize, ty: TyId, v: &V) {
        let t = with_types(|t| t.tys[ty as usize].clone());
        match (t, v) {
            (Ty::Vec(n, et), V::A(vs)) => {
                let ew = with_types(|t| t.bits(et));
                if ew % 8 == 0 {
                    for i in 0..n as usize {
                        self.store_at(st, id, off + i * (ew / 8) as usize, ew, &vs[i]);
                    }
                } else {
                    let mut r: Option<E> = None;
                    for x in vs.iter() {
                        let b = self.e(x, ew);
                        r = Some(match r {
                            None => b,
                            Some(y) => concat(b, y),
                        });
                    }
                    let v = cv(r.unwrap());
                    self.store_at(st, id, off, ew * n, &v);
                }
            }
            (Ty::Arr(..), V::A(vs)) | (Ty::Struct(..), V::A(vs)) => {
                let fs = with_types(|t| t.fields(ty));
                for (i, (o, t)) in fs.into_iter().enumerate() {
                    self.store_ty(st, id, off + o as usize, t, &vs[i]);
                }
            }
            (Ty::Vec(..), _) | (Ty::Arr(..), _) | (Ty::Struct(..), _) => {
                let n = with_types(|t| t.size(ty)) as usize;
                st.mem.get_mut(id).unwrap().write_uninit(off, n);
            }
            _ => {
                let w = with_types(|t| t.bits(ty));
                self.store_at(st, id, off, w, v);
            }
        }
    }

    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.find(st, s, n, false)?;
        let (di, do_) = self.find(st, d, n, true)?;
        let n = n as usize;
        let src = st.mem.get(si).unwrap();
        if src.all_conc(so, n) {
            let b = src.bytes[so..so + n].to_vec();
            let o = st.mem.get_mut(di).unwrap();
            o.bytes[do_..do_ + n].copy_from_slice(&b);
            if let Some(m) = &mut o.meta {
                m[do_..do_ + n].fill(CONC);
            }
        } else {
            let b = src.bytes[so..so + n].to_vec();
            let mm: Vec<E> = (so..so + n).map(|i| src.meta_at(i)).collect();
            let mm: Vec<E> = mm.into_iter().map(|e| self.fold(st, e)).collect();
            let o = st.mem.get_mut(di).unwrap();
            let len = o.bytes.len();
            let m = o.meta.get_or_insert_with(|| vec![CONC; len]);
            for i in 0..n {
                match as_const(mm[i]) {
                    Some(v) if width(mm[i]) == 8 => {
                        o.bytes[do_ + i] = v as u8;
                        m[do_ + i] = CONC;
                    }
                    _ => {
                        o.bytes[do_ + i] = b[i];
                        m[do_ + i] = mm[i];
                    }
                }
            }
        }
        Ok(())
    }

    // ---- arithmetic ----

    fn bin2(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u64 {
                        return Ok(V::U);
                    }
                    x << y
                }
                BinOp::LShr => {
                    if y >= w as u64 {
                        return Ok(V::U);
                    }
                    x >> y
                }
                BinOp::AShr => {
                    if y >= w as u64 {
                        return Ok(V::U);
                    }
                    (sx(x, w) >> y) as u64
                }
                BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                    if y == 0 {
                        return Err(Ev::Bug("ub", "division by zero".into()));
                    }
                    match op {
                        BinOp::UDiv => x / y,
                        BinOp::URem => x % y,
                        BinOp::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u64,
                        _ => sx(x, w).wrapping_rem(sx(y, w)) as u64,
                    }
                }
            };
            return Ok(V::C(r & m));
        }
        if let (V::U, V::U) = (a, b) {
            return Ok(V::U);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
        };
        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && as_const(y).map_or(true, |v| v == 0) {
            return Err(Ev::Stuck("division by a symbolic value".into()));
        }
        Ok(cv(bin(o, x, y)))
    }

    fn cmp2(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sxx, syy) = (sx(x, w), sx(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sxx < syy,
                Pred::Sle => sxx <= syy,
                Pred::Sgt => sxx > syy,
                Pred::Sge => sxx >= syy,
            };
            return V::C(r as u64);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let r = match p {
            Pred::Eq => bin(Op::Eq, x, y),
            Pred::Ne => not(bin(Op::Eq, x, y)),
            Pred::Ult => bin(Op::Ult, x, y),
            Pred::Uge => not(bin(Op::Ult, x, y)),
            Pred::Ugt => bin(Op::Ult, y, x),
            Pred::Ule => not(bin(Op::Ult, y, x)),
            Pred::Slt => bin(Op::Slt, x, y),
            Pred::Sge => not(bin(Op::Slt, x, y)),
            Pred::Sgt => bin(Op::Slt, y, x),
            Pred::Sle => not(bin(Op::Slt, y, x)),
        };
        cv(r)
    }

    fn fcmp2(&mut self, p: FPred, w: u32, a: &V, b: &V) -> V {
        let x = self.e(a, w);
        let y = self.e(b, w);
        let uno = or(un_f(Op::FIsNan, x, 1), un_f(Op::FIsNan, y, 1));
        let lt = |a, b| bin(Op::FLt, a, b);
        let le = |a, b| bin(Op::FLe, a, b);
        let feq = |a, b| bin(Op::FEq, a, b);
        cv(match p {
            FPred::False => fls(),
            FPred::True => tru(),
            FPred::Oeq => feq(x, y),
            FPred::Ogt => lt(y, x),
            FPred::Oge => le(y, x),
            FPred::Olt => lt(x, y),
            FPred::Ole => le(x, y),
            FPred::One => and(not(uno), not(feq(x, y))),
            FPred::Ord => not(uno),
            FPred::Uno => uno,
            FPred::Ueq => or(uno, feq(x, y)),
            FPred::Ugt => not(le(x, y)),
            FPred::Uge => not(lt(x, y)),
            FPred::Ult => not(le(y, x)),
            FPred::Ule => not(lt(y, x)),
            FPred::Une => not(feq(x, y)),
        })
    }

    fn lanes2(&mut self, n: u32, a: &V, b: &V, mut f: impl FnMut(&mut Self, &V, &V) -> R<V>) -> R<V> {
        let u = V::U;
        let mut out = Vec::with_capacity(n as usize);
        for i in 0..n as usize {
            let x = if let V::A(v) = a { &v[i] } else { &u };
            let y = if let V::A(v) = b { &v[i] } else { &u };
            let r = f(self, x, y)?;
            out.push(r);
        }
        Ok(V::A(Rc::new(out)))
    }

    fn select(&mut self, c: E, a: &V, b: &V, ty: TyId) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let fs: Vec<TyId> = with_types(|t| t.fields(ty).into_iter().map(|f| f.1).collect());
                V::A(Rc::new((0..x.len()).map(|i| self.select(c, &x[i], &y[i], fs[i])).collect()))
            }
            (V::A(_), _) | (_, V::A(_)) => {
                // an undefined aggregate on one side
                if let V::A(_) = a {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            (V::U, V::U) => V::U,
            _ => {
                let w = with_types(|t| t.bits(ty));
                let x = self.e(a, w);
                let y = self.e(b, w);
                cv(ite(c, x, y))
            }
        }
    }

    fn cast(&mut self, st: &State, op: Cast, from: TyId, to: TyId, a: &V) -> R<V> {
        let (ft, tt) = with_types(|t| (t.tys[from as usize].clone(), t.tys[to as usize].clone()));
        if let (Ty::Vec(n, fe), Ty::Vec(n2, te)) = (&ft, &tt) {
            if n == n2 && op != Cast::BitCast {
                let (fe, te) = (*fe, *te);
                return self.lanes2(*n, a, &V::U, |s, x, _| s.cast(st, op, fe, te, x));
            }
        }
        if matches!(ft, Ty::Vec(..)) || matches!(tt, Ty::Vec(..)) {
            // bitcast through one integer, lane 0 lowest
            let fv = matches!(ft, Ty::Vec(..));
            let e = if fv {
                let (n, fe) = match ft {
                    Ty::Vec(n, e) => (n, e),
                    _ => unreachable!(),
                };
                let ew = with_types(|t| t.bits(fe));
                let vs = match a {
                    V::A(v) => v.clone(),
                    _ => Rc::new(vec![V::U; n as usize]),
                };
                let mut r: Option<E> = None;
                for x in vs.iter() {
                    let b = self.e(x, ew);
                    r = Some(match r {
                        None => b,
                        Some(y) => concat(b, y),
                    });
                }
                r.unwrap()
            } else {
                let w = with_types(|t| t.bits(from));
                self.e(a, w)
            };
            return Ok(match tt {
                Ty::Vec(n, te) => {
                    let ew = with_types(|t| t.bits(te));
                    V::A(Rc::new((0..n).map(|i| cv(extract(e, i * ew, ew))).collect()))
                }
                _ => cv(e),
            });
        }
        let (fw, tw) = with_types(|t| (t.bits(from), t.bits(to)));
        match op {
            Cast::BitCast | Cast::PtrToInt | Cast::IntToPtr => {
                if fw == tw {
                    return Ok(a.clone());
                }
                let e = self.e(a, fw);
                return Ok(cv(if tw < fw { extract(e, 0, tw) } else { zext(e, tw) }));
            }
            Cast::Trunc => {
                if let V::C(x) = a {
                    return Ok(V::C(x & m64(tw)));
                }
                if let V::U = a {
                    return Ok(V::U);
                }
                let e = self.e(a, fw);
                return Ok(cv(extract(e, 0, tw)));
            }
            Cast::ZExt => {
                if let (V::C(x), true) = (a, tw <= 64) {
                    return Ok(V::C(*x));
                }
                let e = self.e(a, fw);
                return Ok(cv(zext(e, tw)));
            }
            Cast::SExt => {
                if let (V::C(x), true) = (a, tw <= 64) {
                    return Ok(V::C(sx(*x, fw) as u64 & m64(tw)));
                }
                let e = self.e(a, fw);
                return Ok(cv(sext_to(e, tw)));
            }
            Cast::FpExt => {
                let e = self.e(a, fw);
                Ok(cv(un_f(Op::FExt, e, tw)))
            }
            Cast::FpTrunc => {
                let e = self.e(a, fw);
                Ok(cv(un_f(Op::FTrunc, e, tw)))
            }
            Cast::UiToFp => {
                let e = self.e(a, fw);
                Ok(cv(un_f(Op::UToF, e, tw)))
            }
            Cast::SiToFp => {
                let e = self.e(a, fw);
                Ok(cv(un_f(Op::SToF, e, tw)))
            }
            Cast::FpToUi | Cast::FpToSi => {
                let e = self.e(a, fw);
                if as_const(e).is_none() {
                    return Err(Ev::Stuck("symbolic float to int".into()));
                }
                Ok(cv(un_f(if op == Cast::FpToUi { Op::FToU } else { Op::FToS }, e, tw)))
            }
        }
    }

    // ---- control ----

    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.cur.f.clone();
        let from = st.cur.blk;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let o = p.inc.iter().find(|x| x.0 == from).expect("phi edge");
                vals.push((p.dst, self.val(st, &o.1)));
            }
            for (d, v) in vals {
                st.cur.regs[d as usize] = v;
            }
        }
        st.cur.prev = from;
        st.cur.blk = to;
        st.cur.ip = 0;
    }

    fn push(&mut self, st: &mut State, fi: u32, args: Vec<V>, catch: bool) -> R<()> {
        let f = match self.m.func(fi) {
            Some(f) => f,
            None => return Err(Ev::Stuck(format!("no body for {}", self.m.funcs[fi as usize].name))),
        };
        self.entered[fi as usize] += 1;
        if st.stack.len() > 60000 {
            return Err(Ev::Bug("stack", "call stack deeper than 60000 frames".into()));
        }
        let mut regs = vec![V::U; f.nregs as usize];
        for (i, v) in args.into_iter().enumerate() {
            if i < f.params.len() {
                regs[f.params[i] as usize] = v;
            }
        }
        let fr = Frame { f, regs, blk: 0, prev: 0, ip: 0, allocas: Vec::new(), catch, other: false };
        let old = std::mem::replace(&mut st.cur, fr);
        st.stack.push(Rc::new(old));
        let d = st.stack.len() as u64;
        if d > st.peak {
            st.peak = d;
        }
        Ok(())
    }

    fn pop(&mut self, st: &mut State) -> bool {
        for &id in &st.cur.allocas {
            st.mem.kill(id);
        }
        match st.stack.pop() {
            None => false,
            Some(f) => {
                st.cur = Rc::try_unwrap(f).unwrap_or_else(|r| (*r).clone());
                true
            }
        }
    }

    /// Returns to the caller whose ip still points at the call.
    fn ret(&mut self, st: &mut State, v: V) -> R<()> {
        let was_catch = st.cur.catch;
        let was_other = st.cur.other;
        if !self.pop(st) {
            return Err(Ev::Prune);
        }
        if was_other {
            // the first thread goes on where it was, alone
            let x = st.other.take().unwrap();
            for (id, o) in x.saved.unwrap().iter() {
                st.mem.put(*id, o.clone());
            }
            return Ok(());
        }
        let f = st.cur.f.clone();
        match &f.blocks[st.cur.blk as usize].insts[st.cur.ip as usize] {
            Inst::Call(c) => {
                if let Some(d) = c.dst {
                    st.cur.regs[d as usize] = if was_catch { V::C(0) } else { v };
                }
                match c.invoke {
                    None => st.cur.ip += 1,
                    Some((n, _)) => self.jump(st, n),
                }
                Ok(())
            }
            _ => Err(Ev::Stuck("return to a non-call".into())),
        }
    }

    /// Unwinds one step from the current frame's call at ip.
    fn unwind(&mut self, st: &mut State, mut from_call: bool) -> R<()> {
        loop {
            if from_call {
                let f = st.cur.f.clone();
                if let Inst::Call(c) = &f.blocks[st.cur.blk as usize].insts[st.cur.ip as usize] {
                    if let Some((_, u)) = c.invoke {
                        st.unwinding = true;
                        self.jump(st, u);
                        return Ok(());
                    }
                }
            }
            let was_catch = st.cur.catch;
            if st.cur.other {
                return Err(Ev::Bug("panic", "unwinding left the second thread".into()));
            }
            if !self.pop(st) {
                return Err(Ev::Bug("panic", "unwinding left the harness".into()));
            }
            if was_catch {
                st.unwinding = false;
                let f = st.cur.f.clone();
                if let Inst::Call(c) = &f.blocks[st.cur.blk as usize].insts[st.cur.ip as usize] {
                    if let Some(d) = c.dst {
                        st.cur.regs[d as usize] = V::C(1);
                    }
                    match c.invoke {
                        None => st.cur.ip += 1,
                        Some((n, _)) => self.jump(st, n),
                    }
                }
                return Ok(());
            }
            from_call = true;
        }
    }

    pub fn trace(&self, st: &State) -> Vec<String> {
        let mut v = Vec::new();
        let mut add = |f: &Frame| {
            let d = &self.m.funcs[f.f.id as usize];
            let n = if d.demangled.is_empty() { &d.name } else { &d.demangled };
            v.push(format!("{} (block {})", n, f.f.blocks[f.blk as usize].name));
        };
        add(&st.cur);
        for f in st.stack.iter().rev().take(25) {
            add(f);
        }
        v
    }

    pub fn inputs_of(&self, st: &State, model: &[u8]) -> Vec<(String, Vec<u8>)> {
        st.inputs
            .iter()
            .map(|i| {
                let b = match &i.conc {
                    Some(c) => (**c).clone(),
                    None => (i.first..i.first + i.n).map(|k| *model.get(k as usize).unwrap_or(&0)).collect(),
                };
                (i.label.to_string(), b)
            })
            .collect()
    }

    fn report(&mut self, st: &State, model: &[u8], kind: &str, msg: String) {
        let b = Bug { kind: kind.into(), msg, trace: self.trace(st), inputs: self.inputs_of(st, model) };
        self.bugs.push(b);
    }

    /// A finished path: counted only if its constraints hold under its model (they always should).
    fn finish(&mut self, st: &State) {
        self.paths += 1;
        for c in st.covers.iter() {
            *self.covers.entry(*c).or_insert(0) += 1;
        }
        let n = self.paths;
        if st.mixed {
            // natively nobody would interrupt it there
            return;
        }
        if self.samples.len() < 40 || (n & (n - 1)) == 0 {
            let logs = st.logs.iter().map(|v| match v {
                V::C(x) => *x,
                V::S(e) => eval(*e, &st.model) as u64,
                _ => 0,
            }).collect();
            let s = (self.inputs_of(st, &st.model), st.covers.iter().cloned().collect(), logs);
            if self.samples.len() >= 60 {
                let k = (n as usize * 7) % 60;
                self.samples[k] = s;
            } else {
                self.samples.push(s);
            }
        }
    }

    pub fn entry_state(&self, name: &str) -> State {
        let fi = *self.m.fmap.get(name).unwrap_or_else(|| {
            eprintln!("no harness function {}", name);
            std::process::exit(3)
        });
        let f = self.m.func(fi).unwrap();
        let regs = vec![V::U; f.nregs as usize];
        State {
            cur: Frame { f, regs, blk: 0, prev: 0, ip: 0, allocas: Vec::new(), catch: false, other: false },
            stack: Vec::new(),
            mem: self.base_mem(),
            pc: Vec::new(),
            model: Rc::new(Vec::new()),
            known: Rc::new(HashMap::new()),
            dom: Rc::new(HashMap::new()),
            fixed: [0; NSUP],
            nvars: 0,
            inputs: Rc::new(Vec::new()),
            steps: 0,
            peak: 0,
            covers: Rc::new(BTreeSet::new()),
            logs: Rc::new(Vec::new()),
            unwinding: false,
            other: None,
            mixed: false,
            forks: 0,
        }
    }

    pub fn out_of_budget(&mut self) -> bool {
        if self.start.elapsed().as_secs_f64() > self.lim.max_secs || self.paths + self.pruned > self.lim.max_paths {
            self.out_of_time = true;
            return true;
        }
        false
    }

    /// Explores everything reachable. With `split = (i, n)`, the paths are first spread breadth-first and
    /// only every n-th pending path from i on is followed.
    pub fn explore(&mut self, st: State, split: (usize, usize)) {
        let mut work: VecDeque<State> = VecDeque::new();
        work.push_back(st);
        if split.1 > 1 {
            let target = split.1 * 24;
            let mut idle = 0;
            while work.len() < target && idle < 20000 {
                let Some(mut s) = work.pop_front() else { break };
                let f0 = s.forks;
                let mut new = Vec::new();
                self.run(&mut s, &mut new, true, &mut work);
                let _ = f0;
                idle += 1;
                if self.bugs.len() >= self.lim.max_bugs || self.out_of_budget() {
                    return;
                }
            }
            // what finished during the prefix is counted by partition 0 only
            if split.0 != 0 {
                self.paths = 0;
                self.pruned = 0;
                self.samples.clear();
                self.asserts = 0;
            }
            let all: Vec<State> = work.drain(..).collect();
            for (k, s) in all.into_iter().enumerate() {
                if k % split.1 == split.0 {
                    work.push_back(s);
                }
            }
        }
        while let Some(mut s) = work.pop_back() {
            let mut new = Vec::new();
            self.run(&mut s, &mut new, false, &mut work);
            for n in new {
                work.push_back(n);
            }
            if self.bugs.len() >= self.lim.max_bugs || self.out_of_budget() {
                return;
            }
        }
    }

    /// Runs one path to its end; forks go to `new`. With `bf`, stops at the first fork and requeues.
    fn run(&mut self, st: &mut State, new: &mut Vec<State>, bf: bool, work: &mut VecDeque<State>) {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xffff == 0 && self.out_of_budget() {
                return;
            }
            let n0 = new.len();
            match self.block(st, new) {
                Ok(()) => {}
                Err(Ev::Prune) => {
                    return;
                }
                Err(Ev::Conc(e)) => {
                    if self.log {
                        let mut x = show(e);
                        x.truncate(100);
                        eprintln!("conc {} at {}", x, self.trace(st)[0]);
                    }
                    let v = eval(e, &st.model);
                    let c = bin(Op::Eq, e, konst(width(e), v));
                    self.branch_queries += 1;
                    match self.sat(st, not(c)) {
                        Ok(Some(m2)) => {
                            let mut o = st.clone();
                            o.model = m2;
                            o.forks += 1;
                            self.forks += 1;
                            self.add(&mut o, not(c));
                            new.push(o);
                        }
                        Ok(None) => {}
                        Err(Ev::Stuck(s)) => {
                            *self.stuck.entry(s).or_insert(0) += 1;
                            return;
                        }
                        Err(_) => unreachable!(),
                    }
                    self.add(st, c);
                    Rc::make_mut(&mut st.known).insert(e, v as u64);
                }
                Err(Ev::Br(c)) => {
                    let t = eval(c, &st.model) == 1;
                    let (here, other) = if t { (c, not(c)) } else { (not(c), c) };
                    self.branch_queries += 1;
                    match self.sat(st, other) {
                        Ok(Some(m2)) => {
                            let mut o = st.clone();
                            o.model = m2;
                            o.forks += 1;
                            self.forks += 1;
                            self.add(&mut o, other);
                            // conjunctions are split, so remember the decision itself
                            if !o.pc.contains(&other) {
                                o.pc.push(other);
                            }
                            new.push(o);
                        }
                        Ok(None) => {}
                        Err(Ev::Stuck(s)) => {
                            *self.stuck.entry(s).or_insert(0) += 1;
                            return;
                        }
                        Err(_) => unreachable!(),
                    }
                    self.add(st, here);
                    if !st.pc.contains(&here) {
                        st.pc.push(here);
                    }
                }
                Err(Ev::Shared) => {
                    // here the second thread may run, or not yet
                    let (f, data) = {
                        let x = st.other.as_mut().unwrap();
                        x.points += 1;
                        x.pass = st.steps + 1;
                        (x.f, x.data.clone())
                    };
                    let mut o = st.clone();
                    let saved: Vec<(u64, Obj)> = self.tls.iter().map(|(id, _)| (*id, o.mem.get(*id).unwrap().clone())).collect();
                    for (id, b) in &self.tls {
                        o.mem.put(*id, b.clone());
                    }
                    o.mixed = true;
                    o.other.as_mut().unwrap().saved = Some(Rc::new(saved));
                    o.forks += 1;
                    match self.push(&mut o, f, vec![data], false) {
                        Ok(()) => {
                            o.cur.other = true;
                            self.forks += 1;
                            self.switches += 1;
                            new.push(o);
                        }
                        _ => {
                            *self.stuck.entry("second thread".into()).or_insert(0) += 1;
                            return;
                        }
                    }
                }
                Err(Ev::Bug(k, m)) => {
                    let model = st.model.clone();
                    self.report(st, &model, k, m);
                    return;
                }
                Err(Ev::Stuck(s)) => {
                    let tr = self.trace(st);
                    let key = format!("{} in {}", s, tr.first().cloned().unwrap_or_default());
                    *self.stuck.entry(key).or_insert(0) += 1;
                    return;
                }
                Err(Ev::Unwind) => {
                    if let Err(Ev::Bug(k, m)) = self.unwind(st, true) {
                        let model = st.model.clone();
                        self.report(st, &model, k, m);
                        return;
                    }
                }
            }
            if bf && new.len() > n0 {
                for n in new.drain(..) {
                    work.push_back(n);
                }
                work.push_back(st.clone());
                return;
            }
            if !bf && new.len() > 256 {
                // keep the stack shallow: nothing to do, depth-first order is preserved by the caller
            }
        }
    }

    fn branch(&mut self, st: &mut State, new: &mut Vec<State>, c: E, t: u32, f: u32) -> R<()> {
        let c = self.defined(st, c, "branch depends on")?;
        if let Some(b) = self.quick(st, c) {
            self.jump(st, if b { t } else { f });
            return Ok(());
        }
        if t == f {
            self.jump(st, t);
            return Ok(());
        }
        if let Some(k) = as_const(self.fp_split(st, c)?) {
            self.jump(st, if k == 1 { t } else { f });
            return Ok(());
        }
        let here = eval(c, &st.model) == 1;
        let (ch, co) = if here { (c, not(c)) } else { (not(c), c) };
        self.branch_queries += 1;
        if let Some(m2) = self.sat(st, co)? {
            let mut o = st.clone();
            o.model = m2;
            o.forks += 1;
            self.forks += 1;
            self.add(&mut o, co);
            self.jump(&mut o, if here { f } else { t });
            new.push(o);
            self.add(st, ch);
        }
        self.jump(st, if here { t } else { f });
        Ok(())
    }

    fn switch(&mut self, st: &mut State, new: &mut Vec<State>, s: &Switch, e: E) -> R<()> {
        let e = self.defined(st, e, "switch on")?;
        if self.is_fixed(st, e) {
            let v = eval(e, &st.model) as u64;
            self.jump(st, s.table.get(&v).copied().unwrap_or(s.default));
            return Ok(());
        }
        if let Some(v) = as_const(self.fp_split(st, e)?) {
            self.jump(st, s.table.get(&(v as u64)).copied().unwrap_or(s.default));
            return Ok(());
        }
        // one condition per destination
        let mut order: Vec<u32> = Vec::new();
        let mut conds: HashMap<u32, E> = HashMap::new();
        let mut any = fls();
        for &(k, d) in &s.cases {
            let c = bin(Op::Eq, e, konst(s.w, k as u128));
            any = or(any, c);
            match conds.get_mut(&d) {
                Some(x) => *x = or(*x, c),
                None => {
                    order.push(d);
                    conds.insert(d, c);
                }
            }
        }
        match conds.get_mut(&s.default) {
            Some(x) => *x = or(*x, not(any)),
            None => {
                order.push(s.default);
                conds.insert(s.default, not(any));
            }
        }
        let v = eval(e, &st.model) as u64;
        let mine = s.table.get(&v).copied().unwrap_or(s.default);
        let mut forked = false;
        for d in order {
            if d == mine {
                continue;
            }
            let c = conds[&d];
            self.branch_queries += 1;
            if let Some(m2) = self.sat(st, c)? {
                let mut o = st.clone();
                o.model = m2;
                o.forks += 1;
                self.forks += 1;
                self.add(&mut o, c);
                self.jump(&mut o, d);
                new.push(o);
                forked = true;
            }
        }
        if forked {
            let c = conds[&mine];
            self.add(st, c);
        }
        self.jump(st, mine);
        Ok(())
    }

    /// Executes until control leaves the current straight-line run (a jump, call or return).
    fn block(&mut self, st: &mut State, new: &mut Vec<State>) -> R<()> {
        let f = st.cur.f.clone();
        let insts = &f.blocks[st.cur.blk as usize].insts;
        loop {
            let inst = &insts[st.cur.ip as usize];
            self.steps += 1;
            st.steps += 1;
            match inst {
                Inst::Bin { op, dst, w, lanes, a, b, .. } => {
                    let x = self.val(st, a);
                    let y = self.val(st, b);
                    let r = if *lanes == 0 { self.bin2(*op, *w, &x, &y)? } else { self.lanes2(*lanes, &x, &y, |s, x, y| s.bin2(*op, *w, x, y))? };
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::ICmp { p, dst, w, lanes, a, b, .. } => {
                    let x = self.val(st, a);
                    let y = self.val(st, b);
                    let r = if *lanes == 0 { self.cmp2(*p, *w, &x, &y) } else { self.lanes2(*lanes, &x, &y, |s, x, y| Ok(s.cmp2(*p, *w, x, y)))? };
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::FCmp { p, dst, w, lanes, a, b } => {
                    let x = self.val(st, a);
                    let y = self.val(st, b);
                    let r = if *lanes == 0 { self.fcmp2(*p, *w, &x, &y) } else { self.lanes2(*lanes, &x, &y, |s, x, y| Ok(s.fcmp2(*p, *w, x, y)))? };
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::FBin { op, dst, w, lanes, a, b } => {
                    let x = self.val(st, a);
                    let y = self.val(st, b);
                    let o = match op {
                        FBin::Add => Op::FAdd,
                        FBin::Sub => Op::FSub,
                        FBin::Mul => Op::FMul,
                        FBin::Div => Op::FDiv,
                        FBin::Rem => return Err(Ev::Stuck("frem".into())),
                    };
                    let w = *w;
                    let r = if *lanes == 0 {
                        let (x, y) = (self.e(&x, w), self.e(&y, w));
                        cv(bin(o, x, y))
                    } else {
                        self.lanes2(*lanes, &x, &y, |s, x, y| {
                            let (x, y) = (s.e(x, w), s.e(y, w));
                            Ok(cv(bin(o, x, y)))
                        })?
                    };
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::FNeg { dst, w, a } => {
                    let x = self.val(st, a);
                    let x = self.e(&x, *w);
                    let r = bin(Op::Xor, x, konst(*w, 1u128 << (*w - 1)));
                    st.cur.regs[*dst as usize] = cv(r);
                }
                Inst::Cast { op, dst, from, to, a } => {
                    let x = self.val(st, a);
                    let r = self.cast(st, *op, *from, *to, &x)?;
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::Load { dst, ty, w, ptr, align } => {
                    let p = self.val(st, ptr);
                    let r = self.load(st, &p, *ty, *w, *align)?;
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::Store { ty, w, val, ptr, align } => {
                    let p = self.val(st, ptr);
                    let a = self.conc(st, &p, "pointer")?;
                    let n = if *w > 0 { ((*w + 7) / 8) as u64 } else { with_types(|t| t.size(*ty)) };
                    let (id, off) = self.find(st, a, n, true)?;
                    if *align > 1 && a % *align != 0 {
                        return Err(Ev::Bug("memory", format!("misaligned write at {:#x}, needs {}", a, align)));
                    }
                    let v = self.val(st, val);
                    if *w > 0 {
                        self.store_at(st, id, off, *w, &v);
                    } else {
                        self.store_ty(st, id, off, *ty, &v);
                    }
                }
                Inst::Gep { dst, base, off, idx } => {
                    let b = self.val(st, base);
                    let mut acc = match b {
                        V::C(x) => V::C(x.wrapping_add(*off)),
                        b => self.bin2(BinOp::Add, 64, &b, &V::C(*off))?,
                    };
                    for (o, w, sc) in idx {
                        let i = self.val(st, o);
                        let i = match i {
                            V::C(x) => V::C((sx(x, *w) as u64).wrapping_mul(*sc)),
                            i => {
                                let e = self.e(&i, *w);
                                let e = sext_to(e, 64);
                                cv(bin(Op::Mul, e, konst(64, *sc as u128)))
                            }
                        };
                        acc = self.bin2(BinOp::Add, 64, &acc, &i)?;
                    }
                    st.cur.regs[*dst as usize] = acc;
                }
                Inst::Alloca { dst, size, align } => {
                    let b = st.mem.new_obj(*size, *align, Kind::Stack);
                    st.cur.allocas.push(b >> 32);
                    st.cur.regs[*dst as usize] = V::C(b);
                }
                Inst::Select { dst, ty, lanes, c, a, b } => {
                    let cnd = self.val(st, c);
                    if *lanes > 0 {
                        let (x, y) = (self.val(st, a), self.val(st, b));
                        let et = with_types(|t| match t.tys[*ty as usize] {
                            Ty::Vec(_, e) => e,
                            _ => *ty,
                        });
                        let mut i = 0;
                        let cs = match cnd {
                            V::A(v) => v,
                            _ => Rc::new(vec![V::U; *lanes as usize]),
                        };
                        let r = self.lanes2(*lanes, &x, &y, |s, x, y| {
                            let c = s.e(&cs[i], 1);
                            i += 1;
                            Ok(s.select(c, x, y, et))
                        })?;
                        st.cur.regs[*dst as usize] = r;
                    } else {
                        let r = match cnd {
                            V::C(1) => self.val(st, a),
                            V::C(_) => self.val(st, b),
                            V::U => V::U,
                            V::S(e) => {
                                if let Some(k) = if node(e).und { None } else { self.quick(st, e) } {
                                    self.val(st, if k { a } else { b })
                                } else {
                                    let (x, y) = (self.val(st, a), self.val(st, b));
                                    self.select(e, &x, &y, *ty)
                                }
                            }
                            V::A(_) => return Err(Ev::Stuck("select".into())),
                        };
                        st.cur.regs[*dst as usize] = r;
                    }
                }
                Inst::Extract { dst, a, idx } => {
                    let mut v = self.val(st, a);
                    for &i in idx {
                        v = match &v {
                            V::A(x) => x[i as usize].clone(),
                            _ => V::U,
                        };
                    }
                    st.cur.regs[*dst as usize] = v;
                }
                Inst::Insert { dst, ty, a, b, idx } => {
                    let v = self.val(st, a);
                    let x = self.val(st, b);
                    let r = insert(v, *ty, x, idx);
                    st.cur.regs[*dst as usize] = r;
                }
                Inst::ExtractElem { dst, a, i } => {
                    let v = self.val(st, a);
                    let i = self.val(st, i);
                    let i = self.conc(st, &i, "lane index")?;
                    st.cur.regs[*dst as usize] = match &v {
                        V::A(x) => x[i as usize].clone(),
                        _ => V::U,
                    };
                }
                Inst::InsertElem { dst, lanes, a, b, i } => {
                    let v = self.val(st, a);
                    let x = self.val(st, b);
                    let i = self.val(st, i);
                    let i = self.conc(st, &i, "lane index")?;
                    let mut l = match v {
                        V::A(x) => (*x).clone(),
                        _ => vec![V::U; *lanes as usize],
                    };
                    l[i as usize] = x;
                    st.cur.regs[*dst as usize] = V::A(Rc::new(l));
                }
                Inst::Shuffle { dst, n, a, b, mask } => {
                    let x = self.val(st, a);
                    let y = self.val(st, b);
                    let get = |i: u32| -> V {
                        let (v, k) = if i < *n { (&x, i) } else { (&y, i - *n) };
                        match v {
                            V::A(l) => l[k as usize].clone(),
                            _ => V::U,
                        }
                    };
                    let r: Vec<V> = mask.iter().map(|m| m.map_or(V::U, get)).collect();
                    st.cur.regs[*dst as usize] = V::A(Rc::new(r));
                }
                Inst::Freeze { dst, ty, a } => {
                    let v = self.val(st, a);
                    st.cur.regs[*dst as usize] = freeze(v, *ty);
                }
                Inst::Fence => {}
                Inst::AtomicRmw { dst, op, w, ptr, v } => {
                    let p = self.val(st, ptr);
                    let a = self.conc(st, &p, "pointer")?;
                    let n = (*w / 8) as u64;
                    let (id, off) = self.find(st, a, n, true)?;
                    let old = self.load_at(st, id, off, *w);
                    let x = self.val(st, v);
                    let nv = match &**op {
                        "add" => self.bin2(BinOp::Add, *w, &old, &x)?,
                        "sub" => self.bin2(BinOp::Sub, *w, &old, &x)?,
                        "and" => self.bin2(BinOp::And, *w, &old, &x)?,
                        "or" => self.bin2(BinOp::Or, *w, &old, &x)?,
                        "xor" => self.bin2(BinOp::Xor, *w, &old, &x)?,
                        "xchg" => x,
                        o => return Err(Ev::Stuck(format!("atomicrmw {}", o))),
                    };
                    self.store_at(st, id, off, *w, &nv);
                    st.cur.regs[*dst as usize] = old;
                }
                Inst::CmpXchg { dst, w, ptr, a, b } => {
                    let p = self.val(st, ptr);
                    let ad = self.conc(st, &p, "pointer")?;
                    let n = (*w / 8) as u64;
                    let (id, off) = self.find(st, ad, n, true)?;
                    let old = self.load_at(st, id, off, *w);
                    let x = self.val(st, a);
                    let c = self.cmp2(Pred::Eq, *w, &old, &x);
                    let ok = self.dec(st, &c)?;
                    if ok {
                        let y = self.val(st, b);
                        self.store_at(st, id, off, *w, &y);
                    }
                    st.cur.regs[*dst as usize] = V::A(Rc::new(vec![old, V::C(ok as u64)]));
                }
                Inst::LandingPad { dst, catch } => {
                    if *catch {
                        return Err(Ev::Bug("panic", "a panic reached a no-unwind or catch boundary inside the code".into()));
                    }
                    st.cur.regs[*dst as usize] = V::A(Rc::new(vec![V::C(0x1000), V::C(0)]));
                }
                Inst::Resume(_) => {
                    // leave this frame
                    return self.unwind(st, false);
                }
                Inst::Br(b) => {
                    if st.steps > self.lim.max_steps {
                        return Err(Ev::Bug("steps", format!("no end after {} instructions", st.steps)));
                    }
                    self.jump(st, *b);
                    return Ok(());
                }
                Inst::CondBr { c, t, f } => {
                    if st.steps > self.lim.max_steps {
                        return Err(Ev::Bug("steps", format!("no end after {} instructions", st.steps)));
                    }
                    match self.val(st, c) {
                        V::C(x) => self.jump(st, if x & 1 == 1 { *t } else { *f }),
                        V::S(e) => self.branch(st, new, e, *t, *f)?,
                        _ => return Err(Ev::Bug("uninit", "branch on an undefined value".into())),
                    }
                    return Ok(());
                }
                Inst::Switch(s) => {
                    if st.steps > self.lim.max_steps {
                        return Err(Ev::Bug("steps", format!("no end after {} instructions", st.steps)));
                    }
                    match self.val(st, &s.val) {
                        V::C(x) => self.jump(st, s.table.get(&x).copied().unwrap_or(s.default)),
                        V::S(e) => {
                            let s = s.clone();
                            self.switch(st, new, &s, e)?
                        }
                        _ => return Err(Ev::Bug("uninit", "switch on an undefined value".into())),
                    }
                    return Ok(());
                }
                Inst::Ret { v, .. } => {
                    let r = match v {
                        Some(o) => self.val(st, o),
                        None => V::U,
                    };
                    if st.stack.is_empty() {
                        self.finish(st);
                        return Err(Ev::Prune);
                    }
                    return self.ret(st, r);
                }
                Inst::Unreachable => return Err(Ev::Bug("ub", "reached unreachable code".into())),
                Inst::Call(c) => {
                    let c = c.clone();
                    return self.call(st, &c);
                }
            }
            st.cur.ip += 1;
        }
    }

    fn done(&mut self, st: &mut State, c: &Call, v: V) -> R<()> {
        if let Some(d) = c.dst {
            st.cur.regs[d as usize] = v;
        }
        match c.invoke {
            None => st.cur.ip += 1,
            Some((n, _)) => self.jump(st, n),
        }
        Ok(())
    }

    fn call(&mut self, st: &mut State, c: &Call) -> R<()> {
        let fi = match &c.callee {
            Callee::Direct(f) => *f,
            Callee::Intr(n) => {
                let key = n.as_ptr();
                let k = match self.intr.get(&key) {
                    Some(k) => *k,
                    None => {
                        let k = intr_kind(n);
                        self.intr.insert(key, k);
                        k
                    }
                };
                let v = self.intrinsic(st, c, k, n)?;
                return self.done(st, c, v);
            }
            Callee::Asm => {
                // only the empty black-box style barriers appear here
                return self.done(st, c, V::U);
            }
            Callee::Ind(o) => {
                let p = self.val(st, o);
                let a = self.conc(st, &p, "function pointer")?;
                let id = a >> 32;
                let f0 = self.m.func0();
                if id < f0 || id >= self.m.dyn0() || a != addr_of(id, 16) {
                    return Err(Ev::Bug("memory", format!("call through invalid function pointer {:#x}", a)));
                }
                (id - f0) as u32
            }
        };
        match self.acts[fi as usize] {
            Act::Body => {
                let args = c.args.iter().map(|(_, o)| self.val(st, o)).collect();
                self.push(st, fi, args, false)
            }
            act => self.external(st, c, fi, act),
        }
    }

    fn arg(&self, st: &State, c: &Call, i: usize) -> V {
        self.val(st, &c.args[i].1)
    }
    fn carg(&self, st: &State, c: &Call, i: usize, what: &str) -> R<u64> {
        let v = self.val(st, &c.args[i].1);
        self.conc(st, &v, what)
    }

    fn text(&self, st: &State, a: u64, n: u64) -> String {
        match self.find(st, a, n, false) {
            Ok((id, off)) => {
                let o = st.mem.get(id).unwrap();
                String::from_utf8_lossy(&o.bytes[off..off + n as usize]).into_owned()
            }
            Err(_) => "?".into(),
        }
    }

    fn external(&mut self, st: &mut State, c: &Call, fi: u32, act: Act) -> R<()> {
        let r = match act {
            Act::Body => unreachable!(),
            Act::Panic => {
                let mut msg = format!("panic: {}", self.m.funcs[fi as usize].demangled);
                // panic(msg_ptr, msg_len, location)
                if c.args.len() >= 2 {
                    if let (V::C(p), V::C(n)) = (self.arg(st, c, 0), self.arg(st, c, 1)) {
                        if n > 0 && n < 400 {
                            let t = self.text(st, p, n);
                            if t.chars().all(|c| !c.is_control()) && t.len() > 3 {
                                msg.push_str(&format!(" \"{}\"", t));
                            }
                        }
                    }
                }
                return Err(Ev::Bug("panic", msg));
            }
            Act::Abort => return Err(Ev::Bug("panic", format!("abort: {}", self.m.funcs[fi as usize].name))),
            Act::Unknown => return Err(Ev::Stuck(format!("call of unmodelled external {}", self.m.funcs[fi as usize].name))),
            Act::Noop => V::C(0),
            Act::SymBytes => {
                // sym_bytes(label, label_len, ptr, n)
                let l = self.carg(st, c, 0, "label")?;
                let ln = self.carg(st, c, 1, "label")?;
                let p = self.carg(st, c, 2, "pointer")?;
                let n = self.carg(st, c, 3, "size")?;
                if n > 0 {
                    let (id, off) = self.find(st, p, n, true)?;
                    let label = self.text(st, l, ln);
                    let first = st.nvars;
                    if let Some(cb) = &self.concrete {
                        let used: usize = st.inputs.iter().map(|i| i.n as usize).sum();
                        let b: Vec<u8> = (0..n as usize).map(|i| *cb.get(used + i).unwrap_or(&0)).collect();
                        let o = st.mem.get_mut(id).unwrap();
                        for i in 0..n as usize {
                            o.write_byte(off + i, konst(8, b[i] as u128));
                        }
                        Rc::make_mut(&mut st.inputs).push(Input { label: label.as_str().into(), first, n: n as u32, conc: Some(Rc::new(b)) });
                    } else {
                        let o = st.mem.get_mut(id).unwrap();
                        for i in 0..n as u32 {
                            o.write_byte(off + i as usize, var(first + i));
                        }
                        st.nvars += n as u32;
                        // start from something other than zero so that first paths are varied
                        let m = Rc::make_mut(&mut st.model);
                        m.resize(st.nvars as usize, 0);
                        Rc::make_mut(&mut st.inputs).push(Input { label: label.as_str().into(), first, n: n as u32, conc: None });
                    }
                }
                V::U
            }
            Act::SymAssume => {
                let v = self.arg(st, c, 0);
                match v {
                    V::C(x) => {
                        if x & 1 == 0 {
                            self.pruned += 1;
                            return Err(Ev::Prune);
                        }
                    }
                    V::S(e) => {
                        let e = self.defined(st, e, "assumption on")?;
                        match self.quick(st, e) {
                            Some(true) => {}
                            Some(false) => {
                                self.pruned += 1;
                                return Err(Ev::Prune);
                            }
                            None => match self.sat(st, e)? {
                                None => {
                                    self.pruned += 1;
                                    return Err(Ev::Prune);
                                }
                                Some(m) => {
                                    st.model = m;
                                    self.add(st, e);
                                }
                            },
                        }
                    }
                    _ => return Err(Ev::Bug("uninit", "assumption on an undefined value".into())),
                }
                V::U
            }
            Act::SymAssert => {
                // sym_assert(cond, msg, len)
                self.asserts += 1;
                let msg = {
                    let p = self.carg(st, c, 1, "message")?;
                    let n = self.carg(st, c, 2, "message")?;
                    self.text(st, p, n)
                };
                match self.arg(st, c, 0) {
                    V::C(x) => {
                        if x & 1 == 0 {
                            return Err(Ev::Bug("assert", msg));
                        }
                    }
                    V::S(e) => {
                        let mut e = self.defined(st, e, "assertion on")?;
                        if has_fp(e, &mut Default::default()) {
                            e = self.simp_once(st, e);
                        }
                        match self.quick(st, e) {
                            Some(true) => {}
                            Some(false) => return Err(Ev::Bug("assert", msg)),
                            None => {
                                self.asserts_solver += 1;
                                if let Some(m) = self.sat(st, not(e))? {
                                    st.model = m;
                                    return Err(Ev::Bug("assert", msg));
                                }
                            }
                        }
                    }
                    _ => return Err(Ev::Bug("uninit", format!("assertion on an undefined value: {}", msg))),
                }
                V::U
            }
            Act::SymCover => {
                let n = self.carg(st, c, 0, "cover id")?;
                Rc::make_mut(&mut st.covers).insert(n as u32);
                V::U
            }
            Act::SymAlloc | Act::SymAllocZ => {
                let n = self.carg(st, c, 0, "allocation size")?;
                let al = self.carg(st, c, 1, "alignment")?;
                if n == 0 || !al.is_power_of_two() || n > 1 << 24 {
                    return Err(Ev::Bug("memory", format!("allocation of {} bytes aligned to {}", n, al)));
                }
                let b = st.mem.new_obj(n, al, Kind::Heap);
                st.mem.heap_blocks += 1;
                st.mem.heap_bytes += n;
                st.mem.allocs += 1;
                if act == Act::SymAllocZ {
                    let o = st.mem.get_mut(b >> 32).unwrap();
                    o.meta = None;
                }
                V::C(b)
            }
            Act::SymDealloc | Act::SymRealloc => {
                let p = self.carg(st, c, 0, "pointer")?;
                let n = self.carg(st, c, 1, "size")?;
                let al = self.carg(st, c, 2, "alignment")?;
                let id = p >> 32;
                match st.mem.get(id) {
                    Some(o) if o.kind == Kind::Heap && o.base == p => {
                        if o.size != n || o.align != al {
                            return Err(Ev::Bug("memory", format!("deallocation with layout ({}, {}) of a block with layout ({}, {})", n, al, o.size, o.align)));
                        }
                    }
                    _ => return Err(Ev::Bug("memory", format!("deallocation of {:#x}, which is not a live heap block", p))),
                }
                if act == Act::SymDealloc {
                    st.mem.kill(id);
                    st.mem.heap_blocks -= 1;
                    st.mem.heap_bytes -= n;
                    V::U
                } else {
                    let nn = self.carg(st, c, 3, "size")?;
                    if nn == 0 || nn > 1 << 24 {
                        return Err(Ev::Bug("memory", format!("reallocation to {} bytes", nn)));
                    }
                    let b = st.mem.new_obj(nn, al, Kind::Heap);
                    self.memcpy(st, b, p, n.min(nn))?;
                    st.mem.kill(id);
                    st.mem.heap_bytes = st.mem.heap_bytes - n + nn;
                    V::C(b)
                }
            }
            Act::SymLive => V::C(st.mem.heap_blocks),
            Act::SymLiveBytes => V::C(st.mem.heap_bytes),
            Act::SymDepthReset => {
                st.peak = st.stack.len() as u64;
                V::U
            }
            Act::SymDepthPeak => V::C(st.peak),
            Act::SymParam => {
                let i = self.carg(st, c, 0, "parameter index")?;
                V::C(*self.params.get(i as usize).unwrap_or(&0))
            }
            Act::SymThrow => return Err(Ev::Unwind),
            Act::SymCatch => {
                let p = self.carg(st, c, 0, "function pointer")?;
                let d = self.arg(st, c, 1);
                let id = p >> 32;
                let f0 = self.m.func0();
                if id < f0 || id >= self.m.dyn0() {
                    return Err(Ev::Stuck("sym_catch target".into()));
                }
                return self.push(st, (id - f0) as u32, vec![d], true);
            }
            Act::SymBeside => {
                let p = self.carg(st, c, 0, "function pointer")?;
                let d = self.arg(st, c, 1);
                let id = p >> 32;
                let f0 = self.m.func0();
                if id < f0 || id >= self.m.dyn0() || st.other.is_some() {
                    return Err(Ev::Stuck("sym_beside target".into()));
                }
                if self.shared.is_empty() {
                    let base = self.base_mem();
                    for (i, g) in self.m.globals.iter().enumerate() {
                        let own = g.name.contains("vharness") && !g.name.contains("SHARED");
                        self.shared.push(!g.external && !g.constant && !g.tls && !own);
                        if g.tls {
                            let id = GLOBAL0 + i as u64;
                            self.tls.push((id, base.get(id).unwrap().clone()));
                        }
                    }
                }
                let first = st.mem.next;
                st.other = Some(Other { first, f: (id - f0) as u32, data: d, pass: 0, saved: None, points: 0 });
                V::U
            }
            Act::SymBesideEnd => {
                // had it run only now, nothing would have been interleaved
                st.other = None;
                V::U
            }
            Act::Block => {
                // what the second thread waits for can only be something the first one holds
                match &st.other {
                    Some(x) if x.saved.is_some() => return Err(Ev::Prune),
                    _ => return Err(Ev::Stuck(format!("call of unmodelled external {}", self.m.funcs[fi as usize].name))),
                }
            }
            Act::SymConc => {
                let v = self.arg(st, c, 0);
                V::C(self.conc(st, &v, "value")?)
            }
            Act::SymNative => V::C(0),
            Act::SymFloat => {
                // sym_float(bits, neg, lo, hi, exp)
                let (b, n, x) = (self.arg(st, c, 0), self.arg(st, c, 1), self.arg(st, c, 4));
                let (lo, hi) = (self.arg(st, c, 2), self.arg(st, c, 3));
                let (lo, hi) = (self.e(&lo, 64), self.e(&hi, 64));
                self.float_assert(st, false, &b, &n, concat(hi, lo), &x)?;
                V::U
            }
            Act::SymOver => {
                let (lo, hi, x) = (self.arg(st, c, 0), self.arg(st, c, 1), self.arg(st, c, 2));
                let (lo, hi) = (self.e(&lo, 64), self.e(&hi, 64));
                self.float_assert(st, true, &V::U, &V::U, concat(hi, lo), &x)?;
                V::U
            }
            Act::SymLog => {
                let v = self.arg(st, c, 0);
                Rc::make_mut(&mut st.logs).push(v.clone());
                if self.log {
                    match v {
                        V::C(x) => eprintln!("log {} {:#x}", x, x),
                        V::S(e) => eprintln!("log {}", show(e)),
                        _ => eprintln!("log ?"),
                    }
                }
                V::U
            }
            Act::Bcmp | Act::Memcmp => {
                let a = self.carg(st, c, 0, "pointer")?;
                let b = self.carg(st, c, 1, "pointer")?;
                let n = self.carg(st, c, 2, "size")?;
                if n == 0 {
                    V::C(0)
                } else {
                    let (ai, ao) = self.find(st, a, n, false)?;
                    let (bi, bo) = self.find(st, b, n, false)?;
                    if act == Act::Bcmp {
                        let mut all = tru();
                        for i in 0..n as usize {
                            let x = self.byte(st, ai, ao + i);
                            let y = self.byte(st, bi, bo + i);
                            all = and(all, eq(x, y));
                            if as_const(all) == Some(0) {
                                break;
                            }
                        }
                        cv(zext(not(all), 32))
                    } else {
                        let mut r = konst(32, 0);
                        for i in (0..n as usize).rev() {
                            let x = self.byte(st, ai, ao + i);
                            let y = self.byte(st, bi, bo + i);
                            let lt = ite(bin(Op::Ult, x, y), konst(32, 0xffffffff), konst(32, 1));
                            r = ite(eq(x, y), r, lt);
                        }
                        cv(r)
                    }
                }
            }
            Act::Strlen => {
                let a = self.carg(st, c, 0, "pointer")?;
                let mut n = 0;
                loop {
                    let (id, off) = self.find(st, a + n, 1, false)?;
                    let b = self.byte(st, id, off);
                    match as_const(b) {
                        Some(0) => break,
                        Some(_) => n += 1,
                        None => return Err(Ev::Stuck("strlen of symbolic bytes".into())),
                    }
                }
                V::C(n)
            }
        };
        self.done(st, c, r)
    }

    fn intrinsic(&mut self, st: &mut State, c: &Call, k: In, name: &str) -> R<V> {
        let ety = |t: TyId| -> (TyId, u32) {
            with_types(|x| match x.tys[t as usize] {
                Ty::Vec(n, e) => (e, n),
                _ => (t, 0),
            })
        };
        let w_of = |t: TyId| with_types(|x| x.bits(t));
        Ok(match k {
            In::Nop => V::U,
            In::Memcpy => {
                let d = self.carg(st, c, 0, "pointer")?;
                let s = self.carg(st, c, 1, "pointer")?;
                let n = self.carg(st, c, 2, "size")?;
                self.memcpy(st, d, s, n)?;
                V::U
            }
            In::Memset => {
                let d = self.carg(st, c, 0, "pointer")?;
                let n = self.carg(st, c, 2, "size")?;
                if n > 0 {
                    let (id, off) = self.find(st, d, n, true)?;
                    let v = self.arg(st, c, 1);
                    match v {
                        V::C(b) => {
                            let o = st.mem.get_mut(id).unwrap();
                            o.bytes[off..off + n as usize].fill(b as u8);
                            if let Some(m) = &mut o.meta {
                                m[off..off + n as usize].fill(CONC);
                            }
                        }
                        V::U => st.mem.get_mut(id).unwrap().write_uninit(off, n as usize),
                        v => {
                            let e = self.e(&v, 8);
                            let o = st.mem.get_mut(id).unwrap();
                            for i in 0..n as usize {
                                o.write_byte(off + i, e);
                            }
                        }
                    }
                }
                V::U
            }
            In::Assume => {
                match self.arg(st, c, 0) {
                    V::C(x) => {
                        if x & 1 == 0 {
                            return Err(Ev::Bug("ub", "a compiler assumption is false".into()));
                        }
                    }
                    V::S(e) => {
                        if !node(e).und {
                            match self.quick(st, e) {
                                Some(true) => {}
                                Some(false) => return Err(Ev::Bug("ub", "a compiler assumption is false".into())),
                                None => {
                                    if let Some(m) = self.sat(st, not(e))? {
                                        st.model = m;
                                        return Err(Ev::Bug("ub", "a compiler assumption can be false".into()));
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
                V::U
            }
            In::Expect => self.arg(st, c, 0),
            In::Trap => return Err(Ev::Bug("panic", "trap".into())),
            In::IsConst => V::C(0),
            In::Tls => self.arg(st, c, 0),
            In::Pause => {
                // spinning: only the first thread could end it
                if st.other.as_ref().map_or(false, |x| x.saved.is_some()) {
                    return Err(Ev::Prune);
                }
                V::U
            }
            In::VecRed(op) => {
                let (et, n) = ety(c.args[0].0);
                let w = w_of(et);
                let v = self.arg(st, c, 0);
                let l = match v {
                    V::A(l) => l,
                    _ => Rc::new(vec![V::U; n as usize]),
                };
                let mut r = self.e(&l[0], w);
                for x in l[1..].iter() {
                    let y = self.e(x, w);
                    r = match op {
                        0 => bin(Op::Or, r, y),
                        1 => bin(Op::And, r, y),
                        2 => bin(Op::Add, r, y),
                        3 => bin(Op::Xor, r, y),
                        _ => ite(bin(Op::Ult, r, y), y, r),
                    };
                }
                cv(r)
            }
            In::Unknown => return Err(Ev::Stuck(format!("intrinsic {}", name))),
            _ => {
                let t0 = c.args[0].0;
                let (et, n) = ety(t0);
                let w = w_of(et);
                let args: Vec<V> = (0..c.args.len()).map(|i| self.arg(st, c, i)).collect();
                if n > 0 {
                    let (rt, _) = ety(c.ret);
                    let mut out = Vec::new();
                    for i in 0..n as usize {
                        let a: Vec<V> = args
                            .iter()
                            .map(|v| match v {
                                V::A(l) => l[i].clone(),
                                v => v.clone(),
                            })
                            .collect();
                        out.push(self.intr1(k, w, &a, w_of(rt))?);
                    }
                    V::A(Rc::new(out))
                } else {
                    let rw = with_types(|x| match &x.tys[c.ret as usize] {
                        Ty::Struct(..) => w,
                        Ty::Void => 0,
                        _ => x.bits(c.ret),
                    });
                    self.intr1(k, w, &args, rw)?
                }
            }
        })
    }

    fn intr1(&mut self, k: In, w: u32, a: &[V], rw: u32) -> R<V> {
        let x = self.e(&a[0], w);
        let y = |s: &mut Self| s.e(&a[1], w);
        let pair = |r: E, o: E| V::A(Rc::new(vec![cv(r), cv(o)]));
        Ok(match k {
            In::Umax => {
                let y = y(self);
                cv(ite(bin(Op::Ult, x, y), y, x))
            }
            In::Umin => {
                let y = y(self);
                cv(ite(bin(Op::Ult, x, y), x, y))
            }
            In::Smax => {
                let y = y(self);
                cv(ite(bin(Op::Slt, x, y), y, x))
            }
            In::Smin => {
                let y = y(self);
                cv(ite(bin(Op::Slt, x, y), x, y))
            }
            In::AddO(sg) => {
                let y = y(self);
                let r = bin(Op::Add, x, y);
                let o = if sg {
                    let s = |e| sext_to(e, w + 1);
                    not(eq(bin(Op::Add, s(x), s(y)), s(r)))
                } else {
                    // x > MAX - y, which does not wrap, with y the smaller one
                    let (x, y) = if umax(x) < umax(y) { (y, x) } else { (x, y) };
                    bin(Op::Ult, bin(Op::Sub, konst(w, mask(w)), y), x)
                };
                pair(r, o)
            }
            In::SubO(sg) => {
                let y = y(self);
                let r = bin(Op::Sub, x, y);
                let o = if sg {
                    let s = |e| sext_to(e, w + 1);
                    not(eq(bin(Op::Sub, s(x), s(y)), s(r)))
                } else {
                    bin(Op::Ult, x, y)
                };
                pair(r, o)
            }
            In::MulO(sg) => {
                let y = y(self);
                let r = bin(Op::Mul, x, y);
                let o = match (as_const(x), as_const(y)) {
                    (_, Some(c)) | (Some(c), _) if !sg => {
                        let z = if as_const(y).is_some() { x } else { y };
                        if c == 0 {
                            fls()
                        } else {
                            bin(Op::Ult, konst(w, mask(w) / c), z)
                        }
                    }
                    _ => {
                        if 2 * w > 128 {
                            return Err(Ev::Stuck("wide overflow multiplication".into()));
                        }
                        let ex = |e| if sg { sext_to(e, 2 * w) } else { zext(e, 2 * w) };
                        not(eq(bin(Op::Mul, ex(x), ex(y)), ex(r)))
                    }
                };
                pair(r, o)
            }
            In::AddSat(sg) => {
                let y = y(self);
                let r = bin(Op::Add, x, y);
                if sg {
                    let s = |e| sext_to(e, w + 1);
                    let o = not(eq(bin(Op::Add, s(x), s(y)), s(r)));
                    let neg = extract(x, w - 1, 1);
                    let lim = ite(neg, konst(w, 1u128 << (w - 1)), konst(w, mask(w - 1)));
                    cv(ite(o, lim, r))
                } else {
                    cv(ite(bin(Op::Ult, r, x), konst(w, mask(w)), r))
                }
            }
            In::SubSat(sg) => {
                let y = y(self);
                let r = bin(Op::Sub, x, y);
                if sg {
                    let s = |e| sext_to(e, w + 1);
                    let o = not(eq(bin(Op::Sub, s(x), s(y)), s(r)));
                    let neg = extract(x, w - 1, 1);
                    let lim = ite(neg, konst(w, 1u128 << (w - 1)), konst(w, mask(w - 1)));
                    cv(ite(o, lim, r))
                } else {
                    cv(ite(bin(Op::Ult, x, y), konst(w, 0), r))
                }
            }
            In::Ctpop => {
                let mut r = konst(w, 0);
                for i in 0..w {
                    let b = extract(x, i, 1);
                    r = bin(Op::Add, r, if w > 1 { zext(b, w) } else { b });
                }
                cv(r)
            }
            In::Ctlz => {
                let mut r = konst(w, w as u128);
                for i in 0..w {
                    r = ite(extract(x, i, 1), konst(w, (w - 1 - i) as u128), r);
                }
                cv(r)
            }
            In::Cttz => {
                let mut r = konst(w, w as u128);
                for i in (0..w).rev() {
                    r = ite(extract(x, i, 1), konst(w, i as u128), r);
                }
                cv(r)
            }
            In::Fshl | In::Fshr => {
                let y = y(self);
                let z = self.e(&a[2], w);
                match as_const(z) {
                    Some(s) => {
                        let s = (s % w as u128) as u32;
                        let s = if k == In::Fshl { s } else { (w - s) % w };
                        if s == 0 {
                            cv(if k == In::Fshl { x } else { y })
                        } else {
                            cv(concat(extract(x, 0, w - s), extract(y, w - s, s)))
                        }
                    }
                    None => return Err(Ev::Conc(z)),
                }
            }
            In::Bswap => {
                let n = w / 8;
                let mut r = extract(x, 0, 8);
                for i in 1..n {
                    r = concat(r, extract(x, i * 8, 8));
                }
                cv(r)
            }
            In::Bitrev => {
                let mut r = extract(x, 0, 1);
                for i in 1..w {
                    r = concat(r, extract(x, i, 1));
                }
                cv(r)
            }
            In::Ucmp | In::Scmp => {
                let y = y(self);
                let o = if k == In::Ucmp { Op::Ult } else { Op::Slt };
                cv(ite(bin(o, x, y), konst(rw, mask(rw)), ite(eq(x, y), konst(rw, 0), konst(rw, 1))))
            }
            In::Abs => {
                let neg = bin(Op::Sub, konst(w, 0), x);
                cv(ite(extract(x, w - 1, 1), neg, x))
            }
            In::Fabs => cv(bin(Op::And, x, konst(w, mask(w - 1)))),
            In::Copysign => {
                let y = y(self);
                let s = bin(Op::And, y, konst(w, 1u128 << (w - 1)));
                cv(bin(Op::Or, bin(Op::And, x, konst(w, mask(w - 1))), s))
            }
            In::FSat(sg) => match as_const(x) {
                Some(v) => {
                    let f = if w == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
                    let r: u128 = if sg {
                        let lo = -(2f64.powi(rw as i32 - 1));
                        let hi = 2f64.powi(rw as i32 - 1);
                        if f.is_nan() {
                            0
                        } else if f <= lo {
                            1u128 << (rw - 1)
                        } else if f >= hi {
                            mask(rw - 1)
                        } else {
                            (f as i128) as u128
                        }
                    } else {
                        (f as u128).min(mask(rw))
                    };
                    cv(konst(rw, r))
                }
                None => return Err(Ev::Stuck("symbolic float to int".into())),
            },
            In::IsFpClass => {
                let m = match &a[1] {
                    V::C(m) => *m,
                    _ => return Err(Ev::Stuck("fpclass".into())),
                };
                // bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -sub 5 -0 6 +0 7 +sub 8 +normal 9 +inf
                let (eb, mb) = if w == 64 { (11, 52) } else { (8, 23) };
                let exp = extract(x, mb, eb);
                let man = extract(x, 0, mb);
                let neg = extract(x, w - 1, 1);
                let emax = eq(exp, konst(eb, mask(eb)));
                let e0 = eq(exp, konst(eb, 0));
                let m0 = eq(man, konst(mb, 0));
                let nan = and(emax, not(m0));
                let inf = and(emax, m0);
                let zero = and(e0, m0);
                let subn = and(e0, not(m0));
                let norm = and(not(emax), not(e0));
                let quiet = extract(x, mb - 1, 1);
                let cls = [
                    and(nan, not(quiet)),
                    and(nan, quiet),
                    and(inf, neg),
                    and(norm, neg),
                    and(subn, neg),
                    and(zero, neg),
                    and(zero, not(neg)),
                    and(subn, not(neg)),
                    and(norm, not(neg)),
                    and(inf, not(neg)),
                ];
                let mut r = fls();
                for (i, c) in cls.iter().enumerate() {
                    if m >> i & 1 == 1 {
                        r = or(r, *c);
                    }
                }
                cv(r)
            }
            _ => return Err(Ev::Stuck("intrinsic".into())),
        })
    }
}

fn insert(v: V, ty: TyId, x: V, idx: &[u32]) -> V {
    if idx.is_empty() {
        return x;
    }
    let fs = with_types(|t| t.fields(ty));
    let mut l = match v {
        V::A(l) => (*l).clone(),
        _ => vec![V::U; fs.len()],
    };
    let i = idx[0] as usize;
    let old = std::mem::replace(&mut l[i], V::U);
    l[i] = insert(old, fs[i].1, x, &idx[1..]);
    V::A(Rc::new(l))
}

fn freeze(v: V, ty: TyId) -> V {
    match v {
        V::U => {
            let agg = with_types(|t| matches!(t.tys[ty as usize], Ty::Vec(..) | Ty::Struct(..) | Ty::Arr(..)));
            if agg {
                let fs = with_types(|t| t.fields(ty));
                V::A(Rc::new(fs.into_iter().map(|f| freeze(V::U, f.1)).collect()))
            } else {
                V::C(0)
            }
        }
        V::A(l) => {
            let fs = with_types(|t| t.fields(ty));
            V::A(Rc::new(l.iter().zip(fs).map(|(x, f)| freeze(x.clone(), f.1)).collect()))
        }
        v => v,
    }
}

fn low_zero_bits(e: E) -> u32 {
    let n = node(e);
    let w = n.w as u32;
    match n.op {
        Op::Const => {
            let v = as_const(e).unwrap();
            if v == 0 {
                w
            } else {
                v.trailing_zeros()
            }
        }
        Op::Concat => {
            let l = low_zero_bits(n.b);
            if l >= width(n.b) {
                l + low_zero_bits(n.a)
            } else {
                l
            }
        }
        Op::Add | Op::Sub | Op::Or | Op::Xor => low_zero_bits(n.a).min(low_zero_bits(n.b)),
        Op::Mul => (low_zero_bits(n.a) + low_zero_bits(n.b)).min(w),
        Op::And => low_zero_bits(n.a).max(low_zero_bits(n.b)),
        Op::ZExt => {
            let l = low_zero_bits(n.a);
            if l >= width(n.a) {
                w
            } else {
                l
            }
        }
        Op::SExt => low_zero_bits(n.a),
        Op::Ite => low_zero_bits(n.b).min(low_zero_bits(n.c)),
        _ => 0,
    }
}

fn shape_max(e: E) -> u128 {
    umax(e)
}

pub fn put_const(o: &mut Obj, off: usize, ty: TyId, k: &K) {
    match k {
        K::Int(v) => {
            let n = with_types(|t| match t.tys[ty as usize] {
                Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => (t.bits(ty) as usize + 7) / 8,
                _ => 0,
            });
            let b = v.to_le_bytes();
            for i in 0..n {
                o.write_byte(off + i, konst(8, b[i.min(15)] as u128));
            }
        }
        K::Undef => {
            let n = with_types(|t| t.size(ty)) as usize;
            if n > 0 {
                o.write_uninit(off, n);
            }
        }
        K::Agg(ks) => {
            let fs = with_types(|t| t.fields(ty));
            for (i, k) in ks.iter().enumerate() {
                put_const(o, off + fs[i].0 as usize, fs[i].1, k);
            }
        }
    }
}
