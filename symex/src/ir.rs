//! Textual LLVM IR: lazily parsed functions, resolved global addresses.

use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Float,
    Double,
    Ptr,
    Arr(u64, TyId),
    Vec(u32, TyId),
    Struct(Vec<TyId>, bool),
    Other,
}

pub struct Types {
    pub tys: Vec<Ty>,
    map: HashMap<Ty, TyId>,
    pub sizes: Vec<(u64, u64)>, // store size rounded to alignment, alignment
}

impl Types {
    pub fn get(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.map.get(&t) {
            return i;
        }
        let sz = match &t {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                ((b + a - 1) / a * a, a)
            }
            Ty::Float => (4, 4),
            Ty::Double => (8, 8),
            Ty::Ptr => (8, 8),
            Ty::Arr(n, e) => {
                let (s, a) = self.sizes[*e as usize];
                (s * n, a)
            }
            Ty::Vec(n, e) => {
                let bits = self.bits(*e) as u64 * *n as u64;
                let b = (bits + 7) / 8;
                let a = b.next_power_of_two();
                ((b + a - 1) / a * a, a)
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for f in fs {
                    let (s, a) = self.sizes[*f as usize];
                    if !*packed {
                        o = (o + a - 1) / a * a;
                        al = al.max(a);
                    }
                    o += s;
                }
                ((o + al - 1) / al * al, al)
            }
        };
        let id = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.sizes.push(sz);
        self.map.insert(t, id);
        id
    }
    pub fn size(&self, t: TyId) -> u64 {
        self.sizes[t as usize].0
    }
    pub fn bits(&self, t: TyId) -> u32 {
        match self.tys[t as usize] {
            Ty::Int(w) => w,
            Ty::Float => 32,
            Ty::Double | Ty::Ptr => 64,
            _ => panic!("bits of aggregate {:?}", self.tys[t as usize]),
        }
    }
    /// Element types with byte offsets, for aggregates.
    pub fn fields(&self, t: TyId) -> Vec<(u64, TyId)> {
        match &self.tys[t as usize] {
            Ty::Arr(n, e) => (0..*n).map(|i| (i * self.size(*e), *e)).collect(),
            Ty::Vec(n, e) => {
                let b = self.bits(*e) as u64 / 8;
                (0..*n as u64).map(|i| (i * b, *e)).collect()
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut r = Vec::new();
                for f in fs {
                    let (s, a) = self.sizes[*f as usize];
                    if !*packed {
                        o = (o + a - 1) / a * a;
                    }
                    r.push((o, *f));
                    o += s;
                }
                r
            }
            _ => Vec::new(),
        }
    }
}

thread_local! {
    static TYPES: RefCell<Types> = RefCell::new(Types { tys: Vec::new(), map: HashMap::new(), sizes: Vec::new() });
}
pub fn with_types<R>(f: impl FnOnce(&mut Types) -> R) -> R {
    TYPES.with(|t| f(&mut t.borrow_mut()))
}

/// Constants as they appear in operands and initialisers.
#[derive(Clone, Debug)]
pub enum K {
    Int(u128), // truncated to the type's width; pointers and floats as bits
    Undef,
    Agg(Vec<K>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    C(u64),
    K(Rc<K>, TyId),
    Undef,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred {
    False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FBin {
    Add, Sub, Mul, Div, Rem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc, ZExt, SExt, PtrToInt, IntToPtr, BitCast, FpExt, FpTrunc, UiToFp, SiToFp, FpToUi, FpToSi,
}

#[derive(Clone, Debug)]
pub struct Switch {
    pub val: Opnd,
    pub w: u32,
    pub default: u32,
    pub cases: Vec<(u64, u32)>,
    pub table: HashMap<u64, u32>,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub dst: Option<u32>,
    pub ret: TyId,
    pub callee: Callee,
    pub args: Vec<(TyId, Opnd)>,
    pub invoke: Option<(u32, u32)>,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // function index
    Intr(Rc<str>),
    Ind(Opnd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, dst: u32, ty: TyId, w: u32, lanes: u32, a: Opnd, b: Opnd },
    ICmp { p: Pred, dst: u32, ty: TyId, w: u32, lanes: u32, a: Opnd, b: Opnd },
    FCmp { p: FPred, dst: u32, w: u32, lanes: u32, a: Opnd, b: Opnd },
    FBin { op: FBin, dst: u32, w: u32, lanes: u32, a: Opnd, b: Opnd },
    FNeg { dst: u32, w: u32, a: Opnd },
    Cast { op: Cast, dst: u32, from: TyId, to: TyId, a: Opnd },
    Load { dst: u32, ty: TyId, w: u32, ptr: Opnd, align: u64 },
    Store { ty: TyId, w: u32, val: Opnd, ptr: Opnd, align: u64 },
    Gep { dst: u32, base: Opnd, off: u64, idx: Vec<(Opnd, u32, u64)> },
    Alloca { dst: u32, size: u64, align: u64 },
    Select { dst: u32, ty: TyId, lanes: u32, c: Opnd, a: Opnd, b: Opnd },
    Extract { dst: u32, a: Opnd, idx: Vec<u32> },
    Insert { dst: u32, ty: TyId, a: Opnd, b: Opnd, idx: Vec<u32> },
    ExtractElem { dst: u32, a: Opnd, i: Opnd },
    InsertElem { dst: u32, lanes: u32, a: Opnd, b: Opnd, i: Opnd },
    Shuffle { dst: u32, n: u32, a: Opnd, b: Opnd, mask: Vec<Option<u32>> },
    Call(Rc<Call>),
    Br(u32),
    CondBr { c: Opnd, t: u32, f: u32 },
    Switch(Rc<Switch>),
    Ret { ty: TyId, v: Option<Opnd> },
    Unreachable,
    Resume(Opnd),
    LandingPad { dst: u32, catch: bool },
    AtomicRmw { dst: u32, op: Rc<str>, w: u32, ptr: Opnd, v: Opnd },
    CmpXchg { dst: u32, w: u32, ptr: Opnd, a: Opnd, b: Opnd },
    Fence,
    Freeze { dst: u32, ty: TyId, a: Opnd },
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub dst: u32,
    pub inc: Vec<(u32, Opnd)>,
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<Inst>,
    pub name: String,
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: String,
    pub demangled: String,
    pub body: Option<(usize, usize)>, // byte range: header line .. closing brace
    pub parsed: RefCell<Option<Rc<Func>>>,
    pub insts: std::cell::Cell<u32>,
}

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub align: u64,
    pub constant: bool,
    pub external: bool,
    pub tls: bool,
    pub init: (usize, usize),
}

pub struct Module {
    pub text: &'static str,
    pub globals: Vec<Global>,
    pub funcs: Vec<FuncDecl>,
    pub gmap: HashMap<String, u64>, // symbol -> address
    pub fmap: HashMap<String, u32>,
    pub named: HashMap<String, TyId>,
    pub aliases: Vec<(String, String)>,
}

/// Object ids: globals first, then functions, then everything dynamic.
pub const GLOBAL0: u64 = 16;
pub fn addr_of(id: u64, align: u64) -> u64 {
    (id << 32) + 0x10000 + align.max(1)
}

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    W(&'a str),          // word / number
    L(std::borrow::Cow<'a, str>), // %name
    G(std::borrow::Cow<'a, str>), // @name
    S(&'a str),          // "..."
    CS(&'a str),         // c"..."
    M,                   // metadata reference, skipped content
    A,                   // #n
    P(u8),               // punctuation
}

fn unq(s: &str) -> std::borrow::Cow<'_, str> {
    if s.contains('\\') {
        let b = unescape(s);
        std::borrow::Cow::Owned(String::from_utf8_lossy(&b).into_owned())
    } else {
        std::borrow::Cow::Borrowed(s)
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut r = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if i + 1 < b.len() && b[i + 1] == b'\\' {
                r.push(b'\\');
                i += 2;
            } else {
                r.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            r.push(b[i]);
            i += 1;
        }
    }
    r
}

fn lex<'a>(s: &'a str, out: &mut Vec<T<'a>>) {
    let b = s.as_bytes();
    let mut i = 0;
    let is_id = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let st;
                let en;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    en = j;
                    i = j + 1;
                } else {
                    st = i + 1;
                    let mut j = st;
                    while j < b.len() && is_id(b[j]) {
                        j += 1;
                    }
                    en = j;
                    i = j;
                }
                let n = unq(&s[st..en]);
                out.push(if c == b'%' { T::L(n) } else { T::G(n) });
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(T::S(&s[st..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(T::CS(&s[st..j]));
                i = j + 1;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && is_id(b[j]) {
                    j += 1;
                }
                // !{...} or !DIxxx(...)
                out.push(T::M);
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && is_id(b[j]) {
                    j += 1;
                }
                out.push(T::A);
                i = j;
            }
            b'+' => i += 1,
            _ if is_id(c) => {
                let st = i;
                let mut j = i;
                while j < b.len() && (is_id(b[j]) || (b[j] == b'+' && j > st && (b[j - 1] == b'e' || b[j - 1] == b'E'))) {
                    j += 1;
                }
                out.push(T::W(&s[st..j]));
                i = j;
            }
            _ => {
                out.push(T::P(c));
                i += 1;
            }
        }
    }
}

struct P<'a, 'm> {
    t: Vec<T<'a>>,
    i: usize,
    m: &'m Module,
    regs: HashMap<String, u32>,
    nregs: u32,
    blocks: HashMap<String, u32>,
}

const SKIP_ATTR_PAREN: &[&str] = &[
    "captures", "dereferenceable", "dereferenceable_or_null", "range", "nofpclass", "initializes", "align", "sret", "byval",
    "elementtype", "memory", "preallocated", "inalloca", "byref", "allocsize", "alignstack", "vscale_range", "uwtable", "dead_on_return",
];
const ATTRS: &[&str] = &[
    "noalias", "noundef", "nonnull", "nofree", "readonly", "readnone", "writeonly", "nocapture", "signext", "zeroext", "inreg", "returned",
    "immarg", "allocalign", "allocptr", "nest", "swiftself", "writable", "dead_on_unwind", "noext", "nocallback", "nosync", "inrange",
    "allocptr", "uwtable", "nounwind",
];
const LINKAGE: &[&str] = &[
    "private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak", "linkonce_odr", "weak_odr",
    "external", "dso_local", "dso_preemptable", "default", "hidden", "protected", "unnamed_addr", "local_unnamed_addr", "fastcc", "ccc",
    "coldcc", "tailcc", "cc", "dllimport", "dllexport", "externally_initialized", "preserve_mostcc", "preserve_allcc", "preserve_nonecc",
    "cold", "x86_fastcallcc",
];

impl<'a, 'm> P<'a, 'm> {
    fn new(s: &'a str, m: &'m Module) -> Self {
        let mut t = Vec::new();
        lex(s, &mut t);
        P { t, i: 0, m, regs: HashMap::new(), nregs: 0, blocks: HashMap::new() }
    }
    fn peek(&self) -> Option<&T<'a>> {
        self.t.get(self.i)
    }
    fn peek_w(&self) -> &'a str {
        match self.t.get(self.i) {
            Some(T::W(w)) => w,
            _ => "",
        }
    }
    fn next(&mut self) -> T<'a> {
        let t = self.t.get(self.i).cloned().unwrap_or(T::P(0));
        self.i += 1;
        t
    }
    fn is_p(&self, c: u8) -> bool {
        matches!(self.t.get(self.i), Some(T::P(x)) if *x == c)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.fail(&format!("expected '{}'", c as char));
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.peek_w() == w {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn fail(&self, m: &str) -> ! {
        let a = self.i.saturating_sub(12);
        let b = (self.i + 6).min(self.t.len());
        panic!("IR parse error: {} near {:?}", m, &self.t[a..b]);
    }
    fn skip_parens(&mut self) {
        if self.eat(b'(') {
            let mut d = 1;
            while d > 0 {
                match self.next() {
                    T::P(b'(') => d += 1,
                    T::P(b')') => d -= 1,
                    T::P(0) => self.fail("eof"),
                    _ => {}
                }
            }
        }
    }
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Some(T::W(w)) => {
                    let w = *w;
                    if w == "align" {
                        self.i += 1;
                        if self.is_p(b'(') {
                            self.skip_parens();
                        } else {
                            self.i += 1;
                        }
                    } else if SKIP_ATTR_PAREN.contains(&w) {
                        self.i += 1;
                        self.skip_parens();
                    } else if ATTRS.contains(&w) {
                        self.i += 1;
                    } else {
                        return;
                    }
                }
                Some(T::S(_)) => {
                    self.i += 1;
                    if self.eat(b'=') {
                        self.i += 1;
                    }
                }
                Some(T::A) => self.i += 1,
                _ => return,
            }
        }
    }
    fn ty(&mut self) -> TyId {
        let mut t = match self.next() {
            T::W("void") => with_types(|t| t.get(Ty::Void)),
            T::W("ptr") => {
                if self.peek_w() == "addrspace" {
                    self.i += 1;
                    self.skip_parens();
                }
                with_types(|t| t.get(Ty::Ptr))
            }
            T::W("float") => with_types(|t| t.get(Ty::Float)),
            T::W("double") => with_types(|t| t.get(Ty::Double)),
            T::W("metadata") | T::W("token") | T::W("label") | T::W("x86_fp80") | T::W("fp128") | T::W("half") | T::W("bfloat") => {
                with_types(|t| t.get(Ty::Other))
            }
            T::W(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
                let n = w[1..].parse().unwrap();
                with_types(|t| t.get(Ty::Int(n)))
            }
            T::P(b'[') => {
                let n: u64 = match self.next() {
                    T::W(w) => w.parse().unwrap(),
                    _ => self.fail("array len"),
                };
                self.eat_w("x");
                let e = self.ty();
                self.expect(b']');
                with_types(|t| t.get(Ty::Arr(n, e)))
            }
            T::P(b'<') => {
                if self.is_p(b'{') {
                    self.i += 1;
                    let fs = self.ty_list(b'}');
                    self.expect(b'>');
                    with_types(|t| t.get(Ty::Struct(fs, true)))
                } else {
                    let n: u32 = match self.next() {
                        T::W(w) => w.parse().unwrap(),
                        _ => self.fail("vector len"),
                    };
                    self.eat_w("x");
                    let e = self.ty();
                    self.expect(b'>');
                    with_types(|t| t.get(Ty::Vec(n, e)))
                }
            }
            T::P(b'{') => {
                let fs = self.ty_list(b'}');
                with_types(|t| t.get(Ty::Struct(fs, false)))
            }
            T::L(n) => match self.m.named.get(n.as_ref()) {
                Some(&t) => t,
                None => with_types(|t| t.get(Ty::Other)),
            },
            _ => {
                self.i -= 1;
                self.fail("type")
            }
        };
        // function types
        while self.is_p(b'(') && self.looks_like_fn_ty() {
            self.skip_parens();
            let _ = &mut t;
        }
        t
    }
    fn looks_like_fn_ty(&self) -> bool {
        // after a return type in a call: `i32 (i32, ...) @f(` ; never otherwise
        let mut d = 0;
        let mut j = self.i;
        while j < self.t.len() {
            match &self.t[j] {
                T::P(b'(') => d += 1,
                T::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return matches!(self.t.get(j + 1), Some(T::G(_)) | Some(T::L(_)));
                    }
                }
                _ => {}
            }
            j += 1;
        }
        false
    }
    fn ty_list(&mut self, end: u8) -> Vec<TyId> {
        let mut v = Vec::new();
        if self.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty());
            if self.eat(end) {
                return v;
            }
            self.expect(b',');
        }
    }

    fn global_addr(&self, n: &str) -> u64 {
        match self.m.gmap.get(n) {
            Some(&a) => a,
            None => panic!("unknown symbol @{}", n),
        }
    }

    /// A constant of type `ty`.
    fn konst(&mut self, ty: TyId) -> K {
        let t = with_types(|t| t.tys[ty as usize].clone());
        match self.next() {
            T::W("zeroinitializer") | T::W("null") | T::W("none") => zero(ty),
            T::W("undef") | T::W("poison") => K::Undef,
            T::W("true") => K::Int(1),
            T::W("false") => K::Int(0),
            T::W("getelementptr") => {
                while matches!(self.peek_w(), "inbounds" | "nuw" | "nusw" | "inrange") {
                    self.i += 1;
                    self.skip_parens_if_inrange();
                }
                self.expect(b'(');
                let et = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let base = self.konst(pt);
                let mut a = kint(&base);
                let mut cur = et;
                let mut first = true;
                while self.eat(b',') {
                    let it = self.ty();
                    let k = self.konst(it);
                    let w = with_types(|t| t.bits(it));
                    let iv = crate::expr::sext(kint(&k), w) as i64;
                    let off = gep_step(&mut cur, &mut first, iv);
                    a = (a as u64).wrapping_add(off as u64) as u128;
                }
                self.expect(b')');
                K::Int(a)
            }
            T::W("ptrtoint") | T::W("inttoptr") | T::W("bitcast") | T::W("addrspacecast") | T::W("ptrtoaddr") => {
                self.expect(b'(');
                let t1 = self.ty();
                let k = self.konst(t1);
                self.eat_w("to");
                let t2 = self.ty();
                self.expect(b')');
                match k {
                    K::Int(v) => K::Int(v & crate::expr::mask(with_types(|t| t.bits(t2)))),
                    k => k,
                }
            }
            T::W("trunc") => {
                self.expect(b'(');
                let t1 = self.ty();
                let k = self.konst(t1);
                self.eat_w("to");
                let t2 = self.ty();
                self.expect(b')');
                K::Int(kint(&k) & crate::expr::mask(with_types(|t| t.bits(t2))))
            }
            T::W(op @ ("sub" | "add" | "xor" | "mul")) => {
                while matches!(self.peek_w(), "nuw" | "nsw") {
                    self.i += 1;
                }
                self.expect(b'(');
                let t1 = self.ty();
                let a = self.konst(t1);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.konst(t2);
                self.expect(b')');
                let (a, b) = (kint(&a), kint(&b));
                let r = match op {
                    "sub" => a.wrapping_sub(b),
                    "add" => a.wrapping_add(b),
                    "mul" => a.wrapping_mul(b),
                    _ => a ^ b,
                };
                K::Int(r & crate::expr::mask(with_types(|t| t.bits(t1))))
            }
            T::W("splat") => {
                self.expect(b'(');
                let et = self.ty();
                let k = self.konst(et);
                self.expect(b')');
                let n = match t {
                    Ty::Vec(n, _) => n,
                    _ => self.fail("splat"),
                };
                K::Agg(vec![k; n as usize])
            }
            T::W("dso_local_equivalent") | T::W("no_cfi") => self.konst(ty),
            T::W(w) => match t {
                Ty::Int(n) => K::Int(parse_int(w).unwrap_or_else(|| panic!("int literal {}", w)) & crate::expr::mask(n)),
                Ty::Double => K::Int(parse_float(w).to_bits() as u128),
                Ty::Float => K::Int((parse_float(w) as f32).to_bits() as u128),
                Ty::Ptr => K::Int(parse_int(w).unwrap()),
                _ => {
                    self.i -= 1;
                    self.fail("constant")
                }
            },
            T::G(n) => K::Int(self.global_addr(&n) as u128),
            T::CS(s) => K::Agg(unescape(s).into_iter().map(|b| K::Int(b as u128)).collect()),
            T::P(b'{') => K::Agg(self.konst_list(b'}')),
            T::P(b'[') => K::Agg(self.konst_list(b']')),
            T::P(b'<') => {
                if self.is_p(b'{') {
                    self.i += 1;
                    let v = self.konst_list(b'}');
                    self.expect(b'>');
                    K::Agg(v)
                } else {
                    K::Agg(self.konst_list(b'>'))
                }
            }
            T::L(_) => {
                self.i -= 1;
                self.fail("local in constant")
            }
            _ => {
                self.i -= 1;
                self.fail("constant")
            }
        }
    }
    fn skip_parens_if_inrange(&mut self) {
        // `inrange(-16, 8) (`: two paren groups
        if self.is_p(b'(') {
            let mut j = self.i;
            let mut d = 0;
            loop {
                match &self.t[j] {
                    T::P(b'(') => d += 1,
                    T::P(b')') => {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    _ => {}
                }
                j += 1;
            }
            if matches!(self.t.get(j + 1), Some(T::P(b'('))) {
                self.i = j + 1;
            }
        }
    }
    fn konst_list(&mut self, end: u8) -> Vec<K> {
        let mut v = Vec::new();
        if self.eat(end) {
            return v;
        }
        loop {
            let t = self.ty();
            v.push(self.konst(t));
            if self.eat(end) {
                return v;
            }
            self.expect(b',');
        }
    }

    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn opnd(&mut self, ty: TyId) -> Opnd {
        if let Some(T::L(n)) = self.peek() {
            let n = n.to_string();
            self.i += 1;
            return Opnd::Reg(self.reg(&n));
        }
        if let Some(T::M) = self.peek() {
            self.i += 1;
            if self.is_p(b'{') || self.is_p(b'(') {
                self.fail("metadata operand");
            }
            return Opnd::Undef;
        }
        if let Some(T::W("asm")) = self.peek() {
            self.fail("asm");
        }
        let k = self.konst(ty);
        let simple = with_types(|t| matches!(t.tys[ty as usize], Ty::Int(w) if w <= 64) || matches!(t.tys[ty as usize], Ty::Ptr | Ty::Float | Ty::Double));
        match k {
            K::Int(v) if simple => Opnd::C(v as u64),
            K::Undef => Opnd::Undef,
            k => Opnd::K(Rc::new(k), ty),
        }
    }
    fn ty_opnd(&mut self) -> (TyId, Opnd) {
        let t = self.ty();
        self.attrs();
        if with_types(|x| x.tys[t as usize] == Ty::Other) {
            // metadata or token arguments
            if !matches!(self.peek(), Some(T::L(_))) {
                // skip to , or ) at depth 0
                let mut d = 0;
                while let Some(t) = self.peek() {
                    match t {
                        T::P(b'(') | T::P(b'{') => d += 1,
                        T::P(b')') | T::P(b'}') if d > 0 => d -= 1,
                        T::P(b',') | T::P(b')') if d == 0 => break,
                        _ => {}
                    }
                    self.i += 1;
                }
                return (t, Opnd::Undef);
            }
        }
        (t, self.opnd(t))
    }
    fn label(&mut self) -> u32 {
        if !self.eat_w("label") {
            self.fail("label");
        }
        match self.next() {
            T::L(n) => self.blk(&n),
            _ => self.fail("label name"),
        }
    }
    fn blk(&self, n: &str) -> u32 {
        match self.blocks.get(n) {
            Some(&b) => b,
            None => panic!("unknown block {}", n),
        }
    }
    fn align_tail(&mut self) -> u64 {
        // ", align N" among trailing things
        let mut al = 1;
        while self.i + 1 < self.t.len() {
            if let (T::W("align"), T::W(n)) = (&self.t[self.i], &self.t[self.i + 1]) {
                al = n.parse().unwrap();
                break;
            }
            self.i += 1;
        }
        al
    }
}

fn gep_step(cur: &mut TyId, first: &mut bool, iv: i64) -> i64 {
    with_types(|t| {
        if *first {
            *first = false;
            return iv.wrapping_mul(t.size(*cur) as i64);
        }
        match t.tys[*cur as usize].clone() {
            Ty::Arr(_, e) => {
                *cur = e;
                iv.wrapping_mul(t.size(e) as i64)
            }
            Ty::Vec(_, e) => {
                *cur = e;
                iv.wrapping_mul(t.bits(e) as i64 / 8)
            }
            Ty::Struct(..) => {
                let f = t.fields(*cur)[iv as usize];
                *cur = f.1;
                f.0 as i64
            }
            x => panic!("gep into {:?}", x),
        }
    })
}

fn kint(k: &K) -> u128 {
    match k {
        K::Int(v) => *v,
        _ => 0,
    }
}

pub fn zero(ty: TyId) -> K {
    let t = with_types(|t| t.tys[ty as usize].clone());
    match t {
        Ty::Arr(n, e) => K::Agg((0..n).map(|_| zero(e)).collect()),
        Ty::Vec(n, e) => K::Agg((0..n).map(|_| zero(e)).collect()),
        Ty::Struct(fs, _) => K::Agg(fs.into_iter().map(zero).collect()),
        _ => K::Int(0),
    }
}

fn parse_int(w: &str) -> Option<u128> {
    if let Some(r) = w.strip_prefix('-') {
        return r.parse::<u128>().ok().map(|v| v.wrapping_neg());
    }
    if let Some(r) = w.strip_prefix("u0x") {
        return u128::from_str_radix(r, 16).ok();
    }
    if let Some(r) = w.strip_prefix("s0x") {
        return u128::from_str_radix(r, 16).ok();
    }
    w.parse::<u128>().ok()
}
fn parse_float(w: &str) -> f64 {
    if let Some(r) = w.strip_prefix("0x") {
        return f64::from_bits(u64::from_str_radix(r, 16).unwrap_or_else(|_| panic!("float {}", w)));
    }
    if let Some(r) = w.strip_prefix("f0x") {
        let v = u64::from_str_radix(r, 16).unwrap();
        if r.len() <= 8 {
            return f32::from_bits(v as u32) as f64;
        }
        return f64::from_bits(v);
    }
    match w {
        "inf" | "+inf" => return f64::INFINITY,
        "-inf" => return f64::NEG_INFINITY,
        "nan" | "qnan" => return f64::NAN,
        _ => {}
    }
    w.parse().unwrap_or_else(|_| panic!("float {}", w))
}

pub fn demangle(n: &str) -> String {
    // Good enough for reports and name matching: the identifiers of a v0 symbol, in order.
    let Some(r) = n.strip_prefix("_R") else { return n.to_string() };
    let b = r.as_bytes();
    let mut out: Vec<String> = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut len = 0usize;
            while j < b.len() && b[j].is_ascii_digit() && len < 1000 {
                len = len * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if len > 0 && j + len <= b.len() && b[j..j + len].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                out.push(r[j..j + len].to_string());
                i = j + len;
                continue;
            }
            i = j;
        } else if b[i] == b's' || b[i] == b'B' || b[i] == b'K' {
            // disambiguators and back references: base-62 up to '_'
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() && j - i < 14 {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    out.join("::")
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e)).into_boxed_str());
        let mut m = Module {
            text,
            globals: Vec::new(),
            funcs: Vec::new(),
            gmap: HashMap::new(),
            fmap: HashMap::new(),
            named: HashMap::new(),
            aliases: Vec::new(),
        };
        let mut pos = 0;
        let mut glines: Vec<(usize, usize)> = Vec::new();
        let b = text.as_bytes();
        while pos < b.len() {
            let eol = memchr(b, pos, b'\n').unwrap_or(b.len());
            let line = &text[pos..eol];
            if line.starts_with("define ") {
                // body until "\n}\n"
                let mut e = eol + 1;
                loop {
                    let l = memchr(b, e, b'\n').unwrap_or(b.len());
                    if b[e] == b'}' {
                        e = l;
                        break;
                    }
                    e = l + 1;
                }
                let n = fn_name(line);
                m.funcs.push(FuncDecl {
                    demangled: demangle(&n),
                    name: n,
                    body: Some((pos, e)),
                    parsed: RefCell::new(None),
                    insts: std::cell::Cell::new(0),
                });
                pos = e + 1;
                continue;
            } else if line.starts_with("declare ") {
                let n = fn_name(line);
                m.funcs.push(FuncDecl {
                    demangled: demangle(&n),
                    name: n,
                    body: None,
                    parsed: RefCell::new(None),
                    insts: std::cell::Cell::new(0),
                });
            } else if line.starts_with('@') {
                glines.push((pos, eol));
            } else if line.starts_with('%') {
                if let Some(i) = line.find(" = type ") {
                    let n = line[1..i].trim_matches('"').to_string();
                    let mut p = P::new(&line[i + 8..], &m);
                    if p.peek_w() != "opaque" {
                        let t = p.ty();
                        m.named.insert(n, t);
                    }
                }
            }
            pos = eol + 1;
        }
        // globals: first types and addresses, initialisers later
        for (s, e) in glines {
            let line = &text[s..e];
            let mut p = P::new(line, &m);
            let name = match p.next() {
                T::G(n) => n.to_string(),
                _ => panic!("global"),
            };
            p.expect(b'=');
            let mut ext = false;
            let mut tls = false;
            let mut constant = false;
            loop {
                match p.peek() {
                    Some(T::W(w)) if *w == "thread_local" => {
                        tls = true;
                        p.i += 1;
                        p.skip_parens();
                    }
                    Some(T::W("addrspace")) => {
                        p.i += 1;
                        p.skip_parens();
                    }
                    Some(T::W(w)) if LINKAGE.contains(w) => {
                        if *w == "external" || *w == "extern_weak" {
                            ext = true;
                        }
                        p.i += 1;
                    }
                    _ => break,
                }
            }
            match p.next() {
                T::W("constant") => constant = true,
                T::W("global") => {}
                T::W("alias") => {
                    let _t = p.ty();
                    p.expect(b',');
                    let _p = p.ty();
                    if let T::G(tgt) = p.next() {
                        let tgt = tgt.to_string();
                        m.aliases.push((name, tgt));
                    }
                    continue;
                }
                x => panic!("global kind {:?} in {}", x, line),
            }
            let ty = p.ty();
            let align = {
                let mut al = with_types(|t| t.sizes[ty as usize].1);
                // trailing ", align N"
                if let Some(i) = line.rfind(", align ") {
                    let d: String = line[i + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    if let Ok(v) = d.parse() {
                        al = v;
                    }
                }
                al
            };
            m.globals.push(Global { name, ty, align, constant, external: ext, tls, init: (s, e) });
        }
        for (i, g) in m.globals.iter().enumerate() {
            m.gmap.insert(g.name.clone(), addr_of(GLOBAL0 + i as u64, g.align));
        }
        let f0 = GLOBAL0 + m.globals.len() as u64;
        for (i, f) in m.funcs.iter().enumerate() {
            m.gmap.insert(f.name.clone(), addr_of(f0 + i as u64, 16));
            m.fmap.insert(f.name.clone(), i as u32);
        }
        for (a, t) in m.aliases.clone() {
            if let Some(&x) = m.gmap.get(&t) {
                m.gmap.insert(a.clone(), x);
            }
            if let Some(&x) = m.fmap.get(&t) {
                m.fmap.insert(a, x);
            }
        }
        m
    }

    pub fn func0(&self) -> u64 {
        GLOBAL0 + self.globals.len() as u64
    }
    pub fn dyn0(&self) -> u64 {
        self.func0() + self.funcs.len() as u64
    }

    pub fn global_init(&self, i: usize) -> Option<K> {
        let g = &self.globals[i];
        if g.external {
            return None;
        }
        let mut p = P::new(&self.text[g.init.0..g.init.1], self);
        p.i = 2;
        loop {
            match p.peek() {
                Some(T::W("thread_local")) | Some(T::W("addrspace")) => {
                    p.i += 1;
                    p.skip_parens();
                }
                Some(T::W(w)) if LINKAGE.contains(w) => p.i += 1,
                _ => break,
            }
        }
        p.i += 1;
        let t = p.ty();
        Some(p.konst(t))
    }

    pub fn func(&self, i: u32) -> Option<Rc<Func>> {
        let d = &self.funcs[i as usize];
        if let Some(f) = &*d.parsed.borrow() {
            return Some(f.clone());
        }
        let (s, e) = d.body?;
        let f = Rc::new(self.parse_func(i, s, e));
        d.insts.set(f.blocks.iter().map(|b| (b.phis.len() + b.insts.len()) as u32).sum());
        *d.parsed.borrow_mut() = Some(f.clone());
        Some(f)
    }

    fn parse_func(&self, id: u32, s: usize, e: usize) -> Func {
        let text = &self.text[s..e];
        let eol = text.find('\n').unwrap();
        let header = &text[..eol];
        let mut p = P::new(header, self);
        // parameters
        let mut params = Vec::new();
        let mut next_num = 0u32;
        while !matches!(p.peek(), Some(T::G(_))) {
            p.i += 1;
        }
        p.i += 1;
        p.expect(b'(');
        if !p.eat(b')') {
            loop {
                if p.is_p(b'.') || p.peek_w() == "..." {
                    p.i += 1;
                    p.expect(b')');
                    break;
                }
                let _t = p.ty();
                p.attrs();
                let n = match p.peek() {
                    Some(T::L(n)) => {
                        let n = n.to_string();
                        p.i += 1;
                        n
                    }
                    _ => {
                        let n = next_num.to_string();
                        next_num += 1;
                        n
                    }
                };
                if n.parse::<u32>() == Ok(next_num) {
                    next_num += 1;
                }
                let r = p.reg(&n);
                params.push(r);
                if p.eat(b')') {
                    break;
                }
                p.expect(b',');
            }
        }
        let (regs, nregs) = (std::mem::take(&mut p.regs), p.nregs);

        // group lines into blocks and instructions
        let mut blocks: Vec<(String, Vec<String>)> = Vec::new();
        let mut lines = text[eol + 1..].lines().peekable();
        while let Some(l) = lines.next() {
            if l.is_empty() || l.starts_with(';') || l.starts_with('}') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let l2 = l.split(';').next().unwrap().trim_end();
                let n = l2.trim_end_matches(':').trim_matches('"');
                let n = unq(n).into_owned();
                blocks.push((n, Vec::new()));
                continue;
            }
            let tr = l.trim_start();
            if tr.starts_with('#') || tr.starts_with(';') {
                continue;
            }
            if blocks.is_empty() {
                blocks.push((next_num.to_string(), Vec::new()));
            }
            let insts = &mut blocks.last_mut().unwrap().1;
            let cont = tr.starts_with("to label") || tr.starts_with("cleanup") || tr.starts_with("catch ") || tr.starts_with("filter ");
            if cont {
                let last = insts.last_mut().unwrap();
                last.push(' ');
                last.push_str(tr);
                continue;
            }
            let mut one = tr.to_string();
            if tr.starts_with("switch ") && tr.ends_with('[') {
                loop {
                    let n = lines.next().unwrap();
                    one.push(' ');
                    one.push_str(n);
                    if n.trim_start().starts_with(']') {
                        break;
                    }
                }
            }
            insts.push(one);
        }
        let mut bmap = HashMap::new();
        for (i, (n, _)) in blocks.iter().enumerate() {
            bmap.insert(n.clone(), i as u32);
        }
        let mut regs = regs;
        let mut nregs = nregs;
        let mut out = Vec::new();
        for (n, insts) in &blocks {
            let mut phis = Vec::new();
            let mut v = Vec::new();
            for line in insts {
                let mut p = P::new(line, self);
                p.regs = std::mem::take(&mut regs);
                p.nregs = nregs;
                p.blocks = std::mem::take(&mut bmap);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.inst(&mut phis)));
                match r {
                    Ok(Some(i)) => v.push(i),
                    Ok(None) => {}
                    Err(_) => panic!("in instruction: {}", line),
                }
                regs = std::mem::take(&mut p.regs);
                nregs = p.nregs;
                bmap = std::mem::take(&mut p.blocks);
            }
            out.push(Block { phis, insts: v, name: n.clone() });
        }
        Func { id, params, nregs, blocks: out }
    }
}

fn memchr(b: &[u8], from: usize, c: u8) -> Option<usize> {
    b[from..].iter().position(|&x| x == c).map(|i| i + from)
}

fn fn_name(line: &str) -> String {
    let i = line.find('@').unwrap();
    let r = &line[i + 1..];
    if let Some(r) = r.strip_prefix('"') {
        r[..r.find('"').unwrap()].to_string()
    } else {
        r[..r.find('(').unwrap()].to_string()
    }
}

fn vinfo(ty: TyId) -> (u32, u32) {
    // (element width, lanes); lanes 0 for scalars, width 0 for aggregates
    with_types(|t| match t.tys[ty as usize] {
        Ty::Vec(n, e) => (t.bits(e), n),
        Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => (t.bits(ty), 0),
        _ => (0, 0),
    })
}

impl<'a, 'm> P<'a, 'm> {
    fn inst(&mut self, phis: &mut Vec<Phi>) -> Option<Inst> {
        let mut dst = None;
        if let (Some(T::L(n)), Some(T::P(b'='))) = (self.t.first().cloned(), self.t.get(1)) {
            dst = Some(self.reg(&n));
            self.i = 2;
        }
        let op = match self.next() {
            T::W(w) => w,
            _ => self.fail("opcode"),
        };
        let d = || dst.expect("dst");
        let bin = match op {
            "add" => Some(BinOp::Add),
            "sub" => Some(BinOp::Sub),
            "mul" => Some(BinOp::Mul),
            "udiv" => Some(BinOp::UDiv),
            "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem),
            "srem" => Some(BinOp::SRem),
            "and" => Some(BinOp::And),
            "or" => Some(BinOp::Or),
            "xor" => Some(BinOp::Xor),
            "shl" => Some(BinOp::Shl),
            "lshr" => Some(BinOp::LShr),
            "ashr" => Some(BinOp::AShr),
            _ => None,
        };
        if let Some(op) = bin {
            while matches!(self.peek_w(), "nuw" | "nsw" | "exact" | "disjoint") {
                self.i += 1;
            }
            let ty = self.ty();
            let a = self.opnd(ty);
            self.expect(b',');
            let b = self.opnd(ty);
            let (w, lanes) = vinfo(ty);
            return Some(Inst::Bin { op, dst: d(), ty, w, lanes, a, b });
        }
        let cast = match op {
            "trunc" => Some(Cast::Trunc),
            "zext" => Some(Cast::ZExt),
            "sext" => Some(Cast::SExt),
            "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt),
            "inttoptr" => Some(Cast::IntToPtr),
            "bitcast" | "addrspacecast" => Some(Cast::BitCast),
            "fpext" => Some(Cast::FpExt),
            "fptrunc" => Some(Cast::FpTrunc),
            "uitofp" => Some(Cast::UiToFp),
            "sitofp" => Some(Cast::SiToFp),
            "fptoui" => Some(Cast::FpToUi),
            "fptosi" => Some(Cast::FpToSi),
            _ => None,
        };
        if let Some(op) = cast {
            while matches!(self.peek_w(), "nuw" | "nsw" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                self.i += 1;
            }
            let from = self.ty();
            let a = self.opnd(from);
            self.eat_w("to");
            let to = self.ty();
            return Some(Inst::Cast { op, dst: d(), from, to, a });
        }
        Some(match op {
            "icmp" => {
                while self.peek_w() == "samesign" {
                    self.i += 1;
                }
                let p = match self.next() {
                    T::W("eq") => Pred::Eq,
                    T::W("ne") => Pred::Ne,
                    T::W("ult") => Pred::Ult,
                    T::W("ule") => Pred::Ule,
                    T::W("ugt") => Pred::Ugt,
                    T::W("uge") => Pred::Uge,
                    T::W("slt") => Pred::Slt,
                    T::W("sle") => Pred::Sle,
                    T::W("sgt") => Pred::Sgt,
                    T::W("sge") => Pred::Sge,
                    _ => self.fail("icmp predicate"),
                };
                let ty = self.ty();
                let a = self.opnd(ty);
                self.expect(b',');
                let b = self.opnd(ty);
                let (w, lanes) = vinfo(ty);
                Inst::ICmp { p, dst: d(), ty, w, lanes, a, b }
            }
            "fcmp" => {
                while matches!(self.peek_w(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    self.i += 1;
                }
                let p = match self.next() {
                    T::W("false") => FPred::False,
                    T::W("oeq") => FPred::Oeq,
                    T::W("ogt") => FPred::Ogt,
                    T::W("oge") => FPred::Oge,
                    T::W("olt") => FPred::Olt,
                    T::W("ole") => FPred::Ole,
                    T::W("one") => FPred::One,
                    T::W("ord") => FPred::Ord,
                    T::W("ueq") => FPred::Ueq,
                    T::W("ugt") => FPred::Ugt,
                    T::W("uge") => FPred::Uge,
                    T::W("ult") => FPred::Ult,
                    T::W("ule") => FPred::Ule,
                    T::W("une") => FPred::Une,
                    T::W("uno") => FPred::Uno,
                    T::W("true") => FPred::True,
                    _ => self.fail("fcmp predicate"),
                };
                let ty = self.ty();
                let a = self.opnd(ty);
                self.expect(b',');
                let b = self.opnd(ty);
                let (w, lanes) = vinfo(ty);
                Inst::FCmp { p, dst: d(), w, lanes, a, b }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while matches!(self.peek_w(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    self.i += 1;
                }
                let o = match op {
                    "fadd" => FBin::Add,
                    "fsub" => FBin::Sub,
                    "fmul" => FBin::Mul,
                    "fdiv" => FBin::Div,
                    _ => FBin::Rem,
                };
                let ty = self.ty();
                let a = self.opnd(ty);
                self.expect(b',');
                let b = self.opnd(ty);
                let (w, lanes) = vinfo(ty);
                Inst::FBin { op: o, dst: d(), w, lanes, a, b }
            }
            "fneg" => {
                let ty = self.ty();
                let a = self.opnd(ty);
                Inst::FNeg { dst: d(), w: vinfo(ty).0, a }
            }
            "load" => {
                while matches!(self.peek_w(), "atomic" | "volatile") {
                    self.i += 1;
                }
                let ty = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let ptr = self.opnd(pt);
                let align = self.align_tail();
                Inst::Load { dst: d(), ty, w: if vinfo(ty).1 == 0 { vinfo(ty).0 } else { 0 }, ptr, align }
            }
            "store" => {
                while matches!(self.peek_w(), "atomic" | "volatile") {
                    self.i += 1;
                }
                let (ty, val) = self.ty_opnd();
                self.expect(b',');
                let pt = self.ty();
                let ptr = self.opnd(pt);
                let align = self.align_tail();
                Inst::Store { ty, w: if vinfo(ty).1 == 0 { vinfo(ty).0 } else { 0 }, val, ptr, align }
            }
            "getelementptr" => {
                while matches!(self.peek_w(), "inbounds" | "nuw" | "nusw" | "inrange") {
                    self.i += 1;
                    if self.is_p(b'(') {
                        self.skip_parens();
                    }
                }
                let et = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let base = self.opnd(pt);
                let mut off = 0i64;
                let mut idx = Vec::new();
                let mut cur = et;
                let mut first = true;
                while self.is_p(b',') && !matches!(self.t.get(self.i + 1), Some(T::M)) {
                    self.i += 1;
                    let it = self.ty();
                    let o = self.opnd(it);
                    let w = vinfo(it).0;
                    match o {
                        Opnd::C(v) => {
                            let iv = crate::expr::sext(v as u128, w) as i64;
                            off = off.wrapping_add(gep_step(&mut cur, &mut first, iv));
                        }
                        o => {
                            let scale = gep_step(&mut cur, &mut first, 1);
                            idx.push((o, w, scale as u64));
                        }
                    }
                }
                Inst::Gep { dst: d(), base, off: off as u64, idx }
            }
            "alloca" => {
                while matches!(self.peek_w(), "inalloca" | "swifterror") {
                    self.i += 1;
                }
                let ty = self.ty();
                let mut n = 1u64;
                if self.is_p(b',') && !matches!(self.t.get(self.i + 1), Some(T::W("align"))) {
                    self.i += 1;
                    let (_, o) = self.ty_opnd();
                    match o {
                        Opnd::C(v) => n = v,
                        _ => self.fail("dynamic alloca"),
                    }
                }
                let align = self.align_tail();
                Inst::Alloca { dst: d(), size: with_types(|t| t.size(ty)) * n, align }
            }
            "select" => {
                while matches!(self.peek_w(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    self.i += 1;
                }
                let (ct, c) = self.ty_opnd();
                self.expect(b',');
                let (ty, a) = self.ty_opnd();
                self.expect(b',');
                let (_, b) = self.ty_opnd();
                Inst::Select { dst: d(), ty, lanes: vinfo(ct).1, c, a, b }
            }
            "extractvalue" => {
                let (_, a) = self.ty_opnd();
                let idx = self.idx_list();
                Inst::Extract { dst: d(), a, idx }
            }
            "insertvalue" => {
                let (ty, a) = self.ty_opnd();
                self.expect(b',');
                let (_, b) = self.ty_opnd();
                let idx = self.idx_list();
                Inst::Insert { dst: d(), ty, a, b, idx }
            }
            "extractelement" => {
                let (_, a) = self.ty_opnd();
                self.expect(b',');
                let (_, i) = self.ty_opnd();
                Inst::ExtractElem { dst: d(), a, i }
            }
            "insertelement" => {
                let (ty, a) = self.ty_opnd();
                self.expect(b',');
                let (_, b) = self.ty_opnd();
                self.expect(b',');
                let (_, i) = self.ty_opnd();
                Inst::InsertElem { dst: d(), lanes: vinfo(ty).1, a, b, i }
            }
            "shufflevector" => {
                let (ty, a) = self.ty_opnd();
                self.expect(b',');
                let (_, b) = self.ty_opnd();
                self.expect(b',');
                let mt = self.ty();
                let k = self.konst(mt);
                let mask = match k {
                    K::Agg(v) => v
                        .iter()
                        .map(|k| match k {
                            K::Int(v) => Some(*v as u32),
                            _ => None,
                        })
                        .collect(),
                    _ => self.fail("shuffle mask"),
                };
                Inst::Shuffle { dst: d(), n: vinfo(ty).1, a, b, mask }
            }
            "phi" => {
                while matches!(self.peek_w(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                    self.i += 1;
                }
                let ty = self.ty();
                let mut inc = Vec::new();
                loop {
                    self.expect(b'[');
                    let o = self.opnd(ty);
                    self.expect(b',');
                    let b = match self.next() {
                        T::L(n) => self.blk(&n),
                        _ => self.fail("phi block"),
                    };
                    self.expect(b']');
                    inc.push((b, o));
                    if !(self.is_p(b',') && matches!(self.t.get(self.i + 1), Some(T::P(b'[')))) {
                        break;
                    }
                    self.i += 1;
                }
                phis.push(Phi { dst: d(), inc });
                return None;
            }
            "br" => {
                if self.peek_w() == "label" {
                    Inst::Br(self.label())
                } else {
                    let (_, c) = self.ty_opnd();
                    self.expect(b',');
                    let t = self.label();
                    self.expect(b',');
                    let f = self.label();
                    Inst::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (ty, val) = self.ty_opnd();
                self.expect(b',');
                let default = self.label();
                self.expect(b'[');
                let mut cases = Vec::new();
                while !self.eat(b']') {
                    let (_, o) = self.ty_opnd();
                    self.expect(b',');
                    let l = self.label();
                    match o {
                        Opnd::C(v) => cases.push((v, l)),
                        _ => self.fail("switch case"),
                    }
                }
                let table = cases.iter().cloned().collect();
                Inst::Switch(Rc::new(Switch { val, w: vinfo(ty).0, default, cases, table }))
            }
            "ret" => {
                let ty = self.ty();
                if with_types(|t| t.tys[ty as usize] == Ty::Void) {
                    Inst::Ret { ty, v: None }
                } else {
                    let o = self.opnd(ty);
                    Inst::Ret { ty, v: Some(o) }
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => {
                let (_, o) = self.ty_opnd();
                Inst::Resume(o)
            }
            "landingpad" => {
                let _ = self.ty();
                let mut catch = false;
                while self.i < self.t.len() {
                    if let T::W("catch" | "filter") = self.t[self.i] {
                        catch = true;
                    }
                    self.i += 1;
                }
                Inst::LandingPad { dst: d(), catch }
            }
            "atomicrmw" => {
                while self.peek_w() == "volatile" {
                    self.i += 1;
                }
                let o = self.peek_w();
                self.i += 1;
                let (_, ptr) = self.ty_opnd();
                self.expect(b',');
                let (ty, v) = self.ty_opnd();
                Inst::AtomicRmw { dst: d(), op: o.into(), w: vinfo(ty).0, ptr, v }
            }
            "cmpxchg" => {
                while matches!(self.peek_w(), "weak" | "volatile") {
                    self.i += 1;
                }
                let (_, ptr) = self.ty_opnd();
                self.expect(b',');
                let (ty, a) = self.ty_opnd();
                self.expect(b',');
                let (_, b) = self.ty_opnd();
                Inst::CmpXchg { dst: d(), w: vinfo(ty).0, ptr, a, b }
            }
            "fence" => Inst::Fence,
            "freeze" => {
                let (ty, a) = self.ty_opnd();
                Inst::Freeze { dst: d(), ty, a }
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                if op == "tail" || op == "musttail" || op == "notail" {
                    self.i += 1;
                }
                // flags, calling convention, return attributes
                loop {
                    let w = self.peek_w();
                    if LINKAGE.contains(&w) || matches!(w, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
                        self.i += 1;
                    } else {
                        let i0 = self.i;
                        self.attrs();
                        if self.i == i0 {
                            break;
                        }
                    }
                }
                let ret = self.ty();
                let callee = match self.next() {
                    T::G(n) => {
                        if n.starts_with("llvm.") {
                            Callee::Intr(n.as_ref().into())
                        } else {
                            match self.m.fmap.get(n.as_ref()) {
                                Some(&f) => Callee::Direct(f),
                                None => panic!("call of unknown @{}", n),
                            }
                        }
                    }
                    T::L(n) => {
                        let r = self.reg(&n);
                        Callee::Ind(Opnd::Reg(r))
                    }
                    T::W("asm") => {
                        while !self.is_p(b'(') {
                            self.i += 1;
                        }
                        Callee::Asm
                    }
                    _ => {
                        self.i -= 1;
                        let pt = with_types(|t| t.get(Ty::Ptr));
                        let k = self.opnd(pt);
                        Callee::Ind(k)
                    }
                };
                self.expect(b'(');
                let mut args = Vec::new();
                if !self.eat(b')') {
                    loop {
                        args.push(self.ty_opnd());
                        if self.eat(b')') {
                            break;
                        }
                        self.expect(b',');
                    }
                }
                let mut inv = None;
                if op == "invoke" {
                    while self.peek_w() != "to" {
                        self.i += 1;
                    }
                    self.i += 1;
                    let n = self.label();
                    self.eat_w("unwind");
                    let u = self.label();
                    inv = Some((n, u));
                }
                if let Callee::Intr(n) = &callee {
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") {
                        return None;
                    }
                }
                Inst::Call(Rc::new(Call { dst, ret, callee, args, invoke: inv }))
            }
            _ => self.fail(&format!("opcode {}", op)),
        })
    }

    fn idx_list(&mut self) -> Vec<u32> {
        let mut v = Vec::new();
        while self.is_p(b',') {
            if let Some(T::W(w)) = self.t.get(self.i + 1) {
                if let Ok(n) = w.parse() {
                    v.push(n);
                    self.i += 2;
                    continue;
                }
            }
            break;
        }
        v
    }
}
