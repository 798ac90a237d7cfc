//! Types with more members or variants than a mask or a small counter holds, and long values written.
use crate::json::{self, bytes_eq, J};
use crate::model::{digits, quote, Model, Tri};
use crate::out::round;
use crate::types::{HmIf, Job, Parse};
use crate::{gen, sym};
use miniserde::json as mj;
use miniserde::json::{Array, Number, Object, Value};
use miniserde::{Deserialize, Serialize};
use std::collections::BTreeMap;

fn small(i: usize) -> u8 {
    (i % 200) as u8
}

macro_rules! wide {
    ($name:ident $t:ty: $($f:ident)*) => {
        #[derive(Serialize, Deserialize)]
        pub struct $name {
            $($f: $t),*
        }
        impl $name {
            const NAMES: &'static [&'static str] = &[$(stringify!($f)),*];
            fn each(&self) -> [&$t; Self::NAMES.len()] {
                [$(&self.$f),*]
            }
            fn of(make: &dyn Fn(usize) -> $t) -> Self {
                let mut i = 0;
                $( let $f = make(i); i += 1; )*
                sym::check(i == Self::NAMES.len(), "members");
                $name { $($f),* }
            }
            /// Which member has this name; most likely the one guessed.
            fn index(guess: usize, k: &[u8]) -> Option<usize> {
                let g = guess % Self::NAMES.len();
                for h in [g, Self::NAMES.len() - 1 - g] {
                    if bytes_eq(Self::NAMES[h].as_bytes(), k) {
                        return Some(h);
                    }
                }
                (0..Self::NAMES.len()).find(|&i| bytes_eq(Self::NAMES[i].as_bytes(), k))
            }
        }
        impl Model for $name {
            fn accepts(j: &J) -> Tri {
                let m = match j {
                    J::Obj(m) => m,
                    _ => return Tri::No,
                };
                let mut r = Tri::Yes;
                let mut seen = [<$t>::optional(); Self::NAMES.len()];
                for (i, (k, v)) in m.iter().enumerate() {
                    if let Some(i) = Self::index(i, k) {
                        seen[i] = true;
                        r = r.and(<$t>::accepts(v));
                    }
                }
                if !seen.iter().all(|s| *s) {
                    return Tri::No;
                }
                r
            }
            fn same(&self, j: &J) {
                if let J::Obj(m) = j {
                    let mut last: [Option<&J>; Self::NAMES.len()] = [None; Self::NAMES.len()];
                    for (i, (k, v)) in m.iter().enumerate() {
                        if let Some(i) = Self::index(i, k) {
                            last[i] = Some(v);
                        }
                    }
                    for (v, l) in self.each().iter().zip(&last) {
                        match l {
                            Some(l) => v.same(l),
                            None => v.absent(),
                        }
                    }
                }
            }
            fn text(&self, out: &mut Vec<u8>) {
                for (i, v) in self.each().iter().enumerate() {
                    out.push(if i == 0 { b'{' } else { b',' });
                    quote(Self::NAMES[i].as_bytes(), out);
                    out.push(b':');
                    v.text(out);
                }
                out.push(b'}');
            }
            fn equal(&self, o: &Self) -> bool {
                self.each().iter().zip(&o.each()).all(|(a, b)| a.equal(b))
            }
            fn any(_: u64) -> Self {
                let n = Self::NAMES.len();
                let at = [0, n / 2, n - 2, n - 1][sym::pick("member", 4)];
                let it = <u8 as Model>::any(0);
                Self::of(&|i| <$t>::from(if i == at { it } else { small(i) }))
            }
        }
    };
}
wide!(W70 u8:
    m0 m1 m2 m3 m4 m5 m6 m7 m8 m9 m10 m11 m12 m13 m14 m15 m16 m17 m18 m19 m20 m21 m22 m23 m24 m25 m26 m27 m28 m29 m30
    m31 m32 m33 m34 m35 m36 m37 m38 m39 m40 m41 m42 m43 m44 m45 m46 m47 m48 m49 m50 m51 m52 m53 m54 m55 m56 m57 m58 m59
    m60 m61 m62 m63 m64 m65 m66 m67 m68 m69);
wide!(W300 Option<u8>:
    m0 m1 m2 m3 m4 m5 m6 m7 m8 m9 m10 m11 m12 m13 m14 m15 m16 m17 m18 m19 m20 m21 m22 m23 m24 m25 m26 m27 m28 m29 m30
    m31 m32 m33 m34 m35 m36 m37 m38 m39 m40 m41 m42 m43 m44 m45 m46 m47 m48 m49 m50 m51 m52 m53 m54 m55 m56 m57 m58 m59
    m60 m61 m62 m63 m64 m65 m66 m67 m68 m69 m70 m71 m72 m73 m74 m75 m76 m77 m78 m79 m80 m81 m82 m83 m84 m85 m86 m87 m88
    m89 m90 m91 m92 m93 m94 m95 m96 m97 m98 m99 m100 m101 m102 m103 m104 m105 m106 m107 m108 m109 m110 m111 m112 m113
    m114 m115 m116 m117 m118 m119 m120 m121 m122 m123 m124 m125 m126 m127 m128 m129 m130 m131 m132 m133 m134 m135 m136
    m137 m138 m139 m140 m141 m142 m143 m144 m145 m146 m147 m148 m149 m150 m151 m152 m153 m154 m155 m156 m157 m158 m159
    m160 m161 m162 m163 m164 m165 m166 m167 m168 m169 m170 m171 m172 m173 m174 m175 m176 m177 m178 m179 m180 m181 m182
    m183 m184 m185 m186 m187 m188 m189 m190 m191 m192 m193 m194 m195 m196 m197 m198 m199 m200 m201 m202 m203 m204 m205
    m206 m207 m208 m209 m210 m211 m212 m213 m214 m215 m216 m217 m218 m219 m220 m221 m222 m223 m224 m225 m226 m227 m228
    m229 m230 m231 m232 m233 m234 m235 m236 m237 m238 m239 m240 m241 m242 m243 m244 m245 m246 m247 m248 m249 m250 m251
    m252 m253 m254 m255 m256 m257 m258 m259 m260 m261 m262 m263 m264 m265 m266 m267 m268 m269 m270 m271 m272 m273 m274
    m275 m276 m277 m278 m279 m280 m281 m282 m283 m284 m285 m286 m287 m288 m289 m290 m291 m292 m293 m294 m295 m296 m297
    m298 m299);

macro_rules! variants {
    ($name:ident: $($v:ident)*) => {
        #[derive(Serialize, Deserialize, Clone, Copy)]
        pub enum $name {
            $($v),*
        }
        impl $name {
            const NAMES: &'static [&'static str] = &[$(stringify!($v)),*];
            const ALL: &'static [$name] = &[$($name::$v),*];
        }
        impl Model for $name {
            fn accepts(j: &J) -> Tri {
                Tri::of(match j {
                    J::Str(s) => Self::NAMES.iter().any(|n| bytes_eq(n.as_bytes(), s)),
                    _ => false,
                })
            }
            fn same(&self, j: &J) {
                if let J::Str(s) = j {
                    sym::check(bytes_eq(Self::NAMES[*self as usize].as_bytes(), s), "variant");
                }
            }
            fn text(&self, out: &mut Vec<u8>) {
                quote(Self::NAMES[*self as usize].as_bytes(), out)
            }
            fn equal(&self, o: &Self) -> bool {
                *self as usize == *o as usize
            }
            fn any(part: u64) -> Self {
                let i = part as usize * 100 + sym::pick("variant", 100);
                Self::ALL[i]
            }
        }
    };
}
variants!(E300:
    V0 V1 V2 V3 V4 V5 V6 V7 V8 V9 V10 V11 V12 V13 V14 V15 V16 V17 V18 V19 V20 V21 V22 V23 V24 V25 V26 V27 V28 V29 V30
    V31 V32 V33 V34 V35 V36 V37 V38 V39 V40 V41 V42 V43 V44 V45 V46 V47 V48 V49 V50 V51 V52 V53 V54 V55 V56 V57 V58 V59
    V60 V61 V62 V63 V64 V65 V66 V67 V68 V69 V70 V71 V72 V73 V74 V75 V76 V77 V78 V79 V80 V81 V82 V83 V84 V85 V86 V87 V88
    V89 V90 V91 V92 V93 V94 V95 V96 V97 V98 V99 V100 V101 V102 V103 V104 V105 V106 V107 V108 V109 V110 V111 V112 V113
    V114 V115 V116 V117 V118 V119 V120 V121 V122 V123 V124 V125 V126 V127 V128 V129 V130 V131 V132 V133 V134 V135 V136
    V137 V138 V139 V140 V141 V142 V143 V144 V145 V146 V147 V148 V149 V150 V151 V152 V153 V154 V155 V156 V157 V158 V159
    V160 V161 V162 V163 V164 V165 V166 V167 V168 V169 V170 V171 V172 V173 V174 V175 V176 V177 V178 V179 V180 V181 V182
    V183 V184 V185 V186 V187 V188 V189 V190 V191 V192 V193 V194 V195 V196 V197 V198 V199 V200 V201 V202 V203 V204 V205
    V206 V207 V208 V209 V210 V211 V212 V213 V214 V215 V216 V217 V218 V219 V220 V221 V222 V223 V224 V225 V226 V227 V228
    V229 V230 V231 V232 V233 V234 V235 V236 V237 V238 V239 V240 V241 V242 V243 V244 V245 V246 V247 V248 V249 V250 V251
    V252 V253 V254 V255 V256 V257 V258 V259 V260 V261 V262 V263 V264 V265 V266 V267 V268 V269 V270 V271 V272 V273 V274
    V275 V276 V277 V278 V279 V280 V281 V282 V283 V284 V285 V286 V287 V288 V289 V290 V291 V292 V293 V294 V295 V296 V297
    V298 V299);

/// What becomes of the member in question.
const MEMBERS: &[&[u8]] = &[
    b"", b"\"m1\":#", b"\"m#\":1", b"\"m6#\":?", b"\"m1##\":5", b"\"m0\":8,\"m0\":#", b"\"m69\":#,\"m5\":6", b"\"m\\u00@@\":1",
    b"\"?\":0", b"\"m70\":[#],\"m300\":{}", b"\"m256\":#", b"\"m255\":#,\"m64\":null", b"\"m\":?", b"\"m65\":\"?\"",
];
const NAMED: &[&[u8]] = &[b"\"V#\"", b"\"V##\"", b"\"V1##\"", b"\"V5?\"", b"\"V19?\"", b"\"?1\"", b"\"V\\u00@@\"", b"\"V255\"", b"\"V256?\"", b"[\"V#\"]"];

/// The hole stands before member `at`, or in place of it when it is empty.
fn members(n: usize, at: usize, hole: &str, name: &dyn Fn(usize) -> usize) -> String {
    let mut v: Vec<u8> = Vec::new();
    v.push(b'{');
    let mut some = false;
    for i in 0..n {
        if i == at {
            if hole.len() == 0 {
                continue;
            }
            if some {
                v.push(b',');
            }
            v.extend_from_slice(hole.as_bytes());
            some = true;
        }
        if some {
            v.push(b',');
        }
        some = true;
        v.extend_from_slice(b"\"m");
        digits(false, name(i) as u64, &mut v);
        v.extend_from_slice(b"\":");
        digits(false, small(i) as u64, &mut v);
    }
    v.push(b'}');
    unsafe { String::from_utf8_unchecked(v) }
}

harness! {
    /// Structs and enums of many members. params: type (0: 70 members that must be there, 1: 300 optional ones,
    /// 2: 300 variants), order (0 as declared, 1 backwards)
    fn wide_de() {
        json::set_exact(false);
        let (t, order) = (sym::param(0), sym::param(1));
        if t == 2 {
            let s = gen::fill(NAMED[sym::pick("name", NAMED.len() as u8)]);
            return if order == 1 { Parse { s }.run::<Box<E300>>() } else { Parse { s }.run::<E300>() };
        }
        let n: usize = if t == 0 { 70 } else { 300 };
        let at = [0, n / 2, n - 1, n][sym::pick("position", 4)];
        let hole = if at == n { String::new() } else { gen::fill(MEMBERS[sym::pick("hole", MEMBERS.len() as u8)]) };
        let s = members(n, at, &hole, &|i| if order == 1 { n - 1 - i } else { i });
        if t == 0 { Parse { s }.run::<W70>() } else { Parse { s }.run::<W300>() }
    }
    /// The same written. params: type, part of the variants, mode
    fn wide_out() {
        let (part, mode) = (sym::param(1), sym::param(2));
        match sym::param(0) {
            0 => round(mode, || W70::any(0)),
            1 => round(mode, || W300::any(0)),
            2 => round(mode, || E300::any(part)),
            3 => round(mode, || vec![W70::any(0)]),
            _ => round(mode, || Some(Box::new(W70::any(0)))),
        }
    }
    /// Long lists and maps written, one part of them symbolic. params: elements, kind, mode
    fn long_out() {
        let n = sym::param(0) as usize;
        let mode = sym::param(2);
        let at = [0, 1, n / 2, n - 1][sym::pick("position", 4)];
        macro_rules! list { ($el:expr, $it:expr) => {{ let mut v = Vec::with_capacity(n); for i in 0..n { v.push(if i == at { $it } else { $el(i) }); } v }} }
        match sym::param(1) {
            0 => round(mode, || list!(small, u8::any(0))),
            1 => round(mode, || list!(|i: usize| if i % 2 == 0 { None } else { Some(Box::new(small(i))) }, Option::<Box<u8>>::any(0))),
            2 => round(mode, || list!(|i: usize| if i % 3 == 0 { Vec::new() } else { vec![i % 2 == 0, true] }, Vec::<bool>::any(2))),
            3 => round(mode, || list!(|i: usize| (i as u32, ((), String::from("s"))), (u32::any(0), ((), String::any(1))))),
            4 => round(mode, || { let l = list!(small, u8::any(0)); let a: [u8; 300] = std::array::from_fn(|i| l[i % n]); a }),
            5 => round(mode, || {
                let mut a = Array::new();
                for i in 0..n {
                    a.push(if i == at { Value::any(1) } else {
                        match i % 5 {
                            0 => Value::Null,
                            1 => Value::Array(Array::new()),
                            2 => Value::Object(Object::new()),
                            3 => Value::String(String::from("t\"")),
                            _ => Value::Number(Number::I64(-(i as i64))),
                        }
                    });
                }
                Value::Array(a)
            }),
            6 => round(mode, || {
                let mut o = Object::new();
                for i in 0..n {
                    let mut k = Vec::new();
                    digits(false, (i * 37 % 512) as u64, &mut k);
                    o.insert(unsafe { String::from_utf8_unchecked(k) }, if i == at { Value::any(1) } else { Value::Bool(i % 2 == 0) });
                }
                Value::Object(o)
            }),
            7 => round(mode, || {
                let mut m = BTreeMap::new();
                for i in 0..n {
                    m.insert(i as u64 * 7, if i == at { Vec::<u8>::any(2) } else { vec![small(i)] });
                }
                m
            }),
            8 => {
                // hashed: any order
                let l0 = sym::live();
                {
                    let mut m: HmIf<u64, u8> = Default::default();
                    let it = u8::any(0);
                    for i in 0..n {
                        m.insert(i as u64 * 7, if i == at { it } else { small(i) });
                    }
                    let text = mj::to_string(&m);
                    match json::parse(text.as_bytes()) {
                        Some(j) => {
                            if let J::Obj(t) = &j {
                                sym::check(t.len() == n, "entries written");
                            }
                            m.same(&j);
                            sym::check(HmIf::<u64, u8>::accepts(&j) == Tri::Yes, "text written");
                            sym::cover(1);
                        }
                        None => sym::fail("the text is not JSON"),
                    }
                    match mj::from_str::<HmIf<u64, u8>>(&text) {
                        Ok(r) => {
                            sym::check(r.len() == n, "number of entries");
                            sym::check(r.get(&(at as u64 * 7)) == Some(&it), "another value came back");
                            sym::cover(2);
                        }
                        Err(_) => sym::fail("the text written is refused"),
                    }
                }
                sym::check(sym::live() == l0, "memory left behind");
            }
            _ => round(mode, || {
                // deep
                let mut v = Value::any(1);
                for i in 0..n {
                    v = if i % 3 == 0 {
                        let mut o = Object::new();
                        o.insert(String::from("a"), v);
                        if i % 2 == 0 { o.insert(String::from("b"), Value::Bool(true)); }
                        Value::Object(o)
                    } else {
                        let mut a = Array::new();
                        if i % 2 == 0 { a.push(Value::Null); }
                        a.push(v);
                        if i % 5 == 0 { a.push(Value::Array(Array::new())); }
                        Value::Array(a)
                    };
                }
                v
            }),
        }
    }
}
