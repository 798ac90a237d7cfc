//! Stands in for ryu in the symbolic check of number output: a finite number is written as its bits, so that two
//! outputs are equal exactly when the same number was handed over in the same precision.
#![no_std]

#[derive(Clone, Copy)]
pub struct Buffer {
    b: [u8; 66],
}

mod sealed {
    pub trait Sealed: Copy {
        fn finite(self) -> bool;
        fn special(self) -> &'static str;
        fn write(self, b: &mut [u8; 66]) -> usize;
    }
}
use sealed::Sealed;
pub trait Float: Sealed {}

macro_rules! float {
    ($t:ident $n:literal $mark:literal $exp:expr) => {
        impl Float for $t {}
        impl Sealed for $t {
            #[inline]
            fn finite(self) -> bool {
                self.to_bits() & $exp != $exp
            }
            #[inline]
            fn special(self) -> &'static str {
                if self.to_bits() << 1 != $exp << 1 {
                    "NaN"
                } else if self.to_bits() >> ($n - 1) == 0 {
                    "inf"
                } else {
                    "-inf"
                }
            }
            #[inline]
            fn write(self, b: &mut [u8; 66]) -> usize {
                let x = self.to_bits();
                b[0] = $mark;
                for i in 0..$n {
                    b[1 + i] = b'0' + (x >> ($n - 1 - i)) as u8 % 2;
                }
                $n + 1
            }
        }
    };
}
float!(f64 64 b'1' 0x7ff0_0000_0000_0000);
float!(f32 32 b'2' 0x7f80_0000);

impl Buffer {
    #[inline]
    pub fn new() -> Self {
        Buffer { b: [0; 66] }
    }
    pub fn format<F: Float>(&mut self, f: F) -> &str {
        if f.finite() {
            self.format_finite(f)
        } else {
            f.special()
        }
    }
    #[inline]
    pub fn format_finite<F: Float>(&mut self, f: F) -> &str {
        let n = f.write(&mut self.b);
        unsafe { core::str::from_utf8_unchecked(&self.b[..n]) }
    }
}
impl Default for Buffer {
    fn default() -> Self {
        Buffer::new()
    }
}

pub mod raw {
    use super::sealed::Sealed;
    pub unsafe fn format64(f: f64, p: *mut u8) -> usize {
        let mut b = [0; 66];
        let n = f.write(&mut b);
        for i in 0..n {
            *p.add(i) = b[i];
        }
        n
    }
    pub unsafe fn format32(f: f32, p: *mut u8) -> usize {
        let mut b = [0; 66];
        let n = f.write(&mut b);
        for i in 0..n {
            *p.add(i) = b[i];
        }
        n
    }
}
