//! Stands in for itoa in the symbolic check of number output: an integer is written as sign and magnitude in binary,
//! so that two outputs are equal exactly when the integers are.
#![no_std]

#[derive(Clone, Copy)]
pub struct Buffer {
    b: [u8; 129],
}

mod sealed {
    pub trait Sealed: Copy {
        fn parts(self) -> (bool, u128);
    }
}
pub trait Integer: sealed::Sealed {
    const MAX_STR_LEN: usize;
}
macro_rules! int {
    ($($t:ident)*) => { $(
        impl Integer for $t {
            const MAX_STR_LEN: usize = 129;
        }
        impl sealed::Sealed for $t {
            #[allow(unused_comparisons)]
            #[inline]
            fn parts(self) -> (bool, u128) {
                if self < 0 {
                    (true, (self as u128).wrapping_neg())
                } else {
                    (false, self as u128)
                }
            }
        }
    )* };
}
int!(u8 u16 u32 u64 usize u128 i8 i16 i32 i64 isize i128);

impl Buffer {
    #[inline]
    pub fn new() -> Self {
        Buffer { b: [0; 129] }
    }
    pub fn format<I: Integer>(&mut self, i: I) -> &str {
        let (neg, m) = i.parts();
        self.b[0] = b'8' + neg as u8;
        for k in 0..128 {
            self.b[1 + k] = b'0' + (m >> (127 - k)) as u8 % 2;
        }
        unsafe { core::str::from_utf8_unchecked(&self.b) }
    }
}
impl Default for Buffer {
    fn default() -> Self {
        Buffer::new()
    }
}
