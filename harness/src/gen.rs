//! Documents with symbolic parts.
#![allow(dead_code)]
use crate::sym;

/// Fills in a template. Holes:
///   ?  any ASCII byte            ^  one of []{},:"1a and blank
///   #  a decimal digit           @  a hexadecimal digit
///   %  whitespace or nothing special: one of space, tab, LF, CR
///   \x02 \x03 \x04  a character of two, three, four bytes in UTF-8
///   \x05 any byte of a printable ASCII string character other than quote and backslash
pub fn fill(t: &[u8]) -> String {
    let mut v: Vec<u8> = Vec::with_capacity(t.len() * 2 + 8);
    for &c in t {
        match c {
            b'?' => {
                let b = sym::u8("any");
                sym::assume(b < 0x80);
                v.push(b);
            }
            b'^' => {
                let b = sym::u8("structural");
                sym::assume(
                    (b == b'[') | (b == b']') | (b == b'{') | (b == b'}') | (b == b',') | (b == b':') | (b == b'"') | (b == b'1') | (b == b'a') | (b == b' '),
                );
                v.push(b);
            }
            b'#' => {
                let b = sym::u8("digit");
                sym::assume(b.wrapping_sub(b'0') < 10);
                v.push(b);
            }
            b'@' => {
                let b = sym::u8("hex");
                sym::assume((b.wrapping_sub(b'0') < 10) | ((b | 0x20).wrapping_sub(b'a') < 6));
                v.push(b);
            }
            b'%' => {
                let b = sym::u8("blank");
                sym::assume((b == b' ') | (b == b'\t') | (b == b'\n') | (b == b'\r'));
                v.push(b);
            }
            2 => {
                let b: [u8; 2] = sym::bytes("char2");
                sym::assume((b[0] >= 0xc2) & (b[0] <= 0xdf) & (b[1] & 0xc0 == 0x80));
                v.extend_from_slice(&b);
            }
            3 => {
                let b: [u8; 3] = sym::bytes("char3");
                sym::assume((b[0] & 0xf0 == 0xe0) & (b[1] & 0xc0 == 0x80) & (b[2] & 0xc0 == 0x80));
                sym::assume(((b[0] != 0xe0) | (b[1] >= 0xa0)) & ((b[0] != 0xed) | (b[1] < 0xa0)));
                v.extend_from_slice(&b);
            }
            4 => {
                let b: [u8; 4] = sym::bytes("char4");
                sym::assume((b[0] >= 0xf0) & (b[0] <= 0xf4) & (b[1] & 0xc0 == 0x80) & (b[2] & 0xc0 == 0x80) & (b[3] & 0xc0 == 0x80));
                sym::assume(((b[0] != 0xf0) | (b[1] >= 0x90)) & ((b[0] != 0xf4) | (b[1] < 0x90)));
                v.extend_from_slice(&b);
            }
            5 => {
                let b = sym::u8("char");
                sym::assume((b >= 0x20) & (b < 0x7f) & (b != b'"') & (b != b'\\'));
                v.push(b);
            }
            c => v.push(c),
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// n symbolic bytes of one class.
pub fn run(class: u8, n: usize) -> String {
    let t = vec![class; n];
    fill(&t)
}

/// n ASCII bytes other than e and E (hence no exponents).
pub fn any_no_exp(n: usize) -> String {
    let mut v: Vec<u8> = vec![0; n];
    sym::fill("any", &mut v);
    for i in 0..n {
        sym::assume(v[i] < 0x80);
        sym::assume(v[i] | 0x20 != b'e');
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// n bytes that occur in numbers.
pub fn numberish(n: usize) -> String {
    let mut v: Vec<u8> = vec![0; n];
    sym::fill("number", &mut v);
    for i in 0..n {
        let b = v[i];
        sym::assume((b.wrapping_sub(b'0') < 10) | (b == b'-') | (b == b'+') | (b == b'.') | (b == b'e') | (b == b'E'));
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// The document chosen by parameters: 0: n bytes of any kind; 1: n structural bytes; 2: template n;
/// 3: n bytes without exponents; 4: n number bytes; 6: each of the templates from number n on, at most 100.
pub fn doc(gen: u64, n: u64, templates: &[&[u8]]) -> String {
    match gen {
        0 => run(b'?', n as usize),
        1 => run(b'^', n as usize),
        3 => any_no_exp(n as usize),
        4 => numberish(n as usize),
        6 => {
            let left = templates.len() - n as usize;
            fill(templates[n as usize + sym::pick("template", left.min(100) as u8)])
        }
        _ => fill(templates[n as usize]),
    }
}
