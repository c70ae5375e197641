//! Generators of symbolic text, shared by the harnesses.
use crate::sym;

macro_rules! check {
    ($c:expr, $($m:tt)*) => { if !($c) { $crate::sym::fail($($m)*) } };
}

/// Append one symbolic ASCII character (all 128 values) and return its code.
pub fn ascii(s: &mut String) -> u8 {
    let v = sym::var(7) as u8;
    unsafe { s.as_mut_vec().push(v) };
    v
}
/// Append one symbolic character of the given UTF-8 length (1..=4): every scalar value of that length.
pub fn uni_len(s: &mut String, len: usize) {
    let b = unsafe { s.as_mut_vec() };
    match len {
        1 => {
            let v = sym::var(7);
            b.push(v as u8);
        }
        2 => {
            let v = sym::var(11);
            sym::assume(v >= 0x80);
            b.push(0xC0 | (v >> 6) as u8);
            b.push(0x80 | (v & 0x3f) as u8);
        }
        3 => {
            let v = sym::var(16);
            sym::assume((v >= 0x800) & !((v >= 0xD800) & (v <= 0xDFFF)));
            b.push(0xE0 | (v >> 12) as u8);
            b.push(0x80 | ((v >> 6) & 0x3f) as u8);
            b.push(0x80 | (v & 0x3f) as u8);
        }
        _ => {
            let v = sym::var(21);
            sym::assume((v >= 0x10000) & (v <= 0x10FFFF));
            b.push(0xF0 | (v >> 18) as u8);
            b.push(0x80 | ((v >> 12) & 0x3f) as u8);
            b.push(0x80 | ((v >> 6) & 0x3f) as u8);
            b.push(0x80 | (v & 0x3f) as u8);
        }
    }
}
/// Append one symbolic character: any Unicode scalar value.
pub fn uni(s: &mut String) {
    let n = 1 + sym::choice(4);
    uni_len(s, n)
}
/// Append one symbolic character out of a set of ASCII characters.
pub fn one_of(s: &mut String, set: &str) -> u8 {
    let v = sym::var(7) as u8;
    let mut ok = false;
    for c in set.bytes() {
        ok |= v == c;
    }
    sym::assume(ok);
    unsafe { s.as_mut_vec().push(v) };
    v
}
/// Up to `max` characters, each any Unicode scalar value.
pub fn text(max: usize) -> String {
    let n = sym::choice(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        uni(&mut s);
    }
    s
}
/// Exactly `n` ASCII characters.
pub fn ascii_text(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        ascii(&mut s);
    }
    s
}
/// Exactly `n` characters out of a set.
pub fn set_text(n: usize, set: &str) -> String {
    let mut s = String::new();
    for _ in 0..n {
        one_of(&mut s, set);
    }
    s
}
