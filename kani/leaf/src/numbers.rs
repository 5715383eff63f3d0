use crate::spec_bcd::spec_bcd;
use crate::support::{any_array, any_bytes, k};
use crate::{cover, harnesses};
use libmbus::parse::error::MBusError;
use libmbus::parse::types::number::*;
use winnow::{Bytes, Parser};

// ---------------------------------------------------------------- specifications

/// Type B / C: little-endian, two's complement when `signed`.
pub fn spec_unsigned(b: &[u8]) -> u64 {
    let mut v: u64 = 0;
    let mut i = 0;
    while i < b.len() {
        v |= (b[i] as u64) << (8 * i);
        i += 1;
    }
    v
}
pub fn spec_signed(b: &[u8]) -> i64 {
    let n = b.len();
    if n == 0 {
        return 0;
    }
    let u = spec_unsigned(b);
    if n < 8 && b[n - 1] & 0x80 != 0 {
        (u | (u64::MAX << (8 * n))) as i64
    } else {
        u as i64
    }
}
fn hex_upper(n: u8) -> u8 {
    if n < 10 {
        b'0' + n
    } else {
        b'A' + (n - 10)
    }
}
/// Character `i` of the textual form of an (invalid) BCD number.
pub fn spec_invalid_bcd_char(b: &[u8], i: usize) -> u8 {
    let byte = b[b.len() - 1 - i / 2];
    let nib = if i % 2 == 0 { byte >> 4 } else { byte & 15 };
    if i == 0 && nib == 15 {
        b'-'
    } else {
        hex_upper(nib)
    }
}

// ---------------------------------------------------------------- contracts

fn signed<const W: usize, const N: usize>() {
    let (a, n) = any_bytes::<N>();
    let mut i = Bytes::new(&a[..n]);
    let r = parse_binary_signed(W).parse_next(&mut i);
    match r {
        Ok(v) => {
            assert!(n >= W, "signed: accepts only with enough bytes");
            assert!(v == spec_signed(&a[..W]), "signed: two's complement little-endian value");
            assert!(i.len() == n - W, "signed: consumes exactly its width");
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(n < W, "signed: every bit pattern is accepted");
        }
    }
}
fn unsigned<const W: usize, const N: usize>() {
    let (a, n) = any_bytes::<N>();
    let mut i = Bytes::new(&a[..n]);
    let r = parse_binary_unsigned(W).parse_next(&mut i);
    match r {
        Ok(v) => {
            assert!(n >= W, "unsigned: accepts only with enough bytes");
            assert!(v == spec_unsigned(&a[..W]), "unsigned: little-endian value");
            assert!(i.len() == n - W, "unsigned: consumes exactly its width");
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(n < W, "unsigned: every bit pattern is accepted");
        }
    }
}
fn bcd<const W: usize, const N: usize, const L: usize>() {
    let a = any_array::<N>();
    let mut i = Bytes::new(&a[..L]);
    let r = parse_bcd(W).parse_next(&mut i);
    let want = if L >= W { spec_bcd(&a[..W]) } else { None };
    match r {
        Ok(v) => {
            assert!(want == Some(v), "BCD: accepted value equals the digits, sign applied");
            assert!(i.len() == L - W, "BCD: consumes exactly its width");
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(want.is_none(), "BCD: valid digits are accepted");
        }
    }
}
fn invalid_bcd<const W: usize, const N: usize, const L: usize>() {
    let a = any_array::<N>();
    let mut i = Bytes::new(&a[..L]);
    let r = parse_invalid_bcd(W).parse_next(&mut i);
    match r {
        Ok(v) => {
            assert!(L >= W, "invalid BCD: accepts only with enough bytes");
            assert!(i.len() == L - W, "invalid BCD: consumes exactly its width");
            let s = v.as_bytes();
            assert!(s.len() == 2 * W, "invalid BCD: one character per nibble");
            let mut j = 0;
            while j < 2 * W {
                assert!(s[j] == spec_invalid_bcd_char(&a[..W], j), "invalid BCD: digits most significant first");
                j += 1;
            }
            core::mem::forget(v);
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(L < W, "invalid BCD: every bit pattern is accepted");
        }
    }
}
// Trusted contracts of external text functions, restricted to ASCII (asserted).
pub fn push_ascii(s: &mut String, c: char) {
    assert!((c as u32) < 128, "trusted contract used outside ASCII");
    unsafe { s.as_mut_vec().push(c as u8) }
}
pub fn upper_ascii(s: &str) -> String {
    let b = s.as_bytes();
    let mut v: Vec<u8> = Vec::with_capacity(18);
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        assert!(c < 128, "trusted contract used outside ASCII");
        v.push(if c >= b'a' && c <= b'z' { c - 32 } else { c });
        i += 1;
    }
    unsafe { String::from_utf8_unchecked(v) }
}

harnesses! {
    bcd_0 [2] { bcd::<0, 1, 1>() }
    bcd_1 [3] { bcd::<1, 2, 2>() }
    bcd_2 [4] { bcd::<2, 3, 3>() }
    bcd_3 [5] { bcd::<3, 4, 4>() }
    bcd_4 [6] { bcd::<4, 5, 5>() }
    bcd_5 [7] { bcd::<5, 6, 6>() }
    bcd_6 [8] { bcd::<6, 7, 7>() }
    bcd_7 [9] { bcd::<7, 8, 8>() }
    bcd_8 [10] { bcd::<8, 9, 9>() }
    bcd_9 [11] { bcd::<9, 10, 10>() }
    bcd_1_short [3] { bcd::<1, 1, 0>() }
    bcd_2_short [4] { bcd::<2, 2, 1>() }
    bcd_3_short [5] { bcd::<3, 3, 2>() }
    bcd_4_short [6] { bcd::<4, 4, 3>() }
    bcd_6_short [8] { bcd::<6, 6, 5>() }
    bcd_9_short [11] { bcd::<9, 9, 8>() }
    signed_0 [3] { signed::<0, 1>() }
    signed_1 [4] { signed::<1, 2>() }
    signed_2 [5] { signed::<2, 3>() }
    signed_3 [6] { signed::<3, 4>() }
    signed_4 [7] { signed::<4, 5>() }
    signed_5 [8] { signed::<5, 6>() }
    signed_6 [9] { signed::<6, 7>() }
    signed_7 [10] { signed::<7, 8>() }
    signed_8 [11] { signed::<8, 9>() }
    unsigned_0 [3] { unsigned::<0, 1>() }
    unsigned_1 [4] { unsigned::<1, 2>() }
    unsigned_2 [5] { unsigned::<2, 3>() }
    unsigned_3 [6] { unsigned::<3, 4>() }
    unsigned_4 [7] { unsigned::<4, 5>() }
    unsigned_5 [8] { unsigned::<5, 6>() }
    unsigned_6 [9] { unsigned::<6, 7>() }
    unsigned_7 [10] { unsigned::<7, 8>() }
    unsigned_8 [11] { unsigned::<8, 9>() }
    real_number [10] { real(false) }
    real_nan [10] { real(true) }
}

fn real(nan: bool) {
    let (a, n) = any_bytes::<6>();
    let want = spec_unsigned(&a[..4]) as u32;
    k::assume((want & 0x7FFF_FFFF > 0x7F80_0000) == nan);
    let mut i = Bytes::new(&a[..n]);
    let r: Result<f32, MBusError> = parse_real(&mut i);
    match r {
        Ok(v) => {
            assert!(n >= 4, "real: accepts only with enough bytes");
            assert!(i.len() == n - 4, "real: consumes exactly four bytes");
            assert!(v.to_bits() == want, "real: IEEE 754 single, little-endian");
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(n < 4, "real: every bit pattern is accepted");
        }
    }
}

macro_rules! ascii_harnesses {
    ($($name:ident [$u:literal] $body:block)*) => { harnesses! { $(
        #[cfg_attr(kani, kani::stub(std::string::String::push, push_ascii))]
        #[cfg_attr(kani, kani::stub(str::to_uppercase, upper_ascii))]
        $name [$u] $body
    )* } }
}
pub mod invalid {
    use super::*;
    ascii_harnesses! {
        invalid_bcd_1 [4] { invalid_bcd::<1, 2, 2>() }
        invalid_bcd_2 [6] { invalid_bcd::<2, 3, 3>() }
        invalid_bcd_3 [8] { invalid_bcd::<3, 4, 4>() }
        invalid_bcd_4 [10] { invalid_bcd::<4, 5, 5>() }
        invalid_bcd_6 [14] { invalid_bcd::<6, 7, 7>() }
        invalid_bcd_1_short [4] { invalid_bcd::<1, 1, 0>() }
        invalid_bcd_3_short [8] { invalid_bcd::<3, 3, 2>() }
    }
}
