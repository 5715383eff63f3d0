//! C17: unit texts with characters of several bytes; UTF-8 decoding is not abstracted.
use crate::support::any_array;
use crate::{cover, harnesses};
use libmbus::parse::types::string::*;
use encoding_rs::{Encoding, WINDOWS_1252};
use std::borrow::Cow;
use winnow::{Bytes, Parser};

/// Length in bytes of the well-formed UTF-8 character at `a[i..n]` (Unicode, table 3-7).
fn character(a: &[u8], i: usize, n: usize) -> usize {
    let b = a[i];
    let cont = |j: usize, lo: u8, hi: u8| i + j < n && a[i + j] >= lo && a[i + j] <= hi;
    match b {
        0..=0x7F => 1,
        0xC2..=0xDF if cont(1, 0x80, 0xBF) => 2,
        0xE0 if cont(1, 0xA0, 0xBF) && cont(2, 0x80, 0xBF) => 3,
        0xED if cont(1, 0x80, 0x9F) && cont(2, 0x80, 0xBF) => 3,
        0xE1..=0xEC | 0xEE | 0xEF if cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF) => 3,
        0xF0 if cont(1, 0x90, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
        0xF1..=0xF3 if cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
        0xF4 if cont(1, 0x80, 0x8F) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
        _ => 0,
    }
}

/// The size of the first allocation is not under test.
pub fn with_capacity(_n: usize) -> String {
    String::new()
}
// `String::push` with its real contract, but in a buffer of fixed capacity: the
// allocator's growth strategy is not under test.
pub fn push(s: &mut String, c: char) {
    let v = unsafe { s.as_mut_vec() };
    if v.capacity() < 32 {
        assert!(v.is_empty(), "trusted contract: one buffer");
        *v = Vec::with_capacity(32);
    }
    let mut b = [0u8; 4];
    let c = c as u32;
    let n = if c < 0x80 {
        b[0] = c as u8;
        1
    } else if c < 0x800 {
        b = [0xC0 | (c >> 6) as u8, 0x80 | (c & 63) as u8, 0, 0];
        2
    } else if c < 0x10000 {
        b = [0xE0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8, 0];
        3
    } else {
        b = [0xF0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8];
        4
    };
    let l = v.len();
    assert!(l + 4 <= 32, "trusted contract: one buffer");
    unsafe {
        let p = v.as_mut_ptr().add(l);
        *p = b[0];
        *p.add(1) = b[1];
        *p.add(2) = b[2];
        *p.add(3) = b[3];
        v.set_len(l + n);
    }
}
pub fn reserve(_s: &mut String, _n: usize) {}

/// A text of `N - 2` arbitrary bytes, followed by one more byte.
fn utf8<const N: usize>() {
    let mut a = any_array::<N>();
    let l = N - 2;
    a[0] = l as u8;
    // the characters in reverse order
    let mut want = [0u8; N];
    let mut i = 0;
    let mut valid = true;
    while i < l && valid {
        let c = character(&a, 1 + i, 1 + l);
        if c == 0 {
            valid = false;
        }
        let mut j = 0;
        while j < c {
            want[l - i - c + j] = a[1 + i + j];
            j += 1;
        }
        i += c;
    }
    cover!(valid && a[1] >= 0x80, "text of several-byte characters");
    cover!(!valid, "text that is not UTF-8");
    let mut input = Bytes::new(&a[..]);
    match parse_length_prefix_ascii(&mut input) {
        Ok(s) => {
            assert!(valid, "unit text: undecodable text is rejected");
            let b = s.as_bytes();
            assert!(b.len() == l, "unit text: complete");
            let mut i = 0;
            while i < l {
                assert!(b[i] == want[i], "unit text: characters in reverse transmission order");
                i += 1;
            }
            assert!(input.len() == 1, "unit text: consumes the length byte and the text");
            core::mem::forget(s);
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(!valid, "unit text: decodable text is accepted");
        }
    }
}

/// windows-1252, as every implementation decodes it (unassigned codes are C1 controls).
const HIGH: [u16; 32] = [
    0x20AC, 0x81, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x8D, 0x017D, 0x8F,
    0x90, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x9D, 0x017E, 0x0178,
];
fn code(b: u8) -> u32 {
    if b & 0xE0 == 0x80 {
        HIGH[(b & 31) as usize] as u32
    } else {
        b as u32
    }
}
// Trusted contract of encoding_rs: one character per byte, as tabulated.
pub fn decode_plain<'a>(e: &'static Encoding, b: &'a [u8]) -> (Cow<'a, str>, bool) {
    assert!(core::ptr::eq(e, WINDOWS_1252), "text is decoded as latin-1");
    let mut s = String::new();
    let mut i = 0;
    while i < b.len() {
        push(&mut s, unsafe { char::from_u32_unchecked(code(b[i])) });
        i += 1;
    }
    (Cow::Owned(s), false)
}
/// Like `decode_plain`, but a leading byte order mark switches the encoding.
pub fn decode_bom<'a>(e: &'static Encoding, b: &'a [u8]) -> (Cow<'a, str>, &'static Encoding, bool) {
    let utf8 = b.len() >= 3 && b[0] == 0xEF && b[1] == 0xBB && b[2] == 0xBF;
    let utf16 = b.len() >= 2 && ((b[0] == 0xFF && b[1] == 0xFE) || (b[0] == 0xFE && b[1] == 0xFF));
    let t = if utf8 { &b[3..] } else if utf16 { &b[2..] } else { b };
    (decode_plain(e, t).0, e, false)
}

/// A latin-1 text of `N - 1` arbitrary bytes, followed by one more byte.
fn latin<const N: usize>() {
    let a = any_array::<N>();
    let l = N - 1;
    let mut input = Bytes::new(&a[..]);
    let r = parse_latin1(l).parse_next(&mut input);
    match r {
        Ok(s) => {
            let b = s.as_bytes();
            let mut at = 0;
            let mut i = l;
            while i > 0 {
                i -= 1;
                let c = code(a[i]);
                let (n, w) = if c < 0x80 {
                    (1, [c as u8, 0, 0])
                } else if c < 0x800 {
                    (2, [0xC0 | (c >> 6) as u8, 0x80 | (c & 63) as u8, 0])
                } else {
                    (3, [0xE0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8])
                };
                assert!(at + n <= b.len(), "latin-1: every byte is one character");
                let mut j = 0;
                while j < n {
                    assert!(b[at + j] == w[j], "latin-1: characters in reverse transmission order");
                    j += 1;
                }
                at += n;
            }
            assert!(at == b.len(), "latin-1: every byte is one character");
            assert!(input.len() == 1, "latin-1: consumes exactly the text");
            core::mem::forget(s);
        }
        Err(_) => panic!("latin-1: every text is accepted"),
    }
}

macro_rules! text_harnesses {
    ($($name:ident [$u:literal] $body:block)*) => { harnesses! { $(
        #[cfg_attr(kani, kani::stub(std::string::String::push, push))]
        #[cfg_attr(kani, kani::stub(std::string::String::with_capacity, with_capacity))]
        #[cfg_attr(kani, kani::stub(std::string::String::reserve, reserve))]
        #[cfg_attr(kani, kani::stub(encoding_rs::Encoding::decode, decode_bom))]
        #[cfg_attr(kani, kani::stub(encoding_rs::Encoding::decode_without_bom_handling, decode_plain))]
        $name [$u] $body
    )* } }
}
text_harnesses! {
    utf8_1 [6] { utf8::<3>() }
    utf8_2 [8] { utf8::<4>() }
    utf8_3 [10] { utf8::<5>() }
    utf8_4 [12] { utf8::<6>() }
    utf8_6 [18] { utf8::<8>() }
    utf8_8 [20] { utf8::<10>() }
    cp1252_1 [8] { latin::<2>() }
    cp1252_2 [10] { latin::<3>() }
    cp1252_3 [12] { latin::<4>() }
    cp1252_4 [14] { latin::<5>() }
    cp1252_6 [20] { latin::<7>() }
}
