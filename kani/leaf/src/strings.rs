//! C17: contracts of the text decoders.
use crate::support::{any_array, k};
use crate::{cover, harnesses};
use libmbus::parse::types::string::*;
use winnow::{Bytes, Parser};

// Trusted contracts of the external text functions. Text is abstracted to one
// byte per character: `decode_without_bom_handling` maps every byte to exactly one
// character (abstractly, itself); UTF-8 validation is used on texts whose bytes are
// ASCII (one character each) or 0xFF (never valid).
pub unsafe fn next_code_point<'a, I: Iterator<Item = &'a u8>>(bytes: &mut I) -> Option<u32> {
    let b = *bytes.next()?;
    Some(b as u32)
}
pub unsafe fn next_code_point_reverse<'a, I: DoubleEndedIterator<Item = &'a u8>>(bytes: &mut I) -> Option<u32> {
    let b = *bytes.next_back()?;
    Some(b as u32)
}
/// The size of the first allocation is not under test.
pub fn with_capacity(_n: usize) -> String {
    String::new()
}
pub fn push(s: &mut String, c: char) {
    assert!((c as u32) < 256);
    unsafe { s.as_mut_vec().push(c as u8) }
}
pub fn from_utf8(b: &[u8]) -> Result<&str, core::str::Utf8Error> {
    let mut i = 0;
    while i < b.len() {
        if b[i] >= 0x80 {
            return Err(unsafe { core::mem::zeroed() });
        }
        i += 1;
    }
    Ok(unsafe { core::str::from_utf8_unchecked(b) })
}
use encoding_rs::{Encoding, WINDOWS_1252};
use std::borrow::Cow;
pub fn decode_plain<'a>(e: &'static Encoding, b: &'a [u8]) -> (Cow<'a, str>, bool) {
    assert!(core::ptr::eq(e, WINDOWS_1252), "text is decoded as latin-1");
    (Cow::Borrowed(unsafe { core::str::from_utf8_unchecked(b) }), false)
}
/// Like `decode_plain`, but a leading byte order mark switches the encoding.
pub fn decode_bom<'a>(e: &'static Encoding, b: &'a [u8]) -> (Cow<'a, str>, &'static Encoding, bool) {
    assert!(core::ptr::eq(e, WINDOWS_1252), "text is decoded as latin-1");
    let utf8 = b.len() >= 3 && b[0] == 0xEF && b[1] == 0xBB && b[2] == 0xBF;
    let utf16 = b.len() >= 2 && ((b[0] == 0xFF && b[1] == 0xFE) || (b[0] == 0xFE && b[1] == 0xFF));
    let t = if utf8 { &b[3..] } else if utf16 { &b[2..] } else { b };
    (Cow::Borrowed(unsafe { core::str::from_utf8_unchecked(t) }), e, false)
}

/// The characters of a decoded text, one byte each.
#[cfg(kani)]
fn chars(s: &String) -> &[u8] {
    s.as_bytes()
}
#[cfg(not(kani))]
fn chars(s: &String) -> Vec<u8> {
    s.chars().map(|c| WINDOWS_1252.encode(&c.to_string()).0[0]).collect()
}

/// Length byte `L` followed by `H` available bytes.
fn prefixed<const L: u8, const H: usize, const N: usize>() {
    let mut a = any_array::<N>();
    a[0] = L;
    let l = L as usize;
    let mut valid = H >= l;
    let mut i = 1;
    while i < N {
        k::assume(a[i] < 0x80 || a[i] == 0xFF);
        if i <= l && a[i] == 0xFF {
            valid = false;
        }
        i += 1;
    }
    let mut input = Bytes::new(&a[..1 + H]);
    let r = parse_length_prefix_ascii(&mut input);
    match r {
        Ok(s) => {
            assert!(valid, "text: truncated and undecodable text is rejected");
            let b = chars(&s);
            assert!(b.len() == l, "text: complete");
            let mut i = 0;
            while i < l {
                assert!(b[i] == a[l - i], "text: characters in reverse transmission order");
                i += 1;
            }
            assert!(input.len() == H - l, "text: consumes the length byte and the text");
            core::mem::forget(s);
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(!valid, "text: decodable text is accepted");
        }
    }
}

fn latin<const L: usize, const H: usize, const N: usize>() {
    let a = any_array::<N>();
    let mut input = Bytes::new(&a[..H]);
    let r = parse_latin1(L).parse_next(&mut input);
    match r {
        Ok(s) => {
            assert!(H >= L, "latin-1: truncated text is rejected");
            let b = chars(&s);
            assert!(b.len() == L, "latin-1: every byte is one character");
            let mut i = 0;
            while i < L {
                assert!(b[i] == a[L - 1 - i], "latin-1: characters in reverse transmission order");
                i += 1;
            }
            assert!(input.len() == H - L, "latin-1: consumes exactly the text");
            core::mem::forget(s);
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(H < L, "latin-1: every text is accepted");
        }
    }
}

macro_rules! text_harnesses {
    ($($name:ident [$u:literal] $body:block)*) => { harnesses! { $(
        #[cfg_attr(kani, kani::stub(core::str::validations::next_code_point, next_code_point))]
        #[cfg_attr(kani, kani::stub(core::str::validations::next_code_point_reverse, next_code_point_reverse))]
        #[cfg_attr(kani, kani::stub(std::string::String::push, push))]
        #[cfg_attr(kani, kani::stub(std::string::String::with_capacity, with_capacity))]
        #[cfg_attr(kani, kani::stub(core::str::from_utf8, from_utf8))]
        #[cfg_attr(kani, kani::stub(encoding_rs::Encoding::decode, decode_bom))]
        #[cfg_attr(kani, kani::stub(encoding_rs::Encoding::decode_without_bom_handling, decode_plain))]
        $name [$u] $body
    )* } }
}
text_harnesses! {
    text_0 [4] { prefixed::<0, 1, 2>() }
    text_5 [9] { prefixed::<5, 6, 7>() }
    text_8 [12] { prefixed::<8, 9, 10>() }
    text_12 [16] { prefixed::<12, 13, 14>() }
    text_1_short [5] { prefixed::<1, 0, 1>() }
    text_3_short [7] { prefixed::<3, 2, 3>() }
    text_4_short [8] { prefixed::<4, 1, 2>() }
    text_8_short [12] { prefixed::<8, 7, 8>() }
    latin_0 [4] { latin::<0, 1, 1>() }
    latin_5 [9] { latin::<5, 6, 6>() }
    latin_8 [12] { latin::<8, 9, 9>() }
    latin_16 [20] { latin::<16, 17, 17>() }
    latin_32 [36] { latin::<32, 33, 33>() }
    latin_1_short [5] { latin::<1, 0, 0>() }
    latin_3_short [7] { latin::<3, 2, 2>() }
    latin_8_short [12] { latin::<8, 7, 7>() }
    latin_32_short [36] { latin::<32, 31, 31>() }
}
