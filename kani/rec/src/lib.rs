//! Contract of the data record decoder (`/repo/src/parse/application_layer/record.rs`,
//! verbatim, with the real `dib.rs` and `vib.rs`). Callees replaced by their
//! contracts: the number, text and date decoders (proved in `leaf`).
#![allow(clippy::all, warnings)]
#[path = "../../common/support.rs"]
pub mod support;

pub use libmbus::*;
pub mod parse {
    pub use libmbus::parse::*;
    pub mod types {
        // `DataType` etc. of /repo/src/parse/types.rs, its `pub mod` lines dropped
        include!("/verif/build/gen/types_body.rs");
        pub mod number {
            use crate::contract::*;
            use crate::parse::error::*;
            use winnow::{Bytes, Parser};
            pub use libmbus::parse::types::number::*;
            pub fn parse_bcd<'a>(bytes: usize) -> impl Parser<&'a Bytes, i64, MBusError> {
                assert!(bytes <= 9, "precondition of parse_bcd: at most 9 bytes");
                move |input: &mut &'a Bytes| call(Fun::Bcd, bytes, input).map(|v| v >> 8)
            }
            pub fn parse_invalid_bcd<'a>(bytes: usize) -> impl Parser<&'a Bytes, String, MBusError> {
                move |input: &mut &'a Bytes| call(Fun::InvalidBcd, bytes, input).map(text)
            }
            pub fn parse_binary_signed<'a>(bytes: usize) -> impl Parser<&'a Bytes, i64, MBusError> {
                assert!(bytes <= 8, "precondition of parse_binary_signed: at most 8 bytes");
                move |input: &mut &'a Bytes| call(Fun::Signed, bytes, input)
            }
            pub fn parse_binary_unsigned<'a>(bytes: usize) -> impl Parser<&'a Bytes, u64, MBusError> {
                assert!(bytes <= 8, "precondition of parse_binary_unsigned: at most 8 bytes");
                move |input: &mut &'a Bytes| call(Fun::Unsigned, bytes, input).map(|v| v as u64)
            }
            pub fn parse_real(input: &mut &Bytes) -> MBResult<f32> {
                call(Fun::Real, 4, input).map(|v| f32::from_bits(v as u32))
            }
        }
        pub mod string {
            pub use libmbus::parse::types::string::*;
            use crate::contract::*;
            use crate::parse::error::*;
            use winnow::{Bytes, Parser};
            pub fn parse_length_prefix_ascii(input: &mut &Bytes) -> MBResult<String> {
                call(Fun::Prefixed, 1, input).map(text)
            }
            pub fn parse_latin1<'a>(bytes: usize) -> impl Parser<&'a Bytes, String, MBusError> {
                move |input: &mut &'a Bytes| call(Fun::Latin, bytes, input).map(text)
            }
        }
        pub mod date {
            pub use libmbus::parse::types::date::*;
            use crate::contract::*;
            use crate::parse::error::*;
            use winnow::Bytes;
            macro_rules! date { ($($t:ident $f:ident $n:literal)*) => { $(
                #[derive(Debug, PartialEq)]
                pub struct $t(pub i64);
                impl $t {
                    pub fn parse(input: &mut &Bytes) -> MBResult<Self> {
                        call(Fun::$f, $n, input).map($t)
                    }
                }
            )* } }
            date! { TypeFDateTime DateF 4 TypeGDate DateG 2 TypeIDateTime DateI 6 TypeJTime DateJ 3 TypeKDST DateK 4 }
        }
    }
    pub mod application_layer {
        pub use libmbus::parse::application_layer::*;
        #[path = "/repo/src/parse/application_layer/dib.rs"]
        pub mod dib;
        #[path = "/repo/src/parse/application_layer/record.rs"]
        pub mod record;
        #[path = "/repo/src/parse/application_layer/vib.rs"]
        pub mod vib;
    }
}

pub mod contract {
    //! One contract for every data decoder: consumes exactly its width and yields an
    //! arbitrary value, or rejects. Calls are recorded.
    use crate::parse::error::*;
    use crate::support::k;
    use winnow::error::ParserError;
    use winnow::Bytes;
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum Fun {
        Bcd, InvalidBcd, Signed, Unsigned, Real, Prefixed, Latin, DateF, DateG, DateI, DateJ, DateK,
    }
    /// (function, width, bytes left before, accepted, value)
    pub static mut LOG: [(Fun, usize, usize, bool, i64); 4] = [(Fun::Bcd, 0, 0, false, 0); 4];
    pub static mut CALLS: usize = 0;
    pub static mut ACCEPT: [bool; 4] = [false; 4];
    pub fn call(f: Fun, width: usize, input: &mut &Bytes) -> MBResult<i64> {
        let v: i64 = k::any();
        let n = unsafe { CALLS };
        assert!(n < 4);
        let ok = input.len() >= width && unsafe { ACCEPT[n] };
        unsafe {
            LOG[n] = (f, width, input.len(), ok, v);
            CALLS += 1;
        }
        if ok {
            *input = Bytes::new(&input[width..]);
            Ok(v)
        } else {
            Err(MBusError::from_input(input))
        }
    }
    pub fn text(v: i64) -> String {
        unsafe { String::from_utf8_unchecked((v as u32).to_le_bytes().to_vec()) }
    }
}

use contract::{Fun, ACCEPT, CALLS, LOG};
use parse::application_layer::dib::RawDataType;
use parse::application_layer::record::Record;
use parse::application_layer::vib::ValueType;
use parse::error::*;
use parse::types::DataType as D;
use support::{any_array, k};
use winnow::Bytes;

/// What the data field of a record must be decoded as.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    One(Fun, usize),
    /// BCD digits, or their error text
    Bcd(usize),
    PositiveBcd(usize),
    NegativeBcd(usize),
    Giant(usize),
    Nothing,
    Reject,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Vif {
    /// an ordinary quantity, decoded as signed
    Signed,
    /// a count or code, decoded as unsigned
    Unsigned,
    Date,
    DateTime,
    Dst,
}
/// The data after a DIF with data field `code`, a VIF of that kind, `lvar` being the
/// first data byte.
fn spec(code: u8, vif: Vif, lvar: u8) -> Want {
    let int = |n: usize| Want::One(if vif == Vif::Unsigned { Fun::Unsigned } else { Fun::Signed }, n);
    match (code, vif) {
        (2, Vif::Date) => return Want::One(Fun::DateG, 2),
        (3, Vif::DateTime) => return Want::One(Fun::DateJ, 3),
        (4, Vif::DateTime) => return Want::One(Fun::DateF, 4),
        (6, Vif::DateTime) => return Want::One(Fun::DateI, 6),
        (4, Vif::Dst) => return Want::One(Fun::DateK, 4),
        _ => {}
    }
    match code {
        0 => Want::Nothing,
        1..=4 | 6 => int(code as usize),
        7 => int(8),
        5 => Want::One(Fun::Real, 4),
        9..=12 => Want::Bcd(code as usize - 8),
        14 => Want::Bcd(6),
        13 => match lvar {
            0x00..=0xBF => Want::One(Fun::Latin, lvar as usize),
            0xC0..=0xC9 => Want::PositiveBcd(lvar as usize - 0xC0),
            0xD0..=0xD9 => Want::NegativeBcd(lvar as usize - 0xD0),
            0xE0..=0xE8 => int(lvar as usize - 0xE0),
            0xE9..=0xEF => Want::Giant(lvar as usize - 0xE0),
            0xF0..=0xF4 => Want::Giant(4 * (lvar as usize - 0xEC)),
            0xF5 => Want::Giant(48),
            0xF6 => Want::Giant(64),
            _ => Want::Reject,
        },
        _ => Want::Reject,
    }
}
fn is_text(s: &String, v: i64) -> bool {
    let (s, t) = (s.as_bytes(), (v as u32).to_le_bytes());
    s.len() == 4 && s[0] == t[0] && s[1] == t[1] && s[2] == t[2] && s[3] == t[3]
}
fn value_is(d: &D, f: Fun, v: i64) -> bool {
    match (d, f) {
        (D::Signed(x), Fun::Signed) => *x == v,
        (D::Unsigned(x), Fun::Unsigned) => *x == v as u64,
        (D::Real(x), Fun::Real) => x.to_bits() == f32::from_bits(v as u32).to_bits(),
        (D::String(x), Fun::Latin) => is_text(x, v),
        (D::Date(x), Fun::DateG) => x.0 == v,
        (D::Time(x), Fun::DateJ) => x.0 == v,
        (D::DateTimeF(x), Fun::DateF) => x.0 == v,
        (D::DateTimeI(x), Fun::DateI) => x.0 == v,
        (D::DST(x), Fun::DateK) => x.0 == v,
        _ => false,
    }
}

/// One record: concrete DIF and VIF bytes, then (LVAR only) the concrete length byte,
/// then `extra` symbolic data bytes; the first callee accepts or not as told.
fn record<const N: usize>(dif: u8, p: &[u8], vif: Vif, lvar: Option<u8>, extra: usize, accept: [bool; 2]) {
    let mut a = [0u8; N];
    a[0] = dif;
    let mut n = 1;
    let mut i = 0;
    while i < p.len() {
        a[n] = p[i];
        n += 1;
        i += 1;
    }
    if let Some(b) = lvar {
        a[n] = b;
        n += 1;
    }
    let start = n;
    let mut i = 0;
    while i < extra {
        a[n] = if i < 4 { k::any() } else { i as u8 };
        n += 1;
        i += 1;
    }
    unsafe {
        CALLS = 0;
        ACCEPT = [accept[0], accept[1], false, false];
    }
    let code = dif & 15;
    let a = &a[..n];
    let mut input = Bytes::new(a);
    let r = Record::parse(&mut input);
    let (calls, log) = unsafe { (CALLS, LOG) };
    let mut want = spec(code, vif, match lvar { Some(b) => b, None => 0 });
    if code == 13 && lvar.is_none() {
        want = Want::Reject;
    }
    let left = extra;
    let first = |f: Fun, w: usize| calls >= 1 && log[0].0 == f && log[0].1 == w && log[0].2 == left;
    let (ok, used) = match want {
        Want::Reject => (false, 0),
        Want::Nothing => (true, 0),
        Want::One(Fun::Latin, 0) => (true, 0),
        Want::One(f, w) => {
            assert!(calls == 1 && first(f, w), "record: decoded by the type of its data field and VIF");
            (log[0].3, w)
        }
        Want::Bcd(w) => {
            assert!(first(Fun::Bcd, w), "record: BCD data field decoded as BCD");
            if log[0].3 {
                (true, w)
            } else {
                assert!(calls == 2 && log[1].0 == Fun::InvalidBcd && log[1].1 == w && log[1].2 == left, "record: invalid BCD becomes its error text");
                (log[1].3, w)
            }
        }
        Want::PositiveBcd(w) | Want::NegativeBcd(w) => {
            assert!(calls == 1 && first(Fun::Bcd, w), "record: variable length BCD");
            (log[0].3, w)
        }
        Want::Giant(w) => (extra >= w, w),
    };
    match r {
        Ok(r) => {
            assert!(ok, "record: undecodable data is rejected");
            let v = log[0].4;
            let bcd = v >> 8;
            let good = match want {
                Want::Nothing => matches!(r.data, D::None),
                Want::One(Fun::Latin, 0) => matches!(&r.data, D::String(s) if calls == 0 && s.is_empty() || calls == 1 && is_text(s, v)),
                Want::One(f, _) => value_is(&r.data, f, v),
                Want::Bcd(_) if log[0].3 => matches!(r.data, D::Signed(x) if x == bcd),
                Want::Bcd(_) => matches!(&r.data, D::ErrorValue(s) if is_text(s, log[1].4)),
                Want::PositiveBcd(_) => matches!(r.data, D::Signed(x) if x == bcd && x >= 0),
                Want::NegativeBcd(_) => matches!(r.data, D::Signed(x) if x == if bcd > 0 { -bcd } else { bcd }),
                Want::Giant(w) => match &r.data {
                    D::VariableLengthNumber(d) => {
                        let mut same = d.len() == w;
                        let mut i = 0;
                        while same && i < w {
                            same = d[i] == a[start + i];
                            i += 1;
                        }
                        same
                    }
                    _ => false,
                },
                Want::Reject => false,
            };
            assert!(good, "record: the value is the decoded data");
            assert!(input.len() == extra - used, "record: consumes exactly its data");
            // the information blocks are passed on
            assert!(
                match r.dib.raw_type {
                    RawDataType::None => code == 0,
                    RawDataType::Binary(w) => w == match code { 7 => 8, c => c as usize } && matches!(code, 1..=4 | 6 | 7),
                    RawDataType::Real => code == 5,
                    RawDataType::BCD(w) => w == code as usize - 8 && matches!(code, 9..=12 | 14),
                    RawDataType::LVAR => code == 13,
                },
                "record: data field is reported"
            );
            let vt = match vif {
                Vif::Signed | Vif::Unsigned => true,
                Vif::Dst => matches!(r.vib.value_type, ValueType::DSTTypeK),
                Vif::Date => match code {
                    2 => matches!(r.vib.value_type, ValueType::TypeGDate),
                    _ => matches!(r.vib.value_type, ValueType::Invalid(0x6C)),
                },
                Vif::DateTime => match code {
                    3 => matches!(r.vib.value_type, ValueType::TypeJTime),
                    4 => matches!(r.vib.value_type, ValueType::TypeFDateTime),
                    6 => matches!(r.vib.value_type, ValueType::TypeIDateTime),
                    13 => matches!(r.vib.value_type, ValueType::TypeMDatetime),
                    _ => matches!(r.vib.value_type, ValueType::Invalid(0x6D)),
                },
            };
            assert!(vt, "record: date types follow from the data field");
            core::mem::forget(r);
        }
        Err(e) => {
            core::mem::forget(e);
            let positive_reject = matches!(want, Want::PositiveBcd(_)) && log[0].4 >> 8 <= 0;
            assert!(!ok || positive_reject, "record: decodable data is accepted");
        }
    }
}

fn vif_bytes(v: Vif) -> &'static [u8] {
    match v {
        Vif::Signed => &[0x13],
        Vif::Unsigned => &[0xFD, 0x09],
        Vif::Date => &[0x6C],
        Vif::DateTime => &[0x6D],
        Vif::Dst => &[0xFD, 0x72],
    }
}
/// Every fixed data field under one VIF kind, accepted and rejected data.
fn fields(v: Vif, lo: u8, hi: u8) {
    let mut c = lo;
    while c <= hi {
        if c != 13 && !(v == Vif::Dst && c != 4) {
            record::<32>(c, vif_bytes(v), v, None, 9, [true, true]);
            record::<32>(c, vif_bytes(v), v, None, 9, [false, true]);
            record::<32>(c, vif_bytes(v), v, None, 9, [false, false]);
        }
        c += 1;
    }
}
// ------------------------------------------------------------ callee contracts
/// Contract of `DataInfoBlock::parse` (proved in `leaf::dibs`) on a one-byte block
/// announcing variable length data.
#[cfg(kani)]
pub fn lvar_dib(input: &mut parse::types::BitsInput<'_>) -> MBResult<parse::application_layer::dib::DataInfoBlock> {
    assert!(input.1 == 0 && input.0[0] == 0x0D);
    input.0 = Bytes::new(&input.0[1..]);
    Ok(parse::application_layer::dib::DataInfoBlock {
        raw_type: RawDataType::LVAR,
        function: parse::application_layer::dib::DataFunction::InstantaneousValue,
        storage: 0,
        tariff: 0,
        device: 0,
        is_obis: false,
    })
}
/// Contract of `ValueInfoBlock::parse` (proved in `leaf::vibs`) on the blocks 0x13
/// and 0xFD 0x09.
#[cfg(kani)]
pub fn lvar_vib(input: &mut parse::types::BitsInput<'_>) -> MBResult<parse::application_layer::vib::ValueInfoBlock> {
    assert!(input.1 == 0);
    let t = if input.0[0] == 0x13 {
        input.0 = Bytes::new(&input.0[1..]);
        ValueType::Volume(parse::application_layer::vib::VolumeUnit::M3, -3)
    } else {
        assert!(input.0[0] == 0xFD && input.0[1] == 0x09);
        input.0 = Bytes::new(&input.0[2..]);
        ValueType::DeviceType
    };
    Ok(parse::application_layer::vib::ValueInfoBlock { value_type: t, extra_vifes: None })
}
/// Every variable length data field whose length byte is in `lo..=hi`.
fn lvars<const N: usize>(v: Vif, lo: u8, hi: u8) {
    let mut b = lo;
    loop {
        let w = match spec(13, v, b) {
            Want::Giant(_) => 0,
            Want::One(_, w) | Want::PositiveBcd(w) | Want::NegativeBcd(w) => w,
            _ => 0,
        };
        let extra = if w + 8 <= N { w + 2 } else { 3 };
        let accept: bool = k::any();
        k::assume(accept || b > 0xBF);
        record::<N>(0x0D, vif_bytes(v), v, Some(b), extra, [accept, true]);
        if b == hi {
            break;
        }
        b += 1;
    }
}
fn giants<const N: usize>(v: Vif, lo: u8, hi: u8) {
    let mut b = lo;
    loop {
        if let Want::Giant(w) = spec(13, v, b) {
            record::<N>(0x0D, vif_bytes(v), v, Some(b), w + 1, [true, true]);
            record::<N>(0x0D, vif_bytes(v), v, Some(b), w - 1, [true, true]);
        }
        if b == hi {
            break;
        }
        b += 1;
    }
}

/// Truncated records: one data byte too few, or no data at all.
fn short_fields() {
    record::<32>(0x04, &[0x13], Vif::Signed, None, 3, [true, true]);
    record::<32>(0x05, &[0x13], Vif::Signed, None, 0, [true, true]);
    record::<32>(0x0E, &[0x13], Vif::Signed, None, 5, [true, true]);
    record::<32>(0x06, &[0x6D], Vif::DateTime, None, 5, [true, true]);
    record::<32>(0x00, &[0x13], Vif::Signed, None, 0, [true, true]);
    record::<32>(0x0D, &[0x13], Vif::Signed, None, 0, [true, true]);
}

harnesses! {
    rec_signed_0 [36] { fields(Vif::Signed, 0, 3) }
    rec_signed_4 [36] { fields(Vif::Signed, 4, 7) }
    rec_signed_8 [36] { fields(Vif::Signed, 8, 11) }
    rec_signed_12 [36] { fields(Vif::Signed, 12, 15) }
    rec_unsigned_0 [36] { fields(Vif::Unsigned, 0, 3) }
    rec_unsigned_4 [36] { fields(Vif::Unsigned, 4, 7) }
    rec_unsigned_8 [36] { fields(Vif::Unsigned, 8, 11) }
    rec_unsigned_12 [36] { fields(Vif::Unsigned, 12, 15) }
    rec_date_0 [36] { fields(Vif::Date, 0, 3) }
    rec_date_4 [36] { fields(Vif::Date, 4, 7) }
    rec_date_8 [36] { fields(Vif::Date, 8, 11) }
    rec_date_12 [36] { fields(Vif::Date, 12, 15) }
    rec_datetime_0 [36] { fields(Vif::DateTime, 0, 3) }
    rec_datetime_4 [36] { fields(Vif::DateTime, 4, 7) }
    rec_datetime_8 [36] { fields(Vif::DateTime, 8, 11) }
    rec_datetime_12 [36] { fields(Vif::DateTime, 12, 15) }
    rec_dst [36] { fields(Vif::Dst, 4, 4) }
    rec_short [36] { short_fields() }
    rec_giant_e9 [36] { giants::<24>(Vif::Signed, 0xe9, 0xec) }
    rec_giant_ed [36] { giants::<24>(Vif::Signed, 0xed, 0xef) }
    rec_giant_f0 [52] { giants::<60>(Vif::Signed, 0xf0, 0xf2) }
    rec_giant_f3 [52] { giants::<60>(Vif::Signed, 0xf3, 0xf4) }
    rec_giant_f5 [52] { giants::<60>(Vif::Signed, 0xf5, 0xf5) }
    rec_giant_e9_dt [36] { giants::<24>(Vif::DateTime, 0xe9, 0xec) }
    rec_giant_ed_dt [36] { giants::<24>(Vif::DateTime, 0xed, 0xef) }
    rec_giant_f0_dt [52] { giants::<60>(Vif::DateTime, 0xf0, 0xf2) }
    rec_giant_f3_dt [52] { giants::<60>(Vif::DateTime, 0xf3, 0xf4) }
    rec_giant_f5_dt [52] { giants::<60>(Vif::DateTime, 0xf5, 0xf5) }
}
macro_rules! lvar_harnesses {
    ($($name:ident [$u:literal] $body:block)*) => { harnesses! { $(
        #[cfg_attr(kani, kani::stub(parse::application_layer::dib::DataInfoBlock::parse, lvar_dib))]
        #[cfg_attr(kani, kani::stub(parse::application_layer::vib::ValueInfoBlock::parse, lvar_vib))]
        $name [$u] $body
    )* } }
}
pub mod lvar { use super::*;
lvar_harnesses! {
    rec_lvar_00 [36] { lvars::<32>(Vif::Signed, 0, 15) }
    rec_lvar_10 [36] { lvars::<32>(Vif::Signed, 16, 31) }
    rec_lvar_20 [36] { lvars::<32>(Vif::Signed, 32, 47) }
    rec_lvar_30 [36] { lvars::<32>(Vif::Signed, 48, 63) }
    rec_lvar_40 [36] { lvars::<32>(Vif::Signed, 64, 79) }
    rec_lvar_50 [36] { lvars::<32>(Vif::Signed, 80, 95) }
    rec_lvar_60 [36] { lvars::<32>(Vif::Signed, 96, 111) }
    rec_lvar_70 [36] { lvars::<32>(Vif::Signed, 112, 127) }
    rec_lvar_80 [36] { lvars::<32>(Vif::Signed, 128, 143) }
    rec_lvar_90 [36] { lvars::<32>(Vif::Signed, 144, 159) }
    rec_lvar_a0 [36] { lvars::<32>(Vif::Signed, 160, 175) }
    rec_lvar_b0 [36] { lvars::<32>(Vif::Signed, 176, 191) }
    rec_lvar_c0 [36] { lvars::<32>(Vif::Signed, 192, 199) }
    rec_lvar_c8 [36] { lvars::<32>(Vif::Signed, 200, 207) }
    rec_lvar_d0 [36] { lvars::<32>(Vif::Signed, 208, 215) }
    rec_lvar_d8 [36] { lvars::<32>(Vif::Signed, 216, 223) }
    rec_lvar_e0 [36] { lvars::<32>(Vif::Signed, 0xe0, 0xe8) }
    rec_lvar_e0_unsigned [36] { lvars::<32>(Vif::Unsigned, 0xe0, 0xe8) }
    rec_lvar_f6 [68] { giants::<72>(Vif::Signed, 0xf6, 0xf6) }
    rec_lvar_f7 [36] { lvars::<32>(Vif::Signed, 0xf7, 0xff) }
}
}
