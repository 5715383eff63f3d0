//! C16: contracts of the date and time decoders (EN 13757-3 Annex A types F, G, I, J, K).
use crate::support::{any_bytes, k};
use crate::{cover, harnesses};
use libmbus::parse::error::MBusError;
use libmbus::parse::types::date::*;
use winnow::Bytes;

/// Type G: (day, month, year) of a 16-bit date, `None` when it must be rejected.
fn spec_g(lo: u8, hi: u8) -> Option<(u8, u8, u8)> {
    if lo == 0xFF && hi == 0xFF {
        return None;
    }
    let (day, month, year) = (lo & 0x1F, hi & 0x0F, (lo >> 5) | ((hi >> 4) << 3));
    if month == 13 || month == 14 || (year > 99 && year != 127) {
        return None;
    }
    Some((day, month, year))
}
fn ok60(v: u8) -> bool {
    v < 60 || v == 63
}
fn ok24(v: u8) -> bool {
    v < 24 || v == 31
}

macro_rules! check {
    ($ty:ident, $n:literal, $a:ident, $spec:expr) => {{
        let ($a, n) = any_bytes::<{ $n + 2 }>();
        let mut i = Bytes::new(&$a[..n]);
        let r: Result<$ty, MBusError> = $ty::parse(&mut i);
        let want: Option<$ty> = if n >= $n { $spec } else { None };
        cover!(want.is_some(), "some accepted value");
        cover!(n >= $n && want.is_none(), "some rejected value");
        match r {
            Ok(v) => {
                assert!(want.is_some(), concat!(stringify!($ty), ": malformed values are rejected"));
                assert!(want == Some(v), concat!(stringify!($ty), ": every component has the encoded value"));
                assert!(i.len() == n - $n, concat!(stringify!($ty), ": consumes exactly its width"));
            }
            Err(e) => {
                core::mem::forget(e);
                assert!(want.is_none(), concat!(stringify!($ty), ": well-formed values are accepted"));
            }
        }
    }};
}

harnesses! {
    date_g [8] {
        check!(TypeGDate, 2, a, spec_g(a[0], a[1]).map(|(day, month, year)| TypeGDate { day, month, year }))
    }
    date_f [8] {
        check!(TypeFDateTime, 4, a, {
            let (minute, hour, hy) = (a[0] & 0x3F, a[1] & 0x1F, (a[1] >> 5) & 3);
            match spec_g(a[2], a[3]) {
                Some((day, month, year)) if a[0] & 0xC0 == 0 && ok60(minute) && ok24(hour) => Some(TypeFDateTime {
                    minute, hour, day, month, year,
                    hundred_year: if hy == 0 && year <= 80 { 1 } else { hy },
                    in_dst: a[1] & 0x80 != 0,
                }),
                _ => None,
            }
        })
    }
    date_j [8] {
        check!(TypeJTime, 3, a, {
            if a[0] < 64 && a[1] < 64 && a[2] < 32 && ok60(a[0]) && ok60(a[1]) && ok24(a[2]) {
                Some(TypeJTime { second: a[0], minute: a[1], hour: a[2] })
            } else {
                None
            }
        })
    }
    date_i [8] {
        check!(TypeIDateTime, 6, a, {
            let (second, minute, hour, week) = (a[0] & 0x3F, a[1] & 0x3F, a[2] & 0x1F, a[5] & 0x3F);
            let off = (a[5] >> 6) as i8;
            match spec_g(a[3], a[4]) {
                Some((day, month, year)) if a[1] & 0x80 == 0 && ok60(second) && ok60(minute) && ok24(hour) && week <= 53 =>
                    Some(TypeIDateTime {
                        second, minute, hour, day, month, year, week,
                        day_of_week: a[2] >> 5,
                        in_dst: a[0] & 0x40 != 0,
                        leap_year: a[0] & 0x80 != 0,
                        dst_offset: if a[1] & 0x40 != 0 { off } else { -off },
                    }),
                _ => None,
            }
        })
    }
    date_k [8] {
        check!(TypeKDST, 4, a, {
            let local = (a[0] >> 5) | (((a[1] >> 5) & 3) << 3);
            let (hour, d0, d1, m0, m1) = (a[0] & 31, a[1] & 31, a[2] & 31, a[3] & 15, a[3] >> 4);
            let dev = ((a[2] >> 5) & 3) as i8;
            if ok24(hour) && d0 >= 1 && d1 >= 1 && m0 >= 1 && m0 <= 12 && m1 >= 1 && m1 <= 12 && ok24(local) {
                Some(TypeKDST {
                    starts_hour: hour, starts_day: d0, starts_month: m0, ends_day: d1, ends_month: m1,
                    enable: a[1] & 0x80 != 0,
                    dst_deviation: if a[2] & 0x80 != 0 { dev } else { -dev },
                    local_deviation: local,
                })
            } else {
                None
            }
        })
    }
}
