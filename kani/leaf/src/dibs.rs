//! C09: contract of the data information block decoder.
use crate::support::{any_bytes, k};
use crate::{cover, harnesses};
use libmbus::parse::application_layer::dib::*;
use winnow::Bytes;

fn dib<const N: usize>() {
    let (a, n) = any_bytes::<N>();
    let mut input = (Bytes::new(&a[..n]), 0usize);
    let r = DataInfoBlock::parse(&mut input);
    // specification: DIF, then 0..=10 DIFEs chained by the top bit
    let mut complete = n > 0;
    let mut used = 1;
    let (mut storage, mut tariff, mut device, mut obis) = (0u64, 0u32, 0u16, false);
    if n > 0 {
        storage = ((a[0] >> 6) & 1) as u64;
        let mut more = a[0] & 0x80 != 0;
        let mut j = 0;
        while j < 11 && more {
            if j == 10 || used >= n {
                complete = false;
                break;
            }
            let b = a[used];
            used += 1;
            more = b & 0x80 != 0;
            if b == 0 {
                obis = true;
            }
            storage |= ((b & 15) as u64) << (1 + 4 * j);
            tariff |= (((b >> 4) & 3) as u32) << (2 * j);
            device |= (((b >> 6) & 1) as u16) << j;
            j += 1;
        }
    }
    let code = if n > 0 { a[0] & 15 } else { 15 };
    let valid = complete && code != 8 && code != 15;
    cover!(valid && used > 2, "extended block accepted");
    cover!(valid && obis, "register number marker");
    cover!(n > 0 && !valid, "rejected block");
    match r {
        Ok(d) => {
            assert!(valid, "DIB: truncated, over-long and reserved blocks are rejected");
            assert!(d.storage == storage, "DIB: storage number");
            assert!(d.tariff == tariff, "DIB: tariff");
            assert!(d.device == device, "DIB: subunit");
            assert!(d.is_obis == obis, "DIB: register-number marker");
            let f = (a[0] >> 4) & 3;
            assert!(
                match d.function {
                    DataFunction::InstantaneousValue => f == 0,
                    DataFunction::MaximumValue => f == 1,
                    DataFunction::MinimumValue => f == 2,
                    DataFunction::ValueDuringErrorState => f == 3,
                },
                "DIB: function field"
            );
            assert!(
                match d.raw_type {
                    RawDataType::None => code == 0,
                    RawDataType::Binary(w) => w == [0, 1, 2, 3, 4, 0, 6, 8, 0, 0, 0, 0, 0, 0, 0, 0][code as usize] && w > 0,
                    RawDataType::Real => code == 5,
                    RawDataType::BCD(w) => w == [0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 0, 6, 0][code as usize] && w > 0,
                    RawDataType::LVAR => code == 13,
                },
                "DIB: data field coding"
            );
            assert!(input.0.len() == n - used && input.1 == 0, "DIB: consumes exactly the block");
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(!valid, "DIB: every well-formed block is accepted");
        }
    }
}

harnesses! {
    dib_block [13] { dib::<12>() }
    dib_short [6] { dib::<4>() }
}
