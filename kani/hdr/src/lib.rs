//! Contracts of the transport header decoders (`/repo/src/parse/transport_layer/header.rs`,
//! compiled here verbatim). Callees replaced by their contracts: `parse_bcd`
//! (proved in `leaf::numbers`), `unpack_manufacturer_code` and `device_name`
//! (proved in `leaf::manufacturers`).
#![allow(clippy::all, warnings)]
#[path = "../../common/support.rs"]
pub mod support;
#[path = "../../common/spec_bcd.rs"]
pub mod spec_bcd;

pub use libmbus::*;
pub mod parse {
    pub use libmbus::parse::*;
    pub mod types {
        pub use libmbus::parse::types::*;
        pub mod number {
            use crate::parse::error::*;
            use crate::spec_bcd::spec_bcd;
            pub use libmbus::parse::types::number::*;
            use winnow::error::ParserError;
            use winnow::{Bytes, Parser};
            /// Contract of the real `parse_bcd`.
            pub fn parse_bcd<'a>(bytes: usize) -> impl Parser<&'a Bytes, i64, MBusError> {
                assert!(bytes <= 9, "precondition of parse_bcd: at most 9 bytes");
                move |input: &mut &'a Bytes| {
                    if input.len() < bytes {
                        return Err(MBusError::from_input(input));
                    }
                    let b: &'a [u8] = &*input;
                    match spec_bcd(&b[..bytes]) {
                        Some(v) => {
                            *input = Bytes::new(&b[bytes..]);
                            Ok(v)
                        }
                        None => Err(MBusError::from_input(input)),
                    }
                }
            }
        }
    }
    pub mod transport_layer {
        pub use libmbus::parse::transport_layer::*;
        #[path = "/repo/src/parse/transport_layer/header.rs"]
        pub mod header;
        pub mod manufacturer {
            pub use libmbus::parse::transport_layer::manufacturer::*;
            use super::header::DeviceType;
            use crate::support::k;
            /// Contract: three characters, five bits each.
            pub fn unpack_manufacturer_code(p: u16) -> Result<String, std::string::FromUtf8Error> {
                let c = |x: u16| 64 + (x & 31) as u8;
                Ok(unsafe { String::from_utf8_unchecked(vec![c(p >> 10), c(p >> 5), c(p)]) })
            }
            pub static NAMES: [&str; 2] = ["a", "b"];
            pub static mut ASKED: Option<([u8; 4], u16, u8, DeviceType)> = None;
            pub static mut ANSWER: Option<usize> = None;
            /// Contract: any answer; the question is recorded.
            pub fn device_name(id: &[u8], m: u16, v: u8, t: DeviceType) -> Option<&'static str> {
                assert!(id.len() == 4, "precondition of device_name: four identification bytes");
                let i: usize = k::any();
                k::assume(i < 3);
                unsafe {
                    ASKED = Some(([id[0], id[1], id[2], id[3]], m, v, t));
                    ANSWER = if i < 2 { Some(i) } else { None };
                }
                if i < 2 { Some(NAMES[i]) } else { None }
            }
        }
    }
}

use parse::error::*;
use parse::transport_layer::header::*;
use parse::transport_layer::manufacturer::{ANSWER, ASKED, NAMES};
use support::{any_array, k};
use winnow::Bytes;

pub unsafe fn next_code_point<'a, I: Iterator<Item = &'a u8>>(bytes: &mut I) -> Option<u32> {
    let b = *bytes.next()?;
    assert!(b < 128);
    Some(b as u32)
}

fn status_is(s: &MeterStatus, b: u8) -> bool {
    s.manufacturer_2 == (b & 0x80 != 0)
        && s.manufacturer_1 == (b & 0x40 != 0)
        && s.manufacturer_0 == (b & 0x20 != 0)
        && s.temporary_error == (b & 0x10 != 0)
        && s.permanent_error == (b & 0x08 != 0)
        && s.power_low == (b & 0x04 != 0)
        && match s.application {
            ApplicationError::None => b & 3 == 0,
            ApplicationError::Busy => b & 3 == 1,
            ApplicationError::Error => b & 3 == 2,
            ApplicationError::Alarm => b & 3 == 3,
        }
}
/// Configuration field: accepted?
fn security_ok(lo: u8, hi: u8) -> bool {
    let mode = hi & 31;
    (mode == 0 && lo == 0 && hi == 0) || matches!(mode, 6 | 11 | 12 | 14 | 16..=31)
}
fn security_is(m: &SecurityMode, lo: u8, hi: u8) -> bool {
    let raw = lo as u16 | (hi as u16) << 8;
    match (m, hi & 31) {
        (SecurityMode::None, 0) => true,
        (SecurityMode::Reserved(x), mode) => mode != 0 && *x == raw,
        _ => false,
    }
}
fn type_is(t: &DeviceType, v: u8) -> bool {
    use DeviceType as D;
    use ThermalMeterType as T;
    use WaterMeterType as W;
    match v {
        0x00 => matches!(t, D::Other),
        0x01 => matches!(t, D::OilMeter),
        0x02 => matches!(t, D::ElectricityMeter),
        0x03 => matches!(t, D::GasMeter),
        0x04 => matches!(t, D::ThermalEnergyMeter(T::OutletHeat)),
        0x05 => matches!(t, D::SteamMeter),
        0x06 => matches!(t, D::WaterMeter(W::Warm)),
        0x07 => matches!(t, D::WaterMeter(W::Potable)),
        0x08 => matches!(t, D::HeatCostAllocator),
        0x09 => matches!(t, D::CompressedAir),
        0x0A => matches!(t, D::ThermalEnergyMeter(T::OutletCooling)),
        0x0B => matches!(t, D::ThermalEnergyMeter(T::InletCooling)),
        0x0C => matches!(t, D::ThermalEnergyMeter(T::InletHeat)),
        0x0D => matches!(t, D::ThermalEnergyMeter(T::Combined)),
        0x0E => matches!(t, D::BusOrSystemComponent),
        0x0F => matches!(t, D::Unknown),
        0x10 => matches!(t, D::WaterMeter(W::Irrigation)),
        0x11 => matches!(t, D::WaterDataLogger),
        0x12 => matches!(t, D::GasDataLogger),
        0x13 => matches!(t, D::GasConverter),
        0x14 => matches!(t, D::CalorificValue),
        0x15 => matches!(t, D::WaterMeter(W::Hot)),
        0x16 => matches!(t, D::WaterMeter(W::Cold)),
        0x17 => matches!(t, D::WaterMeter(W::DualRegister)),
        0x18 => matches!(t, D::PressureMeter),
        0x19 => matches!(t, D::ADConverter),
        0x1A => matches!(t, D::SmokeDetector),
        0x1B => matches!(t, D::RoomSensor),
        0x1C => matches!(t, D::GasDetector),
        0x1D..=0x1F => matches!(t, D::ReservedSensor),
        0x20 => matches!(t, D::ElectricalBreaker),
        0x21 => matches!(t, D::Valve),
        0x22..=0x24 => matches!(t, D::ReservedSwitchingDevice),
        0x25 => matches!(t, D::CustomerUnit),
        0x26..=0x27 => matches!(t, D::ReservedCustomerUnit),
        0x28 => matches!(t, D::WaterMeter(W::Waste)),
        0x29 => matches!(t, D::Garbage),
        0x2A => matches!(t, D::ReservedCO2),
        0x2B..=0x2F => matches!(t, D::ReservedEnvironmental),
        0x30 => matches!(t, D::ServiceTool),
        0x31 => matches!(t, D::CommunicationController),
        0x32 => matches!(t, D::UnidirectionalRepeater),
        0x33 => matches!(t, D::BidirectionalRepeater),
        0x36 => matches!(t, D::RadioConverterSystemSide),
        0x37 => matches!(t, D::RadioConverterMeterSide),
        0x38 => matches!(t, D::BusConverterMeterSide),
        0x34..=0x3F => matches!(t, D::ReservedSystemDevice),
        0x40..=0xFE => matches!(t, D::Reserved),
        0xFF => matches!(t, D::Wildcard),
    }
}

fn short(a: &[u8]) {
    let n = a.len();
    let mut input = Bytes::new(a);
    let r = ShortHeader::parse(&mut input);
    let ok = n >= 4 && security_ok(a[2], a[3]);
    cover!(ok, "accepted");
    match r {
        Ok(h) => {
            assert!(ok, "short header: truncated or undecodable headers are rejected");
            match &h {
                TPLHeader::Short(h) => {
                    assert!(h.access_number == a[0], "short header: access number");
                    assert!(status_is(&h.status, a[1]), "short header: status bits");
                    assert!(security_is(&h.configuration_field, a[2], a[3]), "short header: security mode");
                    assert!(h.extra_header.is_none(), "short header: no extra header");
                }
                _ => assert!(false, "short header: is reported as such"),
            }
            assert!(input.len() == n - 4, "short header: consumes four bytes");
            core::mem::forget(h);
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(!ok, "short header: a well-formed header is accepted");
        }
    }
}

fn long(a: &[u8]) {
    let n = a.len();
    let mut input = Bytes::new(a);
    let r = LongHeader::parse(&mut input);
    let mut ok = n >= 12;
    let (mut id, mut maker) = (0, 0u16);
    if ok {
        match spec_bcd::spec_bcd(&a[..4]) {
            Some(v) if v >= 0 => id = v as u32,
            _ => ok = false,
        }
        maker = a[4] as u16 | (a[5] as u16) << 8;
        let letter = |x: u16| (x & 31) >= 1 && (x & 31) <= 26;
        ok = ok && letter(maker) && letter(maker >> 5) && letter(maker >> 10) && security_ok(a[10], a[11]);
    }
    cover!(ok, "accepted");
    match r {
        Ok(h) => {
            assert!(ok, "long header: truncated or undecodable headers are rejected");
            match &h {
                TPLHeader::Long(h) => {
                    assert!(h.identifier == id, "long header: identification number");
                    let m = h.manufacturer.as_bytes();
                    assert!(m.len() == 3, "long header: manufacturer code");
                    assert!(
                        m[0] == 64 + ((maker >> 10) & 31) as u8
                            && m[1] == 64 + ((maker >> 5) & 31) as u8
                            && m[2] == 64 + (maker & 31) as u8,
                        "long header: manufacturer code"
                    );
                    assert!(h.version == a[6], "long header: version");
                    assert!(type_is(&h.device_type, a[7]), "long header: device type");
                    assert!(h.access_number == a[8], "long header: access number");
                    assert!(status_is(&h.status, a[9]), "long header: status bits");
                    assert!(security_is(&h.configuration_field, a[10], a[11]), "long header: security mode");
                    assert!(h.extra_header.is_none(), "long header: no extra header");
                    match unsafe { ASKED } {
                        Some((rid, m, v, t)) => assert!(
                            rid == [a[0], a[1], a[2], a[3]] && m == maker && v == a[6] && type_is(&t, a[7]),
                            "long header: product looked up by identification, manufacturer, version and type"
                        ),
                        None => assert!(false, "long header: product looked up"),
                    }
                    assert!(
                        match (h.device_name, unsafe { ANSWER }) {
                            (None, None) => true,
                            (Some(s), Some(i)) => core::ptr::eq(s, NAMES[i]),
                            _ => false,
                        },
                        "long header: product name"
                    );
                }
                _ => assert!(false, "long header: is reported as such"),
            }
            assert!(input.len() == n - 12, "long header: consumes twelve bytes");
            core::mem::forget(h);
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(!ok, "long header: a well-formed header is accepted");
        }
    }
}
fn short_len<const N: usize>() {
    let a = any_array::<N>();
    short(&a)
}
fn long_len<const N: usize>() {
    let a = any_array::<N>();
    long(&a)
}
macro_rules! hdr_harnesses {
    ($($name:ident [$u:literal] $body:block)*) => { harnesses! { $(
        #[cfg_attr(kani, kani::stub(core::str::validations::next_code_point, next_code_point))]
        $name [$u] $body
    )* } }
}
hdr_harnesses! {
    hdr_short [8] {
        let a = any_array::<6>();
        let n: usize = k::any();
        k::assume(n <= 6);
        short(&a[..n])
    }
    hdr_short_full [8] { short_len::<5>() }
    hdr_long [8] { long_len::<13>() }
    hdr_long_0 [8] { long_len::<0>() }
    hdr_long_3 [8] { long_len::<3>() }
    hdr_long_5 [8] { long_len::<5>() }
    hdr_long_7 [8] { long_len::<7>() }
    hdr_long_11 [8] { long_len::<11>() }
}
