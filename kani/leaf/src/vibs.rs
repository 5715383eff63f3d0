//! C10: contract of the value information block decoder (EN 13757-3 tables 10 and 12-14).
use crate::support::{any_array, any_bytes, k};
use crate::{cover, harnesses};
use libmbus::parse::application_layer::vib::*;
use winnow::Bytes;
use ValueType as V;

fn nn(d: &DurationType, v: u8) -> bool {
    match v & 3 {
        0 => matches!(d, DurationType::Seconds),
        1 => matches!(d, DurationType::Minutes),
        2 => matches!(d, DurationType::Hours),
        _ => matches!(d, DurationType::Days),
    }
}
fn pp(d: &DurationType, v: u8) -> bool {
    match v & 3 {
        0 => matches!(d, DurationType::Hours),
        1 => matches!(d, DurationType::Days),
        2 => matches!(d, DurationType::Months),
        _ => matches!(d, DurationType::Years),
    }
}
fn e(x: i8, base: u8, v: u8, off: i8) -> bool {
    x == (v - base) as i8 + off
}

/// Primary VIF codes 0x00..=0x7A.
fn table10(t: &ValueType, v: u8) -> bool {
    match v {
        0x00..=0x07 => matches!(t, V::Energy(EnergyUnit::Wh, x) if e(*x, 0x00, v, -3)),
        0x08..=0x0F => matches!(t, V::Energy(EnergyUnit::J, x) if e(*x, 0x08, v, 0)),
        0x10..=0x17 => matches!(t, V::Volume(VolumeUnit::M3, x) if e(*x, 0x10, v, -6)),
        0x18..=0x1F => matches!(t, V::Mass(MassUnit::Kg, x) if e(*x, 0x18, v, -3)),
        0x20..=0x23 => matches!(t, V::OnTime(d) if nn(d, v)),
        0x24..=0x27 => matches!(t, V::OperatingTime(d) if nn(d, v)),
        0x28..=0x2F => matches!(t, V::Power(PowerUnit::W, x) if e(*x, 0x28, v, -3)),
        0x30..=0x37 => matches!(t, V::Power(PowerUnit::Jph, x) if e(*x, 0x30, v, 0)),
        0x38..=0x3F => matches!(t, V::VolumeFlow(DurationType::Hours, x) if e(*x, 0x38, v, -6)),
        0x40..=0x47 => matches!(t, V::VolumeFlow(DurationType::Minutes, x) if e(*x, 0x40, v, -7)),
        0x48..=0x4F => matches!(t, V::VolumeFlow(DurationType::Seconds, x) if e(*x, 0x48, v, -9)),
        0x50..=0x57 => matches!(t, V::MassFlow(DurationType::Hours, x) if e(*x, 0x50, v, -3)),
        0x58..=0x5B => matches!(t, V::FlowTemperature(x) if e(*x, 0x58, v, -3)),
        0x5C..=0x5F => matches!(t, V::ReturnTemperature(x) if e(*x, 0x5C, v, -3)),
        0x60..=0x63 => matches!(t, V::TemperatureDifference(x) if e(*x, 0x60, v, -3)),
        0x64..=0x67 => matches!(t, V::ExternalTemperature(x) if e(*x, 0x64, v, -3)),
        0x68..=0x6B => matches!(t, V::Pressure(x) if e(*x, 0x68, v, -3)),
        0x6C => matches!(t, V::TypeGDate),
        0x6D => matches!(t, V::VariableDateTime),
        0x6E => matches!(t, V::HCA),
        0x6F => matches!(t, V::ReservedCode(VIFTable::Table10, 0x6F)),
        0x70..=0x73 => matches!(t, V::AveragingDuration(d) if nn(d, v)),
        0x74..=0x77 => matches!(t, V::ActualityDuration(d) if nn(d, v)),
        0x78 => matches!(t, V::FabricationNumber),
        0x79 => matches!(t, V::EnhancedIdentification),
        0x7A => matches!(t, V::Address),
        _ => false,
    }
}
/// Main extension table, after VIF 0xFD.
fn table12(t: &ValueType, v: u8) -> bool {
    match v {
        0x00..=0x03 => matches!(t, V::Credit(x) if e(*x, 0x00, v, -3)),
        0x04..=0x07 => matches!(t, V::Debit(x) if e(*x, 0x04, v, -3)),
        0x08 => matches!(t, V::UniqueMessageIdentification),
        0x09 => matches!(t, V::DeviceType),
        0x0A => matches!(t, V::Manufacturer),
        0x0B => matches!(t, V::ParameterSetIdentification),
        0x0C => matches!(t, V::ModelVersion),
        0x0D => matches!(t, V::HardwareVersionNumber),
        0x0E => matches!(t, V::MetrologyFirmwareVersionNumber),
        0x0F => matches!(t, V::OtherSoftwareVersionNumber),
        0x10 => matches!(t, V::CustomerLocation),
        0x11 => matches!(t, V::Customer),
        0x12 => matches!(t, V::AccessCodeUser),
        0x13 => matches!(t, V::AccessCodeOperator),
        0x14 => matches!(t, V::AccessCodeSystemOperator),
        0x15 => matches!(t, V::AccessCodeDeveloper),
        0x16 => matches!(t, V::Password),
        0x17 => matches!(t, V::ErrorFlags),
        0x18 => matches!(t, V::ErrorMask),
        0x19 => matches!(t, V::SecurityKey),
        0x1A => matches!(t, V::DigitalOutput),
        0x1B => matches!(t, V::DigitalInput),
        0x1C => matches!(t, V::BaudRate),
        0x1D => matches!(t, V::ResponseDelayTime),
        0x1E => matches!(t, V::Retry),
        0x1F => matches!(t, V::RemoteControl),
        0x20 => matches!(t, V::FirstStorageNumberForCyclicStorage),
        0x21 => matches!(t, V::LastStorageNumberForCyclicStorage),
        0x22 => matches!(t, V::SizeOfStorageBlock),
        0x23 => matches!(t, V::DescriptorForTariffAndSubunit),
        0x24..=0x27 => matches!(t, V::StorageInterval(d) if nn(d, v)),
        0x28 => matches!(t, V::StorageInterval(DurationType::Months)),
        0x29 => matches!(t, V::StorageInterval(DurationType::Years)),
        0x2A => matches!(t, V::OperatorSpecific),
        0x2B => matches!(t, V::TimePointSecond),
        0x2C..=0x2F => matches!(t, V::DurationSinceLastReadout(d) if nn(d, v)),
        0x30 => matches!(t, V::StartDateTimeOfTariff),
        0x31..=0x33 => matches!(t, V::DurationOfTariff(d) if nn(d, v)),
        0x34..=0x37 => matches!(t, V::PeriodOfTarrif(d) if nn(d, v)),
        0x38 => matches!(t, V::PeriodOfTarrif(DurationType::Months)),
        0x39 => matches!(t, V::PeriodOfTarrif(DurationType::Years)),
        0x3A => matches!(t, V::Dimensionless),
        0x3B => matches!(t, V::WirelessContainer),
        0x3C..=0x3F => matches!(t, V::PeriodOfNominalDataTransmissions(d) if nn(d, v)),
        0x40..=0x4F => matches!(t, V::Volts(x) if e(*x, 0x40, v, -9)),
        0x50..=0x5F => matches!(t, V::Amperes(x) if e(*x, 0x50, v, -12)),
        0x60 => matches!(t, V::ResetCounter),
        0x61 => matches!(t, V::CumulationCounter),
        0x62 => matches!(t, V::ControlSignal),
        0x63 => matches!(t, V::DayOfWeek),
        0x64 => matches!(t, V::WeekNumber),
        0x65 => matches!(t, V::TimePointOfDayChange),
        0x66 => matches!(t, V::StateOfParameterActivation),
        0x67 => matches!(t, V::SpecialSupplierInformation),
        0x68..=0x6B => matches!(t, V::DurationSinceLastCumulation(d) if pp(d, v)),
        0x6C..=0x6F => matches!(t, V::OperatingTimeBattery(d) if pp(d, v)),
        0x70 => matches!(t, V::DateAndTimeOfBatteryChange),
        0x71 => matches!(t, V::RFLevel),
        0x72 => matches!(t, V::DSTTypeK),
        0x73 => matches!(t, V::ListeningWindowManagement),
        0x74 => matches!(t, V::RemainingBatteryLife(DurationType::Days)),
        0x75 => matches!(t, V::NumberTimesMeterStopped),
        0x76 => matches!(t, V::ManufacturerSpecificContainer),
        _ => matches!(t, V::ReservedCode(VIFTable::Table12, x) if *x == v),
    }
}
/// Second level extension table, after VIF 0xFD 0xFD.
fn table13(t: &ValueType, v: u8) -> bool {
    match v {
        0x00 => matches!(t, V::CurrentlySelectedApplication),
        0x02 => matches!(t, V::RemainingBatteryLife(DurationType::Months)),
        0x03 => matches!(t, V::RemainingBatteryLife(DurationType::Years)),
        _ => matches!(t, V::ReservedCode(VIFTable::Table13, x) if *x == v),
    }
}
/// Alternate extension table, after VIF 0xFB.
fn table14(t: &ValueType, v: u8) -> bool {
    match v {
        0x00..=0x01 => matches!(t, V::Energy(EnergyUnit::MWh, x) if e(*x, 0x00, v, -1)),
        0x02..=0x03 => matches!(t, V::ReactiveEnergy(x) if e(*x, 0x02, v, 0)),
        0x04..=0x05 => matches!(t, V::ApparentEnergy(x) if e(*x, 0x04, v, 0)),
        0x08..=0x09 => matches!(t, V::Energy(EnergyUnit::GJ, x) if e(*x, 0x08, v, -1)),
        0x0C..=0x0F => matches!(t, V::Energy(EnergyUnit::MCal, x) if e(*x, 0x0C, v, -1)),
        0x10..=0x11 => matches!(t, V::Volume(VolumeUnit::M3, x) if e(*x, 0x10, v, 2)),
        0x14..=0x17 => matches!(t, V::ReactivePower(x) if e(*x, 0x14, v, -3)),
        0x18..=0x19 => matches!(t, V::Mass(MassUnit::T, x) if e(*x, 0x18, v, 2)),
        0x1A..=0x1B => matches!(t, V::RelativeHumidity(x) if e(*x, 0x1A, v, -1)),
        0x20 => matches!(t, V::Volume(VolumeUnit::Feet3, 0)),
        0x21 => matches!(t, V::Volume(VolumeUnit::Feet3, -1)),
        0x28..=0x29 => matches!(t, V::Power(PowerUnit::MW, x) if e(*x, 0x28, v, -1)),
        0x2A => matches!(t, V::PhaseUU),
        0x2B => matches!(t, V::PhaseUI),
        0x2C..=0x2F => matches!(t, V::Frequency(x) if e(*x, 0x2C, v, -3)),
        0x30..=0x31 => matches!(t, V::Power(PowerUnit::GJph, x) if e(*x, 0x30, v, -1)),
        0x34..=0x37 => matches!(t, V::ApparentPower(x) if e(*x, 0x34, v, -1)),
        0x68 => matches!(t, V::ResultingPowerFactorK),
        0x69 => matches!(t, V::ThermalOutputRatingFactorKq),
        0x6A => matches!(t, V::ThermalCouplingRatingFactorOverallKc),
        0x6B => matches!(t, V::ThermalCouplingRatingFactorRoomSideKcr),
        0x6C => matches!(t, V::ThermalCouplingRatingFactorHeaterSideKch),
        0x6D => matches!(t, V::LowTemperatureRatingFactorKt),
        0x6E => matches!(t, V::DisplayOutputScalingFactorKD),
        0x74..=0x77 => matches!(t, V::ColdWarmTemperatureLimit(x) if e(*x, 0x74, v, -3)),
        0x78..=0x7F => matches!(t, V::CumulativeMaxOfActivePower(x) if e(*x, 0x78, v, -3)),
        0x22..=0x26 | 0x58..=0x67 | 0x70..=0x73 => matches!(t, V::RetiredCode(VIFTable::Table14, x) if *x == v),
        _ => matches!(t, V::ReservedCode(VIFTable::Table14, x) if *x == v),
    }
}

/// Value type selected by a complete, text-free VIF prefix `p` (1 to 3 bytes).
fn spec_type(t: &ValueType, p: &[u8]) -> bool {
    let v = p[0] & 0x7F;
    match (v, p.len()) {
        (0x00..=0x7A, 1) => table10(t, v),
        (0x7E, 1) => matches!(t, V::Any),
        (0x7F, 1) => matches!(t, V::ManufacturerSpecific),
        (0x7B, 1) | (0x7D, 1) => matches!(t, V::Invalid(x) if *x == v),
        (0x7B, 2) => table14(t, p[1] & 0x7F),
        (0x7D, 2) => table12(t, p[1] & 0x7F),
        (0x7D, 3) => table13(t, p[2] & 0x7F),
        _ => false,
    }
}

/// How integers of that quantity are coded: `Some(true)` unsigned (type C),
/// `Some(false)` signed (type B), `None` where this specification is silent.
fn spec_unsigned(p: &[u8]) -> Option<bool> {
    let v = p[0] & 0x7F;
    match (v, p.len()) {
        // physical quantities
        (0x00..=0x1F | 0x28..=0x6B, 1) => Some(false),
        (0x7D, 2) => match p[1] & 0x7F {
            0x00..=0x07 | 0x40..=0x5F => Some(false),
            0x08..=0x13 | 0x15 | 0x16 | 0x18 | 0x19 | 0x1C | 0x1D => Some(true),
            0x20..=0x23 | 0x2B..=0x2F | 0x31..=0x39 | 0x3C..=0x3F => Some(true),
            0x63 | 0x64 | 0x66..=0x6B | 0x74 | 0x75 => Some(true),
            _ => None,
        },
        (0x7D, 3) => match p[2] & 0x7F {
            0x02 | 0x03 => Some(true),
            _ => None,
        },
        (0x7B, 2) => match p[1] & 0x7F {
            0x00..=0x05 | 0x08..=0x09 | 0x0C..=0x11 | 0x14..=0x19 | 0x28..=0x29 | 0x2C..=0x31 | 0x34..=0x37 => Some(false),
            0x1A | 0x1B | 0x68..=0x6C => Some(true),
            0x74..=0x7F => Some(false),
            _ => None,
        },
        _ => None,
    }
}

/// Parse the concrete VIF bytes `p` followed by `E` symbolic bytes, of which a
/// symbolic number is present.
fn vib<const P: usize, const E: usize, const N: usize>(p: [u8; P], n: usize) {
    let mut a = any_array::<N>();
    let mut i = 0;
    while i < P {
        a[i] = p[i];
        i += 1;
    }
    check::<P, E>(&a[..n], p)
}
fn check<const P: usize, const E: usize>(a: &[u8], p: [u8; P]) {
    let n = a.len();
    let mut input = (Bytes::new(a), 0usize);
    let r = ValueInfoBlock::parse(&mut input);
    let mut more = p[P - 1] & 0x80 != 0;
    let chained = more;
    let mut used = P;
    let mut valid = true;
    let mut j = 0;
    while j <= E && more {
        if used >= n {
            valid = false;
            break;
        }
        more = a[used] & 0x80 != 0;
        used += 1;
        j += 1;
    }
    match r {
        Ok(v) => {
            assert!(valid, "VIB: an unterminated chain is rejected");
            assert!(spec_type(&v.value_type, &p), "VIB: value type, unit and exponent of the code");
            if let Some(u) = spec_unsigned(&p) {
                assert!(v.value_type.is_unsigned() == u, "VIB: signed or unsigned integer coding");
            }
            assert!(input.0.len() == n - used && input.1 == 0, "VIB: consumes exactly the block");
            match &v.extra_vifes {
                None => assert!(!chained, "VIB: extension bytes are reported"),
                Some(x) => {
                    assert!(chained, "VIB: extension bytes only when announced");
                    assert!(x.len() == used - P, "VIB: every extension byte is reported");
                    let mut q = 0;
                    while q < x.len() && q < E {
                        assert!(x[q] == a[P + q] & 0x7F, "VIB: extension byte values in order");
                        q += 1;
                    }
                }
            }
            core::mem::forget(v);
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(!valid, "VIB: every complete block is accepted");
        }
    }
}
/// All codes `lo..=hi` of the table selected by prefix `p`, without and with one
/// extension byte behind them.
fn table<const P: usize, const Q: usize>(p: [u8; P], lo: u8, hi: u8) {
    let mut b = [0u8; Q];
    let mut i = 0;
    while i < P {
        b[i] = p[i];
        i += 1;
    }
    let mut v = lo;
    loop {
        if !(P == 1 && p[0] == 0xFD && v == 0x7D) {
            b[P] = v;
            vib_sized::<Q>(b);
            b[P] = v | 0x80;
            vib_sized::<Q>(b);
        } else {
            b[P] = v;
            escape_without_code::<Q>(b);
        }
        if v == hi {
            break;
        }
        v += 1;
    }
}
/// The two-byte escape 0xFD 0x7D announces a third byte it does not have.
fn escape_without_code<const Q: usize>(b: [u8; Q]) {
    let a = b;
    let mut input = (Bytes::new(&a[..]), 0usize);
    let r = ValueInfoBlock::parse(&mut input);
    assert!(r.is_err(), "VIB: a second level escape needs its code");
    core::mem::forget(r);
}
fn vib_sized<const Q: usize>(b: [u8; Q]) {
    let mut a = [0u8; 5];
    let mut i = 0;
    while i < Q {
        a[i] = b[i];
        i += 1;
    }
    a[Q] = 0x3C;
    a[Q + 1] = k::any();
    check::<Q, 1>(&a[..Q + 2], b)
}
/// A block cut short inside its code.
fn cut<const N: usize>(a: [u8; N]) {
    let mut input = (Bytes::new(&a[..]), 0usize);
    let r = ValueInfoBlock::parse(&mut input);
    assert!(r.is_err(), "VIB: a block without its code is rejected");
    core::mem::forget(r);
}

/// Contract of `parse_length_prefix_ascii` (proved in `strings`): length byte and
/// text consumed, an arbitrary text; or rejected.
pub static mut TEXT: Option<[u8; 2]> = None;
#[cfg(kani)]
pub fn prefixed_contract(input: &mut &Bytes) -> libmbus::parse::error::MBResult<String> {
    use winnow::error::ParserError;
    let t: [u8; 2] = any_array::<2>();
    let accept: bool = k::any();
    if input.len() == 0 || input.len() < 1 + input[0] as usize || !accept {
        unsafe { TEXT = None };
        return Err(libmbus::parse::error::MBusError::from_input(input));
    }
    unsafe { TEXT = Some(t) };
    *input = Bytes::new(&input[1 + input[0] as usize..]);
    Ok(unsafe { String::from_utf8_unchecked(t.to_vec()) })
}
/// Plain text VIF: `len` bytes of text between the VIF and its extension bytes.
fn plain<const N: usize>(vif: u8, len: u8) {
    let mut a = any_array::<N>();
    a[0] = vif;
    a[1] = len;
    let more = vif & 0x80 != 0;
    let at = 2 + len as usize;
    if more && at < N {
        a[at] = 0x3C;
    }
    let used = at + more as usize;
    let mut input = (Bytes::new(&a[..]), 0usize);
    unsafe { TEXT = None };
    let r = ValueInfoBlock::parse(&mut input);
    let text = unsafe { TEXT };
    match r {
        Ok(v) => {
            assert!(N >= used, "VIB: truncated plain text is rejected");
            #[cfg(kani)]
            assert!(
                match (&v.value_type, text) {
                    (V::PlainText(s), Some(t)) => s.len() == 2 && s.as_bytes()[0] == t[0] && s.as_bytes()[1] == t[1],
                    _ => false,
                },
                "VIB: plain text is the decoded text"
            );
            assert!(input.0.len() == N - used && input.1 == 0, "VIB: consumes exactly the block");
            match &v.extra_vifes {
                None => assert!(!more, "VIB: extension bytes are reported"),
                Some(x) => assert!(more && x.len() == 1 && x[0] == 0x3C, "VIB: extension bytes after the text"),
            }
            core::mem::forget(v);
        }
        Err(e) => {
            core::mem::forget(e);
            #[cfg(kani)]
            assert!(N < used || text.is_none(), "VIB: plain text is accepted");
        }
    }
}
macro_rules! plain_harnesses {
    ($($name:ident [$u:literal] $body:block)*) => { harnesses! { $(
        #[cfg_attr(kani, kani::stub(libmbus::parse::types::string::parse_length_prefix_ascii, prefixed_contract))]
        $name [$u] $body
    )* } }
}
pub mod plain_text {
    use super::*;
    plain_harnesses! {
        vib_text [8] { plain::<6>(0x7C, 3) }
        vib_text_ext [8] { plain::<7>(0xFC, 3) }
        vib_text_0 [8] { plain::<4>(0xFC, 0) }
        vib_text_cut [8] { plain::<4>(0x7C, 3) }
        vib_text_ext_cut [8] { plain::<5>(0xFC, 3) }
    }
}

harnesses! {
    vib_10_00 [34] { table::<0, 1>([], 0x00, 0x0b) }
    vib_10_0c [34] { table::<0, 1>([], 0x0c, 0x17) }
    vib_10_18 [34] { table::<0, 1>([], 0x18, 0x23) }
    vib_10_24 [34] { table::<0, 1>([], 0x24, 0x2f) }
    vib_10_30 [34] { table::<0, 1>([], 0x30, 0x3b) }
    vib_10_3c [34] { table::<0, 1>([], 0x3c, 0x47) }
    vib_10_48 [34] { table::<0, 1>([], 0x48, 0x53) }
    vib_10_54 [34] { table::<0, 1>([], 0x54, 0x5f) }
    vib_10_60 [34] { table::<0, 1>([], 0x60, 0x6b) }
    vib_10_6c [34] { table::<0, 1>([], 0x6c, 0x77) }
    vib_10_78 [34] { table::<0, 1>([], 0x78, 0x7A) }
    vib_special [34] {
        vib_sized::<1>([0x7B]);
        vib_sized::<1>([0x7D]);
        vib_sized::<1>([0x7E]);
        vib_sized::<1>([0xFE]);
        vib_sized::<1>([0x7F]);
        vib_sized::<1>([0xFF]);
        cut([]);
        cut([0xFB]);
        cut([0xFD]);
        cut([0xFD, 0xFD]);
        cut([0x93]);
    }
    vib_14_00 [34] { table::<1, 2>([0xFB], 0x00, 0x0b) }
    vib_14_0c [34] { table::<1, 2>([0xFB], 0x0c, 0x17) }
    vib_14_18 [34] { table::<1, 2>([0xFB], 0x18, 0x23) }
    vib_14_24 [34] { table::<1, 2>([0xFB], 0x24, 0x2f) }
    vib_14_30 [34] { table::<1, 2>([0xFB], 0x30, 0x3b) }
    vib_14_3c [34] { table::<1, 2>([0xFB], 0x3c, 0x47) }
    vib_14_48 [34] { table::<1, 2>([0xFB], 0x48, 0x53) }
    vib_14_54 [34] { table::<1, 2>([0xFB], 0x54, 0x5f) }
    vib_14_60 [34] { table::<1, 2>([0xFB], 0x60, 0x6b) }
    vib_14_6c [34] { table::<1, 2>([0xFB], 0x6c, 0x77) }
    vib_14_78 [34] { table::<1, 2>([0xFB], 0x78, 0x7f) }
    vib_12_00 [34] { table::<1, 2>([0xFD], 0x00, 0x0b) }
    vib_12_0c [34] { table::<1, 2>([0xFD], 0x0c, 0x17) }
    vib_12_18 [34] { table::<1, 2>([0xFD], 0x18, 0x23) }
    vib_12_24 [34] { table::<1, 2>([0xFD], 0x24, 0x2f) }
    vib_12_30 [34] { table::<1, 2>([0xFD], 0x30, 0x3b) }
    vib_12_3c [34] { table::<1, 2>([0xFD], 0x3c, 0x47) }
    vib_12_48 [34] { table::<1, 2>([0xFD], 0x48, 0x53) }
    vib_12_54 [34] { table::<1, 2>([0xFD], 0x54, 0x5f) }
    vib_12_60 [34] { table::<1, 2>([0xFD], 0x60, 0x6b) }
    vib_12_6c [34] { table::<1, 2>([0xFD], 0x6c, 0x77) }
    vib_12_78 [34] { table::<1, 2>([0xFD], 0x78, 0x7f) }
    vib_13_00 [34] { table::<2, 3>([0xFD, 0xFD], 0x00, 0x0b) }
    vib_13_0c [34] { table::<2, 3>([0xFD, 0xFD], 0x0c, 0x17) }
    vib_13_18 [34] { table::<2, 3>([0xFD, 0xFD], 0x18, 0x23) }
    vib_13_24 [34] { table::<2, 3>([0xFD, 0xFD], 0x24, 0x2f) }
    vib_13_30 [34] { table::<2, 3>([0xFD, 0xFD], 0x30, 0x3b) }
    vib_13_3c [34] { table::<2, 3>([0xFD, 0xFD], 0x3c, 0x47) }
    vib_13_48 [34] { table::<2, 3>([0xFD, 0xFD], 0x48, 0x53) }
    vib_13_54 [34] { table::<2, 3>([0xFD, 0xFD], 0x54, 0x5f) }
    vib_13_60 [34] { table::<2, 3>([0xFD, 0xFD], 0x60, 0x6b) }
    vib_13_6c [34] { table::<2, 3>([0xFD, 0xFD], 0x6c, 0x77) }
    vib_13_78 [34] { table::<2, 3>([0xFD, 0xFD], 0x78, 0x7f) }
    vib_chain_p [8] { vib::<1, 3, 4>([0x93], 4) }
    vib_chain_t2 [8] { vib::<1, 3, 4>([0x93], 2) }
    vib_chain_t3 [8] { vib::<1, 3, 4>([0x93], 3) }
    vib_chain_m [8] { vib::<1, 3, 4>([0xFF], 4) }
    vib_chain_a [8] { vib::<1, 3, 4>([0xFE], 4) }
    vib_chain_e [8] { vib::<2, 2, 4>([0xFD, 0x93], 4) }
    vib_chain_f [8] { vib::<2, 2, 4>([0xFB, 0x82], 4) }
    vib_chain_g [8] { vib::<3, 2, 5>([0xFD, 0xFD, 0x80], 5) }
}
