//! C07: contracts of the manufacturer code and product name decoders.
use crate::support::k;
use crate::{cover, harnesses};
use libmbus::parse::transport_layer::header::{DeviceType, ThermalMeterType, WaterMeterType};
use libmbus::parse::transport_layer::manufacturer::*;

fn pack(c: &[u8; 3]) -> u16 {
    (c[0] as u16 - 64) * 1024 + (c[1] as u16 - 64) * 32 + (c[2] as u16 - 64)
}

fn any_type() -> DeviceType {
    use DeviceType as D;
    use ThermalMeterType as T;
    use WaterMeterType as W;
    let all = [
        D::Other, D::OilMeter, D::ElectricityMeter, D::GasMeter, D::ThermalEnergyMeter(T::OutletHeat),
        D::ThermalEnergyMeter(T::InletHeat), D::ThermalEnergyMeter(T::OutletCooling),
        D::ThermalEnergyMeter(T::InletCooling), D::ThermalEnergyMeter(T::Combined), D::SteamMeter,
        D::WaterMeter(W::Potable), D::WaterMeter(W::Irrigation), D::WaterMeter(W::Cold), D::WaterMeter(W::Warm),
        D::WaterMeter(W::Hot), D::WaterMeter(W::DualRegister), D::WaterMeter(W::Waste), D::HeatCostAllocator,
        D::CompressedAir, D::BusOrSystemComponent, D::Unknown, D::WaterDataLogger, D::GasDataLogger,
        D::GasConverter, D::CalorificValue, D::PressureMeter, D::ADConverter, D::SmokeDetector, D::RoomSensor,
        D::GasDetector, D::ReservedSensor, D::ElectricalBreaker, D::Valve, D::ReservedSwitchingDevice,
        D::CustomerUnit, D::ReservedCustomerUnit, D::Garbage, D::ReservedCO2, D::ReservedEnvironmental,
        D::ServiceTool, D::CommunicationController, D::UnidirectionalRepeater, D::BidirectionalRepeater,
        D::ReservedSystemDevice, D::RadioConverterSystemSide, D::RadioConverterMeterSide,
        D::BusConverterMeterSide, D::Reserved, D::Wildcard,
    ];
    let i: usize = k::any();
    k::assume(i < all.len());
    all[i]
}
#[derive(Clone, Copy)]
enum T {
    Any,
    Electricity,
    Unknown,
    WarmWater,
}
use T::*;
/// (manufacturer, first version, last version, device type, product); first match wins.
const PRODUCTS: &[(&[u8; 3], u8, u8, T, &str)] = &[
    (b"ABB", 0x02, 0x02, Any, "ABB Delta-Meter"),
    (b"ABB", 0x20, 0x20, Any, "ABB B21 113-100"),
    (b"ACW", 0x09, 0x09, Any, "Itron CF Echo 2"),
    (b"ACW", 0x0A, 0x0A, Any, "Itron CF 51"),
    (b"ACW", 0x0B, 0x0B, Any, "Itron CF 55"),
    (b"ACW", 0x0E, 0x0E, Any, "Itron BM +m"),
    (b"ACW", 0x0F, 0x0F, Any, "Itron CF 800"),
    (b"ACW", 0x14, 0x14, Any, "Itron CYBLE M-Bus 1.4"),
    (b"AMT", 0x00, 0x3F, Any, "Aquametro AMTRON"),
    (b"AMT", 0x40, 0x7F, Any, "Aquametro SAPHIR"),
    (b"AMT", 0x80, 0xBF, Any, "Aquametro CALEC MB"),
    (b"AMT", 0xC0, 0xFF, Any, "Aquametro CALEC ST"),
    (b"BEC", 0x00, 0x00, Electricity, "Berg DCMi"),
    (b"BEC", 0x07, 0x07, Electricity, "Berg BLMi"),
    (b"BEC", 0x71, 0x71, Unknown, "Berg BMB-10S0"),
    (b"EFE", 0x00, 0x00, WarmWater, "Engelmann WaterStar"),
    (b"EFE", 0x00, 0x00, Any, "Engelmann / Elster SensoStar 2"),
    (b"EFE", 0x01, 0x01, Any, "Engelmann SensoStar 2C"),
    (b"ELS", 0x02, 0x02, Any, "Elster TMP-A"),
    (b"ELS", 0x0A, 0x0A, Any, "Elster Falcon"),
    (b"ELS", 0x2F, 0x2F, Any, "Elster F96 Plus"),
    (b"ELV", 0x14, 0x1D, Any, "Elvaco CMa10"),
    (b"ELV", 0x32, 0x3B, Any, "Elvaco CMa11"),
    (b"EMH", 0x00, 0x00, Any, "EMH DIZ"),
    (b"EMU", 0x10, 0x10, Electricity, "EMU Professional 3/75 M-Bus"),
    (b"GAV", 0x2D, 0x30, Electricity, "Carlo Gavazzi EM24"),
    (b"GAV", 0x39, 0x3A, Electricity, "Carlo Gavazzi EM21"),
    (b"GAV", 0x40, 0x40, Electricity, "Carlo Gavazzi EM33"),
    (b"GMC", 0xE6, 0xE6, Any, "GMC-I A230 EMMOD 206"),
    (b"HYD", 0x28, 0x28, Any, "ABB F95 Typ US770"),
    (b"HYD", 0x2F, 0x2F, Any, "Hydrometer Sharky 775"),
    (b"JAN", 0x09, 0x09, Electricity, "Janitza UMG 96S"),
    (b"KAM", 0x01, 0x01, Any, "Kamstrup 382 (6850-005)"),
    (b"KAM", 0x08, 0x08, Any, "Kamstrup Multical 601"),
    (b"LSE", 0x99, 0x99, Any, "Siemens WFH21"),
    (b"LUG", 0x02, 0x02, Any, "Landis & Gyr Ultraheat 2WR5"),
    (b"LUG", 0x03, 0x03, Any, "Landis & Gyr Ultraheat 2WR6"),
    (b"LUG", 0x04, 0x04, Any, "Landis & Gyr Ultraheat UH50"),
    (b"LUG", 0x07, 0x07, Any, "Landis & Gyr Ultraheat T230"),
    (b"NZR", 0x01, 0x01, Any, "NZR DHZ 5/63"),
    (b"NZR", 0x50, 0x50, Any, "NZR IC-M2"),
    (b"RAM", 0x03, 0x03, Any, "Rossweiner ETK/ETW Modularis"),
    (b"REL", 0x08, 0x08, Any, "Relay PadPuls M1"),
    (b"REL", 0x12, 0x12, Any, "Relay PadPuls M4"),
    (b"REL", 0x20, 0x20, Any, "Relay Padin 4"),
    (b"REL", 0x30, 0x30, Any, "Relay AnDi 4"),
    (b"REL", 0x40, 0x40, Any, "Relay PadPuls M2"),
    (b"RKE", 0x69, 0x69, Any, "Ista sensonic II mbus"),
    (b"SBC", 0x10, 0x10, Any, "Saia-Burgess ALE3"),
    (b"SBC", 0x19, 0x19, Any, "Saia-Burgess ALE3"),
    (b"SBC", 0x11, 0x11, Any, "Saia-Burgess AWD3"),
    (b"SEN", 0x08, 0x08, Any, "Sensus PolluCom E"),
    (b"SEN", 0x19, 0x19, Any, "Sensus PolluCom E"),
    (b"SEN", 0x0B, 0x0B, Any, "Sensus PolluTherm"),
    (b"SEN", 0x0E, 0x0E, Any, "Sensus PolluStat E"),
    (b"SEO", 0x30, 0x30, Any, "Sensoco PT100"),
    (b"SEO", 0x41, 0x41, Any, "Sensoco 2-NTC"),
    (b"SEO", 0x45, 0x45, Any, "Sensoco Laser Light"),
    (b"SEO", 0x48, 0x48, Any, "Sensoco ADIO"),
    (b"SEO", 0x51, 0x51, Any, "Sensoco THU"),
    (b"SEO", 0x61, 0x61, Any, "Sensoco THU"),
    (b"SEO", 0x80, 0x80, Any, "Sensoco PulseCounter for E-Meter"),
    (b"GTE", 0x30, 0x30, Any, "Sensoco PT100"),
    (b"GTE", 0x41, 0x41, Any, "Sensoco 2-NTC"),
    (b"GTE", 0x45, 0x45, Any, "Sensoco Laser Light"),
    (b"GTE", 0x48, 0x48, Any, "Sensoco ADIO"),
    (b"GTE", 0x51, 0x51, Any, "Sensoco THU"),
    (b"GTE", 0x61, 0x61, Any, "Sensoco THU"),
    (b"GTE", 0x80, 0x80, Any, "Sensoco PulseCounter for E-Meter"),
    (b"SLB", 0x02, 0x02, Any, "Allmess Megacontrol CF-50"),
    (b"SLB", 0x06, 0x06, Any, "CF Compact / Integral MK MaXX"),
    (b"SON", 0x0D, 0x0D, Any, "Sontex Supercal 531"),
    (b"SPX", 0x31, 0x31, Any, "Sensus PolluTherm"),
    (b"SPX", 0x34, 0x34, Any, "Sensus PolluTherm"),
    (b"SVM", 0x08, 0x08, Any, "Elster F2 / Deltamess F2"),
    (b"SVM", 0x09, 0x09, Any, "Elster F4 / Kamstrup SVM F22"),
    (b"TCH", 0x26, 0x26, Any, "Techem m-bus S"),
    (b"TCH", 0x40, 0x40, Any, "Techem ultra S3"),
    (b"WZG", 0x03, 0x03, Any, "Modularis ETW-EAX"),
    (b"ZRM", 0x81, 0x81, Any, "Minol Minocal C2"),
    (b"ZRM", 0x82, 0x82, Any, "Minol Minocal WR3"),
];

fn type_ok(f: T, t: DeviceType) -> bool {
    match f {
        Any => true,
        Electricity => matches!(t, DeviceType::ElectricityMeter),
        Unknown => matches!(t, DeviceType::Unknown),
        WarmWater => matches!(t, DeviceType::WaterMeter(WaterMeterType::Warm)),
    }
}

/// Product table, one entry at a time: the entries `lo..hi`.
fn known(lo: usize, hi: usize) {
    let mut e = lo;
    while e < hi && e < PRODUCTS.len() {
        let (m, v0, v1, filter, name) = PRODUCTS[e];
        let t = any_type();
        let v: u8 = k::any();
        k::assume(v >= v0 && v <= v1);
        {
            // an earlier entry for the same version takes precedence
            let mut shadowed = false;
            if e > 0 && PRODUCTS[e - 1].0 == m && PRODUCTS[e - 1].1 == v {
                shadowed = type_ok(PRODUCTS[e - 1].3, t);
            }
            let in_id = *m == *b"SBC" || *m == *b"SEO" || *m == *b"GTE";
            let other: u8 = k::any();
            let id = [other, other, other, if in_id { v } else { other }];
            let got = device_name(&id, pack(m), if in_id { other } else { v }, t);
            if type_ok(filter, t) && !shadowed {
                match got {
                    Some(s) => {
                        assert!(s.len() == name.len(), "product name of a known device");
                        let (s, n) = (s.as_bytes(), name.as_bytes());
                        let mut i = 0;
                        while i < n.len() {
                            assert!(s[i] == n[i], "product name of a known device");
                            i += 1;
                        }
                    }
                    None => assert!(false, "a known device is named"),
                }
            }
        }
        e += 1;
    }
}

harnesses! {
    maker_code [6] {
        let raw: u16 = k::any();
        match unpack_manufacturer_code(raw) {
            Ok(s) => {
                let b = s.as_bytes();
                assert!(b.len() == 3, "manufacturer code: three characters");
                assert!(
                    b[0] == 64 + ((raw >> 10) & 31) as u8
                        && b[1] == 64 + ((raw >> 5) & 31) as u8
                        && b[2] == 64 + (raw & 31) as u8,
                    "manufacturer code: five bits per letter, first letter most significant"
                );
                core::mem::forget(s);
            }
            Err(_) => assert!(false, "manufacturer code: every code decodes"),
        }
    }
    product_unknown [84] {
        // everything outside the table has no name; everything inside has one
        let (m, v, t): (u16, u8, _) = (k::any(), k::any(), any_type());
        let id = [k::any::<u8>(), k::any::<u8>(), k::any::<u8>(), k::any::<u8>()];
        let in_id = m == pack(b"SBC") || m == pack(b"SEO") || m == pack(b"GTE");
        let version = if in_id { id[3] } else { v };
        let mut known = false;
        let mut e = 0;
        while e < PRODUCTS.len() {
            let (pm, v0, v1, f, _) = PRODUCTS[e];
            known = known || (m == pack(pm) && version >= v0 && version <= v1 && type_ok(f, t));
            e += 1;
        }
        cover!(known, "known device");
        assert!(device_name(&id, m, v, t).is_some() == known, "a name is given to exactly the known devices");
    }
    product_names_a [40] { known(0, 21) }
    product_names_b [40] { known(21, 42) }
    product_names_c [40] { known(42, 63) }
    product_names_d [40] { known(63, 90) }
}
