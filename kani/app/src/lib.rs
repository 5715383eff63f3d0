//! Contracts of the application error and application select decoders
//! (`/repo/src/parse/application_layer/application.rs`, verbatim; an accessor for
//! two private fields is appended). Callee `Record::parse` replaced by its contract.
#![allow(clippy::all, warnings)]
#[path = "../../common/support.rs"]
pub mod support;

pub use libmbus::*;
pub mod parse {
    pub use libmbus::parse::*;
    pub mod application_layer {
        pub use libmbus::parse::application_layer::*;
        #[path = "/verif/build/gen/application.rs"]
        pub mod application;
        pub mod record {
            pub use crate::Record;
            pub use libmbus::parse::application_layer::record::*;
        }
    }
}
use parse::application_layer::application::*;
use parse::error::*;
use support::{any_array, k};
use winnow::error::ParserError;
use winnow::Bytes;

// ------------------------------------------------------------ callee contract
#[derive(Debug)]
pub struct Record(u32);
static mut CALLS: usize = 0;
static mut LEFT: usize = 0;
static mut OUTCOME: Option<u32> = None;
impl Record {
    pub fn parse(input: &mut &Bytes) -> MBResult<Record> {
        let accept: bool = k::any();
        let token: u32 = k::any();
        unsafe {
            CALLS += 1;
            LEFT = input.len();
            OUTCOME = if accept { Some(token) } else { None };
        }
        if accept {
            let n = input.len();
            *input = Bytes::new(&input[n..]);
            Ok(Record(token))
        } else {
            Err(MBusError::from_input(input))
        }
    }
}

fn is_error(e: &ApplicationErrorMessage, code: u8, rest: &[u8]) -> bool {
    use ApplicationErrorMessage as E;
    match e {
        E::Unspecified => code == 0x00,
        E::CIFieldError => code == 0x01,
        E::BufferOverflow => code == 0x02,
        E::RecordOverflow => code == 0x03,
        E::RecordError => code == 0x04,
        E::DIFEOverflow => code == 0x05,
        E::VIFEOverflow => code == 0x06,
        E::ApplicationBusy => code == 0x08,
        E::CreditOverflow => code == 0x09,
        E::NoFunction => code == 0x11,
        E::DataError => code == 0x12,
        E::RoutingOrRelayingError => code == 0x13,
        E::AccessViolation => code == 0x14,
        E::ParameterError => code == 0x15,
        E::SizeError => code == 0x16,
        E::SecurityError => code == 0x20,
        E::SecurityMechanismNotSupported => code == 0x21,
        E::InadequateSecurityMethod => code == 0x22,
        E::DynamicError(r) => code == 0xF0 && unsafe { OUTCOME } == Some(r.0),
        E::ManufacturerSpecific(c, d) => {
            let mut same = code >= 0xF1 && *c == code && d.len() == rest.len();
            let mut i = 0;
            while same && i < rest.len() {
                same = d[i] == rest[i];
                i += 1;
            }
            same
        }
    }
}
fn error_ok(code: u8) -> bool {
    matches!(code, 0..=6 | 8 | 9 | 0x11..=0x16 | 0x20..=0x22 | 0xF0..=0xFF)
}
fn error(code: u8, rest: usize) {
    let mut a = any_array::<4>();
    a[0] = code;
    let a = &a[..1 + rest];
    unsafe {
        CALLS = 0;
        OUTCOME = None;
    }
    let mut input = Bytes::new(a);
    let r = ApplicationErrorMessage::parse(&mut input);
    let (calls, left, outcome) = unsafe { (CALLS, LEFT, OUTCOME) };
    assert!(calls == (code == 0xF0) as usize, "application error: a record is decoded for dynamic errors only");
    assert!(calls == 0 || left == rest, "application error: the record follows the code");
    let ok = error_ok(code) && (code != 0xF0 || outcome.is_some());
    match r {
        Ok(e) => {
            assert!(ok, "application error: reserved codes are rejected");
            assert!(is_error(&e, code, &a[1..]), "application error: kind and data of the code");
            core::mem::forget(e);
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(!ok, "application error: every assigned code is accepted");
        }
    }
}
fn errors(lo: u8, hi: u8) {
    let mut c = lo;
    loop {
        error(c, 2);
        if c == hi {
            break;
        }
        c += 1;
    }
}

fn is_application(m: &MessageApplication, v: u8) -> bool {
    use MessageApplication as A;
    match m {
        A::All => v == 0,
        A::UserData => v == 1,
        A::SimpleBilling => v == 2,
        A::EnhancedBilling => v == 3,
        A::MultiTariffBilling => v == 4,
        A::InstantaneousValues => v == 5,
        A::LoadProfileValuesForManagement => v == 6,
        A::StaticContent => v == 7,
        A::InstallationAndStartup => v == 8,
        A::Testing => v == 9,
        A::Calibration => v == 10,
        A::Manufacturing => v == 11,
        A::Development => v == 12,
        A::SelfTest => v == 13,
        A::ConfigurationData => v == 14,
        A::UserDefinedData => v == 15,
        A::ManufacturerSpecific(_) => false,
    }
}
/// Select blocks of up to 12 bytes: never a panic; block number digits in order.
fn select<const N: usize>() {
    let a = any_array::<N>();
    let mut input = Bytes::new(&a[..]);
    let r = ApplicationMessage::parse(&mut input);
    match r {
        Ok(None) => {
            assert!(N == 0, "application select: an empty block is a reset, any other is not");
        }
        Ok(Some(m)) => {
            assert!(N > 0, "application select: an empty block is a reset");
            let (app, block) = m.parts_for_verification();
            let mut want = 0u64;
            let mut i = 0;
            while i < N && i < 10 {
                want = want << 4 | (a[i] & 15) as u64;
                i += 1;
            }
            assert!(block == want, "application select: block number digits");
            if N == 1 {
                assert!(is_application(app, a[0] >> 4), "application select: selected application");
            }
            core::mem::forget(m);
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(N > 1, "application select: every short block is accepted");
        }
    }
}

harnesses! {
    app_error_empty [4] {
        let mut input = Bytes::new(&[0u8; 0][..]);
        let r = ApplicationErrorMessage::parse(&mut input);
        assert!(matches!(r, Ok(ApplicationErrorMessage::Unspecified)), "application error: no code means unspecified");
        core::mem::forget(r);
    }
    app_errors_0 [66] { errors(0x00, 0x3F) }
    app_errors_1 [66] { errors(0x40, 0x7F) }
    app_errors_2 [66] { errors(0x80, 0xBF) }
    app_errors_3 [66] { errors(0xC0, 0xEF) }
    app_errors_4 [66] { errors(0xF0, 0xFF) }
    app_select_0 [14] { select::<0>() }
    app_select_1 [14] { select::<1>() }
    app_select_2 [14] { select::<2>() }
    app_select_3 [14] { select::<3>() }
    app_select_11 [14] { select::<11>() }
}
