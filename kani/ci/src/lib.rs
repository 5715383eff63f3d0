//! Contract of the CI field dispatch (`/repo/src/parse/transport_layer/control_info.rs`,
//! compiled here verbatim). Callees replaced by their contracts: the header
//! decoders (proved in `hdr`), the application messages (proved in `app`) and
//! `Frame::parse` (proved in `frame`).
#![allow(clippy::all, warnings)]
#[path = "../../common/support.rs"]
pub mod support;

pub use libmbus::*;
pub mod parse {
    pub use libmbus::parse::*;
    pub mod application_layer {
        pub use libmbus::parse::application_layer::*;
        pub mod application {
            pub use crate::{ApplicationErrorMessage, ApplicationMessage};
            pub use libmbus::parse::application_layer::application::*;
        }
        pub mod frame {
            pub use crate::Frame;
            pub use libmbus::parse::application_layer::frame::*;
        }
    }
    pub mod transport_layer {
        pub use libmbus::parse::transport_layer::*;
        #[path = "/repo/src/parse/transport_layer/control_info.rs"]
        pub mod control_info;
        pub mod header {
            pub use crate::{LongHeader, ShortHeader, TPLHeader};
            pub use libmbus::parse::transport_layer::header::*;
        }
        pub mod manufacturer {
            pub use libmbus::parse::transport_layer::manufacturer::*;
        }
    }
}

use parse::error::*;
use parse::transport_layer::control_info::{BaudRate as B, MBusMessage};
use support::{any_array, k};
use winnow::error::ParserError;
use winnow::Bytes;

// ------------------------------------------------------------ callee contracts
/// Ghost record of one callee: calls, offset of its input from the end, outcome.
#[derive(Clone, Copy)]
pub struct Ghost {
    calls: usize,
    left: usize,
    ok: bool,
}
const NEW: Ghost = Ghost { calls: 0, left: 0, ok: false };
static mut SHORT: Ghost = NEW;
static mut LONG: Ghost = NEW;
static mut FRAME: Ghost = NEW;
static mut APP: Ghost = NEW;
static mut APPERR: Ghost = NEW;

#[derive(Debug, Clone)]
pub enum TPLHeader {
    None,
    Short(ShortHeader),
    Long(LongHeader),
}
#[derive(Debug, Clone)]
pub struct ShortHeader(u8);
#[derive(Debug, Clone)]
pub struct LongHeader(u8);
#[derive(Debug)]
pub struct Frame(u8);
#[derive(Debug)]
pub struct ApplicationMessage(u8);
#[derive(Debug)]
pub struct ApplicationErrorMessage(u8);

/// Shared shape of the contracts: `eat` bytes are consumed on success.
fn contract(g: *mut Ghost, input: &mut &Bytes, eat: usize) -> MBResult<u8> {
    let accept: bool = input.len() >= eat && k::any::<bool>();
    unsafe {
        (*g).calls += 1;
        (*g).left = input.len();
        (*g).ok = accept;
    }
    if accept {
        *input = Bytes::new(&input[eat..]);
        Ok(77)
    } else {
        Err(MBusError::from_input(input))
    }
}
impl ShortHeader {
    pub fn parse(input: &mut &Bytes) -> MBResult<TPLHeader> {
        contract(&raw mut SHORT, input, 4).map(|t| TPLHeader::Short(ShortHeader(t)))
    }
}
impl LongHeader {
    pub fn parse(input: &mut &Bytes) -> MBResult<TPLHeader> {
        contract(&raw mut LONG, input, 12).map(|t| TPLHeader::Long(LongHeader(t)))
    }
}
impl Frame {
    pub fn parse(input: &mut &Bytes) -> MBResult<Frame> {
        let n = input.len();
        contract(&raw mut FRAME, input, n).map(Frame)
    }
}
static mut NO_MESSAGE: bool = false;
impl ApplicationMessage {
    pub fn parse(input: &mut &Bytes) -> MBResult<Option<ApplicationMessage>> {
        let n = input.len();
        let none: bool = k::any();
        unsafe { NO_MESSAGE = none };
        match contract(&raw mut APP, input, n) {
            Ok(t) => Ok(if none { None } else { Some(ApplicationMessage(t)) }),
            Err(e) => Err(e),
        }
    }
}
impl ApplicationErrorMessage {
    pub fn parse(input: &mut &Bytes) -> MBResult<ApplicationErrorMessage> {
        let n = input.len();
        contract(&raw mut APPERR, input, n).map(ApplicationErrorMessage)
    }
}

// ------------------------------------------------------------ specification
#[derive(Clone, Copy, PartialEq)]
enum H {
    None,
    Short,
    Long,
}
#[derive(Clone, Copy, PartialEq)]
enum M {
    Reject,
    Dlms,
    Specific,
    Wireless,
    Afl,
    Manufacturer,
    Image,
    Security,
    ResetOrSelect,
    SelectedRequest,
    SelectedResponse,
    Selection,
    Sync,
    Baud,
    TimeSync,
    TimeAdjust,
    Command,
    AppError,
    Alarm,
    Response,
}
/// EN 13757-7 table 2: header and message of every CI field value.
fn spec(ci: u8) -> (H, M) {
    match ci {
        0x00..=0x1F => (H::None, M::Dlms),
        0x50 => (H::None, M::ResetOrSelect),
        0x51 => (H::None, M::Command),
        0x52 => (H::None, M::Selection),
        0x53 => (H::Long, M::ResetOrSelect),
        0x54 => (H::None, M::SelectedRequest),
        0x55 => (H::Long, M::SelectedRequest),
        0x5A => (H::Short, M::Command),
        0x5B => (H::Long, M::Command),
        0x5C => (H::None, M::Sync),
        0x5F => (H::Long, M::Specific),
        0x60 => (H::Long, M::Dlms),
        0x61 => (H::Short, M::Dlms),
        0x66 => (H::None, M::SelectedResponse),
        0x67 => (H::Short, M::SelectedResponse),
        0x68 => (H::Long, M::SelectedResponse),
        0x6C => (H::Long, M::TimeSync),
        0x6D => (H::Long, M::TimeAdjust),
        0x6E => (H::Short, M::AppError),
        0x6F => (H::Long, M::AppError),
        0x70 => (H::None, M::AppError),
        0x71 => (H::None, M::Alarm),
        0x72 => (H::Long, M::Response),
        0x74 => (H::Short, M::Alarm),
        0x75 => (H::Long, M::Alarm),
        0x78 => (H::None, M::Response),
        0x7A => (H::Short, M::Response),
        0x7C => (H::Long, M::Dlms),
        0x7D => (H::Short, M::Dlms),
        0x80 | 0x82 | 0x87 | 0x8B => (H::Long, M::Wireless),
        0x81 | 0x83 | 0x86 | 0x89 | 0x8C..=0x8F => (H::None, M::Wireless),
        0x88 | 0x8A => (H::Short, M::Wireless),
        0x90 => (H::None, M::Afl),
        0x9E => (H::Short, M::Specific),
        0x9F => (H::Long, M::Specific),
        0xA0..=0xB7 => (H::None, M::Manufacturer),
        0xB8..=0xBF => (H::None, M::Baud),
        0xC0 | 0xC2 => (H::Long, M::Image),
        0xC1 => (H::Short, M::Image),
        0xC3 | 0xC5 => (H::Long, M::Security),
        0xC4 => (H::Short, M::Security),
        _ => (H::None, M::Reject),
    }
}
fn head(h: &TPLHeader) -> H {
    match h {
        TPLHeader::None => H::None,
        TPLHeader::Short(x) => {
            assert!(x.0 == 77);
            H::Short
        }
        TPLHeader::Long(x) => {
            assert!(x.0 == 77);
            H::Long
        }
    }
}
fn same(v: &Vec<u8>, rest: &[u8]) -> bool {
    if v.len() != rest.len() {
        return false;
    }
    let mut i = 0;
    while i < rest.len() {
        if v[i] != rest[i] {
            return false;
        }
        i += 1;
    }
    true
}

/// One message: concrete CI byte, symbolic data, `REST` bytes behind the header.
fn ci(ci: u8, rest_len: usize) {
    let (h, m) = spec(ci);
    let hl = match h {
        H::None => 0,
        H::Short => 4,
        H::Long => 12,
    };
    let mut a = any_array::<16>();
    a[0] = ci;
    let a = &a[..1 + hl + rest_len];
    unsafe {
        SHORT = NEW;
        LONG = NEW;
        FRAME = NEW;
        APP = NEW;
        APPERR = NEW;
    }
    let mut input = Bytes::new(a);
    let r = MBusMessage::parse(&mut input);
    let (s, l, f, ap, er, none) = unsafe { (SHORT, LONG, FRAME, APP, APPERR, NO_MESSAGE) };
    let header_ok = match h {
        H::None => true,
        H::Short => s.ok,
        H::Long => l.ok,
    };
    let rest = &a[1 + hl..];
    if m != M::Reject {
        assert!(
            s.calls == (h == H::Short) as usize && l.calls == (h == H::Long) as usize,
            "CI: exactly the header kind of this CI field is decoded"
        );
        assert!((s.calls == 0 || s.left == a.len() - 1) && (l.calls == 0 || l.left == a.len() - 1), "CI: the header follows the CI field");
    }
    let frame = m == M::Response && header_ok;
    let app = matches!(m, M::ResetOrSelect | M::SelectedResponse) && header_ok;
    let err = m == M::AppError && header_ok;
    if m != M::Reject {
        assert!(f.calls == frame as usize && ap.calls == app as usize && er.calls == err as usize, "CI: exactly the payload kind of this CI field is decoded");
    }
    assert!(
        (f.calls == 0 || f.left == rest.len()) && (ap.calls == 0 || ap.left == rest.len()) && (er.calls == 0 || er.left == rest.len()),
        "CI: the payload is everything behind the header"
    );
    let ok = header_ok
        && match m {
            M::Reject => false,
            M::Response => f.ok,
            M::ResetOrSelect => ap.ok,
            M::SelectedResponse => ap.ok && !none,
            M::AppError => er.ok,
            _ => true,
        };
    match r {
        Ok(msg) => {
            assert!(ok, "CI: reserved and unsupported CI fields and undecodable parts are rejected");
            use MBusMessage as Q;
            let good = match &msg {
                Q::ApplicationReset(x) => m == M::ResetOrSelect && none && head(x) == h,
                Q::ApplicationSelect(x, y) => m == M::ResetOrSelect && !none && head(x) == h && y.0 == 77,
                Q::SelectedApplicationRequest(x) => m == M::SelectedRequest && head(x) == h,
                Q::SelectedApplicationResponse(x, y) => m == M::SelectedResponse && head(x) == h && y.0 == 77,
                Q::SelectionOfDevice(d) => m == M::Selection && same(d, rest),
                Q::SetBaudRate(b) => {
                    m == M::Baud
                        && match b {
                            B::Rate300 => ci == 0xB8,
                            B::Rate600 => ci == 0xB9,
                            B::Rate1200 => ci == 0xBA,
                            B::Rate2400 => ci == 0xBB,
                            B::Rate4800 => ci == 0xBC,
                            B::Rate9600 => ci == 0xBD,
                            B::Rate19200 => ci == 0xBE,
                            B::Rate38400 => ci == 0xBF,
                        }
                }
                Q::SynchroniseAction => m == M::Sync,
                Q::TimeAdjustmentToDevice(x, d) => m == M::TimeAdjust && head(x) == h && same(d, rest),
                Q::TimeSyncToDevice(x, d) => m == M::TimeSync && head(x) == h && same(d, rest),
                Q::AlarmFromDevice(x, d) => m == M::Alarm && head(x) == h && same(d, rest),
                Q::ApplicationErrorFromDevice(x, y) => m == M::AppError && head(x) == h && y.0 == 77,
                Q::CommandToDevice(x, d) => m == M::Command && head(x) == h && same(d, rest),
                Q::ResponseFromDevice(x, y) => m == M::Response && head(x) == h && y.0 == 77,
                Q::AuthenticationAndFrgamentation(d) => m == M::Afl && same(d, rest),
                Q::Dlms(c, x, d) => m == M::Dlms && *c == ci && head(x) == h && same(d, rest),
                Q::ImageTransfer(c, x, d) => m == M::Image && *c == ci && head(x) == h && same(d, rest),
                Q::ManufacturerSpecific(c, d) => m == M::Manufacturer && *c == ci && same(d, rest),
                Q::SecurityTransfer(c, x, d) => m == M::Security && *c == ci && head(x) == h && same(d, rest),
                Q::SpecificUsage(c, x, d) => m == M::Specific && *c == ci && head(x) == h && same(d, rest),
                Q::Wireless(c, x) => m == M::Wireless && *c == ci && head(x) == h,
            };
            assert!(good, "CI: message kind, header and payload of this CI field");
            core::mem::forget(msg);
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(!ok, "CI: a well-formed message is accepted");
        }
    }
}
fn range(lo: u8, hi: u8) {
    let mut c = lo;
    loop {
        ci(c, 2);
        if c == hi {
            break;
        }
        c += 1;
    }
}
fn empty() {
    let mut input = Bytes::new(&[0u8; 0][..]);
    match MBusMessage::parse(&mut input) {
        Ok(m) => {
            core::mem::forget(m);
            assert!(false, "CI: a message without CI field is rejected");
        }
        Err(e) => core::mem::forget(e),
    }
}

harnesses! {
    ci_00 [18] { range(0x00, 0x0F) }
    ci_10 [18] { range(0x10, 0x1F) }
    ci_20 [18] { range(0x20, 0x2F) }
    ci_30 [18] { range(0x30, 0x3F) }
    ci_40 [18] { range(0x40, 0x4F) }
    ci_50 [18] { range(0x50, 0x5F) }
    ci_60 [18] { range(0x60, 0x6F) }
    ci_70 [18] { range(0x70, 0x7F) }
    ci_80 [18] { range(0x80, 0x8F) }
    ci_90 [18] { range(0x90, 0x9F) }
    ci_a0 [18] { range(0xA0, 0xAF) }
    ci_b0 [18] { range(0xB0, 0xBF) }
    ci_c0 [18] { range(0xC0, 0xCF) }
    ci_d0 [18] { range(0xD0, 0xDF) }
    ci_e0 [18] { range(0xE0, 0xEF) }
    ci_f0 [18] { range(0xF0, 0xFF) }
    ci_empty [18] { empty() }
    ci_rest_0 [18] { ci(0x05, 0); ci(0x52, 0); ci(0x5B, 0); ci(0x6C, 0); ci(0x71, 0); ci(0x72, 0); ci(0x90, 0); ci(0xA3, 0); ci(0xC1, 0); ci(0x50, 0); ci(0x70, 0) }
    ci_rest_3 [18] { ci(0x05, 3); ci(0x52, 3); ci(0x5B, 3); ci(0x6C, 3); ci(0x71, 3); ci(0x72, 3); ci(0x90, 3); ci(0xA3, 3); ci(0xC1, 3); ci(0x50, 3); ci(0x70, 3) }
}
