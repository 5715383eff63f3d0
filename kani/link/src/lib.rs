//! Contracts of the link layer (`/repo/src/parse/link_layer.rs`, compiled here
//! verbatim). The callee `MBusMessage::parse` is replaced by its contract: it may
//! accept or reject, and consume what it likes of the data it is handed.
#![allow(clippy::all, warnings)]
#[path = "../../common/support.rs"]
pub mod support;

pub use libmbus::*;
pub mod parse {
    pub use libmbus::parse::*;
    #[path = "/repo/src/parse/link_layer.rs"]
    pub mod link_layer;
    pub mod transport_layer {
        pub use crate::MBusMessage;
        pub use libmbus::parse::transport_layer::*;
    }
}

use parse::error::{MBResult, MBusError};
use parse::link_layer::*;
use support::{any_array, k};
use winnow::error::ParserError;
use winnow::Bytes;

// ------------------------------------------------------------ callee contract
#[derive(Debug)]
pub struct MBusMessage(pub u32);
/// Ghost record of the calls: how many, on which bytes, with which outcome.
static mut CALLS: usize = 0;
static mut DATA: (*const u8, usize) = (core::ptr::null(), 0);
static mut OUTCOME: Option<u32> = None;

impl MBusMessage {
    pub fn parse(input: &mut &Bytes) -> MBResult<MBusMessage> {
        let accept: bool = k::any();
        let token: u32 = k::any();
        unsafe {
            CALLS += 1;
            DATA = (input.as_ptr(), input.len());
            OUTCOME = if accept { Some(token) } else { None };
        }
        let eat: usize = k::any();
        k::assume(eat <= input.len());
        *input = Bytes::new(&input[eat..]);
        if accept {
            Ok(MBusMessage(token))
        } else {
            Err(MBusError::from_input(input))
        }
    }
}

// ------------------------------------------------------------ specification
fn control_valid(c: u8) -> bool {
    if c & 0x80 != 0 {
        return false;
    }
    let (b4, f) = (c & 0x10 != 0, c & 15);
    if c & 0x40 != 0 {
        matches!((b4, f), (false, 0) | (false, 1) | (true, 3) | (false, 4) | (false, 8) | (false, 9) | (true, 10) | (true, 11))
    } else {
        matches!(f, 0 | 1 | 8 | 9 | 11 | 14 | 15)
    }
}
fn control_is(c: &Control, raw: u8) -> bool {
    use PrimaryControlMessage as P;
    use SecondaryControlMessage as S;
    let (b5, b4, f) = (raw & 0x20 != 0, raw & 0x10 != 0, raw & 15);
    match c {
        Control::Primary { frame_count_bit, message } => {
            raw & 0x40 != 0
                && *frame_count_bit == b5
                && match message {
                    P::ResetRemoteLink => f == 0,
                    P::ResetUserProcess => f == 1,
                    P::SendUserDataConfirmed => f == 3,
                    P::SendUserDataUnconfirmed => f == 4,
                    P::RequestAccessDemand => f == 8,
                    P::RequestLinkStatus => f == 9,
                    P::RequestUserData1 => f == 10,
                    P::RequestUserData2 => f == 11,
                }
        }
        Control::Secondary { access_demand, data_flow_control, message } => {
            raw & 0x40 == 0
                && *access_demand == b5
                && match data_flow_control {
                    DataFlowControl::Pause => b4,
                    DataFlowControl::Continue => !b4,
                }
                && match message {
                    S::ACK => f == 0,
                    S::NACK => f == 1,
                    S::UserData => f == 8,
                    S::UserDataUnavailable => f == 9,
                    S::Status => f == 11,
                    S::LinkNotFunctioning => f == 14,
                    S::LinkNotImplemented => f == 15,
                }
        }
    }
}

/// Long frame with length byte `len` on `n` available bytes of `a`.
fn long_valid(a: &[u8]) -> bool {
    let n = a.len();
    if n < 8 {
        return false;
    }
    let len = a[1] as usize;
    if len < 2 || n != len + 6 || a[2] != a[1] || a[3] != 0x68 || !control_valid(a[4]) || a[n - 1] != 0x16 {
        return false;
    }
    let mut sum: u8 = 0;
    let mut i = 4;
    while i < n - 2 {
        sum = sum.wrapping_add(a[i]);
        i += 1;
    }
    sum == a[n - 2]
}

/// Run the real parser and check everything the contract promises.
fn packet(a: &[u8]) {
    let n = a.len();
    let mut input = Bytes::new(a);
    let r = Packet::parse(&mut input);
    let (calls, data, outcome) = unsafe { (CALLS, DATA, OUTCOME) };
    let first = if n > 0 { a[0] } else { 0 };
    let short_ok = first == 0x10
        && n >= 5
        && control_valid(a[1])
        && a[3] == a[1].wrapping_add(a[2])
        && a[4] == 0x16;
    let long_ok = first == 0x68 && long_valid(a);
    if first == 0x68 {
        assert!(calls == long_ok as usize, "long frame: the payload is handed on exactly when the frame is intact");
        if calls > 0 {
            assert!(data.0 == a[6..].as_ptr() && data.1 == n - 8, "long frame: the payload is exactly the bytes between address and checksum");
        }
    } else {
        assert!(calls == 0, "only long frames carry a payload");
    }
    match r {
        Ok(p) => {
            match &p {
                Packet::Ack => {
                    assert!(first == 0xE5 && n > 0, "acknowledgement: only for 0xE5");
                    assert!(input.len() == n - 1, "acknowledgement: consumes one byte");
                }
                Packet::Short { control, address } => {
                    assert!(short_ok, "short frame: bad control, checksum or stop byte is rejected");
                    assert!(control_is(control, a[1]), "short frame: control field");
                    assert!(*address == a[2], "short frame: address");
                    assert!(input.len() == n - 5, "short frame: consumes five bytes");
                }
                Packet::Long { control, address, message } => {
                    assert!(long_ok, "long frame: a damaged frame is rejected");
                    assert!(control_is(control, a[4]), "long frame: control field");
                    assert!(*address == a[5], "long frame: address");
                    assert!(outcome == Some(message.0), "long frame: message is the decoded payload");
                    assert!(input.len() == 0, "long frame: is the whole input");
                }
            }
            core::mem::forget(p);
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(!(first == 0xE5 && n > 0), "acknowledgement: accepted");
            assert!(!short_ok, "short frame: an intact frame is accepted");
            assert!(!(long_ok && outcome.is_some()), "long frame: an intact frame is accepted");
        }
    }
}

/// A long frame whose length byte is `L`, on exactly `N` bytes.
fn long<const L: u8, const N: usize>() {
    let mut a = any_array::<N>();
    a[0] = 0x68;
    if N > 1 {
        a[1] = L;
    }
    cover!(long_valid(&a), "intact frame");
    packet(&a);
}

/// A long frame of up to the maximum size: fixed payload, any checksum byte.
fn big<const L: u8, const N: usize>() {
    let mut a = [0u8; N];
    let mut i = 6;
    while i < N {
        a[i] = (i * 7 + 3) as u8;
        i += 1;
    }
    a[0] = 0x68;
    a[1] = L;
    a[2] = L;
    a[3] = 0x68;
    a[4] = 0x08;
    a[5] = 0x01;
    a[N - 2] = k::any();
    a[N - 1] = 0x16;
    cover!(long_valid(&a), "intact frame");
    packet(&a);
}

harnesses! {
    link_any14 [16] {
        let a = any_array::<14>();
        let n: usize = k::any();
        k::assume(n <= 14);
        packet(&a[..n]);
    }
    link_short [8] {
        let mut a = any_array::<7>();
        a[0] = 0x10;
        let n: usize = k::any();
        k::assume(n <= 7);
        packet(&a[..n]);
    }
    link_other [8] {
        let a = any_array::<6>();
        let n: usize = k::any();
        k::assume(n <= 6 && a[0] != 0x10 && a[0] != 0x68);
        packet(&a[..n]);
    }
    long_2 [16] { long::<2, 8>() }
    long_3 [16] { long::<3, 9>() }
    long_9 [16] { long::<9, 15>() }
    long_9_cut [16] { long::<9, 14>() }
    long_9_more [16] { long::<9, 16>() }
    long_20 [32] { long::<20, 26>() }
    big_64 [72] { big::<64, 70>() }
    big_130 [140] { big::<130, 136>() }
    big_255 [262] { big::<255, 261>() }
}
