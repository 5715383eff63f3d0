//! Contract of the frame decoder (`/repo/src/parse/application_layer/frame.rs`,
//! verbatim). Callee `Record::parse` replaced by its contract: at every position it
//! either fails or consumes at least one byte; which, is arbitrary but fixed.
#![allow(clippy::all, warnings)]
#[path = "../../common/support.rs"]
pub mod support;

pub use libmbus::*;
pub mod parse {
    pub use libmbus::parse::*;
    pub mod application_layer {
        pub use libmbus::parse::application_layer::*;
        #[path = "/repo/src/parse/application_layer/frame.rs"]
        pub mod frame;
        pub mod record {
            pub use crate::Record;
            pub use libmbus::parse::application_layer::record::*;
        }
    }
}
use parse::application_layer::frame::*;
use parse::error::*;
use support::{any_array, k};
use winnow::error::ParserError;
use winnow::Bytes;

// ------------------------------------------------------------ callee contract
#[derive(Debug)]
pub struct Record(usize);
/// Bytes consumed by the record at each offset from the end, 0 = rejected.
static mut EAT: [u8; 64] = [0; 64];
impl Record {
    pub fn parse(input: &mut &Bytes) -> MBResult<Record> {
        let left = input.len();
        
        let eat = unsafe { EAT[left] } as usize;
        if eat == 0 || eat > left {
            Err(MBusError::from_input(input))
        } else {
            *input = Bytes::new(&input[eat..]);
            Ok(Record(left))
        }
    }
}

/// One step of a frame's structure.
#[derive(Clone, Copy)]
pub enum S {
    /// idle filler
    F,
    /// a record of that many bytes starting with a byte that is no marker
    R(usize),
    /// an undecodable record (ends the frame)
    X,
    /// more-data marker, then that many bytes
    More(usize),
    /// end marker, then that many bytes
    End(usize),
}

/// A frame of the given structure; `first` starts every record, the bytes inside
/// records and behind the markers are arbitrary.
fn shape(steps: &[S], first: u8) {
    const N: usize = 48;
    let mut a = [0u8; N];
    let mut n = 0;
    let mut ok = true;
    let mut more = false;
    let mut tail = 0;
    let mut starts = [0usize; 48];
    let mut sizes = [0usize; 48];
    let mut count = 0;
    let mut i = 0;
    while i < steps.len() {
        let fill = match steps[i] {
            S::F => {
                a[n] = 0x2F;
                n += 1;
                0
            }
            S::R(e) => {
                starts[count] = n;
                sizes[count] = e;
                count += 1;
                a[n] = first;
                n += 1;
                e - 1
            }
            S::X => {
                ok = false;
                a[n] = first;
                n += 1;
                0
            }
            S::More(r) => {
                a[n] = 0x1F;
                n += 1;
                more = true;
                tail = r;
                r
            }
            S::End(r) => {
                a[n] = 0x0F;
                n += 1;
                tail = r;
                r
            }
        };
        let mut j = 0;
        while j < fill {
            a[n] = k::any();
            n += 1;
            j += 1;
        }
        i += 1;
    }
    unsafe { EAT = [0; 64] };
    let mut j = 0;
    while j < count {
        unsafe { EAT[n - starts[j]] = sizes[j] as u8 };
        j += 1;
    }
    let a = &a[..n];
    let mut input = Bytes::new(a);
    let r = Frame::parse(&mut input);
    match r {
        Ok(f) => {
            assert!(ok, "frame: an undecodable record rejects the frame");
            assert!(f.more_data_follows == more, "frame: more data announced exactly by 0x1F");
            assert!(f.records.len() == count, "frame: every record is reported");
            let mut i = 0;
            while i < count {
                assert!(f.records[i].0 == n - starts[i], "frame: records in order, each at its own position");
                i += 1;
            }
            assert!(f.manufacturer_specific.len() == tail, "frame: all data behind the marker is manufacturer specific");
            let mut i = 0;
            while i < tail {
                assert!(f.manufacturer_specific[i] == a[n - tail + i], "frame: manufacturer specific data is verbatim");
                i += 1;
            }
            assert!(input.len() == 0, "frame: consumes the whole input");
            core::mem::forget(f);
        }
        Err(e) => {
            core::mem::forget(e);
            assert!(!ok, "frame: a well-formed frame is accepted");
        }
    }
}
fn firsts(lo: u8, hi: u8) {
    let mut b = lo;
    loop {
        if b != 0x1F && b != 0x0F && b != 0x2F {
            shape(&[S::R(2)], b);
        }
        if b == hi {
            break;
        }
        b += 1;
    }
}
pub mod shapes;
pub use shapes::*;
