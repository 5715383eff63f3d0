//! Trusted base reduction: the loop-free contract `take_contract`, which stands for
//! `winnow::binary::bits::take` everywhere else, is proved here against winnow's own
//! body (not replaced in these harnesses).
use crate::support::{any_array, k, take_contract};
use libmbus::parse::error::MBusError;
use winnow::{Bytes, Parser};

/// `C` bits from any bit offset of any input of up to `N` bytes.
fn same<O, const C: usize, const N: usize>()
where
    O: From<u8> + core::ops::AddAssign + core::ops::Shl<usize, Output = O> + core::ops::Shr<usize, Output = O> + PartialEq,
{
    let a = any_array::<N>();
    let n: usize = k::any();
    let at: usize = k::any();
    k::assume(n <= N && at < 8);
    // an offset into an empty input does not arise: `bits` starts at 0 and every
    // step that ends inside a byte leaves that byte in the input
    k::assume(n > 0 || at == 0);
    let mut x = (Bytes::new(&a[..n]), at);
    let mut y = (Bytes::new(&a[..n]), at);
    let r: Result<O, MBusError> = winnow::binary::bits::take(C).parse_next(&mut x);
    let s: Result<O, MBusError> = take_contract::<&Bytes, O, MBusError, false>(&mut y, C);
    match (r, s) {
        (Ok(r), Ok(s)) => {
            assert!(r == s, "take: same value");
            assert!(x.0.len() == y.0.len() && x.1 == y.1, "take: same position");
        }
        (Err(r), Err(s)) => {
            core::mem::forget(r);
            core::mem::forget(s);
        }
        (r, s) => {
            core::mem::forget(r);
            core::mem::forget(s);
            assert!(false, "take: same outcome");
        }
    }
}
macro_rules! takes { ($($name:ident $o:ty, $c:literal, $n:literal;)*) => { $(
    #[kani::proof]
    #[kani::unwind(7)]
    #[kani::stub(std::fmt::format, crate::support::fmt_stub)]
    pub fn $name() { same::<$o, $c, $n>() }
)* } }
takes! {
    take_0_u8 u8, 0, 2;
    take_1_u8 u8, 1, 2;
    take_2_u8 u8, 2, 2;
    take_3_u8 u8, 3, 2;
    take_4_u8 u8, 4, 2;
    take_5_u8 u8, 5, 2;
    take_6_u8 u8, 6, 2;
    take_7_u8 u8, 7, 2;
    take_8_u8 u8, 8, 3;
    take_1_u64 u64, 1, 2;
    take_4_u64 u64, 4, 2;
    take_4_i64 i64, 4, 2;
    take_2_u32 u32, 2, 2;
    take_1_u16 u16, 1, 2;
    take_4_usize usize, 4, 2;
    take_8_u64 u64, 8, 3;
    take_12_u64 u64, 12, 4;
    take_16_u64 u64, 16, 4;
    take_24_u64 u64, 24, 5;
    take_32_u64 u64, 32, 6;
    take_16_u32 u32, 16, 4;
}
