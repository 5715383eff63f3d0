//! Shared scaffolding for the verification crates.
//!
//! * `k`: the Kani intrinsics when compiled by Kani; a small replay shim when the
//!   same harness is compiled natively to replay a counterexample.
//! * `take_contract`: the loop-free contract of `winnow::binary::bits::take`,
//!   itself proved against winnow's real body by the `winnow_take_*` harnesses.
use core::ops::{AddAssign, Shl, Shr};
use winnow::error::ParserError;
use winnow::stream::{Stream, StreamIsPartial};

#[cfg(kani)]
pub mod k {
    pub use kani::{any, assume};
}

#[cfg(not(kani))]
pub mod k {
    //! Native replay of a verifier counterexample: `any()` hands out the recorded
    //! bytes in order (zeros once they run out), `assume` ends the run as "not
    //! reproduced" when violated.
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! { static BYTES: RefCell<VecDeque<u8>> = RefCell::new(VecDeque::new()); }
    pub trait Any {
        fn get() -> Self;
    }
    pub fn pop(n: usize) -> Vec<u8> {
        BYTES.with(|b| (0..n).map(|_| b.borrow_mut().pop_front().unwrap_or(0)).collect())
    }
    macro_rules! ints { ($($t:ty),*) => { $( impl Any for $t { fn get() -> Self {
        <$t>::from_le_bytes(pop(core::mem::size_of::<$t>()).try_into().unwrap()) } } )* } }
    ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64);
    impl Any for bool {
        fn get() -> Self {
            pop(1)[0] & 1 == 1
        }
    }
    pub fn any<T: Any>() -> T {
        T::get()
    }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY: assumption not met");
            std::process::exit(3);
        }
    }
    /// `main` of a replay binary: `replay HARNESS BYTE...` (decimal).
    pub fn replay(all: &[&[(&str, fn())]]) {
        let mut args = std::env::args().skip(1);
        let name = args.next().expect("harness name");
        BYTES.with(|b| b.borrow_mut().extend(args.map(|a| a.parse::<u8>().unwrap())));
        for (n, f) in all.iter().flat_map(|l| l.iter()) {
            if *n == name {
                f();
                println!("REPLAY: no violation");
                return;
            }
        }
        println!("REPLAY: no such harness");
        std::process::exit(4);
    }
}

/// `N` arbitrary bytes.
pub fn any_array<const N: usize>() -> [u8; N] {
    #[cfg(kani)]
    {
        kani::any()
    }
    #[cfg(not(kani))]
    {
        let v = k::pop(N);
        v.try_into().unwrap()
    }
}

/// An arbitrary input of at most `N` bytes: symbolic content, symbolic length.
pub fn any_bytes<const N: usize>() -> ([u8; N], usize) {
    let a = any_array::<N>();
    let n: usize = k::any();
    k::assume(n <= N);
    (a, n)
}

pub fn fmt_stub(_a: std::fmt::Arguments<'_>) -> String {
    String::new()
}

#[cfg(kani)]
pub fn take_contract<I, O, E: ParserError<(I, usize)>, const PARTIAL: bool>(
    bi: &mut (I, usize),
    count: usize,
) -> Result<O, E>
where
    I: StreamIsPartial + Stream<Token = u8> + Clone,
    O: From<u8> + AddAssign + Shl<usize, Output = O> + Shr<usize, Output = O>,
{
    if count == 0 {
        return Ok(0u8.into());
    }
    let end = bi.1 + count;
    if bi.0.eof_offset() * 8 < end {
        return Err(ParserError::from_input(bi));
    }
    if count > 24 {
        let hi: O = take_contract::<I, O, E, PARTIAL>(bi, count - 16)?;
        let lo: O = take_contract::<I, O, E, PARTIAL>(bi, 16)?;
        let mut o = hi << 16;
        o += lo;
        return Ok(o);
    }
    let mut cur = bi.0.clone();
    let b0 = cur.next_token().unwrap() as u32;
    let b1 = if end > 8 { cur.next_token().unwrap() as u32 } else { 0 };
    let b2 = if end > 16 { cur.next_token().unwrap() as u32 } else { 0 };
    let b3 = if end > 24 { cur.next_token().unwrap() as u32 } else { 0 };
    let v = (((b0 << 24) | (b1 << 16) | (b2 << 8) | b3) << bi.1) >> (32 - count);
    let o: O = if count <= 8 {
        (v as u8).into()
    } else {
        let mut o: O = O::from((v >> 8) as u8) << 8;
        o += O::from(v as u8);
        if count > 16 {
            let mut t = O::from((v >> 16) as u8) << 16;
            t += O::from((v >> 8) as u8) << 8;
            t += O::from(v as u8);
            t
        } else {
            o
        }
    };
    let _ = bi.0.next_slice(end / 8);
    bi.1 = end % 8;
    Ok(o)
}

/// Declares proof harnesses. Under Kani each is a `#[kani::proof]` whose body is
/// `assume(pre); call the real function; assert(post)`; natively each is a plain
/// function that `main` can run on recorded counterexample values.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$at:meta])* $name:ident [$unwind:literal] $body:block )*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            #[cfg_attr(kani, kani::stub(std::fmt::format, crate::support::fmt_stub))]
            #[cfg_attr(kani, kani::stub(winnow::binary::bits::take_, crate::support::take_contract))]
            $(#[$at])*
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const ALL: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    };
}

#[macro_export]
macro_rules! cover {
    ($c:expr, $m:literal) => {
        #[cfg(kani)]
        {
            kani::cover!($c, $m);
        }
    };
}
