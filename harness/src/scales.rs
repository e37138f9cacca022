//! Scales as a user of the library would define them.
#![allow(dead_code)]
use momentous::Scale;

/// What a scale is meant to be.
pub trait Rate: Scale {
    const RATE: u32;
}
/// The library's own.
pub use momentous::Nanoseconds as Ns;
impl Rate for Ns {
    const RATE: u32 = 1_000_000_000;
}

macro_rules! scales {
    ($($name:ident $n:expr),*) => { $(
        #[derive(Debug, Clone, Copy, Ord, PartialOrd, Eq, PartialEq, Hash)]
        pub struct $name;
        impl Scale for $name { const TICKS_PER_SECOND: u32 = $n; }
        impl Rate for $name { const RATE: u32 = $n; }
    )* };
}
scales!(S1 1, S10 10, S60 60, S100 100, S1k 1000, S30k 30000, S1m 1_000_000, S1g 1_000_000_000);

