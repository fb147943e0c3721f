//! Symbolic-input façade.  Under Kani every `any()` is a solver variable; in the native replay
//! binary the same calls pop the solver's values from a byte stream, so one harness body serves
//! both the solver and the confirmation run against the real code.
#![allow(dead_code, unused_macros, static_mut_refs)]

pub trait Nd: Sized {
    fn nd() -> Self;
}

#[cfg(kani)]
mod imp {
    use super::Nd;
    impl<T: kani::Arbitrary> Nd for T {
        fn nd() -> Self {
            kani::any()
        }
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use super::Nd;
    pub static mut STREAM: Vec<u8> = Vec::new();
    pub static mut POS: usize = 0;
    pub static mut HITS: Vec<&'static str> = Vec::new();
    fn byte() -> u8 {
        unsafe {
            let b = STREAM.get(POS).copied().unwrap_or(0);
            POS += 1;
            b
        }
    }
    macro_rules! int { ($($t:ty),*) => { $(impl Nd for $t {
        fn nd() -> Self {
            let mut b = [0u8; core::mem::size_of::<$t>()];
            for x in b.iter_mut() { *x = byte(); }
            <$t>::from_le_bytes(b)
        }
    })* } }
    int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64);
    impl Nd for bool {
        fn nd() -> Self {
            byte() & 1 == 1
        }
    }
    impl<T: Nd, const N: usize> Nd for [T; N] {
        fn nd() -> Self {
            core::array::from_fn(|_| T::nd())
        }
    }
    /// Exit code of a replay whose input does not satisfy the harness's assumptions.
    pub fn assume(c: bool) {
        if !c {
            println!("ASSUME-FAILED");
            std::process::exit(3)
        }
    }
}
pub use imp::*;

pub fn any<T: Nd>() -> T {
    T::nd()
}
/// An arbitrary value below or equal to `max`.
pub fn upto(max: usize) -> usize {
    let v: u8 = any();
    assume((v as usize) <= max);
    v as usize
}

macro_rules! chk {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::assert($c, concat!("VP: ", $m));
        #[cfg(not(kani))]
        if !($c) {
            panic!(concat!("VP: ", $m))
        }
    }};
}
macro_rules! wit {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        if $c {
            #[allow(static_mut_refs)]
            unsafe {
                crate::nd::HITS.push($m)
            }
        }
    }};
}
/// `harnesses!{ /// doc  [quick_unwind, thorough_unwind] fn name() { .. } .. }`
macro_rules! harnesses {
    ($( $(#[doc = $d:literal])* [$u:literal, $t:literal] fn $n:ident() $(stub($so:path => $sr:path))* $b:block )*) => {
        $( $(#[doc = $d])*
           #[cfg_attr(kani, kani::proof)]
           $(#[cfg_attr(kani, kani::stub($so, $sr))])*
           pub fn $n() { crate::sys::link(); $b } )*
        pub const ALL: &[(&str, fn())] = &[$((stringify!($n), $n as fn())),*];
    };
}
/// quick/thorough constant
macro_rules! tier {
    ($q:expr, $t:expr) => {
        if cfg!(feature = "thorough") { $t } else { $q }
    };
}

#[repr(C, align(16))]
#[derive(Clone, Copy)]
pub struct Al<const N: usize>(pub [u8; N]);

/// Unrolled 32-byte equality (avoids a solver-side loop).
#[inline(always)]
pub fn w(b: &[u8], i: usize) -> u64 {
    u64::from_le_bytes([
        b[i], b[i + 1], b[i + 2], b[i + 3], b[i + 4], b[i + 5], b[i + 6], b[i + 7],
    ])
}
#[inline(always)]
pub fn eq32(a: &[u8; 32], b: &[u8; 32]) -> bool {
    w(a, 0) == w(b, 0) && w(a, 8) == w(b, 8) && w(a, 16) == w(b, 16) && w(a, 24) == w(b, 24)
}
pub fn rd32(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]])
}
pub fn rd16(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes([b[o], b[o + 1]])
}
pub fn wr32(b: &mut [u8], o: usize, v: u32) {
    let x = v.to_le_bytes();
    b[o] = x[0];
    b[o + 1] = x[1];
    b[o + 2] = x[2];
    b[o + 3] = x[3];
}
pub fn wr64(b: &mut [u8], o: usize, v: u64) {
    wr32(b, o, v as u32);
    wr32(b, o + 4, (v >> 32) as u32);
}
pub fn wr16(b: &mut [u8], o: usize, v: u16) {
    let x = v.to_le_bytes();
    b[o] = x[0];
    b[o + 1] = x[1];
}
/// An arbitrary index below n (solver chooses), for "for every position" statements.
pub fn idx(n: usize) -> usize {
    let v: u16 = any();
    assume((v as usize) < n);
    v as usize
}
