#![cfg_attr(kani, feature(allocator_api))]
#[macro_use]
#[path = "../../common/nd.rs"]
pub mod nd;
#[path = "../../common/sys.rs"]
pub mod sys;
#[path = "../../common/acct.rs"]
pub mod acct;
#[path = "../../common/roles.rs"]
pub mod roles;
#[cfg(feature = "client")]
pub mod map;

macro_rules! modules {
    ($($m:ident = $f:literal),* $(,)?) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub const MODS: &[&[(&str, fn())]] = &[$(#[cfg(feature = $f)] $m::ALL),*];
    };
}
modules! { c01 = "c01", c02 = "c02", c03 = "c03", c04 = "c04", c05 = "c05", c06 = "c06", c07 = "c07", c08 = "c08", c09 = "c09", c10 = "c10", c11 = "c11", c12 = "c12", c13 = "c13", c14 = "c14", c15 = "c15", c16 = "c16", c17 = "c17", c18 = "c18", c19 = "c19", c20 = "c20", c21 = "c21", c22 = "c22", c23 = "c23", c24 = "c24", c25 = "c25", c26 = "c26" }

#[cfg(not(kani))]
#[allow(static_mut_refs)]
pub fn run(name: &str, bytes: Vec<u8>) {
    for m in MODS {
        for (n, f) in m.iter() {
            if *n == name {
                unsafe { nd::STREAM = bytes };
                f();
                for h in unsafe { nd::HITS.iter() } {
                    println!("HIT {h}");
                }
                println!("REPLAY-PASS");
                return;
            }
        }
    }
    println!("NO-SUCH-HARNESS");
    std::process::exit(4)
}
