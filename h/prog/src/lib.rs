#![recursion_limit = "1024"]
#![cfg_attr(kani, feature(allocator_api))]
#[macro_use]
#[path = "../../common/nd.rs"]
pub mod nd;
#[path = "../../common/sys.rs"]
pub mod sys;
#[path = "../../common/acct.rs"]
pub mod acct;
#[path = "../../common/roles.rs"]
pub mod roles;
#[path = "../../common/wallet.rs"]
pub mod wallet;
pub mod edit;

#[path = "../../../build/gen/dead.rs"]
pub mod dead;
macro_rules! modules {
    ($($m:ident = $f:literal $p:literal),* $(,)?) => {
        $(#[cfg(feature = $f)] #[path = $p] pub mod $m;)*
        pub const MODS: &[&[(&str, fn())]] = &[$(#[cfg(feature = $f)] $m::ALL),*];
    };
}
modules! { c31 = "c31" "../../../build/gen/c31.rs", c32 = "c32" "../../../build/gen/c32.rs", c33 = "c33" "../../../build/gen/c33.rs", c34 = "c34" "../../../build/gen/c34.rs", c35 = "c35" "../../../build/gen/c35.rs", c36 = "c36" "../../../build/gen/c36.rs", c37 = "c37" "../../../build/gen/c37.rs" }

#[cfg(not(kani))]
#[allow(static_mut_refs)]
pub fn run(name: &str, bytes: Vec<u8>) {
    for m in MODS {
        for (n, f) in m.iter() {
            if *n == name {
                unsafe { nd::STREAM = bytes };
                f();
                for h in unsafe { nd::HITS.iter() } {
                    println!("HIT {h}");
                }
                println!("REPLAY-PASS");
                return;
            }
        }
    }
    println!("NO-SUCH-HARNESS");
    std::process::exit(4)
}
