//! C09: destination-bound SOL and token allowances.
use crate::nd::*;
use swig_state::action::{
    sol_destination_limit::SolDestinationLimit, token_destination_limit::TokenDestinationLimit, Actionable,
};

const STEPS: usize = tier!(3, 6);
macro_rules! charges {
    ($a:ident, $same:expr) => {{
        let start: u64 = $a.amount;
        let mut spent: u128 = 0;
        let mut refused = false;
        let mut i = 0;
        while i < STEPS {
            let before = $a.amount;
            let x: u64 = any();
            let ok = $a.run(x).is_ok();
            chk!(ok == (x <= before), "a charge succeeds exactly when it fits in what remains");
            chk!($a.amount == if ok { before - x } else { before }, "the remainder falls by exactly what was granted");
            if ok {
                spent += x as u128;
            } else {
                refused = true;
            }
            chk!($same, "a charge changes nothing but the remainder");
            chk!(spent <= start as u128, "the total charged never exceeds the allowance");
            i += 1;
        }
        wit!(refused && spent > 0, "granted and refused in one history");
    }};
}

harnesses! {
    /// bound: every destination and allowance, every sequence of 3 (quick) / 6 (thorough) charges of any u64 amount
    [4, 7] fn c09_sol() {
        let d: [u8; 32] = any();
        let mut a = SolDestinationLimit { destination: d, amount: any() };
        charges!(a, eq32(&a.destination, &d));
    }
    /// bound: every stored destination, every request of 0..=72 bytes
    [2, 2] fn c09_sol_match() {
        let a = SolDestinationLimit { destination: any(), amount: any() };
        let req: [u8; 72] = any();
        let n = upto(72);
        let mut r = [0u8; 32];
        r.copy_from_slice(&req[..32]);
        let same = eq32(&r, &a.destination);
        chk!(a.match_data(&req[..n]) == (n >= 32 && same), "applies exactly to its own destination");
        chk!(a.matches_destination(&r) == same, "matches exactly its own destination");
        wit!(n == 32 && same, "match");
        wit!(n == 32 && !same, "mismatch");
    }
    /// bound: every mint, destination and allowance, every sequence of 3 (quick) / 6 (thorough) charges of any u64 amount
    [4, 7] fn c09_token() {
        let d: [u8; 32] = any();
        let m: [u8; 32] = any();
        let mut a = TokenDestinationLimit { token_mint: m, destination: d, amount: any() };
        charges!(a, eq32(&a.destination, &d) && eq32(&a.token_mint, &m));
    }
    /// bound: every stored mint and destination, every request of 0..=72 bytes
    [2, 2] fn c09_token_match() {
        let a = TokenDestinationLimit { token_mint: any(), destination: any(), amount: any() };
        let req: [u8; 72] = any();
        let n = upto(72);
        let mut m = [0u8; 32];
        m.copy_from_slice(&req[..32]);
        let mut r = [0u8; 32];
        r.copy_from_slice(&req[32..64]);
        let same = eq32(&r, &a.destination) && eq32(&m, &a.token_mint);
        chk!(a.match_data(&req[..n]) == (n >= 64 && same), "applies exactly to its own mint and destination");
        chk!(a.matches_mint_and_destination(&m, &r) == same, "matches exactly its own mint and destination");
        wit!(n == 64 && same, "match");
        wit!(n == 64 && eq32(&r, &a.destination) && !same, "other mint");
    }
}
