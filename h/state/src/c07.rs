//! C07: SOL, token and stake allowances.
use crate::nd::*;
use swig_state::action::{sol_limit::SolLimit, stake_limit::StakeLimit, token_limit::TokenLimit};

/// Number of consecutive charges explored (each of any amount).
const STEPS: usize = tier!(3, 6);

macro_rules! charges {
    ($a:ident, $amt:ident, $same:expr) => {{
        let start: u64 = $a.$amt;
        let mut spent: u128 = 0;
        let mut some_refused = false;
        let mut some_granted = false;
        let mut i = 0;
        while i < STEPS {
            let before = $a.$amt;
            let x: u64 = any();
            let ok = $a.run(x).is_ok();
            chk!(ok == (x <= before), "a charge succeeds exactly when it fits in what remains");
            if ok {
                spent += x as u128;
                chk!($a.$amt == before - x, "a granted charge lowers the remainder by exactly the amount");
                some_granted = some_granted || x > 0;
            } else {
                some_refused = true;
                chk!($a.$amt == before, "a refused charge leaves the remainder unchanged");
            }
            chk!($same, "a charge changes nothing but the remainder");
            chk!(spent <= start as u128, "the total charged never exceeds the allowance");
            chk!(spent + $a.$amt as u128 == start as u128, "charged plus remaining is the original allowance");
            i += 1;
        }
        wit!(some_granted && some_refused, "granted and refused in one history");
        wit!(start > 0 && $a.$amt == 0 && some_granted, "spent to zero");
    }};
}

harnesses! {
    /// bound: every allowance (u64) and every sequence of 3 (quick) / 6 (thorough) charges of any u64 amount
    [4, 7] fn c07_sol() {
        let mut a = SolLimit { amount: any() };
        charges!(a, amount, true);
    }
    /// bound: as c07_sol, every mint
    [4, 7] fn c07_token() {
        let mint: [u8; 32] = any();
        let mut a = TokenLimit { token_mint: mint, current_amount: any() };
        charges!(a, current_amount, eq32(&a.token_mint, &mint));
    }
    /// bound: as c07_sol
    [4, 7] fn c07_stake() {
        let mut a = StakeLimit { amount: any() };
        charges!(a, amount, true);
    }
}
