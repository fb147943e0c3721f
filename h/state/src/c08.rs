//! C08: recurring SOL, token and stake allowances.
use crate::nd::*;
use swig_state::action::{
    sol_recurring_limit::SolRecurringLimit, stake_recurring_limit::StakeRecurringLimit,
    token_recurring_limit::TokenRecurringLimit,
};

/// One charge, every state and request: exact transition.
macro_rules! step {
    ($a:ident, $lim:ident, $cur:ident, $slotmax:expr, $winmax:expr) => {{
        let (lim, win, last, cur) = ($a.$lim, $a.window, $a.last_reset, $a.$cur);
        assume(cur <= lim);
        assume(win > 0 && win <= $winmax);
        assume(last <= $slotmax);
        let x: u64 = any();
        let slot: u64 = any();
        assume(slot <= $slotmax);
        let elapsed = slot > last && slot - last > win;
        let avail = if elapsed { lim } else { cur };
        let ok = $a.run(x, slot).is_ok();
        chk!(ok == (x <= avail), "a charge succeeds exactly when it fits in what is left of the window");
        chk!($a.$lim == lim && $a.window == win, "recurring amount and window never change");
        if !ok {
            chk!($a.$cur == cur && $a.last_reset == last, "a refused charge changes nothing");
        } else {
            chk!($a.$cur == avail - x, "a granted charge lowers the remainder by exactly the amount");
            if elapsed {
                chk!($a.last_reset <= slot && slot - $a.last_reset < win, "the new window contains the current slot");
                chk!($a.last_reset >= last, "windows only move forward");
            } else {
                chk!($a.last_reset == last, "no refill before a full window has elapsed");
            }
        }
        chk!($a.$cur <= lim, "never refilled above the recurring amount");
        wit!(ok && elapsed && cur < x, "refilled and charged");
        wit!(!ok && elapsed, "refused although a window elapsed");
        wit!(ok && !elapsed && x > 0, "charged inside the window");
    }};
}

/// A history of charges at non-decreasing slots: the total granted inside any span of `window` slots that starts
/// right after a window boundary never exceeds the recurring amount.
macro_rules! history {
    ($a:ident, $lim:ident, $cur:ident, $n:expr) => {{
        let lim = $a.$lim;
        let win = $a.window;
        assume(win > 0);
        assume(lim <= 0xffff);
        assume($a.$cur == lim && $a.last_reset == 0);
        // the observed window (k*win, (k+1)*win]
        let k: u8 = any();
        let lo = k as u64 * win;
        let mut slot = 0u64;
        let mut total = 0u64;
        let mut i = 0;
        while i < $n {
            let d: u8 = any();
            slot += d as u64;
            let x: u16 = any();
            if $a.run(x as u64, slot).is_ok() && slot > lo && slot <= lo + win {
                total += x as u64;
            }
            chk!(total <= lim, "no more than the recurring amount is charged within one window");
            i += 1;
        }
        wit!(lim > 1 && total == lim && k > 0, "window used up");
    }};
}

harnesses! {
    /// bound: one charge, every amount and remainder (u64), slots below 2^20 (quick) / 2^28 (thorough), windows below 2^12 / 2^20
    [2, 2] fn c08_sol_step() {
        let mut a = SolRecurringLimit { recurring_amount: any(), window: any(), last_reset: any(), current_amount: any() };
        step!(a, recurring_amount, current_amount, tier!(0xf_ffff, 0xfff_ffff), tier!(0xfff, 0xf_ffff));
    }
    /// bound: as c08_sol_step, any mint
    [2, 2] fn c08_token_step() {
        let m: [u8; 32] = any();
        let mut a = TokenRecurringLimit { token_mint: m, window: any(), limit: any(), current: any(), last_reset: any() };
        step!(a, limit, current, tier!(0xf_ffff, 0xfff_ffff), tier!(0xfff, 0xf_ffff));
        chk!(eq32(&a.token_mint, &m), "the mint never changes");
    }
    /// bound: as c08_sol_step
    [2, 2] fn c08_stake_step() {
        let mut a = StakeRecurringLimit { recurring_amount: any(), window: any(), last_reset: any(), current_amount: any() };
        step!(a, recurring_amount, current_amount, tier!(0xf_ffff, 0xfff_ffff), tier!(0xfff, 0xf_ffff));
    }
    /// bound: histories of 3 (quick) / 4 (thorough) charges from the granted state, slots below 4*256, windows 1..=63, amounts below 2^16
    [4, 5] fn c08_sol_history() {
        let w: u8 = any();
        assume(w < 64);
        let l: u64 = any();
        let mut a = SolRecurringLimit { recurring_amount: l, window: w as u64, last_reset: 0, current_amount: l };
        history!(a, recurring_amount, current_amount, tier!(3, 4));
    }
    /// bound: as c08_sol_history
    [4, 5] fn c08_token_history() {
        let w: u8 = any();
        assume(w < 64);
        let l: u64 = any();
        let mut a = TokenRecurringLimit { token_mint: [0; 32], window: w as u64, limit: l, current: l, last_reset: 0 };
        history!(a, limit, current, tier!(3, 4));
    }
    /// bound: as c08_sol_history
    [4, 5] fn c08_stake_history() {
        let w: u8 = any();
        assume(w < 64);
        let l: u64 = any();
        let mut a = StakeRecurringLimit { recurring_amount: l, window: w as u64, last_reset: 0, current_amount: l };
        history!(a, recurring_amount, current_amount, tier!(3, 4));
    }
}
