//! C10: recurring destination-bound SOL and token allowances.
use crate::nd::*;
use swig_state::action::{
    sol_recurring_destination_limit::SolRecurringDestinationLimit,
    token_recurring_destination_limit::TokenRecurringDestinationLimit, Actionable,
};

const STEPS: usize = tier!(3, 5);
macro_rules! history {
    ($a:ident, $same:expr) => {{
        let lim = $a.recurring_amount;
        let win = $a.window;
        assume($a.current_amount <= lim);
        let mut slot: u64 = any();
        assume($a.last_reset <= slot);
        // granted since the last refill
        let mut since: u128 = (lim - $a.current_amount) as u128;
        let mut refilled_at = $a.last_reset;
        let mut refill = false;
        let mut refused = false;
        let mut i = 0;
        while i < STEPS {
            let (last, cur) = ($a.last_reset, $a.current_amount);
            let x: u64 = any();
            let elapsed = slot - last > win;
            let avail = if elapsed && x <= lim { lim } else { cur };
            let ok = $a.run(x, slot).is_ok();
            chk!(ok == (x <= avail), "a charge succeeds exactly when it fits in what is left");
            if ok {
                if elapsed {
                    chk!(slot - refilled_at > win, "refilled only when more than one full window has elapsed since the last refill");
                    refilled_at = slot;
                    since = 0;
                    refill = true;
                    chk!($a.last_reset > last && $a.last_reset <= slot, "a refill moves the window forward, not past now");
                } else {
                    chk!($a.last_reset == last, "no refill before a full window has elapsed");
                }
                since += x as u128;
                chk!($a.current_amount == avail - x, "the remainder falls by exactly the amount");
            } else {
                refused = true;
                chk!($a.last_reset == last && $a.current_amount == cur, "a refused charge changes nothing");
            }
            chk!(since <= lim as u128, "no more than the recurring amount between two refills");
            chk!($a.recurring_amount == lim && $a.window == win, "recurring amount and window never change");
            chk!($same, "the destination never changes");
            let d: u64 = any();
            assume(d <= u64::MAX - slot);
            slot += d;
            i += 1;
        }
        wit!(refill && refused, "refilled and refused in one history");
    }};
}

harnesses! {
    /// bound: every state with remainder <= recurring amount and last refill not in the future, every sequence of 3 (quick) / 5 (thorough) charges at non-decreasing u64 slots
    [4, 6] fn c10_sol() {
        let d: [u8; 32] = any();
        let mut a = SolRecurringDestinationLimit { destination: d, recurring_amount: any(), window: any(), last_reset: any(), current_amount: any() };
        history!(a, eq32(&a.destination, &d));
    }
    /// bound: as c10_sol, every mint
    [4, 6] fn c10_token() {
        let d: [u8; 32] = any();
        let m: [u8; 32] = any();
        let mut a = TokenRecurringDestinationLimit { token_mint: m, destination: d, recurring_amount: any(), window: any(), last_reset: any(), current_amount: any() };
        history!(a, eq32(&a.destination, &d) && eq32(&a.token_mint, &m));
    }
    /// bound: every stored destination and mint, every request of 0..=72 bytes
    [2, 2] fn c10_match() {
        let a = SolRecurringDestinationLimit { destination: any(), recurring_amount: any(), window: any(), last_reset: any(), current_amount: any() };
        let t = TokenRecurringDestinationLimit { token_mint: any(), destination: any(), recurring_amount: any(), window: any(), last_reset: any(), current_amount: any() };
        let req: [u8; 72] = any();
        let n = upto(72);
        let mut m = [0u8; 32];
        m.copy_from_slice(&req[..32]);
        let mut r = [0u8; 32];
        r.copy_from_slice(&req[32..64]);
        chk!(a.match_data(&req[..n]) == (n >= 32 && eq32(&m, &a.destination)), "SOL: applies exactly to its own destination");
        let same = eq32(&r, &t.destination) && eq32(&m, &t.token_mint);
        chk!(t.match_data(&req[..n]) == (n >= 64 && same), "token: applies exactly to its own mint and destination");
        wit!(n == 64 && same, "match");
        wit!(n == 64 && eq32(&m, &t.token_mint) && !same, "other destination");
    }
    /// bound: one charge in every state, including a last refill in the future (which must not refill)
    [2, 2] fn c10_future() {
        let mut a = SolRecurringDestinationLimit { destination: [0; 32], recurring_amount: any(), window: any(), last_reset: any(), current_amount: any() };
        let mut t = TokenRecurringDestinationLimit { token_mint: [0; 32], destination: [0; 32], recurring_amount: a.recurring_amount, window: a.window, last_reset: a.last_reset, current_amount: a.current_amount };
        let slot: u64 = any();
        assume(a.last_reset > slot);
        let (cur, last) = (a.current_amount, a.last_reset);
        let x: u64 = any();
        let ok = a.run(x, slot).is_ok();
        chk!(ok == (x <= cur), "SOL: no refill while the last refill lies ahead");
        chk!(a.current_amount == if ok { cur - x } else { cur } && a.last_reset == last, "SOL: exact charge");
        let ok = t.run(x, slot).is_ok();
        chk!(ok == (x <= cur), "token: no refill while the last refill lies ahead");
        chk!(t.current_amount == if ok { cur - x } else { cur } && t.last_reset == last, "token: exact charge");
        wit!(ok, "charged");
    }
}
