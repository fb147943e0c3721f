//! C11: program-scope allowances and the metered balance.
use crate::nd::*;
use swig_state::action::program_scope::*;

fn scope(ty: u64) -> ProgramScope {
    let mut s = ProgramScope::new_basic(any(), any());
    s.scope_type = ty;
    s.numeric_type = any();
    s.current_amount = any();
    s.limit = any();
    s.window = any();
    s.last_reset = any();
    s
}
fn frame(s: &ProgramScope, o: &ProgramScope) -> bool {
    s.limit == o.limit && s.window == o.window && s.scope_type == o.scope_type && s.numeric_type == o.numeric_type
        && s.balance_field_start == o.balance_field_start && s.balance_field_end == o.balance_field_end
        && eq32(&s.program_id, &o.program_id) && eq32(&s.target_account, &o.target_account)
}
fn copy(s: &ProgramScope) -> ProgramScope {
    let mut c = ProgramScope::new_basic(s.program_id, s.target_account);
    c.scope_type = s.scope_type;
    c.numeric_type = s.numeric_type;
    c.current_amount = s.current_amount;
    c.limit = s.limit;
    c.window = s.window;
    c.last_reset = s.last_reset;
    c.balance_field_start = s.balance_field_start;
    c.balance_field_end = s.balance_field_end;
    c
}
/// reference sum: None when it does not fit in the limit
fn fits(cur: u128, x: u128, lim: u128) -> bool {
    cur <= lim && x <= lim - cur
}

harnesses! {
    /// bound: kinds basic, limit and every undefined kind below 256; two charges of any u128 amount; limit below u128::MAX
    [3, 3] fn c11_limit() {
        let ty: u8 = any();
        assume(ty != 2);
        let mut s = scope(ty as u64);
        assume(s.limit < u128::MAX);
        let o = copy(&s);
        let mut i = 0;
        while i < 2 {
            let cur = s.current_amount;
            let x: u128 = any();
            let slot: Option<u64> = if any() { Some(any()) } else { None };
            let ok = s.run(x, slot).is_ok();
            match ty {
                0 => {
                    chk!(ok, "the basic kind admits any amount");
                    chk!(s.current_amount == cur, "the basic kind meters nothing");
                }
                1 => {
                    chk!(ok == fits(cur, x, s.limit), "a charge is admitted exactly when the running total stays within the limit");
                    chk!(s.current_amount == if ok { cur + x } else { cur }, "the running total grows by exactly the admitted amount");
                }
                _ => {
                    chk!(!ok, "an undefined kind admits nothing");
                    chk!(s.current_amount == cur, "an undefined kind meters nothing");
                }
            }
            chk!(frame(&s, &o) && s.last_reset == o.last_reset, "a charge changes only the running total");
            i += 1;
        }
        wit!(ty == 1 && s.current_amount == s.limit && o.current_amount < s.limit, "limit used up");
    }
    /// bound: one charge of any u128 amount; slots below 2^20 (quick) / 2^28 (thorough), windows 1..2^12 / 2^20; limit below u128::MAX
    [2, 2] fn c11_recurring() {
        let mut s = scope(2);
        assume(s.limit < u128::MAX);
        assume(s.window > 0 && s.window <= tier!(0xfff, 0xf_ffff));
        assume(s.last_reset <= tier!(0xf_ffff, 0xfff_ffff));
        let slot: u64 = any();
        assume(slot <= tier!(0xf_ffff, 0xfff_ffff));
        let o = copy(&s);
        let x: u128 = any();
        let given: bool = any();
        let ok = s.run(x, if given { Some(slot) } else { None }).is_ok();
        let elapsed = slot > o.last_reset && slot - o.last_reset > o.window;
        let base = if elapsed { 0 } else { o.current_amount };
        chk!(ok == (given && fits(base, x, o.limit)), "a charge is admitted exactly when the window's total stays within the limit");
        if ok {
            chk!(s.current_amount == base + x, "the window's total grows by exactly the admitted amount");
        }
        if !elapsed || !given {
            chk!(s.last_reset == o.last_reset, "the window does not move before it has elapsed");
            if !ok {
                chk!(s.current_amount == o.current_amount, "a refused charge adds nothing");
            }
        }
        if ok && elapsed {
            chk!(s.last_reset <= slot && slot - s.last_reset < o.window && s.last_reset >= o.last_reset, "the new window contains the current slot");
        }
        if !ok {
            chk!(s.current_amount <= o.current_amount, "a refused charge never raises the total");
        }
        chk!(frame(&s, &o), "limit, window, program and target never change");
        wit!(ok && elapsed && o.current_amount > 0 && x > 0, "new window");
        wit!(ok && !elapsed && x > 0 && o.current_amount > 0, "same window");
        wit!(!ok && given, "refused");
    }
    /// #nopanic bound: account data up to 40 bytes, every u64 field start, end and numeric type
    [2, 2] fn c11_balance() {
        let mut s = ProgramScope::new_basic([0; 32], [0; 32]);
        s.numeric_type = any();
        s.balance_field_start = any();
        s.balance_field_end = any();
        let data: [u8; 40] = any();
        let n = upto(40);
        let (st, en) = (s.balance_field_start, s.balance_field_end);
        let w: u64 = match s.numeric_type as u8 { 0 => 1, 1 => 4, 2 => 8, 3 => 16, _ => 0 };
        let r = s.read_account_balance(&data[..n]);
        if st == 0 && en == 0 {
            chk!(matches!(r, Ok(0)), "no field configured");
        } else {
            let good = w != 0 && st < en && en <= n as u64 && en - st == w;
            chk!(r.is_ok() == good, "a value is read exactly when the field of the declared width lies inside the data");
            if good {
                let mut v: u128 = 0;
                let at = |i: u64| if i < w { (data[(st + i) as usize] as u128) << (8 * i as u32) } else { 0 };
                v |= at(0) | at(1) | at(2) | at(3) | at(4) | at(5) | at(6) | at(7);
                v |= at(8) | at(9) | at(10) | at(11) | at(12) | at(13) | at(14) | at(15);
                match r {
                    Ok(x) => chk!(x == v, "the value is the little-endian number in the field"),
                    Err(_) => {}
                }
            }
            wit!(good && w == 8 && st > 0, "8-byte field");
            wit!(!good && w == 8 && en == n as u64 + 1, "field past the end");
        }
    }
}
