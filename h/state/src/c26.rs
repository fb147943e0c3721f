//! C26: the shared guards accept exactly what they claim.
use crate::{acct::Acct, nd::*, sys::ENV};
use pinocchio::program_error::ProgramError;
use swig_assertions::*;

const E: ProgramError = ProgramError::Custom(77);
fn is(r: Result<(), ProgramError>, c: bool) -> bool {
    match r { Ok(()) => c, Err(e) => !c && e == E }
}
harnesses! {
    /// bound: byte strings of 0..=40 equal-length bytes, every content #nopanic
    [41, 41] fn c26_bytes() {
        let a: [u8; 40] = any();
        let b: [u8; 40] = any();
        let n = upto(40);
        let d = idx(40);
        let eq = check_bytes_match(&a[..n], &b[..n], n, E);
        if d < n && a[d] != b[d] {
            chk!(eq == Err(E), "a difference anywhere is refused with the caller's error");
            wit!(d == 32 && n == 33, "difference in a long tail");
        }
        if a == b {
            chk!(eq.is_ok(), "equal strings are accepted");
        }
        let mut c = a;
        if n > 0 && d < n {
            c[d] ^= 1;
            chk!(!sol_assert_bytes_eq(&a[..n], &c[..n], n), "a single differing bit is seen");
        }
    }
    /// bound: every account key, owner, flag, balance and data length #nopanic
    [34, 34] fn c26_account() {
        let mut a = Acct::<8> { borrow: 0xff, signer: any(), writable: any(), exec: any(), delta: 0, key: any(), owner: any(), lamports: any(), len: upto(8) as u64, data: any() };
        let i = a.info();
        let t: [u8; 32] = any();
        chk!(is(check_signer(&i, E), a.signer != 0), "signer");
        chk!(is(check_writable(&i, E), a.writable != 0), "writable");
        chk!(is(check_writable_signer(&i, E), a.writable != 0 && a.signer != 0), "writable signer");
        chk!(is(check_key_match(&i, &t, E), eq32(&a.key, &t)), "key");
        chk!(is(check_owner(&i, &t, E), eq32(&a.owner, &t)), "owner");
        chk!(is(check_system_owner(&i, E), eq32(&a.owner, &[0; 32])), "system owner");
        chk!(is(check_self_owned(&i, E), eq32(&a.owner, &swig_assertions::ID)), "self owner");
        chk!(is(check_zero_lamports(&i, E), a.lamports == 0), "no lamports");
        chk!(is(check_zero_data(&i, E), a.len == 0), "no data");
        chk!(is(check_zero_balance(&i, E), a.lamports == 0 && a.len == 0), "no balance");
        wit!(eq32(&a.owner, &swig_assertions::ID), "self-owned");
        wit!(eq32(&a.key, &t) && a.len == 0 && a.lamports == 0, "match");
        let h: u64 = any();
        unsafe { ENV.stack_height = any() };
        chk!(is(check_stack_height(h, E), h == unsafe { ENV.stack_height }), "stack height");
    }
    /// bound: every seed set of three 1..=8-byte seeds and a bump, every key, every derivation outcome #nopanic
    [33, 33] fn c26_pda() {
        let s: [[u8; 8]; 2] = any();
        let n = upto(8);
        let bump: [u8; 1] = any();
        let t: [u8; 32] = any();
        let pid: [u8; 32] = any();
        let out: [u8; 32] = any();
        let nb: u8 = any();
        unsafe {
            ENV.pda = out;
            ENV.pda_bump = nb;
            ENV.pda_err = any();
        }
        let fail = unsafe { ENV.pda_err };
        let m = eq32(&out, &t);
        match check_self_pda(&[&s[0][..n], &s[1], &bump], &t, E) {
            Ok(b) => {
                chk!(!fail && m, "an address is accepted only if the runtime derives it from these seeds");
                chk!(b == bump[0], "and the reported bump is the one supplied");
                wit!(n == 8, "derived");
            }
            Err(e) => chk!(fail || (!m && e == E), "an address derived from these seeds is accepted"),
        }
        unsafe {
            chk!(ENV.pda_seeds_n == 3 && eq32(&ENV.pda_prog, &swig_assertions::ID), "derivation uses this program and every seed");
            let q = &ENV.pda_cat;
            let i = idx(17);
            let e = if i < n { s[0][i] } else if i < n + 8 { s[1][i - n] } else { bump[0] };
            chk!(ENV.pda_cat_len == n + 9 && (i >= n + 9 || q[i] == e), "derivation uses exactly the supplied seeds");
            ENV.pda_err = false;
        }
        match check_any_pda(&[&s[0][..n], &s[1]], &t, &pid, E) {
            Ok(b) => {
                chk!(m && b == nb, "found address and bump");
            }
            Err(e) => chk!(!m && e == E, "an address found from these seeds is accepted"),
        }
        chk!(unsafe { eq32(&ENV.pda_prog, &pid) && ENV.pda_seeds_n == 2 }, "search uses the given program");
        match find_self_pda(&[&s[0][..n], &s[1]], &t, E) {
            Ok(b) => chk!(m && b == nb, "found own address and bump"),
            Err(e) => chk!(!m && e == E, "an own address found from these seeds is accepted"),
        }
        chk!(unsafe { eq32(&ENV.pda_prog, &swig_assertions::ID) && ENV.pda_seeds_n == 2 && ENV.pda_cat_len == n + 8 }, "search uses this program");
    }
}
