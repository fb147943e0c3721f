//! C12: target-scoped permissions match only their own target.
use crate::nd::*;
use swig_state::action::{
    program::Program, program_curated::ProgramCurated, program_scope::ProgramScope, replace_authority::ReplaceAuthority,
    sub_account::SubAccount, token_limit::TokenLimit, token_recurring_limit::TokenRecurringLimit, Actionable,
};

/// The published curated set: System, SPL Token, Token-2022, Stake.
const CUR: [[u8; 32]; 4] = [
    [0; 32],
    [6, 221, 246, 225, 215, 101, 161, 147, 217, 203, 225, 70, 206, 235, 121, 172, 28, 180, 133, 237, 95, 91, 55, 145, 58, 140, 245, 133, 126, 255, 0, 169],
    [6, 221, 246, 225, 238, 117, 143, 222, 138, 60, 137, 215, 166, 35, 250, 133, 224, 81, 209, 114, 91, 157, 99, 29, 94, 145, 213, 104, 233, 4, 16, 238],
    [6, 161, 216, 23, 145, 55, 84, 42, 152, 52, 55, 189, 254, 42, 122, 178, 85, 86, 165, 18, 7, 142, 233, 0, 0, 0, 0, 0, 0, 0, 0, 0],
];

harnesses! {
    /// bound: every stored identifier, requests of 32..=40 bytes
    [2, 2] fn c12_ident() {
        let req: [u8; 40] = any();
        let n = upto(40);
        assume(n >= 32);
        let mut r = [0u8; 32];
        r.copy_from_slice(&req[..32]);
        let id: [u8; 32] = any();
        let other: [u8; 32] = any();
        let same = eq32(&r, &id);
        chk!(Program { program_id: id }.match_data(&req[..n]) == same, "program permission");
        chk!(TokenLimit { token_mint: id, current_amount: any() }.match_data(&req[..n]) == same, "token limit");
        chk!(TokenRecurringLimit { token_mint: id, window: any(), limit: any(), current: any(), last_reset: any() }.match_data(&req[..n]) == same, "recurring token limit");
        chk!(ProgramScope::new_basic(other, id).match_data(&req[..n]) == same, "program scope matches by target account");
        wit!(same && !eq32(&other, &id), "match");
        wit!(!same && w(&r, 0) == w(&id, 0) && w(&r, 8) == w(&id, 8) && w(&r, 16) == w(&id, 16) && r[30] == id[30], "late mismatch");
    }
    /// bound: requests of 0..=31 bytes
    [2, 2] fn c12_scope_short() {
        let req: [u8; 31] = any();
        let n = upto(31);
        chk!(!ProgramScope::new_basic(any(), any()).match_data(&req[..n]), "a short request matches no program scope");
        chk!(!ProgramCurated::new().match_data(&req[..n]), "a short request matches no curated program");
        wit!(n == 31, "short");
    }
    /// bound: every stored sub-account, requests of 0..=40 bytes
    [2, 2] fn c12_sub_account() {
        let id: [u8; 32] = any();
        let s = SubAccount::new(id);
        let req: [u8; 40] = any();
        let n = upto(40);
        let mut r = [0u8; 32];
        r.copy_from_slice(&req[..32]);
        let z = eq32(&id, &[0; 32]);
        chk!(s.match_data(&req[..n]) == ((n == 0 && z) || (n == 32 && eq32(&id, &r))), "a sub-account permission matches its own sub-account, or creation while unassigned");
        wit!(n == 32 && eq32(&id, &r), "match");
        wit!(n == 0 && z, "creation");
    }
    /// bound: every role id, requests of 0..=8 bytes
    [9, 9] fn c12_replace() {
        let id: u32 = any();
        let a = ReplaceAuthority::new(id);
        let req: [u8; 8] = any();
        let n = upto(8);
        chk!(a.match_data(&req[..n]) == (n == 4 && rd32(&req, 0) == id), "a replace permission matches its own role");
        wit!(n == 4 && rd32(&req, 0) == id, "match");
    }
    /// bound: every 32-byte program id
    [6, 6] fn c12_curated() {
        let p: [u8; 32] = any();
        let e = eq32(&p, &CUR[0]) || eq32(&p, &CUR[1]) || eq32(&p, &CUR[2]) || eq32(&p, &CUR[3]);
        chk!(ProgramCurated::is_curated_program(&p) == e, "exactly the published set is curated");
        chk!(ProgramCurated::new().match_data(&p) == e, "the curated permission matches exactly the published set");
        wit!(e && p[0] == 6 && p[4] == 238, "Token-2022");
        wit!(!e && p[0] == 6, "other program");
    }
}
