//! C05: a permission lookup finds a grant exactly when the role holds it.
use crate::nd::*;
use swig_state::{
    action::{
        all::All, all_but_manage_authority::AllButManageAuthority, close_swig_authority::CloseSwigAuthority,
        manage_authority::ManageAuthority, program::Program, program_all::ProgramAll, program_curated::ProgramCurated,
        program_scope::ProgramScope, replace_authority::ReplaceAuthority, sol_destination_limit::SolDestinationLimit,
        sol_limit::SolLimit, sol_recurring_destination_limit::SolRecurringDestinationLimit, sol_recurring_limit::SolRecurringLimit,
        stake_all::StakeAll, stake_limit::StakeLimit, stake_recurring_limit::StakeRecurringLimit, sub_account::SubAccount,
        sub_account_v2::*, token_destination_limit::TokenDestinationLimit, token_limit::TokenLimit,
        token_recurring_destination_limit::TokenRecurringDestinationLimit, token_recurring_limit::TokenRecurringLimit, Actionable,
        Permission,
    },
    authority::ed25519::ED25519Authority,
    role::{Position, Role, RoleMut},
    Transmutable,
};

/// How a stored grant of a kind is targeted.
#[derive(Clone, Copy, PartialEq)]
enum T {
    /// not targeted: the first grant of the kind is it
    Any,
    /// 32 stored bytes at this offset equal the first 32 requested
    Key(usize),
    /// 64 stored bytes at 0 equal the first 64 requested
    Key2,
    /// four stored bytes equal the request of exactly four bytes
    Id,
    /// the whole request is the stored key, or the request is empty and the key unassigned
    Sub,
}
const N: usize = 3;

fn eqn(a: &[u8], o: usize, b: &[u8], k: usize) -> bool {
    let mut i = 0;
    let mut r = true;
    while i < k {
        r &= w(a, o + i) == w(b, i);
        i += 8;
    }
    r
}

/// `f`: another kind stored with the same length; `m`: an empty kind different from `A`; `gap`: which
/// entry, if any, is the empty one.
fn look<A: Actionable<'static> + 'static, const B: usize>(t: T, len: usize, f: Permission, m: Permission, lo: usize, gap: usize) {
    let mut a: Al<B> = Al(any());
    let req: Al<72> = Al(any());
    let n = match t { T::Any => 0, T::Key(_) => 32 + upto(8), T::Key2 => 64 + upto(8), T::Id => upto(8), T::Sub => upto(40) };
    assume(n >= lo);
    // entries start at an odd multiple of 8, so that with one marker in between every body is 16-aligned
    let mut at = 8usize;
    let mut want = usize::MAX;
    for i in 0..N {
        let own: bool = any();
        let l = if i == gap { 0 } else { len };
        let ty = if i == gap { m } else if own { A::TYPE } else { f };
        wr16(&mut a.0, at, ty as u16);
        wr16(&mut a.0, at + 2, l as u16);
        wr32(&mut a.0, at + 4, (at + l) as u32);
        if i != gap && own && want == usize::MAX {
            let d = at + 8;
            let hit = match t {
                T::Any => true,
                T::Key(o) => eqn(&a.0, d + o, &req.0, 32),
                T::Key2 => eqn(&a.0, d, &req.0, 64),
                T::Id => n == 4 && rd32(&a.0, d) == rd32(&req.0, 0),
                T::Sub => (n == 32 && eqn(&a.0, d, &req.0, 32)) || (n == 0 && eqn(&a.0, d, &[0; 32], 32)),
            };
            if hit {
                want = d;
            }
        }
        at += 8 + l;
    }
    let base = a.0.as_ptr() as usize;
    let pos = Position::new(swig_state::authority::AuthorityType::Ed25519, 0, 32, N as u16, 0);
    let mut au = ED25519Authority { public_key: [0; 32] };
    let list: &'static mut [u8] = unsafe { core::mem::transmute(&mut a.0[8..at]) };
    let how: u8 = any();
    let r = match how {
        0 => {
            let role = Role { position: &pos, authority: &au, actions: list };
            let role: &'static Role<'static> = unsafe { core::mem::transmute(&role) };
            role.get_action::<A>(&req.0[..n]).map(|g| g.map(|g| g as *const A as usize))
        }
        1 => {
            let role = RoleMut { position: &pos, authority: &mut au, num_actions: N as u8, actions: list };
            let role: &'static RoleMut<'static> = unsafe { core::mem::transmute(&role) };
            role.get_action::<A>(&req.0[..n]).map(|g| g.map(|g| g as *const A as usize))
        }
        _ => RoleMut::get_action_mut::<A>(list, &req.0[..n]).map(|g| g.map(|g| g as *const A as usize)),
    };
    match r {
        Ok(Some(g)) => {
            chk!(want != usize::MAX, "a grant is reported only if the role holds it");
            chk!(want == usize::MAX || g == base + want, "the grant reported is the first stored one for that target");
            wit!(how == 0 && want > 16 + len, "later grant");
        }
        Ok(None) => chk!(want == usize::MAX, "a grant the role holds is found"),
        Err(_) => chk!(false, "a well-formed list is searched"),
    }
}
macro_rules! gaps { ($a:ty, $b:literal, $t:expr, $l:literal, $f:expr, $m:expr, $lo:literal) => { {
    if cfg!(feature = "thorough") && any() {
        if any() { look::<$a, { $b + 8 }>($t, $l, $f, $m, $lo, 0) } else { look::<$a, { $b + 8 }>($t, $l, $f, $m, $lo, 3) }
    } else {
        look::<$a, { $b + 8 }>($t, $l, $f, $m, $lo, 1)
    }
} } }
use Permission as P;

harnesses! {
    /// bound: every list of 1..=3 permissions drawn from the searched kind, another kind of its size and a marker #nopanic @fs=512
    [10, 10] fn c05_markers() {
        match any::<u8>() {
            0 => gaps!(All, 32, T::Any, 0, P::ManageAuthority, P::StakeAll, 0),
            1 => gaps!(ManageAuthority, 32, T::Any, 0, P::All, P::AllButManageAuthority, 0),
            2 => gaps!(AllButManageAuthority, 32, T::Any, 0, P::All, P::ManageAuthority, 0),
            3 => gaps!(CloseSwigAuthority, 32, T::Any, 0, P::All, P::ProgramAll, 0),
            4 => gaps!(ProgramAll, 32, T::Any, 0, P::All, P::StakeAll, 0),
            5 => gaps!(StakeAll, 32, T::Any, 0, P::All, P::ProgramAll, 0),
            _ => gaps!(SubAccountV2Create, 32, T::Any, 0, P::All, P::CloseSwigAuthority, 0),
        }
    }
    /// bound: as above, SOL and stake limits #nopanic @fs=512
    [10, 10] fn c05_limits() {
        match any::<u8>() {
            0 => gaps!(SolLimit, 56, T::Any, 8, P::StakeLimit, P::All, 0),
            1 => gaps!(StakeLimit, 56, T::Any, 8, P::SolLimit, P::StakeAll, 0),
            2 => gaps!(SolRecurringLimit, 128, T::Any, 32, P::StakeRecurringLimit, P::All, 0),
            3 => gaps!(StakeRecurringLimit, 128, T::Any, 32, P::SolRecurringLimit, P::StakeAll, 0),
            _ => gaps!(ProgramCurated, 128, T::Any, 32, P::SolRecurringLimit, P::ProgramAll, 0),
        }
    }
    /// bound: as above, program permission and every requested 32..=40 bytes #nopanic @fs=512
    [10, 10] fn c05_program() { gaps!(Program, 128, T::Key(0), 32, P::ProgramCurated, P::ProgramAll, 32) }
    /// bound: as above, program scope #nopanic @fs=512
    [10, 10] fn c05_scope() { look::<ProgramScope, 472>(T::Key(80), 144, P::Program, P::ProgramAll, 32, 1) }
    /// bound: as above, token limit #nopanic @fs=512
    [10, 10] fn c05_token() { gaps!(TokenLimit, 152, T::Key(0), 40, P::SolDestinationLimit, P::All, 32) }
    /// bound: as above, recurring token limit #nopanic @fs=512
    [10, 10] fn c05_token_recurring() { gaps!(TokenRecurringLimit, 224, T::Key(0), 64, P::SolRecurringDestinationLimit, P::All, 32) }
    /// bound: as above, SOL destination limit #nopanic @fs=512
    [10, 10] fn c05_sol_dest() { gaps!(SolDestinationLimit, 152, T::Key(0), 40, P::TokenLimit, P::All, 32) }
    /// bound: as above, recurring SOL destination limit #nopanic @fs=512
    [10, 10] fn c05_sol_rec_dest() { gaps!(SolRecurringDestinationLimit, 224, T::Key(0), 64, P::TokenRecurringLimit, P::All, 32) }
    /// bound: as above, token destination limit, every requested 64..=72 bytes #nopanic @fs=512
    [10, 10] fn c05_token_dest() { gaps!(TokenDestinationLimit, 248, T::Key2, 72, P::SubAccount, P::All, 64) }
    /// bound: as above, recurring token destination limit #nopanic @fs=512
    [10, 10] fn c05_token_rec_dest() { gaps!(TokenRecurringDestinationLimit, 320, T::Key2, 96, P::SubAccount, P::All, 64) }
    /// bound: as above, V1 sub-account, every requested 0..=40 bytes #nopanic @fs=512
    [10, 10] fn c05_sub_account() { gaps!(SubAccount, 248, T::Sub, 72, P::TokenDestinationLimit, P::All, 0) }
    /// bound: as above, replaceable role and V2 grants, every requested 0..=8 bytes #nopanic @fs=512
    [10, 10] fn c05_ids() {
        match any::<u8>() {
            0 => gaps!(ReplaceAuthority, 56, T::Id, 8, P::SubAccountV2All, P::All, 0),
            1 => gaps!(SubAccountV2All, 56, T::Id, 8, P::SubAccountV2Sign, P::SubAccountV2Create, 0),
            2 => gaps!(SubAccountV2Sign, 56, T::Id, 8, P::SubAccountV2All, P::SubAccountV2Create, 0),
            3 => gaps!(SubAccountV2Withdraw, 56, T::Id, 8, P::SubAccountV2Sign, P::SubAccountV2Create, 0),
            _ => gaps!(SubAccountV2Toggle, 56, T::Id, 8, P::SubAccountV2Withdraw, P::SubAccountV2Create, 0),
        }
    }
}
#[allow(dead_code)]
fn lens() -> usize { ProgramScope::LEN }
