//! C20: V2 sub-account grants and state.
use crate::nd::*;
use swig_state::{
    action::{sub_account_v2::*, Action, ActionLoader, Actionable, Permission},
    sub_account_v2::SubAccountV2,
    IntoBytes, Transmutable, TransmutableMut,
};

harnesses! {
    /// bound: every grant id and request of 0..=8 bytes #nopanic
    [9, 9] fn c20_match() {
        let id: u32 = any();
        let req: [u8; 8] = any();
        let n = upto(8);
        let e = n == 4 && rd32(&req, 0) == id;
        chk!(SubAccountV2All::new(id).match_data(&req[..n]) == e, "umbrella grant");
        chk!(SubAccountV2Sign::new(id).match_data(&req[..n]) == e, "sign grant");
        chk!(SubAccountV2Withdraw::new(id).match_data(&req[..n]) == e, "withdraw grant");
        chk!(SubAccountV2Toggle::new(id).match_data(&req[..n]) == e, "toggle grant");
        wit!(e && id > 0xffffff, "match");
        let b: Al<8> = Al(any());
        let i = rd32(&b.0, 0) == rd32(&req, 0);
        macro_rules! stored { ($t:ty) => { match unsafe { <$t>::load_unchecked(&b.0) } {
            Ok(g) => chk!(g.match_data(&req[..4]) == i, "a stored grant names its first four bytes"),
            Err(_) => chk!(false, "an eight-byte grant loads"),
        } } }
        stored!(SubAccountV2All);
        stored!(SubAccountV2Sign);
        stored!(SubAccountV2Withdraw);
        stored!(SubAccountV2Toggle);
        chk!(SubAccountV2All::TYPE == Permission::SubAccountV2All && SubAccountV2Sign::TYPE == Permission::SubAccountV2Sign
            && SubAccountV2Withdraw::TYPE == Permission::SubAccountV2Withdraw && SubAccountV2Toggle::TYPE == Permission::SubAccountV2Toggle
            && SubAccountV2Create::TYPE == Permission::SubAccountV2Create, "each grant has its own kind");
        chk!(SubAccountV2All::REPEATABLE && SubAccountV2Sign::REPEATABLE && SubAccountV2Withdraw::REPEATABLE && SubAccountV2Toggle::REPEATABLE && !SubAccountV2Create::REPEATABLE, "scoped grants are looked up by target");
    }
    /// bound: every 72-byte state #nopanic
    [2, 2] fn c20_state() {
        let mut b: Al<72> = Al(any());
        let o = b;
        let on: bool = any();
        match unsafe { SubAccountV2::load_mut_unchecked(&mut b.0) } {
            Ok(s) => {
                chk!(s.check_discriminator().is_ok() == (o.0[0] == 2), "only the V2 marker is accepted");
                match s.is_enabled() {
                    Ok(e) => chk!(o.0[3] <= 1 && e == (o.0[3] == 1), "enabled means one"),
                    Err(_) => chk!(o.0[3] > 1, "an enabled byte of zero or one is read"),
                }
                chk!(s.bump == o.0[1] && s.asset_bump == o.0[2] && s.subacc_id == rd32(&o.0, 4) && w(&s.swig_id, 24) == w(&o.0, 32) && w(&s.sub_account, 24) == w(&o.0, 64), "field placement");
                s.set_enabled(on);
                chk!(s.is_enabled() == Ok(on), "the switch takes effect");
            }
            Err(_) => chk!(false, "a 72-byte state loads"),
        }
        let i = idx(72);
        chk!(b.0[i] == if i == 3 { on as u8 } else { o.0[i] }, "toggling changes only the enabled byte");
        let n = upto(71);
        chk!(unsafe { SubAccountV2::load_unchecked(&b.0[..n]) }.is_err(), "a short state is rejected");
        wit!(o.0[0] == 2 && o.0[3] == 0 && on, "enable");
        let f = SubAccountV2::new(o.0[1], o.0[2], rd32(&o.0, 4), any(), any());
        chk!(f.check_discriminator().is_ok() && f.is_enabled() == Ok(true) && f.bump == o.0[1] && f.asset_bump == o.0[2] && f.subacc_id == rd32(&o.0, 4), "a new state is enabled");
        match f.into_bytes() {
            Ok(x) => {
                let j = idx(32);
                chk!(x.len() == 72 && x[0] == 2 && x[8 + j] == f.swig_id[j] && x[40 + j] == f.sub_account[j], "state encoding");
            }
            Err(_) => chk!(false, "a state encodes"),
        }
    }
    /// bound: every pair of one kind, every 32-bit target
    [8, 8] fn c20_duplicate_pairs() {
        for x in 0..6u16 {
            list([kind(x), kind(x), 0], 2);
            list([kind(x), kind(1 + x % 5), 0], 2);
        }
    }
    /// bound: triples x y x of V2 grants with y unrelated, x or the next kind (thorough: any kind), every 32-bit target @timeout=700
    [8, 8] fn c20_duplicate_triples() {
        for x in 1..6u16 {
            if cfg!(feature = "thorough") {
                for y in 0..6u16 {
                    list([kind(x), kind(y), kind(x)], 3);
                }
            } else {
                list([kind(x), kind(0), kind(x)], 3);
                list([kind(x), kind(x), kind(x)], 3);
                list([kind(x), kind(1 + x % 5), kind(x)], 3);
            }
        }
    }
}
fn kind(x: u16) -> u16 {
    if x == 0 { 7 } else { 21 + x }
}
fn list(k: [u16; 3], m: usize) {
    let mut b: Al<48> = Al([0; 48]);
    let id: [u32; 3] = any();
    let mut n = 0;
    for i in 0..3 {
        if i < m {
            wr16(&mut b.0, n, k[i]);
            if k[i] > 22 {
                wr16(&mut b.0, n + 2, 8);
                wr32(&mut b.0, n + 8, id[i]);
                n += 16;
            } else {
                n += 8;
            }
        }
    }
    let eq = |i: usize, j: usize| k[i] == k[j] && (k[i] == 22 || (k[i] > 22 && id[i] == id[j]));
    let dup = eq(0, 1) || (m == 3 && (eq(0, 2) || eq(1, 2)));
    let r = ActionLoader::reject_duplicate_v2_scoped(&b.0[..n]);
    chk!(r.is_err() == dup, "a list is refused exactly if it grants the same V2 permission twice");
    wit!(dup && k[0] > 22, "duplicate");
    wit!(!dup && id[0] == id[1] && k[0] > 22 && k[1] > 22, "same id, different operations");
    let _ = Action::LEN;
}
