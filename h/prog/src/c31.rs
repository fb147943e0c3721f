//! C31: roles are added, removed and changed only by an authorised role.
//@ only: add_authority_v1 remove_authority_v1 update_authority_v1
#![allow(static_mut_refs)]
use crate::{acct::*, edit::*, nd::*, sys::*, wallet::*};
use pinocchio::account_info::AccountInfo;

/// A new Ed25519 role with one spending limit, added by `who`.
fn add(who: usize, tail: usize) {
    let mut r = req(who, [&[(FULL, 0)], &[(CLOSE, 0)]], tail, false);
    let mut d: Al<72> = Al(any());
    wr16(&mut d.0, 0, 1);
    wr16(&mut d.0, 2, 32);
    wr16(&mut d.0, 4, 16);
    wr16(&mut d.0, 6, 1);
    wr32(&mut d.0, 12, IDS[who]);
    wr16(&mut d.0, 48, 1);
    wr16(&mut d.0, 50, 8);
    let p = d.0[64];
    let ok = r.run(&d.0[..65]);
    wit!(ok || who == 2, "added");
    if ok {
        chk!(who < 2, "an absent role adds nothing");
        chk!(r.signed(who, p), "the acting role's own signer signed");
        chk!(r.manages(), "the acting role may manage authorities");
        chk!(r.is_wallet(), "only a wallet gets roles");
        let (a, b, e) = (&r.t.a.data, &r.before.data, r.t.end);
        let c = rd32(b, 36);
        chk!(rd16(a, 34) == 3 && rd32(a, 36) == c + 1, "one role and one id more");
        chk!(same(a, b, 0, 34) && same(a, b, 40, e), "nothing else changes");
        chk!(rd16(a, e) == 1 && rd16(a, e + 2) == 32 && rd16(a, e + 4) == 1 && rd32(a, e + 8) == c && rd32(a, e + 12) as usize == e - 48 + 64, "the new role's record");
        chk!(moved(a, e + 16, &d.0, 16, 32), "the new role's key");
        chk!(moved(a, e + 48, &d.0, 48, 4) && rd32(a, e + 52) == 16 && moved(a, e + 56, &d.0, 56, 8), "the new role's permission");
        chk!(r.t.a.len as usize == e + 64 + tail && moved(a, e + 64, b, e, tail), "the claimer entry follows the roles");
        chk!(r.money(e + 64 + tail), "the longer wallet is rent exempt");
    } else if !(who < 2 && r.signed(who, p) && r.manages()) {
        chk!(same(&r.t.a.data, &r.before.data, 0, r.t.end + tail), "a refused request changes nothing");
    }
}
/// `who` removes role `victim`.
fn remove(who: usize, victim: usize, tail: usize) {
    let mut r = req(who, [&[(FULL, 0)], &[(CLOSE, 0)]], tail, false);
    let mut d: Al<24> = Al(any());
    wr16(&mut d.0, 0, 2);
    wr32(&mut d.0, 8, IDS[who]);
    wr32(&mut d.0, 12, IDS[victim]);
    let p = d.0[16];
    let ok = r.run(&d.0[..17]);
    wit!(ok || who == 2 || victim != 1, "removed");
    if ok {
        chk!(who < 2 && victim < 2, "absent roles remove nothing and are not removed");
        chk!(victim != 0, "the root role is not removed");
        chk!(r.signed(who, p), "the acting role's own signer signed");
        chk!(who == victim || r.manages(), "the acting role may manage authorities, or leaves");
        chk!(r.is_wallet(), "only a wallet loses roles");
        let (a, b, e) = (&r.t.a.data, &r.before.data, r.t.at[1]);
        chk!(rd16(a, 34) == 1 && rd32(a, 36) == rd32(b, 36), "one role fewer, no new id");
        chk!(same(a, b, 0, 34) && same(a, b, 40, e), "the other role stays as it was");
        chk!(r.t.a.len as usize == e + tail && moved(a, e, b, r.t.end, tail), "the claimer entry follows the roles");
        chk!(r.money(e + tail), "the rent goes to the payer and the wallet stays rent exempt");
    } else if !(who < 2 && r.signed(who, p) && (who == victim || r.manages())) {
        chk!(same(&r.t.a.data, &r.before.data, 0, r.t.end + tail), "a refused request changes nothing");
    }
}
/// A Secp256k1 root role signs exactly the request: `d[..to]` is the request, the signature follows.
fn bound(op: u16, to: usize, fill: impl Fn(&mut [u8])) {
    let mut t = k1_wallet::<N>();
    let before = t.a;
    let mut payer = Acct::<0>::new(any(), SYS, lamports(), 0, []);
    payer.signer = 1;
    let mut sp = Acct::<8>::key(SYS);
    let infos: [AccountInfo; 3] = [t.a.info(), payer.info(), sp.info()];
    let mut c = classes::<3>();
    let mut d: Al<168> = Al(any());
    wr16(&mut d.0, 0, op);
    fill(&mut d.0);
    let ok = call(&infos, &mut c, &d.0[..to + 78]).is_ok();
    wit!(ok, "done");
    if ok {
        chk!(k1_bound(&before.data, &t.a.data, &d.0, 0, to, 3), "the signature covers the whole request and is used up");
    }
}
harnesses! {
    /// bound: added by the root role, no claimer; every permission kind, key, owner, balance, signer and new contents @fs=512
    [400, 400] fn c31_add_root() { add(0, 0) }
    /// bound: added by another role, claimer set; every permission kind, key, owner, balance, signer and new contents @fs=512
    [400, 400] fn c31_add_other() { add(1, 40) }
    /// bound: added in the name of a role that is not there @fs=512
    [400, 400] fn c31_add_absent() { add(2, 40) }
    /// bound: another role removed by the root role, claimer set @fs=512
    [400, 400] fn c31_remove_other() { remove(0, 1, 40) }
    /// bound: a role removes itself @fs=512
    [400, 400] fn c31_remove_self() { remove(1, 1, 40) }
    /// bound: the root role removed by itself and by another role @fs=512
    [400, 400] fn c31_remove_root() { remove(0, 0, 0); remove(1, 0, 0) }
    /// bound: removed in the name of a role that is not there; a role that is not there removed @fs=512
    [400, 400] fn c31_remove_absent() { remove(2, 1, 0); remove(0, 2, 0) }
    /// bound: updates that would leave no permission; updates of or by a role that is not there @fs=512
    [400, 400] fn c31_update_absent() stub(std::vec::Vec::extend_from_slice => heap::extend) {
        update(0, 1, [&[ADM], &[CLO]], 2, &[], &[20], &[], 0);
        update(2, 1, [&[ADM], &[CLO]], 1, &[LIM], &[], &[(true, 1, 8, 0)], 0);
        update(0, 2, [&[ADM], &[CLO]], 1, &[LIM], &[], &[(true, 1, 8, 0)], 0)
    }
    /// bound: a role added by a Secp256k1 root role; every signature, request content and digest @fs=512 #k1 @memcmp=68
    [400, 400] fn c31_signed_add() {
        bound(1, 64, |d| {
            wr16(d, 2, 32);
            wr16(d, 4, 16);
            wr16(d, 6, 1);
            wr32(d, 12, 0);
            wr16(d, 48, 1);
            wr16(d, 50, 8)
        })
    }
    /// bound: a role removed by a Secp256k1 root role; every signature, request content and digest @fs=512 #k1 @memcmp=68
    [400, 400] fn c31_signed_remove() {
        bound(2, 16, |d| {
            wr32(d, 8, 0);
            wr32(d, 12, 5)
        })
    }
    /// bound: a role updated by a Secp256k1 root role; every signature, request content and digest @fs=512 #k1 @memcmp=68
    [400, 400] fn c31_signed_update() {
        bound(3, 32, |d| {
            wr16(d, 2, 16);
            d[4] = 1;
            wr32(d, 8, 0);
            wr32(d, 12, 5);
            wr16(d, 16, 1);
            wr16(d, 18, 8)
        })
    }
    /// bound: a permission added to the root by another role; every permission kind, key, owner, balance, signer and content @fs=512
    [400, 400] fn c31_update_other() { update(1, 0, [&[LIM], &[CLO]], 4, &[STK], &[], &[(true, 10, 8, 0)], 0) }
}
