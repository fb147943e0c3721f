//! C32: closing a wallet and naming a rent claimer need the right permission.
//@ only: close_swig_v1 set_rent_claimer_v1
#![allow(static_mut_refs)]
use crate::{acct::*, nd::*, sys::*, wallet::*};
use pinocchio::account_info::AccountInfo;


/// `who`: 0 or 1 acts as that role, 2 as a role that is not there.  `claimer`: the wallet has one.
fn close(who: usize, claimer: bool) {
    let mut t = two::<256>([0, 5], [&[(FULL, 0)], &[(CLOSE, 0)]], if claimer { 40 } else { 0 });
    let kind: u16 = any();
    wr16(&mut t.a.data, t.at[who & 1] + 48, kind);
    if claimer {
        put_claimer(&mut t.a.data, t.end);
    }
    t.a.owner = any();
    let before = t.a;
    let mut wa = Acct::<0>::new(any(), SYS, lamports(), 0, []);
    let mut dst = Acct::<8>::new(any(), any(), lamports(), 8, any());
    let mut sp = Acct::<8>::key(any());
    let mut sg = Acct::<0>::key(any());
    sg.signer = any::<bool>() as u8;
    dst.signer = any::<bool>() as u8;
    let (wa0, dst0) = (wa, dst);
    let infos: [AccountInfo; 5] = [t.a.info(), wa.info(), dst.info(), sp.info(), sg.info()];
    let hds = [hd(&t.a), hd(&wa), hd(&dst), hd(&sp), hd(&sg)];
    let mut c = classes::<5>();
    let mut d = Al([0u8; 16]);
    wr16(&mut d.0, 0, 15);
    wr32(&mut d.0, 4, IDS[who]);
    let p: u8 = any();
    d.0[8] = p;
    unsafe {
        ENV.pda = any();
        ENV.pda_bump = any();
    }
    let ok = call(&infos, &mut c, &d.0[..9]).is_ok();
    wit!(ok || who == 2, "closed");
    if ok {
        chk!(who < 2, "an absent role closes nothing");
        let key = k32(&before.data, t.at[who & 1] + 16);
        chk!(signed(p, &hds, &key), "the role's own signer signed");
        chk!(kind == FULL || kind == MANAGE || kind == CLOSE, "the role holds a permission to close");
        chk!(eq32(&before.owner, &ID) && before.data[0] == 1, "only a wallet is closed");
        chk!(derived_wallet_address(&before.key, None) && eq32(&wa0.key, unsafe { &ENV.pda }), "the wallet address is this wallet's");
        if claimer {
            chk!(eq32(&dst0.key, &k32(&before.data, t.end + 8)), "the money goes to the rent claimer");
        }
        chk!(t.a.lamports == rent_exempt(1) && t.a.len == 1 && t.a.data[0] == 255, "the wallet is marked closed and keeps one byte's rent");
        let total = before.lamports as u128 + wa0.lamports as u128 + dst0.lamports as u128;
        chk!(wa.lamports == 0, "nothing stays with the wallet address");
        chk!(before.lamports < rent_exempt(1) || t.a.lamports as u128 + dst.lamports as u128 == total, "everything goes to the destination");
        let n = unsafe { CPI_N };
        chk!(n <= 1, "at most one transfer");
        if n == 1 {
            let x = unsafe { &CPI[0] };
            chk!(cat_is(&x.cat, x.cat_len, &before.key, Some(before.data[40])) && x.signers == 1, "only the wallet address signs");
        }
    }
}
/// Names a claimer on a wallet whose tail is `tail` bytes long.
fn claim(who: usize, tail: usize) {
    let mut t = two::<256>([0, 5], [&[(FULL, 0)], &[(CLOSE, 0)]], tail);
    let kind: u16 = any();
    wr16(&mut t.a.data, t.at[who & 1] + 48, kind);
    if tail == 40 {
        put_claimer(&mut t.a.data, t.end);
    }
    t.a.owner = any();
    let before = t.a;
    let mut payer = Acct::<0>::new(any(), SYS, lamports(), 0, []);
    payer.signer = 1;
    let mut sp = Acct::<8>::key(any());
    let mut sg = Acct::<0>::key(any());
    sg.signer = any::<bool>() as u8;
    let infos: [AccountInfo; 4] = [t.a.info(), payer.info(), sp.info(), sg.info()];
    let hds = [hd(&t.a), hd(&payer), hd(&sp), hd(&sg)];
    let mut c = classes::<4>();
    let new: [u8; 32] = any();
    let mut d = Al([0u8; 48]);
    wr16(&mut d.0, 0, 17);
    wr32(&mut d.0, 4, IDS[who]);
    let mut i = 0;
    while i < 32 {
        d.0[8 + i] = new[i];
        i += 1;
    }
    let p: u8 = any();
    d.0[40] = p;
    unsafe {
        ENV.pda = any();
        ENV.pda_err = any();
    }
    let ok = call(&infos, &mut c, &d.0[..41]).is_ok();
    wit!(ok || who == 2 || tail > 0, "named");
    if ok {
        chk!(who < 2, "an absent role names nobody");
        let key = k32(&before.data, t.at[who & 1] + 16);
        chk!(signed(p, &hds, &key), "the role's own signer signed");
        chk!(kind == FULL || kind == CLOSE, "the role holds full or close permission");
        chk!(eq32(&before.owner, &ID) && before.data[0] == 1, "only a wallet names a claimer");
        chk!(tail == 0, "a claimer is named only once");
        chk!(!eq32(&new, &[0; 32]) && !eq32(&new, &before.key), "the claimer is neither the zero address nor the wallet");
        chk!(derived_wallet_address(&before.key, Some(before.data[40])) && !eq32(&new, unsafe { &ENV.pda }), "the claimer is not the wallet address");
        let e = t.end;
        chk!(t.a.len as usize == e + 40, "the entry is appended");
        chk!(same(&t.a.data, &before.data, 0, e), "nothing else changes");
        chk!(eq32(&k32(&t.a.data, e + 8), &new) && t.a.data[e] == 1 && t.a.data[e + 1] == 1 && rd16(&t.a.data, e + 2) == 32 && rd32(&t.a.data, e + 4) == 0, "the entry names the claimer");
        chk!(t.a.lamports >= rent_exempt(e + 40), "the longer wallet is rent exempt");
    }
}
harnesses! {
    /// bound: closed by the root role, no claimer; every permission kind, key, owner, balance and signer @fs=512
    [260, 260] fn c32_close_root() { close(0, false) }
    /// bound: closed by another role, no claimer; every permission kind, key, owner, balance and signer @fs=512
    [260, 260] fn c32_close_other() { close(1, false) }
    /// bound: closed by another role, claimer set; every claimer and destination @fs=512
    [260, 260] fn c32_close_claimer() { close(1, true) }
    /// bound: closed in the name of a role that is not there @fs=512
    [260, 260] fn c32_close_absent() { close(2, false) }
    /// bound: claimer named by the root role; every permission kind, claimer, key, owner, balance and signer @fs=512
    [260, 260] fn c32_claim_root() { claim(0, 0) }
    /// bound: claimer named by another role @fs=512
    [260, 260] fn c32_claim_other() { claim(1, 0) }
    /// bound: claimer already named @fs=512
    [260, 260] fn c32_claim_again() { claim(0, 40) }
    /// bound: claimer named by a role that is not there, or over a tail of another length @fs=512
    [260, 260] fn c32_claim_absent() { claim(2, 0); claim(0, 8) }
}
