//! C33: a wallet is migrated once, and keeps its roles.
//@ only: migrate_to_wallet_address_v1
#![allow(static_mut_refs)]
use crate::{acct::*, nd::*, sys::*, wallet::*};
use pinocchio::account_info::AccountInfo;

/// Looks like a wallet with a wallet address: a bump and three zero bytes.
fn new_format(d: &[u8]) -> bool {
    d[40] != 0 && d[41] == 0 && d[42] == 0 && d[43] == 0
}
/// `who` migrates a wallet with `tail` bytes after its roles, of which `cut` bytes are there (0: all).
fn migrate(who: usize, tail: usize, cut: usize) {
    let mut t = two::<256>([0, 5], [&[(FULL, 0)], &[(CLOSE, 0)]], tail);
    let kind: u16 = any();
    wr16(&mut t.a.data, t.at[who & 1] + 48, kind);
    t.a.owner = any();
    t.a.data[0] = any();
    if cut > 0 {
        t.a.len = cut as u64;
    }
    let before = t.a;
    let mut sg = Acct::<0>::key(any());
    sg.signer = any::<bool>() as u8;
    let mut payer = Acct::<0>::new(any(), SYS, lamports(), 0, []);
    payer.signer = 1;
    let mut wa = Acct::<8>::new(any(), any(), lamports(), 0, any());
    let n: u64 = any();
    assume(n <= 8);
    wa.len = n;
    let mut sp = Acct::<8>::key(any());
    let (wa0, payer0) = (wa, payer);
    let h = [hd(&t.a), hd(&sg), hd(&payer), hd(&wa), hd(&sp)];
    let infos: [AccountInfo; 5] = [t.a.info(), sg.info(), payer.info(), wa.info(), sp.info()];
    let mut c = classes::<5>();
    let mut d: Al<16> = Al(any());
    wr16(&mut d.0, 0, 12);
    wr32(&mut d.0, 4, IDS[who]);
    let p = d.0[8];
    unsafe {
        ENV.pda = any();
        ENV.pda_err = any();
        ENV.slot = any();
    }
    let ok = call(&infos, &mut c, &d.0[..9]).is_ok();
    wit!(ok || who == 2 || cut > 0, "migrated");
    let (a, b, e) = (&t.a.data, &before.data, t.end + tail);
    if ok {
        chk!(who < 2, "an absent role migrates nothing");
        chk!(signed(p, &h, &k32(b, t.at[who & 1] + 16)), "the role's own signer signed");
        chk!(kind == FULL || kind == MANAGE, "the role may manage the wallet");
        chk!(b[0] == 1, "only a wallet is migrated");
        chk!(!new_format(b), "a wallet is migrated once");
        chk!(same(a, b, 0, 40) && same(a, b, 48, e) && t.a.len == before.len, "its id, roles and counter stay as they were");
        chk!(a[40] == d.0[2] && a[41] == 0 && a[42] == 0 && a[43] == 0 && rd32(a, 44) == 0, "the bump is set and no sub-account was made");
        chk!(derived_wallet_address(&before.key, Some(a[40])) && unsafe { !ENV.pda_err } && eq32(&wa0.key, unsafe { &ENV.pda }), "with that bump the wallet address is this wallet's");
        chk!(eq32(&wa0.owner, &SYS) && wa0.len == 0, "the wallet address is a plain account");
        chk!(wa.lamports >= rent_exempt(0) && wa.lamports as u128 + payer.lamports as u128 == wa0.lamports as u128 + payer0.lamports as u128, "it is rent exempt, paid for by the payer");
        chk!(t.a.lamports == before.lamports && eq32(&t.a.owner, &before.owner), "the wallet keeps its money");
    } else if !(who < 2 && cut == 0 && signed(p, &h, &k32(b, t.at[who & 1] + 16)) && (kind == FULL || kind == MANAGE)) {
        chk!(same(a, b, 0, e), "a refused request changes nothing");
    }
}
harnesses! {
    /// bound: by the root role; every header content, permission kind, key, owner, balance, signer and bump @fs=512
    [260, 260] fn c33_root() { migrate(0, 0, 0) }
    /// bound: by another role, bytes behind the roles; every header content, permission kind, key, owner, balance, signer and bump @fs=512
    [260, 260] fn c33_other() { migrate(1, 40, 0) }
    /// bound: in the name of a role that is not there; a wallet account that is too short @fs=512
    [260, 260] fn c33_absent() { migrate(2, 0, 0); migrate(0, 0, 47); }
    /// bound: a wallet with a Secp256k1 root; every signature, header content and digest @fs=512 #k1 @memcmp=68
    [400, 400] fn c33_signed() {
        let mut t = k1_wallet::<384>();
        let before = t.a;
        let mut sg = Acct::<0>::key(any());
        let mut payer = Acct::<0>::new(any(), SYS, lamports(), 0, []);
        payer.signer = 1;
        let mut wa = Acct::<0>::new(any(), SYS, lamports(), 0, []);
        let mut sp = Acct::<8>::key(SYS);
        let infos: [AccountInfo; 5] = [t.a.info(), sg.info(), payer.info(), wa.info(), sp.info()];
        let mut c = classes::<5>();
        let mut d: Al<96> = Al(any());
        wr16(&mut d.0, 0, 12);
        wr32(&mut d.0, 4, 0);
        unsafe { ENV.pda = any() };
        let ok = call(&infos, &mut c, &d.0[..86]).is_ok();
        wit!(ok, "migrated");
        if ok {
            chk!(k1_bound(&before.data, &t.a.data, &d.0, 0, 8, 5), "the signature covers the whole request and is used up");
            chk!(!new_format(&before.data), "a wallet is migrated once");
        }
    }
}
