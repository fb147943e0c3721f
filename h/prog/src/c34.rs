//! C34: a V2 sub-account acts only when enabled and for a role granted on it.
//@ only: toggle_sub_account_v2
#![allow(static_mut_refs)]
use crate::{acct::*, nd::*, sys::*, wallet::*};
use pinocchio::account_info::AccountInfo;

const N: usize = 256;
const STATE: &[u8] = b"sub-account-v2-state";
const ASSET: &[u8] = b"sub-account-v2";
const EVERY: u16 = 23;

/// A wallet whose role `who` holds two permissions of arbitrary kinds with arbitrary targets.
struct W {
    t: Two<N>,
    before: Acct<N>,
    k: [u16; 2],
}
fn wallet(who: usize) -> W {
    let l: &[(u16, usize)] = &[(24, 8), (EVERY, 8)];
    let mut t = two::<N>([0, 5], if who == 0 { [l, &[(CLOSE, 0)]] } else { [&[(FULL, 0)], l] }, 0);
    let k: [u16; 2] = any();
    if who < 2 {
        wr16(&mut t.a.data, t.at[who] + 48, k[0]);
        wr16(&mut t.a.data, t.at[who] + 64, k[1]);
    }
    t.a.owner = any();
    t.a.data[0] = any();
    let before = t.a;
    derivations();
    unsafe { ENV.slot = any() };
    W { t, before, k }
}
impl W {
    /// The role holds the wallet-wide grant or grant `op` for sub-account `id`.
    fn granted(&self, who: usize, op: u16, id: u32) -> bool {
        let (d, a) = (&self.before.data, self.t.at[who & 1] + 56);
        let may = |k: u16, at: usize| (k == EVERY || k == op) && rd32(d, at) == id;
        may(self.k[0], a) || may(self.k[1], a + 16)
    }
    fn is_wallet(&self) -> bool {
        let d = &self.before.data;
        eq32(&self.before.owner, &ID) && d[0] == 1 && d[40] != 0 && d[41] == 0 && d[42] == 0 && d[43] == 0
    }
    fn id(&self) -> [u8; 32] {
        k32(&self.before.data, 2)
    }
}
/// A state account of `len` bytes, with arbitrary contents.
fn state(len: usize) -> Acct<80> {
    let mut a = Acct::<80>::new(any(), any(), lamports(), 0, any());
    a.len = len as u64;
    a
}
/// The state belongs to this wallet and describes sub-account `id`.
fn describes(s: &Acct<80>, wallet: &[u8; 32], id: u32) -> bool {
    eq32(&s.owner, &ID) && s.data[0] == 2 && rd32(&s.data, 4) == id && eq32(&k32(&s.data, 8), wallet)
        && derived(&s.key, &[STATE, wallet, &id.to_le_bytes(), &[s.data[1]]])
}
fn signer() -> Acct<0> {
    let mut s = Acct::<0>::key(any());
    s.signer = any::<bool>() as u8;
    s
}
fn toggle(who: usize, len: usize, to: u8) {
    let mut w = wallet(who);
    let mut s = state(len);
    let s0 = s;
    let (mut payer, mut sg) = (signer(), signer());
    let h = [hd(&w.t.a), hd(&payer), hd(&s), hd(&sg)];
    let infos: [AccountInfo; 4] = [w.t.a.info(), payer.info(), s.info(), sg.info()];
    let mut c = classes::<4>();
    let mut d: Al<24> = Al(any());
    wr16(&mut d.0, 0, 19);
    d.0[2] = to;
    wr32(&mut d.0, 4, IDS[who]);
    let id = rd32(&d.0, 8);
    let p = d.0[16];
    let ok = call(&infos, &mut c, &d.0[..17]).is_ok();
    wit!(ok || who == 2 || len != 72 || to > 1, "switched");
    if ok {
        chk!(who < 2, "an absent role switches nothing");
        chk!(signed(p, &h, &k32(&w.before.data, w.t.at[who & 1] + 16)), "the role's own signer signed");
        chk!(w.granted(who, 26, id), "the role may switch this sub-account");
        chk!(w.is_wallet(), "only a wallet's sub-accounts are switched");
        chk!(len >= 72 && describes(&s0, &w.id(), id), "the state is this sub-account's");
        chk!(s.data[3] == d.0[2] && d.0[2] < 2, "the switch is as requested");
        chk!(same(&s.data, &s0.data, 0, 3) && same(&s.data, &s0.data, 4, len) && same(&w.t.a.data, &w.before.data, 0, w.t.end), "nothing else changes");
    } else {
        chk!(same(&s.data, &s0.data, 0, len), "a refused request switches nothing");
    }
}
/// The sub-account executes one inner instruction, on itself and another account.
fn sign(who: usize, len: usize) {
    let mut w = wallet(who);
    let mut s = state(len);
    let s0 = s;
    let mut sub = Acct::<0>::new(any(), any(), lamports(), 0, []);
    let mut sp = Acct::<0>::key(any());
    let mut sg = signer();
    let mut prog = Acct::<0>::key(any());
    let h = [hd(&w.t.a), hd(&s), hd(&sub), hd(&sp), hd(&sg), hd(&prog)];
    let sub0 = sub;
    let infos: [AccountInfo; 6] = [w.t.a.info(), s.info(), sub.info(), sp.info(), sg.info(), prog.info()];
    let mut c = classes::<6>();
    let mut d: Al<40> = Al(any());
    wr16(&mut d.0, 0, 20);
    wr16(&mut d.0, 2, 10);
    wr32(&mut d.0, 4, IDS[who]);
    let id = rd32(&d.0, 8);
    // one instruction: program 5, accounts 2 and 4, three bytes of data
    let b = [1u8, 5, 2, 2, 4, 3, 0];
    let mut i = 0;
    while i < 7 {
        d.0[16 + i] = b[i];
        i += 1;
    }
    let p = d.0[26];
    let (rest, hh): (u64, u64) = (any(), any());
    unsafe {
        ENV.stack_height = hh;
        CPI_SYS = false;
        FX[0] = Fx { on: true, at: 0, ptr: &raw mut sub.lamports, val: rest };
    }
    let ok = call(&infos, &mut c, &d.0[..27]).is_ok();
    let n = unsafe { CPI_N };
    wit!(ok || who == 2 || len < 72, "signed");
    chk!(n <= 1, "only the requested instruction is executed");
    if n == 1 {
        let x = unsafe { &CPI[0] };
        chk!(who < 2, "an absent role signs nothing");
        chk!(hh == 1, "called directly, not by another program");
        chk!(signed(p, &h, &k32(&w.before.data, w.t.at[who & 1] + 16)), "the role's own signer signed");
        chk!(w.granted(who, 24, id), "the role may sign as this sub-account");
        chk!(w.is_wallet(), "only a wallet's sub-accounts sign");
        chk!(len >= 72 && describes(&s0, &w.id(), id), "the state is this sub-account's");
        chk!(s0.data[3] == 1, "the sub-account is enabled");
        chk!(eq32(&k32(&s0.data, 40), &sub0.key) && eq32(&sub0.owner, &SYS), "the signing account is this sub-account's");
        chk!(signed_with(x, &[ASSET, &w.id(), &id.to_le_bytes(), &[s0.data[2]]]), "only the sub-account's own address signs");
        chk!(eq32(&x.prog, &prog.key) && x.n == 2 && eq32(&x.keys[0], &sub0.key) && eq32(&x.keys[1], &sg.key), "the requested program and accounts");
        chk!(x.sg[0] && (!x.sg[1] || sg.signer == 1 || eq32(&sg.key, &sub0.key)), "no other account is made a signer");
        chk!(x.len == 3 && moved(&x.data, 0, &d.0, 23, 3), "the requested data");
    }
    if ok {
        chk!(n == 1, "the requested instruction is executed");
        chk!(rest >= rent_exempt(0), "the sub-account stays rent exempt");
        chk!(same(&s.data, &s0.data, 0, len) && same(&w.t.a.data, &w.before.data, 0, w.t.end), "the wallet and the state stay as they were");
    }
}
/// Withdraws lamports, or tokens.
fn withdraw(who: usize, len: usize, tokens: bool) {
    let mut w = wallet(who);
    let mut s = state(len);
    let s0 = s;
    let mut payer = signer();
    let mut sub = Acct::<0>::new(any(), any(), lamports(), 0, []);
    let mut wa = Acct::<0>::new(any(), any(), lamports(), 0, []);
    let mut sg = signer();
    let mut sp = Acct::<0>::key(any());
    let (sub0, wa0) = (sub, wa);
    let mut from = Acct::<168>::new(any(), any(), 0, 0, any());
    let mut to = Acct::<168>::new(any(), any(), 0, 0, any());
    from.len = 165;
    to.len = 165;
    let mut tp = Acct::<0>::key(any());
    let h = [hd(&w.t.a), hd(&payer), hd(&s), hd(&sub), hd(&wa), hd(&sg), hd(&sp)];
    let infos: [AccountInfo; 10] =
        [w.t.a.info(), payer.info(), s.info(), sub.info(), wa.info(), sg.info(), sp.info(), from.info(), to.info(), tp.info()];
    let mut c = classes::<10>();
    let mut d: Al<32> = Al(any());
    wr16(&mut d.0, 0, 21);
    wr32(&mut d.0, 4, IDS[who]);
    let id = rd32(&d.0, 8);
    let amount = crate::nd::w(&d.0, 16);
    let p = d.0[24];
    assume(p < 7);
    let ok = call(&infos[..if tokens { 10 } else { 7 }], &mut c[..if tokens { 10 } else { 7 }], &d.0[..25]).is_ok();
    let n = unsafe { CPI_N };
    wit!(ok || who == 2 || len < 72, "withdrawn");
    chk!(n <= 1, "at most one transfer");
    if ok || n == 1 {
        chk!(who < 2, "an absent role withdraws nothing");
        chk!(signed(p, &h, &k32(&w.before.data, w.t.at[who & 1] + 16)), "the role's own signer signed");
        chk!(w.granted(who, 25, id), "the role may withdraw from this sub-account");
        chk!(w.is_wallet(), "only from a wallet's sub-accounts");
        chk!(len >= 72 && describes(&s0, &w.id(), id), "the state is this sub-account's");
        chk!(s0.data[3] == 1, "the sub-account is enabled");
        chk!(eq32(&k32(&s0.data, 40), &sub0.key) && eq32(&sub0.owner, &SYS), "the account is this sub-account's");
        chk!(derived(&wa0.key, &[b"swig-wallet-address", &w.before.key, &[w.before.data[40]]]) && eq32(&wa0.owner, &SYS), "the destination is this wallet's address");
        chk!(n == 1 && signed_with(unsafe { &CPI[0] }, &[ASSET, &w.id(), &id.to_le_bytes(), &[s0.data[2]]]), "only the sub-account's own address signs");
        let x = unsafe { &CPI[0] };
        if tokens {
            chk!(x.n == 3 && eq32(&x.keys[0], &from.key) && eq32(&x.keys[1], &to.key) && eq32(&x.keys[2], &sub0.key), "from the sub-account's token account to the wallet's");
            chk!(eq32(&x.prog, &tp.key) && eq32(&from.owner, &tp.key) && eq32(&to.owner, &tp.key), "by the program that owns both");
            chk!(eq32(&tp.key, &TOKEN) || eq32(&tp.key, &TOKEN22), "a token program");
            chk!(eq32(&k32(&from.data, 32), &sub0.key) && eq32(&k32(&to.data, 32), &wa0.key), "owned by the sub-account and by the wallet address");
            chk!(x.len == 9 && x.data[0] == 3 && crate::nd::w(&x.data, 1) == amount, "the requested amount");
        } else {
            chk!(wa.lamports as u128 == wa0.lamports as u128 + amount as u128 && sub.lamports as u128 + amount as u128 == sub0.lamports as u128, "the requested amount");
        }
    }
    chk!(same(&s.data, &s0.data, 0, len) && same(&w.t.a.data, &w.before.data, 0, w.t.end), "the wallet and the state stay as they were");
}
/// Role `who` creates the next sub-account; its permissions are `list` (a grant in it is for the new one).
/// `paid`: the two new accounts already hold their rent (else the first holds one lamport, the second none).
fn create(who: usize, list: &[(u16, usize)], tail: usize, paid: bool) {
    let mut t = two::<384>([0, 5], if who == 0 { [list, &[(CLOSE, 0)]] } else { [&[(FULL, 0)], list] }, tail);
    let may = list[0].0 == 22;
    let again = list.len() > 1;
    if tail > 0 {
        put_claimer(&mut t.a.data, t.end);
    }
    t.a.owner = any();
    t.a.data[0] = any();
    let id = rd32(&t.a.data, 44);
    if again {
        assume(rd32(&t.a.data, t.at[who] + 64) == id);
    }
    assume(t.a.lamports >= rent_exempt(t.end + tail));
    let before = t.a;
    derivations();
    unsafe { ENV.slot = any() };
    let mut payer = Acct::<0>::new(any(), SYS, lamports(), 0, []);
    payer.signer = 1;
    let mut s = Acct::<80>::new(any(), any(), if paid { rent_exempt(72) } else { 1 }, 0, any());
    s.len = 0;
    let mut sub = Acct::<0>::new(any(), any(), if paid { rent_exempt(0) } else { 0 }, 0, []);
    let mut sp = Acct::<0>::key(any());
    let mut sg = signer();
    let (s0, sub0) = (s, sub);
    let h = [hd(&t.a), hd(&payer), hd(&s), hd(&sub), hd(&sp), hd(&sg)];
    let infos: [AccountInfo; 6] = [t.a.info(), payer.info(), s.info(), sub.info(), sp.info(), sg.info()];
    let mut c = classes::<6>();
    let mut d: Al<24> = Al(any());
    wr16(&mut d.0, 0, 18);
    wr32(&mut d.0, 4, IDS[who]);
    let p = d.0[16];
    let ok = call(&infos, &mut c, &d.0[..17]).is_ok();
    wit!(ok || who == 2 || !may, "created");
    if ok {
        let (a, b, e) = (&t.a.data, &before.data, t.end);
        let wid = k32(b, 2);
        chk!(who < 2 && may, "only a present role with the creation grant");
        chk!(signed(p, &h, &k32(b, t.at[who & 1] + 16)), "the role's own signer signed");
        chk!(eq32(&before.owner, &ID) && b[0] == 1 && b[40] != 0 && b[41] == 0 && b[42] == 0 && b[43] == 0, "only a wallet gets sub-accounts");
        chk!(id != u32::MAX && rd32(a, 44) == id + 1, "the id is used once");
        chk!(eq32(&s0.owner, &SYS) && eq32(&sub0.owner, &SYS), "both accounts are new");
        chk!(derived(&s0.key, &[STATE, &wid, &id.to_le_bytes(), &[d.0[8]]]), "the state account is this sub-account's");
        chk!(derived(&sub0.key, &[ASSET, &wid, &id.to_le_bytes(), &[d.0[9]]]), "the account is this sub-account's");
        chk!(s.len == 72 && eq32(&s.owner, &ID), "the state account is the program's");
        chk!(s.data[0] == 2 && s.data[1] == d.0[8] && s.data[2] == d.0[9] && s.data[3] == 1 && rd32(&s.data, 4) == id, "the state names its id and is enabled");
        chk!(eq32(&k32(&s.data, 8), &wid) && eq32(&k32(&s.data, 40), &sub0.key), "and its wallet and account");
        chk!(sub.lamports >= rent_exempt(0) && s.lamports >= rent_exempt(72), "both are rent exempt");
        let at = t.at[who & 1];
        let end = if who == 0 { t.at[1] } else { e };
        if again {
            chk!(same(a, b, 0, 44) && same(a, b, 48, e + tail) && t.a.len == before.len, "a role that holds the grant is left as it is");
        } else {
            chk!(same(a, b, 0, 44) && same(a, b, 48, at + 4) && same(a, b, at + 6, at + 12) && same(a, b, at + 16, end), "everything else stays as it was");
            chk!(rd16(a, at + 4) as usize == list.len() + 1 && rd32(a, at + 12) as usize == end + 16 - 48, "the role has one permission more");
            chk!(rd16(a, end) == EVERY && rd16(a, end + 2) == 8 && rd32(a, end + 4) as usize == end + 16 - at - 48 && rd32(a, end + 8) == id, "a grant on the new sub-account");
            let rest = e - end;
            if rest > 0 {
                chk!(moved(a, end + 16, b, end, 12) && rd32(a, end + 28) as usize == e + 16 - 48 && moved(a, end + 32, b, end + 16, rest - 16), "the other role moves and stays as it was");
            }
            chk!(t.a.len as usize == e + 16 + tail && moved(a, e + 16, b, e, tail), "the claimer entry follows the roles");
            chk!(t.a.lamports >= rent_exempt(e + 16 + tail), "the wallet stays rent exempt");
        }
    }
}
/// A Secp256k1 root with the grants `l` signs exactly the request `d[..to]`.
fn bound(op: u16, l: &[(u16, usize)], to: usize, n: usize, fill: impl Fn(&mut [u8])) {
    let mut t = crate::wallet::k1_wallet_with::<N>(l);
    t.a.data[40] = 255;
    wr32(&mut t.a.data, 40, 255);
    let before = t.a;
    derivations();
    let mut x = [signer(), signer(), signer(), signer(), signer()];
    let mut s = state(72);
    let mut payer = Acct::<0>::new(any(), SYS, lamports(), 0, []);
    payer.signer = 1;
    let mut sub = Acct::<0>::new(any(), SYS, lamports(), 0, []);
    let mut wa = Acct::<0>::new(any(), SYS, lamports(), 0, []);
    let [x0, x1, x2, ..] = &mut x;
    let infos: [AccountInfo; 7] = if op == 20 {
        [t.a.info(), s.info(), sub.info(), x0.info(), x1.info(), x2.info(), wa.info()]
    } else {
        [t.a.info(), payer.info(), s.info(), sub.info(), wa.info(), x0.info(), x1.info()]
    };
    let mut c = classes::<7>();
    let mut d: Al<128> = Al(any());
    wr16(&mut d.0, 0, op);
    wr32(&mut d.0, 4, 0);
    fill(&mut d.0);
    let ok = call(&infos[..n], &mut c[..n], &d.0[..to + 78]).is_ok();
    wit!(ok, "done");
    if ok {
        chk!(k1_bound(&before.data, &t.a.data, &d.0, 0, to, n), "the signature covers the whole request and is used up");
    }
}
harnesses! {
    /// bound: off, by the root role; every pair of permission kinds and targets, state, wallet header, key, owner, derivation and signer @fs=512
    [260, 260] fn c34_toggle_root() { toggle(0, 72, 0) }
    /// bound: on, by another role; a state account longer than the state @fs=512
    [260, 260] fn c34_toggle_other() { toggle(1, 80, 1) }
    /// bound: in the name of a role that is not there; a state account that is too short; neither on nor off @fs=512
    [260, 260] fn c34_toggle_absent() { toggle(2, 72, 0); toggle(0, 71, 0); toggle(0, 72, 2) }
    /// bound: by the root role; every effect of the inner instruction on the sub-account's balance @fs=512 @only=sub_account_sign_v2
    [260, 260] fn c34_sign_root() { sign(0, 72) }
    /// bound: by another role @fs=512 @only=sub_account_sign_v2
    [260, 260] fn c34_sign_other() { sign(1, 72) }
    /// bound: in the name of a role that is not there; a state account that is too short @fs=512 @only=sub_account_sign_v2
    [260, 260] fn c34_sign_absent() { sign(2, 72); sign(0, 71) }
    /// bound: lamports, by the root role; every amount and balance @fs=512 @only=withdraw_from_sub_account_v2
    [260, 260] fn c34_withdraw_root() { withdraw(0, 72, false) }
    /// bound: lamports, by another role; a state account that is too short; a role that is not there @fs=512 @only=withdraw_from_sub_account_v2
    [260, 260] fn c34_withdraw_other() { withdraw(1, 72, false) }
    /// bound: in the name of a role that is not there; a state account that is too short @fs=512 @only=withdraw_from_sub_account_v2
    [260, 260] fn c34_withdraw_absent() { withdraw(2, 72, false); withdraw(0, 71, false) }
    /// bound: tokens, by another role; every token account content, program and owner @fs=512 @only=withdraw_from_sub_account_v2
    [260, 260] fn c34_withdraw_tokens() { withdraw(1, 72, true) }
    /// bound: created by the root role, claimer set; every id, header, key, owner, wallet balance, derivation and signer; unfunded accounts @fs=512 @only=create_sub_account_v2
    [400, 400] fn c34_create_root() stub(std::vec::Vec::extend_from_slice => heap::extend) stub(std::vec::Vec::push => heap::push) stub(core::slice::sort::unstable::sort => heap::sort) { create(0, &[(22, 0)], 40, false) }
    /// bound: created by another role, funded accounts @fs=512 @only=create_sub_account_v2
    [400, 400] fn c34_create_other() stub(std::vec::Vec::extend_from_slice => heap::extend) stub(std::vec::Vec::push => heap::push) stub(core::slice::sort::unstable::sort => heap::sort) { create(1, &[(22, 0)], 0, true) }
    /// bound: by a role that already holds the grant on the new id @fs=512 @only=create_sub_account_v2
    [400, 400] fn c34_create_again() stub(std::vec::Vec::extend_from_slice => heap::extend) stub(std::vec::Vec::push => heap::push) stub(core::slice::sort::unstable::sort => heap::sort) { create(1, &[(22, 0), (EVERY, 8)], 0, true) }
    /// bound: by roles with another permission and by a role that is not there @fs=512 @only=create_sub_account_v2
    [400, 400] fn c34_create_not() stub(std::vec::Vec::extend_from_slice => heap::extend) stub(std::vec::Vec::push => heap::push) stub(core::slice::sort::unstable::sort => heap::sort) {
        create(1, &[(FULL, 0)], 0, true);
        create(1, &[(MANAGE, 0)], 0, true);
        create(1, &[(9, 72)], 0, true);
        create(1, &[(EVERY, 8)], 0, true);
        create(2, &[(22, 0)], 0, true)
    }
    /// bound: a Secp256k1 root switches a sub-account; every signature, content and digest @fs=512 #k1 @memcmp=68
    [400, 400] fn c34_signed_toggle() { bound(19, &[(EVERY, 8)], 16, 3, |d| d[2] = 0) }
    /// bound: a Secp256k1 root withdraws @fs=512 #k1 @memcmp=68 @only=withdraw_from_sub_account_v2
    [400, 400] fn c34_signed_withdraw() { bound(21, &[(EVERY, 8)], 24, 7, |_| ()) }
    /// bound: a Secp256k1 root signs as a sub-account @fs=512 #k1 @memcmp=68 @only=sub_account_sign_v2
    [400, 400] fn c34_signed_sign() {
        unsafe { CPI_SYS = false }
        bound(20, &[(EVERY, 8)], 26, 6, |d| {
            wr16(d, 2, 10);
            let b = [1u8, 5, 2, 2, 4, 3, 0];
            let mut i = 0;
            while i < 7 {
                d[16 + i] = b[i];
                i += 1;
            }
        })
    }
}
