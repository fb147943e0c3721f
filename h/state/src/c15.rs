//! C15: a Secp256k1 authorization is single-use, fresh and bound to what was signed.
//! Hashing and key recovery are recorded at the runtime boundary and return arbitrary values.
#![allow(static_mut_refs)]
use crate::{acct::*, nd::*, sys::*};
use pinocchio::account_info::AccountInfo;
use swig_state::{
    authority::{secp256k1::{Secp256k1Authority, Secp256k1SessionAuthority}, AuthorityInfo},
    Transmutable, TransmutableMut,
};

const A: usize = 3;
const AGE: u64 = 60;
fn hex(n: u8) -> u8 {
    if n < 10 { b'0' + n } else { b'a' + n - 10 }
}
/// `n` accounts, `dl` signed bytes, `pl` bytes of authorization.
fn go(session: bool, n: usize, dl: usize, pl: usize) {
    let mut d: Al<88> = Al(any());
    let kept = d;
    let odo = rd32(&d.0, 36);
    let mut a = [Acct::<8>::key([0; 32]); A];
    let mut infos: [AccountInfo; A] = [a[0].info(), a[1].info(), a[2].info()];
    for i in 0..A {
        a[i].key = any();
        a[i].signer = any::<bool>() as u8;
        a[i].writable = any::<bool>() as u8;
        infos[i] = a[i].info();
    }
    let payload: [u8; 84] = any();
    let data: [u8; 16] = any();
    let slot: u64 = any();
    unsafe {
        ENV.hash_n = 0;
        ENV.rec_n = 0;
        ENV.hash_out[0] = any();
        ENV.hash_out[1] = any();
        ENV.rec_out = any();
        ENV.rec_ret = any::<bool>() as u64;
    }
    let len = if session { 88 } else { 40 };
    let r = unsafe {
        if session {
            Secp256k1SessionAuthority::load_mut_unchecked(&mut d.0[..len]).map(|x| x.authenticate(&infos[..n], &payload[..pl], &data[..dl], slot))
        } else {
            Secp256k1Authority::load_mut_unchecked(&mut d.0[..len]).map(|x| x.authenticate(&infos[..n], &payload[..pl], &data[..dl], slot))
        }
    };
    let ok = matches!(r, Ok(Ok(())));
    let e = unsafe { &ENV };
    if pl >= 77 {
        wit!(ok, "accepted");
        wit!(!ok, "refused");
    }
    if ok {
        chk!(pl >= 77, "a truncated authorization is refused");
        let s = w(&payload, 0);
        chk!(s <= slot && slot - s <= AGE, "the signed slot is not in the future nor too old");
        chk!(rd32(&payload, 8) == odo.wrapping_add(1), "the signed counter follows the stored one");
        chk!(e.rec_n == 1 && e.rec_ret == 0, "the signature was recovered");
        let o = &e.rec_out;
        let mut same = kept.0[0] == 2 + (o[63] & 1);
        let mut i = 0;
        while i < 32 {
            same &= kept.0[1 + i] == o[i];
            i += 1;
        }
        chk!(same, "the recovered key is the stored key");
        let mut same = true;
        let mut i = 0;
        while i < 64 {
            same &= w(&e.rec_sig, i) == w(&payload, 12 + i);
            i += 8;
        }
        chk!(same, "the supplied signature is the one recovered");
        // what was hashed
        let h = unsafe { &HASH_IN[0] };
        chk!(e.hash_n == 2 && e.hash_kind[0] == 1 && e.hash_kind[1] == 2, "the request is hashed and the message hashed again");
        chk!(e.hash_len[0] == dl + 40 * n + 12, "everything signed is hashed, and nothing else");
        let mut same = true;
        let mut i = 0;
        while i < dl {
            same &= h[i] == data[i];
            i += 1;
        }
        chk!(same, "the exact payload is signed");
        let mut same = true;
        let mut k = 0;
        while k < n {
            let at = dl + 40 * k;
            let mut i = 0;
            while i < 32 {
                same &= w(h, at + i) == w(&a[k].key, i);
                i += 8;
            }
            same &= h[at + 32] == a[k].writable && h[at + 33] == a[k].signer;
            k += 1;
        }
        chk!(same, "the exact accounts and flags are signed");
        let at = dl + 40 * n;
        chk!(w(h, at) == s && rd32(h, at + 8) == odo.wrapping_add(1), "the slot and counter are signed");
        let p = unsafe { &HASH_IN[1] };
        let pre = pl - 77;
        let mut same = e.hash_len[1] == pre + 64;
        let mut i = 0;
        while i < pre {
            same &= p[i] == payload[77 + i];
            i += 1;
        }
        let mut i = 0;
        while i < 32 {
            let b = e.hash_out[0][i];
            same &= p[pre + 2 * i] == hex(b >> 4) && p[pre + 2 * i + 1] == hex(b & 15);
            i += 1;
        }
        chk!(same, "the signed message is the digest behind the supplied prefix");
        chk!(eq32(&e.rec_hash, &e.hash_out[1]), "the key is recovered over that message");
    }
    let now = if ok { odo.wrapping_add(1) } else { odo };
    chk!(rd32(&d.0, 36) == now, "the counter advances by one exactly on success");
    let mut same = rd32(&d.0, 32) == rd32(&kept.0, 32);
    let mut i = 0;
    while i < 88 {
        same &= i == 32 || w(&d.0, i) == w(&kept.0, i);
        i += 8;
    }
    chk!(same, "no other stored byte changes");
}
/// Lists above 64 accounts cannot be bound, so they are refused.
fn many() {
    let mut d: Al<40> = Al(any());
    let kept = d;
    let mut a = Acct::<8>::key(any());
    let infos: [AccountInfo; 65] = unsafe { core::mem::transmute([&mut a as *mut Acct<8>; 65]) };
    let payload: [u8; 77] = any();
    let slot: u64 = any();
    let r = unsafe { Secp256k1Authority::load_mut_unchecked(&mut d.0).map(|x| x.authenticate(&infos, &payload, &payload[..4], slot)) };
    chk!(!matches!(r, Ok(Ok(()))), "more accounts than can be signed are refused");
    chk!(rd32(&d.0, 36) == rd32(&kept.0, 36), "and the counter stays");
    wit!(true, "decided");
}
harnesses! {
    /// bound: root role: every record, 84-byte authorization (7-byte prefix), 11 signed bytes, two accounts, every recovery and digest @fs=512
    [66, 66] fn c15_two_accounts() { go(false, 2, 11, 84) }
    /// bound: no account, no signed bytes, no prefix @fs=512
    [66, 66] fn c15_no_accounts() { go(false, 0, 0, 77) }
    /// bound: three accounts, 16 signed bytes, one-byte prefix @fs=512
    [66, 66] fn c15_three_accounts() { go(false, 3, 16, 78) }
    /// bound: authorizations of 0, 8, 12, 76 bytes @fs=512
    [66, 66] fn c15_short() { go(false, 1, 4, 0); go(false, 1, 4, 8); go(false, 1, 4, 12); go(false, 1, 4, 76); go(false, 1, 4, 77) }
    /// bound: session-capable role, one account, 8 signed bytes @fs=512
    [66, 66] fn c15_session_one() { go(true, 1, 8, 80) }
    /// bound: session-capable role, two accounts @fs=512
    [66, 66] fn c15_session_two() { go(true, 2, 3, 77) }
    /// bound: 65 accounts @fs=512
    [70, 70] fn c15_too_many() { many() }
}
