//! C13: an Ed25519 role authenticates only with its own signer.
use crate::{acct::*, nd::*};
use pinocchio::account_info::AccountInfo;
use swig_state::{authority::{ed25519::{ED25519Authority, Ed25519SessionAuthority}, AuthorityInfo}, Transmutable, TransmutableMut};

const A: usize = 3;
/// A role record's authority bytes, a transaction of `n` accounts and a request of `p` bytes.
fn go(session: bool, n: usize, p: usize) {
    let k: [u8; 32] = any();
    let l: [u8; 32] = any();
    let mut a = [Acct::<8>::key([0; 32]); A];
    let mut infos: [AccountInfo; A] = [a[0].info(), a[1].info(), a[2].info()];
    for i in 0..A {
        a[i].key = any();
        a[i].signer = any::<bool>() as u8;
        a[i].writable = any::<bool>() as u8;
        infos[i] = a[i].info();
    }
    let before = a;
    let payload: [u8; 4] = any();
    let slot: u64 = any();
    let (max, exp): (u64, u64) = (any(), any());
    let data: [u8; 8] = any();
    let mut d: Al<80> = Al([0; 80]);
    d.0[..32].copy_from_slice(&k);
    let len = if session {
        d.0[32..64].copy_from_slice(&l);
        wr64(&mut d.0, 64, max);
        wr64(&mut d.0, 72, exp);
        80
    } else {
        32
    };
    let kept = d;
    let r = unsafe {
        if session {
            Ed25519SessionAuthority::load_mut_unchecked(&mut d.0[..len]).map(|x| x.authenticate(&infos[..n], &payload[..p], &data, slot))
        } else {
            ED25519Authority::load_mut_unchecked(&mut d.0[..len]).map(|x| x.authenticate(&infos[..n], &payload[..p], &data, slot))
        }
    };
    let ok = matches!(r, Ok(Ok(())));
    let mut want = false;
    if p == 1 {
        let mut i = 0;
        while i < n {
            want |= payload[0] as usize == i && eq32(&a[i].key, &k) && a[i].signer == 1;
            i += 1;
        }
    }
    if p == 1 && n > 0 {
        wit!(want, "signed");
    }
    chk!(!ok || want, "only the role's own signing key is accepted");
    chk!(ok || !want, "the role's own signing key is accepted");
    let mut same = true;
    let mut i = 0;
    while i < 80 {
        same &= w(&d.0, i) == w(&kept.0, i);
        i += 8;
    }
    chk!(same, "nothing stored changes");
    let mut i = 0;
    while i < A {
        chk!(eq32(&a[i].key, &before[i].key) && a[i].signer == before[i].signer && a[i].writable == before[i].writable, "no account changes");
        i += 1;
    }
}
harnesses! {
    /// bound: root role, 0..=3 accounts with any keys and flags, any key, any account position #nopanic @fs=512
    [12, 12] fn c13_root() { go(false, 3, 1); go(false, 2, 1); go(false, 1, 1); }
    /// bound: no accounts; requests of 0, 2, 3 and 4 bytes #nopanic @fs=512
    [12, 12] fn c13_root_malformed() { go(false, 3, 1); go(false, 0, 1); go(false, 3, 0); go(false, 3, 2); go(false, 3, 3); go(false, 3, 4); }
    /// bound: session-capable role used with its root key, 0..=3 accounts #nopanic @fs=512
    [12, 12] fn c13_session_root() { go(true, 3, 1); go(true, 2, 1); go(true, 1, 1); }
    /// bound: session-capable role, malformed requests #nopanic @fs=512
    [12, 12] fn c13_session_malformed() { go(true, 3, 1); go(true, 0, 1); go(true, 3, 0); go(true, 3, 2); }
}
