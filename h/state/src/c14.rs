//! C14: session keys work only while their bounded session is alive.
use crate::{acct::*, nd::*};
use pinocchio::account_info::AccountInfo;
use swig_state::{
    authority::{ed25519::Ed25519SessionAuthority, programexec::session::ProgramExecSessionAuthority, secp256k1::Secp256k1SessionAuthority, secp256r1::Secp256r1SessionAuthority, AuthorityInfo},
    Transmutable, TransmutableMut,
};

const A: usize = 3;
/// Size of the stored record and where it keeps the session key, the longest duration and the expiry.
const AT: [(usize, usize, usize, usize); 4] = [(80, 32, 64, 72), (88, 40, 72, 80), (88, 40, 72, 80), (128, 80, 112, 120)];

fn with<R>(kind: usize, d: &mut [u8], f: impl FnOnce(&mut dyn AuthorityInfo) -> R) -> Option<R> {
    unsafe {
        match kind {
            0 => Ed25519SessionAuthority::load_mut_unchecked(d).ok().map(|x| f(x)),
            1 => Secp256k1SessionAuthority::load_mut_unchecked(d).ok().map(|x| f(x)),
            2 => Secp256r1SessionAuthority::load_mut_unchecked(d).ok().map(|x| f(x)),
            _ => ProgramExecSessionAuthority::load_mut_unchecked(d).ok().map(|x| f(x)),
        }
    }
}
fn key(d: &[u8], at: usize) -> [u8; 32] {
    let mut k = [0; 32];
    k.copy_from_slice(&d[at..at + 32]);
    k
}
fn same(a: &[u8], b: &[u8], from: usize, to: usize) -> bool {
    let mut r = true;
    let mut i = from;
    while i < to {
        r &= w(a, i) == w(b, i);
        i += 8;
    }
    r
}
fn start(kind: usize) {
    let (len, ks, mx, ex) = AT[kind];
    let mut d: Al<128> = Al(any());
    let kept = d;
    let k: [u8; 32] = any();
    let (slot, dur): (u64, u64) = (any(), any());
    let ok = matches!(with(kind, &mut d.0[..len], |a| a.start_session(k, slot, dur)), Some(Ok(())));
    let max = w(&kept.0, mx);
    let fits = dur <= u64::MAX - slot;
    wit!(ok && dur == max, "started at the longest duration");
    chk!(!ok || dur <= max, "a session longer than the stored maximum is refused");
    chk!(ok || dur > max || !fits, "a session within the maximum starts");
    if ok {
        chk!(eq32(&key(&d.0, ks), &k), "the given session key is stored");
        chk!(fits && w(&d.0, ex) == slot + dur, "the expiry is the current slot plus the duration");
    } else {
        chk!(same(&d.0, &kept.0, ks, ks + 32) && w(&d.0, ex) == w(&kept.0, ex), "a refused session changes nothing");
    }
    chk!(same(&d.0, &kept.0, 0, ks) && w(&d.0, mx) == w(&kept.0, mx) && same(&d.0, &kept.0, len, 128), "no other field changes");
}
/// `n` accounts, a request of `p` bytes.
fn useit(kind: usize, n: usize, p: usize) {
    let (len, ks, _, ex) = AT[kind];
    let mut d: Al<128> = Al(any());
    let kept = d;
    let mut a = [Acct::<8>::key([0; 32]); A];
    let mut infos: [AccountInfo; A] = [a[0].info(), a[1].info(), a[2].info()];
    for i in 0..A {
        a[i].key = any();
        a[i].signer = any::<bool>() as u8;
        infos[i] = a[i].info();
    }
    let payload: [u8; 4] = any();
    let data: [u8; 8] = any();
    let slot: u64 = any();
    let ok = matches!(with(kind, &mut d.0[..len], |x| x.authenticate_session(&infos[..n], &payload[..p], &data, slot)), Some(Ok(())));
    let k = key(&kept.0, ks);
    let mut signed = false;
    let mut i = 0;
    while i < n && p > 0 {
        signed |= payload[0] as usize == i && eq32(&a[i].key, &k) && a[i].signer == 1;
        i += 1;
    }
    let live = slot <= w(&kept.0, ex);
    if p == 1 && n > 0 {
        wit!(ok && slot == w(&kept.0, ex), "used in its last slot");
        chk!(ok || !(signed && live), "a live session key is accepted");
    }
    chk!(!ok || live, "an expired session is refused");
    chk!(!ok || signed, "only the stored session key that signed is accepted");
    chk!(same(&d.0, &kept.0, 0, 128), "using a session changes nothing");
}
harnesses! {
    /// bound: Ed25519 sessions: every stored record, key, slot and duration #nopanic @fs=512
    [20, 20] fn c14_start_ed25519() { start(0) }
    /// bound: Secp256k1 sessions #nopanic @fs=512
    [20, 20] fn c14_start_k1() { start(1) }
    /// bound: Secp256r1 sessions #nopanic @fs=512
    [20, 20] fn c14_start_r1() { start(2) }
    /// bound: program-execution sessions #nopanic @fs=512
    [20, 20] fn c14_start_exec() { start(3) }
    /// bound: Ed25519 sessions: every stored record and slot, 1..=3 accounts, every position; malformed requests #nopanic @fs=512
    [20, 20] fn c14_use_ed25519() { useit(0, 3, 1); useit(0, 1, 1); useit(0, 3, 0); useit(0, 3, 2) }
    /// bound: Secp256k1 sessions, requests of 1 and 2 bytes @fs=512
    [20, 20] fn c14_use_k1() { useit(1, 3, 1); useit(1, 1, 1); useit(1, 3, 2) }
    /// bound: Secp256r1 sessions, requests of 0..2 bytes #nopanic @fs=512
    [20, 20] fn c14_use_r1() { useit(2, 3, 1); useit(2, 1, 1); useit(2, 3, 0); useit(2, 3, 2) }
    /// bound: program-execution sessions, requests of 0..2 bytes #nopanic @fs=512
    [20, 20] fn c14_use_exec() { useit(3, 3, 1); useit(3, 1, 1); useit(3, 3, 0); useit(3, 3, 2) }
}
