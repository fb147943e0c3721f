//! C21: different wallet objects never share a derived address.
use crate::nd::*;
use pinocchio::instruction::Seed;
use swig_state::swig::*;

/// Concatenation of the seeds (what the runtime hashes), zero padded, and its length.
fn cat(s: &[&[u8]], o: &mut [u8; 64]) -> usize {
    let mut n = 0;
    for p in s {
        o[n..n + p.len()].copy_from_slice(p);
        n += p.len();
    }
    n
}
fn same(a: &[u8; 64], n: usize, b: &[u8; 64], m: usize) -> bool {
    n == m
        && w(a, 0) == w(b, 0) && w(a, 8) == w(b, 8) && w(a, 16) == w(b, 16) && w(a, 24) == w(b, 24)
        && w(a, 32) == w(b, 32) && w(a, 40) == w(b, 40) && w(a, 48) == w(b, 48) && w(a, 56) == w(b, 56)
}
/// Kinds: 0 wallet, 1 wallet address, 2 V1 sub-account, 3 V2 state, 4 V2 asset.
fn seeds(k: u8, id: &[u8; 32], n: &[u8; 4], o: &mut [u8; 64]) -> usize {
    match k {
        0 => cat(&swig_account_seeds(id), o),
        1 => cat(&swig_wallet_address_seeds(id), o),
        2 => cat(&sub_account_seeds(id, n), o),
        3 => cat(&sub_account_v2_state_seeds(id, n), o),
        _ => cat(&sub_account_v2_asset_seeds(id, n), o),
    }
}
/// The same with the bump supplied by the caller.
fn bumped(k: u8, id: &[u8; 32], n: &[u8; 4], b: &[u8; 1], o: &mut [u8; 64]) -> usize {
    match k {
        0 => cat(&swig_account_seeds_with_bump(id, b), o),
        1 => cat(&swig_wallet_address_seeds_with_bump(id, b), o),
        2 => cat(&sub_account_seeds_with_bump(id, n, b), o),
        3 => cat(&sub_account_v2_state_seeds_with_bump(id, n, b), o),
        _ => cat(&sub_account_v2_asset_seeds_with_bump(id, n, b), o),
    }
}
fn cat_seed(s: &[Seed], o: &mut [u8; 64]) -> usize {
    let mut n = 0;
    for p in s {
        let p: &[u8] = p;
        o[n..n + p.len()].copy_from_slice(p);
        n += p.len();
    }
    n
}
fn signed(k: u8, id: &[u8; 32], n: &[u8; 4], b: &[u8; 1], o: &mut [u8; 64]) -> usize {
    match k {
        0 => cat_seed(&swig_account_signer(id, b), o),
        1 => cat_seed(&swig_wallet_address_signer(id, b), o),
        2 => cat_seed(&sub_account_signer(id, n, b), o),
        3 => cat_seed(&sub_account_v2_state_signer(id, n, b), o),
        _ => cat_seed(&sub_account_v2_asset_signer(id, n, b), o),
    }
}
fn one(k: u8) {
    let (i1, i2): ([u8; 32], [u8; 32]) = (any(), any());
    let (n1, n2): ([u8; 4], [u8; 4]) = (any(), any());
    let (mut a, mut b, mut c, mut d) = ([0u8; 64], [0u8; 64], [0u8; 64], [0u8; 64]);
    let la = seeds(k, &i1, &n1, &mut a);
    // other kinds
    for j in 0..5u8 {
        let mut o = [0u8; 64];
        let lo = seeds(j, &i2, &n2, &mut o);
        if j != k {
            chk!(!same(&a, la, &o, lo), "two kinds of object never share their seeds");
        } else {
            let si = eq32(&i1, &i2) && (k < 2 || n1 == n2);
            chk!(same(&a, la, &o, lo) == si, "two objects of one kind share their seeds only if they have one identifier");
            wit!(!si && i1[0] == i2[0] && n1[0] == n2[0], "different objects");
        }
    }
    // bump variants
    let bump: [u8; 1] = any();
    let lb = bumped(k, &i1, &n1, &bump, &mut b);
    let lc = signed(k, &i1, &n1, &bump, &mut c);
    d[..64].copy_from_slice(&a);
    d[la] = bump[0];
    chk!(lb == la + 1 && same(&b, lb, &d, la + 1), "the bumped seeds are the derivation seeds and the bump");
    chk!(same(&c, lc, &d, la + 1), "the signing seeds are the derivation seeds and the bump");
    // with the bump, seeds of different kinds still differ
    for j in 0..5u8 {
        if j != k {
            let mut o = [0u8; 64];
            let b2: [u8; 1] = any();
            let lo = bumped(j, &i2, &n2, &b2, &mut o);
            chk!(!same(&b, lb, &o, lo), "bumped seeds of two kinds never agree");
        }
    }
}
harnesses! {
    /// bound: every pair of 32-byte ids, role/sub-account ids and bumps; wallet against every kind
    [6, 6] fn c21_wallet() { one(0) }
    /// bound: as above, wallet address against every kind
    [6, 6] fn c21_wallet_address() { one(1) }
    /// bound: as above, V1 sub-account against every kind
    [6, 6] fn c21_sub_account() { one(2) }
    /// bound: as above, V2 state against every kind
    [6, 6] fn c21_v2_state() { one(3) }
    /// bound: as above, V2 asset against every kind
    [6, 6] fn c21_v2_asset() { one(4) }
}
