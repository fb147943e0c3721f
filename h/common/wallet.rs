//! A wallet account with a fixed role layout and arbitrary contents, and calls into the program's
//! dispatcher.
#![allow(dead_code, static_mut_refs)]
use crate::{acct::*, nd::*, roles::*, sys::*};
use pinocchio::{account_info::AccountInfo, program_error::ProgramError};
use swig_state::AccountClassification;

pub const ID: [u8; 32] = swig::ID;
pub const SYS: [u8; 32] = [0; 32];
/// TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA
pub const TOKEN: [u8; 32] = [6, 221, 246, 225, 215, 101, 161, 147, 217, 203, 225, 70, 206, 235, 121, 172, 28, 180, 133, 237, 95, 91, 55, 145, 58, 140, 245, 133, 126, 255, 0, 169];
/// TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb
pub const TOKEN22: [u8; 32] = [6, 221, 246, 225, 238, 117, 143, 222, 24, 66, 93, 188, 228, 108, 205, 218, 182, 26, 252, 77, 131, 185, 13, 39, 254, 189, 249, 40, 216, 161, 139, 252];
/// Stake11111111111111111111111111111111111111
pub const STAKE: [u8; 32] = [6, 161, 216, 23, 145, 55, 84, 42, 152, 52, 55, 189, 254, 42, 122, 178, 85, 127, 83, 92, 138, 120, 114, 43, 104, 164, 157, 192, 0, 0, 0, 0];
/// What the program says about accounts it does not recognise.
pub fn classes<const N: usize>() -> [AccountClassification; N] {
    [const { AccountClassification::None }; N]
}
/// Runs one instruction on accounts already classified.
pub fn call(a: &[AccountInfo], c: &mut [AccountClassification], d: &[u8]) -> Result<(), ProgramError> {
    swig::actions::process_action(a, c, d)
}
/// Two roles: id `ids[0]` with permission `k[0]`, id `ids[1]` with permission `k[1]` (permissions
/// without a body), both Ed25519; then `tail` bytes.  Everything not part of the layout is
/// arbitrary.  Returns the wallet and its length.
pub struct Two<const N: usize> {
    pub a: Acct<N>,
    pub at: [usize; 2],
    pub end: usize,
}
pub fn two<const N: usize>(ids: [u32; 2], acts: [&[(u16, usize)]; 2], tail: usize) -> Two<N> {
    let mut a = Acct::<N>::new(any(), ID, lamports(), 0, any());
    let (e0, e1);
    {
        let r = &mut a.data[48..];
        e0 = put_role(r, 0, 1, ids[0], acts[0]);
        e1 = put_role(r, e0, 1, ids[1], acts[1]);
    }
    let c: u32 = any();
    assume(c > ids[0] && c > ids[1] && c != u32::MAX);
    put_header(&mut a.data, 2, c);
    a.len = (48 + e1 + tail) as u64;
    Two { a, at: [48, 48 + e0], end: 48 + e1 }
}
/// (is signer, key) of an account.
pub type Hd = (u8, [u8; 32]);
pub fn hd<const N: usize>(a: &Acct<N>) -> Hd {
    (a.signer, a.key)
}
pub fn k32(d: &[u8], at: usize) -> [u8; 32] {
    let mut k = [0u8; 32];
    let mut i = 0;
    while i < 32 {
        k[i] = d[at + i];
        i += 1;
    }
    k
}
/// The account named by `p` signed and is `key`.
pub fn signed(p: u8, a: &[Hd], key: &[u8; 32]) -> bool {
    let mut ok = false;
    let mut i = 0;
    while i < a.len() {
        ok |= p as usize == i && a[i].0 == 1 && eq32(&a[i].1, key);
        i += 1;
    }
    ok
}
/// The last derivation was of this wallet's own address (with the bump, if given).
pub fn derived_wallet_address(key: &[u8; 32], bump: Option<u8>) -> bool {
    let e = unsafe { &ENV };
    cat_is(&e.pda_cat, e.pda_cat_len, key, bump) && eq32(&e.pda_prog, &ID)
}
/// `key` is the program's own address for these seeds, which was derived while the instruction ran.
pub fn derived(key: &[u8; 32], seeds: &[&[u8]]) -> bool {
    let p = unsafe { &PDAS[slot(seeds[0].len())] };
    let mut ok = p.used && eq32(&p.prog, &ID) && eq32(&p.out, key);
    let n = seeds_are(&p.cat, seeds, &mut ok);
    ok && p.len == n
}
/// Clears `ok` unless `cat` starts with these seeds; returns their total length.
pub fn seeds_are(cat: &[u8], seeds: &[&[u8]], ok: &mut bool) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < seeds.len() {
        *ok &= moved(cat, n, seeds[i], 0, seeds[i].len());
        n += seeds[i].len();
        i += 1;
    }
    n
}
/// The call was signed with exactly these seeds and no others.
pub fn signed_with(x: &Cpi, seeds: &[&[u8]]) -> bool {
    let mut ok = x.signers == 1;
    let n = seeds_are(&x.cat, seeds, &mut ok);
    ok && x.cat_len == n
}
/// Every derivation has an arbitrary result of its own.
pub fn derivations() {
    unsafe {
        PDA_MULTI = true;
        let mut k = 0;
        while k < 6 {
            PDAS[k].out = any();
            PDAS[k].alt = any();
            k += 1;
        }
        ENV.pda_err = any();
        ENV.pda_bump = any();
    }
}
pub fn cat_is(cat: &[u8], n: usize, key: &[u8; 32], bump: Option<u8>) -> bool {
    const P: &[u8; 19] = b"swig-wallet-address";
    let mut ok = n == 51 + bump.is_some() as usize;
    let mut i = 0;
    while i < 19 {
        ok &= cat[i] == P[i];
        i += 1;
    }
    let mut i = 0;
    while i < 32 {
        ok &= cat[19 + i] == key[i];
        i += 1;
    }
    if let Some(b) = bump {
        ok &= cat[51] == b;
    }
    ok
}
/// A lamport balance below 2^60 (more than will ever exist).
pub fn lamports() -> u64 {
    let v: u64 = any();
    assume(v < 1 << 60);
    v
}
/// Writes a rent-claimer entry with an arbitrary claimer at `e`.
pub fn put_claimer(d: &mut [u8], e: usize) {
    d[e] = 1;
    d[e + 1] = 1;
    wr16(d, e + 2, 32);
    wr32(d, e + 4, 0);
}
/// Bytes `a..b` of two wallets agree.
pub fn same(x: &[u8], y: &[u8], a: usize, b: usize) -> bool {
    let mut s = true;
    let mut i = a;
    while i < b {
        s &= x[i] == y[i];
        i += 1;
    }
    s
}

/// A role that acts: which one (0 or 1; 2 is a role that is not there) and what it is called.
pub const IDS: [u32; 3] = [0, 5, 3];
pub const FULL: u16 = 7;
pub const MANAGE: u16 = 8;
pub const CLOSE: u16 = 20;
/// Bytes `a..a+n` of `x` are bytes `b..b+n` of `y`.
pub fn moved(x: &[u8], a: usize, y: &[u8], b: usize, n: usize) -> bool {
    let mut s = true;
    let mut i = 0;
    while i < n {
        s &= x[a + i] == y[b + i];
        i += 1;
    }
    s
}
/// `Vec::extend_from_slice` for byte vectors: the bytes live in one fixed buffer.
#[cfg(kani)]
pub mod heap {
    static mut B: [u8; 512] = [0; 512];
    static mut N: usize = 0;
    pub fn extend<T: Clone, A: std::alloc::Allocator>(v: &mut Vec<T, A>, s: &[T]) {
        unsafe {
            if core::mem::size_of::<T>() != 1 {
                crate::nd::assume(false);
            }
            let n = v.len();
            let p = if n == 0 { (&raw mut B as *mut u8).add(N) } else { v.as_mut_ptr() as *mut u8 };
            if N + s.len() > 512 {
                crate::nd::assume(false);
            }
            let q = s.as_ptr() as *const u8;
            let mut i = 0;
            while i < s.len() {
                *p.add(n + i) = *q.add(i);
                i += 1;
            }
            N += s.len();
            if n == 0 {
                let a = core::ptr::read(Vec::allocator(v));
                core::ptr::write(v, Vec::from_raw_parts_in(p as *mut T, s.len(), 0, a));
            } else {
                v.set_len(n + s.len());
            }
        }
    }
    static mut W: [u64; 8] = [0; 8];
    /// The same for the one vector of words the program pushes to.
    pub fn push<T, A: std::alloc::Allocator>(v: &mut Vec<T, A>, x: T) {
        unsafe {
            let n = v.len();
            if core::mem::size_of::<T>() != 8 || n >= 8 {
                crate::nd::assume(false);
            }
            let p = &raw mut W as *mut T;
            if n == 0 {
                let a = core::ptr::read(Vec::allocator(v));
                core::ptr::write(v, Vec::from_raw_parts_in(p, 0, 0, a));
            }
            core::ptr::write(p.add(n), x);
            v.set_len(n + 1);
        }
    }
    /// Orders a short slice as the library's sort does.
    pub fn sort<T, F: FnMut(&T, &T) -> bool>(v: &mut [T], is_less: &mut F) {
        let mut i = 1;
        while i < v.len() {
            let mut j = i;
            while j > 0 && is_less(&v[j], &v[j - 1]) {
                v.swap(j, j - 1);
                j -= 1;
            }
            i += 1;
        }
    }
}

/// A wallet of a Secp256k1 root role with full permission and an Ed25519 role that may close.
pub fn k1_wallet<const N: usize>() -> Two<N> {
    k1_wallet_with(&[(FULL, 0)])
}
/// The same with other permissions of the root.
pub fn k1_wallet_with<const N: usize>(l: &[(u16, usize)]) -> Two<N> {
    let mut a = Acct::<N>::new(any(), ID, lamports(), 0, any());
    let (e0, e1);
    {
        let r = &mut a.data[48..];
        e0 = put_role(r, 0, 3, 0, l);
        e1 = put_role(r, e0, 1, 5, &[(CLOSE, 0)]);
    }
    let c: u32 = any();
    assume(c > 5 && c != u32::MAX);
    put_header(&mut a.data, 2, c);
    a.len = (48 + e1) as u64;
    assume(a.lamports >= rent_exempt(48 + e1));
    unsafe {
        ENV.slot = any();
        ENV.hash_n = 0;
        ENV.rec_n = 0;
        ENV.hash_out[0] = any();
        ENV.hash_out[1] = any();
        ENV.rec_out = any();
        ENV.rec_ret = any::<bool>() as u64;
    }
    Two { a, at: [48, 48 + e0], end: 48 + e1 }
}
/// What the signature was checked over starts with exactly `d[from..to]`, followed by `n` accounts,
/// the slot and the counter, and the root role's counter advanced.
pub fn k1_bound(before: &[u8], after: &[u8], d: &[u8], from: usize, to: usize, n: usize) -> bool {
    let e = unsafe { &ENV };
    let h = unsafe { &HASH_IN[0] };
    let dl = to - from;
    e.rec_n == 1 && e.rec_ret == 0 && e.hash_n == 2 && e.hash_len[0] == dl + 40 * n + 12 && moved(h, 0, d, from, dl)
        && rd32(h, dl + 40 * n + 8) == rd32(before, 100).wrapping_add(1) && rd32(after, 100) == rd32(before, 100).wrapping_add(1)
}
