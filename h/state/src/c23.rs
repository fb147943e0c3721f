//! C23: signer privilege is granted only to the wallet's signer and real signers.
use crate::{acct::*, nd::*, sys};
use pinocchio::instruction::{Seed, Signer};
use swig_compact_instructions::InstructionIterator;

struct Three {
    x: Acct<0>,
    y: Acct<0>,
    z: Acct<0>,
}
/// Account keys with two symbolic bytes each (equality is what matters), arbitrary flags and owner.
fn one() -> Acct<0> {
    let mut key = [7u8; 32];
    key[0] = any();
    key[31] = any();
    let mut owner = [0u8; 32];
    owner[5] = any();
    let mut a = Acct::<0>::new(key, owner, any(), 0, []);
    a.signer = any::<bool>() as u8;
    a.writable = any::<bool>() as u8;
    a
}
fn key() -> [u8; 32] {
    let mut key = [7u8; 32];
    key[0] = any();
    key[31] = any();
    key
}
macro_rules! flags { ($v:ident, $h:ident, $idx:expr, $sg:ident, $r1:ident, $r2:ident) => {
    let mut uses = false;
    for i in 0..$idx.len() {
        let a = &$v[$idx[i] as usize];
        let m = &$h.accounts[i];
        let restricted = eq32(a.key(), &$r1) || eq32(a.key(), &$r2);
        chk!(!m.is_signer || eq32(a.key(), &$sg) || a.is_signer(), "only the wallet address and real signers are marked as signers");
        chk!(!m.is_signer || !restricted, "a restricted account is never marked as a signer");
        chk!(m.is_signer || restricted || !(eq32(a.key(), &$sg) || a.is_signer()), "an entitled account is marked as a signer");
        chk!(m.is_writable == a.is_writable(), "an account is writable exactly if the outer transaction made it so");
        uses |= m.is_signer && eq32(a.key(), &$sg);
    }
    chk!($h.uses_swig_signer == uses, "use of the wallet's signature is reported exactly");
} }

/// One decoded instruction over three accounts; `idx` selects its accounts.
fn decode(idx: &[u8]) {
    let mut t = Three { x: one(), y: one(), z: one() };
    let v = [t.x.info(), t.y.info(), t.z.info()];
    let (sg, r1, r2) = (key(), key(), key());
    let rks = [&r1, &r2];
    let mut d = [0u8; 16];
    d[0] = 2;
    d[1] = 2;
    d[2] = idx.len() as u8;
    for i in 0..idx.len() {
        d[3 + i] = idx[i];
    }
    let n = 3 + idx.len() + 2;
    // a second instruction using the first account
    d[n] = 2;
    d[n + 1] = 1;
    let mut it = match InstructionIterator::new(&v[..], &d[..n + 5], &sg, &rks[..]) {
        Ok(it) => it,
        Err(_) => { chk!(false, "opens"); return }
    };
    match it.next() {
        Some(Ok(h)) => {
            flags!(v, h, idx, sg, r1, r2);
            wit!(h.uses_swig_signer && !h.accounts[0].is_signer, "some signers");
            core::mem::forget(h);
        }
        _ => chk!(false, "decodes"),
    }
    match it.next() {
        Some(Ok(h)) => {
            let one = [0u8];
            flags!(v, h, one, sg, r1, r2);
            core::mem::forget(h);
        }
        _ => chk!(false, "decodes the second"),
    }
}
/// Executing a decoded instruction: what the runtime is asked to do.
fn exec<const L: usize>(idx: &[u8], system: bool, transfer: bool) {
    let mut t = Three { x: one(), y: one(), z: one() };
    if system { t.z.key = [0; 32]; }
    let v = [t.x.info(), t.y.info(), t.z.info()];
    let before = (unsafe { *v[0].borrow_lamports_unchecked() }, unsafe { *v[1].borrow_lamports_unchecked() });
    let sg = key();
    let no = [2u8; 32];
    let rks = [&no];
    let mut d = [0u8; 40];
    d[0] = 1;
    d[1] = 2;
    d[2] = idx.len() as u8;
    for i in 0..idx.len() {
        d[3 + i] = idx[i];
    }
    let n = 3 + idx.len() + 2;
    d[n - 2] = L as u8;
    let body: [u8; L] = any();
    d[n..n + L].copy_from_slice(&body);
    if transfer {
        d[n] = 2;
        d[n + 1] = 0;
        d[n + 2] = 0;
        d[n + 3] = 0;
    } else if system && L >= 12 {
        assume(body[0] != 2);
    }
    let mut it = match InstructionIterator::new(&v[..], &d[..n + L], &sg, &rks[..]) {
        Ok(it) => it,
        Err(_) => { chk!(false, "opens"); return }
    };
    let h = match it.next() {
        Some(Ok(h)) => h,
        _ => { chk!(false, "decodes"); return }
    };
    let h = core::mem::ManuallyDrop::new(h);
    let seed: [u8; 4] = any();
    let seeds = [Seed::from(&seed[..])];
    let sgs = [Signer::from(&seeds)];
    let own = eq32(&t.x.owner, &[0; 32]);
    let mine = idx.len() > 0 && eq32(v[idx[0] as usize].key(), &sg);
    let direct = system && transfer && mine && !own;
    if system && transfer && !direct {
        assume(own);
    }
    unsafe { sys::CPI_SYS = transfer };
    let r = h.execute(&v[..], &sg, &sgs[..]);
    let after = (unsafe { *v[0].borrow_lamports_unchecked() }, unsafe { *v[1].borrow_lamports_unchecked() });
    wit!(r.is_ok(), "executed");
    if direct {
        // the older program-owned wallets: lamports move without a call
        chk!(unsafe { sys::CPI_N } == 0, "a direct transfer makes no call");
        if idx.len() < 2 {
            chk!(r.is_err() && after == before, "a transfer without a destination moves nothing");
            return;
        }
        let amt = w(&body, 4);
        if r.is_ok() {
            chk!(amt <= before.0 && after.0 == before.0.wrapping_sub(amt) && after.1 as u128 == before.1 as u128 + amt as u128, "a direct transfer moves exactly its amount out of what is there");
        } else {
            chk!(amt > before.0 || before.1.checked_add(amt).is_none(), "a covered direct transfer is made");
            chk!(after == before, "a refused direct transfer moves nothing");
        }
        return;
    }
    chk!(r.is_ok() && unsafe { sys::CPI_N } == 1, "the instruction is called once");
    let c = unsafe { &sys::CPI[0] };
    chk!(eq32(&c.prog, v[2].key()) && c.n == idx.len() && c.infos == idx.len(), "the call is to the decoded program with the decoded accounts");
    for i in 0..idx.len() {
        let a = &v[idx[i] as usize];
        chk!(eq32(&c.keys[i], a.key()) && c.sg[i] == h.accounts[i].is_signer && c.wr[i] == h.accounts[i].is_writable, "the privileges passed are the decoded ones");
    }
    chk!(c.len == L, "the data passed is as long as decoded");
    let i = idx_below(L);
    chk!(c.data[i] == d[n + i], "the data passed is the decoded data");
    chk!(c.signers == 1 && c.seed_n == 1 && c.cat_len == 4 && rd32(&c.cat, 0) == rd32(&seed, 0), "only the given seeds sign");
}
fn idx_below(n: usize) -> usize { idx(n) }

harnesses! {
    /// bound: every list of three account indices starting with 0 over three accounts, every flag, two-byte keys @fs=512
    [14, 14] fn c23_a() { decode(&[0, 1, 2]) }
    /// bound: the same account twice and in other orders @fs=512
    [14, 14] fn c23_b() { decode(&[1, 0, 1]) }
    /// bound: two accounts @fs=512
    [14, 14] fn c23_c() { decode(&[2, 0]) }
    /// bound: a call of another program with two accounts and eight data bytes @fs=512
    [27, 27] fn c23_call() { exec::<8>(&[0, 1], false, false) }
    /// bound: a system instruction that is not a transfer @fs=512
    [27, 27] fn c23_system() { exec::<3>(&[0, 1], true, false) }
    /// bound: a system transfer, any amount, system-owned or program-owned source @fs=512
    [27, 27] fn c23_transfer() { exec::<12>(&[0, 1], true, true) }
    /// bound: a system transfer with a single account @fs=512
    [27, 27] fn c23_short() {
        let mut t = Three { x: one(), y: one(), z: one() };
        t.z.key = [0; 32];
        let sg = t.x.key;
        t.x.owner[5] = 1;
        let v = [t.x.info(), t.y.info(), t.z.info()];
        let no = [2u8; 32];
    let rks = [&no];
        let amt: [u8; 8] = any();
        let mut d = [1u8, 2, 1, 0, 12, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        d[10..18].copy_from_slice(&amt);
        let mut it = match InstructionIterator::new(&v[..], &d[..], &sg, &rks[..]) {
            Ok(it) => it,
            Err(_) => { chk!(false, "opens"); return }
        };
        let h = match it.next() {
            Some(Ok(h)) => core::mem::ManuallyDrop::new(h),
            _ => { chk!(false, "decodes"); return }
        };
        let b = unsafe { *v[0].borrow_lamports_unchecked() };
        let r = h.execute(&v[..], &sg, &[]);
        chk!(r.is_err() && unsafe { sys::CPI_N } == 0, "a transfer without a destination is refused");
        chk!(unsafe { *v[0].borrow_lamports_unchecked() } == b, "and moves nothing");
        wit!(b > 5, "refused");
    }
    /// bound: an instruction without accounts, every 13-byte body, any program @fs=512
    [27, 27] fn c23_bare() {
        let mut t = Three { x: one(), y: one(), z: one() };
        if any() { t.z.key = [0; 32]; }
        let sg = key();
        let v = [t.x.info(), t.y.info(), t.z.info()];
        let no = [2u8; 32];
    let rks = [&no];
        let body: [u8; 13] = any();
        let mut d = [0u8; 18];
        d[0] = 1; d[1] = 2; d[2] = 0; d[3] = 13;
        d[5..18].copy_from_slice(&body);
        let mut it = match InstructionIterator::new(&v[..], &d[..], &sg, &rks[..]) {
            Ok(it) => it,
            Err(_) => { chk!(false, "opens"); return }
        };
        let h = match it.next() {
            Some(Ok(h)) => core::mem::ManuallyDrop::new(h),
            _ => { chk!(false, "decodes"); return }
        };
        unsafe { sys::CPI_SYS = false };
        let r = h.execute(&v[..], &sg, &[]);
        chk!(r.is_ok() && unsafe { sys::CPI_N } == 1, "an instruction without accounts is called");
        wit!(body[4] > 5, "called");
    }
}
