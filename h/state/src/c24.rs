//! C24: a compact bundle, serialised and decoded, gives the same instructions back.
use crate::{acct::*, nd::*};
use swig_compact_instructions::{CompactInstruction, CompactInstructions, InstructionIterator};

/// The encoder's own source (copied at every run with its hash map's path changed), compiled
/// against key types reduced to their equality.
#[path = "../../../build/gen/compact_instructions.rs"]
#[allow(dead_code)]
mod enc;
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};
fn key() -> Pubkey {
    let k: u8 = any();
    assume(k < 6);
    Pubkey(k)
}
fn meta() -> AccountMeta {
    AccountMeta { pubkey: key(), is_signer: any(), is_writable: any() }
}
/// The first `n` elements of `a` as a vector; for the solver it stays on the stack, where its
/// length and contents remain constants (a capacity of zero keeps it from being freed).
fn list<T, const N: usize>(a: &mut core::mem::ManuallyDrop<[T; N]>, n: usize, cap: usize) -> Vec<T> {
    #[cfg(kani)]
    unsafe {
        let mut v = Vec::from_raw_parts(a.as_mut_ptr(), 0, cap);
        v.set_len(n);
        return v;
    }
    let _ = cap;
    #[cfg(not(kani))]
    return (0..n).map(|i| unsafe { core::ptr::read(&a[i]) }).collect();
}
/// `Vec::push` for vectors that have room, or are empty and given room for eight.
#[cfg(kani)]
fn push_room<T, A: std::alloc::Allocator>(v: &mut Vec<T, A>, x: T) {
    if v.capacity() == 0 {
        v.reserve_exact(8);
    }
    let n = v.len();
    assume(n < v.capacity());
    unsafe {
        v.as_mut_ptr().add(n).write(x);
        v.set_len(n + 1);
    }
}
/// `first` accounts given up front, then instructions with `l[i]` accounts each.
fn compact<const Q: usize>(first: usize, l: [usize; Q], sub: bool) {
    use core::mem::ManuallyDrop as M;
    let swig = key();
    let own = key();
    let mut body: [[u8; 1]; Q] = any();
    let said = body;
    let mut given = M::new([meta(), meta(), meta(), meta(), meta(), meta(), meta(), meta()]);
    let mut k = [[Pubkey(0); 4]; Q];
    let mut all: [_; Q] = core::array::from_fn(|_| M::new([meta(), meta(), meta()]));
    let mut n = 0;
    let mut ixs = M::new(core::array::from_fn::<_, Q, _>(|q| {
        k[q][3] = key();
        for i in 0..l[q] {
            k[q][i] = all[q][i].pubkey;
        }
        n += l[q];
        #[cfg(kani)]
        let data = unsafe { Vec::from_raw_parts(body[q].as_mut_ptr(), 1, 1) };
        #[cfg(not(kani))]
        let data = body[q].to_vec();
        Instruction { program_id: k[q][3], accounts: list(&mut all[q], l[q], 0), data }
    }));
    let (given, ixs) = (list(&mut given, first, 8), list(&mut ixs, Q, 0));
    let (out, c) = if sub { enc::compact_instructions_sub_account(swig, own, given, ixs) } else { enc::compact_instructions(swig, given, ixs) };
    let (out, c) = (M::new(out), M::new(c));
    chk!(c.inner_instructions.len() == Q, "every instruction is kept");
    for q in 0..Q {
        let x = &c.inner_instructions[q];
        chk!(x.data.len() == 1 && x.data[0] == said[q][0], "the data is the instruction's own");
        chk!((x.program_id_index as usize) < out.len() && out[x.program_id_index as usize].pubkey == k[q][3], "the program resolves to the instruction's own");
        chk!(x.accounts.len() == l[q], "no account is lost or added");
        for i in 0..l[q] {
            chk!((x.accounts[i] as usize) < out.len() && out[x.accounts[i] as usize].pubkey == k[q][i], "every account resolves to its own key");
        }
    }
    wit!(out.len() < first + Q + n, "some shared");
}

struct Three {
    x: Acct<0>,
    y: Acct<0>,
    z: Acct<0>,
}
/// `list`: program, account indices and data length of each instruction.
fn round(list: &[(u8, &[u8], usize)]) {
    let mut t = Three { x: Acct::key(any()), y: Acct::key(any()), z: Acct::key(any()) };
    let v = [t.x.info(), t.y.info(), t.z.info()];
    let body: [u8; 24] = any();
    // the lists live on the stack, so that their lengths stay constants for the solver
    let mut accs = [[0u8; 3]; 3];
    let mut datas = [[0u8; 24]; 3];
    let empty = || CompactInstruction { program_id_index: 0, accounts: Vec::new(), data: Vec::new() };
    let mut arr = core::mem::ManuallyDrop::new([empty(), empty(), empty()]);
    let mut at = 0;
    for q in 0..list.len() {
        let l = list[q];
        for i in 0..l.1.len() { accs[q][i] = l.1[i]; }
        for i in 0..l.2 { datas[q][i] = body[at + i]; }
        arr[q].program_id_index = l.0;
        arr[q].accounts = unsafe { Vec::from_raw_parts(accs[q].as_mut_ptr(), l.1.len(), 3) };
        arr[q].data = unsafe { Vec::from_raw_parts(datas[q].as_mut_ptr(), l.2, 24) };
        at += l.2;
    }
    let c = core::mem::ManuallyDrop::new(CompactInstructions { inner_instructions: unsafe { Vec::from_raw_parts(arr.as_mut_ptr(), list.len(), 3) } });
    let bytes = core::mem::ManuallyDrop::new(c.into_bytes());
    // the same bundle laid out by hand; the decoder then runs on bytes known to be equal
    let mut d = [0u8; 48];
    d[0] = list.len() as u8;
    let (mut n, mut o) = (1, 0);
    for l in list {
        d[n] = l.0;
        d[n + 1] = l.1.len() as u8;
        n += 2;
        for i in 0..l.1.len() {
            d[n] = l.1[i];
            n += 1;
        }
        d[n] = l.2 as u8;
        n += 2;
        for _ in 0..l.2 {
            d[n] = body[o];
            n += 1;
            o += 1;
        }
    }
    chk!(bytes.len() == n, "the serialised bundle has no missing or extra bytes");
    for i in 0..n {
        chk!(bytes[i] == d[i], "the serialised bundle is laid out as the decoder reads it");
    }
    let sg = [1u8; 32];
    let no = [2u8; 32];
    let rk = [&no];
    let mut it = match InstructionIterator::new(&v[..], &d[..n], &sg, &rk[..]) {
        Ok(i) => i,
        Err(_) => { chk!(list.is_empty(), "a bundle opens"); return }
    };
    at = 0;
    for l in list {
        match it.next() {
            Some(Ok(h)) => {
                let h = core::mem::ManuallyDrop::new(h);
                chk!(h.program_id as *const _ == v[l.0 as usize].key() as *const _, "same program");
                chk!(h.accounts.len() == l.1.len(), "same number of accounts");
                for i in 0..l.1.len() {
                    chk!(h.accounts[i].pubkey as *const _ == v[l.1[i] as usize].key() as *const _, "same accounts in the same order");
                }
                chk!(h.data.len() == l.2, "same data length");
                if l.2 > 0 {
                    let k = idx(l.2);
                    chk!(h.data[k] == body[at + k], "same data");
                }
            }
            _ => chk!(false, "every serialised instruction is decoded"),
        }
        at += l.2;
    }
    chk!(it.next().is_none(), "nothing more is decoded");
    wit!(body[0] == 9, "round trip");
}
harnesses! {
    /// bound: no instruction; one instruction without accounts or data @fs=512
    [36, 36] fn c24_small() { round(&[]); round(&[(1, &[], 0)]) }
    /// bound: one instruction, three accounts with repetition, every five data bytes @fs=512
    [36, 36] fn c24_one() { round(&[(2, &[1, 0, 1], 5)]) }
    /// bound: two instructions sharing accounts, every data byte @fs=512
    [36, 36] fn c24_two() { round(&[(2, &[0], 3), (0, &[1, 2], 2)]) }
    /// bound: three instructions, empty ones in between @fs=512
    [36, 36] fn c24_three() { round(&[(0, &[], 1), (1, &[2], 0), (2, &[2, 0], 4)]) }
    /// bound: one instruction with 24 data bytes @fs=512
    [36, 36] fn c24_data() { round(&[(0, &[2], 24)]) }
    /// bound: encoder: two accounts up front, two instructions with two and one accounts; every key among six, every flag
    [12, 12] fn c24_compact() stub(std::vec::Vec::push => push_room) { compact(2, [2, 1], false) }
    /// bound: encoder for sub-accounts: one account up front, two instructions with one and two accounts; every key among six
    [12, 12] fn c24_compact_sub() stub(std::vec::Vec::push => push_room) { compact(1, [1, 2], true) }
    /// bound: encoder: nothing up front, one instruction with three accounts; every key among six
    [12, 12] fn c24_compact_bare() stub(std::vec::Vec::push => push_room) { compact(0, [3], false) }
    /// bound: encoder: one account up front, three instructions with one account each; every key among six
    [12, 12] fn c24_compact_three() stub(std::vec::Vec::push => push_room) { compact(1, [1, 1, 1], false) }
    /// bound: encoder for sub-accounts: two accounts up front, three instructions with two, none and two accounts #thorough
    [12, 12] fn c24_compact_deep() stub(std::vec::Vec::push => push_room) { compact(2, [2, 0, 2], true) }
}
