//! C36: every account the wallet controls is recognised before an instruction runs.
#![allow(static_mut_refs)]
use crate::{acct::*, nd::*, sys::*, wallet::*};
use core::mem::MaybeUninit;
use pinocchio::{account_info::AccountInfo};
use pinocchio::entrypoint::InstructionContext;
use swig_state::{AccountClassification as A, StakeAccountState as S};

const N: usize = 320;
const ROOM: usize = 1280;
const SCOPE: (u16, usize) = (4, 144);
/// What the loader serializes for three accounts (the room behind each is never touched).
#[repr(C, align(8))]
struct In<const W: usize, const V: usize, const D: usize> {
    n: u64,
    a: Acct<W>,
    pa: [u64; ROOM],
    ra: u64,
    b: Acct<V>,
    pb: [u64; ROOM],
    rb: u64,
    c: Acct<D>,
    pc: [u64; ROOM],
    rc: u64,
    len: u64,
    d: [u8; 8],
}
/// How the entry point classifies the accounts (`None`: it refuses).
fn run<const W: usize, const V: usize, const D: usize>(a: Acct<W>, b: Acct<V>, c: Acct<D>) -> Option<[A; 3]> {
    unsafe {
        #[allow(invalid_value)]
        let mut m: In<W, V, D> = MaybeUninit::uninit().assume_init();
        let p = &raw mut m;
        (&raw mut (*p).n).write(3);
        (&raw mut (*p).a).write(a);
        (&raw mut (*p).b).write(b);
        (&raw mut (*p).c).write(c);
        (&raw mut (*p).len).write(0);
        classified(p as *mut u8)
    }
}
unsafe fn classified(p: *mut u8) -> Option<[A; 3]> {
    let mut infos: [MaybeUninit<AccountInfo>; 3] = [const { MaybeUninit::uninit() }; 3];
    let none = A::SwigSubAccount { lamports: 7 };
    let mut cs = [MaybeUninit::new(none), MaybeUninit::new(none), MaybeUninit::new(none)];
    // no instruction data: nothing is dispatched
    let r = swig::verif_execute(&mut InstructionContext::new_unchecked(p), &mut infos, &mut cs);
    chk!(r.is_err(), "an empty instruction is refused");
    let s = [cs[0].assume_init(), cs[1].assume_init(), cs[2].assume_init()];
    if matches!(s[2], A::SwigSubAccount { .. }) {
        return None;
    }
    Some(s)
}
fn owner(known: Option<[u8; 32]>) -> [u8; 32] {
    match known {
        Some(k) => k,
        None => any(),
    }
}
/// What comes first: a wallet, or something that differs from one in the owner or in its first byte.
#[derive(Clone, Copy, PartialEq)]
enum First {
    Wallet,
    Marked(u8),
    Owned([u8; 32]),
}
/// The first account, one after it, and a third account with `D` bytes and this owner (or any).
fn three<const D: usize>(f: First, scope: bool, own: Option<[u8; 32]>) {
    let l: &[(u16, usize)] = &[SCOPE];
    let mut t = two::<N>([0, 5], [&[(FULL, 0)], if scope { l } else { &[(CLOSE, 0)] }], 0);
    wr32(&mut t.a.data, 36, 6);
    match f {
        First::Marked(m) => t.a.data[0] = m,
        First::Owned(o) => t.a.owner = o,
        _ => (),
    }
    let b = Acct::<0>::new(any(), any(), lamports(), 0, []);
    let c = Acct::<D>::new(any(), owner(own), lamports(), D, any());
    let sc = t.at[1] + 56;
    let seen = run(t.a, b, c);
    let w = f == First::Wallet;
    let d = &c.data;
    wit!(seen.is_some(), "classified");
    if let Some(s) = seen {
        chk!(s[0] == if w { A::ThisSwigV2 { lamports: t.a.lamports } } else { A::None }, "the first account is this wallet exactly if it is one");
        let addr = w && eq32(&b.owner, &SYS);
        chk!(matches!(s[1], A::SwigWalletAddress) == addr, "the second is its address exactly if it is a plain account");
        let held = |at: usize| eq32(&k32(d, at), &t.a.key) || (addr && eq32(&k32(d, at), &b.key));
        let named = scope && eq32(&k32(&t.a.data, sc + 80), &c.key);
        if D >= 165 && (eq32(&c.owner, &TOKEN) || eq32(&c.owner, &TOKEN22)) {
            chk!(s[2] == if held(32) { A::SwigTokenAccount { balance: crate::nd::w(d, 64), spent: 0 } } else { A::None }, "a token account is the wallet's exactly if its authority is");
        } else if eq32(&c.owner, &STAKE) {
            if D >= 200 && held(44) {
                let st = match rd32(d, 0) {
                    0 => S::Uninitialized,
                    1 => S::Initialized,
                    2 => S::Stake,
                    _ => S::RewardsPool,
                };
                chk!(rd32(d, 0) < 4 && s[2] == A::SwigStakeAccount { state: st, balance: crate::nd::w(d, 156), lamports: c.lamports, spent: 0 }, "a stake account the wallet may withdraw from is the wallet's");
            } else {
                chk!(s[2] == A::None, "another's stake account is not");
            }
        } else if eq32(&c.owner, &ID) {
            chk!(s[2] == A::None && (w || D < 48 || c.data[0] != 1), "a wallet is only taken as the acting one in the first place");
        } else if named {
            chk!(matches!(s[2], A::ProgramScope { spent: 0, .. }), "an account under a scope is tracked");
        } else {
            chk!(s[2] == A::None, "nothing else is the wallet's");
        }
    }
}
const NOT: First = First::Owned(SYS);
harnesses! {
    /// bound: a token account after a wallet @fs=1280
    [260, 260] fn c36_token() { three::<165>(First::Wallet, false, Some(TOKEN)) }
}
