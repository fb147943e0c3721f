//! C16: a Secp256r1 authorization is verified by the precompile for this very request.
#![allow(static_mut_refs)]
use crate::{acct::*, nd::*, sys::*};
use pinocchio::{account_info::AccountInfo, sysvars::instructions::INSTRUCTIONS_ID};
use swig_state::{
    authority::{secp256r1::{verify_secp256r1_instruction_data, Secp256r1Authority, Secp256r1SessionAuthority, SECP256R1_PROGRAM_ID}, AuthorityInfo},
    Transmutable, TransmutableMut,
};

const AGE: u64 = 60;
const S: usize = 320;

/// Is this a single self-contained verification of `key` over the `ml` bytes at `msg`?
fn sound(d: &[u8], len: usize, key: &[u8], msg: &[u8], ml: usize) -> bool {
    if len < 113 + ml || d[0] != 1 {
        return false;
    }
    let mut same = true;
    let mut i = 0;
    while i < 33 {
        same &= d[16 + i] == key[i];
        i += 1;
    }
    let mut i = 0;
    while i < ml {
        same &= d[113 + i] == msg[i];
        i += 1;
    }
    // offsets: signature 2/4, key 6/8, message 10/12/14
    same && rd16(d, 4) == 0xffff && rd16(d, 6) == 16 && rd16(d, 8) == 0xffff && rd16(d, 10) == 113 && rd16(d, 12) as usize == ml && rd16(d, 14) == 0xffff
}
/// An instruction with no accounts and `len` data bytes at `at`; contents are left as they are.
fn put_ix(d: &mut [u8], at: usize, len: usize) -> usize {
    wr16(d, at, 0);
    wr16(d, at + 34, len as u16);
    at + 36 + len
}
struct Tx {
    /// program and data position of each instruction
    at: [usize; 3],
    len: [usize; 3],
    n: usize,
    total: usize,
}
/// The instructions account of a transaction of `lens.len()` instructions, `cur` being executed.
fn tx(d: &mut [u8], lens: &[usize], cur: u16) -> Tx {
    let mut t = Tx { at: [0; 3], len: [0; 3], n: lens.len(), total: 0 };
    wr16(d, 0, lens.len() as u16);
    let mut at = 2 + 2 * lens.len();
    for i in 0..lens.len() {
        wr16(d, 2 + 2 * i, at as u16);
        t.at[i] = at + 2;
        t.len[i] = lens[i];
        at = put_ix(d, at, lens[i]);
    }
    wr16(d, at, cur);
    t.total = at + 2;
    t
}
/// `n` accounts of which the last is offered as the instructions account; `pos` is the position
/// the request gives.
fn go(session: bool, n: usize, pos: usize, dl: usize, pl: usize, lens: &[usize], cur: usize) {
    let mut d: Al<88> = Al(any());
    let kept = d;
    let odo = rd32(&d.0, 36);
    let mut sv = Acct::<S>::new(any(), any(), 0, 0, any());
    let t = tx(&mut sv.data, lens, cur as u16);
    sv.len = t.total as u64;
    let mut a = [Acct::<8>::key(any()), Acct::<8>::key(any())];
    let mut infos: [AccountInfo; 3] = [a[0].info(), a[1].info(), sv.info()];
    for i in 0..2 {
        a[i].signer = any::<bool>() as u8;
        a[i].writable = any::<bool>() as u8;
        infos[i] = a[i].info();
    }
    sv.signer = any::<bool>() as u8;
    sv.writable = any::<bool>() as u8;
    infos[n - 1] = sv.info();
    let mut payload: [u8; 24] = any();
    payload[12] = pos as u8;
    let data: [u8; 16] = any();
    let slot: u64 = any();
    unsafe {
        ENV.hash_n = 0;
        ENV.hash_out[0] = any();
        ENV.hash_out[1] = any();
    }
    let len = if session { 88 } else { 40 };
    let r = unsafe {
        if session {
            Secp256r1SessionAuthority::load_mut_unchecked(&mut d.0[..len]).map(|x| x.authenticate(&infos[..n], &payload[..pl], &data[..dl], slot))
        } else {
            Secp256r1Authority::load_mut_unchecked(&mut d.0[..len]).map(|x| x.authenticate(&infos[..n], &payload[..pl], &data[..dl], slot))
        }
    };
    let ok = matches!(r, Ok(Ok(())));
    let e = unsafe { &ENV };
    wit!(!ok && rd32(&payload, 8) == odo.wrapping_add(1), "refused");
    if ok {
        chk!(pl == 17 && pos == n - 1 && cur > 0, "malformed requests, wrong positions and a missing predecessor are refused");
        chk!(eq32(&sv.key, &INSTRUCTIONS_ID), "only the runtime's instructions account is believed");
        let s = w(&payload, 0);
        chk!(s <= slot && slot - s <= AGE, "the signed slot is not in the future nor too old");
        chk!(rd32(&payload, 8) == odo.wrapping_add(1), "the signed counter follows the stored one");
        let at = t.at[cur - 1];
        let mut same = true;
        let mut i = 0;
        while i < 32 {
            same &= w(&sv.data, at + i) == w(&SECP256R1_PROGRAM_ID, i);
            i += 8;
        }
        chk!(same, "the preceding instruction is the signature precompile");
        chk!(sound(&sv.data[at + 34..], t.len[cur - 1], &kept.0, &e.hash_out[0], 32), "it verifies the stored key over this request's digest, in its own data");
        let h = unsafe { &HASH_IN[0] };
        chk!(e.hash_n == 1 && e.hash_len[0] == dl + 40 * n + 12, "everything signed is hashed, and nothing else");
        let mut same = true;
        let mut i = 0;
        while i < dl {
            same &= h[i] == data[i];
            i += 1;
        }
        chk!(same, "the exact payload is signed");
        let mut same = true;
        let mut k = 0;
        while k < n {
            let o = dl + 40 * k;
            let (key, wr, sg) = if k == n - 1 { (&sv.key, sv.writable, sv.signer) } else { (&a[k].key, a[k].writable, a[k].signer) };
            let mut i = 0;
            while i < 32 {
                same &= w(h, o + i) == w(key, i);
                i += 8;
            }
            same &= h[o + 32] == wr && h[o + 33] == sg;
            k += 1;
        }
        chk!(same, "the exact accounts and flags are signed");
        let o = dl + 40 * n;
        chk!(w(h, o) == s && rd32(h, o + 8) == odo.wrapping_add(1), "the slot and counter are signed");
    }
    let can = pl == 17 && pos == n - 1 && cur > 0 && t.len[cur - 1] >= 145;
    wit!(ok || !can, "accepted");
    let now = if ok { odo.wrapping_add(1) } else { odo };
    chk!(rd32(&d.0, 36) == now, "the counter advances by one exactly on success");
    let mut same = rd32(&d.0, 32) == rd32(&kept.0, 32);
    let mut i = 0;
    while i < 88 {
        same &= i == 32 || w(&d.0, i) == w(&kept.0, i);
        i += 8;
    }
    chk!(same, "no other stored byte changes");
}
/// The precompile instruction's data, for every length and every message length used.
fn data(ml: usize) {
    let d: Al<192> = Al(any());
    let len = any::<u8>() as usize;
    assume(len <= 192);
    let key: [u8; 33] = any();
    let msg: [u8; 80] = any();
    let r = verify_secp256r1_instruction_data(&d.0[..len], &key, &msg[..ml]).is_ok();
    let want = sound(&d.0, len, &key, &msg, ml);
    wit!(r, "accepted");
    chk!(!r || want, "only a single self-contained verification of this key and message is accepted");
    chk!(r || !want || len < 145, "and it is accepted");
}
harnesses! {
    /// bound: root role, two accounts, precompile instruction right before, 11 signed bytes, every content @fs=512
    [72, 72] fn c16_two() { go(false, 2, 1, 11, 17, &[145, 2], 1) }
    /// bound: three accounts, three instructions, the middle one decides @fs=512
    [72, 72] fn c16_three() { go(false, 3, 2, 4, 17, &[20, 150, 1], 2) }
    /// bound: three instructions, the first decides; the precompile may only be two before or after @fs=512
    [72, 72] fn c16_order() { go(false, 2, 1, 4, 17, &[3, 0, 145], 1); go(false, 2, 1, 4, 17, &[145, 1, 0], 2) }
    /// bound: first instruction of the transaction; wrong and out-of-range positions; short precompile data @fs=512
    [72, 72] fn c16_missing() { go(false, 2, 1, 4, 17, &[2, 145], 0); go(false, 2, 0, 4, 17, &[145, 2], 1); go(false, 2, 2, 4, 17, &[145, 2], 1); go(false, 2, 255, 4, 17, &[145, 2], 1) }
    /// bound: precompile data of 0, 15, 16, 144 bytes; requests of 0, 12, 16, 18 bytes @fs=512
    [72, 72] fn c16_short() {
        go(false, 2, 1, 4, 17, &[0, 2], 1);
        go(false, 2, 1, 4, 17, &[15, 2], 1);
        go(false, 2, 1, 4, 17, &[16, 2], 1);
        go(false, 2, 1, 4, 17, &[144, 2], 1);
    }
    /// bound: requests of 0, 12, 16 and 18 bytes @fs=512
    [72, 72] fn c16_requests() { go(false, 2, 1, 4, 0, &[145, 2], 1); go(false, 2, 1, 4, 12, &[145, 2], 1); go(false, 2, 1, 4, 16, &[145, 2], 1); go(false, 2, 1, 4, 18, &[145, 2], 1); }
    /// bound: session-capable role, two accounts @fs=512
    [72, 72] fn c16_session() { go(true, 2, 1, 8, 17, &[145, 2], 1) }
    /// bound: precompile data of every length up to 192 bytes, 32-byte message
    [82, 82] fn c16_data_32() { data(32) }
    /// bound: as above, 69-byte message
    [82, 82] fn c16_data_69() { data(69) }
}
