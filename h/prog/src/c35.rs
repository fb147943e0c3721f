//! C35: replacing a role's signer changes the signer and nothing else.
//@ only: replace_authority_v1
#![allow(static_mut_refs)]
use crate::{acct::*, nd::*, roles::*, sys::*, wallet::*};
use pinocchio::{account_info::AccountInfo, sysvars::instructions::INSTRUCTIONS_ID};

const N: usize = 384;
/// The acting role has an arbitrary permission and may replace one arbitrary role's signer.
const ACT: &[(u16, usize)] = &[(FULL, 0), (21, 8)];

/// The role at `at`, of kind `kind`, now has the signer `new` (or, from 64 bytes, its compressed form).
fn has_signer(kind: u16, a: &[u8], b: &[u8], at: usize, d: &[u8], n: usize) -> bool {
    let s = at + 16;
    let new = 16;
    match kind {
        1 => moved(a, s, d, new, 32),
        2 => moved(a, s, d, new, 32) && moved(a, s + 32, &[0; 32], 0, 32) && moved(a, s + 64, b, s + 64, 8) && moved(a, s + 72, &[0; 8], 0, 8),
        _ => {
            let key = if n == 33 { moved(a, s, d, new, 33) } else { a[s] == 2 + (d[new + 63] & 1) && moved(a, s + 1, d, new, 32) };
            let rest = kind == 3 || kind == 5
                || moved(a, s + 40, &[0; 32], 0, 32) && moved(a, s + 72, b, s + 72, 8) && moved(a, s + 80, &[0; 8], 0, 8);
            key && rd32(a, s + 36) == 0 && rest
        }
    }
}
/// Everything but the signer of the role of kind `kind` at `at` is as it was.
fn only_signer(kind: u16, a: &[u8], b: &[u8], at: usize, end: usize) -> bool {
    same(a, b, 0, at + 16) && same(a, b, at + 16 + AUTH[kind as usize].1, end)
}
/// Was the old signer the new one?
fn same_signer(kind: u16, b: &[u8], at: usize, d: &[u8], n: usize) -> bool {
    match n {
        64 => b[at + 16] == 2 + (d[16 + 63] & 1) && moved(b, at + 17, d, 16, 32),
        _ => moved(b, at + 16, d, 16, if kind < 3 { 32 } else { 33 }),
    }
}
struct W {
    a: Acct<N>,
    at: [usize; 3],
    end: usize,
    kind: u16,
}
/// An Ed25519 role 0, a role 5 of kind `kind`, and an Ed25519 role 9.  Role `who` acts.
fn wallet(kind: u16, who: usize) -> W {
    let mut a = Acct::<N>::new(any(), any(), lamports(), 0, any());
    let (e0, e1, e2);
    {
        let r = &mut a.data[48..];
        e0 = put_role(r, 0, 1, 0, if who == 0 { ACT } else { &[(CLOSE, 0)] });
        e1 = put_role(r, e0, kind, 5, if who == 1 { ACT } else { &[(1, 8)] });
        e2 = put_role(r, e1, 1, 9, &[(CLOSE, 0)]);
    }
    let at = [48, 48 + e0, 48 + e1];
    let k: u16 = any();
    if who < 2 {
        // its own body is empty: a replace permission with an empty body is ill-formed (C06)
        assume(k != 21);
        wr16(&mut a.data, at[who] + 16 + 32 * (who == 0 || kind == 1) as usize, k);
    }
    put_header(&mut a.data, 3, any());
    a.data[0] = any();
    a.len = (48 + e2) as u64;
    Acct::<0>::key([0; 32]);
    W { a, at, end: 48 + e2, kind: k }
}
/// Role `who` (0, 1, or 2: absent) replaces the signer of role `target` (0, 1, or 2: absent); role 1 is
/// of kind `kind`; the new signer has `n` bytes.
fn replace(kind: u16, who: usize, target: usize, n: usize) {
    let mut w = wallet(kind, who);
    let before = w.a;
    let mut sg = Acct::<0>::key(any());
    sg.signer = any::<bool>() as u8;
    let mut x = Acct::<0>::key(any());
    x.signer = any::<bool>() as u8;
    let h = [hd(&w.a), hd(&x), hd(&sg)];
    let infos: [AccountInfo; 3] = [w.a.info(), x.info(), sg.info()];
    let mut c = classes::<3>();
    let mut d: Al<96> = Al(any());
    wr16(&mut d.0, 0, 16);
    wr32(&mut d.0, 4, IDS[who]);
    wr32(&mut d.0, 8, IDS[target]);
    wr32(&mut d.0, 12, n as u32);
    wr16(&mut d.0, 2, 0);
    let p = d.0[16 + n];
    unsafe { ENV.slot = any() };
    let ok = call(&infos, &mut c, &d.0[..17 + n]).is_ok();
    let tk = if target == 1 { kind } else { 1 };
    let fits = match tk {
        1 | 2 => n == 32,
        3 | 4 => n == 33 || n == 64,
        5 | 6 => n == 33,
        _ => false,
    };
    wit!(ok || who == 2 || target == 2 || !fits, "replaced");
    let (a, b) = (&w.a.data, &before.data);
    let at = w.at[who & 1];
    let auth = who < 2 && signed(p, &h, &k32(b, at + 16));
    // the second permission's body follows the first's header
    let may = w.kind == FULL || w.kind == MANAGE || rd32(b, at + 64) == IDS[target];
    if ok {
        chk!(who < 2 && target < 2, "absent roles replace nothing and are not replaced");
        chk!(auth, "the acting role's own signer signed");
        chk!(may, "the acting role may replace this signer");
        chk!(eq32(&before.owner, &ID) && b[0] == 1, "only a wallet's roles are replaced");
        chk!(fits, "the new signer has the right size for the role's kind");
        let t = w.at[target & 1];
        chk!(!same_signer(tk, b, t, &d.0, n), "the new signer is another one");
        chk!(only_signer(tk, a, b, t, w.end) && w.a.len == before.len, "id, kind, permissions and other roles stay as they were");
        chk!(has_signer(tk, a, b, t, &d.0, n), "the role has the new signer, a fresh counter and no live session");
    } else if !(auth && may) {
        chk!(same(a, b, 0, w.end), "a refused request changes nothing");
    }
}
/// A program-execution role 0 replaces the signer of the Ed25519 role 5; the instructions account holds
/// one earlier instruction with two accounts and `l` data bytes.
fn by_program(l: usize, named: bool) {
    let mut a = Acct::<N>::new(any(), ID, lamports(), 0, any());
    let (e0, e1);
    {
        let r = &mut a.data[48..];
        e0 = put_role(r, 0, 7, 0, &[(FULL, 0)]);
        e1 = put_role(r, e0, 1, 5, &[(CLOSE, 0)]);
    }
    put_header(&mut a.data, 2, any());
    a.len = (48 + e1) as u64;
    a.data[64 + 32] = 8;
    let before = a;
    let mut wa = Acct::<0>::key(any());
    let mut sv = Acct::<256>::new(any(), any(), 0, 0, any());
    // two instructions; the second is this request
    wr16(&mut sv.data, 0, 2);
    wr16(&mut sv.data, 2, 6);
    wr16(&mut sv.data, 6, 2);
    let o = 6 + 2 + 66 + 32;
    wr16(&mut sv.data, o, l as u16);
    let at = o + 2;
    wr16(&mut sv.data, 4, (at + l) as u16);
    wr16(&mut sv.data, at + l, 0);
    wr16(&mut sv.data, at + l + 2 + 32, 0);
    let cur = at + l + 2 + 32 + 2;
    wr16(&mut sv.data, cur, 1);
    sv.len = (cur + 2) as u64;
    assume(!eq32(&a.key, &INSTRUCTIONS_ID) && !eq32(&wa.key, &INSTRUCTIONS_ID));
    let infos: [AccountInfo; 3] = [a.info(), wa.info(), sv.info()];
    let mut c = classes::<3>();
    let mut d: Al<64> = Al(any());
    wr16(&mut d.0, 0, 16);
    wr32(&mut d.0, 4, 0);
    wr32(&mut d.0, 8, 5);
    wr32(&mut d.0, 12, 32);
    wr16(&mut d.0, 2, 0);
    d.0[48] = 2;
    d.0[49] = 0;
    unsafe {
        ENV.pda = any();
        ENV.pda_bump = any();
        ENV.hash_n = 0;
        ENV.hash_out[0] = any();
    }
    let ok = call(&infos, &mut c, &d.0[..if named { 50 } else { 49 }]).is_ok();
    wit!(ok || l != 40, "replaced");
    if ok {
        let (x, y) = (&a.data, &before.data);
        let e = unsafe { &ENV };
        let h = unsafe { &HASH_IN[0] };
        chk!(l == 40 && moved(&sv.data, at, b"rplauth1", 0, 8), "the earlier instruction approves a replacement");
        chk!(eq32(&k32(&sv.data, at + 8), &e.hash_out[0]) && e.hash_n == 1, "and names a digest");
        chk!(e.hash_kind[0] == 1 && e.hash_len[0] == 25 + 64 + 10 + 64, "of everything about the replacement");
        chk!(moved(h, 0, b"swig-replace-authority-v1", 0, 25) && moved(h, 25, &before.key, 0, 32) && moved(h, 57, &wa.key, 0, 32), "this wallet");
        chk!(rd32(h, 89) == 0 && rd32(h, 93) == 5 && rd16(h, 97) == 1, "these roles");
        chk!(moved(h, 99, y, 48 + e0 + 16, 32) && moved(h, 131, &d.0, 16, 32), "the old and the new signer");
        chk!(moved(&sv.data, o - 32, y, 64, 32) && moved(&sv.data, at, y, 104, 8), "the configured program and prefix");
        chk!(moved(&sv.data, 9, &before.key, 0, 32) && moved(&sv.data, 42, &wa.key, 0, 32) && eq32(&wa.key, &e.pda) && derived_wallet_address(&before.key, None), "over this wallet and its address");
        chk!(eq32(&sv.key, &INSTRUCTIONS_ID), "read from the instructions account");
        chk!(only_signer(1, x, y, 48 + e0, 48 + e1) && has_signer(1, x, y, 48 + e0, &d.0, 32), "only the signer changes");
    }
}
harnesses! {
    /// bound: an Ed25519 role's signer; every new signer, stored content, permission kind, id in the grant, key, owner and signer @fs=512
    [400, 400] fn c35_ed25519() { replace(1, 0, 1, 32) }
    /// bound: an Ed25519 session role's signer @fs=512
    [400, 400] fn c35_ed25519_session() { replace(2, 0, 1, 32) }
    /// bound: a Secp256k1 role's signer, compressed @fs=512
    [400, 400] fn c35_k1() { replace(3, 0, 1, 33) }
    /// bound: a Secp256k1 role's signer, uncompressed @fs=512
    [400, 400] fn c35_k1_long() { replace(3, 0, 1, 64) }
    /// bound: a Secp256k1 session role's signer, uncompressed @fs=512
    [400, 400] fn c35_k1_session() { replace(4, 0, 1, 64) }
    /// bound: a Secp256r1 role's signer @fs=512
    [400, 400] fn c35_r1() { replace(5, 0, 1, 33) }
    /// bound: a Secp256r1 session role's signer @fs=512
    [400, 400] fn c35_r1_session() { replace(6, 0, 1, 33) }
    /// bound: program-execution roles have no signer to replace; new signers of another kind's size @fs=512 @weight=3
    [400, 400] fn c35_unfit() { replace(7, 0, 1, 32); replace(8, 0, 1, 33); replace(1, 0, 1, 33); replace(2, 0, 1, 64); replace(6, 0, 1, 32); }
    /// bound: another role replaces the root's signer @fs=512
    [400, 400] fn c35_root() { replace(1, 1, 0, 32) }
    /// bound: a role replaces its own signer @fs=512
    [400, 400] fn c35_self() { replace(1, 1, 1, 32) }
    /// bound: by or of a role that is not there; sizes no kind has @fs=512
    [400, 400] fn c35_absent() { replace(1, 2, 1, 32); replace(1, 0, 2, 32); replace(3, 0, 1, 34); }
    /// bound: approved by an earlier instruction of the configured program, previous one; every byte, key, digest and prefix @fs=512 #px
    [400, 400] fn c35_program() { by_program(40, false) }
    /// bound: approved by a named earlier instruction; approvals of another length @fs=512 #px
    [400, 400] fn c35_program_named() { by_program(40, true); by_program(39, true); }
    /// bound: a Secp256k1 root role replaces another role's signer; every signature, content and digest @fs=512 #k1 @memcmp=68
    [400, 400] fn c35_signed() {
        let mut t = k1_wallet::<N>();
        let before = t.a;
        let mut x = Acct::<0>::key(any());
        let infos: [AccountInfo; 2] = [t.a.info(), x.info()];
        let mut c = classes::<2>();
        let mut d: Al<128> = Al(any());
        wr16(&mut d.0, 0, 16);
        wr32(&mut d.0, 4, 0);
        wr32(&mut d.0, 8, 5);
        wr32(&mut d.0, 12, 32);
        wr16(&mut d.0, 2, 0);
        let ok = call(&infos, &mut c, &d.0[..48 + 78]).is_ok();
        wit!(ok, "replaced");
        if ok {
            chk!(k1_bound(&before.data, &t.a.data, &d.0, 0, 48, 2), "the signature covers the whole request with the new signer and is used up");
        }
    }
}
