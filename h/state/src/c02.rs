//! C02: adding a role stores it verbatim under a fresh id and disturbs nothing else.
use crate::{nd::*, roles::*};
use swig_state::{authority::AuthorityType, swig::SwigBuilder};

const N: usize = 448;

/// What the new role's authority bytes must be (None: not specified).
fn auth_byte(t: u16, d: &[u8], n: usize, i: usize) -> Option<u8> {
    match t {
        1 => Some(d[i]),
        2 => Some(if i < 72 { d[i] } else { 0 }),
        3 | 5 => Some(if i < 33 { key(d, n, i) } else { 0 }),
        4 => Some(if i < 33 { skey(d, i) } else if i < 40 { 0 } else if i < 80 { d[64 + i - 40] } else { 0 }),
        // 33-byte key, 7 bytes of padding, session key, maximum age
        6 => Some(if i < 33 { d[i] } else if i < 40 { 0 } else if i < 80 { d[i] } else { 0 }),
        7 => {
            let p = d[32] as usize;
            if i < 33 || (i >= 40 && i < 40 + p) { Some(d[i]) } else { None }
        }
        _ => if i < 33 || (i >= 40 && i < 120) { Some(d[i]) } else if i >= 120 { Some(0) } else { None },
    }
}
/// 33 bytes are stored as they are, 64 bytes are compressed.
fn key(d: &[u8], n: usize, i: usize) -> u8 {
    if n == 33 { d[i] } else if i == 0 { 2 | (d[63] & 1) } else { d[i - 1] }
}
/// Session keys always come in 64 bytes; a compressed one is padded with zeros.
fn skey(d: &[u8], i: usize) -> u8 {
    let mut z = true;
    let mut j = 33;
    while j < 64 {
        z &= d[j] == 0;
        j += 1;
    }
    if z { d[i] } else { key(d, 64, i) }
}
const SWIG: [u8; 32] = swig_assertions::ID;

const PLAIN: [(u16, usize); 3] = [(3, 32), (1, 8), (8, 0)];

/// `t`: kind of the new role, `e`: number of existing roles, `free`: the permission contents may be invalid.
fn add(t: u16, e: usize, len: usize, d: &[u8; 130], n: usize, free: bool, kinds: [(u16, usize); 3]) {
    let mut a: Al<N> = Al(any());
    let cnt: u32 = any();
    assume(cnt >= 3 && cnt < u32::MAX);
    put_header(&mut a.0, e as u16, cnt);
    let mut end = 48;
    let (i0, i1): (u32, u32) = (any(), any());
    assume(i0 < cnt && i1 < cnt && i0 != i1);
    {
        let r = &mut a.0[48..];
        let mut c = 0;
        if e > 0 {
            c = put_role(r, c, 1, i0, &[(1, 8)]);
        }
        if e > 1 {
            c = put_role(r, c, 2, i1, &[(7, 0), (16, 40)]);
        }
        end += c;
    }
    // what the handlers leave after the roles: at most one old tail entry, then zeros
    a.0[end + 40..].fill(0);
    let old = a;
    // the client's permission boundaries are arbitrary
    let mut acts: Al<192> = Al(any());
    let s1 = 8 + kinds[0].1;
    let s2 = s1 + 8 + kinds[1].1;
    let total = s2 + 8 + kinds[2].1;
    wr16(&mut acts.0, 0, kinds[0].0);
    wr16(&mut acts.0, 2, kinds[0].1 as u16);
    wr16(&mut acts.0, s1, kinds[1].0);
    wr16(&mut acts.0, s1 + 2, kinds[1].1 as u16);
    wr16(&mut acts.0, s2, kinds[2].0);
    wr16(&mut acts.0, s2 + 2, kinds[2].1 as u16);
    let ty = match t { 1 => AuthorityType::Ed25519, 2 => AuthorityType::Ed25519Session, 3 => AuthorityType::Secp256k1, 4 => AuthorityType::Secp256k1Session,
        5 => AuthorityType::Secp256r1, 6 => AuthorityType::Secp256r1Session, 7 => AuthorityType::ProgramExec, _ => AuthorityType::ProgramExecSession };
    let fits = n == len || (t == 3 && n == 64);
    let ok = fits && (t < 7 || (d[32] <= 40 && !(w(d, 0) == w(&SWIG, 0) && w(d, 8) == w(&SWIG, 8) && w(d, 16) == w(&SWIG, 16) && w(d, 24) == w(&SWIG, 24))));
    let copy = acts;
    let r = match SwigBuilder::new_from_bytes(&mut a.0) {
        Ok(mut b) => b.add_role(ty, &d[..n], &copy.0[..total]),
        Err(_) => { chk!(false, "the wallet opens"); return }
    };
    let i = idx(N);
    if i < end && (i < 34 || i >= 40) {
        chk!(a.0[i] == old.0[i], "existing roles and the rest of the header are unchanged");
    }
    match r {
        Ok(()) => {
            chk!(ok, "malformed authority data is refused");
            chk!(rd16(&a.0, 34) == e as u16 + 1 && rd32(&a.0, 36) == cnt + 1, "the role count and the id counter grow by one");
            let al = AUTH[t as usize].1;
            chk!(rd16(&a.0, end) == t && rd16(&a.0, end + 2) == al as u16 && rd16(&a.0, end + 4) == 3, "the new record names its kind, size and permissions");
            chk!(rd32(&a.0, end + 8) == cnt, "the new role has an id no role has had");
            chk!(rd32(&a.0, end + 12) == (end - 48 + 16 + al + total) as u32, "the new record ends where its permissions end");
            let k = idx(128);
            if k < al {
                if let Some(x) = auth_byte(t, d, n, k) {
                    chk!(a.0[end + 16 + k] == x, "the authority is stored as supplied");
                }
            }
            let b = end + 16 + al;
            chk!(rd32(&a.0, b + 4) == s1 as u32 && rd32(&a.0, b + s1 + 4) == s2 as u32 && rd32(&a.0, b + s2 + 4) == total as u32, "each permission is chained to the next");
            let m = idx(192);
            if m < total && !((m >= 4 && m < 8) || (m >= s1 + 4 && m < s1 + 8) || (m >= s2 + 4 && m < s2 + 8)) {
                chk!(a.0[b + m] == acts.0[m], "the permissions are stored as supplied");
            }
            wit!(d[5] == 7 && i0 == 2, "added");
        }
        Err(_) => {
            chk!(rd16(&a.0, 34) == e as u16 && rd32(&a.0, 36) == cnt, "a refused addition changes no count");
            chk!(!ok || free, "a well-formed role is added");
        }
    }
}
fn kinds(x: [(u16, usize); 3], y: [(u16, usize); 3], z: [(u16, usize); 3]) {
    let d: [u8; 130] = any();
    match any::<u8>() {
        0 => add(1, 1, 32, &d, 32, true, x),
        1 => add(1, 1, 32, &d, 32, true, y),
        _ => add(1, 1, 32, &d, 32, true, z),
    }
}
fn both(t: u16, len: usize, other: usize) {
    let mut d: [u8; 130] = any();
    if t == 4 && any() {
        // a compressed key padded with zeros
        let mut j = 33;
        while j < 64 {
            d[j] = 0;
            j += 1;
        }
    }
    if any() {
        add(t, 1, len, &d, len, false, PLAIN);
    } else {
        add(t, 1, len, &d, other, false, PLAIN);
    }
    if cfg!(feature = "thorough") {
        add(t, 2, len, &d, len, false, PLAIN);
    }
}

harnesses! {
    /// bound: one existing role, permission lists covering each kind, all contents; Ed25519 #nopanic @fs=512
    [132, 132] fn c02_kinds_a() { kinds([(1, 8), (2, 32), (3, 32)], [(5, 40), (6, 64), (7, 0)], [(9, 72), (10, 8), (12, 0)]) }
    /// bound: as above, further kinds #nopanic @fs=512
    [132, 132] fn c02_kinds_b() { kinds([(11, 32), (14, 32), (15, 0)], [(16, 40), (17, 64), (13, 0)], [(18, 72), (20, 0), (21, 8)]) }
    /// bound: as above, further kinds #nopanic @fs=512
    [132, 132] fn c02_kinds_c() { kinds([(19, 96), (22, 0), (23, 8)], [(8, 0), (24, 8), (4, 144)], [(25, 8), (26, 8), (26, 8)]) }
    /// bound: no existing role, all contents; Ed25519 #nopanic @fs=512
    [132, 132] fn c02_first() {
        let d: [u8; 130] = any();
        add(1, 0, 32, &d, 32, false, PLAIN);
    }
    /// bound: two existing roles, all contents, Ed25519 #nopanic @fs=512
    [132, 132] fn c02_ed25519_two() {
        let d: [u8; 130] = any();
        add(1, 2, 32, &d, 32, false, PLAIN);
    }
    /// bound: one existing role (thorough: also two), all contents, data of the right and of another length; Ed25519 #nopanic @fs=512
    [132, 132] fn c02_ed25519() { both(1, 32, 33) }
    /// bound: as above, Ed25519 session #nopanic @fs=512
    [132, 132] fn c02_ed25519_session() { both(2, 72, 80) }
    /// bound: as above, Secp256k1, compressed and uncompressed #nopanic @fs=512
    [132, 132] fn c02_secp256k1() { both(3, 33, 64) }
    /// bound: as above, Secp256k1 session #nopanic @fs=512
    [132, 132] fn c02_secp256k1_session() { both(4, 104, 88) }
    /// bound: as above, Secp256r1 #nopanic @fs=512
    [132, 132] fn c02_secp256r1() { both(5, 33, 64) }
    /// bound: as above, Secp256r1 session #nopanic @fs=512
    [132, 132] fn c02_secp256r1_session() { both(6, 80, 88) }
    /// bound: as above, program execution #nopanic @fs=512
    [132, 132] fn c02_program_exec() { both(7, 80, 40) }
    /// bound: as above, program execution session #nopanic @fs=512
    [132, 132] fn c02_program_exec_session() { both(8, 128, 120) }
}
