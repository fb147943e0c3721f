//! C04: a role looked up by id or authority is that role and nothing else.
use crate::{nd::*, roles::*};
use swig_state::swig::{Swig, SwigWithRoles};

const ACTS: [&[(u16, usize)]; 3] = [&[(1, 8)], &[(7, 0), (8, 0)], &[(6, 64)]];

struct W<const N: usize> {
    a: Al<N>,
    st: [usize; 3],
    en: [usize; 3],
    at: usize,
}
fn wallet<const N: usize>(kinds: &[u16], ids: &[u32]) -> W<N> {
    let mut x = W { a: Al::<N>(any()), st: [0; 3], en: [0; 3], at: 0 };
    put_header(&mut x.a.0, kinds.len() as u16, any());
    for i in 0..kinds.len() {
        x.st[i] = x.at;
        x.at = put_role(&mut x.a.0[48..], x.at, kinds[i], ids[i], ACTS[i]);
        x.en[i] = x.at;
    }
    x
}
fn span<T: ?Sized>(v: &T) -> (usize, usize) {
    (v as *const T as *const u8 as usize, core::mem::size_of_val(v))
}
/// Both views of the role `id` (stored at position `p`, or nowhere if `p` is past the end).
fn by_id<const N: usize>(kinds: &[u16], ids: &[u32], id: u32, p: usize) {
    let mut x = wallet::<N>(kinds, ids);
    let base = x.a.0.as_ptr() as usize + 48;
    let seen = match SwigWithRoles::from_bytes(&x.a.0[..48 + x.at]) {
        Ok(s) => match s.get_role(id) {
            Ok(Some(r)) => Some((span(r.position), span(r.authority), span(r.actions))),
            Ok(None) => None,
            Err(_) => { chk!(false, "a lookup in a well-formed wallet is answered"); None }
        },
        Err(_) => { chk!(false, "a well-formed wallet opens"); None }
    };
    let mutable = match Swig::get_mut_role(id, &mut x.a.0[48..48 + x.at]) {
        Ok(Some(r)) => {
            let n = r.num_actions;
            if p < kinds.len() {
                chk!(n as usize == ACTS[p].len(), "the mutable view has the role's permission count");
            }
            Some((span(r.position), span(&*r.authority), span(&*r.actions)))
        }
        Ok(None) => None,
        Err(_) => { chk!(false, "a mutable lookup in a well-formed wallet is answered"); None }
    };
    if p >= kinds.len() {
        chk!(seen.is_none(), "an absent id is reported as absent");
        chk!(mutable.is_none(), "an absent id is reported as absent by the mutable view");
        return;
    }
    let al = AUTH[kinds[p] as usize].1;
    let want = ((base + x.st[p], 16), (base + x.st[p] + 16, al), (base + x.st[p] + 16 + al, x.en[p] - x.st[p] - 16 - al));
    match seen {
        Some(s) => chk!(s == want, "the read-only view is exactly the record with that id"),
        None => chk!(false, "a present id is found"),
    }
    match mutable {
        Some(s) => chk!(s == want, "the mutable view is exactly the record with that id"),
        None => chk!(false, "a present id is found by the mutable view"),
    }
    wit!(x.a.0[64] == 9 && rd32(&x.a.0, 36) == 77, "looked up");
}
fn eqb(a: &[u8], o: usize, b: &[u8], n: usize) -> bool {
    let mut r = true;
    for i in 0..n {
        r &= a[o + i] == b[i];
    }
    r
}
/// Does the stored authority at `o` of kind `k` have the key `q`?
fn has(a: &[u8], o: usize, k: u16, q: &[u8]) -> bool {
    match k {
        1 | 2 => q.len() == 32 && eqb(a, o, q, 32),
        3 | 4 if q.len() == 64 => a[o] == 2 + (q[63] & 1) && eqb(a, o + 1, q, 32),
        3 | 4 | 5 | 6 => q.len() == 33 && eqb(a, o, q, 33),
        7 => q.len() == 80 && eqb(a, o, q, 32) && eqb(&a[o + 40..], 0, &q[40..], a[o + 32] as usize),
        _ => q.len() >= 33 && q[32] == a[o + 32] && q.len() == 33 + q[32] as usize && eqb(a, o, q, 32) && eqb(&a[o + 40..], 0, &q[33..], q[32] as usize),
    }
}
/// `plen`: the instruction-prefix length of program-execution roles.
fn by_key<const N: usize, const Q: usize>(kinds: &[u16], ids: &[u32], plen: u8) {
    let mut x = wallet::<N>(kinds, ids);
    for i in 0..kinds.len() {
        if kinds[i] >= 7 {
            x.a.0[48 + x.st[i] + 16 + 32] = plen;
        }
    }
    let mut q: [u8; Q] = any();
    if kinds[0] == 8 {
        q[32] = plen;
    }
    let mut want = None;
    for i in (0..kinds.len()).rev() {
        if has(&x.a.0, 48 + x.st[i] + 16, kinds[i], &q) {
            want = Some(ids[i]);
        }
    }
    match SwigWithRoles::from_bytes(&x.a.0[..48 + x.at]) {
        Ok(s) => match s.lookup_role_id(&q) {
            Ok(r) => {
                chk!(r.is_none() || want.is_some(), "a key no role has is not found");
                chk!(want.is_none() || r.is_some(), "a key a role has is found");
                chk!(r == want, "the id found is that of the first role with the key");
                wit!(r == Some(ids[kinds.len() - 1]), "found in the last role");
            }
            Err(_) => chk!(false, "a lookup by key is answered"),
        },
        Err(_) => chk!(false, "the wallet opens"),
    }
}
macro_rules! kind { ($k:literal, $o:literal, $n:literal) => { {
    match any::<u8>() {
        0 => by_id::<$n>(&[$k, $o], &[0, 1], 0, 0),
        1 => by_id::<$n>(&[$o, $k], &[0, 1], 1, 1),
        2 => by_id::<$n>(&[$k, $o], &[9, 4], 4, 1),
        _ => by_id::<$n>(&[$k, $o], &[9, 4], 0, 2),
    }
} } }
harnesses! {
    /// bound: two roles, Ed25519 in either position, every content, present and absent ids #nopanic @fs=512
    [10, 10] fn c04_id_1() { kind!(1, 2, 256) }
    /// bound: as above, Ed25519 session #nopanic @fs=512
    [10, 10] fn c04_id_2() { kind!(2, 3, 256) }
    /// bound: as above, Secp256k1 #nopanic @fs=512
    [10, 10] fn c04_id_3() { kind!(3, 4, 256) }
    /// bound: as above, Secp256k1 session #nopanic @fs=512
    [10, 10] fn c04_id_4() { kind!(4, 5, 256) }
    /// bound: as above, Secp256r1 #nopanic @fs=512
    [10, 10] fn c04_id_5() { kind!(5, 6, 256) }
    /// bound: as above, Secp256r1 session #nopanic @fs=512
    [10, 10] fn c04_id_6() { kind!(6, 7, 288) }
    /// bound: as above, program execution #nopanic @fs=512
    [10, 10] fn c04_id_7() { kind!(7, 8, 320) }
    /// bound: as above, program execution session #nopanic @fs=512
    [10, 10] fn c04_id_8() { kind!(8, 1, 288) }
    /// bound: three roles, ids out of order, every content, each and an absent id #nopanic @fs=512
    [10, 10] fn c04_id_three() {
        match any::<u8>() {
            0 => by_id::<384>(&[1, 3, 1], &[4294967295, 0, 7], 7, 2),
            1 => by_id::<384>(&[1, 3, 1], &[2, 1, 0], 0, 2),
            2 => by_id::<384>(&[5, 3, 1], &[2, 1, 0], 1, 1),
            _ => by_id::<384>(&[1, 3, 1], &[2, 1, 0], 3, 3),
        }
    }
    /// bound: one role, every id and every requested id #nopanic @fs=512
    [10, 10] fn c04_any_id() {
        let (i, j): (u32, u32) = (any(), any());
        by_id::<128>(&[1], &[i], j, if i == j { 0 } else { 1 })
    }
    /// bound: two Ed25519 roles, every stored and requested key #nopanic @fs=512
    [36, 36] fn c04_key_ed() { if any() { by_key::<256, 32>(&[1, 2], &[3, 1], 0) } else { by_key::<256, 32>(&[2, 1], &[0, 1], 0) } }
    /// bound: two Secp256k1 roles, every stored key and every compressed request #nopanic @fs=512
    [36, 36] fn c04_key_k1() { by_key::<256, 33>(&[3, 4], &[3, 1], 0) }
    /// bound: two Secp256k1 roles, every stored key and every uncompressed request #nopanic @fs=512
    [36, 36] fn c04_key_k1_64() { by_key::<256, 64>(&[4, 3], &[3, 1], 0) }
    /// bound: two Secp256r1 roles, every stored and requested key #nopanic @fs=512
    [36, 36] fn c04_key_r1() { by_key::<256, 33>(&[5, 6], &[3, 1], 0) }
    /// bound: two program-execution roles, prefix length 8 and 40, every content and request #nopanic @fs=512
    [44, 44] fn c04_key_pe() { if any() { by_key::<272, 80>(&[7, 7], &[3, 1], 8) } else { by_key::<272, 80>(&[7, 7], &[3, 1], 40) } }
    /// bound: two program-execution session roles, prefix length 8, every content and request #nopanic @fs=512
    [44, 44] fn c04_key_pes() { by_key::<368, 41>(&[8, 8], &[3, 1], 8) }
}
