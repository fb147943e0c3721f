//! C06: only well-formed, non-empty permission lists can be attached to a role.
use crate::{nd::*, roles::*};
use swig_state::{action::{ActionLoader, Permission}, authority::AuthorityType, swig::SwigBuilder};

/// Body length of each defined kind.
const LEN: [usize; 27] = [999, 8, 32, 32, 144, 40, 64, 0, 0, 72, 8, 32, 0, 0, 32, 0, 40, 64, 72, 96, 0, 8, 0, 8, 8, 8, 8];

fn z(d: &[u8], o: usize, n: usize) -> bool {
    let mut r = true;
    let mut i = 0;
    while i < n {
        r &= w(d, o + i) == 0;
        i += 8;
    }
    r
}
/// Is `d[..n]` the body a permission of kind `k` must have when it is granted?
fn good(k: u16, d: &[u8], n: usize) -> bool {
    k >= 1 && (k as usize) < 27 && n == LEN[k as usize]
        && match k {
            2 | 11 => w(d, 24) == w(d, 0) && w(d, 16) == 0,
            6 => w(d, 48) == w(d, 40) && w(d, 56) == 0,
            9 => z(d, 0, 32),
            17 => w(d, 40) != 0 && w(d, 56) <= w(d, 32),
            19 => w(d, 72) != 0 && w(d, 88) <= w(d, 64),
            _ => true,
        }
}
fn layout(lo: u16, hi: u16) {
    let d: Al<152> = Al(any());
    let n = any::<u8>() as usize;
    assume(n <= 152);
    let k: u16 = any();
    assume(k >= lo && k <= hi);
    match Permission::try_from(k) {
        Ok(p) => {
            let ok = matches!(ActionLoader::validate_layout(p, &d.0[..n]), Ok(true));
            chk!(!ok || good(k, &d.0, n), "a body of the wrong size or shape is refused");
            chk!(ok || !good(k, &d.0, n), "a body of the right size and shape is accepted");
            wit!(ok && n > 0, "accepted");
        }
        Err(_) => chk!(k > 26, "every defined kind is known"),
    }
}
/// Adding a role with this permission list: `lens` are the lengths stated, `n` the bytes supplied;
/// a cut that falls between two entries leaves a shorter, whole list.
fn list(kinds: &[u16], lens: &[u16], n: usize) {
    const B: usize = 96 + 176;
    let mut a: Al<B> = Al([0; B]);
    let cnt: u32 = any();
    assume(cnt < u32::MAX);
    put_header(&mut a.0, 0, cnt);
    let mut d: Al<176> = Al(any());
    let mut at = 0;
    let (mut ok, mut whole) = (true, false);
    for i in 0..lens.len() {
        if at + 8 <= 176 {
            wr16(&mut d.0, at, kinds[i]);
            wr16(&mut d.0, at + 2, lens[i]);
        }
        let l = lens[i] as usize;
        ok = ok && at + 8 + l <= n && good(kinds[i], &d.0[at + 8..], l);
        at += 8 + l;
        if at == n {
            whole = ok;
            break;
        }
    }
    ok = whole;
    let key: [u8; 32] = any();
    let acts: &'static [u8] = unsafe { core::slice::from_raw_parts(d.0.as_ptr(), n) };
    let r = match SwigBuilder::new_from_bytes(&mut a.0) {
        Ok(mut b) => b.add_role(AuthorityType::Ed25519, &key, acts).is_ok(),
        Err(_) => { chk!(false, "the wallet opens"); return }
    };
    wit!(cnt == 3 && key[0] == 7, "decided");
    chk!(!r || ok, "an ill-formed or empty permission list is refused");
    chk!(r || !ok, "a well-formed permission list is accepted");
    chk!(rd16(&a.0, 34) == r as u16, "a refused list attaches nothing");
}
/// A list cut at every length in `lo..=hi`.
fn cut(kinds: &[u16], lens: &[u16], lo: usize, hi: usize) {
    let mut n = lo;
    while n <= hi {
        list(kinds, lens, n);
        n += 1;
    }
}
harnesses! {
    /// bound: every kind up to SubAccount V1's neighbours (0..=8), every body of 0..=152 bytes #nopanic
    [10, 10] fn c06_layout_a() { layout(0, 8) }
    /// bound: kinds 9..=17, every body of 0..=152 bytes #nopanic
    [10, 10] fn c06_layout_b() { layout(9, 17) }
    /// bound: kinds 18..=65535, every body of 0..=152 bytes #nopanic
    [10, 10] fn c06_layout_c() { layout(18, 65535) }
    /// bound: lists of up to three empty-bodied permissions, cut or extended to every length 0..=14 #nopanic @fs=512
    [30, 30] fn c06_markers_a() { cut(&[7, 8, 13], &[0, 0, 0], 1, 14); list(&[], &[], 0); }
    /// bound: as above, 15..=26 bytes #nopanic @fs=512
    [30, 30] fn c06_markers_b() { cut(&[7, 8, 13], &[0, 0, 0], 15, 24); list(&[7, 8, 13, 0], &[0, 0, 0, 0], 32); }
    /// bound: one and two empty-bodied permissions, exact and with one byte too few or many #nopanic @fs=512
    [30, 30] fn c06_markers_c() { cut(&[7], &[0], 7, 9); cut(&[15, 22], &[0, 0], 15, 17); }
    /// bound: an eight-byte permission before an empty one, cut at every length, every content #nopanic @fs=512
    [30, 30] fn c06_mixed() { cut(&[1, 7], &[8, 0], 8, 25) }
    /// bound: stated lengths one off or running past the end #nopanic @fs=512
    [30, 30] fn c06_lengths() {
        list(&[1], &[7], 15);
        list(&[1], &[9], 17);
        list(&[1], &[9], 16);
        list(&[1], &[8], 15);
        list(&[1], &[65535], 16);
        list(&[7], &[8], 16);
        list(&[7, 1], &[0, 9], 24);
        list(&[7, 1], &[0, 65528], 24);
        list(&[1, 1], &[8, 8], 31);
    }
    /// bound: undefined kinds next to defined ones #nopanic @fs=512
    [30, 30] fn c06_undefined() {
        list(&[0], &[0], 8);
        list(&[27], &[8], 16);
        list(&[7, 0], &[0, 0], 16);
        list(&[7, 40, 8], &[0, 0, 0], 24);
        list(&[65535, 7], &[0, 0], 16);
    }
    /// bound: every kind with constrained contents, last in a list of two, every content #nopanic @fs=512
    [30, 30] fn c06_contents_a() { list(&[7, 2], &[0, 32], 48); list(&[8, 11], &[0, 32], 48); list(&[1, 6], &[8, 64], 88) }
    /// bound: as above, first in a list of two #nopanic @fs=512
    [30, 30] fn c06_contents_b() { list(&[9, 7], &[72, 0], 88); list(&[17, 1], &[64, 8], 88); list(&[19, 7], &[96, 0], 112) }
}
