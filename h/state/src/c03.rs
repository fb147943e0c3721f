//! C03: removing a role removes only that role.
use crate::{nd::*, roles::*};
use swig_state::swig::SwigBuilder;

/// Shapes of roles: (authority kind, permissions).
const A: (u16, &[(u16, usize)]) = (1, &[(1, 8)]);
const B: (u16, &[(u16, usize)]) = (2, &[(7, 0), (8, 0)]);
const C: (u16, &[(u16, usize)]) = (3, &[(3, 32), (12, 0)]);

/// `ids` are the role ids; `id` is the one to remove.
fn remove<const N: usize>(shape: &[(u16, &[(u16, usize)])], ids: [u32; 3], id: u32) {
    let mut a: Al<N> = Al(any());
    let k = shape.len();
    let cnt: u32 = any();
    put_header(&mut a.0, k as u16, cnt);
    let (mut st, mut en) = ([0usize; 3], [0usize; 3]);
    let mut at = 0;
    for i in 0..k {
        st[i] = at;
        at = put_role(&mut a.0[48..], at, shape[i].0, ids[i], shape[i].1);
        en[i] = at;
    }
    let old = a;
    let mut p = k;
    for i in 0..k {
        if ids[i] == id {
            p = i;
        }
    }
    let r = match SwigBuilder::new_from_bytes(&mut a.0[..48 + at]) {
        Ok(mut b) => b.remove_role(id),
        Err(_) => { chk!(false, "the wallet opens"); return }
    };
    wit!(cnt > 7 && r.is_ok() == (p < k), "removed or refused");
    let i = idx(N);
    if p == k {
        chk!(r.is_err(), "removing an absent role fails");
        chk!(a.0[i] == old.0[i], "and changes nothing");
        return;
    }
    let (s, e) = (st[p], en[p]);
    match r {
        Ok((end, cut)) => {
            chk!(end == at - (e - s) && cut == e - s, "the reported sizes are those of the removed role");
            }
        Err(_) => chk!(false, "a present role is removed"),
    }
    chk!(rd16(&a.0, 34) == k as u16 - 1 && rd32(&a.0, 36) == cnt, "the role count drops by one and the id counter stays");
    if i < 34 || (i >= 40 && i < 48 + s) || i >= 48 + at {
        chk!(a.0[i] == old.0[i], "what lies before the removed role is unchanged");
    }
    if i >= 48 + at - (e - s) && i < 48 + at {
        chk!(a.0[i] == 0, "the freed bytes are zeroed");
    }
    // later roles move up; only their boundary is adjusted
    for q in 1..k {
        if q > p {
            let n = 48 + st[q] - (e - s);
            chk!(rd32(&a.0, n + 12) == (en[q] - (e - s)) as u32, "a later role's boundary is adjusted");
            let o = idx(16);
            if o < 12 {
                chk!(a.0[n + o] == old.0[48 + st[q] + o], "a later role keeps its id, kind and sizes");
            }
            let o = idx(160);
            if o >= 16 && o < en[q] - st[q] {
                chk!(a.0[n + o] == old.0[48 + st[q] + o], "a later role keeps its authority and permissions");
            }
        }
    }
}
harnesses! {
    /// bound: one role, every content, present and absent id #nopanic @fs=512
    [10, 10] fn c03_one() { remove::<112>(&[A], [7, 0, 0], 7); remove::<112>(&[A], [0, 0, 0], 0); remove::<112>(&[A], [0, 1, 0], 1) }
    /// bound: two roles of different sizes, the first removed, every content #nopanic @fs=512
    [10, 10] fn c03_two_first() { remove::<224>(&[A, B], [0, 1, 0], 0) }
    /// bound: two roles of different sizes, the last removed, every content #nopanic @fs=512
    [10, 10] fn c03_two_last() { remove::<224>(&[B, A], [4, 2, 0], 2) }
    /// bound: two roles, an absent id, every content #nopanic @fs=512
    [10, 10] fn c03_two_absent() { remove::<224>(&[B, A], [4, 2, 0], 3) }
    /// bound: three roles of different sizes, the first removed, every content #nopanic @fs=512
    [10, 10] fn c03_three_first() { remove::<328>(&[A, B, C], [0, 1, 2], 0) }
    /// bound: three roles of different sizes, the middle one removed, every content #nopanic @fs=512
    [10, 10] fn c03_three_mid() { remove::<328>(&[A, B, C], [0, 5, 4294967295], 5) }
    /// bound: three roles of different sizes, another order, the middle one removed, every content #nopanic @fs=512
    [10, 10] fn c03_three_mid2() { remove::<328>(&[C, B, A], [3, 2, 1], 2) }
    /// bound: three roles, the last removed, every content #nopanic @fs=512
    [10, 10] fn c03_three_last() { remove::<328>(&[C, A, B], [3, 2, 1], 1) }
    /// bound: one role, every id and every id to remove #nopanic @fs=512
    [10, 10] fn c03_id() { let i: u32 = any(); remove::<96>(&[(1, &[])], [i, 0, 0], any()) }
    /// bound: two smallest roles, every id pair and every id to remove #nopanic #thorough @fs=512
    [10, 10] fn c03_ids() {
        let ids: [u32; 3] = any();
        assume(ids[0] != ids[1]);
        remove::<144>(&[(1, &[]), (1, &[])], ids, any())
    }
}
