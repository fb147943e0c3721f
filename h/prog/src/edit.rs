//! Requests against a wallet of two Ed25519 roles, and what an update must leave behind.
#![allow(dead_code, static_mut_refs)]
use crate::{acct::*, nd::*, sys::*, wallet::*};
use pinocchio::account_info::AccountInfo;

pub const N: usize = 384;
/// The accounts of a request: wallet, payer, system program, and one more that may sign.
pub struct Req {
    pub t: Two<N>,
    pub before: Acct<N>,
    pub kind: u16,
    pub payer: Acct<0>,
    pub payer0: Acct<0>,
    pub sp: Acct<8>,
    pub sg: Acct<0>,
    pub c: [swig_state::AccountClassification; 4],
}
/// The roles hold `acts`, except that the first permission of role `who` is of an arbitrary kind (unless `fixed`).
pub fn req(who: usize, acts: [&[(u16, usize)]; 2], tail: usize, fixed: bool) -> Req {
    let mut t = two::<N>([0, 5], acts, tail);
    let kind: u16 = if fixed { acts[who][0].0 } else { any() };
    if who < 2 {
        wr16(&mut t.a.data, t.at[who] + 48, kind);
    }
    if tail == 40 {
        put_claimer(&mut t.a.data, t.end);
    }
    t.a.owner = any();
    let mut payer = Acct::<0>::new(any(), SYS, lamports(), 0, []);
    payer.signer = 1;
    let mut sg = Acct::<0>::key(any());
    sg.signer = any::<bool>() as u8;
    // the runtime never lets an account fall below this
    assume(t.a.lamports >= rent_exempt(t.end + tail));
    let before = t.a;
    Req { t, before, kind, payer, payer0: payer, sp: Acct::key(any()), sg, c: classes() }
}
impl Req {
    pub fn run(&mut self, d: &[u8]) -> bool {
        let infos: [AccountInfo; 4] = [self.t.a.info(), self.payer.info(), self.sp.info(), self.sg.info()];
        call(&infos, &mut self.c, d).is_ok()
    }
    /// Role `who` signed with the account at position `p`.
    pub fn signed(&self, who: usize, p: u8) -> bool {
        let h = [hd(&self.before), hd(&self.payer0), hd(&self.sp), hd(&self.sg)];
        signed(p, &h, &k32(&self.before.data, self.t.at[who & 1] + 16))
    }
    pub fn manages(&self) -> bool {
        self.kind == FULL || self.kind == MANAGE
    }
    pub fn is_wallet(&self) -> bool {
        eq32(&self.before.owner, &ID) && self.before.data[0] == 1
    }
    /// Money only moved between the wallet account and the payer, and the wallet is rent exempt.
    pub fn money(&self, n: usize) -> bool {
        let x = self.before.lamports as u128 + self.payer0.lamports as u128;
        self.t.a.lamports as u128 + self.payer.lamports as u128 == x && self.t.a.lamports >= rent_exempt(n)
    }
}
/// Where a permission kept by an update comes from: (from the request?, kind, body length, offset of
/// its header in the request's list or in the role's old list).
pub type Keep = (bool, u16, usize, usize);
/// `who` updates role `target`: `op` as in the request (4 is the older form that replaces the list),
/// `list` the request's permissions, `arg` its other bytes; afterwards the role has `keep`.
pub fn update(who: usize, target: usize, acts: [&[(u16, usize)]; 2], op: u8, list: &[(u16, usize)], arg: &[u8], keep: &[Keep], tail: usize) {
    let mut r = req(who, acts, tail, who == target);
    let mut d: Al<96> = Al(any());
    let mut n = 16;
    if op < 4 {
        d.0[16] = op;
        n = 17;
    }
    let first = n;
    for (k, l) in list {
        wr16(&mut d.0, n, *k);
        wr16(&mut d.0, n + 2, *l as u16);
        n += 8 + l;
    }
    for x in arg {
        d.0[n] = *x;
        n += 1;
    }
    wr16(&mut d.0, 0, 3);
    wr16(&mut d.0, 2, (n - 16) as u16);
    d.0[4] = if op == 4 { 1 } else { 0 };
    wr32(&mut d.0, 8, IDS[who]);
    wr32(&mut d.0, 12, IDS[target]);
    let p = d.0[n];
    let ok = r.run(&d.0[..n + 1]);
    wit!(ok || who == 2 || target == 2 || keep.is_empty() || (who == target && !r.manages()), "updated");
    if ok {
        chk!(who < 2 && target < 2, "absent roles update nothing and are not updated");
        chk!(!keep.is_empty(), "a role is never left without permissions");
        chk!(r.signed(who, p), "the acting role's own signer signed");
        chk!(r.manages(), "the acting role may manage authorities");
        chk!(r.is_wallet(), "only a wallet's roles are updated");
        let (a, b) = (&r.t.a.data, &r.before.data);
        let at = r.t.at[target & 1];
        let old_end = if target == 0 { r.t.at[1] } else { r.t.end };
        chk!(same(a, b, 0, at + 4) && same(a, b, at + 6, at + 12) && same(a, b, at + 16, at + 48), "the wallet, earlier roles and the role's id and key stay as they were");
        let mut o = at + 48;
        for (new, k, l, off) in keep {
            let (src, so): (&[u8], usize) = if *new { (&d.0, first + off) } else { (b, at + 48 + off) };
            chk!(moved(a, o, src, so, 4) && (*new || r.kind == *k || rd16(a, o) == *k || (who == target && *off == 0)), "the kept or given permission is there");
            chk!(rd32(a, o + 4) as usize == o - at - 48 + 8 + l && moved(a, o + 8, src, so + 8, *l), "with its contents");
            o += 8 + l;
        }
        chk!(rd16(a, at + 4) as usize == keep.len() && rd32(a, at + 12) as usize == o - 48, "the record says how many and where it ends");
        let rest = r.t.end - old_end;
        if rest > 0 {
            chk!(moved(a, o, b, old_end, 12) && moved(a, o + 16, b, old_end + 16, rest - 16) && rd32(a, o + 12) as usize == o + rest - 48, "later roles move and stay as they were");
        }
        let e = o + rest;
        chk!(r.t.a.len as usize == e + tail && moved(a, e, b, r.t.end, tail), "the claimer entry follows the roles");
        chk!(r.money(e + tail), "the wallet stays rent exempt");
    } else if !(who < 2 && r.signed(who, p) && r.manages()) {
        chk!(same(&r.t.a.data, &r.before.data, 0, r.t.end + tail), "a refused request changes nothing");
    }
}
pub const LIM: (u16, usize) = (1, 8);
pub const STK: (u16, usize) = (10, 8);
pub const ADM: (u16, usize) = (FULL, 0);
pub const CLO: (u16, usize) = (CLOSE, 0);
