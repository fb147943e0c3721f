//! C22: decoding a compact instruction bundle is total, bounded and exact.
//! C23 shares the walk and looks at the privileges.
use crate::{acct::*, nd::*};
use pinocchio::account_info::AccountInfo;
use swig_compact_instructions::{InstructionError, InstructionIterator};

/// the layout the runtime reads account infos in
#[repr(C)]
pub struct Info {
    pub key: *const [u8; 32],
    pub lamports: *const u64,
    pub len: u64,
    pub data: *const u8,
    pub owner: *const [u8; 32],
    pub rent: u64,
    pub sg: bool,
    pub wr: bool,
    pub ex: bool,
}

pub const K: usize = 3;
/// Reference decoder: one instruction starting at `*c`.
pub struct Want {
    pub prog: usize,
    pub na: usize,
    pub at: usize,
    pub data: usize,
    pub len: usize,
}
pub fn step(d: &[u8], n: usize, c: &mut usize) -> Option<Want> {
    if *c + 2 > n {
        return None;
    }
    let prog = d[*c] as usize;
    let na = d[*c + 1] as usize;
    let at = *c + 2;
    if prog >= K || at + na + 2 > n {
        return None;
    }
    let mut i = 0;
    while i < na {
        if d[at + i] as usize >= K {
            return None;
        }
        i += 1;
    }
    let len = d[at + na] as usize + 256 * d[at + na + 1] as usize;
    let data = at + na + 2;
    if data + len > n {
        return None;
    }
    *c = data + len;
    Some(Want { prog, na, at, data, len })
}
pub struct Three {
    pub x: Acct<0>,
    pub y: Acct<0>,
    pub z: Acct<0>,
}
fn one() -> Acct<0> {
    let mut a = Acct::<0>::new(any(), [0; 32], any(), 0, []);
    a.signer = any::<bool>() as u8;
    a.writable = any::<bool>() as u8;
    a
}
pub fn accounts() -> Three {
    Three { x: one(), y: one(), z: one() }
}
impl Three {
    pub fn infos(&mut self) -> [AccountInfo; K] {
        [self.x.info(), self.y.info(), self.z.info()]
    }
}
/// `shape`: the account indices and data length of each instruction; the programs follow from
/// the place; every other byte is arbitrary.
fn shape<const N: usize>(shape: &[(&[u8], u8)], count: u8) -> [u8; N] {
    let mut d: [u8; N] = any();
    d[0] = count;
    let mut c = 1;
    for s in shape {
        let na = s.0.len();
        d[c] = (c % K) as u8;
        d[c + 1] = na as u8;
        for i in 0..na {
            d[c + 2 + i] = s.0[i];
        }
        let l = c + 2 + na;
        d[l] = s.1;
        d[l + 1] = 0;
        c = l + 2 + s.1 as usize;
    }
    d
}
fn run<const N: usize>(v: &[AccountInfo; K], d: &[u8; N], n: usize, most: usize) {
    let sg: [u8; 32] = any();
    let rk: [u8; 32] = any();
    let rks = [&rk];
    let mut it = match InstructionIterator::new(&v[..], &d[..n], &sg, &rks[..]) {
        Ok(it) => it,
        Err(_) => {
            chk!(n == 0, "a non-empty bundle is opened");
            return;
        }
    };
    chk!(n > 0, "an empty bundle is refused");
    let mut c = 1;
    let mut k = 0;
    while k <= most {
        let nx = it.next();
        wit!(k == 0 && sg[0] == 3, "bundle read");
        match nx {
            None => {
                chk!(k == d[0] as usize, "exactly the declared number of instructions is produced");
                return;
            }
            Some(r) => {
                chk!(k < d[0] as usize, "no more than the declared number of instructions is produced");
                match (step(d, n, &mut c), r) {
                    (None, r) => {
                        chk!(r.is_err(), "a truncated instruction or an account outside the list is an error");
                        return;
                    }
                    (Some(_), Err(_)) => { chk!(false, "a well-formed instruction is decoded"); return }
                    (Some(w), Ok(h)) => {
                        chk!(h.program_id as *const _ == v[w.prog].key() as *const _, "the program is the selected account");
                        chk!(h.accounts.len() == w.na && h.indexes.len() == w.na && h.cpi_accounts.len() == w.na, "the accounts are as many as declared");
                        chk!(h.data.as_ptr() == d[w.data..].as_ptr() && h.data.len() == w.len, "the data is the declared bytes");
                        let mut i = 0;
                        while i < w.na {
                            let x = d[w.at + i] as usize;
                            chk!(h.indexes[i] == x, "the index is the declared one");
                            chk!(h.accounts[i].pubkey as *const _ == v[x].key() as *const _, "the account is the selected one");
                            let ci = unsafe { &*(&h.cpi_accounts[i] as *const _ as *const Info) };
                            chk!(ci.key == v[x].key() as *const _, "the account passed to the runtime is the selected one");
                            i += 1;
                        }
                        core::mem::forget(h);
                    }
                }
            }
        }
        k += 1;
    }
}
/// The first instruction declares `na` accounts with the given indices; every other byte is
/// arbitrary; bundles cut at `lo..=hi` bytes.
fn first<const N: usize>(idx: &[u8], na: u8, lo: usize, hi: usize) {
    let mut a = accounts();
    let v = a.infos();
    let mut d: [u8; N] = any();
    d[2] = na;
    for i in 0..idx.len() {
        d[3 + i] = idx[i];
    }
    let mut n = lo;
    while n <= hi {
        run(&v, &d, n, 0);
        n += 1;
    }
}
fn cut<const N: usize>(sh: &[(&[u8], u8)], lo: usize, hi: usize, count: u8) {
    let mut a = accounts();
    let v = a.infos();
    let d = shape::<N>(sh, count);
    let mut n = lo;
    while n <= hi {
        run(&v, &d, n, sh.len());
        n += 1;
    }
}
fn pick(list: &[&[u8]]) {
    let mut a = accounts();
    let v = a.infos();
    for idx in list {
        let d = shape::<12>(&[(idx, 2)], 1);
        run(&v, &d, 7 + idx.len(), 1);
    }
}
harnesses! {
    /// bound: an instruction with no accounts in every bundle of up to 4 bytes, three accounts in the list @fs=512
    [12, 12] fn c22_none_a() { first::<8>(&[], 0, 0, 4) }
    /// bound: an instruction with no accounts in every bundle of 5..=7 bytes @fs=512
    [12, 12] fn c22_none_b() { first::<8>(&[], 0, 5, 7) }
    /// bound: an instruction with two accounts in every bundle of 2..=8 bytes @fs=512
    [12, 12] fn c22_acc2() { first::<8>(&[1, 0], 2, 2, 8) }
    /// bound: an instruction with one account of any index in a bundle of 7 bytes @fs=512
    [12, 12] fn c22_acc1() { first::<7>(&[], 1, 7, 7) }
    /// bound: an instruction declaring 255 accounts in every bundle of 6..=8 bytes @fs=512
    [12, 12] fn c22_acc255() { first::<8>(&[2, 1, 1, 0, 2], 255, 6, 8) }
    /// bound: every list of one or two account indices inside or just outside the list @fs=512
    [14, 14] fn c22_pairs_a() { pick(&[&[0], &[1], &[3], &[0, 0], &[0, 1], &[0, 2]]) }
    /// bound: as above @fs=512
    [14, 14] fn c22_pairs_b() { pick(&[&[1, 0], &[1, 1], &[1, 2], &[2, 0], &[2, 1], &[2, 2]]) }
    /// bound: as above, and lists of three @fs=512
    [14, 14] fn c22_pairs_c() { pick(&[&[255], &[0, 3], &[3, 0], &[2, 255], &[0, 1, 2], &[2, 2, 0]]) }
    /// bound: two declared instructions of one and two accounts, one and two data bytes, every truncation of the second @fs=512
    [16, 16] fn c22_two_a() { cut::<14>(&[(&[1], 1), (&[2, 0], 2)], 7, 10, 2) }
    /// bound: as above @fs=512
    [16, 16] fn c22_two_b() { cut::<14>(&[(&[1], 1), (&[2, 0], 2)], 11, 14, 2) }
    /// bound: three instructions back to back, every content @fs=512
    [8, 8] fn c22_three() { cut::<21>(&[(&[], 3), (&[2], 0), (&[1, 2], 2)], 19, 21, 3) }
    /// bound: one instruction in the bytes, declared to be none, one, two or 255 @fs=512
    [8, 8] fn c22_count() {
        cut::<8>(&[(&[1], 2)], 8, 8, 0);
        cut::<8>(&[(&[1], 2)], 8, 8, 1);
        cut::<8>(&[(&[1], 2)], 8, 8, 2);
        cut::<8>(&[(&[1], 2)], 8, 8, 255);
    }
    /// bound: the length is 16 bits wide: every length field over a 270-byte bundle @fs=512
    [8, 8] fn c22_long() { first::<270>(&[], 0, 270, 270) }
}
