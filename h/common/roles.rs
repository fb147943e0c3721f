//! Role regions with a fixed shape and arbitrary contents.
#![allow(dead_code)]
use crate::nd::*;

/// (authority kind, stored authority length)
pub const AUTH: [(u16, usize); 9] = [(0, 0), (1, 32), (2, 80), (3, 40), (4, 88), (5, 40), (6, 88), (7, 80), (8, 128)];

/// Writes a role record at `at`; the authority and permission contents are left as they are.
/// `acts` is (kind, body length) of each permission.  Returns the end of the record.
pub fn put_role(r: &mut [u8], at: usize, kind: u16, id: u32, acts: &[(u16, usize)]) -> usize {
    let al = AUTH[kind as usize].1;
    let start = at + 16 + al;
    let mut n = 0;
    let mut i = 0;
    while i < acts.len() {
        let (k, l) = acts[i];
        wr16(r, start + n, k);
        wr16(r, start + n + 2, l as u16);
        wr32(r, start + n + 4, (n + 8 + l) as u32);
        n += 8 + l;
        i += 1;
    }
    wr16(r, at, kind);
    wr16(r, at + 2, al as u16);
    wr16(r, at + 4, acts.len() as u16);
    wr16(r, at + 6, 0);
    wr32(r, at + 8, id);
    wr32(r, at + 12, (start + n) as u32);
    start + n
}
/// Writes the wallet header fields that count roles.
pub fn put_header(a: &mut [u8], roles: u16, counter: u32) {
    a[0] = 1;
    wr16(a, 34, roles);
    wr32(a, 36, counter);
}
