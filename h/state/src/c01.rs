use crate::nd::*;
use swig_state::swig::*;

/// symbolic account bytes: header plus this many bytes of roles and tail
const BODY: usize = tier!(48, 64);
const LEN: usize = 48 + BODY;

/// Reference: end of the chained role records, None when the chain is malformed.
fn walk(b: &[u8], n: usize, roles: u16) -> Option<usize> {
    let mut cur = 0usize;
    let mut i = 0;
    while i < roles {
        if cur + 16 > n {
            return None;
        }
        let bd = rd32(b, 48 + cur + 12) as usize;
        if bd < cur + 16 || bd > n {
            return None;
        }
        cur = bd;
        i += 1;
    }
    Some(cur)
}

harnesses! {
    /// bound: account bytes up to 96 (quick) / 112 (thorough), every length, role boundaries that are followed by another record are multiples of 8; declared roles 0..=65535
    [5, 6] fn c01_split() {
        let mut buf: Al<LEN> = Al(any());
        let n = upto(LEN);
        let b = buf.0;
        let expect = if n < 48 { None } else { walk(&b, n - 48, rd16(&b, 34)) };
        match Swig::roles_end_offset(&buf.0[..n]) {
            Ok(e) => {
                chk!(expect.is_some(), "a malformed role chain is rejected");
                chk!(e == 48 + expect.unwrap(), "roles end at the last boundary");
            }
            Err(_) => chk!(expect.is_none(), "a well-formed chain is accepted"),
        }
        wit!(matches!(expect, Some(40)) && rd16(&b,34) == 2, "two roles");
        wit!(n >= 48 && expect.is_none(), "rejected");
        match Swig::split_parts(&buf.0[..n]) {
            Ok(p) => {
                chk!(expect.is_some(), "split of a malformed chain is rejected");
                let e = expect.unwrap();
                chk!(p.roles.len() == e && p.tail.len() == n - 48 - e, "partition sizes");
                chk!(p.roles.as_ptr() as usize == buf.0.as_ptr() as usize + 48, "roles start after the header");
                chk!(p.tail.as_ptr() as usize == buf.0.as_ptr() as usize + 48 + e, "tail starts after the roles");
                chk!(p.state as *const _ as usize == buf.0.as_ptr() as usize, "header first");
            }
            Err(_) => chk!(expect.is_none(), "split of a well-formed chain is accepted"),
        }
        let base = buf.0.as_ptr() as usize;
        match Swig::split_parts_mut(&mut buf.0[..n]) {
            Ok(p) => {
                chk!(expect.is_some(), "mutable split of a malformed chain is rejected");
                let e = expect.unwrap();
                chk!(p.roles.len() == e && p.tail.len() == n - 48 - e, "mutable partition sizes");
                chk!(p.roles.as_ptr() as usize == base + 48 && p.tail.as_ptr() as usize == base + 48 + e, "mutable partition places");
            }
            Err(_) => chk!(expect.is_none(), "mutable split of a well-formed chain is accepted"),
        }
        chk!(SwigWithRoles::from_bytes(&buf.0[..n]).is_ok() == expect.is_some(), "the read-only view accepts the same bytes");
    }
}
