//! C18: a program-execution role authenticates only via its configured instruction.
use crate::{acct::*, nd::*};
use pinocchio::{account_info::AccountInfo, sysvars::instructions::INSTRUCTIONS_ID};
use swig_state::{
    authority::{programexec::{session::ProgramExecSessionAuthority, ProgramExecAuthority}, Authority, AuthorityInfo},
    Transmutable, TransmutableMut,
};

const S: usize = 384;
/// (accounts, data bytes) of one instruction
type Ix = (usize, usize);

/// The instructions account: lengths and counts are fixed, everything else is left as it is.
fn tx(d: &mut [u8; S], ixs: &[Ix], cur: usize) -> ([usize; 3], usize) {
    let mut at = 2 + 2 * ixs.len();
    let mut pos = [0; 3];
    wr16(d, 0, ixs.len() as u16);
    for i in 0..ixs.len() {
        let (n, l) = ixs[i];
        wr16(d, 2 + 2 * i, at as u16);
        pos[i] = at;
        wr16(d, at, n as u16);
        at += 2 + 33 * n + 32;
        wr16(d, at, l as u16);
        at += 2 + l;
    }
    wr16(d, at, cur as u16);
    (pos, at + 2)
}
fn same(a: &[u8], at: usize, b: &[u8], bt: usize, n: usize) -> bool {
    let mut r = true;
    let mut i = 0;
    while i < n {
        r &= a[at + i] == b[bt + i];
        i += 1;
    }
    r
}
/// `plen` is the configured prefix length; `pos` the position given for the instructions account
/// (it is the third), `target` the instruction named, if any; `pl` overrides the request length.
fn go(session: bool, plen: u8, ixs: &[Ix], cur: usize, pos: u8, target: Option<u8>, pl: Option<usize>) {
    let mut d: Al<128> = Al(any());
    d.0[32] = plen;
    let kept = d;
    let mut sv = Acct::<S>::new(any(), any(), 0, 0, any());
    let (at, total) = tx(&mut sv.data, ixs, cur);
    sv.len = total as u64;
    let mut a = [Acct::<8>::key(any()), Acct::<8>::key(any())];
    // the runtime gives that key to the instructions account only
    assume(!eq32(&a[0].key, &INSTRUCTIONS_ID) && !eq32(&a[1].key, &INSTRUCTIONS_ID));
    let infos: [AccountInfo; 3] = [a[0].info(), a[1].info(), sv.info()];
    let mut payload: [u8; 4] = any();
    payload[0] = pos;
    let mut p = 1;
    if let Some(t) = target {
        payload[1] = t;
        p = 2;
    }
    if let Some(n) = pl {
        p = n;
    }
    let data: [u8; 4] = any();
    let slot: u64 = any();
    let r = unsafe {
        if session {
            ProgramExecSessionAuthority::load_mut_unchecked(&mut d.0).map(|x| x.authenticate(&infos, &payload[..p], &data, slot))
        } else {
            ProgramExecAuthority::load_mut_unchecked(&mut d.0[..80]).map(|x| x.authenticate(&infos, &payload[..p], &data, slot))
        }
    };
    let ok = matches!(r, Ok(Ok(())));
    let which = match (p, target) {
        (1, _) if cur > 0 => Some(cur - 1),
        (2, Some(t)) if (t as usize) < cur => Some(t as usize),
        _ => None,
    };
    let mut want = false;
    if let Some(i) = which {
        let (n, l) = ixs[i];
        if n >= 2 && l >= plen as usize && pos == 2 {
            let o = at[i];
            want = same(&sv.key, 0, &INSTRUCTIONS_ID, 0, 32)
                && same(&sv.data, o + 3, &a[0].key, 0, 32)
                && same(&sv.data, o + 36, &a[1].key, 0, 32)
                && same(&sv.data, o + 2 + 33 * n, &kept.0, 0, 32)
                && same(&sv.data, o + 2 + 33 * n + 34, &kept.0, 40, plen as usize);
        }
    }
    wit!(!ok, "refused");
    wit!(ok || want || which.is_none() || ixs[which.unwrap()].0 < 2 || ixs[which.unwrap()].1 < plen as usize || pos != 2, "decided");
    chk!(!ok || want, "only the configured instruction over this wallet authorises");
    chk!(ok || !want, "the configured instruction over this wallet authorises");
    chk!(same(&d.0, 0, &kept.0, 0, 128), "nothing stored changes");
}
/// What can be configured.
fn create(session: bool) {
    let c: Al<128> = Al(any());
    let mut d: Al<128> = Al(any());
    let ok = if session {
        ProgramExecSessionAuthority::set_into_bytes(&c.0, &mut d.0).is_ok()
    } else {
        ProgramExecAuthority::set_into_bytes(&c.0[..80], &mut d.0[..80]).is_ok()
    };
    wit!(ok, "configured");
    if ok {
        chk!(c.0[32] <= 40 && d.0[32] == c.0[32], "the prefix fits");
        chk!(same(&d.0, 0, &c.0, 0, 32) && !same(&d.0, 0, &swig_assertions::ID, 0, 32), "the program is the one given and not the wallet program");
        let mut r = true;
        let mut i = 0;
        while i < 40 {
            r &= i >= c.0[32] as usize || d.0[40 + i] == c.0[40 + i];
            i += 1;
        }
        chk!(r, "the prefix is the one given");
    }
}
harnesses! {
    /// bound: previous instruction with two accounts and 12 data bytes, 8-byte prefix, every key and byte #nopanic @fs=512
    [130, 130] fn c18_previous() { go(false, 8, &[(2, 12), (0, 4)], 1, 2, None, None) }
    /// bound: three instructions, the one named by the request, three accounts, exact 4-byte prefix #nopanic @fs=512
    [130, 130] fn c18_named() { go(false, 4, &[(3, 4), (1, 2), (0, 0)], 2, 2, Some(0), None) }
    /// bound: the middle instruction of three, no prefix and no data #nopanic @fs=512
    [130, 130] fn c18_empty_prefix() { go(false, 0, &[(2, 1), (2, 0), (2, 4)], 2, 2, None, None) }
    /// bound: the longest prefix (40 bytes) #nopanic @fs=512
    [130, 130] fn c18_long_prefix() { go(false, 40, &[(2, 41), (0, 0)], 1, 2, Some(0), None) }
    /// bound: no or one account, or data shorter than the prefix #nopanic @fs=512
    [130, 130] fn c18_too_little() {
        go(false, 4, &[(0, 8), (0, 0)], 1, 2, None, None);
        go(false, 4, &[(1, 8), (0, 0)], 1, 2, None, None);
        go(false, 4, &[(2, 3), (0, 0)], 1, 2, None, None);
        go(false, 0, &[(1, 0), (0, 0)], 1, 2, None, None);
    }
    /// bound: first instruction; the current or a later instruction named; wrong positions #nopanic @fs=512
    [130, 130] fn c18_not_earlier() {
        go(false, 1, &[(2, 4), (2, 4)], 0, 2, None, None);
        go(false, 1, &[(2, 4), (2, 4)], 0, 2, Some(0), None);
        go(false, 1, &[(2, 4), (2, 4)], 1, 2, Some(1), None);
        go(false, 1, &[(2, 4), (2, 4)], 0, 2, Some(1), None);
        go(false, 1, &[(2, 4), (2, 4)], 1, 2, Some(255), None);
    }
    /// bound: wrong positions of the instructions account; requests of 0 and 3 bytes #nopanic @fs=512
    [130, 130] fn c18_request() {
        go(false, 1, &[(2, 4), (2, 4)], 1, 0, None, None);
        go(false, 1, &[(2, 4), (2, 4)], 1, 1, None, None);
        go(false, 1, &[(2, 4), (2, 4)], 1, 3, None, None);
        go(false, 1, &[(2, 4), (2, 4)], 1, 2, None, Some(0));
        go(false, 1, &[(2, 4), (2, 4)], 1, 2, None, Some(3));
    }
    /// bound: session-capable role used through its program, 8-byte prefix #nopanic @fs=512
    [130, 130] fn c18_session() { go(true, 8, &[(2, 9), (0, 4)], 1, 2, None, None); go(true, 1, &[(2, 4), (2, 4)], 1, 2, Some(1), None) }
    /// bound: every configuration of a role #nopanic @fs=512
    [130, 130] fn c18_create() { create(false) }
    /// bound: every configuration of a session-capable role #nopanic @fs=512
    [130, 130] fn c18_create_session() { create(true) }
}
