//! C19: the rent-claimer tail.
use crate::nd::*;
use swig_state::tail::{rent_claimer, AnyTailEntry, SavedTail, TailHeader};

/// The only tail shape with a claimer.
fn good(t: &[u8], n: usize) -> bool {
    n == 40 && t[0] == 1 && t[1] == 1 && rd16(t, 2) == 32 && rd32(t, 4) == 0
}
harnesses! {
    /// bound: every tail of 0..=48 bytes #nopanic
    [2, 2] fn c19_strict() {
        let t: [u8; 48] = any();
        let n = upto(48);
        let i = idx(32);
        match rent_claimer::read_strict(&t[..n]) {
            Ok(None) => chk!(n == 0, "only an empty tail has no claimer"),
            Ok(Some(k)) => {
                chk!(good(&t, n), "only a well-formed entry names a claimer");
                chk!(k[i] == t[8 + i], "the claimer read is the one stored");
                wit!(k[31] == 9, "claimer");
            }
            Err(_) => chk!(n != 0 && !good(&t, n), "a well-formed tail is accepted"),
        }
        let key: [u8; 32] = any();
        let e = rent_claimer::entry(&key);
        chk!(e.len() == 40 && good(&e, 40) && e[8 + i] == key[i], "an entry is well formed and carries the key");
        match rent_claimer::read_strict(&e) {
            Ok(Some(k)) => chk!(k[i] == key[i], "an entry reads back as its own key"),
            _ => chk!(false, "an entry reads back"),
        }
        match rent_claimer::read(&e) {
            Ok(Some(k)) => chk!(k[i] == key[i], "an entry scans back as its own key"),
            _ => chk!(false, "an entry scans back"),
        }
    }
    /// bound: every tail of 0..=48 (thorough 80) bytes, up to 6 (10) entries #nopanic
    [8, 12] fn c19_scan() {
        const N: usize = tier!(48, 80);
        let t: [u8; N] = any();
        let n = upto(N);
        // independent walk
        let mut at = 0usize;
        let mut found = usize::MAX;
        let mut bad = false;
        for _ in 0..(N / 8 + 1) {
            if at < n && found == usize::MAX && !bad {
                if n - at < 8 {
                    bad = true;
                } else {
                    let l = rd16(&t, at + 2) as usize;
                    if n - at - 8 < l {
                        bad = true;
                    } else if t[at] == 1 {
                        if l == 32 { found = at } else { bad = true }
                    } else {
                        at += 8 + l;
                    }
                }
            }
        }
        let i = idx(32);
        match rent_claimer::read(&t[..n]) {
            Ok(Some(k)) => {
                chk!(found != usize::MAX && !bad, "a claimer is read only from a well-formed entry");
                if found != usize::MAX && found + 40 <= N {
                    chk!(k[i] == t[found + 8 + i], "the claimer read is the first one stored");
                    wit!(found == 8, "claimer behind another entry");
                }
            }
            Ok(None) => chk!(found == usize::MAX && !bad, "no claimer only if none is stored"),
            Err(_) => chk!(bad, "a well-formed tail is read"),
        }
    }
    /// bound: every tail of 0..=48 bytes #nopanic
    [2, 2] fn c19_entry() {
        let t: [u8; 48] = any();
        let n = upto(48);
        match TailHeader::parse(&t[..n]) {
            Ok(h) => {
                chk!(n >= 8 && h.kind == t[0] && h.version == t[1] && h.value_len == rd16(&t, 2), "header fields");
                chk!(h.payload == [t[4], t[5], t[6], t[7]] && h.total_len() == Ok(8 + rd16(&t, 2) as usize), "header length");
            }
            Err(_) => chk!(n < 8, "eight bytes are a header"),
        }
        let i = idx(40);
        match AnyTailEntry::read(&t[..n]) {
            Ok((AnyTailEntry::RentClaimer(e), c)) => {
                chk!(n >= 40 && t[0] == 1 && rd16(&t, 2) == 32 && c == 40, "claimer entry");
                chk!(i >= 32 || e.claimer[i % 32] == t[8 + i % 32], "claimer key");
                wit!(n == 44, "entry with bytes after it");
            }
            Ok((AnyTailEntry::Unknown(e), c)) => {
                chk!(t[0] != 1 && n >= 8 && e.value.len() == rd16(&t, 2) as usize && c == 8 + e.value.len() && c <= n, "other entry");
                chk!(i >= e.value.len() || e.value[i] == t[8 + i], "other entry's bytes");
            }
            Err(_) => {
                let l = rd16(&t, 2) as usize;
                chk!(n < 8 || n - 8 < l || (t[0] == 1 && l != 32), "a well-formed entry is read");
            }
        }
    }
    /// bound: every tail of 0..=48 bytes, accounts of 0..=64 (thorough 128) bytes #nopanic
    [2, 2] fn c19_saved_end() {
        const M: usize = tier!(64, 128);
        let t: [u8; 48] = any();
        let n = upto(48);
        let mut a: Al<M> = Al(any());
        let i = idx(M);
        let o = a.0[i];
        let m = upto(M);
        match SavedTail::take(&t[..n]) {
            Ok(s) => {
                chk!(n == 0 || good(&t, n), "only a well-formed tail is carried");
                chk!(s.len() == n && s.is_empty() == (n == 0), "carried length");
                let r = s.restore(&mut a.0[..m]);
                chk!(r.is_ok() == (n <= m), "restoring needs room");
                let inside = r.is_ok() && i < m && i + n >= m;
                chk!(a.0[i] == if inside { t[(i + n - m) % 48] } else { o }, "restoring writes exactly the saved bytes at the end");
                wit!(inside && n == 40 && m == 56, "restored at the end");
            }
            Err(_) => chk!(n != 0 && !good(&t, n), "a well-formed tail is carried"),
        }
    }
    /// bound: every tail of 0..=48 bytes, accounts of 0..=64 (thorough 128) bytes, every offset #nopanic
    [2, 2] fn c19_saved_at() {
        const M: usize = tier!(64, 128);
        let t: [u8; 48] = any();
        let n = upto(48);
        let mut a: Al<M> = Al(any());
        let i = idx(M);
        let o = a.0[i];
        let m = upto(M);
        if let Ok(s) = SavedTail::take(&t[..n]) {
            let at: usize = any();
            let r = s.restore_at(&mut a.0[..m], at);
            let fits = n == 0 || (at <= m && n <= m - at);
            chk!(r.is_ok() == fits, "restoring at an offset needs room");
            let inside = fits && n > 0 && i >= at && i < at + n;
            chk!(a.0[i] == if inside { t[(i - at) % 48] } else { o }, "restoring writes exactly the saved bytes there");
            wit!(inside && at == 16, "restored at an offset");
        }
    }
}
