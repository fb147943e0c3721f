//! C17: a WebAuthn message is accepted only if it carries this request's challenge.
#![allow(static_mut_refs)]
use crate::{acct::*, nd::*, sys::*};
use pinocchio::{account_info::AccountInfo, sysvars::instructions::INSTRUCTIONS_ID};
use swig_state::{
    authority::{secp256r1::{Secp256r1Authority, SECP256R1_PROGRAM_ID}, AuthorityInfo},
    Transmutable, TransmutableMut,
};

/// Base64url character of a 6-bit group.
fn b64c(x: u8) -> u8 {
    match x {
        0..=25 => b'A' + x,
        26..=51 => b'a' + x - 26,
        52..=61 => b'0' + x - 52,
        62 => b'-',
        _ => b'_',
    }
}
/// The challenge text of a 32-byte digest.
fn b64(d: &[u8; 32]) -> [u8; 43] {
    let mut o = [0; 43];
    let mut i = 0;
    while i < 10 {
        let (a, b, c) = (d[3 * i], d[3 * i + 1], d[3 * i + 2]);
        o[4 * i] = b64c(a >> 2);
        o[4 * i + 1] = b64c((a & 3) << 4 | b >> 4);
        o[4 * i + 2] = b64c((b & 15) << 2 | c >> 6);
        o[4 * i + 3] = b64c(c & 63);
        i += 1;
    }
    o[40] = b64c(d[30] >> 2);
    o[41] = b64c((d[30] & 3) << 4 | d[31] >> 4);
    o[42] = b64c((d[31] & 15) << 2);
    o
}
/// `String::push` for the single-byte characters the encoder produces.
#[cfg(kani)]
fn push_ascii(s: &mut String, c: char) {
    chk!((c as u32) < 128, "the encoder produces single-byte characters");
    unsafe { s.as_mut_vec() }.push(c as u8)
}
/// `from_utf8` for the ASCII origins these harnesses spell.
#[cfg(kani)]
fn ascii(b: &[u8]) -> Result<&str, core::str::Utf8Error> {
    Ok(unsafe { core::str::from_utf8_unchecked(b) })
}
/// `Arguments::as_str` may always answer that the text is not a constant.
#[cfg(kani)]
fn no_str<'a>(_: &core::fmt::Arguments<'a>) -> Option<&'static str>
where
    'a: 'a,
{
    None
}
fn put(d: &mut [u8], at: usize, s: &[u8], n: usize) {
    let mut i = 0;
    while i < n {
        d[at + i] = s[i];
        i += 1;
    }
}
const AD: usize = 37;
/// Authenticates with the client-data part `extra[..xl]` of the request; the signed message the
/// precompile verified is `AD` bytes of authenticator data and a hash.  Returns (accepted, digest,
/// client-data hash, key record untouched apart from the counter).
struct Out {
    ok: bool,
    digest: [u8; 32],
}
fn auth<const X: usize>(extra: &[u8; X], xl: usize, ad: usize) -> Out {
    const S: usize = 2 + 4 + 36 + 113 + 37 + 32 + 36 + 2;
    let mut d: Al<40> = Al(any());
    let stored = d;
    let mut sv = Acct::<S>::new(INSTRUCTIONS_ID, any(), 0, 0, any());
    let len = 113 + ad + 32;
    wr16(&mut sv.data, 0, 2);
    wr16(&mut sv.data, 2, 6);
    wr16(&mut sv.data, 4, (6 + 36 + len) as u16);
    wr16(&mut sv.data, 6, 0);
    wr16(&mut sv.data, 6 + 34, len as u16);
    wr16(&mut sv.data, 6 + 36 + len, 0);
    wr16(&mut sv.data, 6 + 36 + len + 34, 0);
    wr16(&mut sv.data, 6 + 36 + len + 36, 1);
    sv.len = (6 + 36 + len + 38) as u64;
    let mut a = Acct::<8>::key(any());
    let infos: [AccountInfo; 2] = [a.info(), sv.info()];
    let slot: u64 = any();
    let odo = rd32(&d.0, 36);
    let mut pl = [0u8; 400];
    wr64(&mut pl, 0, slot);
    wr32(&mut pl, 8, odo.wrapping_add(1));
    pl[12] = 1;
    put(&mut pl, 17, extra, xl);
    let data: [u8; 4] = any();
    unsafe {
        ENV.hash_n = 0;
        ENV.hash_out[0] = any();
        ENV.hash_out[1] = any();
    }
    let r = unsafe { Secp256r1Authority::load_mut_unchecked(&mut d.0).map(|x| x.authenticate(&infos, &pl[..17 + xl], &data, slot)) };
    let ok = matches!(r, Ok(Ok(())));
    let e = unsafe { &ENV };
    if ok {
        let m = 6 + 2 + 34 + 113 - 6 + 4;
        let _ = m;
        let at = 6 + 36;
        let mut same = e.hash_n == 2 && e.hash_kind[1] == 1;
        let mut i = 0;
        while i < 32 {
            same &= sv.data[6 + 2 + i] == SECP256R1_PROGRAM_ID[i] && sv.data[at + 113 + ad + i] == e.hash_out[1][i];
            i += 1;
        }
        let mut i = 0;
        while i < ad {
            same &= sv.data[at + 113 + i] == extra[4 + i];
            i += 1;
        }
        let mut i = 0;
        while i < 33 {
            same &= sv.data[at + 16 + i] == stored.0[i];
            i += 1;
        }
        chk!(same, "the precompile verified the authenticator data and the client-data hash under the stored key");
    }
    chk!(rd32(&d.0, 36) == if ok { odo.wrapping_add(1) } else { odo }, "the counter advances exactly on success");
    Out { ok, digest: e.hash_out[0] }
}
/// The hashed client data is exactly `j`.
fn hashed(j: &[u8]) -> bool {
    let e = unsafe { &ENV };
    let mut same = e.hash_len[1] == j.len();
    let mut i = 0;
    while i < j.len() {
        same &= unsafe { HASH_IN[1][i] } == j[i];
        i += 1;
    }
    same
}
/// A request carrying raw client data `j`; `own` is its own top-level challenge text, if it has
/// one; `get` says whether its top-level type is that of an authentication.
fn raw(j: &[u8], own: Option<&[u8]>, get: bool) {
    let mut x: [u8; 256] = [0; 256];
    wr16(&mut x, 0, 2);
    wr16(&mut x, 2, AD as u16);
    let ad: [u8; AD] = any();
    put(&mut x, 4, &ad, AD);
    wr16(&mut x, 4 + AD, j.len() as u16);
    put(&mut x, 6 + AD, j, j.len());
    let o = auth(&x, 6 + AD + j.len(), AD);
    let text = b64(&o.digest);
    let mut want = get;
    match own {
        Some(c) => {
            want &= c.len() == 43;
            let mut i = 0;
            while i < 43 && c.len() == 43 {
                want &= c[i] == text[i];
                i += 1;
            }
        }
        None => want = false,
    }
    let no = own.is_none() || own.unwrap().len() != 43 || !get;
    wit!(o.ok || no, "accepted");
    chk!(!o.ok || want, "only client data with this request's own challenge is accepted");
    chk!(!o.ok || hashed(j), "the client data judged is the client data signed");
}
/// A request naming the order of the client-data fields; the origin is `ab`, spelled with a
/// three-node code tree (leaf a, leaf b, root).
fn built(order: [u8; 4], want: Option<[&[u8]; 2]>) {
    let mut x: [u8; 256] = [0; 256];
    wr16(&mut x, 0, 1);
    wr16(&mut x, 2, AD as u16);
    let ad: [u8; AD] = any();
    put(&mut x, 4, &ad, AD);
    let o = 4 + AD;
    put(&mut x, o, &order, 4);
    wr16(&mut x, o + 4, 2);
    wr16(&mut x, o + 6, 9);
    wr16(&mut x, o + 8, 1);
    put(&mut x, o + 10, &[0, b'a', 0, 0, b'b', 0, 1, 0, 1], 9);
    x[o + 19] = 0x40;
    let r = auth(&x, o + 20, AD);
    wit!(r.ok || want.is_none(), "accepted");
    match want {
        None => chk!(!r.ok, "an order without exactly one challenge and one type is refused"),
        Some([pre, post]) => {
            let text = b64(&r.digest);
            let mut j = [0u8; 160];
            let (p, q) = (pre.len(), post.len());
            put(&mut j, 0, pre, p);
            put(&mut j, p, &text, 43);
            put(&mut j, p + 43, post, q);
            chk!(!r.ok || hashed(&j[..p + 43 + q]), "the client data signed carries this request's challenge");
        }
    }
}
const B1: &[u8] = b"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8";
macro_rules! j { ($($p:expr),*) => {{ const J: &str = concat!($($p),*); J.as_bytes() }} }

const B2: &[u8] = b"-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_8";

harnesses! {
    /// bound: challenge text of 43 arbitrary bytes after the type; every digest #nopanic @fs=512 @memcmp=72
    [440, 440] fn c17_challenge() stub(std::string::String::push => push_ascii) {
        let mut j = *b"{\"type\":\"webauthn.get\",\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\",\"origin\":\"a\"}";
        let c: [u8; 43] = any();
        put(&mut j, 36, &c, 43);
        raw(&j, Some(&c), true)
    }
    /// bound: type text of 12 arbitrary bytes after the challenge; every digest #nopanic @fs=512 @memcmp=72
    [440, 440] fn c17_type_text() stub(std::string::String::push => push_ascii) {
        let mut j = *b"{\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\",\"type\":\"webauthn.get\"}";
        let c: [u8; 12] = any();
        put(&mut j, 67, &c, 12);
        let mut get = true;
        let mut i = 0;
        while i < 12 {
            get &= c[i] == b"webauthn.get"[i];
            i += 1;
        }
        raw(&j, Some(B1), get)
    }
    /// bound: challenge before the type, after it, and with white space; every digest, key and byte outside the client data #nopanic @fs=512 @memcmp=72
    [440, 440] fn c17_plain() stub(std::string::String::push => push_ascii) {
        raw(j!("{\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\",\"type\":\"webauthn.get\"}"), Some(B1), true);
        raw(j!("{\"type\":\"webauthn.get\",\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\"}"), Some(B1), true);
        raw(j!(" { \"a\" : 1 , \"challenge\" : \"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\" ,
\"type\"	: \"webauthn.get\" } "), Some(B1), true);
    }
    /// bound: no challenge, one under another name, or one that is not text; every digest, key and byte outside the client data #nopanic @fs=512 @memcmp=72
    [440, 440] fn c17_absent() stub(std::string::String::push => push_ascii) {
        raw(j!("{\"type\":\"webauthn.get\"}"), None, true);
        raw(j!("{\"type\":\"webauthn.get\",\"challenges\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\",\"hallenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\",\"x\":\"challenge\"}"), None, true);
        raw(j!("{\"type\":\"webauthn.get\",\"challenge\":1}"), None, true);
    }
    /// bound: challenge only inside another object or array; every digest, key and byte outside the client data #nopanic @fs=512 @memcmp=72
    [440, 440] fn c17_nested() stub(std::string::String::push => push_ascii) {
        raw(j!("{\"type\":\"webauthn.get\",\"a\":{\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\"}}"), None, true);
        raw(j!("{\"a\":[{\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\"}],\"type\":\"webauthn.get\"}"), None, true);
        raw(j!("{\"a\":{\"b\":{\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\"},\"c\":[]},\"type\":\"webauthn.get\",\"challenge\":\"-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_8\"}"), Some(B2), true);
    }
    /// bound: nested strings holding braces and escaped quotes; every digest, key and byte outside the client data #nopanic @fs=512 @memcmp=72
    [440, 440] fn c17_nested_strings() stub(std::string::String::push => push_ascii) {
        raw(j!("{\"a\":{\"b\":\"}\",\":\\\"\":\"x\",\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\"},\"challenge\":\"-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_-_8\",\"type\":\"webauthn.get\"}"), Some(B2), true);
        raw(j!("{\"a\":{\"b\":\"}\",\":\\\"\":\"x\",\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\"},\"type\":\"webauthn.get\"}"), None, true);
        raw(j!("{\"a\":{\"b\":\"\\\\\",\"c\":\"{\"},\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\",\"type\":\"webauthn.get\"}"), Some(B1), true);
    }
    /// bound: challenge texts one character short or long, or empty; every digest, key and byte outside the client data #nopanic @fs=512 @memcmp=72
    [440, 440] fn c17_wrong_length() stub(std::string::String::push => push_ascii) {
        raw(j!("{\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh\",\"type\":\"webauthn.get\"}"), Some(&B1[..42]), true);
        raw(j!("{\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8A\",\"type\":\"webauthn.get\"}"), Some(b"x"), true);
        raw(j!("{\"challenge\":\"\",\"type\":\"webauthn.get\"}"), Some(b""), true);
    }
    /// bound: other types, none, or only a nested one; every digest, key and byte outside the client data #nopanic @fs=512 @memcmp=72
    [440, 440] fn c17_type() stub(std::string::String::push => push_ascii) {
        raw(j!("{\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\",\"type\":\"webauthn.create\"}"), Some(B1), false);
        raw(j!("{\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\",\"type\":\"webauthn.ge\"}"), Some(B1), false);
        raw(j!("{\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\",\"a\":{\"type\":\"webauthn.get\"}}"), Some(B1), false);
        raw(j!("{\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\"}"), Some(B1), false);
    }
    /// bound: client data that is not an object, or unfinished; every digest, key and byte outside the client data #nopanic @fs=512 @memcmp=72
    [440, 440] fn c17_not_an_object() stub(std::string::String::push => push_ascii) {
        raw(j!("[\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\",\"type\":\"webauthn.get\"]"), None, true);
        raw(j!("\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8\",\"type\":\"webauthn.get\""), None, true);
        raw(j!("{\"type\":\"webauthn.get\",\"challenge\":\"AAECAwQFBgcICQoLDA0ODxAREhMUFRYXGBkaGxwdHh8"), None, true);
    }
    /// bound: client data rebuilt in the usual field order; every digest, key and authenticator byte #nopanic @fs=512 @memcmp=72
    [440, 440] fn c17_built() stub(std::string::String::push => push_ascii) stub(core::str::from_utf8 => ascii) stub(core::fmt::Arguments::as_str => no_str) {
        built([1, 2, 3, 4], Some([br#"{"type":"webauthn.get","challenge":""#, br#"","origin":"ab","crossOrigin":false}"#]));
    }
    /// bound: client data rebuilt with the challenge first #nopanic @fs=512 @memcmp=72
    [440, 440] fn c17_built_first() stub(std::string::String::push => push_ascii) stub(core::str::from_utf8 => ascii) stub(core::fmt::Arguments::as_str => no_str) {
        built([2, 1, 4, 3], Some([br#"{"challenge":""#, br#"","type":"webauthn.get","crossOrigin":false,"origin":"ab"}"#]));
    }
    /// bound: client data rebuilt with unused field slots #nopanic @fs=512 @memcmp=72
    [440, 440] fn c17_built_gaps() stub(std::string::String::push => push_ascii) stub(core::str::from_utf8 => ascii) stub(core::fmt::Arguments::as_str => no_str) {
        built([0, 2, 0, 1], Some([br#"{"challenge":""#, br#"","type":"webauthn.get"}"#]));
    }
    /// bound: client data rebuilt with the challenge last and a repeated other field #nopanic @fs=512 @memcmp=72
    [440, 440] fn c17_built_last() stub(std::string::String::push => push_ascii) stub(core::str::from_utf8 => ascii) stub(core::fmt::Arguments::as_str => no_str) {
        built([3, 1, 3, 2], Some([br#"{"origin":"ab","type":"webauthn.get","origin":"ab","challenge":""#, br#""}"#]));
    }
    /// bound: field orders without a challenge or type, or with two, or unknown fields #nopanic @fs=512 @memcmp=72
    [440, 440] fn c17_built_refused() stub(std::string::String::push => push_ascii) stub(core::str::from_utf8 => ascii) stub(core::fmt::Arguments::as_str => no_str) {
        built([1, 3, 4, 0], None);
        built([2, 3, 4, 0], None);
        built([1, 2, 2, 0], None);
        built([1, 2, 3, 1], None);
        built([1, 2, 3, 5], None);
        built([0, 0, 0, 0], None);
    }
}
