//! Models of the Solana syscalls that the encoded code can reach.  They are ordinary Rust, used
//! both by the solver and by the native replay.
#![allow(dead_code, static_mut_refs)]
use crate::nd::*;

pub const HMAX: usize = 6;
pub const HBUF: usize = 384;

/// Environment the harness controls.
pub struct Env {
    pub slot: u64,
    pub clock_err: bool,
    pub stack_height: u64,
    /// Hash calls seen so far: total number of hashed bytes.
    pub hash_n: usize,
    pub hash_len: [usize; HMAX],
    pub hash_pieces: [usize; HMAX],
    pub hash_kind: [u8; HMAX],
    pub hash_out: [[u8; 32]; HMAX],
    pub rec_out: [u8; 64],
    pub rec_ret: u64,
    pub rec_n: usize,
    pub rec_hash: [u8; 32],
    pub rec_sig: [u8; 64],
    pub rec_id: u64,
    pub pda: [u8; 32],
    pub pda_err: bool,
    pub pda_bump: u8,
    pub pda_n: usize,
    pub pda_seeds_n: usize,
    pub pda_cat: [u8; 128],
    pub pda_cat_len: usize,
    pub pda_prog: [u8; 32],
}
pub static mut ENV: Env = Env {
    slot: 0,
    clock_err: false,
    stack_height: 1,
    hash_n: 0,
    hash_len: [0; HMAX],
    hash_pieces: [0; HMAX],
    hash_kind: [0; HMAX],
    hash_out: [[0; 32]; HMAX],
    rec_out: [0; 64],
    rec_ret: 0,
    rec_n: 0,
    rec_hash: [0; 32],
    rec_sig: [0; 64],
    rec_id: 0,
    pda: [0; 32],
    pda_err: false,
    pda_bump: 0,
    pda_n: 0,
    pda_seeds_n: 0,
    pda_cat: [0; 128],
    pda_cat_len: 0,
    pda_prog: [0; 32],
};

/// The last derivation of one kind of address (told apart by the length of the first seed):
/// seeds one after the other, program, result, and the result for other seeds.
#[derive(Clone, Copy)]
pub struct Pda {
    pub used: bool,
    pub cat: [u8; 64],
    pub len: usize,
    pub prog: [u8; 32],
    pub out: [u8; 32],
    pub alt: [u8; 32],
}
pub static mut PDAS: [Pda; 6] = [Pda { used: false, cat: [0; 64], len: 0, prog: [0; 32], out: [0; 32], alt: [0; 32] }; 6];
pub fn slot(first: usize) -> usize {
    match first {
        4 => 0,
        19 => 1,
        20 => 2,
        14 => 3,
        11 => 4,
        _ => 5,
    }
}
/// Does each kind of derivation have a result of its own (`PDAS`), or all of them `ENV.pda`?
pub static mut PDA_MULTI: bool = false;

/// Bytes handed to the hash syscalls, call after call.
pub static mut HASH_IN: [[u8; HBUF]; 2] = [[0; HBUF]; 2];

#[no_mangle]
pub unsafe extern "C" fn sol_log_(_m: *const u8, _l: u64) {}
#[no_mangle]
pub unsafe extern "C" fn sol_log_64_(_a: u64, _b: u64, _c: u64, _d: u64, _e: u64) {}
#[no_mangle]
pub unsafe extern "C" fn sol_log_pubkey(_p: *const u8) {}
#[no_mangle]
pub unsafe extern "C" fn sol_log_compute_units_() {}
#[no_mangle]
pub unsafe extern "C" fn sol_memcpy_(d: *mut u8, s: *const u8, n: u64) {
    core::ptr::copy_nonoverlapping(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C" fn sol_memmove_(d: *mut u8, s: *const u8, n: u64) {
    core::ptr::copy(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C" fn sol_memset_(d: *mut u8, c: u8, n: u64) {
    let mut i = 0;
    while i < n as usize {
        *d.add(i) = c;
        i += 1;
    }
}

#[inline(always)]
unsafe fn d8(a: *const u8, b: *const u8, i: usize) -> bool {
    (a.add(i) as *const u64).read_unaligned() != (b.add(i) as *const u64).read_unaligned()
}
/// memcmp, unrolled: the result is only ever compared with 0 by the callers, and is 0 exactly for
/// equal inputs.
#[no_mangle]
pub unsafe extern "C" fn sol_memcmp_(a: *const u8, b: *const u8, n: u64, r: *mut i32) {
    let n = n as usize;
    let mut ne = false;
    let mut o = 0usize;
    macro_rules! w8 { ($($x:tt)*) => { $( let _ = $x; if o + 8 <= n { if d8(a, b, o) { ne = true; } o += 8; } )* } }
    macro_rules! b1 { ($($x:tt)*) => { $( let _ = $x; if o < n { if *a.add(o) != *b.add(o) { ne = true; } o += 1; } )* } }
    w8!(0 1 2 3 4 5 6 7 8 9 10 11);
    b1!(0 1 2 3 4 5 6);
    if o < n {
        // longer comparisons are outside the model
        assume(false);
    }
    *r = ne as i32;
}

pub fn clock_bytes(slot: u64) -> [u8; 40] {
    let mut b = [0u8; 40];
    b[..8].copy_from_slice(&slot.to_le_bytes());
    b
}
#[no_mangle]
pub unsafe extern "C" fn sol_get_clock_sysvar(p: *mut u8) -> u64 {
    if ENV.clock_err {
        return 1;
    }
    core::ptr::write_bytes(p, 0, 40);
    (p as *mut u64).write_unaligned(ENV.slot);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sol_get_stack_height() -> u64 {
    ENV.stack_height
}

/// Records every byte hashed (first two calls) and returns the harness-chosen digest.
unsafe fn hash(kind: u8, vals: *const u8, n: u64, out: *mut u8) -> u64 {
    let k = ENV.hash_n;
    assume(k < HMAX);
    ENV.hash_n = k + 1;
    let pieces = core::slice::from_raw_parts(vals as *const &[u8], n as usize);
    let mut pos = 0usize;
    let mut i = 0;
    while i < pieces.len() {
        let p = pieces[i];
        if k < 2 {
            assume(pos + p.len() <= HBUF);
            core::ptr::copy_nonoverlapping(p.as_ptr(), HASH_IN[k].as_mut_ptr().add(pos), p.len());
        }
        pos += p.len();
        i += 1;
    }
    ENV.hash_len[k] = pos;
    ENV.hash_pieces[k] = pieces.len();
    ENV.hash_kind[k] = kind;
    core::ptr::copy_nonoverlapping(ENV.hash_out[k].as_ptr(), out, 32);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sol_sha256(v: *const u8, n: u64, o: *mut u8) -> u64 {
    hash(1, v, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn sol_keccak256(v: *const u8, n: u64, o: *mut u8) -> u64 {
    hash(2, v, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn sol_secp256k1_recover(h: *const u8, id: u64, s: *const u8, o: *mut u8) -> u64 {
    ENV.rec_n += 1;
    ENV.rec_id = id;
    core::ptr::copy_nonoverlapping(h, ENV.rec_hash.as_mut_ptr(), 32);
    core::ptr::copy_nonoverlapping(s, ENV.rec_sig.as_mut_ptr(), 64);
    core::ptr::copy_nonoverlapping(ENV.rec_out.as_ptr(), o, 64);
    ENV.rec_ret
}
/// Records the seeds (up to four, at most 128 bytes together) and the program of a derivation.
unsafe fn derive(s: *const u8, n: u64, p: *const u8, o: *mut u8) {
    ENV.pda_n += 1;
    ENV.pda_seeds_n = n as usize;
    let q = s as *const &[u8];
    let mut pos = 0usize;
    macro_rules! one { ($($i:literal)*) => { $( if $i < n as usize {
        let x = *q.add($i);
        assume(pos + x.len() <= 128);
        core::ptr::copy_nonoverlapping(x.as_ptr(), ENV.pda_cat.as_mut_ptr().add(pos), x.len());
        pos += x.len();
    } )* } }
    one!(0 1 2 3);
    ENV.pda_cat_len = pos;
    core::ptr::copy_nonoverlapping(p, ENV.pda_prog.as_mut_ptr(), 32);
    if PDA_MULTI {
        assume(pos <= 64);
        // a slot for each kind of address: derivations of one kind with the same seeds agree
        let d = &mut PDAS[{ let f = *q; slot(f.len()) }];
        let mut same = d.used && d.len == pos && eq32(&d.prog, &ENV.pda_prog);
        let mut i = 0;
        while i < 64 {
            same &= i >= pos || d.cat[i] == ENV.pda_cat[i];
            i += 1;
        }
        let other = d.used && !same;
        let mut i = 0;
        while i < 32 {
            d.out[i] = if other { d.alt[i] } else { d.out[i] };
            i += 1;
        }
        d.used = true;
        d.len = pos;
        let mut i = 0;
        while i < 64 {
            d.cat[i] = ENV.pda_cat[i];
            i += 1;
        }
        d.prog = ENV.pda_prog;
        core::ptr::copy_nonoverlapping(d.out.as_ptr(), o, 32);
    } else {
        core::ptr::copy_nonoverlapping(ENV.pda.as_ptr(), o, 32);
    }
}
#[no_mangle]
pub unsafe extern "C" fn sol_create_program_address(s: *const u8, n: u64, p: *const u8, o: *mut u8) -> u64 {
    derive(s, n, p, o);
    ENV.pda_err as u64
}
#[no_mangle]
pub unsafe extern "C" fn sol_try_find_program_address(
    s: *const u8, n: u64, p: *const u8, o: *mut u8, b: *mut u8,
) -> u64 {
    derive(s, n, p, o);
    *b = ENV.pda_bump;
    ENV.pda_err as u64
}
#[no_mangle]
pub unsafe extern "C" fn sol_set_return_data(_d: *const u8, _n: u64) {}


// ------------------------------------------------------------------ sysvars
#[no_mangle]
pub unsafe extern "C" fn sol_get_rent_sysvar(p: *mut u8) -> u64 {
    let p = p as *mut u64;
    p.write_unaligned(RENT);
    p.add(1).write_unaligned(2.0f64.to_bits());
    *(p.add(2) as *mut u8) = 50;
    0
}
/// lamports per byte-year: what mainnet uses
pub static mut RENT: u64 = 3480;
pub fn rent_exempt(len: usize) -> u64 {
    unsafe { (128 + len as u64) * RENT * 2 }
}

// ------------------------------------------------------------------ cross-program calls
pub const CM: usize = 5;
pub const CN: usize = 6;
pub const CD: usize = 24;
#[derive(Clone, Copy)]
pub struct Cpi {
    pub prog: [u8; 32],
    pub n: usize,
    pub keys: [[u8; 32]; CM],
    pub wr: [bool; CM],
    pub sg: [bool; CM],
    pub infos: usize,
    pub len: usize,
    pub data: [u8; CD],
    /// signer seed lists supplied, and the first of them, concatenated
    pub signers: usize,
    pub seed_n: usize,
    pub cat: [u8; 112],
    pub cat_len: usize,
}
const NOCPI: Cpi = Cpi { prog: [0; 32], n: 0, keys: [[0; 32]; CM], wr: [false; CM], sg: [false; CM], infos: 0, len: 0, data: [0; CD], signers: 0, seed_n: 0, cat: [0; 112], cat_len: 0 };
pub static mut CPI: [Cpi; CN] = [NOCPI; CN];
pub static mut CPI_N: usize = 0;
/// Apply the system program's effects?
pub static mut CPI_SYS: bool = true;
/// What a called program other than the system program does: a lamport balance it sets.
#[derive(Clone, Copy)]
pub struct Fx {
    pub on: bool,
    pub at: usize,
    pub ptr: *mut u64,
    pub val: u64,
}
pub static mut FX: [Fx; 4] = [Fx { on: false, at: 0, ptr: core::ptr::null_mut(), val: 0 }; 4];
/// Another effect: bytes a called program writes.
pub static mut FXB: [(bool, usize, *mut u8, u8); 4] = [(false, 0, core::ptr::null_mut(), 0); 4];

#[repr(C)]
struct Ix {
    prog: *const [u8; 32],
    accounts: *const Meta,
    n: u64,
    data: *const u8,
    len: u64,
}
#[repr(C)]
struct Meta {
    key: *const [u8; 32],
    wr: bool,
    sg: bool,
}
#[repr(C)]
struct Info {
    key: *const u8,
    lamports: *mut u64,
    len: u64,
    data: *mut u8,
    owner: *mut [u8; 32],
    rent: u64,
    sg: bool,
    wr: bool,
    ex: bool,
}
#[repr(C)]
struct Sd {
    p: *const u8,
    n: u64,
}
#[repr(C)]
struct Sg {
    s: *const Sd,
    n: u64,
}
/// Records the call (program, accounts and flags, data, signer seeds) and applies the system
/// program's transfer, create, allocate and assign; a call the runtime would refuse ends the run.
#[no_mangle]
pub unsafe extern "C" fn sol_invoke_signed_c(ix: *const u8, infos: *const u8, ninfo: u64, seeds: *const u8, nseeds: u64) -> u64 {
    let k = CPI_N;
    assume(k < CN);
    CPI_N = k + 1;
    let ix = &*(ix as *const Ix);
    let c = &mut CPI[k];
    c.prog = *ix.prog;
    c.n = ix.n as usize;
    c.infos = ninfo as usize;
    c.len = ix.len as usize;
    let mut i = 0;
    while i < CM {
        if i < c.n {
            let m = &*ix.accounts.add(i);
            c.keys[i] = *m.key;
            c.wr[i] = m.wr;
            c.sg[i] = m.sg;
        }
        i += 1;
    }
    let mut i = 0;
    while i < CD {
        if i < c.len {
            c.data[i] = *ix.data.add(i);
        }
        i += 1;
    }
    c.signers = nseeds as usize;
    c.seed_n = 0;
    c.cat_len = 0;
    if nseeds > 0 {
        let g = &*(seeds as *const Sg);
        c.seed_n = g.n as usize;
        let mut pos = 0usize;
        let mut i = 0;
        while i < 5 {
            if i < g.n as usize {
                let x = &*g.s.add(i);
                assume(pos + x.n as usize <= 112);
                core::ptr::copy_nonoverlapping(x.p, c.cat.as_mut_ptr().add(pos), x.n as usize);
                pos += x.n as usize;
            }
            i += 1;
        }
        c.cat_len = pos;
    }
    let a = infos as *const Info;
    if CPI_SYS && eq32(&c.prog, &[0; 32]) && c.len >= 4 {
        let op = rd32(&c.data, 0);
        let zero = [0u8; 32];
        if op == 2 {
            let amt = w(&c.data, 4);
            let (f, t) = (&*a, &*a.add(1));
            assume(c.n >= 2 && c.len >= 12 && c.sg[0] && c.wr[0] && c.wr[1] && eq32(&*f.owner, &zero) && f.len == 0);
            assume(amt <= *f.lamports);
            *f.lamports -= amt;
            *t.lamports = (*t.lamports).wrapping_add(amt);
        } else if op == 0 {
            let amt = w(&c.data, 4);
            let (f, t) = (&*a, &*a.add(1));
            assume(c.n >= 2 && c.len >= 20 && c.sg[0] && c.sg[1] && eq32(&*f.owner, &zero) && eq32(&*t.owner, &zero) && *t.lamports == 0 && t.len == 0);
            assume(amt <= *f.lamports);
            *f.lamports -= amt;
            *t.lamports = amt;
            *(t.key.add(72) as *mut u64) = w(&c.data, 12);
            let o = ix.data.add(20) as *const [u8; 32];
            *t.owner = *o;
        } else if op == 8 {
            let t = &*a;
            assume(c.n >= 1 && c.sg[0] && eq32(&*t.owner, &zero) && t.len == 0);
            *(t.key.add(72) as *mut u64) = w(&c.data, 4);
        } else if op == 1 {
            let t = &*a;
            assume(c.n >= 1 && c.sg[0] && eq32(&*t.owner, &zero));
            let o = ix.data.add(4) as *const [u8; 32];
            *t.owner = *o;
        }
    }
    let mut i = 0;
    while i < 4 {
        if FX[i].on && FX[i].at == k {
            *FX[i].ptr = FX[i].val;
        }
        if FXB[i].0 && FXB[i].1 == k {
            *FXB[i].2 = FXB[i].3;
        }
        i += 1;
    }
    0
}

/// Makes the definitions above reachable from the harness, so that Kani links the `extern "C"`
/// declarations in pinocchio to them.
#[inline(never)]
pub fn link() {
    let t: [usize; 17] = [
        sol_log_ as usize,
        sol_log_64_ as usize,
        sol_log_pubkey as usize,
        sol_memcpy_ as usize,
        sol_memmove_ as usize,
        sol_memset_ as usize,
        sol_memcmp_ as usize,
        sol_get_clock_sysvar as usize,
        sol_get_stack_height as usize,
        sol_sha256 as usize,
        sol_keccak256 as usize,
        sol_secp256k1_recover as usize,
        sol_create_program_address as usize,
        sol_try_find_program_address as usize,
        sol_set_return_data as usize,
        sol_get_rent_sysvar as usize,
        sol_invoke_signed_c as usize,
    ];
    let _ = t;
}
