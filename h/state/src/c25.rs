//! C25: stored type codes decode to the same meaning or are rejected.
use crate::nd::*;
use swig_state::{
    action::{Action, Permission},
    authority::{authority_type_to_length, AuthorityType},
    role::Position,
    swig::Swig,
    Discriminator, IntoBytes, StakeAccountState, Transmutable,
};

const PERMS: [Permission; 27] = [
    Permission::None, Permission::SolLimit, Permission::SolRecurringLimit, Permission::Program, Permission::ProgramScope,
    Permission::TokenLimit, Permission::TokenRecurringLimit, Permission::All, Permission::ManageAuthority, Permission::SubAccount,
    Permission::StakeLimit, Permission::StakeRecurringLimit, Permission::StakeAll, Permission::ProgramAll, Permission::ProgramCurated,
    Permission::AllButManageAuthority, Permission::SolDestinationLimit, Permission::SolRecurringDestinationLimit,
    Permission::TokenDestinationLimit, Permission::TokenRecurringDestinationLimit, Permission::CloseSwigAuthority,
    Permission::ReplaceAuthority, Permission::SubAccountV2Create, Permission::SubAccountV2All, Permission::SubAccountV2Sign,
    Permission::SubAccountV2Withdraw, Permission::SubAccountV2Toggle,
];
const AUTHS: [(AuthorityType, u16, usize); 8] = [
    (AuthorityType::Ed25519, 1, 32), (AuthorityType::Ed25519Session, 2, 80), (AuthorityType::Secp256k1, 3, 40),
    (AuthorityType::Secp256k1Session, 4, 88), (AuthorityType::Secp256r1, 5, 40), (AuthorityType::Secp256r1Session, 6, 88),
    (AuthorityType::ProgramExec, 7, 80), (AuthorityType::ProgramExecSession, 8, 128),
];

harnesses! {
    /// bound: every 16-bit permission code #nopanic
    [2, 2] fn c25_permission() {
        let v: u16 = any();
        match Permission::try_from(v) {
            Ok(p) => {
                chk!(v <= 26, "an undefined permission code is rejected");
                chk!(p as u16 == v, "a permission code keeps its numeric value");
                chk!(p == PERMS[v as usize], "a permission code decodes to its own kind");
                wit!(v == 26, "last");
            }
            Err(_) => {
                chk!(v > 26, "a defined permission code decodes");
                wit!(v == 27, "first undefined");
            }
        }
        let b: [u8; 3] = any();
        let n = upto(3);
        let r = Permission::try_from(&b[..n]);
        chk!(r.is_ok() == (n == 2 && rd16(&b, 0) <= 26), "decoding from bytes needs exactly two bytes of a defined code");
        if let Ok(p) = r {
            chk!(p as u16 == rd16(&b, 0), "little-endian permission code");
        }
    }
    /// bound: every 16-bit authority code and 8-bit discriminator #nopanic
    [2, 2] fn c25_authority() {
        let v: u16 = any();
        match AuthorityType::try_from(v) {
            Ok(t) => {
                chk!(v >= 1 && v <= 8, "an undefined authority code is rejected");
                let e = AUTHS[v as usize - 1];
                chk!(t == e.0 && t as u16 == e.1, "an authority code decodes to its own kind");
                match authority_type_to_length(&t) {
                    Ok(l) => chk!(l == e.2, "each authority kind has its own stored length"),
                    Err(_) => chk!(false, "each authority kind has a length"),
                }
                wit!(v == 8, "last");
            }
            Err(_) => chk!(v == 0 || v > 8, "a defined authority code decodes"),
        }
        chk!(authority_type_to_length(&AuthorityType::None).is_err(), "the none kind has no length");
        let d: u8 = any();
        match Discriminator::try_from(d) {
            Ok(k) => chk!(match d { 1 => k == Discriminator::SwigConfigAccount, 2 => k == Discriminator::SwigSubAccountV2, 255 => k == Discriminator::ClosedSwigAccount, _ => false }, "a discriminator decodes to its own kind"),
            Err(_) => chk!(d != 1 && d != 2 && d != 255, "a defined discriminator decodes"),
        }
    }
    /// bound: every role record (16 bytes) #nopanic
    [17, 17] fn c25_position() {
        let b: Al<16> = Al(any());
        match unsafe { Position::load_unchecked(&b.0) } {
            Ok(p) => {
                chk!(p.authority_type == rd16(&b.0, 0) && p.authority_length() == rd16(&b.0, 2) && p.num_actions() == rd16(&b.0, 4), "type, length and action count");
                chk!(p.id() == rd32(&b.0, 8) && p.boundary() == rd32(&b.0, 12), "id and boundary");
                match p.authority_type() {
                    Ok(t) => {
                        chk!(t as u16 == rd16(&b.0, 0), "kind");
                        let q = Position::new(t, p.id(), p.authority_length(), p.num_actions(), p.boundary());
                        match q.into_bytes() {
                            Ok(o) => {
                                chk!(o.len() == 16 && rd16(o, 0) == rd16(&b.0, 0) && rd16(o, 2) == rd16(&b.0, 2) && rd16(o, 4) == rd16(&b.0, 4) && rd16(o, 6) == 0, "encoded head");
                                chk!(rd32(o, 8) == rd32(&b.0, 8) && rd32(o, 12) == rd32(&b.0, 12), "encoded id and boundary");
                                wit!(rd32(o, 8) == u32::MAX, "largest id");
                            }
                            Err(_) => chk!(false, "a role record encodes"),
                        }
                    }
                    Err(_) => chk!(rd16(&b.0, 0) == 0 || rd16(&b.0, 0) > 8, "undefined kind only"),
                }
            }
            Err(_) => chk!(false, "a 16-byte record loads"),
        }
        let n = upto(16);
        chk!(unsafe { Position::load_unchecked(&b.0[..n]) }.is_ok() == (n == 16), "a short record is rejected");
        chk!(unsafe { Action::load_unchecked(&b.0[..n]) }.is_ok() == (n == 8), "an action header is eight bytes");
        match unsafe { Action::load_unchecked(&b.0[..8]) } {
            Ok(a) => {
                chk!(a.length() == rd16(&b.0, 2) && a.boundary() == rd32(&b.0, 4), "action length and boundary");
                match a.permission() {
                    Ok(p) => {
                        chk!(p as u16 == rd16(&b.0, 0), "action kind");
                        let c = Action::new(p, a.length(), a.boundary());
                        let d = Action::client_new(p, a.length());
                        match (c.into_bytes(), d.into_bytes()) {
                            (Ok(x), Ok(y)) => {
                                chk!(w(x, 0) == w(&b.0, 0), "an action header encodes without loss");
                                chk!(rd32(y, 0) == rd32(&b.0, 0) && rd32(y, 4) == 0, "a client header has no boundary");
                            }
                            _ => chk!(false, "an action header encodes"),
                        }
                    }
                    Err(_) => chk!(rd16(&b.0, 0) > 26, "undefined action only"),
                }
            }
            Err(_) => chk!(false, "an action header loads"),
        }
    }
    /// bound: every wallet header (48 bytes) #nopanic
    [2, 2] fn c25_header() {
        let b: Al<48> = Al(any());
        match unsafe { Swig::load_unchecked(&b.0) } {
            Ok(s) => {
                chk!(s.discriminator == b.0[0] && s.bump == b.0[1] && w(&s.id, 0) == w(&b.0, 2) && w(&s.id, 8) == w(&b.0, 10) && w(&s.id, 16) == w(&b.0, 18) && w(&s.id, 24) == w(&b.0, 26), "marker, bump and id");
                chk!(s.roles == rd16(&b.0, 34) && s.role_counter == rd32(&b.0, 36) && s.wallet_bump == b.0[40] && s.sub_account_counter == rd32(&b.0, 44), "counters");
                match s.into_bytes() {
                    Ok(o) => {
                        let i = idx(48);
                        chk!(o.len() == 48 && o[i] == b.0[i], "the header encodes without loss");
                    }
                    Err(_) => chk!(false, "the header encodes"),
                }
                let f = Swig::new(s.id, s.bump, s.wallet_bump);
                match f.into_bytes() {
                    Ok(o) => {
                        let i = idx(48);
                        let e = if i == 0 { 1 } else if i < 34 || i == 40 { b.0[i] } else { 0 };
                        chk!(o[i] == e, "a new header has the marker, bump, id, wallet bump and zero counters");
                        wit!(i == 40, "wallet bump");
                    }
                    Err(_) => chk!(false, "a new header encodes"),
                }
            }
            Err(_) => chk!(false, "a 48-byte header loads"),
        }
        let n: usize = idx(49);
        chk!(n == 48 || unsafe { Swig::load_unchecked(&b.0[..n]) }.is_err(), "a short header is rejected");
    }
}
#[allow(dead_code)]
fn unused(_: StakeAccountState) {}
