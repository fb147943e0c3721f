//! C37: changing a role's permissions leaves everything else alone.
//@ only: update_authority_v1
use crate::{edit::*, wallet::*};

harnesses! {
    /// bound: the root's list replaced by a longer one (older form), by another role, claimer set; every content @fs=512
    [400, 400] fn c37_replace_longer() { update(1, 0, [&[ADM], &[CLO]], 4, &[LIM, ADM], &[], &[(true, 1, 8, 0), (true, FULL, 0, 16)], 40) }
    /// bound: a list replaced by a shorter one (older form), by the root role, claimer set; every content @fs=512
    [400, 400] fn c37_replace_shorter() { update(0, 1, [&[ADM], &[LIM, CLO]], 4, &[STK], &[], &[(true, 10, 8, 0)], 40) }
    /// bound: the root's list replaced by one as long, by another role @fs=512
    [400, 400] fn c37_replace_same() { update(1, 0, [&[LIM], &[CLO]], 4, &[STK], &[], &[(true, 10, 8, 0)], 0) }
    /// bound: a permission added to the root by another role, claimer set @fs=512
    [400, 400] fn c37_extend() stub(std::vec::Vec::extend_from_slice => heap::extend) { update(1, 0, [&[LIM], &[CLO]], 1, &[STK], &[], &[(false, 1, 8, 0), (true, 10, 8, 0)], 40) }
    /// bound: a permission taken by kind from the root by another role, claimer set @fs=512
    [400, 400] fn c37_drop_kind() stub(std::vec::Vec::extend_from_slice => heap::extend) { update(1, 0, [&[LIM, ADM, STK], &[CLO]], 2, &[], &[7], &[(false, 1, 8, 0), (false, 10, 8, 24)], 40) }
    /// bound: a permission taken by position from another role by the root @fs=512
    [400, 400] fn c37_drop_place() stub(std::vec::Vec::extend_from_slice => heap::extend) { update(0, 1, [&[ADM], &[LIM, CLO]], 3, &[], &[0, 0], &[(false, CLOSE, 0, 16)], 0) }
    /// bound: a role with full, management or other permission updates itself @fs=512
    [400, 400] fn c37_update_self() stub(std::vec::Vec::extend_from_slice => heap::extend) {
        update(1, 1, [&[ADM], &[CLO]], 1, &[LIM], &[], &[(false, CLOSE, 0, 0), (true, 1, 8, 0)], 0);
        update(1, 1, [&[ADM], &[(MANAGE, 0)]], 1, &[LIM], &[], &[(false, MANAGE, 0, 0), (true, 1, 8, 0)], 0)
    }
}
