//! L08: only well-formed, unspent permission configurations are accepted.
use crate::nd::{self, *};
use swig_state::action::{Action, ActionLoader, Permission};
use swig_state::Transmutable;

pub fn permission(code: u16) -> Option<Permission> {
    use Permission::*;
    Some(match code {
        0 => None, 1 => SolLimit, 2 => SolRecurringLimit, 3 => Program, 4 => ProgramScope, 5 => TokenLimit, 6 => TokenRecurringLimit,
        7 => All, 8 => ManageAuthority, 9 => SubAccount, 10 => StakeLimit, 11 => StakeRecurringLimit, 12 => StakeAll, 13 => ProgramAll,
        14 => ProgramCurated, 15 => AllButManageAuthority, 16 => SolDestinationLimit, 17 => SolRecurringDestinationLimit,
        18 => TokenDestinationLimit, 19 => TokenRecurringDestinationLimit, 20 => CloseSwigAuthority, 21 => ReplaceAuthority,
        22 => SubAccountV2Create, 23 => SubAccountV2All, 24 => SubAccountV2Sign, 25 => SubAccountV2Withdraw, 26 => SubAccountV2Toggle,
        _ => return Option::None,
    })
}
/// The record size of each kind.
pub fn size(code: u16) -> Option<usize> {
    Some(match code {
        1 | 10 | 21 | 23 | 24 | 25 | 26 => 8,
        2 | 3 | 11 | 14 => 32,
        4 => 144,
        5 | 16 => 40,
        6 | 17 => 64,
        7 | 8 | 12 | 13 | 15 | 20 | 22 => 0,
        9 | 18 => 72,
        19 => 96,
        _ => return None,
    })
}
fn le64(d: &[u8], at: usize) -> u64 {
    u64::from_le_bytes([d[at], d[at + 1], d[at + 2], d[at + 3], d[at + 4], d[at + 5], d[at + 6], d[at + 7]])
}
fn zero32(d: &[u8]) -> bool {
    let mut z = true;
    let mut i = 0;
    while i < 32 {
        if d[i] != 0 { z = false }
        i += 1;
    }
    z
}
/// What is an acceptable configuration.
pub fn good(code: u16, d: &[u8]) -> bool {
    if size(code) != Some(d.len()) { return false }
    match code {
        // recurring_amount, window, last_reset, current_amount
        2 | 11 => le64(d, 24) == le64(d, 0) && le64(d, 16) == 0,
        // mint, window, limit, current, last_reset
        6 => le64(d, 48) == le64(d, 40) && le64(d, 56) == 0,
        // destination, recurring_amount, window, last_reset, current_amount
        17 => le64(d, 40) != 0 && le64(d, 56) <= le64(d, 32),
        // mint, destination, recurring_amount, window, last_reset, current_amount
        19 => le64(d, 72) != 0 && le64(d, 88) <= le64(d, 64),
        // no sub-account yet; the enabled flag is a flag
        9 => zero32(d) && d[33] <= 1,
        _ => true,
    }
}
//# fn ActionLoader::validate_layout, Actionable::valid_layout of every kind
harness! { #[kani::unwind(34)] every_kind {
    let code: u16 = any();
    assume(code <= 26);
    let buf: Buf<160> = Buf::any();
    let n = len_upto(160);
    let d = &buf.0[..n];
    let p = permission(code).unwrap();
    let r = ActionLoader::validate_layout(p, d);
    let good = good(code, d);
    reach!("a sub-account permission is accepted", code == 9 && good);
    reach!("a recurring cap is accepted", code == 2 && good);
    reach!("a spent recurring cap is refused", code == 2 && n == 32 && !good);
    reach!("a permission of the wrong size", code == 4 && n == 143);
    ob!("validation answers", r.is_ok() || !good);
    ob!("accepted exactly when the configuration is well-formed and unspent", matches!(r, Ok(true)) == good);
}}
static LONG: [u8; 65536] = [0; 65536];
//# fn ActionLoader::validate_layout (data longer than every record, up to the largest a permission header can announce)
harness! { #[kani::unwind(34)] oversize {
    let code: u16 = any();
    assume(code <= 26);
    let n: usize = any::<u16>() as usize;
    assume(n > 144);
    let r = ActionLoader::validate_layout(permission(code).unwrap(), &LONG[..n]);
    ob!("never accepted", !matches!(r, Ok(true)));
}}
