//! X01: account checks.
use crate::acct::Acct;
use crate::nd::{self, *};
use pinocchio::program_error::ProgramError;
use swig_assertions::*;

const PROGRAM: [u8; 32] = [13, 12, 233, 66, 225, 231, 197, 6, 226, 24, 223, 13, 125, 241, 197, 47, 175, 220, 53, 41, 228, 141, 103, 77, 29, 178, 76, 117, 181, 76, 204, 190];
fn same(a: &[u8; 32], b: &[u8; 32]) -> bool {
    let mut eq = true;
    let mut i = 0;
    while i < 32 {
        if a[i] != b[i] { eq = false }
        i += 1;
    }
    eq
}
const E: ProgramError = ProgramError::Custom(77);
macro_rules! check {
    ($name:ident, $what:literal, |$a:ident, $k:ident| $call:expr, $want:expr) => {
        harness! { #[kani::unwind(34)] $name {
            let mut acct: Acct<8> = Acct::new(bytes(), bytes(), bytes());
            acct.signer = any();
            acct.writable = any();
            acct.executable = any();
            assume(acct.signer <= 1 && acct.writable <= 1 && acct.executable <= 1);
            acct.lamports = any();
            acct.data_len = any();
            assume(acct.data_len <= 8);
            let before = acct;
            let $k: [u8; 32] = bytes();
            let r = { let $a = acct.info(); $call };
            let want: bool = { let $a = &before; $want };
            reach!("accepted", r.is_ok());
            reach!("refused", r.is_err());
            ob!($what, r.is_ok() == want);
            ob!("otherwise the caller's error", r.is_ok() || r == Err(E));
            ob!("the account is not changed", acct == before);
        }}
    };
}
//# fn check_owner
check!(owner, "owned by the given program", |a, k| check_owner(&a, &k, E), same(&a.owner, &k));
//# fn check_system_owner
check!(system_owner, "owned by the system program", |a, k| check_system_owner(&a, E), same(&a.owner, &[0; 32]));
//# fn check_self_owned
check!(self_owned, "owned by the wallet program", |a, k| check_self_owned(&a, E), same(&a.owner, &PROGRAM));
//# fn check_key_match
check!(key_match, "has the given key", |a, k| check_key_match(&a, &k, E), same(&a.key, &k));
//# fn check_writable
check!(writable, "is writable", |a, k| check_writable(&a, E), a.writable == 1);
//# fn check_signer
check!(signer, "is a signer", |a, k| check_signer(&a, E), a.signer == 1);
//# fn check_writable_signer
check!(writable_signer, "is a writable signer", |a, k| check_writable_signer(&a, E), a.writable == 1 && a.signer == 1);
//# fn check_zero_lamports
check!(zero_lamports, "has no lamports", |a, k| check_zero_lamports(&a, E), a.lamports == 0);
//# fn check_zero_data
check!(zero_data, "has no data", |a, k| check_zero_data(&a, E), a.data_len == 0);
//# fn check_zero_balance
check!(zero_balance, "has neither lamports nor data", |a, k| check_zero_balance(&a, E), a.lamports == 0 && a.data_len == 0);
//# fn sol_assert_bytes_eq, check_bytes_match
//# bounded bytes_eq: byte strings of at most 40 bytes
harness! { #[kani::unwind(42)] bytes_eq {
    let (a, b): ([u8; 40], [u8; 40]) = (bytes(), bytes());
    let (n, m) = (len_upto(40), len_upto(40));
    let len: usize = any();
    assume(n == m && n == len); // every caller passes equally long slices and their length
    let mut eq = true;
    let mut i = 0;
    while i < 40 {
        if i < n && a[i] != b[i] { eq = false }
        i += 1;
    }
    reach!("equal", eq && n == 40);
    ob!("equal exactly when all bytes are", sol_assert_bytes_eq(&a[..n], &b[..m], len) == eq);
    ob!("the check says the same", check_bytes_match(&a[..n], &b[..m], len, E) == if eq { Ok(()) } else { Err(E) });
}}
//# fn sol_assert_bytes_eq, check_bytes_match (slices of different lengths)
//# bounded bytes_differ: byte strings of at most 40 bytes
harness! { #[kani::unwind(42)] bytes_differ {
    let (a, b): ([u8; 40], [u8; 40]) = (bytes(), bytes());
    let (n, m) = (len_upto(40), len_upto(40));
    assume(n != m);
    let len: usize = any();
    ob!("byte strings of different length never match", !sol_assert_bytes_eq(&a[..n], &b[..m], len));
}}
