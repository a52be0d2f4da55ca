//! Wallet accounts of a given shape with arbitrary content.
use crate::{acct::Acct, nd::{self, *}};
/// One role: id, authority type and length, and the permissions' data lengths.
pub struct Shape { pub id: u32, pub auth: u16, pub auth_len: usize, pub actions: &'static [usize] }
/// Where the parts of role `i` lie in the account.
#[derive(Clone, Copy)]
pub struct At { pub start: usize, pub authority: usize, pub actions: usize, pub end: usize }
/// A well-formed wallet of the program with this shape; everything else of it
/// (header, authorities, permission types and data) is arbitrary.
pub fn wallet<const N: usize>(key: [u8; 32], shape: &[Shape], at: &mut [At; 3]) -> Acct<N> {
    let mut d: [u8; N] = bytes();
    d[0] = 1;
    d[34] = shape.len() as u8;
    d[35] = 0;
    let mut c = 48;
    let mut i = 0;
    while i < shape.len() {
        let s = &shape[i];
        let start = c;
        c += 16 + s.auth_len;
        let actions = c;
        let mut k = 0;
        while k < s.actions.len() {
            let end = c + 8 + s.actions[k] - actions;
            put(&mut d, c + 2, s.actions[k], 2);
            put(&mut d, c + 4, end, 4);
            c = actions + end;
            k += 1;
        }
        put(&mut d, start, s.auth as usize, 2);
        put(&mut d, start + 2, s.auth_len, 2);
        put(&mut d, start + 4, s.actions.len(), 2);
        put(&mut d, start + 6, 0, 2);
        put(&mut d, start + 8, s.id as usize, 4);
        put(&mut d, start + 12, c - 48, 4);
        at[i] = At { start, authority: start + 16, actions, end: c };
        i += 1;
    }
    let mut a = Acct::new(key, swig::ID, d);
    a.data_len = c as u64;
    a.signer = any::<bool>() as u8;
    a.writable = 1;
    a.lamports = any();
    a
}
pub const NOWHERE: At = At { start: 0, authority: 0, actions: 0, end: 0 };
pub fn put(d: &mut [u8], at: usize, v: usize, n: usize) {
    let mut i = 0;
    while i < n {
        d[at + i] = (v >> (8 * i)) as u8;
        i += 1;
    }
}
pub fn get(d: &[u8], at: usize, n: usize) -> usize {
    let (mut v, mut i) = (0, 0);
    while i < n {
        v |= (d[at + i] as usize) << (8 * i);
        i += 1;
    }
    v
}
/// `n` bytes of `a` from `i` and of `b` from `j` agree.
pub fn eq(a: &[u8], i: usize, b: &[u8], j: usize, n: usize) -> bool {
    let (mut same, mut k) = (true, 0);
    while k + 8 <= n {
        same = same && get(a, i + k, 8) == get(b, j + k, 8);
        k += 8;
    }
    while k < n {
        same = same && a[i + k] == b[j + k];
        k += 1;
    }
    same
}
/// The permission types of a role whose permissions have `lens` data bytes.
pub fn holds(d: &[u8], at: At, lens: &[usize], want: u8) -> bool {
    let (mut c, mut k, mut r) = (at.actions, 0, false);
    while k < lens.len() {
        if d[c] == want && d[c + 1] == 0 { r = true }
        c += 8 + lens[k];
        k += 1;
    }
    r
}
pub fn account<const N: usize>() -> Acct<N> {
    let mut a = Acct::new(bytes(), bytes(), bytes());
    a.signer = any::<bool>() as u8;
    a.writable = any::<bool>() as u8;
    a.lamports = any();
    a
}

/// Authentication functions of authority types no role of the wallet has: a
/// call would be reported.
#[cfg(kani)]
pub mod other {
    use pinocchio::{account_info::AccountInfo, program_error::ProgramError};
    use swig_state::authority::{secp256k1::*, secp256r1::*};
    macro_rules! other { ($($f:ident $t:ty),*) => {$(
        pub fn $f(_: &mut $t, _: &[u8], _: &[u8], _: u64, _: &[AccountInfo]) -> Result<(), ProgramError> { unreachable!() }
    )*}}
    other!(k1 Secp256k1Authority, k1s Secp256k1SessionAuthority, r1 Secp256r1Authority, r1s Secp256r1SessionAuthority);
    /// Stands in for the standard library's sort (of at most three keys here).
    pub fn sort<T, F: FnMut(&T, &T) -> bool>(v: &mut [T], less: &mut F) {
        let n = v.len();
        if n >= 2 && less(&v[1], &v[0]) { v.swap(0, 1) }
        if n >= 3 {
            if less(&v[2], &v[1]) { v.swap(1, 2) }
            if less(&v[1], &v[0]) { v.swap(0, 1) }
        }
        assert!(n <= 3);
    }
    pub fn exec(_: &[AccountInfo], _: usize, _: usize, _: usize, _: &[u8; 32], _: &[u8; 40], _: usize, _: Option<u8>) -> Result<(), ProgramError> { unreachable!() }
}
/// A harness whose wallets have Ed25519 authorities only.
#[macro_export]
macro_rules! handler { ($(#[$m:meta])* $f:ident $b:block) => {
    harness! {
        #[kani::stub(swig_state::authority::secp256k1::secp_authority_authenticate, crate::wallet::other::k1)]
        #[kani::stub(swig_state::authority::secp256k1::secp_session_authority_authenticate, crate::wallet::other::k1s)]
        #[kani::stub(swig_state::authority::secp256r1::secp256r1_authority_authenticate, crate::wallet::other::r1)]
        #[kani::stub(swig_state::authority::secp256r1::secp256r1_session_authority_authenticate, crate::wallet::other::r1s)]
        #[kani::stub(core::slice::sort::unstable::sort, crate::wallet::other::sort)]
        #[kani::stub(swig_state::authority::programexec::program_exec_authenticate, crate::wallet::other::exec)]
        $(#[$m])* $f $b
    }
}}
