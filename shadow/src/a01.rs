//! A01: plain Ed25519 authorities.
use crate::acct::Acct;
use crate::nd::{self, *};
use pinocchio::account_info::AccountInfo;
use swig_state::authority::{ed25519::*, AuthorityInfo};

/// An account list of any length up to 256 (a one-byte index cannot tell
/// longer ones apart): the account at `at` is `a`, every other one `b`.
pub fn list(a: &mut Acct<0>, b: &mut Acct<0>, at: usize) -> [AccountInfo; 256] {
    let mut l: [*mut Acct<0>; 256] = [b as *mut Acct<0>; 256];
    l[at] = a;
    // AccountInfo is repr(C) with the raw pointer as its only field
    unsafe { core::mem::transmute(l) }
}
pub fn account() -> Acct<0> {
    let mut a: Acct<0> = Acct::new(bytes(), bytes(), []);
    a.signer = any();
    assume(a.signer <= 1);
    a
}
pub fn same32(a: &[u8; 32], b: &[u8; 32]) -> bool {
    let mut eq = true;
    let mut i = 0;
    while i < 32 {
        if a[i] != b[i] { eq = false }
        i += 1;
    }
    eq
}
//# fn ED25519Authority::authenticate, ed25519_authenticate
harness! { #[kani::unwind(34)] plain {
    let mut auth = ED25519Authority { public_key: bytes() };
    let key = auth.public_key;
    let (mut a, mut b) = (account(), account());
    let n = len_upto(256);
    let payload: [u8; 4] = bytes();
    let len = len_upto(4);
    let at = payload[0] as usize;
    let accounts = list(&mut a, &mut b, at);
    let data: [u8; 3] = bytes();
    let r = auth.authenticate(&accounts[..n], &payload[..len], &data, any());
    let want = len == 1 && at < n && same32(&a.key, &key) && a.signer == 1;
    reach!("accepted", r.is_ok() && at == 255);
    reach!("refused", r.is_err());
    ob!("succeeds exactly when the one-byte payload names a signing account with the authority's key", r.is_ok() == want);
    ob!("the record is unchanged", auth.public_key == key);
}}
