//! A03: authenticating with a session key.
use crate::a01::{account, list, same32};
use crate::nd::{self, *};
use swig_state::authority::{ed25519::*, programexec::{session::*, *}, secp256k1::*, secp256r1::*, AuthorityInfo};

macro_rules! session {
    ($name:ident, $t:ty, $n:literal, $key:literal, $exp:literal, $lens:expr) => {
        harness! { #[kani::unwind(130)] $name {
            let before: [u8; $n] = bytes();
            let mut auth: $t = unsafe { core::mem::transmute(before) };
            let key: [u8; 32] = before[$key..$key + 32].try_into().unwrap();
            let end = u64::from_le_bytes(before[$exp..$exp + 8].try_into().unwrap());
            let (mut a, mut b) = (account(), account());
            let payload: [u8; 4] = bytes();
            let len = len_upto(4);
            let at = payload[0] as usize;
            let accounts = list(&mut a, &mut b, at);
            let n = len_upto(256);
            let data: [u8; 3] = bytes();
            let slot: u64 = any();
            let r = auth.authenticate_session(&accounts[..n], &payload[..len], &data, slot);
            let after: [u8; $n] = unsafe { core::mem::transmute(auth) };
            let sized: fn(usize) -> bool = $lens;
            let want = slot <= end && at < n && same32(&a.key, &key) && a.signer == 1;
            reach!("accepted", r.is_ok() && slot == end);
            reach!("refused as expired", r.is_err() && slot > end);
            ob!("an empty payload is refused", len != 0 || r.is_err());
            ob!("succeeds only before the expiry and for a signing account with the session key", r.is_err() || want);
            ob!("a one-byte payload naming the signing session key before the expiry succeeds", len != 1 || r.is_ok() == want);
            ob!("a mis-sized payload is refused", sized(len) || r.is_err());
            ob!("the record is unchanged", after == before);
        }}
    };
}
//# fn Ed25519SessionAuthority::authenticate_session, ed25519_authenticate
session!(ed25519, Ed25519SessionAuthority, 80, 32, 72, |l| l == 1);
//# fn Secp256k1SessionAuthority::authenticate_session, ed25519_authenticate
session!(secp256k1, Secp256k1SessionAuthority, 88, 40, 80, |l| l >= 1);
//# fn Secp256r1SessionAuthority::authenticate_session, ed25519_authenticate
session!(secp256r1, Secp256r1SessionAuthority, 88, 40, 80, |l| l >= 1);
//# fn ProgramExecSessionAuthority::authenticate_session, ed25519_authenticate
session!(programexec, ProgramExecSessionAuthority, 128, 80, 120, |l| l == 1);
macro_rules! sessionless {
    ($name:ident, $t:ty, $n:literal) => {
        harness! { #[kani::unwind(90)] $name {
            let before: [u8; $n] = bytes();
            let mut auth: $t = unsafe { core::mem::transmute(before) };
            let (mut a, mut b) = (account(), account());
            let payload: [u8; 2] = bytes();
            let at = payload[0] as usize;
            let accounts = list(&mut a, &mut b, at);
            let r = auth.authenticate_session(&accounts[..len_upto(256)], &payload[..len_upto(2)], &[], any());
            let after: [u8; $n] = unsafe { core::mem::transmute(auth) };
            ob!("an authority without sessions refuses every session", r.is_err());
            ob!("and is unchanged", after == before);
        }}
    };
}
//# fn AuthorityInfo::authenticate_session (default), for ED25519Authority
sessionless!(no_ed25519, ED25519Authority, 32);
//# fn AuthorityInfo::authenticate_session (default), for Secp256k1Authority
sessionless!(no_secp256k1, Secp256k1Authority, 40);
//# fn AuthorityInfo::authenticate_session (default), for Secp256r1Authority
sessionless!(no_secp256r1, Secp256r1Authority, 40);
//# fn AuthorityInfo::authenticate_session (default), for ProgramExecAuthority
sessionless!(no_programexec, ProgramExecAuthority, 80);
