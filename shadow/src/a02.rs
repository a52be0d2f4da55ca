//! A02: starting a session.
use crate::nd::{self, *};
use swig_state::authority::{ed25519::*, programexec::{session::*, *}, secp256k1::*, secp256r1::*, AuthorityInfo};

/// The stored form of a session-capable authority: where its session key,
/// maximum duration and expiry lie.  (The codec itself is L10's.)
macro_rules! starts {
    ($name:ident, $t:ty, $n:literal, $key:literal, $max:literal, $exp:literal) => {
        harness! { #[kani::unwind(130)] $name {
            let before: [u8; $n] = bytes();
            let mut auth: $t = unsafe { core::mem::transmute(before) };
            let (key, slot, duration): ([u8; 32], u64, u64) = (bytes(), any(), any());
            let r = auth.start_session(key, slot, duration);
            let after: [u8; $n] = unsafe { core::mem::transmute(auth) };
            let max = u64::from_le_bytes(before[$max..$max + 8].try_into().unwrap());
            let end = slot as u128 + duration as u128;
            let want = duration <= max && end <= u64::MAX as u128;
            reach!("started", r.is_ok());
            reach!("refused", r.is_err());
            ob!("a session longer than the maximum is refused", r.is_err() || duration <= max);
            ob!("a session within the maximum starts", r.is_ok() == want);
            let mut i = 0;
            while i < $n {
                let k = i >= $key && i < $key + 32;
                let e = i >= $exp && i < $exp + 8;
                let w = if !want { before[i] } else if k { key[if k { i - $key } else { 0 }] }
                    else if e { (end as u64).to_le_bytes()[if e { i - $exp } else { 0 }] } else { before[i] };
                ob!("exactly the session key and the expiry change, to the key given and the slot reached", after[i] == w);
                i += 1;
            }
        }}
    };
}
//# fn Ed25519SessionAuthority::start_session
starts!(ed25519, Ed25519SessionAuthority, 80, 32, 64, 72);
//# fn Secp256k1SessionAuthority::start_session
starts!(secp256k1, Secp256k1SessionAuthority, 88, 40, 72, 80);
//# fn Secp256r1SessionAuthority::start_session
starts!(secp256r1, Secp256r1SessionAuthority, 88, 40, 72, 80);
//# fn ProgramExecSessionAuthority::start_session
starts!(programexec, ProgramExecSessionAuthority, 128, 80, 112, 120);
macro_rules! sessionless {
    ($name:ident, $t:ty, $n:literal) => {
        harness! { #[kani::unwind(90)] $name {
            let before: [u8; $n] = bytes();
            let mut auth: $t = unsafe { core::mem::transmute(before) };
            let r = auth.start_session(bytes(), any(), any());
            let after: [u8; $n] = unsafe { core::mem::transmute(auth) };
            ob!("an authority without sessions refuses to start one", r.is_err());
            ob!("and is unchanged", after == before);
        }}
    };
}
//# fn AuthorityInfo::start_session (default), for ED25519Authority
sessionless!(no_ed25519, ED25519Authority, 32);
//# fn AuthorityInfo::start_session (default), for Secp256k1Authority
sessionless!(no_secp256k1, Secp256k1Authority, 40);
//# fn AuthorityInfo::start_session (default), for Secp256r1Authority
sessionless!(no_secp256r1, Secp256r1Authority, 40);
//# fn AuthorityInfo::start_session (default), for ProgramExecAuthority
sessionless!(no_programexec, ProgramExecAuthority, 80);
