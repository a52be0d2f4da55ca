//! A05: Secp256r1 authentication.
use crate::a04::{agree, committed};
use crate::a07::{eq, sysvar, Ix, CAP};
use crate::acct::Acct;
use crate::nd::{self, *};
use crate::sys::{self, KECCAK};
use pinocchio::program_error::ProgramError;
use pinocchio::sysvars::instructions::INSTRUCTIONS_ID;
use swig_state::authority::{secp256r1::*, AuthorityInfo};

/// Secp256r1SigVerify1111111111111111111111111
const R1: [u8; 32] = [6, 146, 13, 236, 47, 234, 113, 181, 183, 35, 129, 77, 116, 45, 169, 3, 28, 131, 231, 95, 219, 121, 93, 86, 142, 117, 71, 128, 32, 0, 0, 0];
/// Evidence for exactly `key` and `msg` (A06), lying at `o` in `c`.
fn evidence(c: &[u8; CAP], o: usize, n: usize, key: &[u8], msg: &[u8]) -> bool {
    let u = |i: usize| c[o + i] as usize | (c[o + i + 1] as usize) << 8;
    n >= 113 + msg.len() && c[o] == 1 && u(4) == 0xffff && u(8) == 0xffff && u(14) == 0xffff && u(6) == 16 && u(10) == 113 && u(12) == msg.len()
        && eq(c, o + 16, key, 33) && eq(c, o + 113, msg, msg.len())
}
/// The message a passkey signs in place of the request hash (its contract is
/// A10's); here any message, or a refusal, which is recorded.
static mut PASSKEY: (u8, [u8; 32], Option<[u8; 37]>) = (0, [0; 32], None);
fn passkey<'a>(kind: u8, hash: [u8; 32], buf: &'a mut [u8]) -> Result<&'a [u8], ProgramError> {
    unsafe {
        PASSKEY = (kind, hash, None);
        if any::<bool>() { return Err(ProgramError::Custom(1)) }
        let m: [u8; 37] = bytes();
        PASSKEY.2 = Some(m);
        buf[..37].copy_from_slice(&m);
    }
    Ok(&buf[..37])
}
fn kind1<'a>(_: &[u8], hash: [u8; 32], buf: &'a mut [u8]) -> Result<&'a [u8], ProgramError> { passkey(1, hash, buf) }
fn kind2<'a>(_: &[u8], hash: [u8; 32], buf: &'a mut [u8]) -> Result<&'a [u8], ProgramError> { passkey(2, hash, buf) }

macro_rules! authenticates {
    ($name:ident, $t:ty, $n:literal, $len:literal, $data:literal, $current:literal, $index:expr, $can:literal) => {
        harness! { #[kani::unwind(165)]
            #[kani::stub(swig_state::authority::secp256r1::webauthn_message, kind1)]
            #[kani::stub(swig_state::authority::secp256r1::webauthn_raw_client_data_json_message, kind2)]
        $name {
            sys::start();
            let before: [u8; $n] = bytes();
            let odometer = u32::from_le_bytes(before[36..40].try_into().unwrap());
            let mut auth: $t = unsafe { core::mem::transmute(before) };
            let ixs = [Ix { accounts: 0, data: $data }];
            let mut at = [0usize; 1];
            let mut content: [u8; CAP] = bytes();
            let len = sysvar(&ixs, $current, &mut content, &mut at);
            let mut other: Acct<0> = crate::a04::account();
            // what lies at the sysvar's address is what the runtime wrote
            assume(!eq(&other.key, 0, &INSTRUCTIONS_ID, 32));
            let mut sv: Acct<CAP> = Acct::new(bytes(), bytes(), content);
            sv.data_len = len as u64;
            let sv_meta: Acct<0> = Acct::new(sv.key, sv.owner, []);
            let metas = [other, sv_meta];
            let infos = [other.info(), sv.info()];
            let mut payload: [u8; $len] = bytes();
            let index: u8 = $index;
            if $len > 12 { payload[12 % $len] = index; }
            let data: [u8; 3] = bytes();
            let now: u64 = any();
            let r = auth.authenticate(&infos, &payload, &data, now);
            let after: [u8; $n] = unsafe { core::mem::transmute(auth) };
            reach!("accepted, where it can be", r.is_ok() || !$can);
            ob!("a refusal changes nothing in the record", r.is_ok() || agree(&after, &before, $n));
            if $len < 17 {
                ob!("a payload too short for slot, counter and index is refused", r.is_err());
            } else {
                let slot = u64::from_le_bytes(payload[..8].try_into().unwrap());
                let counter = u32::from_le_bytes(payload[8..12].try_into().unwrap());
                ob!("accepted only with the counter that follows the stored one", r.is_err() || counter == odometer.wrapping_add(1));
                ob!("accepted only with a slot that is not in the future and at most 60 slots old", r.is_err() || slot <= now && now - slot <= 60);
                unsafe {
                    let mut m = [0u8; 256];
                    let n = committed(&data, &metas, &payload[..8], &payload[8..12], &mut m);
                    let o = at[0] + 2;
                    let mut proof = $current > 0 && index == 1 && eq(&sv.key, 0, &INSTRUCTIONS_ID, 32) && eq(&content, o, &R1, 32);
                    if $len == 17 {
                        proof = proof && evidence(&content, o + 34, $data, &before[..33], &KECCAK.out);
                    } else {
                        let kind = payload[17 % $len] as u16 | (payload[18 % $len] as u16) << 8;
                        proof = proof && $len >= 19 && (kind == 1 || kind == 2);
                        if r.is_ok() {
                            ob!("the passkey message is derived from the request hash, in the declared form", PASSKEY.0 as u16 == kind && agree(&PASSKEY.1, &KECCAK.out, 32));
                        }
                        proof = proof && match PASSKEY.2 { Some(m) => evidence(&content, o + 34, $data, &before[..33], &m), None => false };
                    }
                    if r.is_ok() {
                        ob!("the request hash covers the data, every account and its flags, the slot and the counter",
                            KECCAK.calls == 1 && KECCAK.len == n && agree(&KECCAK.input, &m, n));
                        ob!("the preceding instruction is evidence for the stored key and the signed message", proof);
                    }
                    let fresh = counter == odometer.wrapping_add(1) && slot <= now && now - slot <= 60;
                    ob!("fresh evidence for the stored key is accepted", !fresh || !proof || KECCAK.failed || r.is_ok());
                }
                if r.is_ok() {
                    ob!("the stored counter becomes the payload's", agree(&after[36..40], &payload[8..12], 4));
                    ob!("nothing else in the record changes", agree(&after, &before, 36) && agree(&after[40..], &before[40..], $n - 40));
                }
            }
        }}
    };
}
//# fn Secp256r1Authority::authenticate, secp256r1_authority_authenticate, secp256r1_authenticate, compute_message_hash
//# bounded plain: two accounts, three bytes of request data, the evidence instruction without accounts
authenticates!(plain, Secp256r1Authority, 40, 17, 145, 1, 1, true);
//# bounded other_index: as plain
authenticates!(other_index, Secp256r1Authority, 40, 17, 145, 1, { let i: u8 = any(); assume(i != 1); i }, false);
//# bounded first: as plain
authenticates!(first, Secp256r1Authority, 40, 17, 145, 0, 1, false);
//# bounded short_data: as plain
authenticates!(short_data, Secp256r1Authority, 40, 17, 10, 1, 1, false);
//# bounded passkey_message: as plain
authenticates!(passkey_message, Secp256r1Authority, 40, 19, 150, 1, 1, true);
authenticates!(half_kind, Secp256r1Authority, 40, 18, 145, 1, 1, false);
//# fn Secp256r1SessionAuthority::authenticate, secp256r1_session_authority_authenticate
//# bounded session: as plain
authenticates!(session, Secp256r1SessionAuthority, 88, 17, 145, 1, 1, true);
//# bounded session_passkey: as plain
authenticates!(session_passkey, Secp256r1SessionAuthority, 88, 19, 150, 1, 1, true);
macro_rules! short {
    ($name:ident, $t:ty, $n:literal) => {
        harness! { #[kani::unwind(90)] $name {
            sys::start();
            let before: [u8; $n] = bytes();
            let mut auth: $t = unsafe { core::mem::transmute(before) };
            let mut a = crate::a04::account();
            let infos = [a.info()];
            let payload: [u8; 16] = bytes();
            let r = auth.authenticate(&infos, &payload[..len_upto(16)], &[], any());
            let after: [u8; $n] = unsafe { core::mem::transmute(auth) };
            ob!("a payload too short for slot, counter and index is refused", r.is_err());
            ob!("and the record is unchanged", agree(&after, &before, $n));
        }}
    };
}
short!(plain_short, Secp256r1Authority, 40);
short!(session_short, Secp256r1SessionAuthority, 88);
//# fn compute_message_hash (account count)
harness! { #[kani::unwind(90)] many_accounts {
    sys::start();
    let before: [u8; 40] = bytes();
    let mut auth: Secp256r1Authority = unsafe { core::mem::transmute(before) };
    let mut a = crate::a04::account();
    let p: *mut Acct<0> = &mut a;
    let infos: [pinocchio::account_info::AccountInfo; 65] = unsafe { core::mem::transmute([p; 65]) };
    let payload: [u8; 17] = bytes();
    ob!("more than 64 accounts are refused", auth.authenticate(&infos, &payload, &[], any()).is_err());
}}
