//! A04: Secp256k1 authentication.
use crate::a01::list;
use crate::a08::compressed;
use crate::acct::Acct;
use crate::nd::{self, *};
use crate::sys::{self, KECCAK, RECOVER, SHA256};
use pinocchio::account_info::AccountInfo;
use libsecp256k1::{curve::Scalar, Error, Signature};
use swig_state::authority::{secp256k1::*, AuthorityInfo};

/// The order of secp256k1, and half of it, big endian.
const N: [u8; 32] = [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41];
const HALF: [u8; 32] = [0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x5d, 0x57, 0x6e, 0x73, 0x57, 0xa4, 0x50, 0x1d, 0xdf, 0xe9, 0x2f, 0x46, 0x68, 0x1b, 0x20, 0xa0];
fn less(a: &[u8], b: &[u8; 32], or_equal: bool) -> bool {
    let mut r = or_equal;
    let mut i = 32;
    while i > 0 {
        i -= 1;
        if a[i] < b[i] { r = true }
        if a[i] > b[i] { r = false }
    }
    r
}
/// A signature in range and in low-S form (the library counts half the order
/// itself as high).
pub fn low_s(sig: &[u8]) -> bool {
    less(&sig[..32], &N, false) && less(&sig[32..64], &HALF, false)
}
pub fn account() -> Acct<0> {
    let mut a: Acct<0> = Acct::new(bytes(), bytes(), []);
    a.signer = any();
    a.writable = any();
    assume(a.signer <= 1 && a.writable <= 1);
    a
}
/// The bytes a signer commits to: the request's data, every account with its
/// writable and signer flags, the signing slot and the counter.
pub fn committed(data: &[u8], accounts: &[Acct<0>], slot: &[u8], counter: &[u8], out: &mut [u8; 256]) -> usize {
    let mut n = 0;
    let mut put = |b: &[u8]| {
        let mut i = 0;
        while i < b.len() {
            out[n] = b[i];
            n += 1;
            i += 1;
        }
    };
    put(data);
    let mut i = 0;
    while i < accounts.len() {
        put(&accounts[i].key);
        put(&[accounts[i].writable, accounts[i].signer, 0, 0, 0, 0, 0, 0]);
        i += 1;
    }
    put(slot);
    put(counter);
    n
}
pub fn agree(a: &[u8], b: &[u8], n: usize) -> bool {
    let mut eq = true;
    let mut i = 0;
    while i < n {
        if a[i] != b[i] { eq = false }
        i += 1;
    }
    eq
}
fn hex(d: u8) -> u8 {
    if d < 10 { b'0' + d } else { b'a' + d - 10 }
}
/// The contract of `Signature::parse_standard_slice` and `Scalar::is_high`
/// (discharged on their real code by `signature_contract`), in place of their
/// bodies: each scalar only carries whether it lies in the upper half.
fn parse_contract(p: &[u8]) -> Result<Signature, Error> {
    if p.len() != 64 || !less(&p[..32], &N, false) || !less(&p[32..64], &N, false) {
        return Err(Error::InvalidSignature);
    }
    let mark = |b: &[u8]| Scalar([!less(b, &HALF, false) as u32, 0, 0, 0, 0, 0, 0, 0]);
    Ok(Signature { r: mark(&p[..32]), s: mark(&p[32..64]) })
}
fn high_contract(s: &Scalar) -> bool {
    s.0[0] == 1
}
//# fn libsecp256k1::Signature::parse_standard_slice, libsecp256k1::curve::Scalar::is_high
harness! { #[kani::unwind(66)] signature_contract {
    let b: [u8; 66] = bytes();
    let len = [64, 63, 65, 0][any::<u8>() as usize & 3];
    let p = &b[..len];
    let (got, want) = (Signature::parse_standard_slice(p), parse_contract(p));
    reach!("parsed", got.is_ok());
    ob!("a signature parses exactly when both halves are in range", got.is_ok() == want.is_ok());
    if let (Ok(g), Ok(w)) = (got, want) {
        ob!("s is high exactly in the upper half", g.s.is_high() == high_contract(&w.s));
        ob!("r is high exactly in the upper half", g.r.is_high() == high_contract(&w.r));
    }
}}
macro_rules! authenticates {
    ($name:ident, $t:ty, $n:literal, $accounts:literal, $data:literal, $len:literal) => {
        harness! { #[kani::unwind(165)] #[kani::stub(libsecp256k1::Signature::parse_standard_slice, parse_contract)] #[kani::stub(libsecp256k1::curve::Scalar::is_high, high_contract)] $name {
            sys::start();
            let before: [u8; $n] = bytes();
            let mut auth: $t = unsafe { core::mem::transmute(before) };
            let odometer = u32::from_le_bytes(before[36..40].try_into().unwrap());
            let accts: [Acct<0>; $accounts + 1] = core::array::from_fn(|_| account());
            let mut copies = accts;
            let infos: [AccountInfo; $accounts + 1] = core::array::from_fn(|i| copies[i].info());
            let payload: [u8; $len] = bytes();
            let data: [u8; $data] = bytes();
            let now: u64 = any();
            let r = auth.authenticate(&infos[..$accounts], &payload, &data, now);
            let after: [u8; $n] = unsafe { core::mem::transmute(auth) };
            {
                let p = &payload;
                let slot = u64::from_le_bytes(p[..8].try_into().unwrap());
                let counter = u32::from_le_bytes(p[8..12].try_into().unwrap());
                let sig = &p[12..76];
                reach!("accepted", r.is_ok());
                reach!("refused", r.is_err());
                ob!("accepted only with the counter that follows the stored one", r.is_err() || counter == odometer.wrapping_add(1));
                ob!("accepted only with a slot that is not in the future and at most 60 slots old", r.is_err() || slot <= now && now - slot <= 60);
                ob!("accepted only in low-S form", r.is_err() || low_s(sig));
                let want = counter == odometer.wrapping_add(1) && slot <= now && now - slot <= 60 && low_s(sig);
                unsafe {
                    if r.is_ok() {
                        let mut m = [0u8; 256];
                        let n = committed(&data, &accts[..$accounts], &p[..8], &p[8..12], &mut m);
                        ob!("the request hash covers the data, every account and its flags, the slot and the counter",
                            SHA256.calls == 1 && SHA256.len == n && agree(&SHA256.input, &m, n));
                        let mut k = [0u8; 256];
                        let mut i = 0;
                        while i < $len - 77 { k[i] = p[77 + i]; i += 1; }
                        let mut j = 0;
                        while j < 32 {
                            k[i + 2 * j] = hex(SHA256.out[j] >> 4);
                            k[i + 2 * j + 1] = hex(SHA256.out[j] & 15);
                            j += 1;
                        }
                        ob!("the signed hash is taken over the prefix and the request hash",
                            KECCAK.calls == 1 && KECCAK.len == $len - 77 + 64 && agree(&KECCAK.input, &k, $len - 77 + 64));
                        ob!("the key is recovered from that hash and the payload's signature",
                            RECOVER.calls == 1 && agree(&RECOVER.hash, &KECCAK.out, 32) && agree(&RECOVER.sig, sig, 64)
                            && RECOVER.id == if p[76] == 27 { 0 } else { 1 });
                        ob!("the recovered key is the stored key", agree(&compressed(&RECOVER.out), &before, 33));
                    }
                    let ran = RECOVER.calls == 1 && !RECOVER.failed;
                    ob!("a fresh signature of the stored key is accepted", !want || SHA256.failed || KECCAK.failed || RECOVER.failed
                        || r.is_ok() == (ran && agree(&compressed(&RECOVER.out), &before, 33)));
                }
                if r.is_ok() {
                    ob!("the stored counter becomes the payload's", agree(&after[36..40], &p[8..12], 4));
                    ob!("nothing else in the record changes", agree(&after, &before, 36) && agree(&after[40..], &before[40..], $n - 40));
                }
            }
            ob!("a refusal changes nothing in the record", r.is_ok() || agree(&after, &before, $n));
        }}
    };
}
macro_rules! short {
    ($name:ident, $t:ty, $n:literal) => {
        harness! { #[kani::unwind(90)] $name {
            sys::start();
            let before: [u8; $n] = bytes();
            let mut auth: $t = unsafe { core::mem::transmute(before) };
            let mut a = account();
            let infos = [a.info()];
            let payload: [u8; 76] = bytes();
            let r = auth.authenticate(&infos, &payload[..len_upto(76)], &[], any());
            let after: [u8; $n] = unsafe { core::mem::transmute(auth) };
            ob!("a payload too short for slot, counter and signature is refused", r.is_err());
            ob!("and the record is unchanged", agree(&after, &before, $n));
        }}
    };
}
//# fn Secp256k1Authority::authenticate, secp_authority_authenticate, secp256k1_authenticate, AccountsPayload::from, hex_encode, compress
//# bounded plain: two accounts, three bytes of request data, a prefix of three bytes
authenticates!(plain, Secp256k1Authority, 40, 2, 3, 80);
//# bounded plain_empty: no accounts, no request data, no prefix
authenticates!(plain_empty, Secp256k1Authority, 40, 0, 0, 77);
short!(plain_short, Secp256k1Authority, 40);
//# fn Secp256k1SessionAuthority::authenticate, secp_session_authority_authenticate
//# bounded session: one account, three bytes of request data, a prefix of two bytes
authenticates!(session, Secp256k1SessionAuthority, 88, 1, 3, 79);
short!(session_short, Secp256k1SessionAuthority, 88);
//# fn validate_account_count
harness! { #[kani::unwind(90)] many_accounts {
    sys::start();
    let before: [u8; 40] = bytes();
    let mut auth: Secp256k1Authority = unsafe { core::mem::transmute(before) };
    let mut a = account();
    let p: *mut Acct<0> = &mut a;
    let infos: [AccountInfo; 65] = unsafe { core::mem::transmute([p; 65]) };
    let payload: [u8; 77] = bytes();
    let r = auth.authenticate(&infos, &payload, &[], any());
    let after: [u8; 40] = unsafe { core::mem::transmute(auth) };
    ob!("more than 64 accounts are refused", r.is_err());
    ob!("and the record is unchanged", agree(&after, &before, 40));
}}
//# fn validate_account_count
harness! { count {
    let n: usize = any();
    ob!("exactly up to 64 accounts are allowed", validate_account_count(n).is_ok() == (n <= 64));
}}
