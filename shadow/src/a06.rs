//! A06: the evidence left by the Secp256r1 precompile.
use crate::nd::{self, *};
use swig_state::authority::secp256r1::*;

/// The longest message a caller can expect: authenticator data (< 196 bytes)
/// followed by a 32-byte hash.
const MSG: usize = 228;
const DATA: usize = 113 + MSG + 3;
/// What evidence for exactly `key` and `msg` looks like: one signature, whose
/// key, message and signature lie in this same instruction, the key at 16 and
/// the message at 113 in full length.
fn evidence(d: &[u8; DATA], n: usize, key: &[u8; 33], msg: &[u8; MSG], m: usize) -> bool {
    let u = |i: usize| d[i] as usize | (d[i + 1] as usize) << 8;
    if n < 113 + m || n < 16 || d[0] != 1 || u(4) != 0xffff || u(8) != 0xffff || u(14) != 0xffff || u(6) != 16 || u(10) != 113 || u(12) != m {
        return false;
    }
    let mut eq = true;
    let mut i = 0;
    while i < 33 {
        if d[16 + i] != key[i] { eq = false }
        i += 1;
    }
    i = 0;
    while i < MSG {
        if i < m && d[113 + i] != msg[i] { eq = false }
        i += 1;
    }
    eq
}
//# fn verify_secp256r1_instruction_data, Secp256r1SignatureOffsets::from_bytes
//# bounded evidence_check: instruction data of at most 344 bytes and expected messages of at most 228 bytes (callers pass at most 227)
harness! { #[kani::unwind(230)] evidence_check {
    let (d, key, msg): ([u8; DATA], [u8; 33], [u8; MSG]) = (bytes(), bytes(), bytes());
    let (n, m) = (len_upto(DATA), len_upto(MSG));
    let r = verify_secp256r1_instruction_data(&d[..n], &key, &msg[..m]);
    let want = evidence(&d, n, &key, &msg, m);
    reach!("accepted", r.is_ok() && m == 227);
    reach!("refused for the message alone", r.is_err() && n == 113 + m && d[0] == 1);
    ob!("accepted only as evidence for exactly the expected key and message", r.is_err() || want);
    ob!("genuine evidence for a message of at least a hash's length is accepted", m < 32 || r.is_ok() == want);
}}
