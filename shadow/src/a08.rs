//! A08: creating an authority.
use crate::nd::{self, *};
use swig_state::authority::{ed25519::*, programexec::{session::*, *}, secp256k1::*, secp256r1::*, Authority};

const SWIG: [u8; 32] = [13, 12, 233, 66, 225, 231, 197, 6, 226, 24, 223, 13, 125, 241, 197, 47, 175, 220, 53, 41, 228, 141, 103, 77, 29, 178, 76, 117, 181, 76, 204, 190];
/// The compressed form of an uncompressed secp256k1 key (x, y), big endian:
/// the parity of y, then x.
pub fn compressed(k: &[u8]) -> [u8; 33] {
    let mut c = [0u8; 33];
    c[0] = 2 + (k[63] & 1);
    let mut i = 0;
    while i < 32 {
        c[1 + i] = k[i];
        i += 1;
    }
    c
}
/// One stored field: where it lies and what it must hold.
fn holds<const L: usize>(t: &[u8], at: usize, want: [u8; L]) -> bool {
    let mut eq = true;
    let mut i = 0;
    while i < L {
        if t[at + i] != want[i] { eq = false }
        i += 1;
    }
    eq
}
fn part<const L: usize>(c: &[u8], at: usize) -> [u8; L] {
    c[at..at + L].try_into().unwrap()
}
macro_rules! creates {
    ($name:ident, $t:ty, $n:literal, $cap:literal, $valid:expr, $check:expr) => {
        harness! { #[kani::unwind(132)] $name {
            let create: Buf<$cap> = Buf::any();
            let len = len_upto($cap);
            let mut target: Buf<$n> = Buf::any();
            let before = target;
            let c = &create.0[..len];
            let r = <$t>::set_into_bytes(c, &mut target.0);
            let valid: fn(&[u8]) -> bool = $valid;
            let check: fn(&[u8], &[u8]) = $check;
            let want = valid(c);
            reach!("created", r.is_ok());
            reach!("refused", r.is_err());
            ob!("created exactly from well-formed creation data", r.is_ok() == want);
            if want { check(c, &target.0) } else {
                let mut i = 0;
                while i < $n {
                    ob!("a refused creation leaves the storage unchanged", target.0[i] == before.0[i]);
                    i += 1;
                }
            }
        }}
    };
}
//# fn ED25519Authority::set_into_bytes
creates!(ed25519, ED25519Authority, 32, 40, |c| c.len() == 32, |c, t| {
    ob!("the key is stored", holds::<32>(t, 0, part(c, 0)));
});
//# fn Ed25519SessionAuthority::set_into_bytes
creates!(ed25519_session, Ed25519SessionAuthority, 80, 88, |c| c.len() == 72, |c, t| {
    ob!("the key is stored", holds::<32>(t, 0, part(c, 0)));
    ob!("the session key is stored", holds::<32>(t, 32, part(c, 32)));
    ob!("the maximum session length is stored", holds::<8>(t, 64, part(c, 64)));
    ob!("no session is running", holds::<8>(t, 72, [0; 8]));
});
//# fn Secp256k1Authority::set_into_bytes, compress
creates!(secp256k1, Secp256k1Authority, 40, 72, |c| c.len() == 33 || c.len() == 64, |c, t| {
    let want = if c.len() == 33 { part(c, 0) } else { compressed(c) };
    ob!("the compressed key is stored", holds::<33>(t, 0, want));
    ob!("the replay counter is zero", holds::<4>(t, 36, [0; 4]));
});
//# fn Secp256k1SessionAuthority::set_into_bytes, compress
creates!(secp256k1_session, Secp256k1SessionAuthority, 88, 112, |c| c.len() == 104, |c, t| {
    let short = holds::<31>(c, 33, [0; 31]);
    let want = if short { part(c, 0) } else { compressed(c) };
    ob!("the compressed key is stored", holds::<33>(t, 0, want));
    ob!("the replay counter is zero", holds::<4>(t, 36, [0; 4]));
    ob!("the session key is stored", holds::<32>(t, 40, part(c, 64)));
    ob!("the maximum session length is stored", holds::<8>(t, 72, part(c, 96)));
    ob!("no session is running", holds::<8>(t, 80, [0; 8]));
});
//# fn Secp256r1Authority::set_into_bytes
creates!(secp256r1, Secp256r1Authority, 40, 72, |c| c.len() == 33, |c, t| {
    ob!("the key is stored", holds::<33>(t, 0, part(c, 0)));
    ob!("the replay counter is zero", holds::<4>(t, 36, [0; 4]));
});
//# fn Secp256r1SessionAuthority::set_into_bytes
creates!(secp256r1_session, Secp256r1SessionAuthority, 88, 96, |c| c.len() == 80, |c, t| {
    ob!("the key is stored", holds::<33>(t, 0, part(c, 0)));
    ob!("the replay counter is zero", holds::<4>(t, 36, [0; 4]));
    ob!("the session key is stored", holds::<32>(t, 40, part(c, 40)));
    ob!("the maximum session length is stored", holds::<8>(t, 72, part(c, 72)));
    ob!("no session is running", holds::<8>(t, 80, [0; 8]));
});
fn program_ok(c: &[u8], n: usize) -> bool {
    c.len() == n && c[32] <= 40 && !holds::<32>(c, 0, SWIG)
}
fn prefix_holds(c: &[u8], t: &[u8]) -> bool {
    let mut eq = t[32] == c[32];
    let mut i = 0;
    while i < 40 {
        if i < c[32] as usize && t[40 + i] != c[40 + i] { eq = false }
        i += 1;
    }
    eq
}
//# fn ProgramExecAuthority::set_into_bytes, assert_program_exec_cant_be_swig
creates!(programexec, ProgramExecAuthority, 80, 88, |c| program_ok(c, 80), |c, t| {
    ob!("the program is stored", holds::<32>(t, 0, part(c, 0)));
    ob!("the prefix is stored", prefix_holds(c, t));
    let mut i = 0;
    while i < 40 {
        ob!("nothing else is kept behind the prefix", i < c[32] as usize || t[40 + i] == 0);
        i += 1;
    }
});
//# fn ProgramExecSessionAuthority::set_into_bytes, assert_program_exec_cant_be_swig
creates!(programexec_session, ProgramExecSessionAuthority, 128, 136, |c| program_ok(c, 128), |c, t| {
    ob!("the program is stored", holds::<32>(t, 0, part(c, 0)));
    ob!("the prefix is stored", prefix_holds(c, t));
    let mut i = 0;
    while i < 40 {
        ob!("nothing else is kept behind the prefix", i < c[32] as usize || t[40 + i] == c[40 + i]);
        i += 1;
    }
    ob!("the session key is stored", holds::<32>(t, 80, part(c, 80)));
    ob!("the maximum session length is stored", holds::<8>(t, 112, part(c, 112)));
    ob!("no session is running", holds::<8>(t, 120, [0; 8]));
});
