//! A09: recognising an authority by its identity.
use crate::a08::compressed;
use crate::nd::{self, *};
use swig_state::authority::{ed25519::*, programexec::{session::*, *}, secp256k1::*, secp256r1::*, AuthorityInfo};

fn same<const L: usize>(a: &[u8], b: &[u8]) -> bool {
    let mut eq = true;
    let mut i = 0;
    while i < L {
        if a[i] != b[i] { eq = false }
        i += 1;
    }
    eq
}
/// `$is(data, record)`: the data denotes the record's identity.
macro_rules! recognises {
    ($name:ident, $t:ty, $n:literal, $id:literal, $cap:literal, $is:expr) => {
        harness! { #[kani::unwind(132)] $name {
            let record: [u8; $n] = bytes();
            let auth: $t = unsafe { core::mem::transmute(record) };
            let data: [u8; $cap] = bytes();
            let len = len_upto($cap);
            let is: fn(&[u8], &[u8]) -> bool = $is;
            let want = is(&data[..len], &record);
            reach!("recognised", want);
            ob!("recognised exactly when it denotes the same identity", auth.match_data(&data[..len]) == want);
            let id = auth.identity();
            ob!("an identity is reported", id.is_ok());
            if let Ok(id) = id {
                ob!("the reported identity is the stored key", id.len() == $id && same::<$id>(id, &record));
                ob!("the reported identity is recognised", auth.match_data(id));
            }
        }}
    };
}
//# fn ED25519Authority::match_data, identity
recognises!(ed25519, ED25519Authority, 32, 32, 40, |d, r| d.len() == 32 && same::<32>(d, r));
//# fn Ed25519SessionAuthority::match_data, identity
recognises!(ed25519_session, Ed25519SessionAuthority, 80, 32, 40, |d, r| d.len() == 32 && same::<32>(d, r));
fn k1(d: &[u8], r: &[u8]) -> bool {
    d.len() == 33 && same::<33>(d, r) || d.len() == 64 && same::<33>(&compressed(d), r)
}
//# fn Secp256k1Authority::match_data, identity, compress
recognises!(secp256k1, Secp256k1Authority, 40, 33, 68, k1);
//# fn Secp256k1SessionAuthority::match_data, identity, compress
recognises!(secp256k1_session, Secp256k1SessionAuthority, 88, 33, 68, k1);
//# fn Secp256r1Authority::match_data, identity
recognises!(secp256r1, Secp256r1Authority, 40, 33, 68, |d, r| d.len() == 33 && same::<33>(d, r));
//# fn Secp256r1SessionAuthority::match_data, identity
recognises!(secp256r1_session, Secp256r1SessionAuthority, 88, 33, 68, |d, r| d.len() == 33 && same::<33>(d, r));
//# fn compress
harness! { #[kani::unwind(34)] compress_spec {
    let key: [u8; 64] = bytes();
    let c = compress(&key);
    ob!("compression keeps x and the parity of y", same::<33>(&c, &compressed(&key)));
}}
