//! R01: adding a role.  Wallets and lists of any size are Verus's
//! (verus/r01.unit, where the records made of the creation data are A08's);
//! here the compiled function, per authority type, on small wallets.
//# cbmc --max-field-sensitivity-array-size 512
use crate::l08;
use crate::nd::{self, *};
use crate::r02::{roles, Roles};
use crate::r05::{le16, sort_stub};
use swig_state::authority::{ed25519::*, programexec::{session::*, *}, secp256k1::*, secp256r1::*, Authority, AuthorityType};
use swig_state::swig::{Swig, SwigBuilder};
use swig_state::Transmutable;

pub fn put16(b: &mut [u8], at: usize, v: usize) { b[at] = v as u8; b[at + 1] = (v >> 8) as u8; }
/// Offers a role to a wallet of roles with `sizes` bytes each: creation data
/// of `create` bytes, permissions of kinds `codes`.
fn add<T: Authority + Transmutable>(ty: AuthorityType, len: usize, create: usize, sizes: &[usize], codes: &[u16]) {
    ob!("the record size of the type", T::LEN == len);
    let mut list = Buf::<80>::any();
    let mut n = 0;
    let mut i = 0;
    while i < codes.len() {
        let size = l08::size(codes[i]).unwrap();
        put16(&mut list.0, n, codes[i] as usize);
        put16(&mut list.0, n + 2, size);
        n += 8 + size;
        i += 1;
    }
    let list = &list.0[..n];
    let data = Buf::<136>::any();
    let mut data = data.0;
    if len == 80 || len == 128 { if create > 72 { assume(data[32] <= 41) } }
    if create == 104 { let mut i = 33; while i < 64 { data[i] = 0; i += 1 } }
    let data = &data[..create];
    let r = roles(sizes, [any(), any(), any()]);
    let end = r.len;
    let top = end + 16 + len + n;
    let mut b = r.b.0;
    let mut swig = Swig::new(bytes(), any(), any());
    swig.roles = r.n as u16;
    swig.role_counter = any();
    assume(swig.role_counter < u32::MAX);
    swig.sub_account_counter = any();
    let (counter, subs, sid, bump) = (swig.role_counter, swig.sub_account_counter, swig.id, swig.bump);
    let mut record = [0u8; 128];
    let mut i = 0;
    while i < len { record[i] = b[end + 16 + i]; i += 1 }
    let valid = T::set_into_bytes(data, &mut record[..len]).is_ok();
    // permission layouts are L08's, duplicates R05's
    let mut good = n > 0;
    let mut c = 0;
    while c < n {
        let l = le16(list, c + 2);
        if !l08::good(le16(list, c) as u16, &list[c + 8..c + 8 + l]) { good = false }
        c += 8 + l;
    }
    let got = SwigBuilder { role_buffer: &mut b[..top + 8], swig: &mut swig }.add_role(ty, data, list);
    reach!("added", got.is_ok() || create == 31);
    ob!("added exactly for valid authority data and permissions", got.is_ok() == (valid && good));
    let mut same = true;
    let mut i = 0;
    while i < top + 8 {
        if (i < end || i >= top) && b[i] != r.b.0[i] { same = false }
        i += 1;
    }
    ob!("the earlier roles and the bytes behind keep every byte", same);
    ob!("nothing else of the wallet changes", swig.sub_account_counter == subs && swig.id[31] == sid[31] && swig.bump == bump);
    if got.is_err() {
        ob!("a refusal counts nothing", swig.roles == r.n as u16 && swig.role_counter == counter);
        return;
    }
    ob!("one role and one id more", swig.roles == r.n as u16 + 1 && swig.role_counter == counter + 1);
    ob!("the type of the role", le16(&b, end) == ty as u16 as usize);
    ob!("the size of its authority", le16(&b, end + 2) == len);
    ob!("the number of its permissions", le16(&b, end + 4) == codes.len());
    ob!("its id is the next one", le16(&b, end + 8) | le16(&b, end + 10) << 16 == counter as usize);
    ob!("its end", le16(&b, end + 12) | le16(&b, end + 14) << 16 == top);
    let mut same = true;
    let mut i = 0;
    while i < len {
        if b[end + 16 + i] != record[i] { same = false }
        i += 1;
    }
    ob!("its authority is the record made of the data", same);
    let at = end + 16 + len;
    let mut same = true;
    let mut c = 0;
    let mut i = 0;
    while i < codes.len() {
        let size = l08::size(codes[i]).unwrap();
        let mut j = 0;
        while j < 8 + size {
            if (j < 4 || j >= 8) && b[at + c + j] != list[c + j] { same = false }
            j += 1;
        }
        if le16(&b, at + c + 4) | le16(&b, at + c + 6) << 16 != c + 8 + size { same = false }
        c += 8 + size;
        i += 1;
    }
    ob!("its permissions are the offered ones, with their ends", same);
}
macro_rules! adds { ($name:ident, $t:ident, $ty:ident, $len:literal, $create:literal, $sizes:expr, $codes:expr) => {
harness! { #[kani::unwind(245)] #[kani::stub(core::slice::sort::unstable::sort, sort_stub)] $name {
    add::<$t>(AuthorityType::$ty, $len, $create, &$sizes, &$codes)
}}
}}
//# fn SwigBuilder::add_role
//# bounded ed25519: behind one role, permissions All and SolLimit
adds!(ed25519, ED25519Authority, Ed25519, 32, 32, [40], [7, 1]);
//# bounded ed25519_first: the first role, permissions SolRecurringLimit and ManageAuthority
adds!(ed25519_first, ED25519Authority, Ed25519, 32, 32, [], [2, 8]);
//# bounded ed25519_short: creation data one byte short
adds!(ed25519_short, ED25519Authority, Ed25519, 32, 31, [40], [7]);
//# bounded ed25519_session: behind two roles, permission SolLimit
adds!(ed25519_session, Ed25519SessionAuthority, Ed25519Session, 80, 72, [40, 8], [1]);
//# bounded secp256k1: behind one role, permission SolDestinationLimit
adds!(secp256k1, Secp256k1Authority, Secp256k1, 40, 33, [48], [16]);
//# bounded secp256k1_session: behind one role, permission All (compressed key)
adds!(secp256k1_session, Secp256k1SessionAuthority, Secp256k1Session, 88, 104, [48], [7]);
//# bounded secp256r1: behind one role, permissions SubAccountV2Create and SubAccountV2All
adds!(secp256r1, Secp256r1Authority, Secp256r1, 40, 33, [32], [22, 23]);
//# bounded secp256r1_session: the first role, permission SolLimit
adds!(secp256r1_session, Secp256r1SessionAuthority, Secp256r1Session, 88, 80, [], [1]);
//# bounded programexec: behind one role, permission All
adds!(programexec, ProgramExecAuthority, ProgramExec, 80, 80, [40], [7]);
//# bounded programexec_session: the first role, permission ProgramAll
adds!(programexec_session, ProgramExecSessionAuthority, ProgramExecSession, 128, 128, [], [13]);
native! { any_addition {
    let mut s = [0; 3];
    for i in 0..3 { s[i] = 8 * (any::<u8>() as usize % 4) }
    let n = any::<u8>() as usize % 4;
    let all = [1u16, 2, 3, 7, 8, 10, 12, 13, 14, 15, 20, 21, 22, 23, 24, 25, 26];
    let mut codes = [0u16; 2];
    let k = 1 + any::<u8>() as usize % 2;
    for i in 0..k { codes[i] = all[any::<u8>() as usize % all.len()] }
    assume(k == 1 || codes[0] != codes[1] || codes[0] < 22);
    let codes = &codes[..k];
    match any::<u8>() % 4 {
        0 => add::<ED25519Authority>(AuthorityType::Ed25519, 32, 32, &s[..n.min(2)], codes),
        1 => add::<Secp256r1Authority>(AuthorityType::Secp256r1, 40, 33, &s[..n.min(2)], codes),
        2 => add::<Ed25519SessionAuthority>(AuthorityType::Ed25519Session, 80, 72, &s[..n.min(1)], codes),
        _ => add::<ProgramExecAuthority>(AuthorityType::ProgramExec, 80, 80, &s[..n.min(1)], codes),
    }
}}
