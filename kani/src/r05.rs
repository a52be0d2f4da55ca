//! R05: permission lists.  Lists of any length are Verus's (verus/r05.unit);
//! here the compiled functions on lists of at most three entries.
//# cbmc --max-field-sensitivity-array-size 256
use crate::l08::{good, permission};
use crate::nd::{self, *};
use swig_state::action::{Action, ActionLoader};
use swig_state::authority::AuthorityType;
use swig_state::swig::{Swig, SwigBuilder};

pub fn le16(b: &[u8], i: usize) -> usize { b[i] as usize | (b[i + 1] as usize) << 8 }
/// The number of entries if the list consists of good entries that cover it.
pub fn entries(b: &[u8], most: usize) -> Option<usize> {
    let mut c = 0;
    let mut n = 0;
    while n < most {
        if c == b.len() { break }
        if c + 8 > b.len() { return None }
        let (code, len) = (le16(b, c), le16(b, c + 2));
        if c + 8 + len > b.len() || !good(code as u16, &b[c + 8..c + 8 + len]) { return None }
        c += 8 + len;
        n += 1;
    }
    if c == b.len() { Some(n) } else { None }
}
fn key(b: &[u8], c: usize, len: usize) -> Option<(usize, usize)> {
    match le16(b, c) {
        22 => Some((22, 0)),
        k if 23 <= k && k <= 26 && len >= 4 => Some((k, le16(b, c + 8) | le16(b, c + 10) << 16)),
        _ => None,
    }
}
/// Stands in for the standard library's sort under Kani (Verus assumes the same of it: an ascending permutation).
pub fn sort_stub<T, F: FnMut(&T, &T) -> bool>(v: &mut [T], is_less: &mut F) {
    let n = v.len();
    if n >= 2 { if is_less(&v[1], &v[0]) { v.swap(0, 1) } }
    if n >= 3 {
        if is_less(&v[2], &v[1]) { v.swap(1, 2) }
        if is_less(&v[1], &v[0]) { v.swap(0, 1) }
    }
    assume(n <= 3);
}
fn head(b: &mut [u8], at: usize, code: u16, len: usize) {
    b[at] = code as u8; b[at + 1] = 0; b[at + 2] = len as u8; b[at + 3] = 0;
}
const KINDS: [u16; 4] = [1, 22, 23, 26];
macro_rules! duplicates { ($name:ident, $second:expr) => {
harness! { #[kani::unwind(18)] #[kani::stub(core::slice::sort::unstable::sort, sort_stub)] $name {
    let kinds: [u16; 3] = [1, 22, 26];
    let mut k = 0;
    while k < 9 {
        let mut b = Buf::<48>::any();
        head(&mut b.0, 0, kinds[k % 3], 8);
        head(&mut b.0, 16, $second, 8);
        head(&mut b.0, 32, kinds[k / 3], 8);
        let (k0, k1, k2) = (key(&b.0, 0, 8), key(&b.0, 16, 8), key(&b.0, 32, 8));
        let dup = (k0.is_some() && (k0 == k1 || k0 == k2)) || (k1.is_some() && k1 == k2);
        let r = ActionLoader::reject_duplicate_v2_scoped(&b.0);
        ob!("refused exactly when a right and number occurs twice", r.is_err() == dup);
        k += 1;
    }
}}
}}
//# fn ActionLoader::reject_duplicate_v2_scoped, v2_dedup_key
//# bounded duplicates_22: lists of three entries of kinds 1, 22, 26 around one of kind 22, with 8 bytes of data each
duplicates!(duplicates_22, 22);
//# bounded duplicates_24: lists of three entries of kinds 1, 22, 26 around one of kind 24, with 8 bytes of data each
duplicates!(duplicates_24, 24);
//# bounded duplicates_26: lists of three entries of kinds 1, 22, 26 around one of kind 26, with 8 bytes of data each
duplicates!(duplicates_26, 26);
native! { any_list {
    let mut b = Buf::<80>::any();
    let n = len_upto(80);
    let mut c = 0;
    let mut keys = vec![];
    let mut whole = true;
    while c + 8 <= n {
        let w: u8 = any();
        if w < 200 { head(&mut b.0, c, if w < 100 { 22 + w as u16 % 5 } else { w as u16 % 30 }, [0, 8, 8, 16][w as usize % 4]); }
        if w % 3 == 0 && c + 12 <= 80 { b.0[c + 8..c + 12].copy_from_slice(&[w & 1, 0, w & 4, 0]); }
        let len = le16(&b.0, c + 2) & !7;
        b.0[c + 2] = len as u8;
        if c + 8 + len > n || le16(&b.0, c) > 26 { whole = false; break }
        keys.extend(key(&b.0, c, len));
        c += 8 + len;
    }
    let mut unique = true;
    for i in 0..keys.len() { for j in 0..i { if keys[i] == keys[j] { unique = false } } }
    let r = ActionLoader::reject_duplicate_v2_scoped(&b.0[..n]);
    ob!("refused exactly if cut off, unknown or twice", r.is_ok() == (whole && unique));
}}
/// Offers the list to an empty wallet and checks what R05 says of it.
fn offer(l: &[u8]) {
    let want = entries(l, 11);
    let unique = ActionLoader::reject_duplicate_v2_scoped(l).is_ok();
    let mut account = Buf::<176>::zero();
    let r = SwigBuilder::create(&mut account.0, Swig::new([7; 32], 1, 2)).unwrap().add_role(AuthorityType::Ed25519, &[5; 32], l);
    ob!("accepted exactly if one or more good entries cover the list", r.is_ok() == (unique && matches!(want, Some(k) if k > 0)));
    if r.is_ok() { ob!("the entries are counted exactly", Some(account.0[48 + 4] as usize) == want && account.0[48 + 5] == 0) }
}
macro_rules! counted { ($name:ident, $codes:expr, $cut:expr) => {
harness! { #[kani::unwind(34)] #[kani::stub(core::slice::sort::unstable::sort, sort_stub)] $name {
    let codes: &[u16] = &$codes;
    let mut b = Buf::<80>::any();
    let mut n = 0;
    let mut i = 0;
    while i < codes.len() {
        let len = crate::l08::size(codes[i]).unwrap();
        head(&mut b.0, n, codes[i], len);
        n += 8 + len;
        i += 1;
    }
    offer(&b.0[..n]);
    offer(&b.0[..n - $cut]);
}}
}}
//# fn SwigBuilder::calculate_num_actions (through add_role)
//# bounded counted_one: a list of one 8-byte entry, whole or cut by one byte
counted!(counted_one, [1], 1);
//# bounded counted_recurring: a list of one 32-byte entry, whole or cut by one byte
counted!(counted_recurring, [2], 1);
//# bounded counted_two: a list of a marker and an 8-byte entry, whole or cut by 8 bytes
counted!(counted_two, [7, 1], 8);
//# bounded counted_other: a list of an 8-byte entry and a marker, whole or cut by 3 bytes
counted!(counted_other, [10, 15], 3);
native! { any_offer {
    let mut b = Buf::<80>::any();
    let n = len_upto(80);
    let mut c = 0;
    while c + 8 <= 80 {
        let w: u8 = any();
        let code = w as u16 % 28;
        if w < 230 { head(&mut b.0, c, code, crate::l08::size(code).unwrap_or(8)); }
        b.0[c + 2] &= !7;
        c += 8 + le16(&b.0, c + 2);
    }
    if c <= 80 { offer(&b.0[..c]) }
    offer(&b.0[..n]);
}}
native! { limit {
    // 255 entries are the most
    let n = any::<u16>() as usize % 1024;
    let mut list = vec![0u8; 0];
    for i in 0..n { list.extend_from_slice(&[7, 0, 0, 0, 0, 0, 0, 0]) }
    let mut account = vec![0u64; 2000];
    let bytes = unsafe { core::slice::from_raw_parts_mut(account.as_mut_ptr() as *mut u8, 16000) };
    let ok = SwigBuilder::create(bytes, Swig::new([7; 32], 1, 2)).unwrap().add_role(AuthorityType::Ed25519, &[3; 32], &list).is_ok();
    ob!("a list of 1 to 255 entries is accepted", ok == (n >= 1 && n <= 255));
    if ok { ob!("and counted exactly", account[6].to_le_bytes()[4] as usize == n) }
}}
