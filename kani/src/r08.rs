//! R08: address seeds and new wallets.
//# cbmc --max-field-sensitivity-array-size 256
use crate::nd::{self, *};
use swig_state::swig::*;
use swig_state::{Discriminator, IntoBytes};

fn eq(a: &[u8], b: &[u8]) -> bool {
    let mut e = a.len() == b.len();
    let mut i = 0;
    while e && i < a.len() { if a[i] != b[i] { e = false } i += 1 }
    e
}
/// These seeds, in this order, and no other.
fn seeds<const N: usize>(got: &[&[u8]; N], want: &[&[u8]; N]) -> bool {
    let mut e = true;
    let mut i = 0;
    while i < N { if !eq(got[i], want[i]) { e = false } i += 1 }
    e
}
/// A wallet id or key (32 bytes), a number and a bump.
struct In { id: [u8; 32], n: [u8; 4], bump: [u8; 1] }
fn input() -> In { In { id: bytes(), n: bytes(), bump: bytes() } }
//# fn swig_account_seeds, swig_account_seeds_with_bump, swig_account_signer
harness! { #[kani::unwind(34)] configuration {
    let i = input();
    let l: &[u8] = b"swig";
    ob!("derivation", seeds(&swig_account_seeds(&i.id), &[l, &i.id]));
    ob!("derivation with bump", seeds(&swig_account_seeds_with_bump(&i.id, &i.bump), &[l, &i.id, &i.bump]));
    let s = swig_account_signer(&i.id, &i.bump);
    ob!("signing", seeds(&[&*s[0], &*s[1], &*s[2]], &[l, &i.id, &i.bump]));
}}
//# fn swig_wallet_address_seeds, swig_wallet_address_seeds_with_bump, swig_wallet_address_signer
harness! { #[kani::unwind(34)] wallet_address {
    let i = input();
    let l: &[u8] = b"swig-wallet-address";
    ob!("derivation", seeds(&swig_wallet_address_seeds(&i.id), &[l, &i.id]));
    ob!("derivation with bump", seeds(&swig_wallet_address_seeds_with_bump(&i.id, &i.bump), &[l, &i.id, &i.bump]));
    let s = swig_wallet_address_signer(&i.id, &i.bump);
    ob!("signing", seeds(&[&*s[0], &*s[1], &*s[2]], &[l, &i.id, &i.bump]));
}}
//# fn sub_account_seeds, sub_account_seeds_with_bump, sub_account_signer
harness! { #[kani::unwind(34)] sub_account {
    let i = input();
    let l: &[u8] = b"sub-account";
    ob!("derivation", seeds(&sub_account_seeds(&i.id, &i.n), &[l, &i.id, &i.n]));
    ob!("derivation with bump", seeds(&sub_account_seeds_with_bump(&i.id, &i.n, &i.bump), &[l, &i.id, &i.n, &i.bump]));
    let s = sub_account_signer(&i.id, &i.n, &i.bump);
    ob!("signing", seeds(&[&*s[0], &*s[1], &*s[2], &*s[3]], &[l, &i.id, &i.n, &i.bump]));
}}
//# fn sub_account_v2_state_seeds, sub_account_v2_state_seeds_with_bump, sub_account_v2_state_signer
harness! { #[kani::unwind(34)] sub_account_v2_state {
    let i = input();
    let l: &[u8] = b"sub-account-v2-state";
    ob!("derivation", seeds(&sub_account_v2_state_seeds(&i.id, &i.n), &[l, &i.id, &i.n]));
    ob!("derivation with bump", seeds(&sub_account_v2_state_seeds_with_bump(&i.id, &i.n, &i.bump), &[l, &i.id, &i.n, &i.bump]));
    let s = sub_account_v2_state_signer(&i.id, &i.n, &i.bump);
    ob!("signing", seeds(&[&*s[0], &*s[1], &*s[2], &*s[3]], &[l, &i.id, &i.n, &i.bump]));
}}
//# fn sub_account_v2_asset_seeds, sub_account_v2_asset_seeds_with_bump, sub_account_v2_asset_signer
harness! { #[kani::unwind(34)] sub_account_v2_asset {
    let i = input();
    let l: &[u8] = b"sub-account-v2";
    ob!("derivation", seeds(&sub_account_v2_asset_seeds(&i.id, &i.n), &[l, &i.id, &i.n]));
    ob!("derivation with bump", seeds(&sub_account_v2_asset_seeds_with_bump(&i.id, &i.n, &i.bump), &[l, &i.id, &i.n, &i.bump]));
    let s = sub_account_v2_asset_signer(&i.id, &i.n, &i.bump);
    ob!("signing", seeds(&[&*s[0], &*s[1], &*s[2], &*s[3]], &[l, &i.id, &i.n, &i.bump]));
}}
/// The hashed concatenation of the seeds (what an address is derived from).
fn hashed(kind: u8, i: &In, out: &mut [u8; 64]) -> usize {
    let a; let b;
    let s: &[&[u8]] = match kind {
        0 => { a = swig_account_seeds_with_bump(&i.id, &i.bump); &a },
        1 => { a = swig_wallet_address_seeds_with_bump(&i.id, &i.bump); &a },
        2 => { b = sub_account_seeds_with_bump(&i.id, &i.n, &i.bump); &b },
        3 => { b = sub_account_v2_state_seeds_with_bump(&i.id, &i.n, &i.bump); &b },
        _ => { b = sub_account_v2_asset_seeds_with_bump(&i.id, &i.n, &i.bump); &b },
    };
    let mut n = 0;
    for s in s { for x in *s { out[n] = *x; n += 1 } }
    n
}
//# fn seed kinds (all derivations with bump)
harness! { #[kani::unwind(66)] kinds_apart {
    let i = input();
    let j = input();
    let mut lens = [0; 5];
    let mut k = 0;
    while k < 5 { lens[k] = hashed(k as u8, &i, &mut [0; 64]); k += 1 }
    let mut apart = true;
    let mut k = 0;
    while k < 25 { if k / 5 != k % 5 && lens[k / 5] == lens[k % 5] { apart = false } k += 1 }
    ob!("no two kinds share a derivation, even when the seeds are joined", apart);
}}
macro_rules! apart { ($name:ident, $kind:literal, $numbered:literal) => {
harness! { #[kani::unwind(66)] $name {
    let (i, j) = (input(), input());
    let (mut a, mut b) = ([0; 64], [0; 64]);
    let (n, m) = (hashed($kind, &i, &mut a), hashed($kind, &j, &mut b));
    let same = eq(&i.id, &j.id) && (!$numbered || eq(&i.n, &j.n)) && i.bump[0] == j.bump[0];
    ob!("different wallets or numbers, different seeds", (n == m && eq(&a[..n], &b[..m])) == same);
}}
}}
//# fn seed injectivity (per kind)
apart!(apart_configuration, 0, false);
apart!(apart_wallet_address, 1, false);
apart!(apart_sub_account, 2, true);
apart!(apart_v2_state, 3, true);
apart!(apart_v2_asset, 4, true);
fn fresh(s: &Swig, id: &[u8; 32], bump: u8, wallet: u8) -> bool {
    s.discriminator == Discriminator::SwigConfigAccount as u8 && eq(&s.id, id) && s.bump == bump
        && s.wallet_bump == wallet && s.roles == 0 && s.role_counter == 0 && s.sub_account_counter == 0
}
//# fn Swig::new
harness! { #[kani::unwind(34)] new_wallet {
    let (id, bump, wallet): ([u8; 32], u8, u8) = (bytes(), any(), any());
    let s = Swig::new(id, bump, wallet);
    ob!("the given id and bumps, no roles, first id zero, no sub-accounts", fresh(&s, &id, bump, wallet));
    let b = s.into_bytes();
    ob!("encoded with zero padding", matches!(b, Ok(b) if b.len() == 48 && b[41] == 0 && b[42] == 0 && b[43] == 0));
}}
//# fn SwigBuilder::create, new_from_bytes
//# bounded new_account: an account of 64 bytes
harness! { #[kani::unwind(34)] new_account {
    let (id, bump, wallet): ([u8; 32], u8, u8) = (bytes(), any(), any());
    let s = Swig::new(id, bump, wallet);
    let mut account = Buf::<64>::any();
    let before = account;
    let made = SwigBuilder::create(&mut account.0, s);
    ob!("created", made.is_ok());
    if let Ok(m) = made { ob!("as the new wallet", fresh(m.swig, &id, bump, wallet) && m.role_buffer.len() == 16) }
    let mut same = true;
    let mut i = 48;
    while i < 64 { if account.0[i] != before.0[i] { same = false } i += 1 }
    ob!("nothing behind the header is touched", same);
    let again = SwigBuilder::new_from_bytes(&mut account.0);
    if let Ok(m) = again { ob!("and is read back", fresh(m.swig, &id, bump, wallet) && m.role_buffer.len() == 16) } else { ob!("read back", false) }
}}
