//! P05: which accounts of a request are tracked as the wallet's, and with
//! which balance.
//# cbmc --max-field-sensitivity-array-size 512
//# fn program/src/lib.rs classify_account
//# fn program/src/util/mod.rs ProgramScopeCache::load_from_swig, find_program_scope, read_program_scope_account_balance
use crate::{acct::Acct, wallet::*, nd::{self, *}, sys};
use core::mem::MaybeUninit;
use pinocchio::account_info::AccountInfo;
use swig::{classify_account, util::{read_program_scope_account_balance, ProgramScopeCache}};
use swig_state::{action::program_scope::ProgramScope, AccountClassification, StakeAccountState};

/// TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA
pub const SPL_TOKEN_ID: [u8; 32] = [6, 221, 246, 225, 215, 101, 161, 147, 217, 203, 225, 70, 206, 235, 121, 172, 28, 180, 133, 237, 95, 91, 55, 145, 58, 140, 245, 133, 126, 255, 0, 169];
/// TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb
pub const SPL_TOKEN_2022_ID: [u8; 32] = [6, 221, 246, 225, 238, 117, 143, 222, 24, 66, 93, 188, 228, 108, 205, 218, 182, 26, 252, 77, 131, 185, 13, 39, 254, 189, 249, 40, 216, 161, 139, 252];
/// Stake11111111111111111111111111111111111111
pub const STAKING_ID: [u8; 32] = [6, 161, 216, 23, 145, 55, 84, 42, 152, 52, 55, 189, 254, 42, 122, 178, 85, 127, 83, 92, 138, 120, 114, 43, 104, 164, 157, 192, 0, 0, 0, 0];
pub const SYSTEM_PROGRAM_ID: [u8; 32] = [0; 32];

/// An owner: one of those the program knows, or any.
fn owner() -> [u8; 32] {
    match any::<u8>() {
        0 => swig::ID,
        1 => SPL_TOKEN_ID,
        2 => SPL_TOKEN_2022_ID,
        3 => STAKING_ID,
        4 => SYSTEM_PROGRAM_ID,
        _ => bytes(),
    }
}
fn config(owner: &[u8; 32], len: usize, first: u8) -> bool { *owner == swig::ID && len >= 48 && first == 1 }
fn same(a: &[u8; 32], d: &[u8], at: usize) -> bool { eq(a, 0, d, at, 32) }

/// Account number `index` of a request whose first account is a wallet or any
/// other account, and whose second account may be the wallet's address.
fn classify(index: usize) {
    sys::start();
    let mut first = account::<48>();
    first.owner = owner();
    first.data_len = if any::<bool>() { 48 } else { 47 };
    let mut second = account::<0>();
    let mut a = account::<200>();
    a.owner = owner();
    let len = len_upto(200);
    a.data_len = len as u64;
    if any::<bool>() { a.data[32..64].copy_from_slice(&first.key) }
    if any::<bool>() { a.data[32..64].copy_from_slice(&second.key) }
    if any::<bool>() { a.data[44..76].copy_from_slice(&first.key) }
    if any::<bool>() { a.data[44..76].copy_from_slice(&second.key) }
    let address = any::<bool>();
    let accounts = [MaybeUninit::new(first.info()), MaybeUninit::new(second.info()), MaybeUninit::uninit()];
    let classes = [
        MaybeUninit::new(AccountClassification::None),
        MaybeUninit::new(if address { AccountClassification::SwigWalletAddress } else { AccountClassification::None }),
        MaybeUninit::uninit(),
    ];
    let info = a.info();
    let r = unsafe { classify_account(index, &info, &accounts, &classes, None) };
    let wallet_first = config(&first.owner, first.data_len as usize, first.data[0]);
    let this = config(&a.owner, len, a.data[0]);
    let token = a.owner == SPL_TOKEN_ID || a.owner == SPL_TOKEN_2022_ID;
    // who may spend from a token account, or withdraw from a stake account
    let ours = |at: usize| same(&first.key, &a.data, at) || index > 1 && address && same(&second.key, &a.data, at);
    let tokens = index > 0 && token && len >= 165 && ours(32);
    let stake = index > 0 && a.owner == STAKING_ID && len >= 200 && ours(44);
    reach!("token", tokens || index == 0);
    reach!("stake", stake || index == 0);
    reach!("refused", r.is_err() || index == 0);
    match r {
        Ok(AccountClassification::ThisSwigV2 { lamports }) => {
            ob!("classify.wallet", index == 0 && this && lamports == a.lamports);
        },
        Ok(AccountClassification::SwigWalletAddress) => {
            ob!("classify.address", index == 1 && wallet_first && a.owner == SYSTEM_PROGRAM_ID);
        },
        Ok(AccountClassification::SwigTokenAccount { balance, spent }) => {
            ob!("classify.token_is_ours", tokens);
            ob!("classify.token_balance", balance == get(&a.data, 64, 8) as u64 && spent == 0);
        },
        Ok(AccountClassification::SwigStakeAccount { state, balance, lamports, spent }) => {
            ob!("classify.stake_is_ours", stake);
            ob!("classify.stake_balance", balance == get(&a.data, 156, 8) as u64 && lamports == a.lamports && spent == 0);
            ob!("classify.stake_state", state as usize == get(&a.data, 0, 4));
        },
        Ok(AccountClassification::None) => {
            ob!("classify.every_token_account", !tokens);
            ob!("classify.every_stake_account", !stake);
            ob!("classify.every_wallet", !(index == 0 && this) && !(index == 1 && wallet_first && a.owner == SYSTEM_PROGRAM_ID));
        },
        Ok(_) => ob!("classify.nothing_else", false),
        Err(_) => {
            ob!("classify.refuses_only_bad_accounts", index > 0 && this && !wallet_first || stake && get(&a.data, 0, 4) > 3);
        },
    }
}
//# bounded classify_0: an account of up to 200 bytes, as the first, second or third of a request
//# bounded classify_1: an account of up to 200 bytes, as the first, second or third of a request
//# bounded classify_2: an account of up to 200 bytes, as the first, second or third of a request
//# bounded balance: an account of up to 24 bytes
harness! { #[kani::unwind(34)] classify_0 { classify(0) }}
harness! { #[kani::unwind(34)] classify_1 { classify(1) }}
harness! { #[kani::unwind(34)] classify_2 { classify(2) }}

static SCOPE: [usize; 1] = [144];
const SCOPED: usize = 16 + 32 + 8 + 144;
/// What a balance field of a scoped account says, if it can be read.
fn field(scope: &[u8], at: usize, data: &[u8], len: usize) -> Option<u128> {
    if get(scope, at + 112, 8) == 0 { return Some(0) }
    let (start, end) = (get(scope, at + 128, 8), get(scope, at + 136, 8));
    let width = match get(scope, at + 120, 8) { 0 => 1, 1 => 4, 2 => 8, 3 => 16, _ => return None };
    if end > len || start > end || end - start != width { return None }
    let (mut v, mut i) = (0u128, 0);
    while i < 16 {
        if i < width { v |= (data[start + i] as u128) << (8 * i) }
        i += 1;
    }
    Some(v)
}
fn scope_of(d: &[u8]) -> ProgramScope {
    let mut b = [0u8; 144];
    b.copy_from_slice(d);
    unsafe { core::mem::transmute(b) }
}
harness! { #[kani::unwind(34)] balance {
    let scope: [u8; 144] = bytes();
    let data: [u8; 24] = bytes();
    let len = len_upto(24);
    let r = unsafe { read_program_scope_account_balance(&data[..len], &scope_of(&scope)) };
    let want = field(&scope, 0, &data, len);
    reach!("read", want.is_some() && scope[112] != 0);
    reach!("refused", want.is_none());
    ob!("balance.value", match (r, want) { (Ok(v), Some(w)) => v == w, (Err(_), None) => true, _ => false });
}}
/// A wallet of one or two roles with one permission each: a scope, or another
/// of the same size.
fn scoped<const N: usize>(kinds: &[bool]) {
    let roles = kinds.len();
    sys::start();
    let mut at = [NOWHERE; 3];
    let shape = [Shape { id: 0, auth: 1, auth_len: 32, actions: &SCOPE }, Shape { id: 1, auth: 1, auth_len: 32, actions: &SCOPE }];
    let mut w = wallet::<N>(bytes(), &shape[..roles], &mut at);
    put(&mut w.data, 36, roles, 4);
    let mut i = 0;
    while i < roles {
        put(&mut w.data, at[i].actions, if kinds[i] { 4 } else { 3 }, 2);
        i += 1;
    }
    let mut a = account::<24>();
    let len = len_upto(24);
    a.data_len = len as u64;
    if any::<bool>() { a.key.copy_from_slice(&w.data[at[0].actions + 88..at[0].actions + 120]) }
    assume(a.owner != swig::ID && a.owner != STAKING_ID && a.owner != SPL_TOKEN_ID && a.owner != SPL_TOKEN_2022_ID);
    let cache = ProgramScopeCache::load_from_swig(&w.data).unwrap();
    // the first role's scope for this account
    let mut found = None;
    let mut i = roles;
    while i > 0 {
        i -= 1;
        if kinds[i] && same(&a.key, &w.data, at[i].actions + 8 + 80) { found = Some(i) }
    }
    let mut second = account::<0>();
    let accounts = [MaybeUninit::new(w.info()), MaybeUninit::new(second.info()), MaybeUninit::uninit()];
    let classes = [MaybeUninit::new(AccountClassification::None), MaybeUninit::new(AccountClassification::None), MaybeUninit::uninit()];
    let info = a.info();
    let r = unsafe { classify_account(2, &info, &accounts, &classes, Some(&cache)) };
    let want = found.map(|i| (i, field(&w.data, at[i].actions + 8, &a.data, len)));
    reach!("scoped", matches!(want, Some((_, Some(_)))));
    reach!("refused", matches!(want, Some((_, None))));
    ob!("scoped.every_scope", match (r, want) {
        (Ok(AccountClassification::None), None) => true,
        (Ok(AccountClassification::ProgramScope { role_index, balance, spent }), Some((i, Some(b)))) => role_index as usize == i && balance == b && spent == 0,
        (Err(_), Some((_, None))) => true,
        _ => false,
    });
}
//# bounded scoped_1: a wallet of one Ed25519 role with one scope, an account of up to 24 bytes
//# bounded scoped_2: a wallet of two Ed25519 roles with one scope each, an account of up to 24 bytes
//# bounded scoped_last: a wallet of two Ed25519 roles, the second with one scope, an account of up to 24 bytes
handler! { #[kani::unwind(34)] scoped_1 { scoped::<{ 48 + SCOPED }>(&[true]) }}
handler! { #[kani::unwind(34)] scoped_2 { scoped::<{ 48 + 2 * SCOPED }>(&[true, true]) }}
handler! { #[kani::unwind(34)] scoped_last { scoped::<{ 48 + 2 * SCOPED }>(&[false, true]) }}
