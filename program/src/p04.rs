//! P04: a signed transaction spends only what the acting role may. The handler
//! runs whole; the called programs do anything that the runtime lets them do.
//# cbmc --max-field-sensitivity-array-size 512
//# fn program/src/actions/sign_v2.rs sign_v2
use crate::{acct::Acct, wallet::*, nd::{self, *}, p03::{Request, environment, signatory, signed}, p05::{SPL_TOKEN_2022_ID, SPL_TOKEN_ID, SYSTEM_PROGRAM_ID}, sys};
use ghost_syscalls::Call;
use swig::{actions::sign_v2::sign_v2, instruction::accounts::*};
use swig_state::{AccountClassification, StakeAccountState};
use pinocchio::{account_info::AccountInfo, ProgramResult};

const PROGRAM: u16 = 3;
const PROGRAM_ALL: u16 = 13;
const PROGRAM_CURATED: u16 = 14;
const ALL: u16 = 7;
const ALL_BUT: u16 = 15;
/// What the called programs see and may change.
struct Stage { wallet: *mut Acct<0>, token: *mut Acct<165>, stake: *mut Acct<200>, scoped: *mut Acct<24>, header: *mut [u8; 48], swig_key: [u8; 32], bump: u8, calls: usize, programs: [[u8; 32]; 2], signed_well: bool, spent: u64, staked: u64, closes: bool }
static mut STAGE: Stage = Stage { wallet: core::ptr::null_mut(), token: core::ptr::null_mut(), stake: core::ptr::null_mut(), scoped: core::ptr::null_mut(), header: core::ptr::null_mut(), swig_key: [0; 32], bump: 0, calls: 0, programs: [[0; 32]; 2], signed_well: true, spent: 0, staked: 0, closes: false };

/// The call is made for the wallet address and nothing else of the wallet.
unsafe fn record(c: &Call) {
    let ix = c.instruction as *const usize;
    let program = *(*ix as *const *const [u8; 32] as *const [u8; 32]);
    if STAGE.calls < 2 { STAGE.programs[STAGE.calls] = program }
    STAGE.calls += 1;
    // one signer: the seeds of the wallet address
    let seeds = c.seeds as *const usize;
    let well = c.seeds_len == 1 && *seeds.add(1) == 3;
    if !well { STAGE.signed_well = false; return }
    let parts = *seeds as *const &[u8];
    let (a, b, d) = (*parts, *parts.add(1), *parts.add(2));
    if !(a.len() == 19 && eq(a, 0, b"swig-wallet-address", 0, 19) && b.len() == 32 && eq(b, 0, &STAGE.swig_key, 0, 32) && d.len() == 1 && d[0] == STAGE.bump) { STAGE.signed_well = false }
}
/// The wallet address gains or loses any amount, or is given away.
unsafe fn wallet_effect(c: &Call) {
    record(c);
    let w = &mut *STAGE.wallet;
    let now = any::<u64>();
    assume(now < 1 << 62);
    if now < w.lamports { STAGE.spent += w.lamports - now }
    w.lamports = now;
    if any::<bool>() { w.owner[0] = any::<u8>() }
}
fn on_call(c: &Call) { unsafe { wallet_effect(c) } }

fn stage(swig: &[u8; 32], bump: u8, address: &mut Acct<0>, effect: fn(&Call)) {
    unsafe {
        STAGE = Stage { wallet: address, token: core::ptr::null_mut(), stake: core::ptr::null_mut(), scoped: core::ptr::null_mut(), header: core::ptr::null_mut(), swig_key: *swig, bump, calls: 0, programs: [[0; 32]; 2], signed_well: true, spent: 0, staked: 0, closes: false };
        ghost_syscalls::EFFECT = Some(effect);
    }
}
/// The address account of the wallet, as it was classified.
fn address() -> Acct<0> {
    let mut a = account::<0>();
    a.owner = SYSTEM_PROGRAM_ID;
    a.writable = 1;
    assume(a.lamports < 1 << 62);
    a
}
/// `n` calls of account 4 with the wallet address and account 5.
fn calls(data: &mut [u8], n: usize, role: u32) -> usize {
    put(data, 0, 11, 2);
    put(data, 4, role as usize, 4);
    data[8] = n as u8;
    let (mut at, mut i) = (9, 0);
    while i < n {
        data[at] = 4;
        data[at + 1] = 2;
        data[at + 2] = 1;
        data[at + 3] = 5;
        put(data, at + 4, 1, 2);
        at += 7;
        i += 1;
    }
    put(data, 2, at - 8, 2);
    at
}
fn keeps(before: &[u8], after: &[u8], from: usize, to: usize) -> bool { eq(before, from, after, from, to - from) }

const ROLE: usize = 16 + 32;
/// A role that may call programs and spend, and another role.
fn roles(actions: &'static [usize]) -> [Shape; 2] {
    [Shape { id: 1, auth: 1, auth_len: 32, actions }, Shape { id: 2, auth: 1, auth_len: 32, actions: &OTHER }]
}
static OTHER: [usize; 1] = [0];
const REST: usize = 48 + ROLE + ROLE + 8;
/// The programs a role with this permission may call.
fn may_call(kind: u16, before: &[u8], at: usize, program: &[u8; 32]) -> bool {
    match kind {
        PROGRAM => eq(before, at + 8, program, 0, 32),
        PROGRAM_CURATED => swig_state::action::program_curated::ProgramCurated::is_curated_program(program),
        _ => kind == PROGRAM_ALL || kind == ALL || kind == ALL_BUT,
    }
}

static PROGRAM_8: [usize; 2] = [32, 8];
static BARE_8: [usize; 2] = [0, 8];
/// Lamports only: a role that may call programs and has a permission of eight
/// bytes, any but the unrestricted ones.
fn sol<const N: usize>(kind: u16, limit: u16) {
    environment();
    let mut at = [NOWHERE; 3];
    let n = if kind == PROGRAM || kind == PROGRAM_CURATED { 32 } else { 0 };
    let shape = roles(if n == 32 { &PROGRAM_8 } else { &BARE_8 });
    let mut w = wallet::<N>(bytes(), &shape, &mut at);
    let (program, cap) = (at[0].actions, at[0].actions + 8 + n);
    put(&mut w.data, program, kind as usize, 2);
    put(&mut w.data, cap, limit as usize, 2);
    let before = w.data;
    let mut wa = address();
    let (mut system, mut target, mut dest) = (account::<0>(), account::<0>(), account::<0>());
    if kind == PROGRAM && any::<bool>() { target.key.copy_from_slice(&before[program + 8..program + 40]) }
    if kind == PROGRAM_CURATED && any::<bool>() { target.key = [0; 32] }
    let mut signer = signatory(&before, at[0]);
    stage(&w.key, before[40], &mut wa, on_call);
    let had_lamports = wa.lamports;
    let infos = [w.info(), wa.info(), system.info(), signer.info(), target.info(), dest.info()];
    let mut data = Request([0; 9 + 14 + 1]);
    let n = calls(&mut data.0, 2, 1);
    let index = any::<u8>() & 3;
    data.0[n] = index;
    let mut classes = [
        AccountClassification::ThisSwigV2 { lamports: w.lamports }, AccountClassification::SwigWalletAddress,
        AccountClassification::None, AccountClassification::None, AccountClassification::None, AccountClassification::None,
    ];
    let ctx = SignV2Accounts::context(&infos).unwrap();
    let r = sign_v2(ctx, &infos, &data.0[..n + 1], &mut classes);
    reach!("done", r.is_ok());
    reach!("refused", r.is_err());
    if r.is_ok() {
        let s = unsafe { &STAGE };
        ob!("sol.authenticated", signed(&before, at[0], &infos, index));
        ob!("sol.every_call_made", s.calls == 2);
        ob!("sol.only_allowed_programs", may_call(kind, &before, program, &target.key) && s.programs[0] == target.key && s.programs[1] == target.key);
        ob!("sol.signs_for_the_address_only", s.signed_well);
        let (had, has) = (get(&before, cap + 8, 8) as u64, get(&w.data, cap + 8, 8) as u64);
        if kind != ALL && kind != ALL_BUT {
            ob!("sol.stays_rent_exempt", wa.lamports >= 128 * 3480);
            ob!("sol.address_stays", wa.owner == SYSTEM_PROGRAM_ID);
            if limit == 1 {
                ob!("sol.within_limit", s.spent <= had);
                ob!("sol.charged", has == had - s.spent);
            } else {
                ob!("sol.no_permission", s.spent == 0 && wa.lamports >= had_lamports && has == had);
            }
        } else {
            ob!("sol.unrestricted", has == had);
        }
        ob!("sol.rest_kept", keeps(&before, &w.data, 0, cap + 8) && keeps(&before, &w.data, cap + 16, N));
    }
}
//# bounded sol_limited: two calls to one program, a role with a program and a lamport limit, a second role
//# bounded sol_denied: two calls to one program, a role with a program and a permission that is no lamport limit, a second role
//# bounded sol_curated: two calls to one program, a role with the curated programs and a lamport limit, a second role
//# bounded sol_any: two calls to one program, a role with every program and a lamport limit, a second role
//# bounded sol_all: two calls to one program, a role with the unrestricted permission and a lamport limit, a second role
//# bounded sol_all_but: two calls to one program, a role with the permission for all but authorities and a lamport limit, a second role
handler! { #[kani::unwind(34)] sol_limited { sol::<{ REST + 48 + 8 }>(PROGRAM, 1) }}
handler! { #[kani::unwind(34)] sol_denied { sol::<{ REST + 48 + 8 }>(PROGRAM, 10) }}
handler! { #[kani::unwind(34)] sol_curated { sol::<{ REST + 48 + 8 }>(PROGRAM_CURATED, 1) }}
handler! { #[kani::unwind(34)] sol_any { sol::<{ REST + 16 + 8 }>(PROGRAM_ALL, 1) }}
handler! { #[kani::unwind(34)] sol_all { sol::<{ REST + 16 + 8 }>(ALL, 1) }}
handler! { #[kani::unwind(34)] sol_all_but { sol::<{ REST + 16 + 8 }>(ALL_BUT, 1) }}

/// The token account changes in any way, or is closed.
fn on_token_call(c: &Call) {
    unsafe {
        record(c);
        let t = &mut *STAGE.token;
        t.data = bytes();
        if any::<bool>() { t.owner[0] = any::<u8>() }
        if any::<bool>() { t.owner = SYSTEM_PROGRAM_ID }
        if any::<bool>() { t.lamports = any() }
        if STAGE.closes { t.data_len = 0 }
    }
}
static TOKEN: [usize; 3] = [32, 40, 0];
/// A role with a program, a token limit (`limit` 5) or another permission of
/// that size, and the permission to close accounts (`last` 20) or another.
fn token(limit: u16, last: u16, closes: bool, known: bool) {
    environment();
    let mut at = [NOWHERE; 3];
    const N: usize = REST + 8 + 32 + 8 + 40 + 8;
    let mut w = wallet::<{ N + 8 }>(bytes(), &roles(&TOKEN), &mut at);
    let (program, cap) = (at[0].actions, at[0].actions + 40);
    put(&mut w.data, program, PROGRAM as usize, 2);
    put(&mut w.data, cap, limit as usize, 2);
    put(&mut w.data, cap + 48, last as usize, 2);
    let mut t = account::<165>();
    t.writable = 1;
    let mut wa = address();
    wa.lamports = 1 << 40;
    if any::<bool>() { t.data[32..64].copy_from_slice(&wa.key) }
    // the mints are fixed: that they are compared whole is the limits' contract
    let mut i = 0;
    while i < 32 {
        w.data[cap + 8 + i] = 7;
        t.data[i] = if known || i < 31 { 7 } else { 8 };
        i += 1;
    }
    let before = w.data;
    let account_before = t.data;
    let (mut system, mut target, mut dest) = (account::<0>(), account::<0>(), account::<0>());
    if any::<bool>() { target.key.copy_from_slice(&before[program + 8..program + 40]) }
    let mut signer = signatory(&before, at[0]);
    stage(&w.key, before[40], &mut wa, on_token_call);
    // the byte whose value is followed: of the owner or of the data
    let i = any::<u8>() as usize;
    assume(i < 165 && !(i >= 64 && i < 72));
    let o = any::<u8>() as usize & 31;
    let of_owner = any::<bool>();
    let owner_before = t.owner[o];
    unsafe {
        STAGE.token = &mut t;
        STAGE.closes = closes;
        ghost_syscalls::WATCH = if of_owner { (&raw const t.owner as *const u8).add(o) } else { (&raw const t.data as *const u8).add(i) };
    }
    let infos = [w.info(), wa.info(), system.info(), signer.info(), target.info(), dest.info(), t.info()];
    let mut data = Request([0; 9 + 7 + 1]);
    let n = calls(&mut data.0, 1, 1);
    let index = any::<u8>() & 3;
    data.0[n] = index;
    let balance = get(&t.data, 64, 8) as u64;
    let mut classes = [
        AccountClassification::ThisSwigV2 { lamports: w.lamports }, AccountClassification::SwigWalletAddress,
        AccountClassification::None, AccountClassification::None, AccountClassification::None, AccountClassification::None,
        AccountClassification::SwigTokenAccount { balance, spent: 0 },
    ];
    let ctx = SignV2Accounts::context(&infos).unwrap();
    let r = sign_v2(ctx, &infos, &data.0[..n + 1], &mut classes);
    let closed = closes;
    reach!("done", r.is_ok());
    reach!("refused", r.is_err());
    if r.is_ok() {
        let s = unsafe { &STAGE };
        ob!("token.authenticated", signed(&before, at[0], &infos, index));
        ob!("token.only_the_program", s.calls == 1 && may_call(PROGRAM, &before, program, &s.programs[0]) && s.signed_well);
        if closed {
            ob!("token.may_close", last == 20 && t.lamports == 0 && t.owner == SYSTEM_PROGRAM_ID);
        } else if t.lamports != 0 {
            ob!("token.account_kept", t.data_len == 165 && (if of_owner { t.owner[o] == owner_before } else { t.data[i] == account_before[i] }));
            ob!("token.stays_the_wallets", eq(&t.data, 32, &wa.key, 0, 32) && t.data[108] == 1);
        }
        let left = if closed { 0 } else { get(&t.data, 64, 8) as u64 };
        let spent = if left < balance { balance - left } else { 0 };
        let (had, has) = (get(&before, cap + 40, 8) as u64, get(&w.data, cap + 40, 8) as u64);
        let known = limit == 5 && known;
        ob!("token.permitted", spent == 0 || known);
        ob!("token.within_limit", spent == 0 || spent <= had);
        ob!("token.charged", has == if spent == 0 { had } else { had - spent });
        ob!("token.rest_kept", keeps(&before, &w.data, 0, cap + 40) && keeps(&before, &w.data, cap + 48, N));
    }
}
//# bounded token_limited: one call, one token account that stays, a role with a program and a limit on its token, a second role
//# bounded token_keeping: one call, one token account that stays, a role with a program, a limit on its token and the permission to close, a second role
//# bounded token_unknown: one call, one token account that stays, a role with a program, a limit on another token and the permission to close, a second role
//# bounded token_denied: one call, one token account that stays, a role with a program, no token limit and the permission to close, a second role
//# bounded token_closing: one call, one token account that is closed, a role with a program, a limit on its token and the permission to close, a second role
//# bounded token_closing_unknown: one call, one token account that is closed, a role with a program, a limit on another token and the permission to close, a second role
handler! { #[kani::unwind(34)] token_limited { token(5, 8, false, true) }}
handler! { #[kani::unwind(34)] token_keeping { token(5, 20, false, true) }}
handler! { #[kani::unwind(34)] token_unknown { token(5, 20, false, false) }}
handler! { #[kani::unwind(34)] token_denied { token(16, 20, false, true) }}
handler! { #[kani::unwind(34)] token_closing { token(5, 20, true, true) }}
handler! { #[kani::unwind(34)] token_closing_unknown { token(5, 20, true, false) }}

/// The stake account changes in any way.
fn on_stake_call(c: &Call) {
    unsafe {
        record(c);
        let s = &mut *STAGE.stake;
        s.data = bytes();
        if any::<bool>() { s.owner[0] = any::<u8>() }
        let (now, stake) = (any::<u64>(), get(&s.data, 156, 8) as u64);
        let (lost, moved) = (s.lamports.saturating_sub(now), stake.abs_diff(STAGE.staked));
        STAGE.spent = STAGE.spent.saturating_add(if lost > moved { lost } else { moved });
        STAGE.staked = stake;
        s.lamports = now;
    }
}
/// A role with a program and a stake limit (`limit` 10), the permission for
/// every stake (12) or no stake permission.
fn stake<const N: usize>(limit: u16, n: usize) {
    environment();
    let mut at = [NOWHERE; 3];
    let mut w = wallet::<N>(bytes(), &roles(if limit == 12 { &PROGRAM_0 } else { &PROGRAM_8 }), &mut at);
    let (program, cap) = (at[0].actions, at[0].actions + 40);
    put(&mut w.data, program, PROGRAM as usize, 2);
    put(&mut w.data, cap, limit as usize, 2);
    let mut a = account::<200>();
    a.writable = 1;
    let mut wa = address();
    wa.lamports = 1 << 40;
    let before = w.data;
    let account_before = a.data;
    let (mut system, mut target, mut dest) = (account::<0>(), account::<0>(), account::<0>());
    if any::<bool>() { target.key.copy_from_slice(&before[program + 8..program + 40]) }
    let mut signer = signatory(&before, at[0]);
    stage(&w.key, before[40], &mut wa, on_stake_call);
    let i = any::<u8>() as usize;
    assume(i >= 4 && i < 124);
    let o = any::<u8>() as usize & 31;
    let of_owner = any::<bool>();
    let owner_before = a.owner[o];
    let balance = get(&a.data, 156, 8) as u64;
    unsafe {
        STAGE.stake = &mut a;
        STAGE.staked = balance;
        ghost_syscalls::WATCH = if of_owner { (&raw const a.owner as *const u8).add(o) } else { (&raw const a.data as *const u8).add(i) };
    }
    let infos = [w.info(), wa.info(), system.info(), signer.info(), target.info(), dest.info(), a.info()];
    let mut data = Request([0; 9 + 14 + 1]);
    let end = calls(&mut data.0, n, 1);
    let index = any::<u8>() & 3;
    data.0[end] = index;
    let mut classes = [
        AccountClassification::ThisSwigV2 { lamports: w.lamports }, AccountClassification::SwigWalletAddress,
        AccountClassification::None, AccountClassification::None, AccountClassification::None, AccountClassification::None,
        AccountClassification::SwigStakeAccount { state: StakeAccountState::Stake, balance, lamports: a.lamports, spent: 0 },
    ];
    let ctx = SignV2Accounts::context(&infos).unwrap();
    let r = sign_v2(ctx, &infos, &data.0[..end + 1], &mut classes);
    reach!("done", r.is_ok());
    reach!("refused", r.is_err());
    if r.is_ok() {
        let s = unsafe { &STAGE };
        ob!("stake.authenticated", signed(&before, at[0], &infos, index));
        ob!("stake.only_the_program", s.calls == n && may_call(PROGRAM, &before, program, &s.programs[0]) && s.signed_well);
        ob!("stake.account_kept", a.data_len == 200 && (if of_owner { a.owner[o] == owner_before } else { a.data[i] == account_before[i] }));
        let (had, has) = (get(&before, cap + 8, 8) as u64, get(&w.data, cap + 8, 8) as u64);
        if limit == 10 {
            ob!("stake.within_limit", s.spent <= had);
            ob!("stake.charged", has == had - s.spent);
        } else {
            ob!("stake.permitted", limit == 12 || s.spent == 0);
            ob!("stake.limit_kept", has == had);
        }
        ob!("stake.rest_kept", keeps(&before, &w.data, 0, cap + 8) && keeps(&before, &w.data, cap + 16, N));
    }
}
static PROGRAM_0: [usize; 2] = [32, 0];
//# bounded stake_limited: two calls, one stake account, a role with a program and a stake limit, a second role
//# bounded stake_denied: one call, one stake account, a role with a program and no stake permission, a second role
//# bounded stake_every: one call, one stake account, a role with a program and the permission for every stake, a second role
handler! { #[kani::unwind(34)] stake_limited { stake::<{ REST + 48 + 8 }>(10, 2) }}
handler! { #[kani::unwind(34)] stake_denied { stake::<{ REST + 48 + 8 }>(1, 1) }}
handler! { #[kani::unwind(34)] stake_every { stake::<{ REST + 48 }>(12, 1) }}

/// The scoped account changes in any way.
fn on_scoped_call(c: &Call) {
    unsafe {
        record(c);
        let s = &mut *STAGE.scoped;
        s.data = bytes();
        if any::<bool>() { s.owner[0] = any::<u8>() }
    }
}
// the permission in the middle only aligns the scope
static SCOPED: [usize; 3] = [32, 0, 144];
/// The acting role has a scope for the account. What the classification said
/// of its balance was read by another role's scope.
fn scoped() {
    environment();
    let mut at = [NOWHERE; 3];
    const N: usize = REST + 8 + 32 + 8 + 8 + 144;
    let mut w = wallet::<N>(bytes(), &roles(&SCOPED), &mut at);
    let (program, scope) = (at[0].actions, at[0].actions + 56);
    put(&mut w.data, program, PROGRAM as usize, 2);
    put(&mut w.data, scope - 16, 8, 2);
    put(&mut w.data, scope - 8, 4, 2);
    let mut a = account::<24>();
    a.writable = 1;
    // the account of the scope is fixed, and so is where its balance is
    let mut i = 0;
    while i < 32 {
        w.data[scope + 80 + i] = 7;
        a.key[i] = 7;
        i += 1;
    }
    put(&mut w.data, scope + 112, (any::<u8>() & 1) as usize, 8);
    put(&mut w.data, scope + 120, 2, 8);
    put(&mut w.data, scope + 128, 8, 8);
    put(&mut w.data, scope + 136, 16, 8);
    let mut wa = address();
    wa.lamports = 1 << 40;
    let before = w.data;
    let account_before = a.data;
    let (mut system, mut target, mut dest) = (account::<0>(), account::<0>(), account::<0>());
    if any::<bool>() { target.key.copy_from_slice(&before[program + 8..program + 40]) }
    let mut signer = signatory(&before, at[0]);
    stage(&w.key, before[40], &mut wa, on_scoped_call);
    let i = any::<u8>() as usize & 31;
    assume(i < 8 || i >= 16 && i < 24);
    let o = any::<u8>() as usize & 31;
    let of_owner = any::<bool>();
    let owner_before = a.owner[o];
    unsafe {
        STAGE.scoped = &mut a;
        ghost_syscalls::WATCH = if of_owner { (&raw const a.owner as *const u8).add(o) } else { (&raw const a.data as *const u8).add(i) };
    }
    let infos = [w.info(), wa.info(), system.info(), signer.info(), target.info(), dest.info(), a.info()];
    let mut data = Request([0; 9 + 7 + 1]);
    let end = calls(&mut data.0, 1, 1);
    let index = any::<u8>() & 3;
    data.0[end] = index;
    let mut classes = [
        AccountClassification::ThisSwigV2 { lamports: w.lamports }, AccountClassification::SwigWalletAddress,
        AccountClassification::None, AccountClassification::None, AccountClassification::None, AccountClassification::None,
        AccountClassification::ProgramScope { role_index: 0, balance: any(), spent: 0 },
    ];
    let ctx = SignV2Accounts::context(&infos).unwrap();
    let r = sign_v2(ctx, &infos, &data.0[..end + 1], &mut classes);
    reach!("done", r.is_ok());
    reach!("refused", r.is_err());
    if r.is_ok() {
        let s = unsafe { &STAGE };
        ob!("scope.authenticated", signed(&before, at[0], &infos, index));
        ob!("scope.only_the_program", s.calls == 1 && may_call(PROGRAM, &before, program, &s.programs[0]) && s.signed_well);
        ob!("scope.account_kept", a.data_len == 24 && (if of_owner { a.owner[o] == owner_before } else { a.data[i] == account_before[i] }));
        let limited = before[scope + 112] == 1;
        let (had, left) = (get(&account_before, 8, 8) as u64, get(&a.data, 8, 8) as u64);
        let spent = if limited && left < had { (had - left) as u128 } else { 0 };
        let wide = |d: &[u8], at: usize| get(d, at, 8) as u128 | (get(d, at + 8, 8) as u128) << 64;
        ob!("scope.charged", wide(&w.data, scope) == wide(&before, scope).saturating_add(spent));
        ob!("scope.within_limit", spent == 0 || wide(&w.data, scope) <= wide(&before, scope + 16));
        ob!("scope.rest_kept", keeps(&before, &w.data, 0, scope) && keeps(&before, &w.data, scope + 16, N));
    }
}
//# bounded scope_limited: one call, one scoped account of 24 bytes with its balance in the middle, a role with a program and an unlimited or limited scope, a second role
handler! { #[kani::unwind(34)] scope_limited { scoped() }}

static PROGRAM_40: [usize; 2] = [32, 40];
/// A role that may send lamports to one account. The call looks like a
/// transfer or not, and moves any amount.
fn sends(known: bool, limit: u16) {
    environment();
    let mut at = [NOWHERE; 3];
    const N: usize = REST + 8 + 32 + 8 + 40;
    let mut w = wallet::<N>(bytes(), &roles(&PROGRAM_40), &mut at);
    let (program, cap) = (at[0].actions, at[0].actions + 40);
    put(&mut w.data, program, PROGRAM as usize, 2);
    put(&mut w.data, cap, limit as usize, 2);
    let (mut system, mut target, mut dest) = (account::<0>(), account::<0>(), account::<0>());
    let mut i = 0;
    while i < 32 {
        w.data[cap + 8 + i] = 7;
        dest.key[i] = if known || i < 31 { 7 } else { 8 };
        i += 1;
    }
    let mut wa = address();
    let before = w.data;
    if any::<bool>() { target.key.copy_from_slice(&before[program + 8..program + 40]) }
    let mut signer = signatory(&before, at[0]);
    stage(&w.key, before[40], &mut wa, on_call);
    unsafe { ghost_syscalls::WATCH = w.data.as_ptr() }
    let infos = [w.info(), wa.info(), system.info(), signer.info(), target.info(), dest.info()];
    let mut data = Request([0; 9 + 7 + 11 + 1]);
    let end = calls(&mut data.0, 1, 1) + 11;
    put(&mut data.0, 2, end - 8, 2);
    put(&mut data.0, 13, 12, 2);
    let sent: [u8; 12] = bytes();
    let mut i = 0;
    while i < 12 { data.0[15 + i] = sent[i]; i += 1; }
    let index = any::<u8>() & 3;
    data.0[end] = index;
    let mut classes = [
        AccountClassification::ThisSwigV2 { lamports: w.lamports }, AccountClassification::SwigWalletAddress,
        AccountClassification::None, AccountClassification::None, AccountClassification::None, AccountClassification::None,
    ];
    let ctx = SignV2Accounts::context(&infos).unwrap();
    let r = sign_v2(ctx, &infos, &data.0[..end + 1], &mut classes);
    reach!("done", r.is_ok());
    reach!("refused", r.is_err());
    if r.is_ok() {
        let s = unsafe { &STAGE };
        ob!("sends.authenticated", signed(&before, at[0], &infos, index));
        ob!("sends.only_the_program", s.calls == 1 && may_call(PROGRAM, &before, program, &s.programs[0]) && s.signed_well);
        let transfer = target.key == SYSTEM_PROGRAM_ID && get(&sent, 0, 4) == 2 && get(&sent, 4, 8) as u64 == s.spent;
        ob!("sends.only_to_the_destination", s.spent == 0 || known && limit == 16 && transfer);
        let (had, has) = (get(&before, cap + 40, 8) as u64, get(&w.data, cap + 40, 8) as u64);
        ob!("sends.within_limit", s.spent == 0 || s.spent <= had);
        ob!("sends.charged", has == if s.spent == 0 { had } else { had - s.spent });
        ob!("sends.rest_kept", keeps(&before, &w.data, 0, cap + 40) && keeps(&before, &w.data, cap + 48, N));
    }
}
//# bounded sends_limited: one call with twelve bytes, a role with a program and a lamport limit for its destination, a second role
//# bounded sends_elsewhere: one call with twelve bytes, a role with a program and a lamport limit for another destination, a second role
//# bounded sends_denied: one call with twelve bytes, a role with a program and no lamport limit, a second role
handler! { #[kani::unwind(34)] sends_limited { sends(true, 16) }}
handler! { #[kani::unwind(34)] sends_elsewhere { sends(false, 16) }}
handler! { #[kani::unwind(34)] sends_denied { sends(true, 5) }}

/// A byte of the wallet's own record changes behind the handler's back.
fn on_record_call(c: &Call) {
    unsafe {
        record(c);
        let (at, to) = (any::<u8>() & 63, any::<u8>());
        let d = &mut *(STAGE.header);
        let mut i = 0;
        while i < 24 {
            if i == at as usize { d[i] = to }
            if i + 24 == at as usize { d[i + 24] = to }
            i += 1;
        }
    }
}
//# bounded record_kept: one call that changes a byte of the wallet's header, a role with every program and a lamport limit, a second role
handler! { #[kani::unwind(34)] record_kept {
    environment();
    let mut at = [NOWHERE; 3];
    const N: usize = REST + 16 + 8;
    let mut w = wallet::<N>(bytes(), &roles(&BARE_8), &mut at);
    put(&mut w.data, at[0].actions, PROGRAM_ALL as usize, 2);
    put(&mut w.data, at[0].actions + 8, 1, 2);
    let before = w.data;
    let mut wa = address();
    wa.lamports = 1 << 40;
    let (mut system, mut target, mut dest) = (account::<0>(), account::<0>(), account::<0>());
    let mut signer = signatory(&before, at[0]);
    stage(&w.key, before[40], &mut wa, on_record_call);
    let i = any::<u8>() as usize & 63;
    assume(i < 48);
    unsafe {
        STAGE.header = &raw mut w.data as *mut [u8; 48];
        ghost_syscalls::WATCH = (&raw const w.data as *const u8).add(i);
    }
    let infos = [w.info(), wa.info(), system.info(), signer.info(), target.info(), dest.info()];
    let mut data = Request([0; 9 + 7 + 1]);
    let n = calls(&mut data.0, 1, 1);
    let index = any::<u8>() & 3;
    data.0[n] = index;
    let mut classes = [
        AccountClassification::ThisSwigV2 { lamports: w.lamports }, AccountClassification::SwigWalletAddress,
        AccountClassification::None, AccountClassification::None, AccountClassification::None, AccountClassification::None,
    ];
    let ctx = SignV2Accounts::context(&infos).unwrap();
    let r = sign_v2(ctx, &infos, &data.0[..n + 1], &mut classes);
    reach!("done", r.is_ok());
    reach!("refused", r.is_err() && signed(&before, at[0], &infos, index));
    if r.is_ok() { ob!("record.kept", w.data[i] == before[i]) }
}}

static PROGRAM_72: [usize; 2] = [32, 72];
/// A role that may send a token to one account. The call looks like a
/// transfer or not, and changes the token account in any way.
fn pays(tag: u8, known: bool, limited: bool) {
    environment();
    let mut at = [NOWHERE; 3];
    const N: usize = REST + 8 + 32 + 8 + 72;
    let mut w = wallet::<N>(bytes(), &roles(&PROGRAM_72), &mut at);
    let (program, cap) = (at[0].actions, at[0].actions + 40);
    put(&mut w.data, program, PROGRAM as usize, 2);
    put(&mut w.data, cap, 18, 2);
    let (mut system, mut target, mut dest) = (account::<0>(), account::<0>(), account::<0>());
    let mut t = account::<165>();
    t.writable = 1;
    let mut i = 0;
    while i < 32 {
        w.data[cap + 8 + i] = 7;
        w.data[cap + 40 + i] = 9;
        t.data[i] = if limited || i < 31 { 7 } else { 8 };
        dest.key[i] = if known || i < 31 { 9 } else { 8 };
        t.key[i] = 5;
        i += 1;
    }
    let mut wa = address();
    wa.lamports = 1 << 40;
    if any::<bool>() { t.data[32..64].copy_from_slice(&wa.key) }
    let before = w.data;
    if any::<bool>() { target.key.copy_from_slice(&before[program + 8..program + 40]) }
    let mut signer = signatory(&before, at[0]);
    stage(&w.key, before[40], &mut wa, on_token_call);
    unsafe {
        STAGE.token = &mut t;
        ghost_syscalls::WATCH = t.data.as_ptr();
    }
    let balance = get(&t.data, 64, 8) as u64;
    let infos = [w.info(), wa.info(), system.info(), signer.info(), target.info(), dest.info(), t.info()];
    // account 4 is called with the token account, the destination (second in
    // a transfer, third in a checked one) and the wallet address
    let mut data = Request([0; 8 + 7 + 1 + 10 + 1]);
    put(&mut data.0, 0, 11, 2);
    put(&mut data.0, 2, 8 + 10, 2);
    put(&mut data.0, 4, 1, 4);
    data.0[8] = 1;
    data.0[9] = 4;
    data.0[10] = 3;
    data.0[11] = 6;
    data.0[12] = if tag == 12 { 1 } else { 5 };
    data.0[13] = if tag == 12 { 5 } else { 1 };
    put(&mut data.0, 14, 10, 2);
    data.0[16] = tag;
    let amount = any::<u64>();
    put(&mut data.0, 17, amount as usize, 8);
    data.0[25] = any();
    let index = any::<u8>() & 3;
    data.0[26] = index;
    let mut classes = [
        AccountClassification::ThisSwigV2 { lamports: w.lamports }, AccountClassification::SwigWalletAddress,
        AccountClassification::None, AccountClassification::None, AccountClassification::None, AccountClassification::None,
        AccountClassification::SwigTokenAccount { balance, spent: 0 },
    ];
    let ctx = SignV2Accounts::context(&infos).unwrap();
    let r = sign_v2(ctx, &infos, &data.0, &mut classes);
    reach!("done", r.is_ok());
    reach!("refused", r.is_err());
    if r.is_ok() && t.lamports != 0 {
        let s = unsafe { &STAGE };
        ob!("pays.authenticated", signed(&before, at[0], &infos, index));
        ob!("pays.only_the_program", s.calls == 1 && may_call(PROGRAM, &before, program, &s.programs[0]) && s.signed_well);
        let left = get(&t.data, 64, 8) as u64;
        let spent = if left < balance { balance - left } else { 0 };
        let transfer = (tag == 3 || tag == 12) && amount == spent && (target.key == SPL_TOKEN_ID || target.key == SPL_TOKEN_2022_ID);
        ob!("pays.only_to_the_destination", spent == 0 || known && limited && transfer);
        let (had, has) = (get(&before, cap + 72, 8) as u64, get(&w.data, cap + 72, 8) as u64);
        ob!("pays.within_limit", spent == 0 || spent <= had);
        ob!("pays.charged", has == if spent == 0 { had } else { had - spent });
        ob!("pays.rest_kept", keeps(&before, &w.data, 0, cap + 72) && keeps(&before, &w.data, cap + 80, N));
    }
}
//# bounded pays_transfer: one transfer call, a role with a program and a token limit for its destination, a second role
//# bounded pays_checked: one checked transfer call, a role with a program and a token limit for its destination, a second role
//# bounded pays_elsewhere: one transfer call, a role with a program and a token limit for another destination, a second role
//# bounded pays_other_token: one transfer call, a role with a program and a destination limit for another token, a second role
//# bounded pays_unclear: one call that is no transfer, a role with a program and a token limit for its destination, a second role
handler! { #[kani::unwind(34)] pays_transfer { pays(3, true, true) }}
handler! { #[kani::unwind(34)] pays_checked { pays(12, true, true) }}
handler! { #[kani::unwind(34)] pays_elsewhere { pays(3, false, true) }}
handler! { #[kani::unwind(34)] pays_other_token { pays(3, true, false) }}
handler! { #[kani::unwind(34)] pays_unclear { pays(7, true, true) }}
