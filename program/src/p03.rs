//! P03: who may change who controls the wallet. The handlers run whole, on
//! wallets of three roles with one permission each.
//# cbmc --max-field-sensitivity-array-size 512
//# fn program/src/actions/remove_authority_v1.rs remove_authority_v1, add_authority_v1.rs add_authority_v1, update_authority_v1.rs update_authority_v1, replace_authority_v1.rs replace_authority_v1
use crate::{acct::Acct, wallet::*, nd::{self, *}, sys};
use swig::actions::{add_authority_v1::add_authority_v1, remove_authority_v1::remove_authority_v1, replace_authority_v1::replace_authority_v1, update_authority_v1::update_authority_v1};
use swig::instruction::accounts::*;
use pinocchio::account_info::AccountInfo;

#[repr(C, align(8))]
pub struct Request<const N: usize>(pub [u8; N]);
const ROLE: usize = 56;
const SIZE: usize = 48 + 3 * ROLE;
const ALL: u8 = 7;
const MANAGE: u8 = 8;
const REPLACE: u8 = 21;
pub static BARE: [usize; 1] = [0];
static REPLACING: [usize; 1] = [8];
fn ed(id: u32) -> Shape { Shape { id, auth: 1, auth_len: 32, actions: &BARE } }
/// The permission types of the roles are arbitrary.
fn types(d: &mut [u8], at: &[At; 3]) {
    let mut i = 0;
    while i < 3 {
        put(d, at[i].actions, (any::<u8>() & 31) as usize, 2);
        i += 1;
    }
}
/// The account that the request names is the acting role's key, and signed.
pub fn signed(before: &[u8], actor: At, infos: &[AccountInfo], index: u8) -> bool {
    let mut key = [0; 32];
    key.copy_from_slice(&before[actor.authority..actor.authority + 32]);
    let (mut r, mut i) = (false, 0);
    while i < infos.len() {
        if i == index as usize && infos[i].is_signer() && *infos[i].key() == key { r = true }
        i += 1;
    }
    r
}
fn manages(before: &[u8], actor: At) -> bool {
    let t = before[actor.actions];
    t == ALL || t == MANAGE
}
/// The role that was at `from` is at `to` now: same id, authority and permissions.
pub fn kept(before: &[u8], from: At, after: &[u8], to: usize) -> bool {
    let n = from.end - from.start;
    let same = after.len() >= to + n && eq(before, from.start, after, to, 12) && eq(before, from.start + 16, after, to + 16, n - 16);
    same && get(after, to + 12, 4) == to + n - 48
}
/// The wallet's header is the same but for the number of roles and the next id.
pub fn header(before: &[u8], after: &[u8]) -> bool {
    eq(before, 0, after, 0, 34) && eq(before, 40, after, 40, 8)
}
pub fn environment() {
    sys::start();
    unsafe { ghost_syscalls::SLOT = any(); ghost_syscalls::RENT = 3480 }
}
/// The signer account, sometimes the one the acting role names.
pub fn signatory(before: &[u8], actor: At) -> Acct<0> {
    let mut a = account::<0>();
    if any::<bool>() { a.key.copy_from_slice(&before[actor.authority..actor.authority + 32]) }
    a
}

fn remove(actor: usize, target: usize) {
    environment();
    let mut at = [NOWHERE; 3];
    let shape = [ed(1), ed(2), ed(3)];
    let mut w = wallet::<SIZE>(bytes(), &shape, &mut at);
    types(&mut w.data, &at);
    let before = w.data;
    let (mut payer, mut system) = (account::<0>(), account::<0>());
    let mut signer = signatory(&before, at[actor]);
    system.key = [0; 32];
    assume(w.lamports >= 1 << 40 && w.lamports < 1 << 62 && payer.lamports < 1 << 62);
    let infos = [w.info(), payer.info(), system.info(), signer.info()];
    let index = any::<u8>() & 3;
    let mut data = Request([0; 17]);
    put(&mut data.0, 0, 2, 2);
    put(&mut data.0, 2, any::<u16>() as usize, 2);
    put(&mut data.0, 8, actor + 1, 4);
    put(&mut data.0, 12, target + 1, 4);
    data.0[16] = index;
    let ctx = RemoveAuthorityV1Accounts::context(&infos).unwrap();
    let r = remove_authority_v1(ctx, &data.0, &infos);
    reach!("done", r.is_ok());
    reach!("refused", r.is_err());
    if r.is_ok() {
        ob!("remove.authenticated", signed(&before, at[actor], &infos, index));
        ob!("remove.permission", actor == target || manages(&before, at[actor]));
        ob!("remove.header", header(&before, &w.data) && get(&w.data, 34, 2) == 2 && get(&w.data, 36, 4) == get(&before, 36, 4));
        let mut to = 48;
        let mut i = 0;
        while i < 3 {
            if i != target {
                ob!("remove.others_kept", kept(&before, at[i], &w.data, to));
                to += ROLE;
            }
            i += 1;
        }
        ob!("remove.size", w.data_len as usize == SIZE - ROLE);
        ob!("remove.only_for_payer", w.owner == swig::ID);
    }
}
//# bounded remove_1_2: a wallet of three Ed25519 roles with one permission of any type each, any signer index
//# bounded remove_2_1: a wallet of three Ed25519 roles with one permission of any type each, any signer index
//# bounded remove_3_2: a wallet of three Ed25519 roles with one permission of any type each, any signer index
//# bounded remove_1_1: a wallet of three Ed25519 roles with one permission of any type each, any signer index
handler! { #[kani::unwind(34)] remove_1_2 { remove(0, 1) }}
handler! { #[kani::unwind(34)] remove_2_1 { remove(1, 0) }}
handler! { #[kani::unwind(34)] remove_3_2 { remove(2, 1) }}
handler! { #[kani::unwind(34)] remove_1_1 { remove(0, 0) }}

/// Adds an Ed25519 role with one permission of any type.
fn add(actor: usize) {
    environment();
    let mut at = [NOWHERE; 3];
    let shape = [ed(1), ed(2)];
    let mut w = wallet::<{ 48 + 3 * ROLE }>(bytes(), &shape, &mut at);
    put(&mut w.data, at[0].actions, (any::<u8>() & 31) as usize, 2);
    put(&mut w.data, at[1].actions, (any::<u8>() & 31) as usize, 2);
    // the next id is above every id in use
    put(&mut w.data, 36, 3 + any::<u8>() as usize, 4);
    let mut i = 0;
    while i < ROLE / 2 {
        w.data[48 + 2 * ROLE + i] = 0;
        w.data[48 + 2 * ROLE + ROLE / 2 + i] = 0;
        i += 1;
    }
    let before = w.data;
    let (mut payer, mut system) = (account::<0>(), account::<0>());
    let mut signer = signatory(&before, at[actor]);
    system.key = [0; 32];
    assume(w.lamports < 1 << 62 && payer.lamports < 1 << 62);
    let infos = [w.info(), payer.info(), system.info(), signer.info()];
    let index = any::<u8>() & 3;
    let key: [u8; 32] = bytes();
    let mut data = Request([0; 24 + 32 + 8 + 1]);
    put(&mut data.0, 0, 1, 2);
    put(&mut data.0, 2, 32, 2);
    put(&mut data.0, 4, 8, 2);
    put(&mut data.0, 6, 1, 2);
    put(&mut data.0, 8, any::<u8>() as usize, 1);
    put(&mut data.0, 12, actor + 1, 4);
    let kind = any::<u8>() & 31;
    put(&mut data.0, 16 + 32, kind as usize, 2);
    put(&mut data.0, 16 + 32 + 4, any::<u32>() as usize, 4);
    let mut i = 0;
    while i < 32 { data.0[16 + i] = key[i]; i += 1; }
    data.0[16 + 32 + 8] = index;
    let ctx = AddAuthorityV1Accounts::context(&infos).unwrap();
    let r = add_authority_v1(ctx, &data.0[..16 + 32 + 8 + 1], &infos);
    reach!("done", r.is_ok());
    reach!("refused", r.is_err());
    if r.is_ok() {
        ob!("add.authenticated", signed(&before, at[actor], &infos, index));
        ob!("add.permission", manages(&before, at[actor]));
        ob!("add.header", header(&before, &w.data) && get(&w.data, 34, 2) == 3 && get(&w.data, 36, 4) == get(&before, 36, 4) + 1);
        let mut i = 0;
        while i < 2 {
            ob!("add.others_kept", kept(&before, at[i], &w.data, at[i].start));
            i += 1;
        }
        let n = at[1].end;
        ob!("add.role", get(&w.data, n, 2) == 1 && get(&w.data, n + 2, 2) == 32 && get(&w.data, n + 4, 2) == 1 && get(&w.data, n + 8, 4) == get(&before, 36, 4) && get(&w.data, n + 12, 4) == 3 * ROLE);
        let mut same = true;
        let mut i = 0;
        while i < 32 { if w.data[n + 16 + i] != key[i] { same = false } i += 1; }
        ob!("add.authority", same);
        ob!("add.action", get(&w.data, n + 48, 2) == kind as usize && get(&w.data, n + 50, 2) == 0 && get(&w.data, n + 52, 4) == 8);
        ob!("add.size", w.data_len as usize == 48 + 3 * ROLE);
    }
}
//# bounded add_1: a wallet of two Ed25519 roles with one permission of any type each, adding an Ed25519 role with one permission of any type, any signer index
//# bounded add_2: a wallet of two Ed25519 roles with one permission of any type each, adding an Ed25519 role with one permission of any type, any signer index
handler! { #[kani::unwind(34)] add_1 { add(0) }}
handler! { #[kani::unwind(34)] add_2 { add(1) }}

/// Gives a role another permission list of the same size.
fn update(actor: usize, target: usize) {
    environment();
    let mut at = [NOWHERE; 3];
    let shape = [ed(1), ed(2), ed(3)];
    let mut w = wallet::<SIZE>(bytes(), &shape, &mut at);
    types(&mut w.data, &at);
    let before = w.data;
    let (mut payer, mut system) = (account::<0>(), account::<0>());
    let mut signer = signatory(&before, at[actor]);
    system.key = [0; 32];
    assume(w.lamports < 1 << 62 && payer.lamports < 1 << 62);
    let infos = [w.info(), payer.info(), system.info(), signer.info()];
    let index = any::<u8>() & 3;
    let mut data = Request([0; 25]);
    put(&mut data.0, 0, 3, 2);
    put(&mut data.0, 2, 8, 2);
    data.0[4] = 1;
    put(&mut data.0, 8, actor + 1, 4);
    put(&mut data.0, 12, target + 1, 4);
    let kind = any::<u8>() & 31;
    put(&mut data.0, 16, kind as usize, 2);
    put(&mut data.0, 20, any::<u32>() as usize, 4);
    data.0[24] = index;
    let ctx = UpdateAuthorityV1Accounts::context(&infos).unwrap();
    let r = update_authority_v1(ctx, &data.0, &infos);
    reach!("done", r.is_ok());
    reach!("refused", r.is_err());
    if r.is_ok() {
        ob!("update.authenticated", signed(&before, at[actor], &infos, index));
        ob!("update.permission", manages(&before, at[actor]));
        ob!("update.header", header(&before, &w.data) && get(&w.data, 34, 2) == 3 && get(&w.data, 36, 4) == get(&before, 36, 4));
        let mut i = 0;
        while i < 3 {
            let mut after = w.data;
            if i == target {
                ob!("update.action", get(&after, at[i].actions, 2) == kind as usize && get(&after, at[i].actions + 2, 2) == 0 && get(&after, at[i].actions + 4, 4) == 8);
                put(&mut after, at[i].actions, get(&before, at[i].actions, 2), 2);
            }
            ob!("update.others_kept", kept(&before, at[i], &after, at[i].start));
            i += 1;
        }
        ob!("update.size", w.data_len as usize == SIZE);
    }
}
//# bounded update_1_2: a wallet of three Ed25519 roles with one permission of any type each, replacing a role's permission by one of any type, any signer index
//# bounded update_2_1: a wallet of three Ed25519 roles with one permission of any type each, replacing a role's permission by one of any type, any signer index
//# bounded update_3_3: a wallet of three Ed25519 roles with one permission of any type each, replacing a role's permission by one of any type, any signer index
handler! { #[kani::unwind(34)] update_1_2 { update(0, 1) }}
handler! { #[kani::unwind(34)] update_2_1 { update(1, 0) }}
handler! { #[kani::unwind(34)] update_3_3 { update(2, 2) }}

/// Replaces a role's Ed25519 key. The acting role may hold the dedicated
/// permission for one role.
fn replace(actor: usize, target: usize) {
    environment();
    let mut at = [NOWHERE; 3];
    let mut shape = [ed(1), ed(2)];
    shape[actor].actions = &REPLACING;
    let mut w = wallet::<{ 48 + 2 * ROLE + 8 }>(bytes(), &shape, &mut at);
    let mut i = 0;
    while i < 2 {
        put(&mut w.data, at[i].actions, (any::<u8>() & 31) as usize, 2);
        i += 1;
    }
    if any::<bool>() { put(&mut w.data, at[actor].actions + 8, target + 1, 4) }
    let before = w.data;
    let (mut payer, mut system) = (account::<0>(), account::<0>());
    let mut signer = signatory(&before, at[actor]);
    let infos = [w.info(), payer.info(), system.info(), signer.info()];
    let index = any::<u8>() & 3;
    let key: [u8; 32] = bytes();
    let mut data = Request([0; 16 + 32 + 8]);
    put(&mut data.0, 0, 16, 2);
    put(&mut data.0, 4, actor + 1, 4);
    put(&mut data.0, 8, target + 1, 4);
    put(&mut data.0, 12, 32, 2);
    let mut i = 0;
    while i < 32 { data.0[16 + i] = key[i]; i += 1; }
    data.0[16 + 32] = index;
    let ctx = ReplaceAuthorityV1Accounts::context(&infos).unwrap();
    let r = replace_authority_v1(ctx, &data.0[..16 + 32 + 1], &infos);
    reach!("done", r.is_ok());
    reach!("refused", r.is_err());
    if r.is_ok() {
        let a = at[actor].actions;
        ob!("replace.authenticated", signed(&before, at[actor], &infos, index));
        ob!("replace.permission", manages(&before, at[actor]) || before[a] == REPLACE && get(&before, a + 8, 4) == target + 1);
        ob!("replace.header", header(&before, &w.data) && get(&w.data, 34, 6) == get(&before, 34, 6));
        let mut i = 0;
        while i < 2 {
            let mut after = w.data;
            if i == target {
                let (mut same, mut k) = (true, 0);
                while k < 32 {
                    if after[at[i].authority + k] != key[k] { same = false }
                    after[at[i].authority + k] = before[at[i].authority + k];
                    k += 1;
                }
                ob!("replace.authority", same);
            }
            ob!("replace.others_kept", kept(&before, at[i], &after, at[i].start));
            i += 1;
        }
        ob!("replace.size", w.data_len as usize == 48 + 2 * ROLE + 8);
    }
}
//# bounded replace_1_2: a wallet of two Ed25519 roles with one permission of any type each, any signer index
//# bounded replace_2_1: a wallet of two Ed25519 roles with one permission of any type each, any signer index
//# bounded replace_1_1: a wallet of two Ed25519 roles with one permission of any type each, any signer index
handler! { #[kani::unwind(34)] replace_1_2 { replace(0, 1) }}
handler! { #[kani::unwind(34)] replace_2_1 { replace(1, 0) }}
handler! { #[kani::unwind(34)] replace_1_1 { replace(0, 0) }}
