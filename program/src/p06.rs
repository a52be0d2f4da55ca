//! P06: migration to the current generation. The handler runs whole, on a
//! wallet of two roles with one permission each.
//# cbmc --max-field-sensitivity-array-size 512
//# fn program/src/actions/migrate_to_wallet_address_v1.rs migrate_to_wallet_address_v1
use crate::{acct::Acct, wallet::*, nd::{self, *}, p03::{BARE, Request, environment, signatory, signed}, sys};
use swig::actions::migrate_to_wallet_address_v1::migrate_to_wallet_address_v1;
use swig::instruction::accounts::MigrateToWalletAddressV1Accounts;
use pinocchio::account_info::AccountInfo;

fn migrate(actor: usize) {
    environment();
    let mut at = [NOWHERE; 3];
    let shape = [Shape { id: 1, auth: 1, auth_len: 32, actions: &BARE }, Shape { id: 2, auth: 1, auth_len: 32, actions: &BARE }];
    let mut w = wallet::<{ 48 + 2 * 56 }>(bytes(), &shape, &mut at);
    put(&mut w.data, at[0].actions, (any::<u8>() & 31) as usize, 2);
    put(&mut w.data, at[1].actions, (any::<u8>() & 31) as usize, 2);
    if any::<bool>() { put(&mut w.data, 41, 0, 3) }
    let before = w.data;
    let (mut authority, mut payer, mut system) = (signatory(&before, at[actor]), account::<0>(), account::<0>());
    let mut address = account::<1>();
    address.data_len = any::<bool>() as u64;
    if any::<bool>() { address.owner = [0; 32] }
    system.key = [0; 32];
    assume(address.lamports < 1 << 62);
    unsafe {
        ghost_syscalls::PDA.refuse = any();
        ghost_syscalls::PDA.out = if any::<bool>() { address.key } else { bytes() };
    }
    let infos = [w.info(), authority.info(), payer.info(), address.info(), system.info()];
    let index = any::<u8>() & 3;
    let bump = any::<u8>();
    let mut data = Request([0; 9]);
    put(&mut data.0, 0, 12, 2);
    data.0[2] = bump;
    put(&mut data.0, 4, actor + 1, 4);
    data.0[8] = index;
    let ctx = MigrateToWalletAddressV1Accounts::context(&infos).unwrap();
    let r = migrate_to_wallet_address_v1(ctx, &data.0, &infos);
    reach!("done", r.is_ok());
    reach!("refused", r.is_err());
    if r.is_ok() {
        let t = before[at[actor].actions];
        let current = before[40] != 0 && before[41] == 0 && before[42] == 0 && before[43] == 0;
        ob!("migrate.once", !current);
        ob!("migrate.authenticated", signed(&before, at[actor], &infos, index));
        ob!("migrate.permission", t == 7 || t == 8);
        ob!("migrate.address", address.owner == [0; 32] && address.data_len == 0 && address.key == unsafe { ghost_syscalls::PDA.out } && !unsafe { ghost_syscalls::PDA.refuse });
        let mut key = [0; 32];
        key.copy_from_slice(unsafe { &ghost_syscalls::PDA.seeds[19..51] });
        ob!("migrate.derivation", unsafe { ghost_syscalls::PDA.seeds_len == 52 && ghost_syscalls::PDA.seeds[51] == bump && ghost_syscalls::PDA.program == swig::ID && eq(&ghost_syscalls::PDA.seeds, 0, b"swig-wallet-address", 0, 19) } && key == w.key);
        ob!("migrate.identity", eq(&before, 0, &w.data, 0, 40));
        ob!("migrate.bump", w.data[40] == bump && get(&w.data, 41, 7) == 0);
        ob!("migrate.roles", eq(&before, 48, &w.data, 48, 112));
        ob!("migrate.size", w.data_len as usize == 160 && w.owner == swig::ID);
    }
}
//# bounded migrate_1: a wallet of two Ed25519 roles with one permission of any type each, any header, any signer index
//# bounded migrate_2: a wallet of two Ed25519 roles with one permission of any type each, any header, any signer index
handler! { #[kani::unwind(34)] migrate_1 { migrate(0) }}
handler! { #[kani::unwind(34)] migrate_2 { migrate(1) }}
