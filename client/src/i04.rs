//! I04: compacting instructions (searched natively; proved by the Verus unit).
use crate::nd::{self, *};
use solana_program::{instruction::{AccountMeta, Instruction}, pubkey::Pubkey};
use swig_compact_instructions::*;

/// One of a few keys.
fn key() -> Pubkey { Pubkey::new_from_array([any::<u8>() % 6; 32]) }
fn meta() -> AccountMeta { AccountMeta { pubkey: key(), is_signer: any(), is_writable: any() } }
fn list(n: usize) -> Vec<AccountMeta> { (0..n).map(|_| meta()).collect() }
fn given() -> (Vec<AccountMeta>, Vec<Instruction>) {
    let n = [0usize, 1, 2, 3, 4, 200, 250][any::<u8>() as usize % 7];
    let first = (0..n).map(|k| if k < 5 { meta() } else { AccountMeta { pubkey: Pubkey::new_from_array([k as u8; 32]), is_signer: any(), is_writable: any() } }).collect();
    let ixs = (0..any::<u8>() as usize % 4).map(|_| Instruction { program_id: key(), accounts: list(any::<u8>() as usize % 6), data: vec![any(); any::<u8>() as usize % 4] }).collect();
    (first, ixs)
}
fn preserved(first: &[AccountMeta], ixs: &[Instruction], (all, c): &(Vec<AccountMeta>, CompactInstructions), hidden: &[Pubkey]) {
    ob!("the given accounts keep their places and flags", all.len() >= first.len() && all[..first.len()] == *first);
    ob!("none of the added accounts is the wallet's as a signer", all.get(first.len()..).unwrap_or(&[]).iter().all(|a| !a.is_signer || !hidden.contains(&a.pubkey)));
    ob!("one instruction for each", c.inner_instructions.len() == ixs.len());
    for (x, i) in c.inner_instructions.iter().zip(ixs) {
        ob!("the same data", x.data == i.data);
        if all.len() > 256 { continue }
        ob!("the same program", all.get(x.program_id_index as usize).map(|a| a.pubkey) == Some(i.program_id));
        ob!("the same accounts", x.accounts.len() == i.accounts.len() && x.accounts.iter().zip(&i.accounts).all(|(k, a)| all.get(*k as usize).map(|b| b.pubkey) == Some(a.pubkey)));
    }
}
native! { compact {
    let (first, ixs) = given();
    let swig = key();
    preserved(&first, &ixs, &compact_instructions(swig, first.clone(), ixs.clone()), &[swig]);
} }
native! { compact_for_sub_account {
    let (first, ixs) = given();
    let (swig, sub) = (key(), key());
    preserved(&first, &ixs, &compact_instructions_sub_account(swig, sub, first.clone(), ixs.clone()), &[swig, sub]);
} }
