//! I02: rights of inner instructions.
//# cbmc --max-field-sensitivity-array-size 128
use crate::acct::Acct;
use crate::i01::{accounts, eq, infos};
use crate::nd::{self, *};
use pinocchio::account_info::AccountInfo;
use pinocchio::instruction::Account;
use swig_compact_instructions::*;

/// pinocchio's `Account` (repr(C), private fields): what a call is given.
#[repr(C)]
#[derive(Clone, Copy)]
struct Passed { key: *const [u8; 32], lamports: *const u64, data_len: u64, data: *const u8, owner: *const [u8; 32], rent_epoch: u64, signer: bool, writable: bool, executable: bool }
fn passed(a: &Account) -> Passed { unsafe { core::ptr::read(a as *const Account as *const Passed) } }
fn is_of(p: &Passed, a: &AccountInfo) -> bool {
    p.key as usize == a.key() as *const _ as usize && p.signer == a.is_signer() && p.writable == a.is_writable() && p.data_len as usize == a.data_len()
}
//# fn AccountProxy for &AccountInfo, AccountLookup for &[AccountInfo]
harness! { #[kani::unwind(34)] account_facts {
    let mut a = accounts::<2>();
    let i = infos(&mut a);
    let all: &[AccountInfo] = &i;
    ob!("how many", all.size() == 2);
    let k: usize = any();
    match all.get_account(k) {
        Ok(x) => {
            ob!("only those there are", k < 2 && core::ptr::eq(x, &all[k]));
            ob!("its flags", AccountProxy::signer(&x) == (a[k].signer != 0) && x.writable() == (a[k].writable != 0));
            ob!("its key", core::ptr::eq(AccountProxy::pubkey(&x), &a[k].key));
            ob!("itself", is_of(&passed(&x.into_account()), x));
        },
        Err(_) => ob!("all of them", k >= 2),
    }
}}
//# fn RestrictedKeys for &[&Pubkey]
//# bounded restricted: lists of 0 to 2 keys
harness! { #[kani::unwind(34)] restricted {
    // (no array of arrays: CBMC 6.11 compares the wrong bytes of its elements)
    let (k, m, x): ([u8; 32], [u8; 32], [u8; 32]) = (bytes(), bytes(), bytes());
    let l = [&k, &m];
    let r: &[&[u8; 32]] = &l;
    ob!("none listed", !(&l[..0]).is_restricted(&x));
    ob!("one listed", (&l[1..]).is_restricted(&x) == eq(&m, &x));
    ob!("two listed", r.is_restricted(&x) == (eq(&k, &x) || eq(&m, &x)));
}}
fn account(one: &[u8; 32], two: &[u8; 32]) -> Acct<0> {
    let mut a = Acct::new(if any() { *one } else { *two }, [0; 32], []);
    a.signer = any::<bool>() as u8;
    a.writable = any::<bool>() as u8;
    a
}
fn rights(restricted: usize) {
    // keys that may coincide
    let (one, two, own): ([u8; 32], [u8; 32], [u8; 32]) = (bytes(), bytes(), bytes());
    let mut a = account(&one, &two);
    let mut b = account(&one, &two);
    let i = [a.info(), b.info()];
    let signer: [u8; 32] = if any() { one } else { bytes() };
    let l = [&two, &own];
    let no: &[&[u8; 32]] = &l[..restricted];
    let (p, x, y): (u8, u8, u8) = (any(), any(), any());
    assume(p < 2 && x < 2 && y < 2);
    let payload = [1, p, 2, x, y, 1, 0, 7];
    let mut it = match InstructionIterator::new(&i, &payload, &signer, no) { Ok(it) => it, Err(_) => { ob!("readable", false); return } };
    let h = match it.next() { Some(Ok(h)) => h, _ => { ob!("decoded", false); return } };
    let mut uses = false;
    let mut k = 0;
    while k < 2 {
        let n = [x, y][k];
        let o = if n == 0 { &a } else { &b };
        let m = &h.accounts[k];
        let own = eq(&o.key, &signer);
        let mut free = true;
        let mut j = 0;
        while j < restricted { if eq(no[j], &o.key) { free = false } j += 1 }
        ob!("a signer when it is the wallet's or signed the transaction, and is not restricted", m.is_signer == ((own || o.signer != 0) && free));
        ob!("writable as in the transaction", m.is_writable == (o.writable != 0));
        ob!("the account named", core::ptr::eq(m.pubkey, &o.key));
        ob!("the account passed on", is_of(&passed(&h.cpi_accounts[k]), &i[n as usize]));
        if own && m.is_signer { uses = true }
        k += 1;
    }
    ob!("reports the use of the wallet's signature", h.uses_swig_signer == uses);
}
//# fn InstructionIterator::parse_next_instruction
//# bounded rights_free: 2 outer accounts, an instruction of 2 accounts, no restricted key
//# bounded rights_restricted: 2 outer accounts, an instruction of 2 accounts, 1 restricted key
//# bounded rights_two: 2 outer accounts, an instruction of 2 accounts, 2 restricted keys
harness! { #[kani::unwind(34)] rights_free { rights(0) } }
harness! { #[kani::unwind(34)] rights_restricted { rights(1) } }
harness! { #[kani::unwind(34)] rights_two { rights(2) } }
