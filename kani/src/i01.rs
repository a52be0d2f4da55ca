//! I01: encoding and decoding instruction payloads.
//# cbmc --max-field-sensitivity-array-size 128
use crate::acct::Acct;
use crate::nd::{self, *};
use pinocchio::account_info::AccountInfo;
use swig_compact_instructions::*;

pub fn accounts<const N: usize>() -> [Acct<0>; N] {
    let mut v = [Acct::new([0; 32], [0; 32], []); N];
    let mut k = 0;
    while k < N {
        v[k].key = bytes();
        v[k].owner = bytes();
        v[k].signer = any::<bool>() as u8;
        v[k].writable = any::<bool>() as u8;
        k += 1
    }
    v
}
pub fn infos<const N: usize>(v: &mut [Acct<0>; N]) -> [AccountInfo; N] {
    let p = v.as_mut_ptr();
    core::array::from_fn(|k| unsafe { (*p.add(k)).info() })
}
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    let mut e = a.len() == b.len();
    let mut i = 0;
    while e && i < a.len() { if a[i] != b[i] { e = false } i += 1 }
    e
}
fn one(program: u8, accounts: Vec<u8>, data: Vec<u8>) -> CompactInstruction { CompactInstruction { program_id_index: program, accounts, data } }
//# fn CompactInstructions::into_bytes
//# bounded encode_one: one instruction of one account and two data bytes
//# bounded encode_none: an empty list
harness! { #[kani::unwind(34)] encode_one {
    let b: [u8; 4] = bytes();
    let l = CompactInstructions { inner_instructions: vec![one(b[0], vec![b[1]], vec![b[2], b[3]])] };
    let e = l.into_bytes();
    ob!("exactly these bytes", eq(&e, &[1, b[0], 1, b[1], 2, 0, b[2], b[3]]));
}}
harness! { #[kani::unwind(34)] encode_none {
    ob!("no instruction", eq(&CompactInstructions { inner_instructions: Vec::new() }.into_bytes(), &[0]));
}}
fn decoded(h: &InstructionHolder, i: &[AccountInfo], p: u8, x: &[u8], d: &[u8]) -> bool {
    let mut same = core::ptr::eq(h.program_id, i[p as usize].key()) && h.accounts.len() == x.len() && h.indexes.len() == x.len() && h.cpi_accounts.len() == x.len();
    let mut k = 0;
    while same && k < x.len() {
        if h.indexes[k] != x[k] as usize || !core::ptr::eq(h.accounts[k].pubkey, i[x[k] as usize].key()) { same = false }
        k += 1
    }
    let inner = h.borrow();
    same && eq(h.data, d) && core::ptr::eq(inner.program_id, h.program_id) && core::ptr::eq(inner.data, h.data) && core::ptr::eq(inner.accounts, h.accounts.as_slice())
}
//# fn InstructionIterator::{new, next}, InstructionHolder::borrow
//# bounded decode: the payload of two instructions, of 1 and no accounts and 1 and no data bytes, fixed indices, over 2 outer accounts
harness! { #[kani::unwind(34)] decode {
    let b: [u8; 4] = bytes();
    let p = [2, 1, 1, 0, 1, 0, b[2], 0, 0, 0, 0];
    let mut a = accounts::<2>();
    let i = infos(&mut a);
    let signer: [u8; 32] = bytes();
    let mut it = match InstructionIterator::new(&i, &p, &signer, &[]) { Ok(it) => it, Err(_) => { ob!("readable", false); return } };
    if let Some(Ok(h)) = it.next() { ob!("first", decoded(&h, &i, 1, &[0], &b[2..3])) } else { ob!("first", false) }
    if let Some(Ok(h)) = it.next() { ob!("second", decoded(&h, &i, 0, &[], &[])) } else { ob!("second", false) }
    ob!("and nothing beyond them", it.next().is_none());
}}
/// A payload of any size, built and read back (natively only).
fn any_list() {
    let n = [0usize, 1, 2, 3, 255][any::<u8>() as usize % 5];
    let mut a = accounts::<2>();
    let i = infos(&mut a);
    let mut list = CompactInstructions { inner_instructions: Vec::new() };
    for _ in 0..n {
        let m = [0, 1, 2, 3, 127, 128, 200, 254][any::<u8>() as usize % 8];
        let d = if n > 3 { any::<u8>() as usize % 4 } else { [0, 1, 255, 256, 257, 1000, 0x7fff, 0x8000, 0xffff][any::<u8>() as usize % 9] };
        let (p, q): (u8, u8) = (any(), any());
        list.inner_instructions.push(CompactInstruction { program_id_index: p % 2, accounts: (0..m).map(|k| ((k as u8 ^ q) >> 3) % 2).collect(), data: (0..d).map(|k| (k as u8).wrapping_mul(q)).collect() });
    }
    let b = list.into_bytes();
    let signer: [u8; 32] = bytes();
    let mut it = match InstructionIterator::new(&i, &b, &signer, &[]) { Ok(it) => it, Err(_) => { ob!("readable", false); return } };
    for x in &list.inner_instructions {
        match it.next() {
            Some(Ok(h)) => {
                ob!("the same program", core::ptr::eq(h.program_id, i[x.program_id_index as usize].key()));
                ob!("the same accounts in the same order", h.accounts.len() == x.accounts.len() && h.indexes == x.accounts.iter().map(|k| *k as usize).collect::<Vec<_>>()
                    && h.accounts.iter().zip(&x.accounts).all(|(m, k)| core::ptr::eq(m.pubkey, i[*k as usize].key())));
                ob!("the same data", h.data == &x.data[..]);
            },
            _ => { ob!("decoded", false); return },
        }
    }
    ob!("and nothing beyond them", it.next().is_none());
}
native! { any_payload { any_list() } }
