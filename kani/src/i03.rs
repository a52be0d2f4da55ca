//! I03: malformed payloads.
//# cbmc --max-field-sensitivity-array-size 128
use crate::i01::{accounts, infos};
use crate::nd::{self, *};
use pinocchio::instruction::Signer;
use swig_compact_instructions::*;

/// Decodes a payload and says what the first n instructions must be.
fn decode(p: &[u8]) {
    let outer = 2;
    let mut a = accounts::<2>();
    let i = infos(&mut a);
    let signer: [u8; 32] = bytes();
    let mut it = match InstructionIterator::new(&i, p, &signer, &[]) { Ok(it) => it, Err(_) => { ob!("refused only when empty", p.is_empty()); return } };
    ob!("an empty payload is refused", !p.is_empty());
    let mut left = p[0] as usize;
    let mut c = 1;
    while left > 0 && c + 4 <= p.len() + 3 {
        left -= 1;
        // what lies at c
        let n = if c + 2 <= p.len() { p[c + 1] as usize } else { 0 };
        let d = c + 4 + n;
        let len = if d <= p.len() { p[d - 2] as usize | (p[d - 1] as usize) << 8 } else { 0 };
        let mut whole = c + 2 <= p.len() && n <= MAX_ACCOUNTS && d <= p.len() && d + len <= p.len() && (p[c] as usize) < outer;
        let mut k = 0;
        while whole && k < n { if p[c + 2 + k] as usize >= outer { whole = false } k += 1 }
        match it.next() {
            Some(Ok(h)) => {
                ob!("only a complete instruction over the accounts is decoded", whole);
                if !whole { return }
                ob!("its data lie in the payload", core::ptr::eq(h.data.as_ptr(), p[d..].as_ptr()) && h.data.len() == len);
                ob!("its accounts are those named", h.accounts.len() == n);
                ob!("its program is the account named", core::ptr::eq(h.program_id, i[p[c] as usize].key()));
            },
            Some(Err(_)) => { ob!("refused only when it is not complete", !whole); return },
            None => { ob!("each declared instruction is decoded or refused", false); return },
        }
        c = d + len;
    }
    if left == 0 { ob!("and nothing beyond them", it.next().is_none()) }
}
macro_rules! payloads { ($($name:ident: $len:literal, $n:literal, $accounts:literal;)*) => { $(
harness! { #[kani::unwind(34)] $name {
    let mut p: [u8; $len] = bytes();
    if $len > 0 { p[0] = $n }
    if $len > 2 { p[2] = $accounts }
    decode(&p)
} }
)* } }
//# fn InstructionIterator::{new, next, parse_next_instruction, read_u8, read_u16, read_slice}
//# bounded empty: the empty payload
//# bounded nothing: no instruction declared, 3 bytes
//# bounded bytes1: one instruction declared, 1 byte
//# bounded bytes2: one instruction declared, 2 bytes
//# bounded bytes4: one instruction of no account declared, 4 bytes
//# bounded bytes6: one instruction of no account declared, 6 bytes
//# bounded cut5: one instruction of 2 accounts declared, 5 bytes
//# bounded cut6: one instruction of 2 accounts declared, 6 bytes
//# bounded bytes8: one instruction of 2 accounts declared, 8 bytes
//# bounded many: one instruction of 255 accounts declared, 8 bytes
payloads! {
    empty: 0, 0, 0;
    nothing: 3, 0, 0;
    bytes1: 1, 1, 0;
    bytes2: 2, 1, 0;
    bytes4: 4, 1, 0;
    bytes6: 6, 1, 0;
    cut5: 5, 1, 2;
    cut6: 6, 1, 2;
    bytes8: 8, 1, 2;
    many: 8, 1, 255;
}
native! { any_payload {
    let n = any::<u16>() as usize % 600;
    let mut p: Vec<u8> = Vec::new();
    // pieces that are likely to be instructions
    p.push(any::<u8>() % 4);
    while p.len() < n {
        let a = [0u8, 1, 2, 253, 254, 255][any::<u8>() as usize % 6];
        let d = any::<u8>() % 4;
        p.push(any::<u8>() % 3);
        p.push(a);
        let bad = any::<u8>();
        for k in 0..a { p.push(if k == bad { 2 } else { k % 2 }) }
        p.push(d); p.push(if any::<u8>() == 7 { 255 } else { 0 });
        for k in 0..d { p.push(k) }
    }
    let cut = p.len() - (any::<u8>() as usize % 4).min(p.len());
    decode(&p[..cut])
} }
/// A system transfer, as decoded, over n accounts.
fn transfer(n: usize, len: usize) {
    let mut a = accounts::<3>();
    a[0].owner = if any() { [0; 32] } else { [9; 32] };
    a[2].key = [0; 32];
    a[0].lamports = 1000;
    a[1].lamports = 50;
    let (signer, old) = (a[0].key, [a[0].lamports, a[1].lamports]);
    let paid: u64 = any();
    assume(paid <= 1000);
    let system = a[0].owner[0] == 0;
    let i = infos(&mut a);
    let mut p = vec![1, 2, n as u8];
    for k in 0..n { p.push(k as u8) }
    p.push(len as u8); p.push(0);
    let mut data = [2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    data[4..].copy_from_slice(&paid.to_le_bytes());
    p.extend_from_slice(&data[..len]);
    let mut it = match InstructionIterator::new(&i, &p, &signer, &[]) { Ok(it) => it, Err(_) => { ob!("readable", false); return } };
    let h = match it.next() { Some(Ok(h)) => h, _ => { ob!("decoded", false); return } };
    let none: [Signer; 0] = [];
    let r = h.execute(&i, &signer, &none);
    let moved = n >= 2 && len >= 12 && !system;
    ob!("only a transfer that lacks its accounts fails", r.is_ok() || (n < 2 && len >= 12));
    ob!("moves the amount it names, from the wallet, and nothing else",
        a[0].lamports == old[0] - if moved { paid } else { 0 } && a[1].lamports == old[1] + if moved { paid } else { 0 } && a[2].lamports == 0);
}
//# fn InstructionHolder::execute (without a real call: on the host calls do nothing)
//# bounded transfer_none: a system transfer of 12 bytes without accounts
//# bounded transfer_one: a system transfer of 12 bytes with one account
//# bounded transfer_two: a system transfer of 12 bytes with two accounts
//# bounded transfer_short: a system transfer of 11 bytes
harness! { #[kani::unwind(34)] transfer_none { transfer(0, 12) } }
harness! { #[kani::unwind(34)] transfer_one { transfer(1, 12) } }
harness! { #[kani::unwind(34)] transfer_two { transfer(2, 12) } }
harness! { #[kani::unwind(34)] transfer_short { transfer(2, 11) } }
