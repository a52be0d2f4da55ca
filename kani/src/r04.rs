//! R04: where the roles end.  Accounts of any content and length are Verus's
//! (verus/r04.unit); here the compiled functions on accounts of at most 104
//! bytes that declare at most three roles, every stored end 8-aligned.
//# cbmc --max-field-sensitivity-array-size 256
use crate::nd::{self, *};
use swig_state::swig::{Swig, SwigWithRoles};

const MAX: usize = 104;
/// The stored end of the role header at offset c of the account.
fn stored_end(b: &[u8; MAX], c: usize) -> usize {
    b[c + 12] as usize | (b[c + 13] as usize) << 8 | (b[c + 14] as usize) << 16 | (b[c + 15] as usize) << 24
}
/// The end of the roles of the first `len` bytes, if every declared role is complete.
fn roles_end(b: &[u8; MAX], len: usize) -> Option<usize> {
    if len < 48 { return None }
    let n = b[34] as usize | (b[35] as usize) << 8;
    let mut c = 48;
    let mut i = 0;
    while i < 3 {
        if i < n {
            if c + 16 > len { return None }
            let e = stored_end(b, c);
            if e + 48 < c + 16 || e + 48 > len { return None }
            c = e + 48;
        }
        i += 1;
    }
    Some(c)
}
fn account() -> (Buf<MAX>, usize, Option<usize>) {
    let mut b = Buf::<MAX>::any();
    let len = len_upto(MAX);
    b.0[35] = 0;
    assume(b.0[34] <= 3);
    // role headers are aligned records
    let mut c = 48;
    while c + 16 <= MAX {
        assume(b.0[c + 12] % 8 == 0);
        c += 8;
    }
    let end = roles_end(&b.0, len);
    (b, len, end)
}
//# fn Swig::roles_end_offset
//# bounded end: accounts of at most 104 bytes, at most three declared roles, stored ends multiples of 8
harness! { #[kani::unwind(9)] end {
    let (b, len, want) = account();
    let r = Swig::roles_end_offset(&b.0[..len]);
    reach!("three roles", matches!(r, Ok(104)) && b.0[34] == 3);
    reach!("an incomplete role", r.is_err() && len >= 80);
    ob!("the roles end after the last declared role, or the account is refused", r.ok() == want);
}}
fn at(x: *const u8, base: *const u8) -> usize { x as usize - base as usize }
//# fn Swig::split_parts, Swig::split_roles_and_tail, SwigWithRoles::from_bytes
//# bounded split: accounts of at most 104 bytes, at most three declared roles, stored ends multiples of 8
harness! { #[kani::unwind(9)] split {
    let (b, len, want) = account();
    let base = b.0.as_ptr();
    match Swig::split_parts(&b.0[..len]) {
        Ok(p) => {
            let e = want.unwrap_or(0);
            ob!("the parts are the header, the roles and the rest", want.is_some() && at(p.state as *const Swig as *const u8, base) == 0
                && at(p.roles.as_ptr(), base) == 48 && p.roles.len() == e - 48 && p.tail.len() == len - e && (p.tail.len() == 0 || at(p.tail.as_ptr(), base) == e));
        },
        Err(_) => ob!("only an account with an incomplete role is refused", want.is_none()),
    }
    match Swig::split_roles_and_tail(&b.0[..len]) {
        Ok((roles, tail)) => {
            let e = want.unwrap_or(0);
            ob!("roles and rest", want.is_some() && at(roles.as_ptr(), base) == 48 && roles.len() == e - 48 && tail.len() == len - e && (tail.len() == 0 || at(tail.as_ptr(), base) == e));
        },
        Err(_) => ob!("roles and rest are refused only for an incomplete role", want.is_none()),
    }
    match SwigWithRoles::from_bytes(&b.0[..len]) {
        Ok(w) => ob!("the read-only view is on a wallet with complete roles", want.is_some() && at(w.state as *const Swig as *const u8, base) == 0),
        Err(_) => ob!("the read-only view is refused only for an incomplete role", want.is_none()),
    }
}}
//# fn Swig::split_parts_mut, Swig::split_roles_and_tail_mut
//# bounded split_mut: accounts of at most 104 bytes, at most three declared roles, stored ends multiples of 8
harness! { #[kani::unwind(9)] split_mut {
    let (mut b, len, want) = account();
    let before = b;
    let base = b.0.as_ptr();
    let i: usize = any();
    assume(i < MAX);
    match Swig::split_parts_mut(&mut b.0[..len]) {
        Ok(p) => {
            let e = want.unwrap_or(0);
            ob!("the modifiable parts are the header, the roles and the rest", want.is_some() && at(p.state as *const Swig as *const u8, base) == 0
                && at(p.roles.as_ptr(), base) == 48 && p.roles.len() == e - 48 && p.tail.len() == len - e && (p.tail.len() == 0 || at(p.tail.as_ptr(), base) == e));
        },
        Err(_) => ob!("only an account with an incomplete role is refused for modification", want.is_none()),
    }
    match Swig::split_roles_and_tail_mut(&mut b.0[..len]) {
        Ok((roles, tail)) => {
            let e = want.unwrap_or(0);
            ob!("modifiable roles and rest", want.is_some() && at(roles.as_ptr(), base) == 48 && roles.len() == e - 48 && tail.len() == len - e && (tail.len() == 0 || at(tail.as_ptr(), base) == e));
        },
        Err(_) => ob!("modifiable roles and rest are refused only for an incomplete role", want.is_none()),
    }
    ob!("splitting changes nothing", b.0[i] == before.0[i]);
}}
