//! X01: account checks, on-chain byte comparison.
use crate::nd::{self, *};
use pinocchio::program_error::ProgramError;
use swig_assertions::*;

const E: ProgramError = ProgramError::Custom(77);
//# fn sol_assert_bytes_eq, check_bytes_match (on-chain branch)
//# bounded chain_bytes: byte strings of at most 40 bytes
harness! { #[kani::unwind(42)] chain_bytes {
    let (a, b): ([u8; 40], [u8; 40]) = (bytes(), bytes());
    let (n, m) = (len_upto(40), len_upto(40));
    let len: usize = any();
    assume(n != m || n == len); // callers pass the length of equally long slices
    let mut eq = n == m;
    let mut i = 0;
    while i < 40 {
        if i < n && i < m && a[i] != b[i] { eq = false }
        i += 1;
    }
    reach!("equal", eq && n == 40);
    ob!("equal exactly when length and all bytes are", sol_assert_bytes_eq(&a[..n], &b[..m], len) == eq);
    ob!("the check says the same", check_bytes_match(&a[..n], &b[..m], len, E) == if eq { Ok(()) } else { Err(E) });
}}
//# fn check_stack_height (on-chain branch)
harness! { stack_height {
    crate::sys::start();
    let (h, want): (u64, u64) = (any(), any());
    unsafe { ghost_syscalls::STACK_HEIGHT = h }
    ob!("accepted exactly at the given stack height", check_stack_height(want, E) == if h == want { Ok(()) } else { Err(E) });
}}
