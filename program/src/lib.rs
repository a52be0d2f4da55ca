//! Contracts for the program crate of /repo (see bin/shadow.py for how the
//! verified sources are made from /repo's current tree).
#![allow(dead_code, unused, static_mut_refs)]
#![cfg_attr(kani, feature(stmt_expr_attributes))]
#[macro_use]
#[path = "../../kani/src/macros.rs"]
mod macros;
#[path = "../../kani/src/nd.rs"]
pub mod nd;
#[path = "../../kani/src/acct.rs"]
pub mod acct;
#[path = "../../shadow/src/sys.rs"]
pub mod sys;
#[macro_use]
pub mod wallet;
mod p01;
mod p03;
mod p04;
mod p05;
mod p06;
