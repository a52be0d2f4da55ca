//! Contracts for the on-chain branches of /repo's code (see bin/shadow.py for
//! how the verified sources are made from /repo's current tree).
#![allow(dead_code, unused, static_mut_refs)]
#![cfg_attr(kani, feature(stmt_expr_attributes))]
#[macro_use]
#[path = "../../kani/src/macros.rs"]
mod macros;
#[path = "../../kani/src/nd.rs"]
pub mod nd;
#[path = "../../kani/src/acct.rs"]
pub mod acct;
pub mod sys;
mod a01;
mod a02;
mod a03;
mod a04;
mod a05;
mod a06;
mod a07;
mod a08;
mod a09;
mod x01s;
