//! Contracts for the real functions of /repo (swig-state, swig-assertions,
//! swig-compact-instructions), discharged function by function by Kani.
//! Comment lines starting with `//#` are read by /verif/bin/check:
//!   `//# fn <path>`           the real function the next harness decides
//!   `//# bounded <text>`      the next harness is bounded, with this bound
//!   `//# thorough`            only run in the thorough tier
#![allow(dead_code, unused)]
#![cfg_attr(kani, feature(stmt_expr_attributes))]
#[macro_use]
mod macros;
pub mod nd;
mod i01;
mod i02;
mod i03;
mod l01;
mod l02;
mod l03;
mod l04;
mod l05;
mod l06;
mod l07;
mod l08;
mod l09;
mod l10;
mod r01;
mod r02;
mod r03;
mod r04;
mod r05;
mod r06;
mod r07;
mod r08;
mod s01;
mod x01;
pub mod acct;
