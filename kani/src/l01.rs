//! L01: one-time caps.
use crate::nd::{self, *};
use pinocchio::program_error::ProgramError;
use swig_state::action::{
    sol_destination_limit::SolDestinationLimit, sol_limit::SolLimit, stake_limit::StakeLimit,
    token_destination_limit::TokenDestinationLimit, token_limit::TokenLimit,
};

contract! {
    fn sol_run(this: &mut SolLimit, amount: u64) -> Result<(), ProgramError> {
        requires { true }
        modifies { &*this }
        old (left,) = (this.amount,);
        ensures "allowed exactly when the amount fits in what is left" |r| { r.is_ok() == (amount <= left) }
        ensures "an allowed charge takes exactly its amount, a refused one nothing" |r| {
            this.amount == if r.is_ok() { left - amount } else { left } }
        call { this.run(amount) }
    }
}
contract! {
    fn stake_run(this: &mut StakeLimit, amount: u64) -> Result<(), ProgramError> {
        requires { true }
        modifies { &*this }
        old (left,) = (this.amount,);
        ensures "allowed exactly when the amount fits in what is left" |r| { r.is_ok() == (amount <= left) }
        ensures "an allowed charge takes exactly its amount, a refused one nothing" |r| {
            this.amount == if r.is_ok() { left - amount } else { left } }
        call { this.run(amount) }
    }
}
contract! {
    fn token_run(this: &mut TokenLimit, amount: u64) -> Result<(), ProgramError> {
        requires { true }
        modifies { &*this }
        old (left, mint,) = (this.current_amount, this.token_mint,);
        ensures "allowed exactly when the amount fits in what is left" |r| { r.is_ok() == (amount <= left) }
        ensures "an allowed charge takes exactly its amount, a refused one nothing" |r| {
            this.current_amount == if r.is_ok() { left - amount } else { left } }
        ensures "the mint does not change" |r| { this.token_mint == mint }
        call { this.run(amount) }
    }
}
contract! {
    fn sol_destination_run(this: &mut SolDestinationLimit, amount: u64) -> Result<(), ProgramError> {
        requires { true }
        modifies { &*this }
        old (left, destination,) = (this.amount, this.destination,);
        ensures "allowed exactly when the amount fits in what is left" |r| { r.is_ok() == (amount <= left) }
        ensures "an allowed charge takes exactly its amount, a refused one nothing" |r| {
            this.amount == if r.is_ok() { left - amount } else { left } }
        ensures "the destination does not change" |r| { this.destination == destination }
        call { this.run(amount) }
    }
}
contract! {
    fn token_destination_run(this: &mut TokenDestinationLimit, amount: u64) -> Result<(), ProgramError> {
        requires { true }
        modifies { &*this }
        old (left, destination, mint,) = (this.amount, this.destination, this.token_mint,);
        ensures "allowed exactly when the amount fits in what is left" |r| { r.is_ok() == (amount <= left) }
        ensures "an allowed charge takes exactly its amount, a refused one nothing" |r| {
            this.amount == if r.is_ok() { left - amount } else { left } }
        ensures "mint and destination do not change" |r| { this.destination == destination && this.token_mint == mint }
        call { this.run(amount) }
    }
}

//# fn swig_state::action::sol_limit::SolLimit::run
harness! { #[kani::unwind(40)] sol for sol_run {
    let mut this = SolLimit { amount: any() };
    let r = sol_run(&mut this, any());
    reach!("allowed", r.is_ok());
    reach!("refused", r.is_err());
}}
//# fn swig_state::action::stake_limit::StakeLimit::run
harness! { #[kani::unwind(40)] stake for stake_run {
    let mut this = StakeLimit { amount: any() };
    let r = stake_run(&mut this, any());
    reach!("allowed", r.is_ok());
    reach!("refused", r.is_err());
}}
//# fn swig_state::action::token_limit::TokenLimit::run
harness! { #[kani::unwind(40)] token for token_run {
    let mut this = TokenLimit { token_mint: bytes(), current_amount: any() };
    let r = token_run(&mut this, any());
    reach!("allowed", r.is_ok());
    reach!("refused", r.is_err());
}}
//# fn swig_state::action::sol_destination_limit::SolDestinationLimit::run
harness! { #[kani::unwind(40)] sol_destination for sol_destination_run {
    let mut this = SolDestinationLimit { destination: bytes(), amount: any() };
    let r = sol_destination_run(&mut this, any());
    reach!("allowed", r.is_ok());
    reach!("refused", r.is_err());
}}
//# fn swig_state::action::token_destination_limit::TokenDestinationLimit::run
harness! { #[kani::unwind(40)] token_destination for token_destination_run {
    let mut this = TokenDestinationLimit { token_mint: bytes(), destination: bytes(), amount: any() };
    let r = token_destination_run(&mut this, any());
    reach!("allowed", r.is_ok());
    reach!("refused", r.is_err());
}}
/// Histories: over any sequence of charges the sum of what was allowed plus
/// what is left is the original cap.  With the contract above each step
/// preserves `allowed + left == cap`; this harness checks the step.
//# fn swig_state::action::sol_limit::SolLimit::run (history step)
harness! { #[kani::unwind(40)] history_step {
    let cap: u64 = any();
    let allowed: u64 = any();
    let left: u64 = any();
    assume(allowed as u128 + left as u128 == cap as u128);
    let amount: u64 = any();
    let mut this = SolLimit { amount: left };
    let r = this.run(amount);
    let allowed2 = if r.is_ok() { allowed as u128 + amount as u128 } else { allowed as u128 };
    nd::ob!("the sum of everything allowed plus what is left stays the original cap",
        allowed2 + this.amount as u128 == cap as u128);
}}
