//! L03: recurring caps per destination.
use crate::nd::{self, *};
use pinocchio::program_error::ProgramError;
use swig_state::action::{
    sol_recurring_destination_limit::SolRecurringDestinationLimit,
    token_recurring_destination_limit::TokenRecurringDestinationLimit,
};

pub fn spec(
    per_window: u64,
    window: u64,
    last_reset: u64,
    left: u64,
    amount: u64,
    slot: u64,
) -> (bool, u64, u64) {
    let elapsed = slot >= last_reset && slot - last_reset > window;
    if elapsed && amount <= per_window {
        (true, per_window - amount, slot)
    } else if amount <= left {
        (true, left - amount, last_reset)
    } else {
        (false, left, last_reset)
    }
}
macro_rules! recurring {
    ($c:ident, $T:ident, { $($fo:ident = $fe:ident;)* }) => {
        contract! {
            fn $c(this: &mut $T, amount: u64, slot: u64) -> Result<(), ProgramError> {
                requires { this.window > 0 }
                modifies { &*this }
                old (per, window, want, $($fo,)*) = (this.recurring_amount, this.window, spec(this.recurring_amount, this.window, this.last_reset, this.current_amount, amount, slot), $(this.$fe,)*);
                ensures "allowed exactly when the amount fits in what is left after a due replenishment" |r| { r.is_ok() == want.0 }
                ensures "what is left is the due replenishment minus exactly an allowed charge" |r| { this.current_amount == want.1 }
                ensures "a replenishment is recorded at the current slot, otherwise the record stays" |r| { this.last_reset == want.2 }
                ensures "per-window amount, window length, destination and mint do not change" |r| { this.recurring_amount == per && this.window == window $(&& this.$fe == $fo)* }
                call { this.run(amount, slot) }
            }
        }
    };
}
recurring!(sol_run, SolRecurringDestinationLimit, { destination = destination; });
recurring!(token_run, TokenRecurringDestinationLimit, { destination = destination; mint = token_mint; });

//# fn swig_state::action::sol_recurring_destination_limit::SolRecurringDestinationLimit::run
harness! { #[kani::unwind(40)] sol for sol_run {
    let mut this = SolRecurringDestinationLimit { destination: bytes(), recurring_amount: any(), window: any(), last_reset: any(), current_amount: any() };
    let lr = this.last_reset;
    let r = sol_run(&mut this, any(), any());
    reach!("allowed", r.is_ok());
    reach!("refused", r.is_err());
    reach!("replenished", this.last_reset != lr);
}}
//# fn swig_state::action::token_recurring_destination_limit::TokenRecurringDestinationLimit::run
harness! { #[kani::unwind(40)] token for token_run {
    let mut this = TokenRecurringDestinationLimit { token_mint: bytes(), destination: bytes(), recurring_amount: any(), window: any(), last_reset: any(), current_amount: any() };
    let lr = this.last_reset;
    let r = token_run(&mut this, any(), any());
    reach!("allowed", r.is_ok());
    reach!("refused", r.is_err());
    reach!("replenished", this.last_reset != lr);
}}
