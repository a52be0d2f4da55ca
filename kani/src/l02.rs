//! L02: recurring caps.  The full-width proof is Verus's (verus/l02.rs, on
//! the text of the real functions); here the division-free obligations are
//! discharged at full width, and the window arithmetic over the real code for
//! 12-bit slots and windows.
use crate::nd::{self, *};
use pinocchio::program_error::ProgramError;
use swig_state::action::{
    sol_recurring_limit::SolRecurringLimit, stake_recurring_limit::StakeRecurringLimit,
    token_recurring_limit::TokenRecurringLimit,
};

macro_rules! recurring {
    ($h:ident, $hw:ident, $T:ident { $($extra:ident)? }, $per:ident, $left:ident) => {
        harness! { #[kani::unwind(40)] $hw {
            let per: u64 = any();
            let window = (any::<u16>() & 0xfff) as u64;
            let last_reset = (any::<u16>() & 0xfff) as u64;
            let left: u64 = any();
            let amount: u64 = any();
            let slot = (any::<u16>() & 0xfff) as u64;
            assume(window > 0);
            let mint: [u8; 32] = bytes();
            let mut this = $T { $($extra: mint,)? $per: per, window, last_reset, $left: left };
            let r = this.run(amount, slot);
            let elapsed = slot >= last_reset && slot - last_reset > window;
            let replenish = elapsed && amount <= per;
            reach!("allowed", r.is_ok());
            reach!("refused", r.is_err());
            reach!("replenished", replenish);
            ob!("allowed exactly when the amount fits in what is left after a due replenishment",
                r.is_ok() == (replenish || amount <= left));
            ob!("what is left is the due replenishment minus exactly an allowed charge",
                this.$left == if replenish { per - amount } else if amount <= left { left - amount } else { left });
            ob!("the recorded window start is the start of the window of the current slot, or unchanged",
                this.last_reset == if replenish { (slot / window) * window } else { last_reset });
            ob!("per-window amount, window length and mint do not change",
                this.$per == per && this.window == window $(&& this.$extra == mint)?);
        }}
        harness! { #[kani::unwind(40)] $h {
            let per: u64 = any();
            let window: u64 = any();
            let last_reset: u64 = any();
            let left: u64 = any();
            let amount: u64 = any();
            let slot: u64 = any();
            assume(window > 0);
            let mint: [u8; 32] = bytes();
            let elapsed = slot >= last_reset && slot - last_reset > window;
            assume(!(elapsed && amount <= per));
            let mut this = $T { $($extra: mint,)? $per: per, window, last_reset, $left: left };
            let r = this.run(amount, slot);
            reach!("allowed", r.is_ok());
            reach!("refused", r.is_err());
            ob!("without a due replenishment: allowed exactly when the amount fits in what is left", r.is_ok() == (amount <= left));
            ob!("without a due replenishment: only an allowed charge changes what is left",
                this.$left == if amount <= left { left - amount } else { left } && this.last_reset == last_reset);
            ob!("per-window amount, window length and mint do not change",
                this.$per == per && this.window == window $(&& this.$extra == mint)?);
        }}
    };
}
//# fn SolRecurringLimit::run
//# bounded sol_window: slot, window and last reset below 2^12; amounts full width
recurring!(sol, sol_window, SolRecurringLimit {}, recurring_amount, current_amount);
//# fn StakeRecurringLimit::run
//# bounded stake_window: slot, window and last reset below 2^12; amounts full width
recurring!(stake, stake_window, StakeRecurringLimit {}, recurring_amount, current_amount);
//# fn TokenRecurringLimit::run
//# bounded token_window: slot, window and last reset below 2^12; amounts full width
recurring!(token, token_window, TokenRecurringLimit { token_mint }, limit, current);
