//! L04: program-scope spending.  The recurring kind at full width is Verus's
//! (verus/l04.unit); here over 12-bit slots and windows.
use crate::nd::{self, *};
use pinocchio::program_error::ProgramError;
use swig_state::action::program_scope::ProgramScope;

pub fn any_scope() -> ProgramScope {
    ProgramScope {
        current_amount: any(),
        limit: any(),
        window: any(),
        last_reset: any(),
        program_id: bytes(),
        target_account: bytes(),
        scope_type: any(),
        numeric_type: any(),
        balance_field_start: any(),
        balance_field_end: any(),
    }
}
macro_rules! config {
    ($t:expr) => {
        ($t.limit, $t.window, $t.program_id, $t.target_account, $t.scope_type, $t.numeric_type, $t.balance_field_start, $t.balance_field_end)
    };
}

contract! {
    fn run_plain(this: &mut ProgramScope, amount: u128, slot: Option<u64>) -> Result<(), ProgramError> {
        requires { this.scope_type != 2 && this.limit < u128::MAX }
        modifies { &*this }
        old (spent, lr, kind, limit, cfg) = (this.current_amount, this.last_reset, this.scope_type, this.limit, config!(this));
        ensures "an unlimited scope allows, an unknown kind refuses, a limit allows exactly what still fits" |r| {
            r.is_ok() == match kind { 0 => true, 1 => spent <= limit && amount <= limit - spent, _ => false } }
        ensures "an allowed charge against a limit adds exactly its amount to what is spent, everything else leaves it" |r| {
            this.current_amount == if r.is_ok() && kind == 1 { spent + amount } else { spent } }
        ensures "the configuration does not change" |r| { config!(this) == cfg && this.last_reset == lr }
        call { this.run(amount, slot) }
    }
}
//# fn ProgramScope::run
harness! { #[kani::unwind(40)] plain for run_plain {
    let mut this = any_scope();
    let k = this.scope_type;
    let slot = if any() { Some(any::<u64>()) } else { None };
    let r = run_plain(&mut this, any(), slot);
    reach!("basic", r.is_ok() && k == 0);
    reach!("limit allows", r.is_ok() && k == 1);
    reach!("limit refuses", r.is_err() && k == 1);
    reach!("unknown kind", r.is_err() && k == 257);
}}
//# bounded recurring: slot, window and last reset below 2^12; amounts full width
harness! { #[kani::unwind(40)] recurring {
    let mut this = any_scope();
    this.scope_type = 2;
    this.window = (any::<u16>() & 0xfff) as u64;
    this.last_reset = (any::<u16>() & 0xfff) as u64;
    assume(this.window > 0 && this.limit < u128::MAX);
    let (spent, lr, window, limit, cfg) = (this.current_amount, this.last_reset, this.window, this.limit, config!(this));
    let slot = (any::<u16>() & 0xfff) as u64;
    let given: bool = any();
    let amount: u128 = any();
    let r = this.run(amount, if given { Some(slot) } else { None });
    let due = given && slot >= lr && slot - lr > window;
    let base = if due { 0 } else { spent };
    let fits = given && base <= limit && amount <= limit - base;
    reach!("allowed in a new window", r.is_ok() && due);
    reach!("refused", r.is_err() && given);
    ob!("allowed exactly when a slot is given and the amount fits in the window", r.is_ok() == fits);
    ob!("an allowed charge adds exactly its amount to what is spent in the window", !r.is_ok() || this.current_amount == base + amount);
    ob!("the running window's spent total restarts only when the window has passed", due || (this.last_reset == lr && this.current_amount == if fits { spent + amount } else { spent }));
    ob!("a new window starts at a multiple of its length containing the slot; a refusal may keep the old one",
        !due || this.last_reset == (slot / window) * window || (r.is_err() && this.last_reset == lr));
    ob!("a refused charge leaves the spent total of its window", r.is_ok() || (this.last_reset == lr && this.current_amount == spent) || (due && this.current_amount == 0));
    ob!("the configuration does not change", config!(this) == cfg);
}}
