//! L05: reading a scoped account's balance.
use crate::l04::any_scope;
use crate::nd::{self, *};
use pinocchio::program_error::ProgramError;
use swig_state::action::program_scope::{NumericType, ProgramScope};

fn width(numeric_type: u64) -> Option<usize> {
    match numeric_type { 0 => Some(1), 1 => Some(4), 2 => Some(8), 3 => Some(16), _ => None }
}
fn max(numeric_type: u64) -> Option<u128> {
    match numeric_type { 0 => Some(u8::MAX as u128), 1 => Some(u32::MAX as u128), 2 => Some(u64::MAX as u128), 3 => Some(u128::MAX), _ => None }
}
/// The little-endian unsigned integer stored in `d[start..start + w]`.
fn le(d: &[u8], start: usize, w: usize) -> u128 {
    let mut v = 0u128;
    let mut i = 0;
    while i < 16 {
        if i < w { v |= (d[start + i] as u128) << (8 * i); }
        i += 1;
    }
    v
}
const N: usize = if cfg!(feature = "thorough") { 96 } else { 40 };
//# fn ProgramScope::read_account_balance (read_numeric_field!)
//# bounded read: account data of at most 40 (thorough: 96) bytes; range, type and content unrestricted
harness! { #[kani::unwind(42)] read {
    let scope = any_scope();
    let buf: [u8; N] = bytes();
    let n = len_upto(N);
    let data = &buf[..n];
    let (s, e, t) = (scope.balance_field_start, scope.balance_field_end, scope.numeric_type);
    let r = scope.read_account_balance(data);
    let configured = !(s == 0 && e == 0);
    let good = s <= e && e <= n as u64 && width(t) == Some((e - s) as usize);
    reach!("nothing configured", !configured && r.is_ok());
    reach!("read", configured && r.is_ok() && t == 3);
    reach!("refused", r.is_err());
    match r {
        Ok(v) => {
            ob!("a value is returned only when no range is configured or the range fits type and data", !configured || good);
            if configured && good {
                ob!("the value is the stored little-endian integer", v == le(data, s as usize, (e - s) as usize));
            } else {
                ob!("zero when no range is configured", v == 0);
            }
        },
        Err(_) => ob!("refused only when a configured range does not fit", configured && !good),
    }
}}
//# fn ProgramScope::read_account_balance (out-of-data ranges, any data length)
harness! { #[kani::unwind(42)] read_wide_range {
    // a range that ends beyond the data is refused whatever its width
    let scope = any_scope();
    let buf: [u8; 8] = bytes();
    let n = len_upto(8);
    assume(scope.balance_field_end > n as u64);
    ob!("a range that ends beyond the data is refused", scope.read_account_balance(&buf[..n]).is_err());
}}
//# fn ProgramScope::set_current_amount
harness! { #[kani::unwind(42)] set {
    let mut this = any_scope();
    let amount: u128 = any();
    let (before, lr, lim, t) = (this.current_amount, this.last_reset, this.limit, this.numeric_type);
    let cfg = (this.window, this.program_id, this.target_account, this.scope_type, this.balance_field_start, this.balance_field_end);
    let r = this.set_current_amount(amount);
    reach!("stored", r.is_ok());
    reach!("refused", r.is_err());
    ob!("stored exactly when the amount fits the configured type", r.is_ok() == (match max(t) { Some(m) => amount <= m, None => false }));
    ob!("stores the amount or nothing", this.current_amount == if r.is_ok() { amount } else { before });
    ob!("nothing else changes", this.last_reset == lr && this.limit == lim && this.numeric_type == t
        && (this.window, this.program_id, this.target_account, this.scope_type, this.balance_field_start, this.balance_field_end) == cfg);
}}
//# fn ProgramScope::validate_amount
harness! { #[kani::unwind(42)] validate {
    let this = any_scope();
    let amount: u128 = any();
    let r = this.validate_amount(amount);
    ob!("valid exactly when the amount fits the configured type", r.is_ok() == (match max(this.numeric_type) { Some(m) => amount <= m, None => false }));
    let small: u64 = any();
    ob!("the same for narrower amounts", this.validate_amount(small).is_ok() == (match max(this.numeric_type) { Some(m) => small as u128 <= m, None => false }));
}}
contract! {
    fn set_range(this: &mut ProgramScope, start: u64, end: u64) -> Result<(), ProgramError> {
        requires { true }
        modifies { &*this }
        old (s, e, rest) = (this.balance_field_start, this.balance_field_end, (this.current_amount, this.limit, this.window, this.last_reset, this.program_id, this.target_account, this.scope_type, this.numeric_type));
        ensures "configured exactly when the range is non-empty and ends within 1024 bytes" |r| { r.is_ok() == (start < end && end <= 1024) }
        ensures "stores the range or nothing" |r| { (this.balance_field_start, this.balance_field_end) == if r.is_ok() { (start, end) } else { (s, e) } }
        ensures "nothing else changes" |r| { (this.current_amount, this.limit, this.window, this.last_reset, this.program_id, this.target_account, this.scope_type, this.numeric_type) == rest }
        call { this.set_balance_field_indices(start, end) }
    }
}
//# fn ProgramScope::set_balance_field_indices
harness! { #[kani::unwind(42)] range for set_range {
    let mut this = any_scope();
    let r = set_range(&mut this, any(), any());
    reach!("stored", r.is_ok());
    reach!("refused", r.is_err());
}}
//# fn NumericType::from_u8, NumericType::max_value
harness! { types {
    let v: u8 = any();
    match NumericType::from_u8(v) {
        Some(t) => ob!("each code has its own maximum", Some(t.max_value()) == max(v as u64) && u8::from(t) == v),
        None => ob!("only codes 0 to 3 are types", v > 3),
    }
}}
