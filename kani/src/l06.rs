//! L06: subject matching of restricted permissions.
use crate::nd::{self, *};
use swig_state::action::{
    program::Program, program_curated::ProgramCurated, program_scope::ProgramScope, replace_authority::ReplaceAuthority,
    sol_destination_limit::SolDestinationLimit, sol_recurring_destination_limit::SolRecurringDestinationLimit, sub_account::SubAccount,
    sub_account_v2::*, token_destination_limit::TokenDestinationLimit, token_limit::TokenLimit,
    token_recurring_destination_limit::TokenRecurringDestinationLimit, token_recurring_limit::TokenRecurringLimit, Actionable,
};
use swig_state::Transmutable;

/// Equality of `n` bytes, byte by byte.
fn same(a: &[u8], b: &[u8], n: usize) -> bool {
    let mut eq = a.len() >= n && b.len() >= n;
    let mut i = 0;
    while i < n {
        if eq && a[i] != b[i] { eq = false }
        i += 1;
    }
    eq
}
/// The record holds its subject key in its first `$k` bytes.
macro_rules! keyed {
    ($name:ident, $t:ty, $k:expr, $n:expr) => {
        harness! { #[kani::unwind(98)] $name {
            let rec: Buf<$n> = Buf::any();
            let subject: [u8; 97] = bytes();
            let n = len_upto(97);
            let p = unsafe { <$t>::load_unchecked(&rec.0).unwrap() };
            let r = p.match_data(&subject[..n]);
            reach!("matches", r);
            reach!("short subject", n < $k);
            ob!("matches exactly the recorded subject, over all its bytes", r == (n >= $k && same(&rec.0, &subject, $k)));
        }}
    };
}
//# fn TokenLimit::match_data
keyed!(token_limit, TokenLimit, 32, 40);
//# fn TokenRecurringLimit::match_data
keyed!(token_recurring, TokenRecurringLimit, 32, 64);
//# fn Program::match_data
keyed!(program, Program, 32, 32);
//# fn SolDestinationLimit::match_data, SolDestinationLimit::matches_destination
keyed!(sol_destination, SolDestinationLimit, 32, 40);
//# fn SolRecurringDestinationLimit::match_data, SolRecurringDestinationLimit::matches_destination
keyed!(sol_recurring_destination, SolRecurringDestinationLimit, 32, 64);
//# fn TokenDestinationLimit::match_data, TokenDestinationLimit::matches_mint_and_destination
keyed!(token_destination, TokenDestinationLimit, 64, 72);
//# fn TokenRecurringDestinationLimit::match_data, TokenRecurringDestinationLimit::matches_destination
keyed!(token_recurring_destination, TokenRecurringDestinationLimit, 64, 96);

//# fn the direct matchers used by the spending path
harness! { #[kani::unwind(66)] direct {
    let (mint, dest, a, b): ([u8; 32], [u8; 32], [u8; 32], [u8; 32]) = (bytes(), bytes(), bytes(), bytes());
    let s = SolDestinationLimit { destination: dest, amount: any() };
    ob!("sol destination", s.matches_destination(&b) == same(&dest, &b, 32));
    let t = TokenDestinationLimit { token_mint: mint, destination: dest, amount: any() };
    ob!("mint and destination", t.matches_mint_and_destination(&a, &b) == (same(&mint, &a, 32) && same(&dest, &b, 32)));
    let s = SolRecurringDestinationLimit { destination: dest, recurring_amount: any(), window: any(), last_reset: any(), current_amount: any() };
    ob!("sol recurring destination", s.matches_destination(&b) == same(&dest, &b, 32));
}}
//# fn TokenRecurringDestinationLimit::matches_destination, TokenRecurringDestinationLimit::matches_mint_and_destination
harness! { #[kani::unwind(66)] direct_pair {
    let (mint, dest, a, b): ([u8; 32], [u8; 32], [u8; 32], [u8; 32]) = (bytes(), bytes(), bytes(), bytes());
    let t = TokenRecurringDestinationLimit { token_mint: mint, destination: dest, recurring_amount: any(), window: any(), last_reset: any(), current_amount: any() };
    let mut key = [0u8; 64];
    key[..32].copy_from_slice(&a);
    key[32..].copy_from_slice(&b);
    ob!("mint and destination", t.matches_destination(&key) == (same(&mint, &a, 32) && same(&dest, &b, 32)));
}}
//# fn ProgramScope::match_data
harness! { #[kani::unwind(98)] program_scope {
    let rec = crate::l04::any_scope();
    let subject: [u8; 97] = bytes();
    let n = len_upto(97);
    let r = rec.match_data(&subject[..n]);
    reach!("matches", r);
    ob!("matches exactly the scope's target account", r == (n >= 32 && same(&rec.target_account, &subject, 32)));
}}
/// The record holds a 32-bit number, little-endian, in its first bytes.
macro_rules! numbered {
    ($name:ident, $t:ty) => {
        harness! { #[kani::unwind(34)] $name {
            let rec: Buf<8> = Buf::any();
            let subject: [u8; 33] = bytes();
            let n = len_upto(33);
            let p = unsafe { <$t>::load_unchecked(&rec.0).unwrap() };
            let r = p.match_data(&subject[..n]);
            reach!("matches", r);
            ob!("matches exactly the recorded number", r == (n == 4 && same(&rec.0, &subject, 4)));
        }}
    };
}
//# fn SubAccountV2All::match_data
numbered!(v2_all, SubAccountV2All);
//# fn SubAccountV2Sign::match_data
numbered!(v2_sign, SubAccountV2Sign);
//# fn SubAccountV2Withdraw::match_data
numbered!(v2_withdraw, SubAccountV2Withdraw);
//# fn SubAccountV2Toggle::match_data
numbered!(v2_toggle, SubAccountV2Toggle);
//# fn ReplaceAuthority::match_data
numbered!(replace_authority, ReplaceAuthority);
//# fn SubAccountV2*::new, ReplaceAuthority::new
harness! { new_numbered {
    let id: u32 = any();
    let other: u32 = any();
    macro_rules! one { ($t:ident) => {
        let p = $t::new(id);
        ob!("a permission made for a number matches exactly that number", p.match_data(&other.to_le_bytes()) == (id == other));
    } }
    one!(SubAccountV2All);
    one!(SubAccountV2Sign);
    one!(SubAccountV2Withdraw);
    one!(SubAccountV2Toggle);
    one!(ReplaceAuthority);
}}
//# fn SubAccount::match_data
harness! { #[kani::unwind(66)] sub_account {
    let mut rec: Buf<72> = Buf::any();
    rec.0[33] &= 1; // `enabled` is a bool
    let subject: [u8; 65] = bytes();
    let n = len_upto(65);
    let p = unsafe { SubAccount::load_unchecked(&rec.0).unwrap() };
    let r = p.match_data(&subject[..n]);
    reach!("matches", r && n == 32);
    reach!("matches for creation", r && n == 0);
    ob!("matches exactly the recorded sub-account, or, before creation, no sub-account",
        r == if n == 0 { same(&rec.0, &[0u8; 32], 32) } else { n == 32 && same(&rec.0, &subject, 32) });
}}
/// The published list.
const SYSTEM: [u8; 32] = [0; 32];
const TOKEN: [u8; 32] = [6, 221, 246, 225, 215, 101, 161, 147, 217, 203, 225, 70, 206, 235, 121, 172, 28, 180, 133, 237, 95, 91, 55, 145, 58, 140, 245, 133, 126, 255, 0, 169];
const TOKEN_2022: [u8; 32] = [6, 221, 246, 225, 238, 117, 143, 222, 24, 66, 93, 188, 228, 108, 205, 218, 182, 26, 252, 77, 131, 185, 13, 39, 254, 189, 249, 40, 216, 161, 139, 252];
const STAKE: [u8; 32] = [6, 161, 216, 23, 145, 55, 84, 42, 152, 52, 55, 189, 254, 42, 122, 178, 85, 127, 83, 92, 138, 120, 114, 43, 104, 164, 157, 192, 0, 0, 0, 0];
//# fn ProgramCurated::match_data, ProgramCurated::is_curated_program
harness! { #[kani::unwind(66)] curated {
    let p = ProgramCurated::new();
    let subject: [u8; 65] = bytes();
    let n = len_upto(65);
    let on = |k: &[u8]| same(&SYSTEM, k, 32) || same(&TOKEN, k, 32) || same(&TOKEN_2022, k, 32) || same(&STAKE, k, 32);
    let r = p.match_data(&subject[..n]);
    reach!("matches", r);
    ob!("matches exactly the listed programs", r == (n >= 32 && on(&subject)));
    let key: [u8; 32] = bytes();
    ob!("the direct check agrees", ProgramCurated::is_curated_program(&key) == on(&key));
}}
