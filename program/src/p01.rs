//! P01: wallet-version detection.
use crate::{acct::Acct, nd::{self, *}};
use swig::{is_swig_config_account, is_swig_v2, require_swig_v2, error::SwigError};
use pinocchio::program_error::ProgramError;
const N: usize = 1024;

/// A current-generation header: a wallet bump with zero padding after it.
fn current(d: &[u8; N]) -> bool {
    d[40] != 0 && d[41] == 0 && d[42] == 0 && d[43] == 0
}
//# fn is_swig_v2
//# bounded detection: account data of up to 1024 bytes (only bytes 40..44 are read)
harness! { #[kani::unwind(4)] detection {
    let d: [u8; N] = bytes();
    let n = len_upto(N);
    assume(n >= 48);
    let r = unsafe { is_swig_v2(&d[..n]) };
    reach!("current", r);
    reach!("older", !r);
    ob!("current generation exactly with a wallet bump and zero padding", r == current(&d));
}}
//# fn require_swig_v2
//# bounded required: account data of up to 1024 bytes (only bytes 40..44 are read)
harness! { #[kani::unwind(4)] required {
    let d: [u8; N] = bytes();
    let n = len_upto(N);
    let r = require_swig_v2(&d[..n]);
    reach!("current", r.is_ok());
    reach!("older", r.is_err() && n >= 48);
    reach!("short", n < 48);
    ob!("data shorter than a wallet header is never current generation", n >= 48 || r.is_err());
    ob!("anything else is current generation exactly with a wallet bump and zero padding", n < 48 || r.is_ok() == current(&d));
    ob!("an older wallet is refused as such", n < 48 || r.is_ok() || r == Err(ProgramError::Custom(SwigError::SignV2CannotBeUsedWithSwigV1 as u32)));
}}
//# fn is_swig_config_account
//# bounded config_0: account data of 0 bytes
//# bounded config_47: account data of 47 bytes
//# bounded config_48: account data of 48 bytes
//# bounded config_300: account data of 300 bytes
macro_rules! config {
    ($($name:ident $n:literal)*) => { $(
        harness! { #[kani::unwind(34)] $name {
            let (key, owner, d): ([u8; 32], [u8; 32], [u8; $n]) = (bytes(), bytes(), bytes());
            let mine = any::<bool>();
            let mut a = Acct::<$n>::new(key, if mine { swig::ID } else { owner }, d);
            let info = a.info();
            let r = unsafe { is_swig_config_account(&info) };
            reach!("a wallet", r || $n < 48);
            reach!("not a wallet", !r);
            ob!("a wallet account is one of the program's with a wallet header", r == ((mine || owner == swig::ID) && $n >= 48 && d.first() == Some(&1)));
        }}
    )* };
}
config!(config_0 0 config_47 47 config_48 48 config_300 300);
