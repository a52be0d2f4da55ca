//! R07: the tail across resizes.  Accounts of any size are Verus's
//! (verus/r07.unit); here the compiled functions on accounts of at most 96 bytes.
use crate::nd::{self, *};
use crate::r06::is_entry;
use swig_state::tail::SavedTail;

fn carried(t: &[u8], account: &mut [u8], place: Option<usize>) {
    let mut before = [0u8; 96];
    let mut i = 0;
    while i < account.len() { before[i] = account[i]; i += 1 }
    let r = SavedTail::take(t);
    ob!("taken exactly if usable", r.is_ok() == (t.is_empty() || is_entry(t)));
    let Ok(s) = r else { return };
    ob!("its length", s.len() == t.len() && s.is_empty() == t.is_empty());
    let (n, m) = (account.len(), t.len());
    let r = match place { Some(o) => s.restore_at(account, o), None => s.restore(account) };
    let want = match place {
        Some(o) => m == 0 || (o <= n && m <= n - o),
        None => m <= n,
    };
    ob!("restored exactly if it fits", r.is_ok() == want);
    let o = if want && m > 0 { place.unwrap_or(n - m) } else { n };
    let mut same = true;
    let mut i = 0;
    while i < n {
        let w = if o <= i && i < o + m { t[i - o] } else { before[i] };
        if account[i] != w { same = false }
        i += 1;
    }
    ob!("the tail in its place and every other byte as it was", same);
}
macro_rules! carries { ($name:ident, $m:literal, $n:expr, $o:expr) => {
harness! { #[kani::unwind(98)] $name {
    let t = Buf::<48>::any();
    let mut a = Buf::<96>::any();
    carried(&t.0[..$m], &mut a.0[..$n], $o);
}}
}}
//# cbmc --max-field-sensitivity-array-size 256
//# fn SavedTail::take, restore, len, is_empty
//# bounded end_whole: a 40-byte tail, an account of 96 bytes
carries!(end_whole, 40, 96, None);
//# bounded end_tight: a 40-byte tail, an account of 40 bytes
carries!(end_tight, 40, 40, None);
//# bounded end_small: a 40-byte tail, an account of 32 bytes
carries!(end_small, 40, 32, None);
//# bounded end_empty: no tail, an account of 96 bytes
carries!(end_empty, 0, 96, None);
//# bounded end_short: a tail of 39 bytes
carries!(end_short, 39, 96, None);
//# bounded end_long: a tail of 48 bytes
carries!(end_long, 48, 96, None);
//# fn SavedTail::restore_at
//# bounded at_eight: offset 8 of an account of 96 bytes
carries!(at_eight, 40, 96, Some(8));
//# bounded at_last: the last offset of an account of 96 bytes
carries!(at_last, 40, 96, Some(56));
//# bounded at_past: one too far
carries!(at_past, 40, 96, Some(57));
//# bounded at_far: offset 2^64 - 8
carries!(at_far, 40, 96, Some(usize::MAX - 7));
native! { any_resize {
    let mut t = Buf::<48>::any();
    if any::<u8>() < 200 { t.0[..8].copy_from_slice(&[1, 1, 32, 0, 0, 0, 0, 0]) }
    let m = if any::<u8>() < 200 { 40 } else { len_upto(48) };
    let mut a = Buf::<96>::any();
    let n = len_upto(96);
    let o = if any::<u8>() < 100 { None } else { Some(any::<u64>() as usize % if any::<u8>() < 250 { 100 } else { usize::MAX }) };
    carried(&t.0[..m], &mut a.0[..n], o);
}}
