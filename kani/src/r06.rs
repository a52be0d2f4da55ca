//! R06: the rent claimer's entry.  Tails of any length are Verus's
//! (verus/r06.unit); here the compiled functions on tails of at most 88 bytes.
//# cbmc --max-field-sensitivity-array-size 128
use crate::nd::{self, *};
use crate::r05::le16;
use swig_state::tail::{rent_claimer::{entry, read, read_strict}, AnyTailEntry, TailHeader, TailReadError};

pub fn is_entry(t: &[u8]) -> bool {
    t.len() == 40 && t[0] == 1 && t[1] == 1 && le16(t, 2) == 32 && t[4] == 0 && t[5] == 0 && t[6] == 0 && t[7] == 0
}
/// What the lenient reader is to say (tails of at most `most` entries).
fn first(t: &[u8], most: usize) -> Result<Option<usize>, ()> {
    let mut c = 0;
    let mut k = 0;
    while k < most && c < t.len() {
        if c + 8 > t.len() { return Err(()) }
        let end = c + 8 + le16(t, c + 2);
        if end > t.len() { return Err(()) }
        if t[c] == 1 { return if end == c + 40 { Ok(Some(c + 8)) } else { Err(()) } }
        c = end;
        k += 1;
    }
    Ok(None)
}
fn at(t: &[u8], r: &[u8; 32], off: usize) -> bool { r.as_ptr() == unsafe { t.as_ptr().add(off) } }
fn strict(t: &[u8]) {
    let r = read_strict(t);
    reach!("a claimer", matches!(r, Ok(Some(_))));
    ob!("accepted exactly if empty or one such entry", r.is_ok() == (t.is_empty() || is_entry(t)));
    if let Ok(r) = r {
        ob!("empty is no claimer", r.is_some() == !t.is_empty());
        if let Some(c) = r { ob!("the claimer of the entry", at(t, c, 8)) }
    }
}
//# fn rent_claimer::read_strict
//# bounded read_strict_48: tails of at most 48 bytes
harness! { #[kani::unwind(42)] read_strict_48 { let b = Buf::<48>::any(); strict(&b.0[..len_upto(48)]) } }
fn lenient_one(first_len: u8, second_len: u8, n: usize) {
    let mut b = Buf::<88>::any();
    b.0[2] = first_len;
    b.0[3] = 0;
    let c = 8 + first_len as usize;
    b.0[c + 2] = second_len;
    b.0[c + 3] = 0;
    let t = &b.0[..n];
    let want = first(t, 3);
    let r = read(t);
    ob!("an error exactly on a cut-off or misshapen tail", r.is_err() == want.is_err());
    if let (Ok(r), Ok(want)) = (r, want) {
        ob!("a claimer exactly if there is one", r.is_some() == want.is_some());
        if let (Some(r), Some(w)) = (r, want) { ob!("the first one", at(t, r, w)) }
    }
}
//# fn rent_claimer::read, read_first_of
//# bounded behind_empty: a claimer-sized entry behind an empty one, of any kinds
harness! { #[kani::unwind(14)] behind_empty { lenient_one(0, 32, 48) } }
//# bounded behind_eight: a claimer-sized entry behind one of 8 bytes, of any kinds
harness! { #[kani::unwind(14)] behind_eight { lenient_one(8, 32, 56) } }
//# bounded behind_claimer: an empty entry behind a claimer-sized one, of any kinds
harness! { #[kani::unwind(14)] behind_claimer { lenient_one(32, 0, 48) } }
//# bounded cut_header: a second entry cut off in its header, of any kinds
harness! { #[kani::unwind(14)] cut_header { lenient_one(8, 32, 23) } }
//# bounded cut_value: a second entry cut off in its value, of any kinds
harness! { #[kani::unwind(14)] cut_value { lenient_one(8, 32, 55) } }
//# bounded one: one claimer-sized entry, of any kinds
harness! { #[kani::unwind(14)] one { lenient_one(32, 0, 40) } }
//# bounded one_cut: one cut-off entry, of any kinds
harness! { #[kani::unwind(14)] one_cut { lenient_one(32, 0, 39) } }
//# fn rent_claimer::entry
harness! { #[kani::unwind(34)] written {
    let c: [u8; 32] = bytes();
    let e = entry(&c);
    ob!("a well-formed entry", is_entry(&e));
    ob!("reads back strictly", matches!(read_strict(&e), Ok(Some(r)) if *r == c));
    ob!("reads back leniently", matches!(read(&e), Ok(Some(r)) if *r == c));
}}
//# fn AnyTailEntry::read
//# bounded any_entry: tails of at most 56 bytes
harness! { #[kani::unwind(14)] any_entry {
    let b = Buf::<56>::any();
    let t = &b.0[..len_upto(56)];
    let whole = t.len() >= 8 && t.len() >= 8 + le16(t, 2);
    match AnyTailEntry::read(t) {
        Ok((AnyTailEntry::RentClaimer(e), n)) => ob!("a claimer", whole && t[0] == 1 && n == 40 && at(t, e.claimer, 8)),
        Ok((AnyTailEntry::Unknown(e), n)) => ob!("another kind", whole && t[0] != 1 && n == 8 + le16(t, 2) && e.value.len() == n - 8 && e.header.kind == t[0]),
        Err(_) => ob!("cut off or misshapen", !whole || (t[0] == 1 && le16(t, 2) != 32)),
    }
}}
native! { any_tail {
    let mut b = Buf::<120>::any();
    let mut c = 0;
    while c + 8 <= 120 {
        let w: u8 = any();
        if w < 220 { b.0[c] = w % 3; b.0[c + 1] = 1 + w / 200; b.0[c + 2] = [32, 0, 8, 32][w as usize % 4]; b.0[c + 3] = 0; b.0[c + 4..c + 8].fill(0); }
        c += 8 + le16(&b.0, c + 2);
    }
    let n = len_upto(120);
    let t = &b.0[..if c <= 120 && n % 2 == 0 { c } else { n }];
    ob!("lenient", read(t).map(|r| r.map(|r| r.as_ptr() as usize - t.as_ptr() as usize)).map_err(|_| ()) == first(t, 20));
    strict(t);
    strict(&t[..t.len().min(40)]);
}}
