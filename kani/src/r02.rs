//! R02: removing a role.  Wallets of any size are Verus's (verus/r02.unit);
//! here the compiled function on wallets of two or three roles.
//# cbmc --max-field-sensitivity-array-size 512
use crate::nd::{self, *};
use swig_state::swig::{Swig, SwigBuilder};

pub const MAX: usize = 320;
/// A roles region: role i has `sizes[i]` bytes of authority and permissions.
pub struct Roles { pub b: Buf<MAX>, pub len: usize, pub n: usize, pub at: [usize; 4], pub id: [u8; 3] }
pub fn roles(sizes: &[usize], id: [u8; 3]) -> Roles {
    let mut r = Roles { b: Buf::any(), len: 0, n: sizes.len(), at: [0; 4], id };
    let mut i = 0;
    while i < sizes.len() {
        let end = r.len + 16 + sizes[i];
        r.at[i] = r.len;
        let head = [id[i], 0, 0, 0, end as u8, (end >> 8) as u8, 0, 0];
        let mut j = 0;
        while j < 8 {
            r.b.0[r.len + 8 + j] = head[j];
            j += 1;
        }
        r.len = end;
        i += 1;
    }
    r.at[sizes.len()] = r.len;
    r
}
fn remove(sizes: &[usize], id: [u8; 3], target: u8) {
    let r = roles(sizes, id);
    let mut b = r.b;
    let mut swig = Swig::new(bytes(), any(), any());
    swig.roles = r.n as u16;
    swig.role_counter = any();
    swig.sub_account_counter = any();
    let (counter, subs, sid) = (swig.role_counter, swig.sub_account_counter, swig.id);
    let got = SwigBuilder { role_buffer: &mut b.0[..r.len], swig: &mut swig }.remove_role(target as u32);
    let mut t = 0;
    while t < r.n && id[t] != target { t += 1 }
    if t == r.n {
        ob!("an unknown id is refused", got.is_err());
        let mut same = true;
        let mut i = 0;
        while i < r.len { if b.0[i] != r.b.0[i] { same = false } i += 1 }
        ob!("and changes nothing", same && swig.roles == r.n as u16);
    } else {
        let size = r.at[t + 1] - r.at[t];
        let keep = r.len - size;
        ob!("a held role is removed and the freed bytes are reported", matches!(got, Ok(x) if x == (keep, size)));
        let mut same = true;
        let mut zero = true;
        let mut i = 0;
        while i < r.len {
            if i >= keep { if b.0[i] != 0 { zero = false } }
            else {
                let from = if i < r.at[t] { i } else { i + size };
                // stored ends are checked below
                let mut end = false;
                let mut k = 0;
                while k < r.n { if from >= r.at[k] + 12 && from < r.at[k] + 16 { end = true } k += 1 }
                if !end && b.0[i] != r.b.0[from] { same = false }
            }
            i += 1;
        }
        ob!("the freed bytes are zero", zero);
        ob!("the other roles keep every byte, in order", same);
        let mut ends = true;
        let mut k = 0;
        while k < r.n {
            if k != t {
                let (h, e) = if k < t { (r.at[k], r.at[k + 1]) } else { (r.at[k] - size, r.at[k + 1] - size) };
                if b.0[h + 12] as usize | (b.0[h + 13] as usize) << 8 | (b.0[h + 14] as usize) << 16 | (b.0[h + 15] as usize) << 24 != e { ends = false }
            }
            k += 1;
        }
        ob!("and their own ends", ends);
        ob!("one role fewer", swig.roles == r.n as u16 - 1);
    }
    ob!("nothing else of the wallet changes", swig.role_counter == counter && swig.sub_account_counter == subs && swig.id[31] == sid[31]);
}
//# fn SwigBuilder::remove_role
//# bounded first: the first of three roles
harness! { #[kani::unwind(245)] first { remove(&[48, 40, 56], [3, 7, 250], 3) } }
//# bounded middle: the second of three roles
harness! { #[kani::unwind(245)] middle { remove(&[40, 64, 48], [0, 1, 2], 1) } }
//# bounded last: the last of three roles
harness! { #[kani::unwind(245)] last { remove(&[40, 40, 96], [5, 4, 3], 3) } }
//# bounded only: the only role
harness! { #[kani::unwind(245)] only { remove(&[48], [9, 0, 0], 9) } }
//# bounded absent: an id not held
harness! { #[kani::unwind(245)] absent { remove(&[40, 64], [9, 8, 7], 7) } }
native! { any_wallet {
    let n = 1 + any::<u8>() as usize % 3;
    let mut s = [0; 3];
    for i in 0..3 { s[i] = 8 * (any::<u8>() as usize % 8) }
    let id = [any::<u8>() % 4, 4 + any::<u8>() % 4, 8 + any::<u8>() % 4];
    remove(&s[..n], id, any::<u8>() % 12);
}}
