//! L07: permission lookup.  Lists of any length are Verus's (verus/l07.unit);
//! here the compiled functions on lists of one, two or three entries of the kind looked for, one other 8-byte kind and one marker, at most 64 bytes (quick: a subset of those with three); contents unrestricted.
use crate::nd::{self, *};
use swig_state::action::{all::All, sol_limit::SolLimit, sub_account_v2::SubAccountV2Sign, token_limit::TokenLimit, Action, ActionLoader, Actionable};
use swig_state::authority::{ed25519::ED25519Authority, AuthorityType};
use swig_state::role::{Position, Role, RoleMut};
use swig_state::{IntoBytes, Transmutable};

const MAX: usize = 64;
/// A well-formed permission list: the kinds are given, the contents arbitrary.
struct List {
    b: Buf<MAX>,
    len: usize,
    n: usize,
    /// code and offset of the header of each entry
    code: [u16; 3],
    at: [usize; 3],
}
fn size(code: u16) -> usize {
    match code { 5 => 40, 7 | 15 => 0, _ => 8 }
}
fn list(codes: &[u16]) -> List {
    let mut l = List { b: Buf::any(), len: 0, n: codes.len(), code: [0; 3], at: [0; 3] };
    let mut i = 0;
    while i < codes.len() {
        let end = l.len + 8 + size(codes[i]);
        let head = [codes[i] as u8, 0, size(codes[i]) as u8, 0, end as u8, 0, 0, 0];
        let mut j = 0;
        while j < 8 {
            l.b.0[l.len + j] = head[j];
            j += 1;
        }
        l.code[i] = codes[i];
        l.at[i] = l.len;
        l.len = end;
        i += 1;
    }
    l
}
/// Every list of one, two or three entries of the kinds `own` and the two
/// others (an unrelated marker and an unrelated record).  The quick tier takes
/// of those with three only the ones that end in two of kind `own`.
fn every(own: u16, most: usize, f: fn(List)) {
    let kinds = [own, 10, 15];
    let mut n = 1;
    while n <= most {
        let mut k = 0;
        while k < [3, 9, 27][n - 1] {
            let codes = [kinds[k % 3], kinds[(k / 3) % 3], kinds[k / 9]];
            let mut len = 0;
            let mut i = 0;
            while i < n { len += 8 + size(codes[i]); i += 1; }
            if len <= MAX && (n < 3 || cfg!(feature = "thorough") || (codes[1] == own && codes[2] == own)) { f(list(&codes[..n])) }
            k += 1;
        }
        n += 1;
    }
}
/// Offset of the data of the first entry of that kind whose first `k` data
/// bytes are the subject.
fn want(l: &List, code: u16, subject: &[u8], k: usize) -> Option<usize> {
    let mut i = 0;
    while i < 3 {
        if i < l.n && l.code[i] == code {
            let d = l.at[i] + 8;
            let mut eq = true;
            let mut j = 0;
            while j < k {
                if l.b.0[d + j] != subject[j] { eq = false }
                j += 1;
            }
            if eq { return Some(d) }
        }
        i += 1;
    }
    None
}
fn offset<T>(p: Option<&T>, base: *const u8) -> Option<usize> {
    p.map(|r| (r as *const T as *const u8 as usize) - base as usize)
}
macro_rules! lookup {
    ($name:ident, $mutable:ident, $t:ty, $code:expr, $k:expr) => {
        harness! { #[kani::unwind(42)] $name {
            every($code, 3, |l| {
            let subject: [u8; 32] = bytes();
            let want = want(&l, $code, &subject, $k);
            let auth = ED25519Authority::from_create_bytes(&[7u8; 32]).unwrap();
            let pos = Position::new(AuthorityType::Ed25519, any(), 32, l.n as u16, any());
            let base = l.b.0.as_ptr();
            let role = Role { position: &pos, authority: &auth, actions: &l.b.0[..l.len] };
            let r = role.get_action::<$t>(&subject[..$k]);
            reach!("found", matches!(r, Ok(Some(_))));
            reach!("a later entry is found", want.is_some() && want != Some(8));
            ob!("a lookup in a well-formed list answers", r.is_ok());
            ob!("the first entry that fits is returned, or nothing", offset(r.unwrap(), base) == want);
            })
        }}
        harness! { #[kani::unwind(42)] $mutable {
            every($code, 3, |l| {
            let subject: [u8; 32] = bytes();
            let want = want(&l, $code, &subject, $k);
            let mut auth = ED25519Authority::from_create_bytes(&[7u8; 32]).unwrap();
            let pos = Position::new(AuthorityType::Ed25519, any(), 32, l.n as u16, any());
            let (mut b, before, len) = (l.b, l.b, l.len);
            let base = b.0.as_ptr();
            {
                let role = RoleMut { position: &pos, authority: &mut auth, num_actions: l.n as u8, actions: &mut b.0[..len] };
                let r = role.get_action::<$t>(&subject[..$k]);
                ob!("the modifiable view answers the same", matches!(r, Ok(p) if offset(p, base) == want));
            }
            let r = RoleMut::get_action_mut::<$t>(&mut b.0[..len], &subject[..$k]);
            ob!("a lookup for modification addresses the same entry", match r { Ok(p) => offset(p.map(|x| &*x), base) == want, Err(_) => false });
            let i: usize = any();
            assume(i < MAX);
            ob!("looking up changes nothing", b.0[i] == before.0[i]);
            })
        }}
    };
}
//# fn Role::get_action
//# bounded sol_limit: lists of one, two or three entries of the kind looked for, one other 8-byte kind and one marker, at most 64 bytes (quick: a subset of those with three); contents unrestricted
lookup!(sol_limit, sol_limit_mut, SolLimit, 1, 0);
//# bounded sol_limit_mut: lists of one, two or three entries of the kind looked for, one other 8-byte kind and one marker, at most 64 bytes (quick: a subset of those with three); contents unrestricted
//# fn RoleMut::get_action, RoleMut::get_action_mut
//# bounded token_limit: lists of one, two or three entries of the kind looked for, one other 8-byte kind and one marker, at most 64 bytes (quick: a subset of those with three); contents unrestricted
//# bounded token_limit_mut: lists of one, two or three entries of the kind looked for, one other 8-byte kind and one marker, at most 64 bytes (quick: a subset of those with three); contents unrestricted
lookup!(token_limit, token_limit_mut, TokenLimit, 5, 32);
//# bounded v2_sign: lists of one, two or three entries of the kind looked for, one other 8-byte kind and one marker, at most 64 bytes (quick: a subset of those with three); contents unrestricted
//# bounded v2_sign_mut: lists of one, two or three entries of the kind looked for, one other 8-byte kind and one marker, at most 64 bytes (quick: a subset of those with three); contents unrestricted
lookup!(v2_sign, v2_sign_mut, SubAccountV2Sign, 24, 4);
//# bounded marker: lists of one, two or three entries of the kind looked for, one other 8-byte kind and one marker, at most 64 bytes (quick: a subset of those with three); contents unrestricted
//# bounded marker_mut: lists of one, two or three entries of the kind looked for, one other 8-byte kind and one marker, at most 64 bytes (quick: a subset of those with three); contents unrestricted
lookup!(marker, marker_mut, All, 7, 0);

//# fn Role::get_all_actions, Role::get_all_actions_of_type
//# bounded listing: lists of one, two or three entries of the kind looked for, one other 8-byte kind and one marker, at most 64 bytes (quick: a subset of those with three); contents unrestricted
harness! { #[kani::unwind(42)] listing {
    every(1, 3, |l| {
    let auth = ED25519Authority::from_create_bytes(&[7u8; 32]).unwrap();
    let pos = Position::new(AuthorityType::Ed25519, any(), 32, l.n as u16, any());
    let base = l.b.0.as_ptr();
    let role = Role { position: &pos, authority: &auth, actions: &l.b.0[..l.len] };
    let all = role.get_all_actions();
    ob!("listing a well-formed list answers", all.is_ok());
    let all = all.unwrap();
    ob!("every entry is listed once", all.len() == l.n);
    let mut i = 0;
    while i < l.n {
        ob!("and in order", offset(Some(all[i]), base) == Some(l.at[i]));
        i += 1;
    }
    })
}}
//# bounded listing_of_kind: lists of one, two or three entries of the kind looked for, one other 8-byte kind and one marker, at most 64 bytes (quick: a subset of those with three); contents unrestricted
harness! { #[kani::unwind(42)] listing_of_kind {
    every(1, 3, |l| {
    let auth = ED25519Authority::from_create_bytes(&[7u8; 32]).unwrap();
    let pos = Position::new(AuthorityType::Ed25519, any(), 32, l.n as u16, any());
    let base = l.b.0.as_ptr();
    let role = Role { position: &pos, authority: &auth, actions: &l.b.0[..l.len] };
    let some = role.get_all_actions_of_type::<SolLimit>();
    ob!("listing a kind answers", some.is_ok());
    let some = some.unwrap();
    let mut k = 0;
    let mut i = 0;
    while i < l.n {
        if l.code[i] == 1 {
            ob!("every entry of the kind is listed, in order", k < some.len() && offset(Some(some[k]), base) == Some(l.at[i] + 8));
            k += 1;
        }
        i += 1;
    }
    reach!("several", k == 3);
    ob!("no other entry is listed", k == some.len());
    })
}}
macro_rules! find {
    ($name:ident, $t:ty, $code:expr) => {
        harness! { #[kani::unwind(42)] $name {
            every($code, 3, |l| {
            let base = l.b.0.as_ptr();
            let want = want(&l, $code, &[], 0);
            reach!("a later entry is found", want.is_some() && want != Some(8));
            ob!("the first entry of the kind, or nothing", matches!(ActionLoader::find_action::<$t>(&l.b.0[..l.len]), Ok(p) if offset(p, base) == want));
            })
        }}
    };
}
//# fn ActionLoader::find_action
//# bounded find_8: lists of one, two or three entries of the kind looked for, one other 8-byte kind and one marker, at most 64 bytes (quick: a subset of those with three); contents unrestricted
find!(find_8, SolLimit, 1);
//# bounded find_40: lists of one, two or three entries of the kind looked for, one other 8-byte kind and one marker, at most 64 bytes (quick: a subset of those with three); contents unrestricted
find!(find_40, TokenLimit, 5);
//# bounded find_marker: lists of one, two or three entries of the kind looked for, one other 8-byte kind and one marker, at most 64 bytes (quick: a subset of those with three); contents unrestricted
find!(find_marker, All, 7);
