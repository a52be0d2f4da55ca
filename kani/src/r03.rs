//! R03: finding roles.  Wallets of any size are Verus's (verus/r03.unit, where
//! recognising an identity is A09's); here the compiled functions on wallets of
//! two or three roles.
//# cbmc --max-field-sensitivity-array-size 512
use crate::nd::{self, *};
use crate::r01::put16;
use crate::r02::{roles, MAX};
use crate::r05::le16;
use swig_state::swig::{Swig, SwigWithRoles};

const LEN: [usize; 9] = [0, 32, 80, 40, 88, 40, 88, 80, 128];
const KEY: [usize; 9] = [0, 32, 32, 33, 33, 33, 33, 32, 32];
/// A wallet of roles of these types with so many bytes of permissions each.
struct Wallet { b: [u8; 48 + MAX], len: usize, at: [usize; 4], n: usize }
fn wallet(types: &[usize], acts: &[usize], id: [u8; 3]) -> Wallet {
    let mut sizes = [0; 3];
    let mut i = 0;
    while i < types.len() { sizes[i] = LEN[types[i]] + acts[i]; i += 1 }
    let mut r = roles(&sizes[..types.len()], id);
    let mut i = 0;
    while i < types.len() {
        put16(&mut r.b.0, r.at[i], types[i]);
        put16(&mut r.b.0, r.at[i] + 2, LEN[types[i]]);
        i += 1;
    }
    let head = Buf::<48>::any();
    let mut b = [0u8; 48 + MAX];
    let mut i = 0;
    while i < 48 { b[i] = head.0[i]; i += 1 }
    while i < 48 + MAX { b[i] = r.b.0[i - 48]; i += 1 }
    put16(&mut b, 34, types.len());
    Wallet { b, len: r.len, at: r.at, n: types.len() }
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    let mut e = a.len() == b.len();
    let mut i = 0;
    while e && i < a.len() { if a[i] != b[i] { e = false } i += 1 }
    e
}
#[repr(align(8))]
struct Al<T>(T);
fn get(types: &[usize], acts: &[usize], id: [u8; 3], target: u8) {
    let w = wallet(types, acts, id);
    let mut t = 0;
    while t < w.n && id[t] != target { t += 1 }
    let b = Al(w.b);
    let b = &b.0[..48 + w.len];
    let s = SwigWithRoles::from_bytes(b);
    ob!("the wallet is read", s.is_ok());
    let Ok(s) = s else { return };
    let r = s.get_role(target as u32);
    let mut m = Al(w.b);
    let before = &w.b[48..48 + w.len];
    if t == w.n {
        ob!("an id not held is not found", matches!(r, Ok(None)));
        let region = &mut m.0[48..48 + w.len];
        ob!("nor in the modifiable view", matches!(Swig::get_mut_role(target as u32, region), Ok(None)));
        ob!("and nothing changes", eq(&m.0[48..48 + w.len], before));
        return;
    }
    let (at, a, end) = (w.at[t] + 16, w.at[t] + 16 + LEN[types[t]], w.at[t + 1]);
    ob!("a held id is found", matches!(r, Ok(Some(_))));
    let Ok(Some(r)) = r else { return };
    ob!("with its own header", r.position.id() == target as u32 && r.position.boundary() as usize == end && r.position.num_actions() as usize == le16(before, at - 12));
    ob!("its own permissions", r.actions.as_ptr() == unsafe { b.as_ptr().add(48 + a) } && r.actions.len() == end - a);
    ob!("its own authority", r.authority.authority_type() as usize == types[t] && r.authority.length() == LEN[types[t]]);
    ob!("the authority in its own record", r.authority as *const _ as *const u8 == unsafe { b.as_ptr().add(48 + at) });
    let base = m.0.as_ptr() as usize;
    let region = &mut m.0[48..48 + w.len];
    let g = Swig::get_mut_role(target as u32, region);
    ob!("a held id is found for modification", matches!(g, Ok(Some(_))));
    let Ok(Some(g)) = g else { return };
    ob!("the same header", g.position.id() == target as u32 && g.position.boundary() as usize == end && g.num_actions == before[at - 12]);
    ob!("the same permissions", g.actions.as_ptr() as usize == base + 48 + a && g.actions.len() == end - a);
    ob!("the same authority", g.authority.authority_type() as usize == types[t] && &*g.authority as *const _ as *const u8 as usize == base + 48 + at);
}
macro_rules! gets { ($name:ident, $types:expr, $acts:expr, $ids:expr, $target:expr) => {
harness! { #[kani::unwind(380)] $name { get(&$types, &$acts, $ids, $target) } }
}}
//# fn SwigWithRoles::get_role, Swig::get_mut_role
//# bounded first_ed25519: the first of two roles, Ed25519
gets!(first_ed25519, [1, 2], [8, 16], [4, 9, 0], 4);
//# bounded last_ed25519_session: the last of two roles, Ed25519Session
gets!(last_ed25519_session, [1, 2], [8, 16], [4, 9, 0], 9);
//# bounded secp256k1: the middle of three roles, Secp256k1
gets!(secp256k1, [1, 3, 5], [8, 24, 0], [4, 9, 7], 9);
//# bounded secp256k1_session: the only role, Secp256k1Session
gets!(secp256k1_session, [4], [40], [2, 0, 0], 2);
//# bounded secp256r1: the last of three roles, Secp256r1
gets!(secp256r1, [1, 3, 5], [8, 24, 16], [4, 9, 7], 7);
//# bounded secp256r1_session: the last of two roles, Secp256r1Session
gets!(secp256r1_session, [1, 6], [8, 8], [4, 9, 7], 9);
//# bounded programexec: the first of two roles, ProgramExec
gets!(programexec, [7, 1], [8, 8], [1, 2, 0], 1);
//# bounded programexec_session: the last of two roles, ProgramExecSession
gets!(programexec_session, [1, 8], [8, 8], [1, 2, 0], 2);
//# bounded absent: an id not held by any of three roles
gets!(absent, [1, 3, 1], [8, 8, 0], [3, 2, 1], 0);
fn lookup(types: &[usize], acts: &[usize], id: [u8; 3], which: usize) {
    let w = wallet(types, acts, id);
    // the identity of role `which`, or any
    let mut key = [0u8; 33];
    if which < w.n {
        let mut i = 0;
        while i < 33 { key[i] = w.b[48 + w.at[which] + 16 + i]; i += 1 }
    } else { key = bytes() }
    let n = if which < w.n { KEY[types[which]] } else { 32 };
    let b = Al(w.b);
    let Ok(s) = SwigWithRoles::from_bytes(&b.0[..48 + w.len]) else { return };
    let mut t = 0;
    while t < w.n && !(KEY[types[t]] == n && eq(&w.b[48 + w.at[t] + 16..][..n], &key[..n])) { t += 1 }
    let r = s.lookup_role_id(&key[..n]);
    if t == w.n { ob!("an unknown identity is not found", matches!(r, Ok(None))) }
    else { ob!("the first role of the identity is found", matches!(r, Ok(Some(i)) if i == id[t] as u32)) }
}
macro_rules! looks { ($name:ident, $types:expr, $acts:expr, $ids:expr, $which:expr) => {
harness! { #[kani::unwind(380)] $name { lookup(&$types, &$acts, $ids, $which) } }
}}
//# fn SwigWithRoles::lookup_role_id
//# bounded lookup_second: the identity of the second of two Ed25519 roles (which the first may share)
looks!(lookup_second, [1, 1], [8, 16], [4, 9, 0], 1);
//# bounded lookup_session: the identity of an Ed25519Session role behind an Ed25519 role
looks!(lookup_session, [1, 2], [8, 16], [4, 9, 0], 1);
//# bounded lookup_secp: the identity of a Secp256r1 role behind a Secp256k1 role
looks!(lookup_secp, [3, 5], [8, 0], [6, 2, 0], 1);
//# bounded lookup_any: any 32-byte identity with two roles
looks!(lookup_any, [2, 1], [0, 8], [6, 2, 0], 2);
native! { any_role {
    let mut types = [0; 3];
    let mut acts = [0; 3];
    for i in 0..3 { types[i] = 1 + any::<u8>() as usize % 8; acts[i] = 8 * (any::<u8>() as usize % 3) }
    let n = 1 + any::<u8>() as usize % 2;
    if n == 2 && LEN[types[0]] + LEN[types[1]] > 200 { types[1] = 1 }
    let id = [any::<u8>() % 4, 4 + any::<u8>() % 4, 8 + any::<u8>() % 4];
    get(&types[..n], &acts[..n], id, any::<u8>() % 12);
    // identities of the other types are A09's
    let t = [1, 2, 3, 5][any::<u8>() as usize % 4];
    let u = [1, 2, 3, 5][any::<u8>() as usize % 4];
    lookup(&[t, u], &acts[..2], id, any::<u8>() as usize % 3);
}}
