verus! {
pub mod roles {
use vstd::prelude::*;
use super::base::*;
/// What a role is, wherever it lies: its header (without the stored end) and
/// the bytes that follow it up to its end.
pub struct Content { pub authority_type: u16, pub authority_length: u16, pub num_actions: u16, pub id: u32, pub data: Seq<u8> }
pub open spec fn end_at(s: Seq<u8>, c: int) -> int { header(s, c).boundary as int }
pub open spec fn content_at(s: Seq<u8>, c: int) -> Content {
    let h = header(s, c);
    Content { authority_type: h.authority_type, authority_length: h.authority_length, num_actions: h.num_actions, id: h.id, data: s.subrange(c + 16, h.boundary as int) }
}
/// The k roles that start at offset c.
pub open spec fn contents(s: Seq<u8>, c: int, k: nat) -> Seq<Content> decreases k {
    if k == 0 { seq![] } else { seq![content_at(s, c)] + contents(s, end_at(s, c), (k - 1) as nat) }
}
/// Index of the first of the k roles from c with this id; k if there is none.
pub open spec fn find(s: Seq<u8>, c: int, k: nat, id: u32) -> int decreases k {
    if k == 0 { 0 } else if header(s, c).id == id { 0 } else { 1 + find(s, end_at(s, c), (k - 1) as nat, id) }
}
pub open spec fn unique(r: Seq<Content>) -> bool { forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).id != (#[trigger] r[j]).id }
pub proof fn contents_len(s: Seq<u8>, c: int, k: nat) ensures contents(s, c, k).len() == k decreases k
{ if k > 0 { contents_len(s, end_at(s, c), (k - 1) as nat); } }
/// A complete list of roles stays within the bytes.
pub proof fn walk_bounds(s: Seq<u8>, c: int, k: nat)
    requires walk(s, c, k) >= 0, 0 <= c <= s.len()
    ensures c + 16 * k <= walk(s, c, k) <= s.len()
    decreases k
{ if k > 0 { walk_bounds(s, end_at(s, c), (k - 1) as nat); } }
/// The first a of a + b roles.
pub proof fn split(s: Seq<u8>, c: int, a: nat, b: nat)
    requires walk(s, c, a) >= 0, 0 <= c <= s.len()
    ensures
        walk(s, c, a + b) == walk(s, walk(s, c, a), b),
        contents(s, c, a + b) == contents(s, c, a) + contents(s, walk(s, c, a), b),
    decreases a
{
    if a > 0 {
        split(s, end_at(s, c), (a - 1) as nat, b);
        assert((a + b - 1) as nat == (a - 1) as nat + b);
        assert(contents(s, c, a + b) =~= contents(s, c, a) + contents(s, walk(s, c, a), b));
    } else {
        assert(contents(s, c, a + b) =~= contents(s, c, a) + contents(s, walk(s, c, a), b));
    }
}
/// The j-th of k roles.
pub proof fn nth(s: Seq<u8>, c: int, k: nat, j: nat)
    requires walk(s, c, k) >= 0, 0 <= c <= s.len(), j < k
    ensures
        walk(s, c, j) >= 0, role_at(s, walk(s, c, j)),
        contents(s, c, k)[j as int] == content_at(s, walk(s, c, j)),
        walk(s, c, j + 1) == end_at(s, walk(s, c, j)),
        walk(s, walk(s, c, j + 1), (k - j - 1) as nat) == walk(s, c, k),
        c + 16 * j <= walk(s, c, j), walk(s, c, j) + 16 <= walk(s, c, j + 1) <= walk(s, c, k) <= s.len(),
{
    assert((j + (k - j)) as nat == k);
    prefix(s, c, j, (k - j) as nat);
    split(s, c, j, (k - j) as nat);
    contents_len(s, c, j);
    walk_bounds(s, c, k);
    walk_bounds(s, c, j);
    let d = walk(s, c, j);
    split(s, c, j, 1);
    assert(walk(s, d, 1) == end_at(s, d)) by { assert(walk(s, end_at(s, d), 0) == end_at(s, d)); }
    prefix(s, c, j + 1, (k - j - 1) as nat);
    split(s, c, j + 1, (k - j - 1) as nat);
    walk_bounds(s, end_at(s, d), (k - j - 1) as nat);
}
/// If more roles are complete, so are the first.
pub proof fn prefix(s: Seq<u8>, c: int, a: nat, b: nat)
    requires walk(s, c, a + b) >= 0, 0 <= c <= s.len()
    ensures walk(s, c, a) >= 0
    decreases a
{ if a > 0 { assert((a + b - 1) as nat == (a - 1) as nat + b); prefix(s, end_at(s, c), (a - 1) as nat, b); } }
/// Roles depend on their own bytes only.
pub proof fn same(s: Seq<u8>, t: Seq<u8>, c: int, k: nat)
    requires
        walk(s, c, k) >= 0, 0 <= c <= s.len(), walk(s, c, k) <= t.len(),
        forall|i: int| c <= i < walk(s, c, k) ==> s[i] == t[i],
    ensures walk(t, c, k) == walk(s, c, k), contents(t, c, k) == contents(s, c, k)
    decreases k
{
    if k > 0 {
        let e = end_at(s, c);
        walk_bounds(s, c, k);
        walk_bounds(s, e, (k - 1) as nat);
        assert(t.subrange(c, c + 16) =~= s.subrange(c, c + 16));
        assert(t.subrange(c + 16, e) =~= s.subrange(c + 16, e));
        same(s, t, e, (k - 1) as nat);
    }
}
/// `find` and the contents agree.
pub proof fn found(s: Seq<u8>, c: int, k: nat, id: u32)
    requires walk(s, c, k) >= 0
    ensures
        0 <= find(s, c, k, id) <= k,
        find(s, c, k, id) < k ==> contents(s, c, k)[find(s, c, k, id)].id == id,
        forall|i: int| 0 <= i < find(s, c, k, id) ==> (#[trigger] contents(s, c, k)[i]).id != id,
    decreases k
{
    contents_len(s, c, k);
    if k > 0 {
        found(s, end_at(s, c), (k - 1) as nat, id);
        contents_len(s, end_at(s, c), (k - 1) as nat);
        assert forall|i: int| 0 <= i < find(s, c, k, id) implies (#[trigger] contents(s, c, k)[i]).id != id by {
            if i > 0 { assert(contents(s, c, k)[i] == contents(s, end_at(s, c), (k - 1) as nat)[i - 1]); }
        }
    }
}
}
pub use roles::*;
}
