verus! {
pub mod dups {
use vstd::prelude::*;
use super::base::*;
use super::kinds::*;
#[verifier::external_body]
pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == le32(b@, 0) { unimplemented!() }
pub assume_specification<T: Ord>[<[T]>::sort_unstable](s: &mut [T])
    ensures final(s)@.to_multiset() == old(s)@.to_multiset(), sorted(final(s)@);
/// Ascending in the order of the element type.
pub uninterp spec fn sorted<T>(s: Seq<T>) -> bool;
pub broadcast axiom fn sorted_u64(s: Seq<u64>) ensures #[trigger] sorted(s) ==> forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j];
/// What must be unique in a role: the right and the sub-account number.
pub open spec fn key(k: Permission, data: Seq<u8>) -> Option<(u16, u32)> {
    if k == Permission::SubAccountV2Create { Some((22, 0)) }
    else if k == Permission::SubAccountV2All || k == Permission::SubAccountV2Sign || k == Permission::SubAccountV2Withdraw || k == Permission::SubAccountV2Toggle {
        if data.len() >= 4 { Some((k as u16, le32(data, 0) as u32)) } else { None }
    } else { None }
}
pub open spec fn packed(k: (u16, u32)) -> u64 { (k.0 * 0x1_0000_0000 + k.1) as u64 }
/// The keys of the entries from offset c on.
pub open spec fn keys_from(s: Seq<u8>, c: int) -> Seq<u64> decreases s.len() - c {
    if entry_complete(s, c) && kind(entry(s, c).action_type) is Some {
        let k = key(kind(entry(s, c).action_type)->0, entry_data(s, c));
        (if k is Some { seq![packed(k->0)] } else { seq![] }) + keys_from(s, entry_end(s, c))
    } else { seq![] }
}
/// Every entry is complete and of a known kind (up to fewer than 8 trailing bytes).
pub open spec fn parses(s: Seq<u8>, c: int) -> bool decreases s.len() - c {
    c + 8 > s.len() || (entry_complete(s, c) && kind(entry(s, c).action_type) is Some && parses(s, entry_end(s, c)))
}
pub proof fn good_lists_parse(s: Seq<u8>, c: int)
    requires entries_ok(s, c), 0 <= c <= s.len()
    ensures parses(s, c)
    decreases s.len() - c
{ if c != s.len() { good_lists_parse(s, entry_end(s, c)); } }
pub proof fn packed_is_injective()
    ensures forall|a: (u16, u32), b: (u16, u32)| #![trigger packed(a), packed(b)] packed(a) == packed(b) ==> a == b
{}
pub broadcast proof fn same_duplicates(a: Seq<u64>, b: Seq<u64>)
    requires #[trigger] a.to_multiset() == #[trigger] b.to_multiset()
    ensures a.no_duplicates() == b.no_duplicates()
{
    if a.no_duplicates() { a.lemma_multiset_has_no_duplicates(); b.lemma_multiset_has_no_duplicates_conv(); }
    if b.no_duplicates() { b.lemma_multiset_has_no_duplicates(); a.lemma_multiset_has_no_duplicates_conv(); }
}
pub broadcast proof fn pack(t: u64, i: u32)
    ensures t <= 0xffff ==> #[trigger] ((t << 32) | (i as u64)) == t * 0x1_0000_0000 + i
{ assert(t <= 0xffff ==> (t << 32) | (i as u64) == t * 0x1_0000_0000u64 + i as u64) by (bit_vector); }
}
pub use dups::*;
pub struct SwigBuilder<'a> { pub role_buffer: &'a mut [u8], pub swig: &'a mut Swig }
impl<'a> SwigBuilder<'a> {
//@impl state/src/swig.rs ^impl<'a>~SwigBuilder<'a>$ calculate_num_actions
    requires $1@.len() < 0x1_0000_0000,
    ensures
        r is Ok <==> entries_ok($1@, 0) && 1 <= entries($1@, 0) <= 255,
        r is Ok ==> r->Ok_0 == entries($1@, 0),
//@loop 0
            invariant
                $1@.len() < 0x1_0000_0000, cursor <= $1@.len(),
                entries_ok($1@, 0) == entries_ok($1@, cursor as int),
                entries($1@, 0) == count + entries($1@, cursor as int),
            decreases $1@.len() - cursor
//@end
}
//@fn state/src/action/mod.rs v2_dedup_key
    ensures r == key($1, $2@)
//@sub? u32::from_le_bytes => u32_from_le_bytes
//@end
impl ActionLoader {
//@impl state/src/action/mod.rs ^impl~ActionLoader$ reject_duplicate_v2_scoped
    requires $1@.len() < 0x1_0000_0000,
    ensures
        r is Ok <==> parses($1@, 0) && keys_from($1@, 0).no_duplicates(),
//@sub for\s+pair\s+in\s+keys\.windows\(2\)\s*\{ => let mut w = 0; while w + 1 < keys.len() { let pair = [keys[w], keys[w + 1]]; let ghost next = keys@[w + 1]; assert(forall|i: int| #![trigger keys@[i]] 0 <= i <= w ==> keys@[i] <= keys@[w as int] && keys@[w as int] <= next); w = w + 1;
//@loop 0
            invariant
                $1@.len() < 0x1_0000_0000, cursor <= $1@.len(),
                parses($1@, 0) == parses($1@, cursor as int),
                keys_from($1@, 0) =~= keys@ + keys_from($1@, cursor as int),
            decreases $1@.len() - cursor
//@loop 1
            invariant
                w == 0 || w < keys@.len(),
                parses($1@, 0), keys@.to_multiset() == keys_from($1@, 0).to_multiset(), sorted(keys@),
                keys@.no_duplicates() == keys_from($1@, 0).no_duplicates(),
                forall|i: int, j: int| 0 <= i < j <= w && j < keys@.len() ==> keys@[i] != keys@[j],
            decreases keys@.len() - w
//@end
}
}
