verus! {
pub mod kinds {
use vstd::prelude::*;
use super::base::*;
#[derive(Clone, Copy, PartialEq, Eq)]
//@enum state/src/action/mod.rs Permission
/// The kind with this code, if any (L09 proves the decoding).
pub uninterp spec fn kind(code: u16) -> Option<Permission>;
pub broadcast axiom fn kind_code(code: u16) ensures #[trigger] kind(code) is Some ==> kind(code)->0 as u16 == code && code <= 26, kind(code) is None ==> code > 26;
/// Is this a valid configuration of the kind (what L08 speaks about).
pub uninterp spec fn valid(k: Permission, data: Seq<u8>) -> bool;
impl Action {
    #[verifier::external_body]
    pub fn permission(&self) -> (r: Result<Permission, ProgramError>)
        ensures r is Ok <==> kind(self.action_type) is Some, r is Ok ==> r->Ok_0 == kind(self.action_type)->0
    { unimplemented!() }
}
pub struct ActionLoader;
impl ActionLoader {
    #[verifier::external_body]
    pub fn validate_layout(permission: Permission, data: &[u8]) -> (r: Result<bool, ProgramError>)
        ensures (r is Ok && r->Ok_0) == valid(permission, data@)
    { unimplemented!() }
}
// ---- permission lists as they are offered: header, data, header, data, ...
pub open spec fn entry(s: Seq<u8>, c: int) -> Action { action(s.subrange(c, c + 8)) }
pub open spec fn entry_end(s: Seq<u8>, c: int) -> int { c + 8 + entry(s, c).length as int }
/// The header and data of the entry at c lie inside the list.
pub open spec fn entry_complete(s: Seq<u8>, c: int) -> bool {
    0 <= c && c + 8 <= s.len() && entry_end(s, c) <= s.len()
}
pub open spec fn entry_data(s: Seq<u8>, c: int) -> Seq<u8> { s.subrange(c + 8, entry_end(s, c)) }
/// A complete entry of a known kind with a valid configuration.
pub open spec fn entry_ok(s: Seq<u8>, c: int) -> bool {
    entry_complete(s, c) && kind(entry(s, c).action_type) is Some && valid(kind(entry(s, c).action_type)->0, entry_data(s, c))
}
/// From offset c on the list consists of good entries that cover it exactly.
pub open spec fn entries_ok(s: Seq<u8>, c: int) -> bool decreases s.len() - c {
    c == s.len() || (entry_ok(s, c) && entries_ok(s, entry_end(s, c)))
}
/// The number of good entries from offset c on.
pub open spec fn entries(s: Seq<u8>, c: int) -> nat decreases s.len() - c {
    if entry_ok(s, c) { 1 + entries(s, entry_end(s, c)) } else { 0 }
}
}
pub use kinds::*;
}
