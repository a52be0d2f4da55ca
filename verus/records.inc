use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub mod base {
use vstd::prelude::*;
#[derive(Debug)]
pub enum ProgramError { InsufficientFunds, InvalidArgument, InvalidAccountData, InvalidInstructionData, ArithmeticOverflow, Custom(u32) }
//@enum state/src/lib.rs SwigStateError
impl From<SwigStateError> for ProgramError {
    // which error code a refusal carries is not part of the property
    #[verifier::external_body]
    fn from(e: SwigStateError) -> Self { ProgramError::Custom(e as u32) }
}
//@struct state/src/role.rs Position
//@struct state/src/swig.rs Swig
//@struct state/src/action/mod.rs Action
pub open spec fn le16(s: Seq<u8>, i: int) -> int { s[i] + 256 * s[i + 1] }
pub open spec fn le32(s: Seq<u8>, i: int) -> int { le16(s, i) + 65536 * le16(s, i + 2) }
// The records' encodings: L10 and L09 prove these facts of the real types
// (every field survives encoding and decoding at its offset, any other length
// is refused, encoding the decoded bytes gives them back).
pub uninterp spec fn position(s: Seq<u8>) -> Position;
pub uninterp spec fn position_bytes(p: Position) -> Seq<u8>;
pub uninterp spec fn swig(s: Seq<u8>) -> Swig;
pub uninterp spec fn swig_bytes(p: Swig) -> Seq<u8>;
pub uninterp spec fn action(s: Seq<u8>) -> Action;
pub broadcast axiom fn position_bytes_len(p: Position) ensures #[trigger] position_bytes(p).len() == 16;
pub broadcast axiom fn position_decode_encode(p: Position) ensures position(#[trigger] position_bytes(p)) == p;
pub broadcast axiom fn position_encode_decode(s: Seq<u8>) requires s.len() == 16 ensures position_bytes(#[trigger] position(s)) == s;
pub broadcast axiom fn swig_bytes_len(p: Swig) ensures #[trigger] swig_bytes(p).len() == 48;
pub broadcast axiom fn swig_decode_encode(p: Swig) ensures swig(#[trigger] swig_bytes(p)) == p;
pub broadcast axiom fn swig_encode_decode(s: Seq<u8>) requires s.len() == 48 ensures swig_bytes(#[trigger] swig(s)) == s;
pub broadcast axiom fn action_fields(s: Seq<u8>) requires s.len() == 8
    ensures (#[trigger] action(s)).action_type == le16(s, 0), action(s).length == le16(s, 2), action(s).boundary == le32(s, 4);
pub broadcast group records { position_bytes_len, position_decode_encode, position_encode_decode, swig_bytes_len, swig_decode_encode, swig_encode_decode, action_fields }
impl Position {
    pub const LEN: usize = 16;
    #[verifier::external_body]
    pub unsafe fn load_unchecked(bytes: &[u8]) -> (r: Result<&Position, ProgramError>)
        ensures bytes@.len() == 16 ==> r is Ok && *r->Ok_0 == position(bytes@), bytes@.len() != 16 ==> r is Err
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn load_mut_unchecked(bytes: &mut [u8]) -> (r: Result<&mut Position, ProgramError>)
        ensures
            old(bytes)@.len() == 16 ==> r is Ok && *r->Ok_0 == position(old(bytes)@) && final(bytes)@ == position_bytes(*final(r->Ok_0)),
            old(bytes)@.len() != 16 ==> r is Err && final(bytes)@ == old(bytes)@
    { unimplemented!() }
//@impl state/src/role.rs ^impl~Position$ id
    ensures r == self.id
//@end
//@impl state/src/role.rs ^impl~Position$ boundary
    ensures r == self.boundary
//@end
//@impl state/src/role.rs ^impl~Position$ authority_length
    ensures r == self.authority_length
//@end
//@impl state/src/role.rs ^impl~Position$ num_actions
    ensures r == self.num_actions
//@end
}
impl Swig {
    pub const LEN: usize = 48;
    #[verifier::external_body]
    pub unsafe fn load_unchecked(bytes: &[u8]) -> (r: Result<&Swig, ProgramError>)
        ensures bytes@.len() == 48 ==> r is Ok && *r->Ok_0 == swig(bytes@), bytes@.len() != 48 ==> r is Err
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn load_mut_unchecked(bytes: &mut [u8]) -> (r: Result<&mut Swig, ProgramError>)
        ensures
            old(bytes)@.len() == 48 ==> r is Ok && *r->Ok_0 == swig(old(bytes)@) && final(bytes)@ == swig_bytes(*final(r->Ok_0)),
            old(bytes)@.len() != 48 ==> r is Err && final(bytes)@ == old(bytes)@
    { unimplemented!() }
}
impl Action {
    pub const LEN: usize = 8;
    #[verifier::external_body]
    pub unsafe fn load_unchecked(bytes: &[u8]) -> (r: Result<&Action, ProgramError>)
        ensures bytes@.len() == 8 ==> r is Ok && *r->Ok_0 == action(bytes@), bytes@.len() != 8 ==> r is Err
    { unimplemented!() }
//@impl state/src/action/mod.rs ^impl~Action$ length
    ensures r == self.length
//@end
//@impl state/src/action/mod.rs ^impl~Action$ boundary
    ensures r == self.boundary
//@end
}

// ---- the list of roles
/// The role header at offset c of the roles region.
pub open spec fn header(s: Seq<u8>, c: int) -> Position { position(s.subrange(c, c + 16)) }
/// A complete role lies at offset c.
pub open spec fn role_at(s: Seq<u8>, c: int) -> bool {
    0 <= c && c + 16 <= s.len() && c + 16 <= header(s, c).boundary <= s.len()
}
/// Where k more roles, starting at offset c, end; -1 if they are not all complete.
pub open spec fn walk(s: Seq<u8>, c: int, k: nat) -> int decreases k {
    if k == 0 { c } else if role_at(s, c) { walk(s, header(s, c).boundary as int, (k - 1) as nat) } else { -1 }
}
}
pub use base::*;
}
