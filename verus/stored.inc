verus! {
pub mod stored_authorities {
use vstd::prelude::*;
use super::base::*;
use super::authorities::*;
/// A stored authority seen as `dyn AuthorityInfo`: its type code and record.
pub struct Stored { pub bytes: Vec<u8> }
impl Stored {
    pub uninterp spec fn code(&self) -> u16;
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn match_data(&self, data: &[u8]) -> (r: bool) ensures r == recognises(self.code(), self.bytes(), data@) { unimplemented!() }
}
/// Does the authority recognise this identity (A09 decides it for the real types).
pub uninterp spec fn recognises(code: u16, bytes: Seq<u8>, data: Seq<u8>) -> bool;
/// Unchecked access, with its condition as an obligation.
#[verifier::external_body]
pub unsafe fn range_of(s: &[u8], r: core::ops::Range<usize>) -> (t: &[u8])
    requires r.start <= r.end <= s@.len()
    ensures t@ == s@.subrange(r.start as int, r.end as int)
{ unimplemented!() }
impl Position {
    // L09 proves the decoding
    #[verifier::external_body]
    pub fn authority_type(&self) -> (r: Result<AuthorityType, ProgramError>)
        ensures r is Ok <==> 1 <= self.authority_type <= 8, r is Ok ==> r->Ok_0 as u16 == self.authority_type
    { unimplemented!() }
}
impl ED25519Authority {
    #[verifier::external_body]
    pub unsafe fn load_unchecked(bytes: &[u8]) -> (r: Result<&Stored, ProgramError>)
        ensures r is Ok <==> bytes@.len() == 32, r is Ok ==> r->Ok_0.code() == 1 && r->Ok_0.bytes() == bytes@
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn load_mut_unchecked(bytes: &mut [u8]) -> (r: Result<&mut Stored, ProgramError>)
        ensures
            r is Ok <==> old(bytes)@.len() == 32, r is Ok ==> r->Ok_0.code() == 1 && r->Ok_0.bytes() == old(bytes)@,
            r is Ok ==> (final(r->Ok_0).code() == 1 ==> final(bytes)@ == final(r->Ok_0).bytes()), final(bytes)@.len() == old(bytes)@.len(),
            r is Err ==> final(bytes)@ == old(bytes)@,
    { unimplemented!() }
}
impl Ed25519SessionAuthority {
    #[verifier::external_body]
    pub unsafe fn load_unchecked(bytes: &[u8]) -> (r: Result<&Stored, ProgramError>)
        ensures r is Ok <==> bytes@.len() == 80, r is Ok ==> r->Ok_0.code() == 2 && r->Ok_0.bytes() == bytes@
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn load_mut_unchecked(bytes: &mut [u8]) -> (r: Result<&mut Stored, ProgramError>)
        ensures
            r is Ok <==> old(bytes)@.len() == 80, r is Ok ==> r->Ok_0.code() == 2 && r->Ok_0.bytes() == old(bytes)@,
            r is Ok ==> (final(r->Ok_0).code() == 2 ==> final(bytes)@ == final(r->Ok_0).bytes()), final(bytes)@.len() == old(bytes)@.len(),
            r is Err ==> final(bytes)@ == old(bytes)@,
    { unimplemented!() }
}
impl Secp256k1Authority {
    #[verifier::external_body]
    pub unsafe fn load_unchecked(bytes: &[u8]) -> (r: Result<&Stored, ProgramError>)
        ensures r is Ok <==> bytes@.len() == 40, r is Ok ==> r->Ok_0.code() == 3 && r->Ok_0.bytes() == bytes@
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn load_mut_unchecked(bytes: &mut [u8]) -> (r: Result<&mut Stored, ProgramError>)
        ensures
            r is Ok <==> old(bytes)@.len() == 40, r is Ok ==> r->Ok_0.code() == 3 && r->Ok_0.bytes() == old(bytes)@,
            r is Ok ==> (final(r->Ok_0).code() == 3 ==> final(bytes)@ == final(r->Ok_0).bytes()), final(bytes)@.len() == old(bytes)@.len(),
            r is Err ==> final(bytes)@ == old(bytes)@,
    { unimplemented!() }
}
impl Secp256k1SessionAuthority {
    #[verifier::external_body]
    pub unsafe fn load_unchecked(bytes: &[u8]) -> (r: Result<&Stored, ProgramError>)
        ensures r is Ok <==> bytes@.len() == 88, r is Ok ==> r->Ok_0.code() == 4 && r->Ok_0.bytes() == bytes@
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn load_mut_unchecked(bytes: &mut [u8]) -> (r: Result<&mut Stored, ProgramError>)
        ensures
            r is Ok <==> old(bytes)@.len() == 88, r is Ok ==> r->Ok_0.code() == 4 && r->Ok_0.bytes() == old(bytes)@,
            r is Ok ==> (final(r->Ok_0).code() == 4 ==> final(bytes)@ == final(r->Ok_0).bytes()), final(bytes)@.len() == old(bytes)@.len(),
            r is Err ==> final(bytes)@ == old(bytes)@,
    { unimplemented!() }
}
impl Secp256r1Authority {
    #[verifier::external_body]
    pub unsafe fn load_unchecked(bytes: &[u8]) -> (r: Result<&Stored, ProgramError>)
        ensures r is Ok <==> bytes@.len() == 40, r is Ok ==> r->Ok_0.code() == 5 && r->Ok_0.bytes() == bytes@
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn load_mut_unchecked(bytes: &mut [u8]) -> (r: Result<&mut Stored, ProgramError>)
        ensures
            r is Ok <==> old(bytes)@.len() == 40, r is Ok ==> r->Ok_0.code() == 5 && r->Ok_0.bytes() == old(bytes)@,
            r is Ok ==> (final(r->Ok_0).code() == 5 ==> final(bytes)@ == final(r->Ok_0).bytes()), final(bytes)@.len() == old(bytes)@.len(),
            r is Err ==> final(bytes)@ == old(bytes)@,
    { unimplemented!() }
}
impl Secp256r1SessionAuthority {
    #[verifier::external_body]
    pub unsafe fn load_unchecked(bytes: &[u8]) -> (r: Result<&Stored, ProgramError>)
        ensures r is Ok <==> bytes@.len() == 88, r is Ok ==> r->Ok_0.code() == 6 && r->Ok_0.bytes() == bytes@
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn load_mut_unchecked(bytes: &mut [u8]) -> (r: Result<&mut Stored, ProgramError>)
        ensures
            r is Ok <==> old(bytes)@.len() == 88, r is Ok ==> r->Ok_0.code() == 6 && r->Ok_0.bytes() == old(bytes)@,
            r is Ok ==> (final(r->Ok_0).code() == 6 ==> final(bytes)@ == final(r->Ok_0).bytes()), final(bytes)@.len() == old(bytes)@.len(),
            r is Err ==> final(bytes)@ == old(bytes)@,
    { unimplemented!() }
}
impl ProgramExecAuthority {
    #[verifier::external_body]
    pub unsafe fn load_unchecked(bytes: &[u8]) -> (r: Result<&Stored, ProgramError>)
        ensures r is Ok <==> bytes@.len() == 80, r is Ok ==> r->Ok_0.code() == 7 && r->Ok_0.bytes() == bytes@
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn load_mut_unchecked(bytes: &mut [u8]) -> (r: Result<&mut Stored, ProgramError>)
        ensures
            r is Ok <==> old(bytes)@.len() == 80, r is Ok ==> r->Ok_0.code() == 7 && r->Ok_0.bytes() == old(bytes)@,
            r is Ok ==> (final(r->Ok_0).code() == 7 ==> final(bytes)@ == final(r->Ok_0).bytes()), final(bytes)@.len() == old(bytes)@.len(),
            r is Err ==> final(bytes)@ == old(bytes)@,
    { unimplemented!() }
}
impl ProgramExecSessionAuthority {
    #[verifier::external_body]
    pub unsafe fn load_unchecked(bytes: &[u8]) -> (r: Result<&Stored, ProgramError>)
        ensures r is Ok <==> bytes@.len() == 128, r is Ok ==> r->Ok_0.code() == 8 && r->Ok_0.bytes() == bytes@
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn load_mut_unchecked(bytes: &mut [u8]) -> (r: Result<&mut Stored, ProgramError>)
        ensures
            r is Ok <==> old(bytes)@.len() == 128, r is Ok ==> r->Ok_0.code() == 8 && r->Ok_0.bytes() == old(bytes)@,
            r is Ok ==> (final(r->Ok_0).code() == 8 ==> final(bytes)@ == final(r->Ok_0).bytes()), final(bytes)@.len() == old(bytes)@.len(),
            r is Err ==> final(bytes)@ == old(bytes)@,
    { unimplemented!() }
}
}
pub use stored_authorities::*;
}
