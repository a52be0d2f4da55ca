verus! {
pub mod authorities {
use vstd::prelude::*;
use super::base::*;
#[derive(Clone, Copy, PartialEq, Eq)]
//@enum state/src/authority/mod.rs AuthorityType
// Whether the creation data is valid for this type, and whether this is the
// record made of it (A08 decides both for the real types).
pub uninterp spec fn authority_ok(code: u16, data: Seq<u8>) -> bool;
pub uninterp spec fn authority_made(code: u16, data: Seq<u8>, bytes: Seq<u8>) -> bool;
pub open spec fn authority_len(code: u16) -> int {
    match code { 1 => 32, 2 => 80, 3 => 40, 4 => 88, 5 => 40, 6 => 88, 7 => 80, 8 => 128, _ => 0 }
}
pub struct ED25519Authority { pub bytes: [u8; 32] }
impl ED25519Authority {
    pub const LEN: usize = 32;
    #[verifier::external_body]
    pub fn set_into_bytes(create_data: &[u8], bytes: &mut [u8]) -> (r: Result<(), ProgramError>)
        requires old(bytes)@.len() == 32
        ensures r is Ok <==> authority_ok(1, create_data@), r is Ok ==> authority_made(1, create_data@, final(bytes)@), final(bytes)@.len() == 32
    { unimplemented!() }
}
pub struct Ed25519SessionAuthority { pub bytes: [u8; 80] }
impl Ed25519SessionAuthority {
    pub const LEN: usize = 80;
    #[verifier::external_body]
    pub fn set_into_bytes(create_data: &[u8], bytes: &mut [u8]) -> (r: Result<(), ProgramError>)
        requires old(bytes)@.len() == 80
        ensures r is Ok <==> authority_ok(2, create_data@), r is Ok ==> authority_made(2, create_data@, final(bytes)@), final(bytes)@.len() == 80
    { unimplemented!() }
}
pub struct Secp256k1Authority { pub bytes: [u8; 40] }
impl Secp256k1Authority {
    pub const LEN: usize = 40;
    #[verifier::external_body]
    pub fn set_into_bytes(create_data: &[u8], bytes: &mut [u8]) -> (r: Result<(), ProgramError>)
        requires old(bytes)@.len() == 40
        ensures r is Ok <==> authority_ok(3, create_data@), r is Ok ==> authority_made(3, create_data@, final(bytes)@), final(bytes)@.len() == 40
    { unimplemented!() }
}
pub struct Secp256k1SessionAuthority { pub bytes: [u8; 88] }
impl Secp256k1SessionAuthority {
    pub const LEN: usize = 88;
    #[verifier::external_body]
    pub fn set_into_bytes(create_data: &[u8], bytes: &mut [u8]) -> (r: Result<(), ProgramError>)
        requires old(bytes)@.len() == 88
        ensures r is Ok <==> authority_ok(4, create_data@), r is Ok ==> authority_made(4, create_data@, final(bytes)@), final(bytes)@.len() == 88
    { unimplemented!() }
}
pub struct Secp256r1Authority { pub bytes: [u8; 40] }
impl Secp256r1Authority {
    pub const LEN: usize = 40;
    #[verifier::external_body]
    pub fn set_into_bytes(create_data: &[u8], bytes: &mut [u8]) -> (r: Result<(), ProgramError>)
        requires old(bytes)@.len() == 40
        ensures r is Ok <==> authority_ok(5, create_data@), r is Ok ==> authority_made(5, create_data@, final(bytes)@), final(bytes)@.len() == 40
    { unimplemented!() }
}
pub struct Secp256r1SessionAuthority { pub bytes: [u8; 88] }
impl Secp256r1SessionAuthority {
    pub const LEN: usize = 88;
    #[verifier::external_body]
    pub fn set_into_bytes(create_data: &[u8], bytes: &mut [u8]) -> (r: Result<(), ProgramError>)
        requires old(bytes)@.len() == 88
        ensures r is Ok <==> authority_ok(6, create_data@), r is Ok ==> authority_made(6, create_data@, final(bytes)@), final(bytes)@.len() == 88
    { unimplemented!() }
}
pub struct ProgramExecAuthority { pub bytes: [u8; 80] }
impl ProgramExecAuthority {
    pub const LEN: usize = 80;
    #[verifier::external_body]
    pub fn set_into_bytes(create_data: &[u8], bytes: &mut [u8]) -> (r: Result<(), ProgramError>)
        requires old(bytes)@.len() == 80
        ensures r is Ok <==> authority_ok(7, create_data@), r is Ok ==> authority_made(7, create_data@, final(bytes)@), final(bytes)@.len() == 80
    { unimplemented!() }
}
pub struct ProgramExecSessionAuthority { pub bytes: [u8; 128] }
impl ProgramExecSessionAuthority {
    pub const LEN: usize = 128;
    #[verifier::external_body]
    pub fn set_into_bytes(create_data: &[u8], bytes: &mut [u8]) -> (r: Result<(), ProgramError>)
        requires old(bytes)@.len() == 128
        ensures r is Ok <==> authority_ok(8, create_data@), r is Ok ==> authority_made(8, create_data@, final(bytes)@), final(bytes)@.len() == 128
    { unimplemented!() }
}
}
pub use authorities::*;
}
