//! Stands in for `pinocchio-token`, which is not available offline: the call
//! of the token program is left out.
pub mod instructions {
    use pinocchio::{account_info::AccountInfo, instruction::Signer, ProgramResult};
    pub struct Transfer<'a> { pub from: &'a AccountInfo, pub to: &'a AccountInfo, pub authority: &'a AccountInfo, pub amount: u64 }
    impl<'a> Transfer<'a> {
        pub fn invoke(&self) -> ProgramResult { Ok(()) }
        pub fn invoke_signed(&self, _: &[Signer]) -> ProgramResult { Ok(()) }
    }
}
