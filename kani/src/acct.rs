//! Accounts as the runtime hands them to a program: the input-buffer layout
//! that `pinocchio::AccountInfo` points into.
use pinocchio::account_info::AccountInfo;
#[repr(C, align(16))]
#[derive(Clone, Copy, PartialEq)]
pub struct Acct<const N: usize> {
    pub borrow_state: u8,
    pub signer: u8,
    pub writable: u8,
    pub executable: u8,
    pub resize_delta: i32,
    pub key: [u8; 32],
    pub owner: [u8; 32],
    pub lamports: u64,
    pub data_len: u64,
    pub data: [u8; N],
}
impl<const N: usize> Acct<N> {
    pub fn new(key: [u8; 32], owner: [u8; 32], data: [u8; N]) -> Self {
        Acct { borrow_state: 0xff, signer: 0, writable: 0, executable: 0, resize_delta: 0, key, owner, lamports: 0, data_len: N as u64, data }
    }
    /// The view of this account that the program gets.
    pub fn info(&mut self) -> AccountInfo {
        let p: *mut Self = self;
        // AccountInfo is repr(C) with the raw pointer as its only field
        unsafe { core::mem::transmute::<*mut Self, AccountInfo>(p) }
    }
}
