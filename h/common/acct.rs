//! Runtime accounts: the memory layout the Solana loader (and pinocchio) uses, with contents the
//! harness controls.
#![allow(dead_code)]
use pinocchio::account_info::AccountInfo;

#[repr(C, align(8))]
#[derive(Clone, Copy)]
pub struct Acct<const D: usize> {
    pub borrow: u8,
    pub signer: u8,
    pub writable: u8,
    pub exec: u8,
    pub delta: i32,
    pub key: [u8; 32],
    pub owner: [u8; 32],
    pub lamports: u64,
    pub len: u64,
    pub data: [u8; D],
}
impl<const D: usize> Acct<D> {
    pub fn new(key: [u8; 32], owner: [u8; 32], lamports: u64, len: usize, data: [u8; D]) -> Self {
        Acct { borrow: 0xff, signer: 0, writable: 1, exec: 0, delta: 0, key, owner, lamports, len: len as u64, data }
    }
    pub fn key(key: [u8; 32]) -> Self {
        Self::new(key, [0; 32], 0, 0, [0; D])
    }
    pub fn info(&mut self) -> AccountInfo {
        let p = self as *mut Self as *mut u8;
        unsafe { core::mem::transmute::<*mut u8, AccountInfo>(p) }
    }
}
