//! The instruction types of the client SDK, with keys reduced to what the encoder uses of them:
//! equality, copying and a hash (constant, so that the map's layout does not depend on the keys).
pub mod pubkey {
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default, PartialOrd, Ord)]
    pub struct Pubkey(pub u8);
    impl core::hash::Hash for Pubkey {
        fn hash<H: core::hash::Hasher>(&self, _: &mut H) {}
    }
}
pub mod instruction {
    use super::pubkey::Pubkey;
    #[derive(Clone, PartialEq, Eq, Debug)]
    pub struct AccountMeta {
        pub pubkey: Pubkey,
        pub is_signer: bool,
        pub is_writable: bool,
    }
    impl AccountMeta {
        pub fn new(pubkey: Pubkey, is_signer: bool) -> Self {
            Self { pubkey, is_signer, is_writable: true }
        }
        pub fn new_readonly(pubkey: Pubkey, is_signer: bool) -> Self {
            Self { pubkey, is_signer, is_writable: false }
        }
    }
    #[derive(Clone, PartialEq, Eq, Debug)]
    pub struct Instruction {
        pub program_id: Pubkey,
        pub accounts: Vec<AccountMeta>,
        pub data: Vec<u8>,
    }
}
