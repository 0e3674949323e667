//! The items of solana-accounts-db 1.18 that the snapshot reader uses, with their layout.
pub mod account_storage {
    pub mod meta {
        use solana_sdk::pubkey::Pubkey;
        pub type StoredMetaWriteVersion = u64;
        #[derive(Clone, PartialEq, Eq, Debug)]
        #[repr(C)]
        pub struct StoredMeta {
            pub write_version_obsolete: StoredMetaWriteVersion,
            pub data_len: u64,
            pub pubkey: Pubkey,
        }
        #[derive(Clone, PartialEq, Eq, Debug)]
        #[repr(C)]
        pub struct AccountMeta {
            pub lamports: u64,
            pub rent_epoch: u64,
            pub owner: Pubkey,
            pub executable: bool,
        }
    }
}
pub mod accounts_file {
    pub const ALIGN_BOUNDARY_OFFSET: usize = 8;
}
#[macro_export]
macro_rules! u64_align {
    ($addr: expr) => {
        ($addr + (ALIGN_BOUNDARY_OFFSET - 1)) & !(ALIGN_BOUNDARY_OFFSET - 1)
    };
}
pub mod append_vec {
    pub const MAXIMUM_APPEND_VEC_FILE_SIZE: u64 = 16 * 1024 * 1024 * 1024;
}
macro_rules! part {
    ($m:ident, $n:ident) => {
        pub mod $m {
            #[derive(Clone, Default, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
            pub struct $n(pub u64);
        }
    };
}
part!(accounts_db, BankHashStats);
part!(ancestors, AncestorsForSerialization);
part!(blockhash_queue, BlockhashQueue);
part!(rent_collector, RentCollector);
