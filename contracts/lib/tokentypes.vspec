// ---- the accounts of the token programs --------------------------------------------------------
//@ file common/src/slot_info.rs
//@ struct SlotInfo derive(Clone,Copy)
//@ file token_account_storage/src/account_types.rs
//@ struct MintAccount
//@ struct MultiSig
//@ file token_account_storage/src/token_program_utils.rs
//@ enum TokenProgramAccountType
//@ file token_account_storage/src/inmemory_token_storage.rs
//@ struct ProcessedAccount
//@ struct ProcessedAccountBySlot
//@ struct ProcessedAccountStore
impl Clone for ProcessedAccount {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
