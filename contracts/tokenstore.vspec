//@ include prelude/base.rs
//@ include prelude/maps.rs
//@ include prelude/deque.rs
verus! {
//@ include lib/types.vspec
//@ include lib/filters.vspec
//@ include lib/tokencodec.vspec
//@ include lib/tokentypes.vspec
//@ file token_account_storage/src/inmemory_token_storage.rs
//@ const PARTIAL_PUBKEY_SIZE
//@ type InmemoryPubkey
//@ include lib/partial.vspec
//@ include lib/tokencells.vspec
//@ include lib/spl.vspec
//@ include lib/tokenconv.vspec
//@ include lib/tokenchain.vspec
//@ file common/src/account_store_interface.rs
//@ enum AccountLoadingError
//@ include lib/tokenstore.vspec
} // verus!
fn main() {}
