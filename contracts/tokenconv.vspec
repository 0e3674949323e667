//@ include prelude/base.rs
//@ include prelude/maps.rs
verus! {
//@ include lib/types.vspec
//@ include lib/tokencodec.vspec
//@ include lib/tokentypes.vspec
//@ file token_account_storage/src/inmemory_token_storage.rs
//@ const PARTIAL_PUBKEY_SIZE
//@ type InmemoryPubkey
//@ include lib/partial.vspec
//@ include lib/tokencells.vspec
//@ include lib/spl.vspec
//@ include lib/tokenconv.vspec
} // verus!
fn main() {}
