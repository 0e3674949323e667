use lite_account_manager_common::{
    account_data::{Account, AccountData, CompressionMethod, Data},
    commitment::Commitment,
};
use solana_sdk::pubkey::Pubkey;
use std::sync::Arc;

pub fn pk(n: u8) -> Pubkey {
    let mut b = [0u8; 32];
    b[0] = n;
    b[31] = n.wrapping_mul(7).wrapping_add(1);
    Pubkey::new_from_array(b)
}
/// keys sharing a prefix with each other: differ only in the last byte
pub fn pkp(group: u8, n: u8) -> Pubkey {
    let mut b = [group; 32];
    b[31] = n;
    Pubkey::new_from_array(b)
}
pub const COMMITMENTS: [Commitment; 3] = [Commitment::Processed, Commitment::Confirmed, Commitment::Finalized];
pub fn cname(c: Commitment) -> &'static str {
    match c {
        Commitment::Processed => "processed",
        Commitment::Confirmed => "confirmed",
        Commitment::Finalized => "finalized",
    }
}
pub fn account(pubkey: Pubkey, owner: Pubkey, lamports: u64, data: &[u8], slot: u64, wv: u64) -> AccountData {
    account_c(pubkey, owner, lamports, data, slot, wv, CompressionMethod::None)
}
pub fn account_c(pubkey: Pubkey, owner: Pubkey, lamports: u64, data: &[u8], slot: u64, wv: u64, m: CompressionMethod) -> AccountData {
    AccountData {
        pubkey,
        account: Arc::new(Account { lamports, data: Data::new(data, m), owner, executable: false, rent_epoch: 1 }),
        updated_slot: slot,
        write_version: wv,
    }
}
/// identity of a write, content included
pub fn sig(a: &AccountData) -> String {
    format!(
        "{}@{}.{} lamports={} owner={} data={:?} exec={} rent={}",
        short(&a.pubkey),
        a.updated_slot,
        a.write_version,
        a.account.lamports,
        short(&a.account.owner),
        a.account.data.data(),
        a.account.executable,
        a.account.rent_epoch
    )
}
pub fn sigo(a: &Option<AccountData>) -> String {
    a.as_ref().map(sig).unwrap_or("nothing".into())
}
pub fn short(p: &Pubkey) -> String {
    let b = p.to_bytes();
    format!("k{:02x}{:02x}..{:02x}", b[0], b[1], b[31])
}
