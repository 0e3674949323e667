//@ include prelude/base.rs
verus! {
//@ include lib/types.vspec
//@ file common/src/account_data.rs
// ---- the account of the solana library: the same fields, with the content uncompressed ----
pub struct SolanaAccount { pub lamports: u64, pub data: Vec<u8>, pub owner: Pubkey, pub executable: bool, pub rent_epoch: u64 }
impl Account {
    pub open spec fn stands_for(&self, s: SolanaAccount) -> bool {
        self.data.ok() && self.lamports == s.lamports && self.data.plain() =~= s.data@ && self.owner == s.owner
        && self.executable == s.executable && self.rent_epoch == s.rent_epoch
    }
//@ fn Account::from_solana_account ret=r
    requires compression_method is Zstd ==> account.data@.len() <= 64 * 1024 * 1024,
    ensures r.stands_for(account),
//@ end
//@ fn Account::to_solana_account ret=r
    requires self.data.ok(),
    ensures self.stands_for(r),
//@ end
}
// an account converted with any method and back is the account
proof fn lemma_solana_roundtrip(a: Account, s: SolanaAccount, t: SolanaAccount)
    requires a.stands_for(s), a.stands_for(t),
    ensures s.lamports == t.lamports, s.data@ =~= t.data@, s.owner == t.owner, s.executable == t.executable, s.rent_epoch == t.rent_epoch,
{}
} // verus!
fn main() {}
