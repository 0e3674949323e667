// ---- a storage of token accounts, seen from outside ---------------------------------------------
// (the in-memory storage is proved to satisfy this, and its users assume no more than this)
pub ghost struct TokState { pub program: Program, pub pubkey: Pubkey, pub owner: Pubkey, pub mint: u32, pub amount: u64, pub state: TokenProgramAccountState,
    pub delegate: Option<(Pubkey, u64)>, pub is_native: Option<u64>, pub close_authority: Option<Pubkey>, pub more: Option<Seq<u8>> }
impl TokenAccount {
    pub open spec fn st(&self) -> TokState {
        TokState { program: self.program, pubkey: self.pubkey, owner: self.owner, mint: self.mint, amount: self.amount, state: self.state, delegate: self.delegate, is_native: self.is_native,
            close_authority: self.close_authority, more: if self.additional_data is Some { Some(self.additional_data->0@) } else { None } }
    }
}
// an index stands for one account; the account may have been removed since
pub ghost struct Cell { pub live: bool, pub t: TokState }
pub open spec fn at(c: Seq<Cell>, pk: Pubkey, i: u32) -> bool { i < c.len() && c[i as int].live && c[i as int].t.pubkey == pk }
pub open spec fn held(c: Seq<Cell>, pk: Pubkey) -> bool { exists|i: u32| #[trigger] at(c, pk, i) }
pub open spec fn cells_wf(c: Seq<Cell>) -> bool {
    &&& c.len() <= u32::MAX
    &&& forall|pk: Pubkey, i: u32, j: u32| #[trigger] at(c, pk, i) && #[trigger] at(c, pk, j) ==> i == j
}
pub open spec fn cells_contain(c: Seq<Cell>, pk: Pubkey, r: Option<u32>) -> bool { match r { Some(i) => at(c, pk, i), None => !held(c, pk) } }
pub open spec fn cells_get(c: Seq<Cell>, pk: Pubkey, r: Option<TokenAccount>) -> bool {
    match r { Some(t) => !t.is_deleted && exists|i: u32| #[trigger] at(c, pk, i) && t.st() == c[i as int].t, None => !held(c, pk) }
}
pub open spec fn cells_saved(o: Seq<Cell>, n: Seq<Cell>, t: TokState, i: u32, fresh: bool) -> bool {
    if fresh { i == o.len() && !held(o, t.pubkey) && n == o.push(Cell { live: true, t }) } else { at(o, t.pubkey, i) && n == o.update(i as int, Cell { live: true, t }) }
}
pub open spec fn cells_removed(o: Seq<Cell>, n: Seq<Cell>, pk: Pubkey) -> bool {
    n.len() == o.len() && forall|i: int| 0 <= i < o.len() ==> if at(o, pk, i as u32) { !(#[trigger] n[i]).live } else { n[i] == o[i] }
}
pub open spec fn cells_listed(c: Seq<Cell>, want: Set<u32>, s: Seq<u32>, v: Seq<TokenAccount>) -> bool {
    &&& s.len() == v.len() && s.no_duplicates()
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] s[k]) < c.len() && v[k].st() == c[s[k] as int].t && v[k].is_deleted == !c[s[k] as int].live
    &&& forall|i: u32| #[trigger] s.contains(i) <==> want.contains(i) && i < c.len()
}
// encoded token accounts (the second flag bit is not used)
pub open spec fn enc_ok(v: Seq<u8>) -> bool { dec_ok(v) && !bit(v[0], 1) }
pub open spec fn dead(v: Seq<u8>) -> bool { v[1] == 1 }
pub open spec fn program_of(v: Seq<u8>) -> Program { if bit(v[0], 0) { Program::Token2022Program } else { Program::TokenProgram } }
pub open spec fn tok_of(v: Seq<u8>) -> TokState {
    TokState { pubkey: key_of(v), program: program_of(v), mint: le32(v.subrange(66, 70)), ..(choose|t: TokenAccount| decodes(v, t)).st() }
}
pub broadcast proof fn lemma_tok_of(v: Seq<u8>, t: TokenAccount)
    requires #[trigger] decodes(v, t),
    ensures tok_of(v) == t.st(), key_of(v) == t.pubkey,
{
    let r = choose|t: TokenAccount| decodes(v, t);
    lemma_codec(v, t, r);
    lemma_key(v, t.pubkey);
    assert(r.st().more == t.st().more);
}
// the live accounts of a program, encoded, each once
pub open spec fn in_program(c: Seq<Cell>, p: Program, i: int) -> bool { 0 <= i < c.len() && c[i].live && c[i].t.program == p }
pub open spec fn cells_encoded(c: Seq<Cell>, p: Program, s: Seq<int>, b: Seq<Vec<u8>>) -> bool {
    &&& s.len() == b.len() && s.no_duplicates()
    &&& forall|k: int| 0 <= k < b.len() ==> enc_ok(#[trigger] b[k]@) && !dead(b[k]@) && in_program(c, p, s[k]) && tok_of(b[k]@) == c[s[k]].t
    &&& forall|i: int| #[trigger] in_program(c, p, i) ==> s.contains(i)
}
