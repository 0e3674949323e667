//@ file common/src/pubkey_container_utils.rs
//@ struct PartialPubkey
// ---- the partial key of a key ------------------------------------------------------------------
pub open spec fn part_of(pk: Pubkey, p: InmemoryPubkey) -> bool { p.0@ == pk.0@.subrange(0, PARTIAL_PUBKEY_SIZE as int) }
pub open spec fn part(pk: Pubkey) -> InmemoryPubkey { choose|p: InmemoryPubkey| part_of(pk, p) }
pub broadcast proof fn lemma_part(pk: Pubkey, p: InmemoryPubkey)
    requires #[trigger] part_of(pk, p),
    ensures part(pk) == p,
{
    let q = part(pk);
    assert(part_of(pk, q));
    assert(q.0@ =~= p.0@);
    assert(q.0 =~= p.0);
}
impl<const SIZE: usize> PartialPubkey<SIZE> {
//@ file common/src/pubkey_container_utils.rs
//@ fn From<Pubkey> for PartialPubkey::from ret=r as=vx_from
    requires SIZE <= 32,
    ensures r.0@ == value.0@.subrange(0, SIZE as int),
//@ end
//@ fn From<&Pubkey> for PartialPubkey::from ret=r as=vx_from_ref
    requires SIZE <= 32,
    ensures r.0@ == value.0@.subrange(0, SIZE as int),
//@ end
}
impl VxConv<InmemoryPubkey> for Pubkey {
    open spec fn conv(self, r: InmemoryPubkey) -> bool { part_of(self, r) }
    fn vx_conv(self) -> (r: InmemoryPubkey) { PartialPubkey::vx_from(self) }
}
impl<'a> VxConv<InmemoryPubkey> for &'a Pubkey {
    open spec fn conv(self, r: InmemoryPubkey) -> bool { part_of(*self, r) }
    fn vx_conv(self) -> (r: InmemoryPubkey) { PartialPubkey::vx_from_ref(self) }
}

