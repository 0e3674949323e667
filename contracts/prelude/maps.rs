verus! {
// HashMap / DashMap with keys whose == is structural; a DashMap is used as one (single-threaded view)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
pub type DashMap<K, V> = HashMap<K, V>;
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            match r { Some(p) => old(self)@.contains_key(k) && p == old(self)@[k], None => !old(self)@.contains_key(k) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            match r { Some(p) => old(self)@.contains_key(*k) && p == old(self)@[*k], None => !old(self)@.contains_key(*k) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get_ref<'a>(&'a self, k: &K) -> (r: &'a V)
        requires self@.contains_key(*k), ensures *r == self@[*k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get_mut_ref<'a>(&'a mut self, k: &K) -> (r: &'a mut V)
        requires old(self)@.contains_key(*k), ensures *r == old(self)@[*k], final(self)@ == old(self)@.insert(*k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_remove_val(&mut self, k: &K) -> (r: V)
        requires old(self)@.contains_key(*k), ensures r == old(self)@[*k], final(self)@ == old(self)@.remove(*k),
    { unimplemented!() }
    // iteration: every entry exactly once, in some order
    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: VIter<(&'a K, &'a V)>)
        ensures r.pos() == 0, enumerates_refs(r.items(), self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_keys<'a>(&'a self) -> (r: VIter<&'a K>)
        ensures r.pos() == 0, set_items_refs(r.items(), self@.dom()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_drain(&mut self) -> (r: VIter<(K, V)>)
        ensures r.pos() == 0, enumerates(r.items(), old(self)@), final(self)@ == Map::<K, V>::empty(),
    { unimplemented!() }
}
impl<K, V> VxInto<(K, V)> for HashMap<K, V> {
    uninterp spec fn vx_iseq(self) -> Seq<(K, V)>;
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VIter<(K, V)>) { unimplemented!() }
}
// consuming iteration: every entry exactly once, in some order
pub broadcast axiom fn axiom_map_iseq<K, V>(m: HashMap<K, V>)
    ensures enumerates(#[trigger] m.vx_iseq(), m@);
pub open spec fn enumerates<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && s[i].1 == m[s[i].0]
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
}
pub open spec fn enumerates_refs<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && *s[i].1 == m[*s[i].0]
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
}

impl<V> BTreeMap<u64, V> {
    #[verifier::external_body]
    pub fn vx_get_mut_ref<'a>(&'a mut self, k: &u64) -> (r: &'a mut V)
        requires old(self)@.contains_key(*k), ensures *r == old(self)@[*k], final(self)@ == old(self)@.insert(*k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get_ref<'a>(&'a self, k: &u64) -> (r: &'a V)
        requires self@.contains_key(*k), ensures *r == self@[*k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_remove_val(&mut self, k: &u64) -> (r: V)
        requires old(self)@.contains_key(*k), ensures r == old(self)@[*k], final(self)@ == old(self)@.remove(*k),
    { unimplemented!() }
    // iteration in the order of the keys
    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: VIter<(&'a u64, &'a V)>)
        ensures r.pos() == 0, enumerates_refs(r.items(), self@), forall|i: int, j: int| 0 <= i < j < r.items().len() ==> *(#[trigger] r.items()[i]).0 < *(#[trigger] r.items()[j]).0,
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { m: std::collections::HashSet<K> }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<K> HashSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: VIter<&'a K>)
        ensures r.pos() == 0, set_items_refs(r.items(), self@),
    { unimplemented!() }
}
pub open spec fn set_items_refs<K>(s: Seq<&K>, m: Set<K>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains(*(#[trigger] s[i]))
    &&& forall|k: K| #[trigger] m.contains(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]) != *(#[trigger] s[j])
}
} // verus!
