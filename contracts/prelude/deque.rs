verus! {
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { v: std::collections::VecDeque<T> }
impl<T> View for VecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, i: usize) -> (r: Option<&'a T>)
        ensures match r { Some(x) => i < self@.len() && *x == self@[i as int], None => i >= self@.len() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, i: usize) -> (r: Option<&'a mut T>)
        ensures match r {
            Some(x) => i < old(self)@.len() && *x == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, *final(x)),
            None => i >= old(self)@.len() && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: VIter<&'a T>)
        ensures r.pos() == 0, r.items().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.items()[i]) == self@[i],
    { unimplemented!() }
}
} // verus!
