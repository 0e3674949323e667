#![allow(unused_imports, unused_mut, unused_variables, unused_assignments, dead_code, non_snake_case, unused_parens, unused_braces, unreachable_code, path_statements, non_camel_case_types)]
use vstd::prelude::*;
#[allow(unused_imports)]
use vstd::multiset::Multiset;
verus! {

// ---------------------------------------------------------------------------------------------
// Trusted base: stand-ins for panics and for dependencies (std, dashmap, solana_sdk).
// Everything marked external_body below is an assumed contract and is listed as such in evidence.
// ---------------------------------------------------------------------------------------------
#[verifier::external_body]
pub fn vx_panic() -> (r: !)
    requires false,
{ panic!() }

pub fn vx_assert(b: bool)
    requires b,
{ }

global size_of usize == 8;
pub type Slot = u64;

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Pubkey(pub [u8; 32]);

// an iterator: the items still to come are items()[pos()..]
pub mod vx_it {
use super::*;
#[verifier::external_body]
#[verifier::accept_recursive_types(I)]
pub struct VIter<I> { v: std::collections::VecDeque<I> }
impl<I> VIter<I> {
    pub uninterp spec fn items(&self) -> Seq<I>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<I>)
        ensures
            final(self).items() == old(self).items(),
            match r {
                Some(x) => old(self).pos() < old(self).items().len() && x == old(self).items()[old(self).pos() as int]
                    && final(self).pos() == old(self).pos() + 1,
                None => old(self).pos() >= old(self).items().len() && final(self).pos() == old(self).pos(),
            },
    { self.v.pop_front() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: Self)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.items() == self.items().reverse(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: Self)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.items() == self.items().take(if n <= self.items().len() { n as int } else { self.items().len() as int }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VIter<(usize, I)>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.items().len() == self.items().len(), r.items().len() <= usize::MAX,
            forall|i: int| 0 <= i < r.items().len() ==> (#[trigger] r.items()[i]) == (i as usize, self.items()[i]),
    { unimplemented!() }
}
pub broadcast axiom fn axiom_viter_pos<I>(it: VIter<I>)
    ensures #[trigger] it.pos() <= it.items().len();
}
pub use vx_it::VIter;
broadcast use vx_it::axiom_viter_pos;

pub trait VxSeq<T> {
    spec fn vx_seq(&self) -> Seq<T>;
    fn vx_iter<'a>(&'a self) -> (r: VIter<&'a T>)
        ensures r.pos() == 0, r.items().len() == self.vx_seq().len(),
            forall|i: int| 0 <= i < r.items().len() ==> *(#[trigger] r.items()[i]) == self.vx_seq()[i];
}
impl<T> VxSeq<T> for [T] {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
}
impl<T> VxSeq<T> for Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: VIter<&'a T>) { unimplemented!() }
}
pub trait VxInto<T> {
    spec fn vx_iseq(self) -> Seq<T>;
    fn vx_into_iter(self) -> (r: VIter<T>)
        ensures r.pos() == 0, r.items() == self.vx_iseq();
}
impl<T> VxInto<T> for Vec<T> {
    open spec fn vx_iseq(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VIter<T>) { unimplemented!() }
}
impl<'a, T> VxInto<&'a T> for &'a Vec<T> {
    open spec fn vx_iseq(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() }
}

impl<'a, T> VxInto<&'a T> for &'a [T] {
    open spec fn vx_iseq(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() }
}

pub trait VxExtend<T> { spec fn vx_now(&self) -> Seq<T>; fn vx_extend_from_slice(&mut self, s: &[T]) ensures final(self).vx_now() == old(self).vx_now() + s@; }
impl<T: Copy> VxExtend<T> for Vec<T> {
    open spec fn vx_now(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_extend_from_slice(&mut self, s: &[T]) { self.extend_from_slice(s) }
}
// copying a slice of plain (Copy) values
pub trait VxToVec<T> { spec fn vx_all(&self) -> Seq<T>; fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vx_all(); }
impl<T: Copy> VxToVec<T> for [T] {
    open spec fn vx_all(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<T>) { self.to_vec() }
}
impl<T: Copy> VxToVec<T> for Vec<T> {
    open spec fn vx_all(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<T>) { self.to_vec() }
}

// BTreeMap<u64, V>
pub uninterp spec fn keyseq<V>(m: Map<u64, V>) -> Seq<u64>;
pub open spec fn values_of<V>(s: Seq<&V>, m: Map<u64, V>) -> bool {
    &&& s.len() == keyseq(m).len()
    &&& forall|i: int| #![trigger s[i]] #![trigger keyseq(m)[i]] 0 <= i < s.len() ==> m.contains_key(keyseq(m)[i]) && *s[i] == m[keyseq(m)[i]]
    &&& forall|k: u64| #[trigger] m.contains_key(k) ==> keyseq(m).contains(k)
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { m: std::collections::BTreeMap<K, V> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
}
impl<V> BTreeMap<u64, V> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<u64, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &u64) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &u64) -> (r: Option<&'a V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &u64) -> (r: Option<&'a mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: u64, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            match r { Some(p) => old(self)@.contains_key(k) && p == old(self)@[k], None => !old(self)@.contains_key(k) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &u64) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            match r { Some(p) => old(self)@.contains_key(*k) && p == old(self)@[*k], None => !old(self)@.contains_key(*k) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<u64, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_values<'a>(&'a self) -> (r: VIter<&'a V>)
        ensures r.pos() == 0, values_of(r.items(), self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last_key_value(&self) -> (r: Option<(&u64, &V)>)
        ensures match r {
            Some((k, v)) => self@.contains_key(*k) && *v == self@[*k] && forall|j: u64| self@.contains_key(j) ==> j <= *k,
            None => self@ =~= Map::<u64, V>::empty(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn first_key_value(&self) -> (r: Option<(&u64, &V)>)
        ensures match r {
            Some((k, v)) => self@.contains_key(*k) && *v == self@[*k] && forall|j: u64| self@.contains_key(j) ==> *k <= j,
            None => self@ =~= Map::<u64, V>::empty(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_first_key(&self) -> (r: Option<u64>)
        ensures match r {
            Some(k) => self@.contains_key(k) && forall|j: u64| #[trigger] self@.contains_key(j) ==> k <= j,
            None => self@ =~= Map::<u64, V>::empty(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_first(&mut self) -> (r: Option<(u64, V)>)
        ensures match r {
            Some((k, v)) => old(self)@.contains_key(k) && v == old(self)@[k] && final(self)@ == old(self)@.remove(k)
                && forall|j: u64| old(self)@.contains_key(j) ==> k <= j,
            None => old(self)@ =~= Map::<u64, V>::empty() && final(self)@ == old(self)@,
        }
    { unimplemented!() }
}

// vec![x; n]
#[verifier::external_body]
pub fn vx_vec_rep<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }

// a lock that may be taken by somebody else
#[verifier::external_body]
pub fn vx_try<'a, T>(x: &'a T) -> (r: Result<&'a T, ()>) ensures r is Ok ==> *r->Ok_0 == *x { unimplemented!() }

pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < s@.len() ==> cloned::<T>(s@[i], r@[i]);

pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == (if a is Some { a } else { b });

pub trait VxConv<T>: Sized { spec fn conv(self, r: T) -> bool; fn vx_conv(self) -> (r: T) ensures self.conv(r); }
} // verus!
