//@ include prelude/base.rs
//@ include prelude/maps.rs
//@ include prelude/sets.rs
verus! {
//@ include lib/types.vspec
//@ include lib/filters.vspec
//@ include lib/commitment.vspec
//@ include lib/accountstore.vspec
//@ include lib/slots.vspec
} // verus!
fn main() {}
