//@ include prelude/base.rs
//@ include prelude/maps.rs
verus! {
//@ include lib/snapshot.vspec
} // verus!
fn main() {}
