//@ include prelude/base.rs
//@ include prelude/maps.rs
verus! {
//@ include lib/types.vspec
//@ include lib/filters.vspec
//@ include lib/ondemand.vspec
} // verus!
fn main() {}
