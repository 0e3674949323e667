//@ include prelude/base.rs
verus! {
//@ include lib/types.vspec
//@ include lib/filters.vspec
//@ include lib/commitment.vspec
} // verus!
fn main() {}
