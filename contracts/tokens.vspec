//@ include prelude/base.rs
//@ include prelude/maps.rs
verus! {
//@ include lib/tokencodec.vspec
} // verus!
fn main() {}
