//@ include prelude/base.rs
//@ include prelude/maps.rs
//@ include prelude/deque.rs
verus! {
//@ include lib/tokencodec.vspec
//@ include lib/tokenindex.vspec
} // verus!
fn main() {}
