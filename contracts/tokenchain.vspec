//@ include prelude/base.rs
//@ include prelude/maps.rs
//@ include prelude/deque.rs
verus! {
//@ include lib/types.vspec
//@ include lib/tokencodec.vspec
//@ include lib/tokentypes.vspec
//@ include lib/tokenchain.vspec
} // verus!
fn main() {}
