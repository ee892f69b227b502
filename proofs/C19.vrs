// C19: the adjacency matrix.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include inc/matrix.inc
// ---- the matrix is filled from the configuration

pub mod metric { pub struct Event { pub n: u64 } }
pub mod hopper {
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Sender<T> { _p: std::marker::PhantomData<T> }
    impl<T> Clone for Sender<T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
}
//@include inc/forwards.inc
fn main() {}
} // verus!
