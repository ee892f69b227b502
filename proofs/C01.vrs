// C01: the aggregation store.
use vstd::prelude::*;
use vstd::multiset::Multiset;
use std::cmp::Ordering;
pub mod cmp { pub use std::cmp::Ordering; }
verus! {
global size_of usize == 8;

//@include inc/float.inc
//@include inc/opaquetags.inc
//@include inc/telemetry.inc
//@include inc/search.inc

//@include inc/buckets.inc

fn main() {}
} // verus!