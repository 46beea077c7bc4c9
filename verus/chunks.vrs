// C11: chains of leases and references read as one byte string, under locks that stay.
use std::cmp::Ordering;
use vstd::prelude::*;
verus! {
//@ include chunks.frag
fn main() {}
}
