use std::cmp::Ordering;
use vstd::prelude::*;
verus! {
//@ include chunks.frag
//@ include buffer.frag
fn main() {}
}
