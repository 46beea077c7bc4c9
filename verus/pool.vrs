// C12: the buffer pool hands out only free buffers, stays within its limit and loses none.
use std::cmp::Ordering;
use std::collections::VecDeque;
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
//@ include chunks.frag
//@ include buffer.frag
//@ include pool.frag
fn main() {}
}
