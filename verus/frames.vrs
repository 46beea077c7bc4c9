// C01: what frames are written as and what comes of reading them.
use vstd::prelude::*;
verus! {
//@ include frames.frag
broadcast use {axioms::be16_back, axioms::be32_back, axioms::be128_back, axioms::skips};
fn main() {}
}
