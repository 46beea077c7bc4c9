// C23: what waits for a connection is taken out once, in order, returned data first.
#![feature(allocator_api)]
use std::collections::VecDeque;
use std::net::SocketAddr;
use vstd::prelude::*;
verus! {
//@ include map.frag
//@ include std.frag
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExSocketAddr(SocketAddr);

#[verifier::external_body]
pub struct DispatchData { x: usize }

impl Empty for VecDeque<DispatchData> {
    spec fn none() -> Self { none_waiting() }
}
uninterp spec fn none_waiting() -> VecDeque<DispatchData>;
#[verifier::external_body]
broadcast proof fn default_is_empty()
    ensures (#[trigger] none_waiting())@ == Seq::<DispatchData>::empty(),
{}

spec fn at(m: HashMap<SocketAddr, VecDeque<DispatchData>>, a: SocketAddr) -> Seq<DispatchData> {
    if m@.contains_key(a) { m@[a]@ } else { Seq::empty() }
}

/*@ struct network/src/queue_manager.rs QueueManager */

impl QueueManager {
    /// What waits for the address, in the order in which it is to be sent.
    spec fn waiting(self, a: SocketAddr) -> Seq<DispatchData> { at(self.priority_queue, a) + at(self.inner, a) }
    /// Nothing happened to the other addresses.
    spec fn same_but(self, o: QueueManager, a: SocketAddr) -> bool {
        forall|b: SocketAddr| b != a ==> at(self.priority_queue, b) == at(o.priority_queue, b) && at(self.inner, b) == at(o.inner, b)
    }
/*@ fn network/src/queue_manager.rs :: impl QueueManager :: new
    ensures forall|a: SocketAddr| r.waiting(a) == Seq::<DispatchData>::empty(),
    @first proof { assert(Seq::<DispatchData>::empty() + Seq::<DispatchData>::empty() =~= Seq::<DispatchData>::empty()); }
*/
/*@ fn network/src/queue_manager.rs :: impl QueueManager :: enqueue_data
    ensures final(self).same_but(*old(self), dst), at(final(self).priority_queue, dst) == at(old(self).priority_queue, dst),
        at(final(self).inner, dst) == at(old(self).inner, dst).push(data),
        final(self).waiting(dst) == old(self).waiting(dst).push(data),
    @first broadcast use default_is_empty; proof { let q = at(self.inner, dst).push(data); assert(at(self.priority_queue, dst) + q =~= (at(self.priority_queue, dst) + at(self.inner, dst)).push(data)); }
*/
/*@ fn network/src/queue_manager.rs :: impl QueueManager :: enqueue_priority_data
    ensures final(self).same_but(*old(self), dst), at(final(self).inner, dst) == at(old(self).inner, dst),
        at(final(self).priority_queue, dst) == at(old(self).priority_queue, dst).push(data),
    @first broadcast use default_is_empty;
*/
/*@ fn network/src/queue_manager.rs :: impl QueueManager :: pop_data
    ensures final(self).same_but(*old(self), *dst),
        match r {
            Some(d) => old(self).waiting(*dst) == seq![d] + final(self).waiting(*dst),
            None => old(self).waiting(*dst).len() == 0 && final(self).waiting(*dst).len() == 0,
        },
    @first proof {
        let (p, i) = (at(self.priority_queue, *dst), at(self.inner, *dst));
        if p.len() > 0 { assert(p + i =~= seq![p[0]] + (p.subrange(1, p.len() as int) + i)); }
        else if i.len() > 0 { assert(p + i =~= seq![i[0]] + (p + i.subrange(1, i.len() as int))); assert(p =~= Seq::empty()); }
    }
*/
/*@ fn network/src/queue_manager.rs :: impl QueueManager :: drop_queue
    ensures final(self).same_but(*old(self), *addr), final(self).waiting(*addr).len() == 0,
*/
/*@ fn network/src/queue_manager.rs :: impl QueueManager :: has_data
    ensures r == (self.waiting(*dst).len() > 0),
*/
}
fn main() {}
}
