// C17: the interval between collections stays within its bounds.
use vstd::prelude::*;
verus! {
/*@ struct core/src/dispatch/lookup/gc.rs UpdateStrategy */
/*@ enum core/src/dispatch/lookup/gc.rs FeedbackAlgorithm */
/*@ struct core/src/dispatch/lookup/gc.rs ActorRefReaper */

spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
spec fn most(a: int, b: int) -> int { if a >= b { a } else { b } }

impl UpdateStrategy {
    /// The parameters never change.
    spec fn same(self, o: UpdateStrategy) -> bool {
        self.incr == o.incr && self.decr == o.decr && self.min == o.min && self.max == o.max && self.algo == o.algo
    }
/*@ fn core/src/dispatch/lookup/gc.rs :: impl UpdateStrategy :: new
    ensures r == (UpdateStrategy { curr, incr, decr, min, max, algo }),
*/
/*@ fn core/src/dispatch/lookup/gc.rs :: impl UpdateStrategy :: curr
    ensures r == self.curr,
*/
/*@ fn core/src/dispatch/lookup/gc.rs :: impl UpdateStrategy :: incr
    ensures final(self).same(*old(self)), r == final(self).curr,
        r == least(match old(self).algo { FeedbackAlgorithm::Aimd => old(self).curr + old(self).incr, FeedbackAlgorithm::Mimd => old(self).curr * old(self).incr }, old(self).max as int),
*/
/*@ fn core/src/dispatch/lookup/gc.rs :: impl UpdateStrategy :: decr
    requires old(self).decr > 0,
    ensures final(self).same(*old(self)), r == final(self).curr,
        r == most(old(self).curr as int / old(self).decr as int, old(self).min as int),
*/
}

impl ActorRefReaper {
/*@ fn core/src/dispatch/lookup/gc.rs :: impl ActorRefReaper :: new
    ensures !r.scheduled, r.strategy == (UpdateStrategy { curr: initial_interval, incr, decr, min, max, algo }),
*/
/*@ fn core/src/dispatch/lookup/gc.rs :: impl ActorRefReaper :: strategy
    ensures *r == self.strategy,
*/
/*@ fn core/src/dispatch/lookup/gc.rs :: impl ActorRefReaper :: strategy_mut
    ensures *r == old(self).strategy, final(self).strategy == *final(r), final(self).scheduled == old(self).scheduled,
*/
/*@ fn core/src/dispatch/lookup/gc.rs :: impl ActorRefReaper :: schedule
    ensures final(self).scheduled, final(self).strategy == old(self).strategy,
*/
/*@ fn core/src/dispatch/lookup/gc.rs :: impl ActorRefReaper :: is_scheduled
    ensures r == self.scheduled,
*/
}

/// One adjustment as the dispatcher makes it.
spec fn adjusted(s: UpdateStrategy, collected: bool) -> int {
    if collected { most(s.curr as int / s.decr as int, s.min as int) }
    else { least(match s.algo { FeedbackAlgorithm::Aimd => s.curr + s.incr, FeedbackAlgorithm::Mimd => s.curr * s.incr }, s.max as int) }
}

/// Whatever is collected, an interval within the bounds stays there.
proof fn stays_within(s: UpdateStrategy, collected: bool)
    requires s.min <= s.curr <= s.max, s.decr > 0, s.algo is Mimd ==> s.incr > 0,
    ensures s.min <= adjusted(s, collected) <= s.max,
{
    vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(s.curr as int, 1, s.decr as int);
    if s.algo is Mimd { vstd::arithmetic::mul::lemma_mul_inequality(1, s.incr as int, s.curr as int); assert(1 * (s.curr as int) <= s.incr * (s.curr as int)); assert(s.curr * s.incr == s.incr * s.curr) by(nonlinear_arith); }
}
fn main() {}
}
