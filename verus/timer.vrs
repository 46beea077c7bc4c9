// C19: timers run once or periodically, and not after they were cancelled.
use std::time::Duration;
use vstd::prelude::*;
verus! {
//@ subst timer::TimerRef => TimerRef
//@ subst C: ComponentDefinition => C
//@ subst Rc<dyn Fn(&mut C, Uuid) -> HandlerResult + Send + 'static> => Rc<C>
//@ subst Rc<dyn Fn(&mut C, Uuid) -> HandlerResult> => Rc<C>
//@ subst Box<dyn FnOnce(&mut C, Uuid) -> HandlerResult + Send + 'static> => Box<C>
//@ subst Box<dyn FnOnce(&mut C, Uuid) -> HandlerResult> => Box<C>
//@ subst F: FnOnce(&mut C, ScheduledTimer) -> HandlerResult + Send + 'static => F: Closure
//@ subst F: Fn(&mut C, ScheduledTimer) -> HandlerResult + Send + 'static => F: Closure
//@ subst move |new_self, id| action(new_self, ScheduledTimer::from_uuid(id)) => action
//@ subst Weak<dyn CoreContainer> => WeakComponent
//@ subst Weak<ConcurrentQueue<Timeout>> => WeakQueue
//@ subst Arc<ConcurrentQueue<Timeout>> => TimeoutQueue
//@ subst Arc::new(ConcurrentQueue::new()) => TimeoutQueue::new()
//@ subst Arc::downgrade(&self.timer_queue) => self.timer_queue.downgrade()
//@ subst for (id, _) in self.handles.drain() { => let mut all = self.handles.drain(); while let Some((id, _e)) = all.next() {
//@ include map.frag
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Uuid { x: u128 }
impl Uuid {
    #[verifier::external_body]
    fn new_v4() -> Uuid { unimplemented!() }
}
/// What a user asks to run; boxing it keeps which one it is.
pub trait Closure: Sized { spec fn which(self) -> int; }
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct Box<C> { x: std::marker::PhantomData<C> }
impl<C> Box<C> {
    pub uninterp spec fn runs(self) -> int;
    #[verifier::external_body]
    fn new<F: Closure>(f: F) -> (r: Box<C>)
        ensures r.runs() == f.which(),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(C)]
pub struct Rc<C> { x: std::marker::PhantomData<C> }
impl<C> Rc<C> {
    pub uninterp spec fn runs(self) -> int;
    #[verifier::external_body]
    fn new<F: Closure>(f: F) -> (r: Rc<C>)
        ensures r.runs() == f.which(),
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Rc<C>)
        ensures r == *self,
    { unimplemented!() }
}

// ---- queues, components and weak references to them
/*@ struct core/src/timer/timer_manager.rs Timeout */
#[verifier::external_body]
pub struct TimeoutQueue { x: usize }
#[verifier::external_body]
pub struct WeakQueue { x: usize }
#[verifier::external_body]
pub struct WeakComponent { x: usize }
#[verifier::external_body]
pub struct Component { x: usize }
#[verifier::external_body]
pub struct Core { x: usize }
/// The timeout was taken out of / put into the queue.
pub uninterp spec fn popped(q: TimeoutQueue, t: Timeout) -> bool;
/// What the reference is for was found deallocated.
pub uninterp spec fn no_queue(q: WeakQueue) -> bool;
pub uninterp spec fn no_component(c: WeakComponent) -> bool;
pub uninterp spec fn pushed(q: WeakQueue, t: Timeout) -> bool;
/// The work of the component was counted, with this answer; the component was handed to its scheduler.
pub uninterp spec fn counted(c: WeakComponent, d: SchedulingDecision) -> bool;
pub uninterp spec fn scheduled(c: WeakComponent) -> bool;
pub struct StrongQueue { pub of: Ghost<WeakQueue> }
impl TimeoutQueue {
    pub uninterp spec fn weak(self) -> WeakQueue;
    pub uninterp spec fn fresh(self) -> bool;
    #[verifier::external_body]
    fn new() -> (r: TimeoutQueue)
        ensures r.fresh(),
    { unimplemented!() }
    #[verifier::external_body]
    fn downgrade(&self) -> (r: WeakQueue)
        ensures r == self.weak(),
    { unimplemented!() }
    #[verifier::external_body]
    fn pop(&self) -> (r: Option<Timeout>)
        ensures r matches Some(t) ==> popped(*self, t),
    { unimplemented!() }
}
impl WeakQueue {
    #[verifier::external_body]
    fn upgrade(&self) -> (r: Option<StrongQueue>)
        ensures match r { Some(q) => q.of@ == *self, None => no_queue(*self) },
    { unimplemented!() }
}
impl StrongQueue {
    #[verifier::external_body]
    fn push(&self, t: Timeout)
        ensures pushed(self.of@, t),
    { unimplemented!() }
}
impl Component {
    pub uninterp spec fn weak(self) -> WeakComponent;
    #[verifier::external_body]
    fn core(&self) -> (r: &Core)
        ensures r.of() == self.weak(),
    { unimplemented!() }
    #[verifier::external_body]
    fn schedule(&self)
        ensures scheduled(self.weak()),
    { unimplemented!() }
}
impl WeakComponent {
    #[verifier::external_body]
    fn upgrade(&self) -> (r: Option<Component>)
        ensures match r { Some(c) => c.weak() == *self, None => no_component(*self) },
    { unimplemented!() }
}
impl Core {
    pub uninterp spec fn of(self) -> WeakComponent;
    #[verifier::external_body]
    fn increment_work(&self) -> (r: SchedulingDecision)
        ensures counted(self.of(), r),
    { unimplemented!() }
}
/*@ enum core/src/component/mod.rs SchedulingDecision */
/*@ struct core/src/timer/timer_manager.rs QueueingError */
/*@ struct core/src/timer/timer_manager.rs TimerActorRef */
impl TimerActorRef {
    spec fn told(self, t: Timeout) -> bool {
        pushed(self.msg_queue, t) && exists|d: SchedulingDecision| #[trigger] counted(self.component, d) && (d is Schedule ==> scheduled(self.component))
    }
    spec fn gone(self) -> bool { no_queue(self.msg_queue) || no_component(self.component) }
/*@ fn core/src/timer/timer_manager.rs :: impl TimerActorRef :: new
    ensures r.component == component, r.msg_queue == msg_queue,
*/
/*@ fn core/src/timer/timer_manager.rs :: impl TimerActorRef :: enqueue
    // queued, counted, and scheduled if counting says so
    ensures match r { Ok(_) => self.told(timeout), Err(_) => self.gone() },
*/
}
/*@ struct core/src/timer/mod.rs ActorRefState */
impl ActorRefState {
/*@ fn core/src/timer/mod.rs :: impl ActorRefState :: new
    ensures r.id == id, r.receiver == receiver,
*/
/*@ fn core/src/timer/mod.rs :: impl OneshotState for ActorRefState :: trigger as trigger_once
    ensures self.receiver.told(Timeout(self.id)) || self.receiver.gone(),
*/
/*@ fn core/src/timer/mod.rs :: impl PeriodicState for ActorRefState :: trigger as trigger_again
    // goes on as long as there is a component to tell
    ensures match r { GenericTimerReturn::Reschedule(s) => s == self && self.receiver.told(Timeout(self.id)), GenericTimerReturn::Cancel => self.receiver.gone() },
*/
}
pub enum GenericTimerReturn<S> { Reschedule(S), Cancel }
// ---- the timer thread, by its contract: it triggers what is armed, when it is due
pub enum Due { Once { after: Duration, what: ActorRefState }, Periodic { after: Duration, every: Duration, what: ActorRefState } }
#[verifier::external_body]
pub struct TimerRef { x: usize }
impl View for TimerRef {
    type V = Map<Uuid, Due>;
    uninterp spec fn view(&self) -> Map<Uuid, Due>;
}
impl TimerRef {
    #[verifier::external_body]
    fn schedule_once(&mut self, timeout: Duration, state: ActorRefState)
        ensures final(self)@ == old(self)@.insert(state.id, Due::Once { after: timeout, what: state }),
    { unimplemented!() }
    #[verifier::external_body]
    fn schedule_periodic(&mut self, delay: Duration, period: Duration, state: ActorRefState)
        ensures final(self)@ == old(self)@.insert(state.id, Due::Periodic { after: delay, every: period, what: state }),
    { unimplemented!() }
    #[verifier::external_body]
    fn cancel(&mut self, id: &Uuid)
        ensures final(self)@ == old(self)@.remove(*id),
    { unimplemented!() }
}

/*@ struct core/src/timer/timer_manager.rs ScheduledTimer */
impl ScheduledTimer {
/*@ fn core/src/timer/timer_manager.rs :: impl ScheduledTimer :: from_uuid
    ensures r.0 == id,
*/
}
#[verifier::reject_recursive_types(C)]
/*@ enum core/src/timer/timer_manager.rs ExecuteAction */
#[verifier::reject_recursive_types(C)]
/*@ enum core/src/timer/timer_manager.rs TimerHandle */
#[verifier::reject_recursive_types(C)]
/*@ struct core/src/timer/timer_manager.rs TimerManager */

/// What is left of a map that is emptied.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Drain<K, V> { x: std::marker::PhantomData<(K, V)> }
impl<K, V> Drain<K, V> {
    uninterp spec fn rest(self) -> Map<K, V>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(K, V)>)
        ensures match r {
            Some(e) => old(self).rest().contains_pair(e.0, e.1) && final(self).rest() == old(self).rest().remove(e.0)
                && final(self).rest().dom().len() < old(self).rest().dom().len(),
            None => old(self).rest() == Map::<K, V>::empty() && final(self).rest() == old(self).rest(),
        },
    { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    fn drain(&mut self) -> (r: Drain<K, V>)
        ensures r.rest() == old(self)@, final(self)@ == Map::<K, V>::empty(),
    { unimplemented!() }
}

/// The handle is for this timer.
spec fn own<C>(id: Uuid, h: TimerHandle<C>) -> bool {
    match h { TimerHandle::OneShot { _id, .. } => _id == id, TimerHandle::Periodic { _id, .. } => _id == id }
}
impl<C> TimerManager<C> {
    spec fn inv(self) -> bool { forall|id: Uuid| self.handles@.contains_key(id) ==> own(id, #[trigger] self.handles@[id]) }
/*@ fn core/src/timer/timer_manager.rs :: impl<C: ComponentDefinition> TimerManager<C> :: new
    ensures r.inv(), r.timer == timer, r.handles@ == Map::<Uuid, TimerHandle<C>>::empty(), r.timer_queue.fresh(),
*/
/*@ fn core/src/timer/timer_manager.rs :: impl<C: ComponentDefinition> TimerManager<C> :: new_ref
    ensures r.component == component, r.msg_queue == self.timer_queue.weak(),
*/
/*@ fn core/src/timer/timer_manager.rs :: impl<C: ComponentDefinition> TimerManager<C> :: try_action
    requires old(self).inv(),
    ensures final(self).inv(), final(self).timer@ == old(self).timer@, final(self).timer_queue == old(self).timer_queue,
        match r {
            // a timer that fires once is gone before its action runs
            ExecuteAction::Once(id, a) => popped(old(self).timer_queue, Timeout(id)) && final(self).handles@ == old(self).handles@.remove(id)
                && old(self).handles@.contains_key(id) && old(self).handles@[id] == (TimerHandle::OneShot { _id: id, action: a }),
            // a periodic one stays
            ExecuteAction::Periodic(id, a) => popped(old(self).timer_queue, Timeout(id)) && final(self).handles@ == old(self).handles@
                && old(self).handles@.contains_key(id) && old(self).handles@[id] == (TimerHandle::Periodic { _id: id, action: a }),
            // one that was cancelled, or fired already, does nothing
            ExecuteAction::Cancelled => final(self).handles@ == old(self).handles@
                && exists|id: Uuid| #[trigger] popped(old(self).timer_queue, Timeout(id)) && !old(self).handles@.contains_key(id),
            ExecuteAction::None => final(self).handles@ == old(self).handles@,
        },
    @first proof { let m = old(self).handles@; assert forall|id: Uuid| m.contains_key(id) implies #[trigger] m.remove(id).insert(id, m[id]) == m by { assert(m.remove(id).insert(id, m[id]) =~= m); }
        assert forall|id: Uuid| !m.contains_key(id) implies #[trigger] m.remove(id) == m by { assert(m.remove(id) =~= m); } }
*/
/*@ fn core/src/timer/timer_manager.rs :: impl<C: ComponentDefinition> TimerManager<C> :: schedule_once
    requires old(self).inv(),
    ensures
        final(self).handles@.contains_key(r.0), final(self).handles@.remove(r.0) == old(self).handles@.remove(r.0),
        final(self).handles@[r.0] matches TimerHandle::OneShot { _id, action: a } && _id == r.0 && a.runs() == action.which(),
        final(self).timer@ == old(self).timer@.insert(r.0, Due::Once { after: timeout, what: ActorRefState { id: r.0, receiver: TimerActorRef { component, msg_queue: old(self).timer_queue.weak() } } }),
        final(self).timer_queue == old(self).timer_queue, final(self).inv(),
    @after `self.handles.insert(id, handle);` proof { assert(self.handles@.remove(id) =~= old(self).handles@.remove(id)); }
*/
/*@ fn core/src/timer/timer_manager.rs :: impl<C: ComponentDefinition> TimerManager<C> :: schedule_periodic
    requires old(self).inv(),
    ensures
        final(self).handles@.contains_key(r.0), final(self).handles@.remove(r.0) == old(self).handles@.remove(r.0),
        final(self).handles@[r.0] matches TimerHandle::Periodic { _id, action: a } && _id == r.0 && a.runs() == action.which(),
        final(self).timer@ == old(self).timer@.insert(r.0, Due::Periodic { after: delay, every: period, what: ActorRefState { id: r.0, receiver: TimerActorRef { component, msg_queue: old(self).timer_queue.weak() } } }),
        final(self).timer_queue == old(self).timer_queue, final(self).inv(),
    @after `self.handles.insert(id, handle);` proof { assert(self.handles@.remove(id) =~= old(self).handles@.remove(id)); }
*/
/*@ fn core/src/timer/timer_manager.rs :: impl<C: ComponentDefinition> TimerManager<C> :: cancel_timer
    requires old(self).inv(),
    ensures final(self).inv(), final(self).timer_queue == old(self).timer_queue,
        final(self).handles@ == old(self).handles@.remove(handle.0), final(self).timer@ == old(self).timer@.remove(handle.0),
*/
/*@ fn core/src/timer/timer_manager.rs :: impl<C: ComponentDefinition> Drop for TimerManager<C> :: drop as stop_all
    // a component that is gone leaves no timer armed
    ensures forall|id: Uuid| #[trigger] old(self).handles@.contains_key(id) ==> !final(self).timer@.contains_key(id),
        forall|id: Uuid| !old(self).handles@.contains_key(id) ==> (#[trigger] final(self).timer@.contains_key(id) <==> old(self).timer@.contains_key(id)),
    @loop 0 invariant
        forall|id: Uuid| #[trigger] old(self).handles@.contains_key(id) ==> all.rest().contains_key(id) || !self.timer@.contains_key(id),
        forall|id: Uuid| #[trigger] all.rest().contains_key(id) ==> old(self).handles@.contains_key(id),
        forall|id: Uuid| !old(self).handles@.contains_key(id) ==> (#[trigger] self.timer@.contains_key(id) <==> old(self).timer@.contains_key(id)),
        ensures all.rest() == Map::<Uuid, TimerHandle<C>>::empty(),
        decreases all.rest().dom().len(),
*/
}
fn main() {}
}
