// C18, C21, C22, C25: what is sent to a component is counted, queued and scheduled; port events reach the connected ports.
use vstd::prelude::*;
verus! {
//@ subst MessageBounds => Sized
//@ subst Weak<dyn MsgQueueContainer<Message = Out>> => WeakContainer<Out>
//@ subst Weak<dyn MsgQueueContainer<Message = M>> => WeakContainer<M>
//@ subst Arc<dyn MsgQueueContainer<Message = M>> => Container<M>
//@ subst Weak<dyn CoreContainer> => WeakComponent
//@ subst Arc<dyn CoreContainer> => Component
//@ subst &dyn CoreContainer => &Component
//@ subst Arc::downgrade(&self.component) => self.component.downgrade()
//@ subst Arc::downgrade(&self.msg_queue) => self.msg_queue.downgrade()
//@ subst Arc::downgrade(&p) => p.downgrade()
//@ subst Arc::new(ConcurrentQueue::new()) => ConcurrentQueue::new()
//@ subst Arc<ConcurrentQueue<P::Request>> => ConcurrentQueue<P::Request>
//@ subst Arc<ConcurrentQueue<P::Indication>> => ConcurrentQueue<P::Indication>
//@ subst Weak<ConcurrentQueue<P::Request>> => WeakQueue<P::Request>
//@ subst Weak<ConcurrentQueue<P::Indication>> => WeakQueue<P::Indication>
//@ subst P: Port + 'static => P: Port
//@ subst fn(In) -> Out => Conversion<In, Out>
//@ subst (self.convert)(value) => self.convert.call(value)
//@ subst match self.parent { Some(ref p) => match &self.parent { Some(p)
//@ subst R: Send + Sized => R: Sized
//@ subst Response: Send + Sized + std::fmt::Debug + 'static => Response: Sized
//@ subst Response: Send + Sized => Response: Sized
//@ subst T: Send + Sized => T: Sized
//@ subst self.common.require_channels.iter() => Visit::new(&self.common.require_channels)
//@ subst self.common.provide_channels.iter() => Visit::new(&self.common.provide_channels)
//@ subst Box<dyn AdaptedQueueContainer<M>> => Adapted<M>
//@ subst Some(ref scheduler) => Some(scheduler)
//@ subst match self.custom_scheduler => match &self.custom_scheduler
//@ subst self: Pin<&mut Self> => &mut self
//@ subst self.get_mut() => self
//@ subst Poll<Self::Output> => Poll<Result<T, PromiseDropped>>
//@ subst resp: Self::Response => resp: Resp
//@ inline for_each_with core/src/utils/iter_extras.rs :: trait IterExtras: Iterator + Sized :: for_each_with
//@ inline retain verus/vec.rs :: - :: retain
#[verifier::external_body]
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Uuid { x: u128 }
pub assume_specification[ <Uuid as PartialEq>::eq ](a: &Uuid, b: &Uuid) -> (r: bool)
    ensures r == (*a == *b);
#[verifier::external_body]
pub struct NetMessage { x: usize }
#[verifier::external_body]
pub struct ControlEvent { x: usize }
/*@ enum core/src/component/mod.rs SchedulingDecision */
/*@ enum core/src/messaging/mod.rs MsgEnvelope */
/*@ enum core/src/ports.rs OwnershipResult */

// ---- components, their queues and weak references to them; each has an identity
/// The component that reads this queue.
pub uninterp spec fn owner(q: int) -> int;
/// Its message and control queue.
pub uninterp spec fn inbox(c: int) -> int;
pub uninterp spec fn controls(c: int) -> int;
/// Its name.
pub uninterp spec fn named(c: int) -> Uuid;
/// It was found deallocated.
pub uninterp spec fn gone(x: int) -> bool;
/// A work item of the component was counted, with this answer.
pub uninterp spec fn counted(c: int, d: SchedulingDecision) -> bool;
/// It was handed to its scheduler.
pub uninterp spec fn scheduled(c: int) -> bool;
/// This was put into the queue.
pub uninterp spec fn pushed<T>(q: int, t: T) -> bool;
pub uninterp spec fn pushed_net(q: int, t: NetMessage) -> bool;

/// Counted first, then queued, and scheduled if counting says so.
spec fn sent<T>(c: int, q: int, t: T) -> bool {
    pushed(q, t) && exists|d: SchedulingDecision| #[trigger] counted(c, d) && (d is Schedule ==> scheduled(c))
}

#[verifier::external_body]
pub struct WeakComponent { x: usize }
#[verifier::external_body]
pub struct Component { x: usize }
#[verifier::external_body]
pub struct ComponentCore { x: usize }
#[verifier::external_body]
pub struct DynQueue { x: usize }
impl ComponentCore {
    pub uninterp spec fn of(self) -> int;
    #[verifier::external_body]
    fn increment_work(&self) -> (r: SchedulingDecision)
        ensures counted(self.of(), r),
    { unimplemented!() }
}
impl WeakComponent {
    pub uninterp spec fn of(self) -> int;
    #[verifier::external_body]
    fn upgrade(&self) -> (r: Option<Component>)
        ensures match r { Some(c) => c.of() == self.of(), None => gone(self.of()) },
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: WeakComponent)
        ensures r == *self,
    { unimplemented!() }
    #[verifier::external_body]
    fn strong_count(&self) -> (r: usize)
        ensures r == 0 ==> gone(self.of()),
    { unimplemented!() }
}
impl Component {
    pub uninterp spec fn of(self) -> int;
    #[verifier::external_body]
    fn id(&self) -> (r: Uuid)
        ensures r == named(self.of()),
    { unimplemented!() }
    #[verifier::external_body]
    fn core(&self) -> (r: &ComponentCore)
        ensures r.of() == self.of(),
    { unimplemented!() }
    #[verifier::external_body]
    fn schedule(&self)
        requires counted(self.of(), SchedulingDecision::Schedule),
        ensures scheduled(self.of()),
    { unimplemented!() }
    #[verifier::external_body]
    fn dyn_message_queue(&self) -> (r: &DynQueue)
        ensures r.of() == inbox(self.of()), owner(r.of()) == self.of(),
    { unimplemented!() }
    #[verifier::external_body]
    fn downgrade(&self) -> (r: WeakComponent)
        ensures r.of() == self.of(),
    { unimplemented!() }
}
impl DynQueue {
    pub uninterp spec fn of(self) -> int;
    #[verifier::external_body]
    fn push_net(&self, t: NetMessage)
        requires exists|d: SchedulingDecision| #[trigger] counted(owner(self.of()), d),
        ensures pushed_net(self.of(), t),
    { unimplemented!() }
}
/// Component references that know the type of the messages.
#[verifier::external_body]
#[verifier::reject_recursive_types(M)]
pub struct WeakContainer<M> { x: std::marker::PhantomData<M> }
#[verifier::external_body]
#[verifier::reject_recursive_types(M)]
pub struct Container<M> { x: std::marker::PhantomData<M> }
impl<M> WeakContainer<M> {
    pub uninterp spec fn of(self) -> int;
    #[verifier::external_body]
    fn upgrade(&self) -> (r: Option<Container<M>>)
        ensures match r { Some(c) => c.of() == self.of(), None => gone(self.of()) },
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: WeakContainer<M>)
        ensures r == *self,
    { unimplemented!() }
}
impl<M> Container<M> {
    pub uninterp spec fn of(self) -> int;
    #[verifier::external_body]
    fn id(&self) -> (r: Uuid)
        ensures r == named(self.of()),
    { unimplemented!() }
    #[verifier::external_body]
    fn core(&self) -> (r: &ComponentCore)
        ensures r.of() == self.of(),
    { unimplemented!() }
    #[verifier::external_body]
    fn schedule(&self)
        requires counted(self.of(), SchedulingDecision::Schedule),
        ensures scheduled(self.of()),
    { unimplemented!() }
    #[verifier::external_body]
    fn message_queue(&self) -> (r: &TypedMsgQueue<M>)
        ensures r.inner.of() == inbox(self.of()), owner(r.inner.of()) == self.of(),
    { unimplemented!() }
    #[verifier::external_body]
    fn downgrade(&self) -> (r: WeakContainer<M>)
        ensures r.of() == self.of(),
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Container<M>)
        ensures r == *self,
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ConcurrentQueue<T> { x: std::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct WeakQueue<T> { x: std::marker::PhantomData<T> }
pub uninterp spec fn popped<T>(q: int, t: T) -> bool;
impl<T> ConcurrentQueue<T> {
    pub uninterp spec fn of(self) -> int;
    pub uninterp spec fn fresh(self) -> bool;
    #[verifier::external_body]
    fn new() -> (r: Self)
        ensures r.fresh(),
    { unimplemented!() }
    #[verifier::external_body]
    fn push(&self, t: T)
        requires exists|d: SchedulingDecision| #[trigger] counted(owner(self.of()), d),
        ensures pushed(self.of(), t),
    { unimplemented!() }
    #[verifier::external_body]
    fn pop(&self) -> (r: Option<T>)
        ensures r matches Some(t) ==> popped(self.of(), t),
    { unimplemented!() }
    #[verifier::external_body]
    fn downgrade(&self) -> (r: WeakQueue<T>)
        ensures r.of() == self.of(),
    { unimplemented!() }
}
impl<T> WeakQueue<T> {
    pub uninterp spec fn of(self) -> int;
    #[verifier::external_body]
    fn upgrade(&self) -> (r: Option<ConcurrentQueue<T>>)
        ensures match r { Some(q) => q.of() == self.of(), None => gone(self.of()) },
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: WeakQueue<T>)
        ensures r == *self,
    { unimplemented!() }
    #[verifier::external_body]
    fn strong_count(&self) -> (r: usize)
        ensures r == 0 ==> gone(self.of()),
    { unimplemented!() }
    #[verifier::external_body]
    fn ptr_eq(&self, other: &WeakQueue<T>) -> (r: bool)
        ensures r == (self.of() == other.of()),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct Conversion<A, B> { x: std::marker::PhantomData<(A, B)> }
impl<A, B> Conversion<A, B> {
    pub uninterp spec fn gives(self, a: A, b: B) -> bool;
    #[verifier::external_body]
    fn call(&self, a: A) -> (r: B)
        ensures self.gives(a, r),
    { unimplemented!() }
}

// ---- references to actors
#[verifier::reject_recursive_types(M)]
/*@ struct core/src/actors/refs.rs TypedMsgQueue */
impl<M: Sized> TypedMsgQueue<M> {
/*@ fn core/src/actors/refs.rs :: impl<M: MessageBounds> TypedMsgQueue<M> :: pop
    ensures r matches Some(t) ==> popped(self.inner.of(), t),
*/
/*@ fn core/src/actors/refs.rs :: impl<M: MessageBounds> TypedMsgQueue<M> :: push
    requires exists|d: SchedulingDecision| #[trigger] counted(owner(self.inner.of()), d),
    ensures pushed(self.inner.of(), value),
*/
/*@ fn core/src/actors/refs.rs :: impl<M: MessageBounds> DynMsgQueue for TypedMsgQueue<M> :: push_net
    requires exists|d: SchedulingDecision| #[trigger] counted(owner(self.inner.of()), d),
    ensures pushed(self.inner.of(), MsgEnvelope::<M>::Net(value)),
*/
}
#[verifier::reject_recursive_types(In)]
#[verifier::reject_recursive_types(Out)]
/*@ struct core/src/actors/refs.rs ConvertingMsgQueueContainer */
impl<In, Out> ConvertingMsgQueueContainer<In, Out> {
/*@ fn core/src/actors/refs.rs :: impl<In, Out> ConvertingMsgQueueContainer<In, Out> where Out: MessageBounds, :: convert
    ensures self.convert.gives(value, r),
*/
/*@ fn core/src/actors/refs.rs :: impl<In, Out> ConvertingMsgQueueContainer<In, Out> where Out: MessageBounds, :: push_and_schedule
    ensures gone(self.inner.of()) || exists|m: Out| self.convert.gives(value, m) && #[trigger] sent(self.inner.of(), inbox(self.inner.of()), MsgEnvelope::Typed(m)),
    @after `MsgEnvelope::Typed(out);` let ghost m0 = msg;
    @after `c.schedule(); }` proof { assert(sent(self.inner.of(), inbox(self.inner.of()), m0)); }
*/
/*@ fn core/src/actors/refs.rs :: impl<In, Out> AdaptedQueueContainer<In> for ConvertingMsgQueueContainer<In, Out> where In: 'static, Out: MessageBounds, :: enqueue_into
    ensures gone(self.inner.of()) || exists|m: Out| self.convert.gives(value, m) && #[trigger] sent(self.inner.of(), inbox(self.inner.of()), MsgEnvelope::Typed(m)),
*/
}
/*@ struct core/src/actors/refs.rs DynActorRef */
impl DynActorRef {
/*@ fn core/src/actors/refs.rs :: impl DynActorRef :: enqueue
    ensures gone(self.component.of()) || (pushed_net(inbox(self.component.of()), msg)
        && exists|d: SchedulingDecision| #[trigger] counted(self.component.of(), d) && (d is Schedule ==> scheduled(self.component.of()))),
*/
/*@ fn core/src/actors/refs.rs :: impl DynActorRef :: can_upgrade_component
    ensures !r ==> gone(self.component.of()),
*/
}
#[verifier::reject_recursive_types(M)]
/*@ struct core/src/actors/refs.rs ActorRefStrong */
impl<M: Sized> ActorRefStrong<M> {
/*@ fn core/src/actors/refs.rs :: impl<M: MessageBounds> ActorRefStrong<M> :: enqueue
    ensures sent(self.component.of(), inbox(self.component.of()), env),
*/
/*@ fn core/src/actors/refs.rs :: impl<M: MessageBounds> ActorRefStrong<M> :: weak_ref
    ensures r.component.of() == self.component.of(),
*/
}
#[verifier::reject_recursive_types(M)]
/*@ struct core/src/actors/refs.rs ActorRef */
impl<M: Sized> ActorRef<M> {
/*@ fn core/src/actors/refs.rs :: impl<M: MessageBounds> ActorRef<M> :: new
    ensures r.component == component,
*/
/*@ fn core/src/actors/refs.rs :: impl<M: MessageBounds> ActorRef<M> :: enqueue
    ensures gone(self.component.of()) || sent(self.component.of(), inbox(self.component.of()), env),
*/
/*@ fn core/src/actors/refs.rs :: impl<M: MessageBounds> ActorRef<M> :: hold
    ensures match r { Some(s) => s.component.of() == self.component.of(), None => gone(self.component.of()) },
*/
}

/// A reference that converts what it is given, whatever to.
#[verifier::external_body]
#[verifier::reject_recursive_types(M)]
pub struct Adapted<M> { x: std::marker::PhantomData<M> }
pub uninterp spec fn took<M>(a: Adapted<M>, m: M) -> bool;
impl<M> Adapted<M> {
    #[verifier::external_body]
    fn enqueue_into(&self, m: M)
        ensures took(*self, m),
    { unimplemented!() }
    #[verifier::external_body]
    fn box_clone(&self) -> (r: Adapted<M>)
        ensures forall|m: M| took(r, m) == #[trigger] took(*self, m),
    { unimplemented!() }
}
#[verifier::reject_recursive_types(M)]
/*@ struct core/src/actors/refs.rs Recipient */
impl<M> Recipient<M> {
/*@ fn core/src/actors/refs.rs :: impl<M: fmt::Debug> Recipient<M> :: from
    ensures r.component == component,
*/
/*@ fn core/src/actors/refs.rs :: impl<M: fmt::Debug> Recipient<M> :: tell
    ensures exists|m: M| call_ensures(<I as Into<M>>::into, (v,), m) && #[trigger] took(self.component, m),
*/
/*@ fn core/src/actors/refs.rs :: impl<M> Clone for Recipient<M> :: clone
    ensures forall|m: M| took(r.component, m) == #[trigger] took(self.component, m),
*/
}

// ---- control events, and who runs the component
pub uninterp spec fn dedicated(c: int) -> bool;
pub uninterp spec fn woken(t: DedicatedThreadScheduler) -> bool;
#[verifier::external_body]
pub struct DedicatedThreadScheduler { x: usize }
impl DedicatedThreadScheduler {
    #[verifier::external_body]
    fn schedule_custom(&self)
        ensures woken(*self),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct KompactSystem { x: usize }
impl KompactSystem {
    // components with a thread of their own must not come here
    #[verifier::external_body]
    fn schedule(&self, c: Component)
        requires !dedicated(c.of()),
        ensures scheduled(c.of()),
    { unimplemented!() }
}
impl ComponentCore {
    #[verifier::external_body]
    fn system(&self) -> (r: &KompactSystem)
    { unimplemented!() }
    #[verifier::external_body]
    fn component(&self) -> (r: Component)
        ensures r.of() == self.of(),
    { unimplemented!() }
}
/// The fields of a component that matter here.
pub struct Actual { core: ComponentCore, custom_scheduler: Option<DedicatedThreadScheduler>, ctrl_queue: ConcurrentQueue<ControlEvent> }
impl Actual {
    spec fn ok(self) -> bool { owner(self.ctrl_queue.of()) == self.core.of() && (dedicated(self.core.of()) <==> self.custom_scheduler is Some) }
    spec fn runs(self) -> bool { match self.custom_scheduler { Some(t) => woken(t), None => scheduled(self.core.of()) } }
    fn core(&self) -> (r: &ComponentCore)
        ensures *r == self.core,
    { &self.core }
/*@ fn core/src/component/actual_component.rs :: impl<CD: ComponentTraits> Component<CD> :: enqueue_control
    requires self.ok(),
    ensures pushed(self.ctrl_queue.of(), event),
        exists|d: SchedulingDecision| #[trigger] counted(self.core.of(), d) && (d is Schedule ==> self.runs()),
*/
/*@ fn core/src/component/actual_component.rs :: impl<CD: ComponentTraits> CoreContainer for Component<CD> :: schedule
    requires self.ok(),
    ensures self.runs(),
*/
}

// ---- asking
pub mod oneshot {
    use vstd::prelude::*;
    /// A value was sent over the channel; its receiver, its sender was dropped.
    pub uninterp spec fn put<T>(ch: int, t: T) -> bool;
    pub uninterp spec fn unheard(ch: int) -> bool;
    pub uninterp spec fn silent(ch: int) -> bool;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T> { x: std::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { x: std::marker::PhantomData<T> }
    pub struct Canceled;
    impl<T> Sender<T> {
        pub uninterp spec fn of(self) -> int;
        #[verifier::external_body]
        pub fn send(self, t: T) -> (r: Result<(), T>)
            ensures match r { Ok(_) => put(self.of(), t), Err(_) => unheard(self.of()) },
        { unimplemented!() }
    }
    impl<T> Receiver<T> {
        pub uninterp spec fn of(self) -> int;
        #[verifier::external_body]
        pub fn poll(&mut self, cx: &mut super::Context) -> (r: super::Poll<Result<T, Canceled>>)
            ensures final(self).of() == old(self).of(),
                match r { super::Poll::Ready(Ok(t)) => put(old(self).of(), t), super::Poll::Ready(Err(_)) => silent(old(self).of()), super::Poll::Pending => true },
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn channel<T>() -> (r: (Sender<T>, Receiver<T>))
        ensures r.0.of() == r.1.of(),
    { unimplemented!() }
}
pub enum Poll<T> { Ready(T), Pending }
#[verifier::external_body]
pub struct Context { x: usize }
/*@ enum core/src/utils/mod.rs PromiseErr */
pub struct PromiseDropped;
#[verifier::reject_recursive_types(T)]
/*@ struct core/src/utils/mod.rs KFuture */
#[verifier::reject_recursive_types(T)]
/*@ struct core/src/utils/mod.rs KPromise */
/*@ fn core/src/utils/mod.rs :: - :: promise
    ensures r.0.result_channel.of() == r.1.result_channel.of(),
*/
impl<T> KFuture<T> {
/*@ fn core/src/utils/mod.rs :: impl<T: Send + Sized> Future for KFuture<T> :: poll
    ensures final(self).result_channel.of() == old(self).result_channel.of(),
        match r {
            Poll::Ready(Ok(t)) => oneshot::put(old(self).result_channel.of(), t),
            Poll::Ready(Err(_)) => oneshot::silent(old(self).result_channel.of()),
            Poll::Pending => true,
        },
    @opt `Pin::new(receiver) .poll(cx) .map(|res| res.map_err(|_e| PromiseDropped))` => `match receiver.poll(cx) { Poll::Ready(res) => Poll::Ready(res.map_err(|_e| PromiseDropped)), Poll::Pending => Poll::Pending }`
*/
}
impl<T> KPromise<T> {
    /// The reply was given, or nobody waits for it.
    spec fn told(self, t: T, r: Result<(), PromiseErr>) -> bool {
        match r { Ok(_) => oneshot::put(self.result_channel.of(), t), Err(e) => e is ChannelBroken && oneshot::unheard(self.result_channel.of()) }
    }
/*@ fn core/src/utils/mod.rs :: impl<T: Send + Sized> Fulfillable<T> for KPromise<T> :: fulfil
    ensures self.told(t, r),
*/
}
#[verifier::reject_recursive_types(Request)]
#[verifier::reject_recursive_types(Response)]
/*@ struct core/src/utils/ask.rs Ask */
impl<Request, Response> Ask<Request, Response> {
/*@ fn core/src/utils/ask.rs :: impl<Request, Response> Ask<Request, Response> where Request: MessageBounds, Response: Send + Sized, :: new
    ensures r.promise == promise, r.content == content,
*/
/*@ fn core/src/utils/ask.rs :: impl<Request, Response> Ask<Request, Response> where Request: MessageBounds, Response: Send + Sized, :: of
    ensures forall|p: KPromise<Response>| #[trigger] r.requires((p,)),
        forall|p: KPromise<Response>, a: Ask<Request, Response>| #[trigger] r.ensures((p,), a) ==> a.promise == p && a.content == content,
    @opt `|promise| Ask::new(promise, content)` => `|promise: KPromise<Response>| -> (r: Ask<Request, Response>) ensures r.promise == promise && r.content == content { Ask::new(promise, content) }`
*/
/*@ fn core/src/utils/ask.rs :: impl<Request, Response> Ask<Request, Response> where Request: MessageBounds, Response: Send + Sized, :: request
    ensures *r == self.content,
*/
/*@ fn core/src/utils/ask.rs :: impl<Request, Response> Ask<Request, Response> where Request: MessageBounds, Response: Send + Sized, :: take
    ensures r.0 == self.promise, r.1 == self.content,
*/
/*@ fn core/src/utils/ask.rs :: impl<Request, Response> Ask<Request, Response> where Request: MessageBounds, Response: Send + Sized, :: reply
    ensures self.promise.told(response, r),
*/
/*@ fn core/src/utils/ask.rs :: impl<Request, Response> Ask<Request, Response> where Request: MessageBounds, Response: Send + Sized, :: complete
    requires f.requires((self.content,)),
    ensures exists|t: Response| f.ensures((self.content,), t) && #[trigger] self.promise.told(t, r),
*/
}
impl<M: Sized> ActorRefStrong<M> {
/*@ fn core/src/actors/refs.rs :: impl<M: MessageBounds> ActorRefStrong<M> :: tell
    ensures exists|m: M| call_ensures(<I as Into<M>>::into, (v,), m) && #[trigger] sent(self.component.of(), inbox(self.component.of()), MsgEnvelope::Typed(m)),
*/
/*@ fn core/src/actors/refs.rs :: impl<M: MessageBounds> ActorRefStrong<M> :: ask_with
    requires forall|p: KPromise<R>| #[trigger] f.requires((p,)),
    ensures exists|p: KPromise<R>, m: M| p.result_channel.of() == r.result_channel.of() && #[trigger] f.ensures((p,), m)
        && #[trigger] sent(self.component.of(), inbox(self.component.of()), MsgEnvelope::Typed(m)),
*/
}
impl<Request, Response> ActorRefStrong<Ask<Request, Response>> {
/*@ fn core/src/actors/refs.rs :: impl<Request, Response> ActorRefStrong<Ask<Request, Response>> where Request: MessageBounds, Response: Send + Sized + std::fmt::Debug + 'static, :: ask
    ensures exists|a: Ask<Request, Response>| a.content == request && a.promise.result_channel.of() == r.result_channel.of()
        && #[trigger] sent(self.component.of(), inbox(self.component.of()), MsgEnvelope::Typed(a)),
*/
}
impl<M: Sized> ActorRef<M> {
/*@ fn core/src/actors/refs.rs :: impl<M: MessageBounds> ActorRef<M> :: tell
    ensures gone(self.component.of()) || exists|m: M| call_ensures(<I as Into<M>>::into, (v,), m) && #[trigger] sent(self.component.of(), inbox(self.component.of()), MsgEnvelope::Typed(m)),
*/
/*@ fn core/src/actors/refs.rs :: impl<M: MessageBounds> ActorRef<M> :: ask_with
    requires forall|p: KPromise<R>| #[trigger] f.requires((p,)),
    ensures gone(self.component.of()) || exists|p: KPromise<R>, m: M| p.result_channel.of() == r.result_channel.of() && #[trigger] f.ensures((p,), m)
        && #[trigger] sent(self.component.of(), inbox(self.component.of()), MsgEnvelope::Typed(m)),
*/
}
impl<Request, Response> ActorRef<Ask<Request, Response>> {
/*@ fn core/src/actors/refs.rs :: impl<Request, Response> ActorRef<Ask<Request, Response>> where Request: MessageBounds, Response: Send + Sized + std::fmt::Debug + 'static, :: ask
    ensures gone(self.component.of()) || exists|a: Ask<Request, Response>| a.content == request && a.promise.result_channel.of() == r.result_channel.of()
        && #[trigger] sent(self.component.of(), inbox(self.component.of()), MsgEnvelope::Typed(a)),
*/
}
#[verifier::reject_recursive_types(Req)]
#[verifier::reject_recursive_types(Resp)]
/*@ struct core/src/actors/refs.rs WithSender */
impl<Req, Resp> WithSender<Req, Resp> {
/*@ fn core/src/actors/refs.rs :: impl<Req: MessageBounds, Resp: MessageBounds> WithSender<Req, Resp> :: new
    ensures r.sender == sender, r.content == content,
*/
/*@ fn core/src/actors/refs.rs :: impl<Req: MessageBounds, Resp: MessageBounds> WithSender<Req, Resp> :: sender
    ensures *r == self.sender,
*/
/*@ fn core/src/actors/refs.rs :: impl<Req: MessageBounds, Resp: MessageBounds> WithSender<Req, Resp> :: content
    ensures *r == self.content,
*/
/*@ fn core/src/actors/refs.rs :: impl<Req: MessageBounds, Resp: MessageBounds> WithSender<Req, Resp> :: take_content
    ensures r == self.content,
*/
/*@ fn core/src/actors/refs.rs :: impl<Req: MessageBounds, Resp: MessageBounds> Request for WithSender<Req, Resp> :: reply
    ensures gone(self.sender.component.of()) || exists|m: Resp| call_ensures(<Resp as Into<Resp>>::into, (resp,), m) && #[trigger] sent(self.sender.component.of(), inbox(self.sender.component.of()), MsgEnvelope::Typed(m)),
*/
}

// ---- ports
pub trait Port: Sized {
    type Indication: Clone;
    type Request: Clone;
}
/*@ struct core/src/ports.rs ProvidedRef */
/*@ struct core/src/ports.rs RequiredRef */
impl<P: Port> ProvidedRef<P> {
    spec fn ok(self) -> bool { owner(self.msg_queue.of()) == self.component.of() }
    spec fn dead(self) -> bool { gone(self.msg_queue.of()) || gone(self.component.of()) }
    spec fn got(self, e: P::Request) -> bool { sent(self.component.of(), self.msg_queue.of(), e) }
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> Clone for ProvidedRef<P> :: clone
    ensures r == *self,
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> PartialEq for ProvidedRef<P> :: eq
    ensures r == (self.msg_queue.of() == other.msg_queue.of()),
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> ProvidedRef<P> :: enqueue
    requires self.ok(),
    ensures if r { self.dead() } else { self.got(event) },
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> ProvidedRef<P> :: is_live
    ensures !r ==> self.dead(),
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> ProvidedRef<P> :: owned_by_component_with_id
    ensures match r {
        OwnershipResult::Owned => named(self.component.of()) == component_id,
        OwnershipResult::NotOwned => named(self.component.of()) != component_id,
        OwnershipResult::Deallocated => gone(self.component.of()),
    },
*/
}
impl<P: Port> RequiredRef<P> {
    spec fn ok(self) -> bool { owner(self.msg_queue.of()) == self.component.of() }
    spec fn dead(self) -> bool { gone(self.msg_queue.of()) || gone(self.component.of()) }
    spec fn got(self, e: P::Indication) -> bool { sent(self.component.of(), self.msg_queue.of(), e) }
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> Clone for RequiredRef<P> :: clone
    ensures r == *self,
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> PartialEq for RequiredRef<P> :: eq
    ensures r == (self.msg_queue.of() == other.msg_queue.of()),
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> RequiredRef<P> :: enqueue
    requires self.ok(),
    ensures if r { self.dead() } else { self.got(event) },
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> RequiredRef<P> :: is_live
    ensures !r ==> self.dead(),
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> RequiredRef<P> :: owned_by_component_with_id
    ensures match r {
        OwnershipResult::Owned => named(self.component.of()) == component_id,
        OwnershipResult::NotOwned => named(self.component.of()) != component_id,
        OwnershipResult::Deallocated => gone(self.component.of()),
    },
*/
}
mod seqs {
use vstd::prelude::*;
/// What looking at one element of a vector, and keeping or removing it, does to its two halves.
pub proof fn step<T>(old: Seq<T>, now: Seq<T>, goes: int, at: int)
    requires 0 <= at <= goes < old.len(), now.len() - at == old.len() - goes, now.skip(at) == old.skip(goes),
    ensures
        now[at] == old[goes],
        old.take(goes + 1).drop_last() == old.take(goes), old.take(goes + 1).last() == old[goes],
        now.take(at + 1).drop_last() == now.take(at), now.take(at + 1).last() == now[at],
        now.skip(at + 1) == old.skip(goes + 1),
        now.remove(at).skip(at) == old.skip(goes + 1), now.remove(at).take(at) == now.take(at),
{
    assert(now.skip(at)[0] == now[at]);
    assert(old.skip(goes)[0] == old[goes]);
    assert(old.take(goes + 1).drop_last() =~= old.take(goes));
    assert(now.take(at + 1).drop_last() =~= now.take(at));
    assert(now.skip(at + 1) =~= now.skip(at).skip(1));
    assert(old.skip(goes + 1) =~= old.skip(goes).skip(1));
    assert(now.remove(at).skip(at) =~= now.skip(at + 1));
    assert(now.remove(at).take(at) =~= now.take(at));
}
/// `new` is `old` without some of those for which `may` holds, and without all for which `must` does.
pub open spec fn without<T>(old: Seq<T>, new: Seq<T>, may: spec_fn(T) -> bool, must: spec_fn(T) -> bool) -> bool
    decreases old.len(),
{
    if old.len() == 0 { new.len() == 0 }
    else {
        ||| (new.len() > 0 && new.last() == old.last() && !must(old.last()) && without(old.drop_last(), new.drop_last(), may, must))
        ||| (may(old.last()) && without(old.drop_last(), new, may, must))
    }
}
pub broadcast proof fn kept<T>(old: Seq<T>, new: Seq<T>, may: spec_fn(T) -> bool, must: spec_fn(T) -> bool)
    requires #[trigger] without(old, new, may, must),
    ensures forall|i: int| 0 <= i < new.len() ==> exists|j: int| 0 <= j < old.len() && #[trigger] new[i] == #[trigger] old[j],
    decreases old.len(),
{
    if old.len() > 0 {
        if new.len() > 0 && new.last() == old.last() && !must(old.last()) && without(old.drop_last(), new.drop_last(), may, must) {
            kept(old.drop_last(), new.drop_last(), may, must);
            assert forall|i: int| 0 <= i < new.len() implies exists|j: int| 0 <= j < old.len() && #[trigger] new[i] == #[trigger] old[j] by {
                if i < new.len() - 1 { assert(new.drop_last()[i] == new[i]); let j = choose|j: int| 0 <= j < old.len() - 1 && new.drop_last()[i] == old.drop_last()[j]; assert(old.drop_last()[j] == old[j]); }
                else { assert(new[i] == old[old.len() - 1]); }
            }
        } else {
            kept(old.drop_last(), new, may, must);
            assert forall|i: int| 0 <= i < new.len() implies exists|j: int| 0 <= j < old.len() && #[trigger] new[i] == #[trigger] old[j] by {
                let j = choose|j: int| 0 <= j < old.len() - 1 && new[i] == old.drop_last()[j]; assert(old.drop_last()[j] == old[j]);
            }
        }
    }
}
pub proof fn same<T>(s: Seq<T>, may: spec_fn(T) -> bool, must: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> !must(#[trigger] s[i]),
    ensures without(s, s, may, must),
    decreases s.len(),
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.len() - 1 implies !must(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); } same(s.drop_last(), may, must); } }
pub broadcast proof fn all_taken<T>(s: Seq<T>)
    ensures #[trigger] s.take(s.len() as int) == s,
{ assert(s.take(s.len() as int) =~= s); }
}
use seqs::without;
broadcast use {seqs::all_taken, seqs::kept};
fn or_into(x: &mut bool, e: bool)
    ensures *final(x) == (*old(x) || e),
{ if e { *x = true; } }
/*@ struct core/src/ports.rs CommonPortData */
impl<P: Port> CommonPortData<P> {
    spec fn ok(self) -> bool {
        (forall|i: int| 0 <= i < self.provide_channels.len() ==> (#[trigger] self.provide_channels[i]).ok())
        && (forall|i: int| 0 <= i < self.require_channels.len() ==> (#[trigger] self.require_channels[i]).ok())
    }
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> CommonPortData<P> :: new
    ensures r.provide_channels@.len() == 0, r.require_channels@.len() == 0,
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> CommonPortData<P> :: clear_by_id
    ensures
        without(old(self).provide_channels@, final(self).provide_channels@,
            |c: ProvidedRef<P>| named(c.component.of()) == component_id || gone(c.component.of()), |c: ProvidedRef<P>| named(c.component.of()) == component_id && !gone(c.component.of())),
        without(old(self).require_channels@, final(self).require_channels@,
            |c: RequiredRef<P>| named(c.component.of()) == component_id || gone(c.component.of()), |c: RequiredRef<P>| named(c.component.of()) == component_id && !gone(c.component.of())),
        r == (final(self).provide_channels.len() < old(self).provide_channels.len() || final(self).require_channels.len() < old(self).require_channels.len()),
    @opt `{ let mut at__: usize = 0; while` => `{ let mut at__: usize = 0; let ghost mut goes: int = 0; while`
    @loop 0 invariant at__ <= goes <= old(self).provide_channels.len(), self.provide_channels.len() - at__ == old(self).provide_channels.len() - goes,
        self.require_channels@ == old(self).require_channels@, found_match == (at__ < goes),
        self.provide_channels@.skip(at__ as int) == old(self).provide_channels@.skip(goes),
        without(old(self).provide_channels@.take(goes), self.provide_channels@.take(at__ as int),
            |c: ProvidedRef<P>| named(c.component.of()) == component_id || gone(c.component.of()), |c: ProvidedRef<P>| named(c.component.of()) == component_id && !gone(c.component.of())),
        decreases self.provide_channels.len() - at__,
    @body 0 proof { seqs::step(old(self).provide_channels@, self.provide_channels@, goes, at__ as int); goes = goes + 1; }
    @loop 1 invariant at__ <= goes <= old(self).require_channels.len(), self.require_channels.len() - at__ == old(self).require_channels.len() - goes,
        found_match == (self.provide_channels.len() < old(self).provide_channels.len() || at__ < goes),
        self.require_channels@.skip(at__ as int) == old(self).require_channels@.skip(goes),
        without(old(self).provide_channels@, self.provide_channels@,
            |c: ProvidedRef<P>| named(c.component.of()) == component_id || gone(c.component.of()), |c: ProvidedRef<P>| named(c.component.of()) == component_id && !gone(c.component.of())),
        without(old(self).require_channels@.take(goes), self.require_channels@.take(at__ as int),
            |c: RequiredRef<P>| named(c.component.of()) == component_id || gone(c.component.of()), |c: RequiredRef<P>| named(c.component.of()) == component_id && !gone(c.component.of())),
        decreases self.require_channels.len() - at__,
    @body 1 proof { seqs::step(old(self).require_channels@, self.require_channels@, goes, at__ as int); goes = goes + 1; }
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> CommonPortData<P> :: cleanup
    ensures
        without(old(self).provide_channels@, final(self).provide_channels@, |c: ProvidedRef<P>| c.dead(), |c: ProvidedRef<P>| false),
        without(old(self).require_channels@, final(self).require_channels@, |c: RequiredRef<P>| c.dead(), |c: RequiredRef<P>| false),
    @opt `{ let mut at__: usize = 0; while` => `{ let mut at__: usize = 0; let ghost mut goes: int = 0; while`
    @loop 0 invariant at__ <= goes <= old(self).provide_channels.len(), self.provide_channels.len() - at__ == old(self).provide_channels.len() - goes,
        self.require_channels@ == old(self).require_channels@,
        self.provide_channels@.skip(at__ as int) == old(self).provide_channels@.skip(goes),
        without(old(self).provide_channels@.take(goes), self.provide_channels@.take(at__ as int), |c: ProvidedRef<P>| c.dead(), |c: ProvidedRef<P>| false),
        decreases self.provide_channels.len() - at__,
    @body 0 proof { seqs::step(old(self).provide_channels@, self.provide_channels@, goes, at__ as int); goes = goes + 1; }
    @loop 1 invariant at__ <= goes <= old(self).require_channels.len(), self.require_channels.len() - at__ == old(self).require_channels.len() - goes,
        self.require_channels@.skip(at__ as int) == old(self).require_channels@.skip(goes),
        without(old(self).provide_channels@, self.provide_channels@, |c: ProvidedRef<P>| c.dead(), |c: ProvidedRef<P>| false),
        without(old(self).require_channels@.take(goes), self.require_channels@.take(at__ as int), |c: RequiredRef<P>| c.dead(), |c: RequiredRef<P>| false),
        decreases self.require_channels.len() - at__,
    @body 1 proof { seqs::step(old(self).require_channels@, self.require_channels@, goes, at__ as int); goes = goes + 1; }
*/
}
/// Looking at the elements of a vector, one after the other.
pub struct Visit<'a, T> { v: &'a Vec<T>, at: usize }
impl<'a, T> Visit<'a, T> {
    spec fn ok(self) -> bool { self.at <= self.v.len() }
    fn new(v: &'a Vec<T>) -> (r: Visit<'a, T>)
        ensures r.ok(), r.at == 0, r.v == v,
    { Visit { v, at: 0 } }
    fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).ok(),
        ensures final(self).ok(), final(self).v == old(self).v,
            match r {
                Some(x) => old(self).at < old(self).v.len() && final(self).at == old(self).at + 1 && *x == old(self).v[old(self).at as int],
                None => old(self).at == old(self).v.len() && final(self).at == old(self).at,
            },
    { if self.at < self.v.len() { let x = &self.v[self.at]; self.at = self.at + 1; Some(x) } else { None } }
}
/*@ struct core/src/ports.rs ProvidedPort */
impl<P: Port> ProvidedPort<P> {
    spec fn ok(self) -> bool { self.common.ok() && (self.parent matches Some(p) ==> owner(self.msg_queue.of()) == p.of()) }
    /// This connection was told.
    spec fn heard(c: RequiredRef<P>, event: P::Indication) -> bool { c.dead() || exists|e: P::Indication| #[trigger] c.got(e) && (e == event || cloned(event, e)) }
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> ProvidedPort<P> :: uninitialised
    ensures r.common.provide_channels@.len() == 0, r.common.require_channels@.len() == 0, r.parent is None, r.msg_queue.fresh(), r.ok(),
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> ProvidedPort<P> :: trigger
    requires old(self).ok(),
    ensures final(self).ok(), final(self).parent == old(self).parent, final(self).msg_queue == old(self).msg_queue,
        // every connection is told, unless there is nobody at its end any more; only those are forgotten
        forall|i: int| 0 <= i < old(self).common.require_channels.len() ==> Self::heard(#[trigger] old(self).common.require_channels[i], event),
        without(old(self).common.require_channels@, final(self).common.require_channels@, |c: RequiredRef<P>| c.dead(), |c: RequiredRef<P>| false),
    @first proof { seqs::same(self.common.require_channels@, |c: RequiredRef<P>| c.dead(), |c: RequiredRef<P>| false); }
    @loop 0 invariant
        it__.ok(), *it__.v == self.common.require_channels, *self == *old(self), self.ok(),
        next matches Some(n) ==> 2 <= it__.at && *n == self.common.require_channels[it__.at - 1] && current == Some(&self.common.require_channels[it__.at - 2])
            && forall|i: int| 0 <= i < it__.at - 2 ==> Self::heard(#[trigger] self.common.require_channels[i], t),
        next is None ==> it__.at == self.common.require_channels.len() && (current is Some <==> it__.at > 0)
            && (current matches Some(c) ==> *c == self.common.require_channels[it__.at - 1])
            && forall|i: int| 0 <= i < it__.at - 1 ==> Self::heard(#[trigger] self.common.require_channels[i], t),
        decreases self.common.require_channels.len() - it__.at + (if next is Some { 1int } else { 0int }),
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> ProvidedPort<P> :: connect
    requires old(self).ok(), c.ok(),
    ensures final(self).ok(), final(self).common.require_channels@ == old(self).common.require_channels@.push(c), final(self).parent == old(self).parent, final(self).msg_queue == old(self).msg_queue,
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> ProvidedPort<P> :: disconnect_port
    requires old(self).ok(),
    ensures final(self).ok(), final(self).parent == old(self).parent, final(self).msg_queue == old(self).msg_queue,
        without(old(self).common.require_channels@, final(self).common.require_channels@,
            |x: RequiredRef<P>| x.msg_queue.of() == c.msg_queue.of(), |x: RequiredRef<P>| x.msg_queue.of() == c.msg_queue.of()),
        r == (final(self).common.require_channels.len() < old(self).common.require_channels.len()),
    @opt `&c == other` => `c.eq(other)`
    @opt `{ let mut at__: usize = 0; while` => `{ let mut at__: usize = 0; let ghost mut goes: int = 0; while`
    @loop 0 invariant at__ <= goes <= old(self).common.require_channels.len(), self.common.require_channels.len() - at__ == old(self).common.require_channels.len() - goes,
        self.common.provide_channels@ == old(self).common.provide_channels@, self.parent == old(self).parent, self.msg_queue == old(self).msg_queue, old(self).ok(),
        found_match == (at__ < goes),
        self.common.require_channels@.skip(at__ as int) == old(self).common.require_channels@.skip(goes),
        without(old(self).common.require_channels@.take(goes), self.common.require_channels@.take(at__ as int),
            |x: RequiredRef<P>| x.msg_queue.of() == c.msg_queue.of(), |x: RequiredRef<P>| x.msg_queue.of() == c.msg_queue.of()),
        decreases self.common.require_channels.len() - at__,
    @body 0 proof { seqs::step(old(self).common.require_channels@, self.common.require_channels@, goes, at__ as int); goes = goes + 1; }
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> ProvidedPort<P> :: disconnect_component
    requires old(self).ok(),
    ensures final(self).ok(), final(self).parent == old(self).parent, final(self).msg_queue == old(self).msg_queue,
        without(old(self).common.require_channels@, final(self).common.require_channels@,
            |x: RequiredRef<P>| named(x.component.of()) == named(c.of()) || gone(x.component.of()), |x: RequiredRef<P>| named(x.component.of()) == named(c.of()) && !gone(x.component.of())),
    @first let ghost id = named(c.of()); proof {
        assert((|x: RequiredRef<P>| named(x.component.of()) == named(c.of()) || gone(x.component.of())) == (|c: RequiredRef<P>| named(c.component.of()) == id || gone(c.component.of())));
        assert((|x: RequiredRef<P>| named(x.component.of()) == named(c.of()) && !gone(x.component.of())) == (|c: RequiredRef<P>| named(c.component.of()) == id && !gone(c.component.of())));
    }
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> ProvidedPort<P> :: share
    requires old(self).ok(), old(self).parent is Some,
    ensures *final(self) == *old(self), r.ok(), r.component == old(self).parent->Some_0, r.msg_queue.of() == old(self).msg_queue.of(),
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> ProvidedPort<P> :: set_parent
    requires old(self).common.ok(), owner(old(self).msg_queue.of()) == p.of(),
    ensures final(self).ok(), final(self).parent matches Some(w) && w.of() == p.of(), final(self).common == old(self).common, final(self).msg_queue == old(self).msg_queue,
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> ProvidedPort<P> :: dequeue
    ensures r matches Some(e) ==> popped(self.msg_queue.of(), e),
*/
}
/*@ struct core/src/ports.rs RequiredPort */
impl<P: Port> RequiredPort<P> {
    spec fn ok(self) -> bool { self.common.ok() && (self.parent matches Some(p) ==> owner(self.msg_queue.of()) == p.of()) }
    /// This connection was told.
    spec fn heard(c: ProvidedRef<P>, event: P::Request) -> bool { c.dead() || exists|e: P::Request| #[trigger] c.got(e) && (e == event || cloned(event, e)) }
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> RequiredPort<P> :: uninitialised
    ensures r.common.provide_channels@.len() == 0, r.common.require_channels@.len() == 0, r.parent is None, r.msg_queue.fresh(), r.ok(),
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> RequiredPort<P> :: trigger
    requires old(self).ok(),
    ensures final(self).ok(), final(self).parent == old(self).parent, final(self).msg_queue == old(self).msg_queue,
        // every connection is told, unless there is nobody at its end any more; only those are forgotten
        forall|i: int| 0 <= i < old(self).common.provide_channels.len() ==> Self::heard(#[trigger] old(self).common.provide_channels[i], event),
        without(old(self).common.provide_channels@, final(self).common.provide_channels@, |c: ProvidedRef<P>| c.dead(), |c: ProvidedRef<P>| false),
    @first proof { seqs::same(self.common.provide_channels@, |c: ProvidedRef<P>| c.dead(), |c: ProvidedRef<P>| false); }
    @loop 0 invariant
        it__.ok(), *it__.v == self.common.provide_channels, *self == *old(self), self.ok(),
        next matches Some(n) ==> 2 <= it__.at && *n == self.common.provide_channels[it__.at - 1] && current == Some(&self.common.provide_channels[it__.at - 2])
            && forall|i: int| 0 <= i < it__.at - 2 ==> Self::heard(#[trigger] self.common.provide_channels[i], t),
        next is None ==> it__.at == self.common.provide_channels.len() && (current is Some <==> it__.at > 0)
            && (current matches Some(c) ==> *c == self.common.provide_channels[it__.at - 1])
            && forall|i: int| 0 <= i < it__.at - 1 ==> Self::heard(#[trigger] self.common.provide_channels[i], t),
        decreases self.common.provide_channels.len() - it__.at + (if next is Some { 1int } else { 0int }),
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> RequiredPort<P> :: connect
    requires old(self).ok(), c.ok(),
    ensures final(self).ok(), final(self).common.provide_channels@ == old(self).common.provide_channels@.push(c), final(self).parent == old(self).parent, final(self).msg_queue == old(self).msg_queue,
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> RequiredPort<P> :: disconnect_port
    requires old(self).ok(),
    ensures final(self).ok(), final(self).parent == old(self).parent, final(self).msg_queue == old(self).msg_queue,
        without(old(self).common.provide_channels@, final(self).common.provide_channels@,
            |x: ProvidedRef<P>| x.msg_queue.of() == c.msg_queue.of(), |x: ProvidedRef<P>| x.msg_queue.of() == c.msg_queue.of()),
        r == (final(self).common.provide_channels.len() < old(self).common.provide_channels.len()),
    @opt `&c == other` => `c.eq(other)`
    @opt `{ let mut at__: usize = 0; while` => `{ let mut at__: usize = 0; let ghost mut goes: int = 0; while`
    @loop 0 invariant at__ <= goes <= old(self).common.provide_channels.len(), self.common.provide_channels.len() - at__ == old(self).common.provide_channels.len() - goes,
        self.common.require_channels@ == old(self).common.require_channels@, self.parent == old(self).parent, self.msg_queue == old(self).msg_queue, old(self).ok(),
        found_match == (at__ < goes),
        self.common.provide_channels@.skip(at__ as int) == old(self).common.provide_channels@.skip(goes),
        without(old(self).common.provide_channels@.take(goes), self.common.provide_channels@.take(at__ as int),
            |x: ProvidedRef<P>| x.msg_queue.of() == c.msg_queue.of(), |x: ProvidedRef<P>| x.msg_queue.of() == c.msg_queue.of()),
        decreases self.common.provide_channels.len() - at__,
    @body 0 proof { seqs::step(old(self).common.provide_channels@, self.common.provide_channels@, goes, at__ as int); goes = goes + 1; }
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> RequiredPort<P> :: disconnect_component
    requires old(self).ok(),
    ensures final(self).ok(), final(self).parent == old(self).parent, final(self).msg_queue == old(self).msg_queue,
        without(old(self).common.provide_channels@, final(self).common.provide_channels@,
            |x: ProvidedRef<P>| named(x.component.of()) == named(c.of()) || gone(x.component.of()), |x: ProvidedRef<P>| named(x.component.of()) == named(c.of()) && !gone(x.component.of())),
    @first let ghost id = named(c.of()); proof {
        assert((|x: ProvidedRef<P>| named(x.component.of()) == named(c.of()) || gone(x.component.of())) == (|c: ProvidedRef<P>| named(c.component.of()) == id || gone(c.component.of())));
        assert((|x: ProvidedRef<P>| named(x.component.of()) == named(c.of()) && !gone(x.component.of())) == (|c: ProvidedRef<P>| named(c.component.of()) == id && !gone(c.component.of())));
    }
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> RequiredPort<P> :: share
    requires old(self).ok(), old(self).parent is Some,
    ensures *final(self) == *old(self), r.ok(), r.component == old(self).parent->Some_0, r.msg_queue.of() == old(self).msg_queue.of(),
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> RequiredPort<P> :: set_parent
    requires old(self).common.ok(), owner(old(self).msg_queue.of()) == p.of(),
    ensures final(self).ok(), final(self).parent matches Some(w) && w.of() == p.of(), final(self).common == old(self).common, final(self).msg_queue == old(self).msg_queue,
*/
/*@ fn core/src/ports.rs :: impl<P: Port + 'static> RequiredPort<P> :: dequeue
    ensures r matches Some(e) ==> popped(self.msg_queue.of(), e),
*/
}
}
fn main() {}
