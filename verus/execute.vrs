// C25, C26: what one run of a component handles, reports and counts.
#![verifier::exec_allows_no_decreases_clause]
use vstd::prelude::*;
verus! {
//@ subst &self => &mut self
//@ subst lifecycle:: => 
//@ subst &self.core.state => &mut self.core.state
//@ subst <CD> => 
//@ subst guard: &mut ComponentMutableCore => guard: &mut Guard
//@ subst Mutex<ComponentMutableCore> => Lock, definition: Definition, skip: usize
//@ subst guard.definition => self.definition
//@ subst guard.skip => self.skip
//@ subst <CD: ComponentTraits> => 
//@ subst Option<dedicated_scheduler::DedicatedThreadScheduler> => Scheduler
//@ subst ConcurrentQueue<ControlEvent> => ControlQueue
//@ subst TypedMsgQueue<CD::Message> => MsgQueue
//@ subst Option<ProvidedRef<SupervisionPort>> => Option<Supervisor>
//@ subst Mutex<Box<RecoveryFunction>> => RecoveryMutex
//@ subst Box<RecoveryFunction> => RecoveryFn
//@ subst Box::new(default_recovery_function) => RecoveryFn::default()
//@ subst recovery_function(context) => recovery_function.call(context)
//@ subst guard.deref_mut() => guard
//@ subst if let Ok(mut guard) = self.recovery_function => if let Ok(guard) = self.recovery_function
//@ subst Arc<dyn CoreContainer> => Comp
//@ subst Arc<Mutex<KPromise<()>>> => Promise
//@ subst if let Some(ref supervisor) = self.supervisor => if let Some(supervisor) = &mut self.supervisor
//@ subst self.system().poison() => self.core.system.poison()
//@ subst or_from(|| self.core.get_scheduling_decision()) => or_use(self.core.get_scheduling_decision())
//@ subst ctx_mut().run_nonblocking_task(tag) => run_nonblocking_task(tag)
//@ subst action(c, id) => action.run(c, id)

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Uuid { x: u128 }
#[verifier::external_body]
pub struct KompactLogger { x: usize }
#[verifier::external_body]
pub struct Scheduler { x: usize }
#[verifier::external_body]
pub struct Comp { x: usize }
#[verifier::external_body]
pub struct Promise { x: usize }
#[verifier::external_body]
pub struct ListenEvent { x: usize }
#[verifier::external_body]
pub struct BlockingFuture { x: usize }
#[verifier::external_body]
pub struct ComponentFault { x: usize }
#[verifier::external_body]
pub struct Message { x: usize }
#[verifier::external_body]
pub struct RecoveryHandler { x: usize }

/*@ enum core/src/component/lifecycle.rs ControlEvent */
/*@ enum core/src/component/mod.rs Handled */
/*@ enum core/src/component/mod.rs HandlerError */
/*@ enum core/src/component/mod.rs SchedulingDecision */
/*@ enum core/src/component/context.rs StateTransition */
/*@ enum core/src/component/context.rs BlockingTaskResult */
/*@ enum core/src/component/actual_component.rs HandlerErrorOutcome */
/*@ struct core/src/component/mod.rs ExecuteResult */
/*@ enum core/src/supervision.rs SupervisorMsg */
type HandlerResult = Result<Handled, HandlerError>;

impl SchedulingDecision {
    /// Work is left, or may be.
    spec fn on(self) -> bool { self is Schedule || self is Resume || self is AlreadyScheduled }
    /// What is to be done when coming out of blocking.
    spec fn or(self, other: SchedulingDecision) -> SchedulingDecision {
        if self is NoWork { if other.on() { SchedulingDecision::Resume } else { other } } else { self }
    }
/*@ fn core/src/component/mod.rs :: impl SchedulingDecision :: or_use
    ensures r == self.or(other),
*/
/*@ fn core/src/component/mod.rs :: impl SchedulingDecision :: or_from
    requires other.requires(()),
    ensures self is NoWork ==> exists|o: SchedulingDecision| #[trigger] other.ensures((), o) && r == self.or(o), !(self is NoWork) ==> r == self,
*/
}

// ---- a run of a component, step by step
mod seqs {
use vstd::prelude::*;
pub broadcast proof fn push_drops<T>(s: Seq<T>, x: T)
    ensures (#[trigger] s.push(x)).drop_last() == s, s.push(x).last() == x,
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn push_skips<T>(s: Seq<T>, x: T, n: int)
    requires 0 <= n <= s.len(),
    ensures #[trigger] s.push(x).skip(n) == s.skip(n).push(x),
{ assert(s.push(x).skip(n) =~= s.skip(n).push(x)); }
pub broadcast proof fn all_skipped<T>(s: Seq<T>)
    ensures #[trigger] s.skip(s.len() as int) == Seq::<T>::empty(),
{ assert(s.skip(s.len() as int) =~= Seq::<T>::empty()); }
pub broadcast group sequences { push_drops, push_skips, all_skipped }
}
broadcast use seqs::sequences;
pub enum What { Start, Stop, Kill, Poll, Timer, Message, Ports }
pub enum Out { Fine, Benign, Block, Shutdown, Recoverable, Unrecoverable }
pub struct Step { pub what: What, pub out: Out }
spec fn out_of(r: HandlerResult) -> Out {
    match r {
        Ok(Handled::Ok) => Out::Fine,
        Ok(Handled::BlockOn(_)) => Out::Block,
        Ok(Handled::Shutdown) => Out::Shutdown,
        Err(HandlerError::Benign(_)) => Out::Benign,
        Err(HandlerError::Recoverable(_)) => Out::Recoverable,
        Err(HandlerError::Unrecoverable(_)) => Out::Unrecoverable,
    }
}
spec fn what_of(e: ControlEvent) -> What {
    match e { ControlEvent::Start => What::Start, ControlEvent::Stop => What::Stop, ControlEvent::Kill => What::Kill, ControlEvent::Poll(_) => What::Poll }
}
/// The component may go on after this.
spec fn goes_on(s: Step) -> bool { !(s.what is Kill) && (s.out is Fine || s.out is Benign) }
spec fn all_go_on(s: Seq<Step>) -> bool { forall|i: int| 0 <= i < s.len() ==> goes_on(#[trigger] s[i]) }
/// What the supervisor is to hear.
pub enum Report { Started, Stopped(Uuid), Killed(Uuid), Faulty, Other }
spec fn report_of(m: SupervisorMsg) -> Report {
    match m {
        SupervisorMsg::Started(_) => Report::Started, SupervisorMsg::Stopped(id) => Report::Stopped(id),
        SupervisorMsg::Killed(id) => Report::Killed(id), SupervisorMsg::Faulty(_) => Report::Faulty, _ => Report::Other,
    }
}
spec fn due(s: Step, id: Uuid) -> Option<Report> {
    match s.out {
        Out::Fine | Out::Benign => match s.what {
            What::Start => Some(Report::Started), What::Stop => Some(Report::Stopped(id)), What::Kill => Some(Report::Killed(id)), _ => None,
        },
        Out::Block => None,
        Out::Shutdown => Some(Report::Killed(id)),
        Out::Recoverable => Some(Report::Faulty),
        Out::Unrecoverable => Some(Report::Killed(id)),
    }
}
/// The reports of some steps, one after the other.
spec fn dues(s: Seq<Step>, id: Uuid) -> Seq<Report>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { match due(s.last(), id) { Some(r) => dues(s.drop_last(), id).push(r), None => dues(s.drop_last(), id) } }
}

// ---- stand-ins
pub enum Flags { Active, Passive, Destroyed, Faulty, Blocking }
/// The state word; only the thread that runs the component changes its flags.
pub struct StateWord { pub now: Ghost<Flags> }
#[verifier::external_body]
fn set_active(s: &mut StateWord) ensures final(s).now@ is Active { unimplemented!() }
#[verifier::external_body]
fn set_passive(s: &mut StateWord) ensures final(s).now@ is Passive { unimplemented!() }
#[verifier::external_body]
fn set_destroyed(s: &mut StateWord) ensures final(s).now@ is Destroyed { unimplemented!() }
#[verifier::external_body]
fn set_faulty(s: &mut StateWord) ensures final(s).now@ is Faulty { unimplemented!() }
#[verifier::external_body]
fn is_active(s: &mut StateWord) -> (r: bool) ensures *final(s) == *old(s), r == (old(s).now@ is Active) { unimplemented!() }

pub struct KompactSystem { pub poisoned: Ghost<int> }
impl KompactSystem {
    #[verifier::external_body]
    fn throughput(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn max_messages(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn poison(&mut self) ensures final(self).poisoned@ == old(self).poisoned@ + 1 { unimplemented!() }
}
/// `done`: how much work was reported as done; `left`: what the last report was told.
pub struct ComponentCore { pub id: Uuid, pub system: KompactSystem, pub state: StateWord, pub done: Ghost<int>, pub left: Ghost<SchedulingDecision> }
impl ComponentCore {
    #[verifier::external_body]
    fn decrement_work(&mut self, n: usize) -> (r: SchedulingDecision)
        ensures *final(self) == (ComponentCore { done: Ghost(old(self).done@ + n), left: Ghost(r), ..*old(self) }), r is Schedule || r is NoWork,
    { unimplemented!() }
    pub uninterp spec fn says(self) -> SchedulingDecision;
    #[verifier::external_body]
    fn get_scheduling_decision(&self) -> (r: SchedulingDecision) ensures r == self.says() { unimplemented!() }
    #[verifier::external_body]
    fn component(&self) -> Comp { unimplemented!() }
}
pub struct ControlQueue { pub popped: Ghost<Seq<ControlEvent>> }
impl ControlQueue {
    #[verifier::external_body]
    fn pop(&mut self) -> (r: Option<ControlEvent>)
        ensures final(self).popped@.len() < usize::MAX, // a machine does not live to see more
            final(self).popped@ == (match r { Some(e) => old(self).popped@.push(e), None => old(self).popped@ }),
    { unimplemented!() }
}
pub struct MsgQueue { pub popped: Ghost<Seq<Message>> }
impl MsgQueue {
    #[verifier::external_body]
    fn pop(&mut self) -> (r: Option<Message>)
        ensures final(self).popped@ == (match r { Some(e) => old(self).popped@.push(e), None => old(self).popped@ }),
    { unimplemented!() }
}
pub struct Supervisor { pub told: Ghost<Seq<Report>> }
impl Supervisor {
    #[verifier::external_body]
    fn enqueue(&mut self, m: SupervisorMsg)
        ensures final(self).told@ == old(self).told@.push(report_of(m)),
    { unimplemented!() }
}
pub struct Lock { x: usize }
pub struct Guard { x: usize }
impl Lock {
    /// A panicking run leaves the component faulty, and then it is not run again.
    #[verifier::external_body]
    fn lock(&mut self) -> (r: Result<Guard, ()>) ensures r is Ok { unimplemented!() }
}
#[verifier::external_body]
pub struct FaultContext { x: usize }
impl FaultContext {
    #[verifier::external_body]
    fn from_handler(id: Uuid, f: ComponentFault) -> FaultContext { unimplemented!() }
}
/// The user's recovery function (once), or the default.
pub struct RecoveryFn { pub users: Ghost<bool> }
impl RecoveryFn {
    #[verifier::external_body]
    fn default() -> (r: RecoveryFn) ensures !r.users@ { unimplemented!() }
    pub uninterp spec fn made(h: RecoveryHandler, users: bool) -> bool;
    #[verifier::external_body]
    fn call(self, c: FaultContext) -> (r: RecoveryHandler) ensures Self::made(r, self.users@) { unimplemented!() }
}
pub struct RecoveryMutex { pub f: RecoveryFn, pub poisoned: Ghost<bool> }
impl RecoveryMutex {
    #[verifier::external_body]
    fn lock(&mut self) -> (r: Result<&mut RecoveryFn, ()>)
        ensures match r {
            Ok(g) => !old(self).poisoned@ && *g == old(self).f && final(self).f == *final(g) && final(self).poisoned == old(self).poisoned,
            Err(_) => old(self).poisoned@ && *final(self) == *old(self),
        },
    { unimplemented!() }
}
#[verifier::external_body]
fn deliberate_panic() -> ! { panic!() }

// ---- the definition: the user's handlers, the context and the ports
pub struct TimerManager { pub taken: Ghost<int>, pub given: Ghost<int> }
pub enum ExecuteAction { None, Cancelled, Periodic(Uuid, Action), Once(Uuid, Action) }
pub struct Action { x: usize }
impl TimerManager {
    /// See the contract of the real one in `timer`.
    #[verifier::external_body]
    fn try_action(&mut self) -> (r: ExecuteAction)
        ensures final(self).taken@ == old(self).taken@ + (if r is None { 0int } else { 1int }),
            final(self).given@ == old(self).given@ + (if r is None || r is Cancelled { 0int } else { 1int }),
    { unimplemented!() }
}
impl Action {
    #[verifier::external_body]
    fn run(self, c: &mut Definition, id: Uuid) -> (r: HandlerResult)
        ensures *final(c) == (Definition { timeouts: Ghost(old(c).timeouts@ + 1), ..old(c).stepped(What::Timer, out_of(r), final(c).ctx) }), same_ctx(old(c).ctx, final(c).ctx),
    { unimplemented!() }
}
pub struct Context { pub blocking: Ghost<bool>, pub then: Ghost<StateTransition>, pub timers: TimerManager, pub other: Ghost<int> }
/// Handlers do not block by themselves, and do not take timeouts.
spec fn same_ctx(a: Context, b: Context) -> bool { a.blocking == b.blocking && a.timers == b.timers }
impl Context {
    #[verifier::external_body]
    fn is_blocking(&self) -> (r: bool) ensures r == self.blocking@ { unimplemented!() }
    fn timer_manager_mut(&mut self) -> (r: &mut TimerManager)
        ensures *r == old(self).timers, *final(self) == (Context { timers: *final(r), ..*old(self) }),
    { &mut self.timers }
    #[verifier::external_body]
    fn set_blocking(&mut self, f: BlockingFuture)
        requires !old(self).blocking@,
        ensures *final(self) == (Context { blocking: Ghost(true), then: Ghost(StateTransition::Active), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn set_blocking_with_state(&mut self, f: BlockingFuture, t: StateTransition)
        requires !old(self).blocking@,
        ensures *final(self) == (Context { blocking: Ghost(true), then: Ghost(t), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body]
    fn run_blocking_task(&mut self) -> (r: BlockingTaskResult)
        requires old(self).blocking@,
        ensures final(self).blocking@ == (r is Pending), final(self).timers == old(self).timers,
    { unimplemented!() }
}
/// `log`: every handler that ran, and how it ended. `controls`, `messages`, `timeouts`, `events`: what it ran for.
pub struct Definition {
    pub ctx: Context, pub log: Ghost<Seq<Step>>, pub controls: Ghost<Seq<What>>, pub messages: Ghost<Seq<Message>>,
    pub timeouts: Ghost<int>, pub events: Ghost<int>,
}
impl Definition {
    spec fn stepped(self, what: What, out: Out, ctx: Context) -> Definition {
        Definition { log: Ghost(self.log@.push(Step { what, out })), ctx, ..self }
    }
    spec fn controlled(self, what: What, out: Out, ctx: Context) -> Definition {
        Definition { controls: Ghost(self.controls@.push(what)), ..self.stepped(what, out, ctx) }
    }
    fn ctx(&mut self) -> (r: &mut Context)
        ensures *r == old(self).ctx, *final(self) == (Definition { ctx: *final(r), ..*old(self) }),
    { &mut self.ctx }
    fn ctx_mut(&mut self) -> (r: &mut Context)
        ensures *r == old(self).ctx, *final(self) == (Definition { ctx: *final(r), ..*old(self) }),
    { &mut self.ctx }
    #[verifier::external_body]
    fn on_start(&mut self) -> (r: HandlerResult)
        ensures *final(self) == old(self).controlled(What::Start, out_of(r), final(self).ctx), same_ctx(old(self).ctx, final(self).ctx),
    { unimplemented!() }
    #[verifier::external_body]
    fn on_stop(&mut self) -> (r: HandlerResult)
        ensures *final(self) == old(self).controlled(What::Stop, out_of(r), final(self).ctx), same_ctx(old(self).ctx, final(self).ctx),
    { unimplemented!() }
    #[verifier::external_body]
    fn on_kill(&mut self) -> (r: HandlerResult)
        ensures *final(self) == old(self).controlled(What::Kill, out_of(r), final(self).ctx), same_ctx(old(self).ctx, final(self).ctx),
    { unimplemented!() }
    #[verifier::external_body]
    fn run_nonblocking_task(&mut self, tag: Uuid) -> (r: HandlerResult)
        ensures *final(self) == old(self).controlled(What::Poll, out_of(r), final(self).ctx), same_ctx(old(self).ctx, final(self).ctx),
    { unimplemented!() }
    #[verifier::external_body]
    fn receive(&mut self, m: Message) -> (r: HandlerResult)
        ensures *final(self) == (Definition { messages: Ghost(old(self).messages@.push(m)), ..old(self).stepped(What::Message, out_of(r), final(self).ctx) }),
            same_ctx(old(self).ctx, final(self).ctx),
    { unimplemented!() }
    /// Runs port handlers: at most so many, until one blocks, shuts down or fails.
    #[verifier::external_body]
    fn execute(&mut self, max_events: usize, skip: usize) -> (r: ExecuteResult)
        ensures
            r.count <= max_events,
            r.shutdown ==> !r.blocking && r.error is None, r.error is Some ==> !r.blocking,
            *final(self) == (Definition { events: Ghost(old(self).events@ + r.count), ..old(self).stepped(What::Ports, ports_out(r), final(self).ctx) }),
            final(self).ctx.timers == old(self).ctx.timers, final(self).ctx.blocking@ == (old(self).ctx.blocking@ || r.blocking),
    { unimplemented!() }
}
spec fn ports_out(r: ExecuteResult) -> Out {
    if r.shutdown { Out::Shutdown } else if r.blocking { Out::Block } else { match r.error { Some(e) => out_of(Err(e)), None => Out::Fine } }
}

/*@ struct core/src/component/actual_component.rs Component */

/// `f` is what `o` became by running these steps, all of which let it go on; `count` of them are still to be reported.
spec fn running(o: Component, f: Component, count: int) -> bool {
    let steps = f.definition.log@.skip(o.definition.log@.len() as int);
    &&& f.same(o) && f.all_handled() && !f.ended() && !f.definition.ctx.blocking@
    &&& f.definition.log@.len() >= o.definition.log@.len() && all_go_on(steps)
    &&& f.ctrl_queue.popped@.len() >= o.ctrl_queue.popped@.len() && f.definition.controls@.len() >= o.definition.controls@.len()
    &&& f.definition.controls@.skip(o.definition.controls@.len() as int) == control_steps(f.ctrl_queue.popped@.skip(o.ctrl_queue.popped@.len() as int))
    &&& f.core.done == o.core.done && count == f.consumed() - o.consumed()
    &&& f.told_all(o, steps) && f.core.system.poisoned == o.core.system.poisoned
}
spec fn last_out(o: Component, f: Component) -> Option<Out> { let s = steps(o, f); if s.len() > 0 { Some(s.last().out) } else { None } }
/// What was taken from the queues was handled, in order, and nothing else.
spec fn in_order(o: Component, f: Component) -> bool {
    let controls = control_steps(f.ctrl_queue.popped@.skip(o.ctrl_queue.popped@.len() as int));
    f.same(o) && f.all_handled() && f.definition.controls@.skip(o.definition.controls@.len() as int) == (if shut(o, f) { controls.push(What::Kill) } else { controls })
}
/// Nothing is handled after a step that does not let the component go on.
spec fn stops(o: Component, f: Component) -> bool { steps(o, f).len() > 0 ==> all_go_on(steps(o, f).drop_last()) }
/// How it ends.
spec fn ends(o: Component, f: Component) -> bool {
    let s = steps(o, f);
    &&& shut(o, f) ==> f.core.state.now@ is Destroyed
    &&& last_out(o, f) == Some(Out::Shutdown) ==> f.core.state.now@ is Destroyed && (s.last().what is Kill || shut(o, f))
    &&& s.len() > 0 && s.last().what is Kill && (s.last().out is Fine || s.last().out is Benign) ==> f.core.state.now@ is Destroyed
    &&& last_out(o, f) == Some(Out::Recoverable) ==> f.core.state.now@ is Faulty
    &&& last_out(o, f) == Some(Out::Unrecoverable) ==> f.core.state.now@ is Destroyed
}
/// It does not end for other reasons.
spec fn stays(o: Component, f: Component) -> bool {
    let s = steps(o, f);
    !o.definition.ctx.blocking@ && (s.len() == 0 || goes_on(s.last())) ==> !f.ended()
}
/// While it blocks, or is not active, messages, timeouts and port events wait.
spec fn waits(o: Component, f: Component) -> bool {
    &&& o.definition.ctx.blocking@ ==> steps(o, f).len() == 0 && f.consumed() == o.consumed()
    &&& !f.ended() && !(f.core.state.now@ is Active) ==> only_controls(o, f)
}
/// All that was handled is reported as done, once.
spec fn counts(o: Component, f: Component) -> bool { !f.ended() || f.definition.ctx.blocking@ ==> f.core.done@ - o.core.done@ == f.consumed() - o.consumed() }
/// What the answer to that was decides what is next.
spec fn decides(o: Component, f: Component, r: SchedulingDecision) -> bool {
    &&& f.definition.ctx.blocking@ ==> r is Blocked
    // (after an on_kill that blocks, the flags say blocking, not destroyed)
    &&& f.ended() && last_out(o, f) != Some(Out::Block) ==> r is NoWork
    &&& !f.ended() && !f.definition.ctx.blocking@ && !o.definition.ctx.blocking@ ==>
        r == (if last_out(o, f) == Some(Out::Block) { SchedulingDecision::NoWork.or(f.core.left@) } else { f.core.left@ })
}
/// The supervisor hears about it.
spec fn reports(o: Component, f: Component) -> bool {
    !o.definition.ctx.blocking@ && last_out(o, f) != Some(Out::Block) && !o.recovery_function.poisoned@ ==> f.told_all(o, steps(o, f))
}
/// Without one, errors poison the system.
spec fn poisons(o: Component, f: Component) -> bool {
    !o.definition.ctx.blocking@ && last_out(o, f) != Some(Out::Block) ==> f.core.system.poisoned@ - o.core.system.poisoned@
        == (if o.supervisor is None && (last_out(o, f) == Some(Out::Recoverable) || last_out(o, f) == Some(Out::Unrecoverable)) { 1int } else { 0int })
}
/// Only lifecycle events were handled.
spec fn only_controls(o: Component, f: Component) -> bool {
    f.msg_queue == o.msg_queue && f.definition.ctx.timers == o.definition.ctx.timers && f.definition.events == o.definition.events
}
/// The steps that were taken, without the clean-up when shutting down.
spec fn steps(o: Component, f: Component) -> Seq<Step> {
    if shut(o, f) { f.definition.log@.skip(o.definition.log@.len() as int).drop_last() } else { f.definition.log@.skip(o.definition.log@.len() as int) }
}
spec fn shut(o: Component, f: Component) -> bool {
    let new = f.definition.log@.skip(o.definition.log@.len() as int);
    new.len() > 0 && new.last().what is Kill && (if new.len() == 1 { o.definition.ctx.blocking@ } else { !goes_on(new[new.len() - 2]) })
}
spec fn control_steps(s: Seq<ControlEvent>) -> Seq<What>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { control_steps(s.drop_last()).push(what_of(s.last())) }
}
impl Component {
    spec fn told(self) -> Seq<Report> { match self.supervisor { Some(s) => s.told@, None => Seq::empty() } }
    spec fn ended(self) -> bool { self.core.state.now@ is Destroyed || self.core.state.now@ is Faulty }
    /// Everything taken from a queue was handed to its handler, in order.
    spec fn all_handled(self) -> bool {
        &&& self.definition.messages@ == self.msg_queue.popped@
        &&& self.definition.timeouts@ == self.definition.ctx.timers.given@
    }
    spec fn consumed(self) -> int {
        self.ctrl_queue.popped@.len() + self.msg_queue.popped@.len() + self.definition.ctx.timers.taken@ + self.definition.events@
    }
    /// The unchanging parts.
    spec fn same(self, o: Component) -> bool {
        self.core.id == o.core.id && (self.supervisor is Some <==> o.supervisor is Some) && self.recovery_function.poisoned == o.recovery_function.poisoned
    }
    /// Nothing but the state, the reports and the recovery function changed.
    spec fn frame(self, o: Component) -> bool {
        &&& self.same(o) && self.definition == o.definition && self.skip == o.skip && self.ctrl_queue == o.ctrl_queue && self.msg_queue == o.msg_queue
        &&& self.core.done == o.core.done && self.core.left == o.core.left
    }
    /// The supervisor was told this.
    spec fn tells(self, o: Component, what: Report) -> bool { o.supervisor is Some ==> self.told() == o.told().push(what) }
    spec fn told_all(self, o: Component, s: Seq<Step>) -> bool {
        o.supervisor is Some ==> self.told().len() >= o.told().len() && self.told().skip(o.told().len() as int) == dues(s, o.core.id)
    }

/*@ fn core/src/component/actual_component.rs :: impl<CD: ComponentTraits> Component<CD> :: set_passive
    ensures final(self).frame(*old(self)), final(self).core.state.now@ is Passive, final(self).core.system == old(self).core.system,
        final(self).tells(*old(self), Report::Stopped(old(self).core.id)), final(self).recovery_function == old(self).recovery_function,
*/
/*@ fn core/src/component/actual_component.rs :: impl<CD: ComponentTraits> Component<CD> :: set_destroyed
    ensures final(self).frame(*old(self)), final(self).core.state.now@ is Destroyed, final(self).core.system == old(self).core.system,
        final(self).tells(*old(self), Report::Killed(old(self).core.id)), final(self).recovery_function == old(self).recovery_function,
*/
/*@ fn core/src/component/actual_component.rs :: impl<CD: ComponentTraits> Component<CD> :: notify_started
    ensures final(self).frame(*old(self)), final(self).core == old(self).core,
        final(self).tells(*old(self), Report::Started), final(self).recovery_function == old(self).recovery_function,
*/
/*@ fn core/src/component/actual_component.rs :: impl<CD: ComponentTraits> Component<CD> :: report_benign_error
    ensures *final(self) == *old(self),
*/
/*@ fn core/src/component/actual_component.rs :: impl<CD: ComponentTraits> Component<CD> :: handle_recoverable_error
    ensures final(self).frame(*old(self)), final(self).core.state.now@ is Faulty,
        // the recovery function is asked, once; without a supervisor the system is poisoned
        old(self).supervisor is Some && !old(self).recovery_function.poisoned@ ==> final(self).tells(*old(self), Report::Faulty) && !final(self).recovery_function.f.users@,
        final(self).core.system.poisoned@ == old(self).core.system.poisoned@ + (if old(self).supervisor is Some { 0int } else { 1int }),
*/
/*@ fn core/src/component/actual_component.rs :: impl<CD: ComponentTraits> Component<CD> :: handle_unrecoverable_error
    ensures final(self).frame(*old(self)), final(self).core.state.now@ is Destroyed,
        final(self).tells(*old(self), Report::Killed(old(self).core.id)),
        final(self).core.system.poisoned@ == old(self).core.system.poisoned@ + (if old(self).supervisor is Some { 0int } else { 1int }),
*/
/*@ fn core/src/component/actual_component.rs :: impl<CD: ComponentTraits> Component<CD> :: handle_handler_error
    ensures final(self).frame(*old(self)),
        match error {
            HandlerError::Benign(_) => r is Continue && *final(self) == *old(self),
            HandlerError::Recoverable(_) => r == HandlerErrorOutcome::Stop(SchedulingDecision::NoWork) && final(self).core.state.now@ is Faulty
                && (!old(self).recovery_function.poisoned@ ==> final(self).tells(*old(self), Report::Faulty)),
            HandlerError::Unrecoverable(_) => r == HandlerErrorOutcome::Stop(SchedulingDecision::NoWork) && final(self).core.state.now@ is Destroyed
                && final(self).tells(*old(self), Report::Killed(old(self).core.id)),
        },
        final(self).core.system.poisoned@ == old(self).core.system.poisoned@ + (if error is Benign || old(self).supervisor is Some { 0int } else { 1int }),
*/
/*@ fn core/src/component/actual_component.rs :: impl<CD: ComponentTraits> Component<CD> :: handle_secondary_lifecycle_result
    ensures *final(self) == *old(self),
    @opt `panic!()` => `deliberate_panic()`
*/
/*@ fn core/src/component/actual_component.rs :: impl<CD: ComponentTraits> Component<CD> :: shutdown_from_handler
    ensures r is NoWork, final(self).core.state.now@ is Destroyed, final(self).same(*old(self)),
        final(self).tells(*old(self), Report::Killed(old(self).core.id)),
        final(self).definition.log@ == old(self).definition.log@.push(final(self).definition.log@.last()), final(self).definition.log@.last().what is Kill,
        final(self).definition.messages == old(self).definition.messages, final(self).definition.timeouts == old(self).definition.timeouts,
        final(self).definition.controls@ == old(self).definition.controls@.push(What::Kill), final(self).definition.events == old(self).definition.events,
        same_ctx(old(self).definition.ctx, final(self).definition.ctx),
        final(self).ctrl_queue == old(self).ctrl_queue, final(self).msg_queue == old(self).msg_queue, final(self).core.done == old(self).core.done,
        final(self).core.system == old(self).core.system,
*/
#[verifier::rlimit(100)]
/*@ fn core/src/component/actual_component.rs :: impl<CD: ComponentTraits> Component<CD> :: inner_execute
    requires old(self).all_handled(), !old(self).ended(),
    ensures
        in_order(*old(self), *final(self)),
        stops(*old(self), *final(self)),
        ends(*old(self), *final(self)),
        stays(*old(self), *final(self)),
        waits(*old(self), *final(self)),
        counts(*old(self), *final(self)),
        decides(*old(self), *final(self), r),
        reports(*old(self), *final(self)),
        poisons(*old(self), *final(self)),
    @loop 0 invariant running(*old(self), *self, count as int), only_controls(*old(self), *self), !old(self).definition.ctx.blocking@
    @loop 1 invariant running(*old(self), *self, count as int), self.core.state.now@ is Active, !old(self).definition.ctx.blocking@
    @loop 2 invariant running(*old(self), *self, count as int), self.core.state.now@ is Active, !old(self).definition.ctx.blocking@
    @loop 3 invariant running(*old(self), *self, count as int), self.core.state.now@ is Active, !old(self).definition.ctx.blocking@
*/
}
fn main() {}
}
