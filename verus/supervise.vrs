// C26: what the supervisor does about starting, stopped, killed and faulty components, and whom it tells.
#![verifier::exec_allows_no_decreases_clause]
use vstd::prelude::*;
verus! {
//@ subst Arc<dyn CoreContainer> => Component
//@ subst Arc<impl AbstractComponent + ?Sized> => Component
//@ subst Arc<Mutex<KPromise<()>>> => SharedPromise
//@ subst KPromise<()> => KPromise
//@ subst KFuture<()> => KFuture
//@ subst Arc::new(Mutex::new(p)) => SharedPromise::new(p)
//@ subst utils::promise() => promise()
//@ subst Arc::try_unwrap(amp) => amp.try_unwrap()
//@ subst Arc::strong_count(&carc) => carc.strong_count()
//@ subst ComponentContext<ComponentSupervisor> => Context
//@ subst ProvidedPort<SupervisionPort> => Port
//@ subst recover_handler.recover(self.ctx.context_system(), self.ctx.log()) => recover_handler.recover()
//@ subst S: Fn(&ListenEvent) -> bool => S: Fn(&ListenEvent) -> bool
//@ subst l.drain(..) => Drained::of(l)
//@ subst for (_, p) in selected.drain(..) { => let mut out__ = Drained::of(&mut selected); while let Some((_e, p)) = out__.next() {
//@ subst for child in self.children.values() { => let mut all__ = self.children.values(); while let Some(child) = all__.next() {
//@ subst self.notify_listeners(&id, |l| matches!(l, ListenEvent::Started(_))) => { let sel__ = |l: &ListenEvent| -> (r: bool) ensures r == (*l is Started) { matches!(l, ListenEvent::Started(_)) }; let ghost was = self.listeners@; self.notify_listeners(&id, sel__); proof { if was.contains_key(id) { by_kind(was[id]@, self.listeners@[id]@, sel__, |e: ListenEvent| e is Started); } } }
//@ subst self.notify_listeners(&id, |l| matches!(l, ListenEvent::Stopped(_))) => { let sel__ = |l: &ListenEvent| -> (r: bool) ensures r == (*l is Stopped) { matches!(l, ListenEvent::Stopped(_)) }; let ghost was = self.listeners@; self.notify_listeners(&id, sel__); proof { if was.contains_key(id) { by_kind(was[id]@, self.listeners@[id]@, sel__, |e: ListenEvent| e is Stopped); } } }
//@ subst self.notify_listeners(&id, |l| matches!(l, ListenEvent::Destroyed(_))) => { let sel__ = |l: &ListenEvent| -> (r: bool) ensures r == (*l is Destroyed) { matches!(l, ListenEvent::Destroyed(_)) }; let ghost was = self.listeners@; self.notify_listeners(&id, sel__); proof { if was.contains_key(id) { by_kind(was[id]@, self.listeners@[id]@, sel__, |e: ListenEvent| e is Destroyed); } } }
//@ subst p.complete().unwrap_or_else(|e| { }) => { let _ = p.complete(); }
//@ subst Handled::OK => Ok(Handled::Ok)
//@ inline partition verus/vec.rs :: - :: partition
//@ include map.frag
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Uuid { x: u128 }
#[verifier::external_body]
pub struct Fault { x: usize }
#[verifier::external_body]
pub struct Poll { x: usize }
#[verifier::external_body]
pub struct Context { x: usize }
#[verifier::external_body]
pub struct Port { x: usize }
pub enum Handled { Ok }
#[verifier::external_body]
pub struct HandlerError { x: usize }
type HandlerResult = Result<Handled, HandlerError>;
pub enum ControlEvent { Start, Stop, Kill, Poll(Uuid) }

fn drop<T>(t: T) {}

// ---- components, promises and recovery actions, by their contracts
/// The component was told.
pub uninterp spec fn told(c: Component, e: ControlEvent) -> bool;
#[verifier::external_body]
pub struct Component { x: usize }
impl Component {
    pub uninterp spec fn named(self) -> Uuid;
    #[verifier::external_body]
    fn id(&self) -> (r: Uuid)
        ensures r == self.named(),
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Component)
        ensures r == *self,
    { unimplemented!() }
    #[verifier::external_body]
    fn strong_count(&self) -> (r: usize)
    { unimplemented!() }
    #[verifier::external_body]
    fn enqueue_control(&self, e: ControlEvent)
        ensures told(*self, e),
    { unimplemented!() }
}
/// Its future was completed, or nobody waited for it any more.
pub uninterp spec fn fulfilled(f: int) -> bool;
pub uninterp spec fn unheard(f: int) -> bool;
#[verifier::external_body]
pub struct KPromise { x: usize }
#[verifier::external_body]
pub struct KFuture { x: usize }
#[verifier::external_body]
#[derive(Debug)]
pub struct PromiseErr { x: usize }
#[verifier::external_body]
pub struct SharedPromise { x: usize }
#[verifier::external_body]
pub struct PromiseMutex { x: usize }
#[verifier::external_body]
#[derive(Debug)]
pub struct Poisoned { x: usize }
impl KFuture { pub uninterp spec fn of(self) -> int; }
impl KPromise {
    pub uninterp spec fn of(self) -> int;
    spec fn done(self) -> bool { fulfilled(self.of()) || unheard(self.of()) }
    #[verifier::external_body]
    fn complete(self) -> (r: Result<(), PromiseErr>)
        ensures match r { Ok(_) => fulfilled(self.of()), Err(_) => unheard(self.of()) },
    { unimplemented!() }
}
#[verifier::external_body]
fn promise() -> (r: (KPromise, KFuture))
    ensures r.0.of() == r.1.of(),
{ unimplemented!() }
impl SharedPromise {
    pub uninterp spec fn of(self) -> int;
    #[verifier::external_body]
    fn new(p: KPromise) -> (r: SharedPromise)
        ensures r.of() == p.of(),
    { unimplemented!() }
    // port events reach the supervisor in one copy
    #[verifier::external_body]
    fn try_unwrap(self) -> (r: Result<PromiseMutex, SharedPromise>)
        ensures r matches Ok(m) && m.of() == self.of(),
    { unimplemented!() }
}
impl PromiseMutex {
    pub uninterp spec fn of(self) -> int;
    #[verifier::external_body]
    fn into_inner(self) -> (r: Result<KPromise, Poisoned>)
        ensures r matches Ok(p) && p.of() == self.of(),
    { unimplemented!() }
}
/*@ struct core/src/supervision.rs FaultContext */
#[verifier::external_body]
pub struct Action { x: usize }
pub struct RecoveryHandler { ctx: FaultContext, action: Action }
/// The recovery function was run.
pub uninterp spec fn recovered(h: RecoveryHandler) -> bool;
impl RecoveryHandler {
    #[verifier::external_body]
    fn recover(self)
        ensures recovered(self),
    { unimplemented!() }
}
/*@ enum core/src/supervision.rs ListenEvent */
/*@ enum core/src/supervision.rs SupervisorMsg */
/*@ struct core/src/supervision.rs ComponentSupervisor */
type Listener = (ListenEvent, KPromise);

/// What is left of a vector that is emptied.
pub struct Drained<T> { v: Vec<T> }
impl<T> Drained<T> {
    fn of(v: &mut Vec<T>) -> (r: Drained<T>)
        ensures r.v@ == old(v)@, final(v)@.len() == 0,
    { let mut n: Vec<T> = Vec::new(); std::mem::swap(v, &mut n); Drained { v: n } }
    fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self).v.len() > 0 && x == old(self).v[0] && final(self).v@ == old(self).v@.skip(1),
            None => old(self).v.len() == 0 && final(self).v@ == old(self).v@,
        },
    { if self.v.len() > 0 { proof { assert(self.v@.remove(0) =~= self.v@.skip(1)); } Some(self.v.remove(0)) } else { None } }
}
/// What is left to see of the values of a map.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Values<'a, K, V> { x: std::marker::PhantomData<&'a (K, V)> }
impl<'a, K, V> Values<'a, K, V> {
    uninterp spec fn rest(self) -> Map<K, V>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a V>)
        ensures match r {
            Some(v) => exists|k: K| #[trigger] old(self).rest().contains_pair(k, *v) && final(self).rest() == old(self).rest().remove(k),
            None => old(self).rest() == Map::<K, V>::empty() && final(self).rest() == old(self).rest(),
        },
    { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    fn values<'a>(&'a self) -> (r: Values<'a, K, V>)
        ensures r.rest() == self@,
    { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool)
        ensures r == (self@ == Map::<K, V>::empty()),
    { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self)
        ensures final(self)@ == Map::<K, V>::empty(),
    { unimplemented!() }
}
pub uninterp spec fn empty_vec<T>() -> Vec<T>;
impl<T> Empty for Vec<T> { spec fn none() -> Self { empty_vec() } }
#[verifier::external_body]
proof fn is_empty_vec<T>()
    ensures empty_vec::<T>()@.len() == 0,
{}

spec fn id_of(e: ListenEvent) -> Uuid {
    match e { ListenEvent::Started(id) => id, ListenEvent::Stopped(id) => id, ListenEvent::Destroyed(id) => id }
}
impl ListenEvent {
/*@ fn core/src/supervision.rs :: impl ListenEvent :: id
    ensures r == id_of(*self),
*/
}
mod seqs {
use vstd::prelude::*;
/// `new` is `old` without some of those for which `may` holds, and without all for which `must` does.
pub open spec fn without<T>(old: Seq<T>, new: Seq<T>, may: spec_fn(T) -> bool, must: spec_fn(T) -> bool) -> bool
    decreases old.len(),
{
    if old.len() == 0 { new.len() == 0 }
    else {
        ||| (new.len() > 0 && new.last() == old.last() && !must(old.last()) && without(old.drop_last(), new.drop_last(), may, must))
        ||| (may(old.last()) && without(old.drop_last(), new, may, must))
    }
}
pub proof fn weaker<T>(old: Seq<T>, new: Seq<T>, may: spec_fn(T) -> bool, must: spec_fn(T) -> bool, may2: spec_fn(T) -> bool, must2: spec_fn(T) -> bool)
    requires without(old, new, may, must), forall|x: T| #[trigger] may(x) ==> may2(x), forall|x: T| #[trigger] must2(x) ==> must(x),
    ensures without(old, new, may2, must2),
    decreases old.len(),
{
    if old.len() > 0 {
        if new.len() > 0 && new.last() == old.last() && !must(old.last()) && without(old.drop_last(), new.drop_last(), may, must) {
            weaker(old.drop_last(), new.drop_last(), may, must, may2, must2);
        } else {
            weaker(old.drop_last(), new, may, must, may2, must2);
        }
    }
}
/// Looking at one more element.
pub proof fn step<T>(old: Seq<T>, goes: int)
    requires 0 <= goes < old.len(),
    ensures
        old.take(goes + 1).drop_last() == old.take(goes), old.take(goes + 1).last() == old[goes],
        old.skip(goes)[0] == old[goes], old.skip(goes).skip(1) == old.skip(goes + 1),
{
    assert(old.take(goes + 1).drop_last() =~= old.take(goes));
    assert(old.skip(goes).skip(1) =~= old.skip(goes + 1));
}
pub broadcast proof fn all_taken<T>(s: Seq<T>)
    ensures #[trigger] s.take(s.len() as int) == s,
{ assert(s.take(s.len() as int) =~= s); }
pub broadcast proof fn none_skipped<T>(s: Seq<T>)
    ensures #[trigger] s.skip(0) == s,
{ assert(s.skip(0) =~= s); }
pub broadcast proof fn push_drops<T>(s: Seq<T>, x: T)
    ensures (#[trigger] s.push(x)).drop_last() == s, s.push(x).last() == x,
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn found<T>(old: Seq<T>, new: Seq<T>, may: spec_fn(T) -> bool, must: spec_fn(T) -> bool, i: int)
    requires without(old, new, may, must), 0 <= i < old.len(), must(old[i]),
    ensures may(old[i]),
    decreases old.len(),
{
    if i < old.len() - 1 {
        assert(old.drop_last()[i] == old[i]);
        if new.len() > 0 && new.last() == old.last() && !must(old.last()) && without(old.drop_last(), new.drop_last(), may, must) {
            found(old.drop_last(), new.drop_last(), may, must, i);
        } else {
            found(old.drop_last(), new, may, must, i);
        }
    }
}
}
use seqs::without;
broadcast use {seqs::all_taken, seqs::none_skipped, seqs::push_drops};

/// All who wait for this event of the component are told, nobody else is, and the others go on waiting in order.
spec fn notified(old: Map<Uuid, Vec<Listener>>, new: Map<Uuid, Vec<Listener>>, id: Uuid, what: spec_fn(ListenEvent) -> bool) -> bool {
    if old.contains_key(id) {
        new.contains_key(id) && new.remove(id) == old.remove(id)
            && without(old[id]@, new[id]@, |e: Listener| what(e.0) && e.1.done(), |e: Listener| what(e.0))
    } else { new == old }
}
impl ComponentSupervisor {
    /// It ends with its last child.
    spec fn inv(self) -> bool { self.shutdown is Some ==> self.children@ != Map::<Uuid, Component>::empty() }
    spec fn heard(self) -> bool { self.shutdown matches Some(p) ==> !unheard(p.of()) }
    spec fn wait_for(self, id: Uuid) -> Seq<Listener> { if self.listeners@.contains_key(id) { self.listeners@[id]@ } else { Seq::empty() } }
    /// A component is gone for good.
    spec fn ended(self, new: ComponentSupervisor, id: Uuid) -> bool {
        new.children@ == self.children@.remove(id) &&
        if self.shutdown is Some && new.children@ == Map::<Uuid, Component>::empty() {
            new.shutdown is None && fulfilled(self.shutdown->Some_0.of()) && new.listeners@ == Map::<Uuid, Vec<Listener>>::empty()
        } else {
            new.shutdown == self.shutdown && new.listeners@ == self.listeners@.remove(id)
        }
    }
/*@ fn core/src/supervision.rs :: impl ComponentSupervisor :: notify_listeners
    requires forall|e: &ListenEvent| #[trigger] selector.requires((e,)),
    ensures final(self).children == old(self).children, final(self).shutdown == old(self).shutdown, final(self).ctx == old(self).ctx, final(self).supervision == old(self).supervision,
        if old(self).listeners@.contains_key(*id) {
            final(self).listeners@.contains_key(*id) && final(self).listeners@.remove(*id) == old(self).listeners@.remove(*id)
                && without(old(self).listeners@[*id]@, final(self).listeners@[*id]@,
                    |e: Listener| selector.ensures((&e.0,), true) && e.1.done(), |e: Listener| !selector.ensures((&e.0,), false))
        } else { final(self).listeners@ == old(self).listeners@ },
    @opt `let mut yes__ = Vec::new();` => `let mut yes__: Vec<Listener> = Vec::new();`
    @opt `let mut no__ = Vec::new();` => `let mut no__: Vec<Listener> = Vec::new();`
    @before `let (mut selected` let ghost all = l@; let ghost mut goes: int = 0;
    @loop 0 invariant
        0 <= goes <= all.len(), it__.v@ == all.skip(goes), yes__@.len() + no__@.len() == goes,
        forall|e: &ListenEvent| #[trigger] selector.requires((e,)),
        forall|i: int| 0 <= i < yes__@.len() ==> selector.ensures((&(#[trigger] yes__@[i]).0,), true),
        forall|x: Listener| #[trigger] picked(x, yes__@) ==> selector.ensures((&x.0,), true),
        without(all.take(goes), no__@, |e: Listener| selector.ensures((&e.0,), true) && picked(e, yes__@), |e: Listener| !selector.ensures((&e.0,), false)),
        ensures goes == all.len(),
    @body 0 let ghost was = yes__@; proof { seqs::step(all, goes); goes = goes + 1; }
    @after `no__.push(each__); }` proof {
        assert forall|x: Listener| #[trigger] picked(x, was) implies picked(x, yes__@) by { let i = choose|i: int| 0 <= i < was.len() && was[i] == x; assert(yes__@[i] == x); }
        if yes__@.len() > was.len() { assert(picked(all[goes - 1], yes__@)) by { assert(yes__@[yes__@.len() - 1] == all[goes - 1]); } }
        let must = |e: Listener| !selector.ensures((&e.0,), false);
        let m1 = |e: Listener| selector.ensures((&e.0,), true) && picked(e, was);
        let m2 = |e: Listener| selector.ensures((&e.0,), true) && picked(e, yes__@);
        let kept = if yes__@.len() > was.len() { no__@ } else { no__@.drop_last() };
        seqs::weaker(all.take(goes - 1), kept, m1, must, m2, must);
    }
    @before `let mut out__` let ghost chosen = selected@; let ghost mut told: int = 0;
    @loop 1 invariant 0 <= told <= chosen.len(), out__.v@ == chosen.skip(told), forall|i: int| 0 <= i < told ==> (#[trigger] chosen[i]).1.done(),
        ensures told == chosen.len(),
    @body 1 proof { seqs::step(chosen, told); told = told + 1; }
    @after `{ let _ = p.complete(); }; }` proof {
        let must = |e: Listener| !selector.ensures((&e.0,), false);
        let m1 = |e: Listener| selector.ensures((&e.0,), true) && picked(e, chosen);
        let m2 = |e: Listener| selector.ensures((&e.0,), true) && e.1.done();
        seqs::weaker(all, l@, m1, must, m2, must);
        assert(self.listeners@.remove(*id) =~= old(self).listeners@.remove(*id));
    }
*/
/*@ fn core/src/supervision.rs :: impl ComponentSupervisor :: drop_listeners
    ensures final(self).children == old(self).children, final(self).shutdown == old(self).shutdown, final(self).ctx == old(self).ctx, final(self).supervision == old(self).supervision,
        final(self).listeners@ == old(self).listeners@.remove(*id),
*/
/*@ fn core/src/supervision.rs :: impl ComponentSupervisor :: shutdown_if_no_more_children
    requires old(self).heard(),
    ensures final(self).children == old(self).children, final(self).inv(), final(self).ctx == old(self).ctx, final(self).supervision == old(self).supervision,
        if old(self).shutdown is Some && old(self).children@ == Map::<Uuid, Component>::empty() {
            final(self).shutdown is None && fulfilled(old(self).shutdown->Some_0.of()) && final(self).listeners@ == Map::<Uuid, Vec<Listener>>::empty()
        } else { final(self).shutdown == old(self).shutdown && final(self).listeners == old(self).listeners },
*/
/*@ fn core/src/supervision.rs :: impl Provide<SupervisionPort> for ComponentSupervisor :: handle
    requires old(self).inv(), old(self).heard(), event matches SupervisorMsg::Shutdown(amp) ==> !unheard(amp.of()),
    ensures final(self).inv(), r matches Ok(Handled::Ok),
        match event {
            SupervisorMsg::Started(c) => final(self).children@ == old(self).children@.insert(c.named(), c) && final(self).shutdown == old(self).shutdown
                && notified(old(self).listeners@, final(self).listeners@, c.named(), |e: ListenEvent| e is Started)
                && (old(self).shutdown is Some ==> told(c, ControlEvent::Kill)),
            SupervisorMsg::Stopped(id) => final(self).children == old(self).children && final(self).shutdown == old(self).shutdown
                && notified(old(self).listeners@, final(self).listeners@, id, |e: ListenEvent| e is Stopped),
            SupervisorMsg::Killed(id) => old(self).ended(*final(self), id)
                && forall|i: int| 0 <= i < old(self).wait_for(id).len() && (#[trigger] old(self).wait_for(id)[i]).0 is Destroyed ==> old(self).wait_for(id)[i].1.done(),
            SupervisorMsg::Faulty(h) => old(self).ended(*final(self), h.ctx.component_id) && (old(self).shutdown is None ==> recovered(h)),
            SupervisorMsg::Listen(amp, e) => final(self).children == old(self).children && final(self).shutdown == old(self).shutdown
                && final(self).listeners@.remove(id_of(e)) == old(self).listeners@.remove(id_of(e)) && final(self).listeners@.contains_key(id_of(e))
                && final(self).wait_for(id_of(e)).drop_last() == old(self).wait_for(id_of(e))
                && final(self).wait_for(id_of(e)).len() > 0 && final(self).wait_for(id_of(e)).last().0 == e && final(self).wait_for(id_of(e)).last().1.of() == amp.of(),
            SupervisorMsg::Shutdown(amp) => final(self).children == old(self).children
                && if old(self).children@ == Map::<Uuid, Component>::empty() { fulfilled(amp.of()) && final(self).shutdown is None }
                else {
                    final(self).shutdown matches Some(p) && p.of() == amp.of() && final(self).listeners == old(self).listeners
                        && forall|k: Uuid| old(self).children@.contains_key(k) ==> told(#[trigger] old(self).children@[k], ControlEvent::Kill)
                },
        },
    @after `self.children.insert(id, c.clone());` proof { assert(self.children@.contains_key(c.named())); assert(self.children@ != Map::<Uuid, Component>::empty()); }
    @after `self.listeners.entry(event.id()).or_default();` let ghost was = l@; proof { is_empty_vec::<Listener>(); }
    @after `l.push((event, p));` proof { assert(self.listeners@.remove(id_of(event)) =~= old(self).listeners@.remove(id_of(event))); assert(l@.drop_last() =~= was); }
    @loop 0 invariant
        self.children == old(self).children, self.shutdown == Some(promise), self.listeners == old(self).listeners,
        forall|k: Uuid| #[trigger] all__.rest().contains_key(k) ==> self.children@.contains_key(k) && self.children@[k] == all__.rest()[k],
        forall|k: Uuid| #[trigger] self.children@.contains_key(k) ==> all__.rest().contains_key(k) || told(self.children@[k], ControlEvent::Kill),
        ensures all__.rest() == Map::<Uuid, Component>::empty(),
*/
}
proof fn by_kind<S: Fn(&ListenEvent) -> bool>(old: Seq<Listener>, new: Seq<Listener>, s: S, what: spec_fn(ListenEvent) -> bool)
    requires without(old, new, |e: Listener| s.ensures((&e.0,), true) && e.1.done(), |e: Listener| !s.ensures((&e.0,), false)),
        forall|e: &ListenEvent, r: bool| #[trigger] s.ensures((e,), r) ==> r == what(*e),
    ensures without(old, new, |e: Listener| what(e.0) && e.1.done(), |e: Listener| what(e.0)),
        forall|i: int| 0 <= i < old.len() && what((#[trigger] old[i]).0) ==> old[i].1.done(),
{
    let may = |e: Listener| what(e.0) && e.1.done();
    let must = |e: Listener| what(e.0);
    seqs::weaker(old, new, |e: Listener| s.ensures((&e.0,), true) && e.1.done(), |e: Listener| !s.ensures((&e.0,), false), may, must);
    assert forall|i: int| 0 <= i < old.len() && what((#[trigger] old[i]).0) implies old[i].1.done() by { seqs::found(old, new, may, must, i); }
}
// ---- asking for it
/// The supervisor was sent this.
pub uninterp spec fn asked(m: SupervisorMsg) -> bool;
#[verifier::external_body]
pub struct SupervisionRef { x: usize }
impl SupervisionRef {
    #[verifier::external_body]
    fn enqueue(&self, m: SupervisorMsg) -> (r: bool)
        ensures asked(m),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct KompactRuntime { x: usize }
impl KompactRuntime {
    #[verifier::external_body]
    fn assert_active(&self)
    { unimplemented!() }
    #[verifier::external_body]
    fn assert_not_poisoned(&self)
    { unimplemented!() }
}
pub struct KompactSystem { inner: KompactRuntime }
spec fn will_hear(e: ListenEvent, f: KFuture) -> bool { exists|amp: SharedPromise| amp.of() == f.of() && #[trigger] asked(SupervisorMsg::Listen(amp, e)) }
impl KompactSystem {
    #[verifier::external_body]
    fn supervision_port(&self) -> SupervisionRef
    { unimplemented!() }
/*@ fn core/src/runtime/system.rs :: impl KompactSystem :: start
    ensures told(*c, ControlEvent::Start),
*/
/*@ fn core/src/runtime/system.rs :: impl KompactSystem :: start_notify
    ensures told(*c, ControlEvent::Start), will_hear(ListenEvent::Started(c.named()), r),
*/
/*@ fn core/src/runtime/system.rs :: impl KompactSystem :: stop
    ensures told(*c, ControlEvent::Stop),
*/
/*@ fn core/src/runtime/system.rs :: impl KompactSystem :: stop_notify
    ensures told(*c, ControlEvent::Stop), will_hear(ListenEvent::Stopped(c.named()), r),
*/
/*@ fn core/src/runtime/system.rs :: impl KompactSystem :: kill
    ensures told(c, ControlEvent::Kill),
*/
/*@ fn core/src/runtime/system.rs :: impl KompactSystem :: kill_notify
    ensures told(c, ControlEvent::Kill), will_hear(ListenEvent::Destroyed(c.named()), r),
*/
}
spec fn picked(x: Listener, l: Seq<Listener>) -> bool { exists|i: int| 0 <= i < l.len() && #[trigger] l[i] == x }
}
fn main() {}
