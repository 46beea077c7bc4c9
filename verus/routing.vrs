// C16: routing policies deliver as promised.
use vstd::prelude::*;
verus! {
//@ subst DynActorRef => Member
//@ subst NetMessage => Msg
//@ subst logger: &KompactLogger => logger: &Logger
//@ subst AtomicUsize::new => Counter::new
//@ subst AtomicUsize => Counter
//@ subst Ordering::Relaxed => ()
//@ subst SerError => CloneError
//@ subst T: TryClone => T: TryClone
//@ subst mut f: F => f: &mut F
//@ subst Self::Item => I
//@ subst F: FnMut(I, T) => F: Sink<I, T>
//@ subst f(item, cloned) => f.call(item, cloned)
//@ subst f(item, t) => f.call(item, t)
//@ subst fn(&M) -> &T => Extractor<M, T>
//@ subst (self.field_extractor)(msg) => self.field_extractor.of(msg)
//@ subst H: BuildHasher + Clone => H: BuildHasher
//@ subst T: Hash => T
//@ subst (length as u64) => (length as u64)

#[verifier::external_body]
pub struct Logger { x: usize }
#[verifier::external_body]
pub struct Msg { x: usize }
#[verifier::external_body]
pub struct Member { x: usize }
#[verifier::external_body]
pub struct CloneError { x: usize }
/// The message was handed to that member.
pub uninterp spec fn told(m: Member, msg: Msg) -> bool;
impl Member {
    #[verifier::external_body]
    fn tell(&self, msg: Msg)
        ensures told(*self, msg),
    { unimplemented!() }
}

/// An atomic counter: every addition gets a value of its own.
#[verifier::external_body]
pub struct Counter { x: std::sync::atomic::AtomicUsize }
impl Counter {
    pub uninterp spec fn start(self) -> usize;
    /// The value at some moment.
    pub uninterp spec fn was(self, v: usize) -> bool;
    /// The value some addition found, and what it added.
    pub uninterp spec fn took(self, v: usize, by: usize) -> bool;
    #[verifier::external_body]
    fn new(v: usize) -> (r: Counter)
        ensures r.start() == v,
    { unimplemented!() }
    #[verifier::external_body]
    fn fetch_add(&self, by: usize, o: ()) -> (r: usize)
        ensures self.took(r, by),
    { unimplemented!() }
    #[verifier::external_body]
    fn load(&self, o: ()) -> (r: usize)
        ensures self.was(r),
    { unimplemented!() }
}

/*@ struct core/src/routing/groups.rs RoundRobinRouting */
impl RoundRobinRouting {
/*@ fn core/src/routing/groups.rs :: impl RoundRobinRouting :: new
    ensures r.offset.start() == 0,
*/
/*@ fn core/src/routing/groups.rs :: impl RoundRobinRouting :: get_and_increment_index
    requires length > 0,
    // The members' turns come one after the other: the counter goes up by one.
    ensures exists|v: usize| self.offset.took(v, 1) && r as int == v as int % length as int,
*/
/*@ fn core/src/routing/groups.rs :: impl RoutingPolicy<DynActorRef, NetMessage> for RoundRobinRouting :: route
    ensures members@.len() > 0 ==> exists|v: usize| #[trigger] self.offset.took(v, 1) && told(*members@[v as int % members@.len() as int], msg),
*/
}

/// A function from the message to one of its fields.
#[verifier::external_body]
#[verifier::reject_recursive_types(M)]
#[verifier::reject_recursive_types(T)]
pub struct Extractor<M, T> { x: fn(&M) -> &T }
impl<M, T> Extractor<M, T> {
    pub uninterp spec fn field(self, m: M) -> T;
    #[verifier::external_body]
    fn of<'a>(&self, m: &'a M) -> (r: &'a T)
        ensures *r == self.field(*m),
    { unimplemented!() }
}
/// A hasher gives equal values equal hashes.
pub trait BuildHasher: Sized {
    spec fn hash<T>(&self, t: T) -> u64;
    fn hash_one<T>(&self, t: &T) -> (r: u64)
        ensures r == self.hash(*t);
}
#[verifier::reject_recursive_types(M)]
#[verifier::reject_recursive_types(T)]
/*@ struct core/src/routing/groups.rs FieldHashBucketRouting */
impl<M, T, H: BuildHasher> FieldHashBucketRouting<M, T, H> {
    /// A function of the field and the number of members alone.
    spec fn bucket(self, msg: M, n: int) -> int { self.hasher_builder.hash(self.field_extractor.field(msg)) as int % n }
/*@ fn core/src/routing/groups.rs :: impl<M, T: Hash, H: BuildHasher + Clone> FieldHashBucketRouting<M, T, H> :: new
    ensures r.hasher_builder == hasher_builder, r.field_extractor == field_extractor,
*/
/*@ fn core/src/routing/groups.rs :: impl<M, T: Hash, H: BuildHasher + Clone> FieldHashBucketRouting<M, T, H> :: hash_field
    ensures r == self.hasher_builder.hash(*field),
*/
/*@ fn core/src/routing/groups.rs :: impl<M, T: Hash, H: BuildHasher + Clone> FieldHashBucketRouting<M, T, H> :: hash_message
    ensures r == self.hasher_builder.hash(self.field_extractor.field(*msg)),
*/
/*@ fn core/src/routing/groups.rs :: impl<M, T: Hash, H: BuildHasher + Clone> FieldHashBucketRouting<M, T, H> :: get_bucket
    requires length > 0,
    ensures r < length, r == self.bucket(*msg, length as int),
*/
}
impl<T, H: BuildHasher> FieldHashBucketRouting<Msg, T, H> {
/*@ fn core/src/routing/groups.rs :: impl<H: BuildHasher + Clone + Send + Sync + 'static> RoutingPolicy<DynActorRef, NetMessage> for SenderHashBucketRouting<H> :: route
    ensures members@.len() > 0 ==> told(*members@[self.bucket(msg, members@.len() as int)], msg),
*/
}

/// What may be copied, or fails to be.
pub trait TryClone: Sized {
    spec fn copy_of(&self, o: &Self) -> bool;
    fn try_clone(&self) -> (r: Result<Self, CloneError>)
        ensures r matches Ok(c) ==> c.copy_of(self);
}
/// The closure that is called with every item, and what it was called with.
pub trait Sink<I, T>: Sized {
    spec fn log(&self) -> Seq<(I, T)>;
    fn call(&mut self, item: I, t: T)
        ensures final(self).log() == old(self).log().push((item, t));
}
/// Any iterator.
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct Items<I> { x: std::marker::PhantomData<I> }
impl<I> Items<I> {
    pub uninterp spec fn rest(self) -> Seq<I>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<I>)
        ensures match r {
            Some(i) => old(self).rest().len() > 0 && i == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1),
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
        },
    { unimplemented!() }
/*@ fn core/src/utils/iter_extras.rs :: trait IterExtras: Iterator + Sized :: for_each_try_with
    ensures
        // every item once and in order, each with the message or a copy of it
        forall|k: int| old(f).log().len() <= k < final(f).log().len() ==> {
            let c = #[trigger] final(f).log()[k];
            c.0 == self.rest()[k - old(f).log().len()] && (c.1 == t || c.1.copy_of(&t))
        },
        final(f).log().len() >= old(f).log().len(),
        forall|i: int| 0 <= i < old(f).log().len() ==> #[trigger] final(f).log()[i] == old(f).log()[i],
        r is Ok ==> final(f).log().len() == old(f).log().len() + self.rest().len(),
        r is Err ==> final(f).log().len() < old(f).log().len() + self.rest().len(),
    @loop 0 invariant
        f.log().len() >= old(f).log().len(),
        forall|i: int| 0 <= i < old(f).log().len() ==> #[trigger] f.log()[i] == old(f).log()[i],
        forall|k: int| old(f).log().len() <= k < f.log().len() ==> {
            let c = #[trigger] f.log()[k];
            c.0 == self.rest()[k - old(f).log().len()] && (c.1 == t || c.1.copy_of(&t))
        },
        ({
            let done = f.log().len() - old(f).log().len();
            let left = (match current { Some(c) => seq![c], None => Seq::<I>::empty() }) + (match next { Some(c) => seq![c], None => Seq::<I>::empty() }) + this.rest();
            done <= self.rest().len() && left == self.rest().skip(done)
        }),
        next is Some ==> current is Some,
        next is None ==> this.rest().len() == 0,
        decreases this.rest().len() + (if next is Some { 1int } else { 0 }),
    @body 0 proof { let done = f.log().len() - old(f).log().len(); let left = self.rest().skip(done); assert(left.len() >= 2); assert(left[0] == self.rest()[done]); assert(left.skip(1) =~= self.rest().skip(done + 1)); }
    @after `while next.is_some() { let item = current.take().unwrap(); let cloned = t.try_clone()?; f.call(item, cloned); current = next; next = this.next(); }` proof {
        let done = f.log().len() - old(f).log().len(); let left = self.rest().skip(done); if current is Some { assert(left.len() == 1); assert(left[0] == self.rest()[done]); } else { assert(left.len() == 0); } }
*/
}
fn main() {}
}
