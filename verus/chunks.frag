// ---- chains of leases and references
//@ subst Arc<()> => Lock
//@ subst Arc::new(()) => Lock::new()
//@ subst std::slice::from_raw_parts_mut => from_raw_parts_mut
//@ subst NonNull::dangling().as_ptr() => dangling()
//@ subst content_ptr.add(position) => ptr_add(content_ptr, position)
//@ subst self.content.as_mut_ptr() => as_mut_ptr(&mut self.content)
//@ subst position.cmp(&self.chain_head_len) => cmp(position, self.chain_head_len)

/// Stands for `Arc<()>`, of which only the identity counts.
#[verifier::external_body]
pub struct Lock { x: std::sync::Arc<()> }
impl Lock {
    pub uninterp spec fn id(self) -> int;
    #[verifier::external_body]
    pub fn new() -> (r: Lock) { Lock { x: std::sync::Arc::new(()) } }
}
impl Clone for Lock {
    #[verifier::external_body]
    fn clone(&self) -> (r: Lock)
        ensures r.id() == self.id(),
    { Lock { x: self.x.clone() } }
}

/// A byte and the lock that keeps its memory from being reused.
pub type Held = (u8, int);

pub open spec fn held(s: Seq<u8>, lock: int) -> Seq<Held> { Seq::new(s.len(), |i: int| (s[i], lock)) }

pub open spec fn plain(s: Seq<Held>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i].0) }

/// The bytes behind a raw pointer, up to the end of its allocation.
pub uninterp spec fn at(p: *mut u8) -> Seq<u8>;

/// The bytes that are there from when they are written.
pub uninterp spec fn will_be_at(p: *mut u8) -> Seq<u8>;

#[verifier::external_body]
fn as_mut_ptr(s: &mut &'static mut [u8]) -> (r: *mut u8)
    ensures at(r) == old(s)@, *final(s) == *old(s),
{ s.as_mut_ptr() }

#[verifier::external_body]
fn ptr_add(p: *mut u8, n: usize) -> (r: *mut u8)
    requires n <= at(p).len(),
    ensures at(r) == at(p).skip(n as int), will_be_at(r) == will_be_at(p).skip(n as int),
{ unsafe { p.add(n) } }

#[verifier::external_body]
fn from_raw_parts_mut(p: *mut u8, n: usize) -> (r: &'static mut [u8])
    requires n <= at(p).len(),
    ensures r@ == at(p).take(n as int), final(r)@ == will_be_at(p).take(n as int),
{ unsafe { std::slice::from_raw_parts_mut(p, n) } }

#[verifier::external_body]
fn dangling() -> (r: *mut u8)
{ std::ptr::NonNull::dangling().as_ptr() }

fn cmp(a: usize, b: usize) -> (r: Ordering)
    ensures r == (if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }),
{ if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }

/*@ struct core/src/net/buffers/chunk_lease.rs ChunkLease */

/*@ struct core/src/net/buffers/chunk_ref.rs ChunkRef */

impl ChunkLease {
    spec fn bytes(self) -> Seq<Held>
        decreases self,
    {
        match self.chain {
            None => held(self.content@, self.lock.id()),
            Some(c) => held(self.content@, self.lock.id()) + c.bytes(),
        }
    }
    /// Every part knows its length and that of the chain from there on.
    spec fn wf(self) -> bool
        decreases self,
    {
        &&& self.chain_head_len == self.content@.len()
        &&& self.chain_len == self.bytes().len()
        &&& match self.chain { None => true, Some(c) => c.wf() && c.read_pointer == 0 }
    }
    spec fn inv(self) -> bool { self.wf() && self.read_pointer <= self.bytes().len() }
    spec fn parts(self) -> nat
        decreases self,
    { match self.chain { None => 1, Some(c) => 1 + c.parts() } }
    /// What is left to be read.
    spec fn view(self) -> Seq<Held> { self.bytes().skip(self.read_pointer as int) }

/*@ fn core/src/net/buffers/chunk_lease.rs :: impl ChunkLease :: new
    ensures r.inv(), r@ == held(old(content)@, lock.id()), r.bytes() == r@, r.read_pointer == 0, r.parts() == 1,
    @before `ChunkLease {` proof { assert(held(content@, lock.id()).skip(0) =~= held(content@, lock.id())); }
*/
/*@ fn core/src/net/buffers/chunk_lease.rs :: impl ChunkLease :: empty
    ensures r.inv(), r@ == Seq::<Held>::empty(), r.bytes() == r@, r.read_pointer == 0, r.parts() == 1,
    @before `ChunkLease::new` proof { assert forall|l: int, s: Seq<u8>| s.len() == 0 implies #[trigger] held(s, l) == Seq::<Held>::empty() by { assert(held(s, l) =~= Seq::<Held>::empty()); } }
*/
/*@ fn core/src/net/buffers/chunk_lease.rs :: impl ChunkLease :: capacity
    requires self.wf(),
    ensures r == self.bytes().len(),
*/
/*@ fn core/src/net/buffers/chunk_lease.rs :: impl ChunkLease :: append_to_chain
    requires old(self).wf(), new_tail.wf(), new_tail.read_pointer == 0, old(self).bytes().len() + new_tail.bytes().len() <= usize::MAX,
    ensures final(self).wf(), final(self).bytes() == old(self).bytes() + new_tail.bytes(), final(self).read_pointer == old(self).read_pointer,
        final(self).write_pointer == old(self).write_pointer, final(self).parts() == old(self).parts() + new_tail.parts(),
    decreases *old(self),
*/
/*@ fn core/src/net/buffers/chunk_lease.rs :: impl ChunkLease :: split_at
    requires old(self).wf(), position <= old(self).bytes().len(),
    ensures final(self).wf(), r.wf(),
        final(self).bytes() == old(self).bytes().take(position as int),
        r.bytes() == old(self).bytes().skip(position as int),
        final(self).read_pointer == old(self).read_pointer,
        r.read_pointer == 0, r.parts() <= old(self).parts(), final(self).parts() <= old(self).parts(),
    decreases *old(self),
*/
/*@ fn core/src/net/buffers/chunk_lease.rs :: impl ChunkLease :: get_chunk_at
    requires self.wf(), pos < self.bytes().len(),
    ensures r@.len() > 0, pos + r@.len() <= self.bytes().len(), r@ == plain(self.bytes()).subrange(pos as int, pos + r@.len()),
    decreases self,
*/
/*@ fn core/src/net/buffers/chunk_lease.rs :: impl ChunkLease :: into_chunk_ref
    requires self.inv(),
    ensures r.inv(), r@ == self@, r.read_pointer == 0, r.bytes() == r@,
    decreases self.parts(), self.read_pointer,
    @opt `this.chain.map(|chain| Box::new(chain.into_chunk_ref()))` => `match this.chain { Some(chain) => Some(Box::new(chain.into_chunk_ref())), None => None }`
    @before `ChunkRef::new(` proof { let b = this.bytes(); assert(b.skip(0) =~= b); if chain.is_some() { assert(chain.unwrap().bytes() =~= self.chain.unwrap().bytes()); } }
*/
/*@ fn core/src/net/buffers/chunk_lease.rs :: impl ChunkLease :: into_chunk_ref_with_tail
    requires self.inv(), tail.inv(), self@.len() + tail@.len() <= usize::MAX,
    ensures r.inv(), r@ == self@ + tail@,
*/
/*@ fn core/src/net/buffers/chunk_lease.rs :: impl ChunkLease :: into_chunk_ref_with_head
    requires self.inv(), head.inv(), head.bytes().len() + self@.len() <= usize::MAX,
    ensures r.inv(), r@ == head@ + self@,
*/
/*@ fn core/src/net/buffers/chunk_lease.rs :: impl Buf for ChunkLease :: remaining
    requires self.inv(),
    ensures r == self@.len(),
*/
/*@ fn core/src/net/buffers/chunk_lease.rs :: impl Buf for ChunkLease :: chunk
    requires self.inv(),
    ensures r@.len() <= self@.len(), r@ == plain(self@).take(r@.len() as int), self@.len() > 0 ==> r@.len() > 0,
*/
/*@ fn core/src/net/buffers/chunk_lease.rs :: impl Buf for ChunkLease :: advance
    requires old(self).inv(), cnt <= old(self)@.len(),
    ensures final(self).inv(), final(self)@ == old(self)@.skip(cnt as int), final(self).bytes() == old(self).bytes(),
*/
}

impl ChunkRef {
    spec fn bytes(self) -> Seq<Held>
        decreases self,
    {
        match self.chain {
            None => held(self.content@, self.lock.id()),
            Some(c) => held(self.content@, self.lock.id()) + c.bytes(),
        }
    }
    spec fn wf(self) -> bool
        decreases self,
    {
        &&& self.chain_head_len == self.content@.len()
        &&& self.chain_len == self.bytes().len()
        &&& match self.chain { None => true, Some(c) => c.wf() && c.read_pointer == 0 }
    }
    spec fn inv(self) -> bool { self.wf() && self.read_pointer <= self.bytes().len() }
    spec fn parts(self) -> nat
        decreases self,
    { match self.chain { None => 1, Some(c) => 1 + c.parts() } }
    spec fn view(self) -> Seq<Held> { self.bytes().skip(self.read_pointer as int) }

/*@ fn core/src/net/buffers/chunk_ref.rs :: impl ChunkRef :: new
    ensures r.content == content, r.read_pointer == read_pointer, r.chain_head_len == chain_head_len, r.lock == lock, r.chain == chain, r.chain_len == chain_len,
*/
/*@ fn core/src/net/buffers/chunk_ref.rs :: impl ChunkRef :: capacity
    requires self.wf(),
    ensures r == self.bytes().len(),
*/
/*@ fn core/src/net/buffers/chunk_ref.rs :: impl ChunkRef :: append_to_chain
    requires old(self).wf(), new_tail.inv(), old(self).bytes().len() + new_tail@.len() <= usize::MAX,
    ensures final(self).wf(), final(self).bytes() == old(self).bytes() + new_tail@, final(self).read_pointer == old(self).read_pointer,
    decreases *old(self),
*/
/*@ fn core/src/net/buffers/chunk_ref.rs :: impl ChunkRef :: without_read_prefix
    requires self.inv(),
    ensures r.inv(), r@ == self@, r.read_pointer == 0, r.bytes() == r@,
    @loop 0 invariant this.inv(), this@ == self@, decreases this.parts(),
    @before `let read_pointer` let ghost before = this;
    @after `this.read_pointer = read_pointer;` proof { assert(this.bytes() =~= before.chain.unwrap().bytes()); assert(this.parts() == before.chain.unwrap().parts()); assert(before.chain.unwrap().wf()); assert(this.wf()); assert(this.read_pointer <= this.bytes().len()); assert(before.bytes() == held(before.content@, before.lock.id()) + before.chain.unwrap().bytes()); assert(this@ =~= before@); }
    @before `this.content = ` let ghost before = this;
    @after `this.read_pointer = 0;` proof { assert(this.bytes() =~= before@); assert(this@ =~= before@); }
*/
/*@ fn core/src/net/buffers/chunk_ref.rs :: impl ChunkRef :: get_chunk_at
    requires self.wf(), pos < self.bytes().len(),
    ensures r@.len() > 0, pos + r@.len() <= self.bytes().len(), r@ == plain(self.bytes()).subrange(pos as int, pos + r@.len()),
    decreases self,
*/
/*@ fn core/src/net/buffers/chunk_ref.rs :: impl Buf for ChunkRef :: remaining
    requires self.inv(),
    ensures r == self@.len(),
*/
/*@ fn core/src/net/buffers/chunk_ref.rs :: impl Buf for ChunkRef :: chunk
    requires self.inv(),
    ensures r@.len() <= self@.len(), r@ == plain(self@).take(r@.len() as int), self@.len() > 0 ==> r@.len() > 0,
*/
/*@ fn core/src/net/buffers/chunk_ref.rs :: impl Buf for ChunkRef :: advance
    requires old(self).inv(), cnt <= old(self)@.len(),
    ensures final(self).inv(), final(self)@ == old(self)@.skip(cnt as int), final(self).bytes() == old(self).bytes(),
*/
}
