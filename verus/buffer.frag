// ---- BufferChunk
//@ subst *mut dyn Chunk => ChunkPtr
//@ subst Arc<dyn ChunkAllocator> => Allocator
//@ subst Chunk::len(&*self.chunk) => chunk_len(&self.chunk)
//@ subst Chunk::is_empty(&*self.chunk) => chunk_is_empty(&self.chunk)
//@ subst (*self.chunk).as_mut_ptr() => chunk_ptr(&self.chunk)
//@ subst Arc::strong_count(&self.ref_count) => self.ref_count.strong_count()
//@ subst ptr.add(from) => ptr_add(ptr, from)

#[verifier::external_body]
pub struct ChunkPtr { x: usize }
#[verifier::external_body]
pub struct Allocator { x: usize }
impl ChunkPtr {
    pub open spec fn len(self) -> nat { self.mem().len() }
    /// What will have been written to the chunk by the time it is given back; a position counts
    /// from when the owner marks it as written until the chunk is free again.
    pub uninterp spec fn mem(self) -> Seq<u8>;
}
#[verifier::external_body]
proof fn chunk_mem_len(p: ChunkPtr)
    ensures p.len() <= usize::MAX,
{}
#[verifier::external_body]
fn chunk_len(p: &ChunkPtr) -> (r: usize)
    ensures r == p.len(),
{ p.x }
#[verifier::external_body]
fn chunk_is_empty(p: &ChunkPtr) -> (r: bool)
    ensures r == (p.len() == 0),
{ p.x == 0 }
#[verifier::external_body]
fn chunk_ptr(p: &ChunkPtr) -> (r: *mut u8)
    ensures at(r).len() == p.len(), will_be_at(r) == p.mem(),
{ p.x as *mut u8 }

/// Some clone count of a lock that was observed.
pub uninterp spec fn seen(lock: Lock, n: usize) -> bool;
impl Lock {
    #[verifier::external_body]
    fn strong_count(&self) -> (r: usize)
        ensures seen(*self, r),
    { std::sync::Arc::strong_count(&self.x) }
}

/*@ struct core/src/net/buffers/mod.rs BufferChunk */

impl BufferChunk {
    spec fn size(self) -> nat { self.chunk.len() }
    spec fn mem(self) -> Seq<u8> { self.chunk.mem() }
    spec fn part(self, from: int, to: int) -> Seq<Held> { held(self.mem().subrange(from, to), self.ref_count.id()) }

    /// `get_slice` for bytes that were written before: they are there.
    #[verifier::external_body]
    fn get_written(&mut self, from: usize, to: usize) -> (r: &'static mut [u8])
        requires from < to, to <= old(self).size(), !old(self).locked,
        ensures *final(self) == *old(self), r@ == old(self).mem().subrange(from as int, to as int),
    { unimplemented!() }

/*@ fn core/src/net/buffers/mod.rs :: impl BufferChunk :: len
    ensures r == self.size(),
*/
/*@ fn core/src/net/buffers/mod.rs :: impl BufferChunk :: is_empty
    ensures r == (self.size() == 0),
*/
/*@ fn core/src/net/buffers/mod.rs :: impl BufferChunk :: get_slice
    requires from < to, to <= old(self).size(), !old(self).locked,
    ensures *final(self) == *old(self), r@.len() == to - from, final(r)@ == old(self).mem().subrange(from as int, to as int),
    @first proof { chunk_mem_len(self.chunk); assert(self.mem().skip(from as int).take(to - from) =~= self.mem().subrange(from as int, to as int)); }
*/
/*@ fn core/src/net/buffers/mod.rs :: impl BufferChunk :: swap_buffer
    ensures *final(self) == *old(other), *final(other) == *old(self),
*/
/*@ fn core/src/net/buffers/mod.rs :: impl BufferChunk :: get_lease
    requires from < to, to <= old(self).size(), !old(self).locked,
    ensures *final(self) == *old(self), r.inv(), r.read_pointer == 0, r.bytes() == r@,
        r@ == old(self).part(from as int, to as int), r@.len() == to - from,
    @opt `self.get_slice(from, to)` => `self.get_written(from, to)`
    @first proof { chunk_mem_len(self.chunk); }
*/
/*@ fn core/src/net/buffers/mod.rs :: impl BufferChunk :: get_lock
    ensures r.id() == self.ref_count.id(),
*/
/*@ fn core/src/net/buffers/mod.rs :: impl BufferChunk :: free
    ensures !r ==> *final(self) == *old(self) && old(self).locked && exists|n: usize| n >= 2 && seen(old(self).ref_count, n),
        r ==> !final(self).locked, !old(self).locked ==> r && *final(self) == *old(self),
        r && old(self).locked ==> exists|n: usize| n < 2 && seen(old(self).ref_count, n),
        final(self).chunk == old(self).chunk, final(self).ref_count == old(self).ref_count, final(self).allocator == old(self).allocator,
*/
/*@ fn core/src/net/buffers/mod.rs :: impl BufferChunk :: lock
    ensures final(self).locked, final(self).chunk == old(self).chunk, final(self).ref_count == old(self).ref_count, final(self).allocator == old(self).allocator,
*/
}
