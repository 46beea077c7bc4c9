// ---- BufferPool
//@ subst Arc::new(DefaultAllocator { chunk_size: config.chunk_size, }) => Allocator::default_of(config.chunk_size)
//@ subst VecDeque::<BufferChunk>::new() => VecDeque::<BufferChunk>::new()
//@ subst custom_allocator: &Option<Allocator> => custom_allocator: &Option<Allocator>
//@ subst size.div_ceil(self.chunk_size) => div_ceil(size, self.chunk_size)
//@ subst Drain<'_, BufferChunk> => Vec<BufferChunk>
/*@ struct core/src/net/buffers/mod.rs BufferConfig */
/*@ enum core/src/net/buffers/mod.rs BufferError */
/*@ struct core/src/net/buffers/buffer_pool.rs BufferPool */

impl Allocator {
    /// The length of the chunks it gives.
    pub uninterp spec fn chunk_len(self) -> nat;
    #[verifier::external_body]
    fn default_of(chunk_size: usize) -> (r: Allocator)
        ensures r.chunk_len() == chunk_size,
    { unimplemented!() }
    #[verifier::external_body]
    fn get_chunk(&self) -> (r: ChunkPtr)
        ensures r.len() == self.chunk_len(),
    { unimplemented!() }
}
impl Clone for Allocator {
    #[verifier::external_body]
    fn clone(&self) -> (r: Allocator)
        ensures r == *self,
    { unimplemented!() }
}

#[verifier::external_body]
fn format_message() -> String { String::new() }

impl BufferConfig {
    /// The documented constraints.
    spec fn valid(self) -> bool {
        self.initial_chunk_count <= self.max_chunk_count && self.chunk_size > self.encode_buf_min_free_space
            && self.chunk_size >= 128 && self.max_chunk_count >= 2
    }
/*@ fn core/src/net/buffers/mod.rs :: impl BufferConfig :: validate
    requires self.valid(),
*/
}

/// What makes a buffer that buffer, whether it is locked or not.
type Key = (ChunkPtr, Lock, Allocator);
impl BufferChunk {
    spec fn key(self) -> Key { (self.chunk, self.ref_count, self.allocator) }
    /// Was found to be in use.
    spec fn in_use(self) -> bool { self.locked && exists|n: usize| n >= 2 && seen(self.ref_count, n) }
/*@ fn core/src/net/buffers/mod.rs :: impl BufferChunk :: from_chunk
    ensures !r.locked, r.chunk == raw_chunk, r.allocator == allocator,
*/
}

spec fn keys(s: Seq<BufferChunk>) -> Multiset<Key> { s.map_values(|b: BufferChunk| b.key()).to_multiset() }

proof fn keys_add(a: Seq<BufferChunk>, b: Seq<BufferChunk>)
    ensures keys(a + b) == keys(a).add(keys(b)),
{
    let f = |b: BufferChunk| b.key();
    assert((a + b).map_values(f) =~= a.map_values(f) + b.map_values(f));
    vstd::seq_lib::lemma_multiset_commutative(a.map_values(f), b.map_values(f));
}

proof fn keys_one(b: BufferChunk)
    ensures keys(seq![b]) == Multiset::<Key>::empty().insert(b.key()),
{
    let f = |b: BufferChunk| b.key();
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(seq![b].map_values(f) =~= Seq::<Key>::empty().push(b.key()));
    assert(Seq::<Key>::empty().to_multiset() =~= Multiset::<Key>::empty());
}

broadcast proof fn keys_push(s: Seq<BufferChunk>, b: BufferChunk)
    ensures #[trigger] keys(s.push(b)) == keys(s).insert(b.key()),
{
    keys_add(s, seq![b]);
    keys_one(b);
    assert(s.push(b) =~= s + seq![b]);
    assert(keys(s.push(b)) =~= keys(s).insert(b.key()));
}

broadcast proof fn keys_pop(s: Seq<BufferChunk>)
    requires s.len() > 0,
    ensures keys(s) == (#[trigger] keys(s.subrange(1, s.len() as int))).insert(s[0].key()),
{
    keys_add(seq![s[0]], s.subrange(1, s.len() as int));
    keys_one(s[0]);
    assert(s =~= seq![s[0]] + s.subrange(1, s.len() as int));
    assert(keys(s) =~= keys(s.subrange(1, s.len() as int)).insert(s[0].key()));
}

proof fn keys_none()
    ensures keys(Seq::<BufferChunk>::empty()) == Multiset::<Key>::empty(),
{
    keys_len(Seq::<BufferChunk>::empty());
    assert(keys(Seq::<BufferChunk>::empty()) =~= Multiset::<Key>::empty());
}

proof fn keys_skip()
    ensures forall|s: Seq<BufferChunk>| #[trigger] s.skip(0) == s, forall|s: Seq<BufferChunk>, n: int| n == s.len() ==> #[trigger] s.skip(n) == Seq::<BufferChunk>::empty(),
{
    assert forall|s: Seq<BufferChunk>| #[trigger] s.skip(0) == s by { assert(s.skip(0) =~= s); }
    assert forall|s: Seq<BufferChunk>, n: int| n == s.len() implies #[trigger] s.skip(n) == Seq::<BufferChunk>::empty() by { assert(s.skip(n) =~= Seq::<BufferChunk>::empty()); }
}

proof fn keys_front(s: Seq<BufferChunk>, b: BufferChunk)
    ensures keys(seq![b] + s) == keys(s).insert(b.key()),
{
    keys_add(seq![b], s);
    keys_one(b);
    assert(keys(seq![b] + s) =~= keys(s).insert(b.key()));
}

broadcast group group_keys { keys_push, keys_pop }

proof fn keys_len(a: Seq<BufferChunk>)
    ensures keys(a).len() == a.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
}

spec fn ceil(a: int, b: int) -> int { if a % b == 0 { a / b } else { a / b + 1 } }

fn div_ceil(a: usize, b: usize) -> (r: usize)
    requires b > 0,
    ensures r == ceil(a as int, b as int),
{
    if a % b == 0 { a / b } else {
        proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a as int, b as int); vstd::arithmetic::mul::lemma_mul_inequality(1, b as int, a as int / b as int); }
        a / b + 1
    }
}

impl BufferPool {
    spec fn inv(self) -> bool {
        &&& self.pool_size <= self.max_pool_size
        &&& self.chunk_size > 0
        &&& self.chunk_allocator.chunk_len() > 0
        &&& forall|i: int| 0 <= i < self.pool@.len() ==> (#[trigger] self.pool@[i]).size() == self.chunk_allocator.chunk_len()
    }
    /// As many buffers as allowed, and those in the pool were found to be in use.
    spec fn full(self) -> bool {
        self.pool_size == self.max_pool_size && forall|i: int| 0 <= i < self.pool@.len() ==> (#[trigger] self.pool@[i]).in_use()
    }
    /// So many bytes can still get buffers: new ones, or the first ones in the pool, which are free.
    spec fn has_free(self, size: int) -> bool {
        let n = ceil(size, self.chunk_size as int);
        n <= self.max_pool_size - self.pool_size || (n <= self.pool@.len() && forall|i: int| 0 <= i < n ==> !(#[trigger] self.pool@[i]).locked)
    }
    spec fn idle(self) -> Multiset<Key> { keys(self.pool@) }

/*@ fn core/src/net/buffers/buffer_pool.rs :: impl BufferPool :: with_config
    requires config.valid(), custom_allocator matches Some(a) ==> a.chunk_len() > 0,
    ensures r.inv(), forall|i: int| 0 <= i < r.pool@.len() ==> !(#[trigger] r.pool@[i]).locked, r.chunk_allocator.chunk_len() == (match custom_allocator { Some(a) => a.chunk_len(), None => config.chunk_size as nat }), r.pool_size == config.initial_chunk_count, r.max_pool_size == config.max_chunk_count, r.pool@.len() == r.pool_size, r.chunk_size == config.chunk_size,
    @loop 0 invariant pool@.len() == iter.index@, forall|i: int| 0 <= i < pool@.len() ==> (#[trigger] pool@[i]).size() == chunk_allocator.chunk_len() && !pool@[i].locked,
    @opt `for _ in 0..config` => `for _i in iter: 0..config`
*/
/*@ fn core/src/net/buffers/buffer_pool.rs :: impl BufferPool :: new_buffer
    ensures !r.locked, r.allocator == self.chunk_allocator, r.size() == self.chunk_allocator.chunk_len(),
*/
/*@ fn core/src/net/buffers/buffer_pool.rs :: impl BufferPool :: get_pool_sizes
    ensures r == (self.pool_size, self.pool@.len() as usize),
*/
/*@ fn core/src/net/buffers/buffer_pool.rs :: impl BufferPool :: return_buffer
    requires old(self).inv(), buffer.size() == old(self).chunk_allocator.chunk_len(),
    ensures final(self).inv(), final(self).chunk_allocator == old(self).chunk_allocator, final(self).idle() == old(self).idle().insert(buffer.key()), final(self).pool@.last().locked, final(self).pool@.len() > 0,
        final(self).pool_size == old(self).pool_size, final(self).max_pool_size == old(self).max_pool_size, final(self).chunk_size == old(self).chunk_size,
        final(self).pool@.drop_last() == old(self).pool@,
    @first broadcast use group_keys;
*/
/*@ fn core/src/net/buffers/buffer_pool.rs :: impl BufferPool :: increase_pool
    requires old(self).inv(),
    ensures final(self).inv(), final(self).pool == old(self).pool, final(self).chunk_allocator == old(self).chunk_allocator, final(self).max_pool_size == old(self).max_pool_size, final(self).chunk_size == old(self).chunk_size,
        match r {
            Some(b) => !b.locked && b.size() == old(self).chunk_allocator.chunk_len() && final(self).pool_size == old(self).pool_size + 1,
            None => old(self).pool_size == old(self).max_pool_size && final(self).pool_size == old(self).pool_size,
        },
*/
/*@ fn core/src/net/buffers/buffer_pool.rs :: impl BufferPool :: try_reclaim
    requires old(self).inv(),
    ensures reclaimed(*old(self), *final(self), r),
    @first let ghost before = self.pool@;
    @body 0 broadcast use group_keys;
    @opt `for _i in 0..` => `for _i in iter: 0..`
    @before `self.increase_pool()` proof { assert(self.pool@ =~= before); }
    @loop 0 invariant
        before == old(self).pool@, iter.index@ <= before.len(), iter.snapshot.end == before.len(),
        self.pool@ == before.skip(iter.index@ as int) + before.take(iter.index@ as int),
        forall|i: int| 0 <= i < iter.index@ ==> (#[trigger] before[i]).in_use(),
        self.idle() == old(self).idle(),
        self.inv(), self.pool_size == old(self).pool_size, self.max_pool_size == old(self).max_pool_size, self.chunk_size == old(self).chunk_size,
        self.chunk_allocator == old(self).chunk_allocator,
*/
/*@ fn core/src/net/buffers/buffer_pool.rs :: impl BufferPool :: get_buffer
    requires old(self).inv(),
    ensures reclaimed(*old(self), *final(self), r),
*/
/*@ fn core/src/net/buffers/buffer_pool.rs :: impl BufferPool :: try_reserve
    requires old(self).inv(),
    ensures final(self).inv(), final(self).max_pool_size == old(self).max_pool_size, final(self).chunk_size == old(self).chunk_size,
        final(self).chunk_allocator == old(self).chunk_allocator,
        // none is lost
        old(self).idle().subset_of(final(self).idle()),
        final(self).idle().len() - old(self).idle().len() == final(self).pool_size - old(self).pool_size,
        ({
            let n = ceil(size as int, old(self).chunk_size as int);
            match r {
                // that many can still be made, or are there and free
                Ok(_) => final(self).has_free(size as int),
                // there cannot be that many, or the others are all in use
                Err(_) => n > final(self).max_pool_size || final(self).pool_size == final(self).max_pool_size,
            }
        }),
    @loop 0 invariant self.inv(), self.max_pool_size == old(self).max_pool_size, self.chunk_size == old(self).chunk_size,
        self.chunk_allocator == old(self).chunk_allocator, required_buffers + reserved@.len() == ceil(size as int, self.chunk_size as int),
        forall|i: int| 0 <= i < reserved@.len() ==> !(#[trigger] reserved@[i]).locked && reserved@[i].size() == self.chunk_allocator.chunk_len(),
        old(self).idle().subset_of(self.idle().add(keys(reserved@))),
        self.idle().len() + reserved@.len() - old(self).idle().len() == self.pool_size - old(self).pool_size,
        decreases required_buffers,
    @opt `Vec::new()` => `Vec::<BufferChunk>::new()`
    @opt `for buffer in reserved` => `for buffer in iter: reserved`
    @first proof { keys_none(); keys_skip(); assert(self.idle().add(keys(Seq::<BufferChunk>::empty())) =~= self.idle()); }
    @body 0 broadcast use group_keys; let ghost b = self.idle().add(keys(reserved@));
    @after `required_buffers -= 1;` proof { assert(b.subset_of(self.idle().add(keys(reserved@)))); }
    @after `else {` let ghost res = reserved@; proof { keys_none(); keys_skip(); }
    @after `format_message())); } }` let ghost res = reserved@;
    @before `return Err(BufferError::NoAvailableBuffers(format_message())); } }` proof { assert(self.idle().add(keys(Seq::<BufferChunk>::empty())) =~= self.idle()); }
    @before `Ok(()) }` proof { assert(self.idle().add(keys(Seq::<BufferChunk>::empty())) =~= self.idle()); }
    @loop 1 invariant self.inv(), self.max_pool_size == old(self).max_pool_size, self.chunk_size == old(self).chunk_size,
        self.chunk_allocator == old(self).chunk_allocator,         iter.index@ <= iter.seq().len(), iter.seq().len() == res.len(), iter.seq() == res,
        forall|i: int| 0 <= i < res.len() ==> !(#[trigger] res[i]).locked && res[i].size() == self.chunk_allocator.chunk_len(),
        forall|i: int| 0 <= i < iter.index@ ==> !(#[trigger] self.pool@[i]).locked, self.pool@.len() >= iter.index@,
        old(self).idle().subset_of(self.idle().add(keys(iter.seq().skip(iter.index@ as int)))),
        self.idle().len() + iter.seq().skip(iter.index@ as int).len() - old(self).idle().len() == self.pool_size - old(self).pool_size,

    @body 1 let ghost p = self.pool@; let ghost left = iter.seq().skip(iter.index@ as int);
        proof { keys_pop(left); assert(left.subrange(1, left.len() as int) =~= iter.seq().skip(iter.index@ + 1)); keys_front(p, buffer); }
    @loop 2 invariant self.inv(), self.max_pool_size == old(self).max_pool_size, self.chunk_size == old(self).chunk_size,
        self.chunk_allocator == old(self).chunk_allocator,         iter.index@ <= iter.seq().len(), iter.seq().len() == res.len(), iter.seq() == res,
        forall|i: int| 0 <= i < res.len() ==> !(#[trigger] res[i]).locked && res[i].size() == self.chunk_allocator.chunk_len(),
        forall|i: int| 0 <= i < iter.index@ ==> !(#[trigger] self.pool@[i]).locked, self.pool@.len() >= iter.index@,
        old(self).idle().subset_of(self.idle().add(keys(iter.seq().skip(iter.index@ as int)))),
        self.idle().len() + iter.seq().skip(iter.index@ as int).len() - old(self).idle().len() == self.pool_size - old(self).pool_size,

    @body 2 let ghost p = self.pool@; let ghost left = iter.seq().skip(iter.index@ as int);
        proof { keys_pop(left); assert(left.subrange(1, left.len() as int) =~= iter.seq().skip(iter.index@ + 1)); keys_front(p, buffer); }
*/
}

/// Handing out a buffer takes a free one out of the pool, or else makes a new one within the limit.
spec fn reclaimed(a: BufferPool, b: BufferPool, r: Option<BufferChunk>) -> bool {
    &&& b.inv()
    &&& b.max_pool_size == a.max_pool_size
    &&& b.chunk_size == a.chunk_size
    &&& b.chunk_allocator == a.chunk_allocator
    &&& match r {
        Some(x) => {
            &&& !x.locked
            &&& x.size() == a.chunk_allocator.chunk_len()
            &&& {
                // one that was there, and either was never locked or nobody held its lock any more
                ||| {
                    &&& b.pool_size == a.pool_size
                    &&& a.idle() == b.idle().insert(x.key())
                    &&& exists|i: int| #![trigger a.pool@[i]] 0 <= i < a.pool@.len() && a.pool@[i].key() == x.key() && (!a.pool@[i].locked || exists|n: usize| n < 2 && seen(x.ref_count, n))
                }
                // a new one, if all there are were found to be in use
                ||| {
                    &&& b.pool_size == a.pool_size + 1
                    &&& a.idle() == b.idle()
                    &&& forall|i: int| 0 <= i < a.pool@.len() ==> (#[trigger] a.pool@[i]).in_use()
                }
            }
        },
        None => {
            &&& a.pool_size == a.max_pool_size
            &&& a.pool@.len() > 0 ==> a.pool@[0].in_use()
            &&& b.pool_size == a.pool_size
            &&& a.pool@ == b.pool@
            &&& b.full()
        },
    }
}
