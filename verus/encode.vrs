// C10: the encode buffer hands out exactly what was written.
use std::cmp::Ordering;
use std::collections::VecDeque;
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
//@ include chunks.frag
//@ include buffer.frag
//@ include pool.frag
//@ subst Arc<dyn ChunkAllocator> => Allocator
//@ subst UninitSlice::from_raw_parts_mut => tail_from_raw_parts_mut
//@ subst UninitSlice => [u8]
//@ subst (*self.encode_buffer.buffer.chunk).as_mut_ptr() => chunk_ptr(&self.encode_buffer.buffer.chunk)
//@ subst ptr.add(self.encode_buffer.write_offset) => ptr_add(ptr, self.encode_buffer.write_offset)
//@ subst ptr::copy_nonoverlapping(src.as_ptr().add(off), dst.as_mut_ptr(), cnt) => copy_bytes(src, off, dst, cnt)
//@ subst cmp::min( => min(
//@ subst T: super::Buf => T: Buf
//@ subst unsafe fn advance_mut => fn advance_mut
//@ subst BufferEncoder<'_> => BufferEncoder<'_>

#[verifier::external_body]
pub struct DispatcherRef { x: usize }
#[verifier::external_body]
pub struct SerError { x: usize }
impl SerError {
    #[verifier::external_body]
    fn no_buffers_available(s: &str) -> SerError { unimplemented!() }
    #[verifier::external_body]
    fn invalid_data(s: &str) -> SerError { unimplemented!() }
}

fn min(a: usize, b: usize) -> (r: usize)
    ensures r == (if a <= b { a } else { b }),
{ if a <= b { a } else { b } }

/// The part of a chunk's memory that is about to be written.
#[verifier::external_body]
fn tail_from_raw_parts_mut<'a>(p: *mut u8, n: usize) -> (r: &'a mut [u8])
    requires n <= at(p).len(),
    ensures r@.len() == n, final(r)@ == will_be_at(p).take(n as int),
{ unsafe { std::slice::from_raw_parts_mut(p, n) } }

/// The bytes that are written there are the ones to be found there later.
#[verifier::external_body]
fn copy_bytes(src: &[u8], off: usize, dst: &mut [u8], cnt: usize)
    requires off + cnt <= src@.len(), cnt <= old(dst)@.len(),
    ensures final(dst)@.len() == old(dst)@.len(), final(dst)@.take(cnt as int) == src@.subrange(off as int, off + cnt),
{ unimplemented!() }

/*@ struct core/src/net/buffers/encode_buffer.rs EncodeBuffer */
/*@ struct core/src/net/buffers/encode_buffer.rs BufferEncoder */

impl EncodeBuffer {
    spec fn inv(self) -> bool {
        &&& self.read_offset <= self.write_offset <= self.buffer.size()
        &&& !self.buffer.locked
        &&& self.buffer.size() == self.buffer_pool.chunk_allocator.chunk_len()
        &&& self.buffer_pool.inv()
    }
    /// What was written and not taken yet.
    spec fn view(self) -> Seq<Held> { self.buffer.part(self.read_offset as int, self.write_offset as int) }

/*@ fn core/src/net/buffers/encode_buffer.rs :: impl EncodeBuffer :: with_config
    requires config.valid(), custom_allocator matches Some(a) ==> a.chunk_len() > 0,
    ensures r.inv(), r@ == Seq::<Held>::empty(), r.read_offset == r.write_offset, r.dispatcher_ref is None, r.min_remaining == config.encode_buf_min_free_space,
        r.buffer_pool.max_pool_size == config.max_chunk_count,
    @before `EncodeBuffer {` proof { assert(buffer.part(0, 0) =~= Seq::<Held>::empty()); }
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: impl EncodeBuffer :: with_dispatcher_ref
    requires config.valid(), custom_allocator matches Some(a) ==> a.chunk_len() > 0,
    ensures r.inv(), r@ == Seq::<Held>::empty(), r.read_offset == r.write_offset, r.dispatcher_ref is Some, r.min_remaining == config.encode_buf_min_free_space,
        r.buffer_pool.max_pool_size == config.max_chunk_count,
    @before `EncodeBuffer {` proof { assert(buffer.part(0, 0) =~= Seq::<Held>::empty()); }
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: impl EncodeBuffer :: get_buffer_encoder
    requires old(self).inv(), old(self).read_offset == old(self).write_offset,
    ensures match r {
            Ok(e) => e.inv() && e@ == Seq::<Held>::empty() && (*e.encode_buffer == *old(self) || swapped(*old(self), *e.encode_buffer)) && after(*e.encode_buffer, *final(self)),
            Err(_) => exhausted(*old(self), *final(self)),
        },
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: impl EncodeBuffer :: swap_buffer
    requires old(self).inv(),
    ensures match r { Ok(_) => swapped(*old(self), *final(self)) && final(self)@ == Seq::<Held>::empty(), Err(_) => exhausted(*old(self), *final(self)) },
    @first let ghost before = *self;
    @after `= self.buffer_pool.get_buffer() {` let ghost mid = self.buffer_pool; 
    @before `Ok(())` proof { assert(self@ =~= Seq::<Held>::empty()); assert(mid.idle().insert(before.buffer.key()) == self.buffer_pool.idle()); }
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: impl EncodeBuffer :: writeable_len
    requires self.inv(),
    ensures r == self.buffer.size() - self.write_offset,
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: impl EncodeBuffer :: get_write_offset
    ensures r == self.write_offset,
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: impl EncodeBuffer :: get_read_offset
    ensures r == self.read_offset,
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: impl EncodeBuffer :: len
    ensures r == self.buffer.size(),
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: impl EncodeBuffer :: get_chunk_lease
    requires old(self).inv(),
    ensures final(self).inv(), final(self).buffer == old(self).buffer, final(self).write_offset == old(self).write_offset,
        final(self).read_offset == final(self).write_offset, final(self).buffer_pool == old(self).buffer_pool, final(self).min_remaining == old(self).min_remaining,
        match r {
            Some(l) => l.inv() && l.read_pointer == 0 && l.bytes() == l@ && l@ == old(self)@ && l@.len() > 0,
            None => old(self)@ == Seq::<Held>::empty(),
        },
*/
}

/// The buffer was given up for a free one (or a new one), with nothing in it.
spec fn swapped(a: EncodeBuffer, b: EncodeBuffer) -> bool {
    &&& b.inv()
    &&& b.write_offset == 0
    &&& b.read_offset == 0
    &&& b.min_remaining == a.min_remaining
    &&& exists|mid: BufferPool| reclaimed(a.buffer_pool, mid, Some(b.buffer)) && #[trigger] mid.idle().insert(a.buffer.key()) == b.buffer_pool.idle()
        && mid.pool_size == b.buffer_pool.pool_size
}

/// There was no buffer to swap with, and nothing happened to the current one.
spec fn exhausted(a: EncodeBuffer, b: EncodeBuffer) -> bool {
    &&& b.inv()
    &&& b.buffer == a.buffer
    &&& b.write_offset == a.write_offset
    &&& b.read_offset == a.read_offset
    &&& b.min_remaining == a.min_remaining
    &&& reclaimed(a.buffer_pool, b.buffer_pool, None)
}

/// What the encoder leaves behind is whatever it does to it.
spec fn after(a: EncodeBuffer, b: EncodeBuffer) -> bool { true }

/// The given number of positions now counts as written.
spec fn advanced(a: BufferEncoder, b: BufferEncoder, cnt: int) -> bool {
    let room = a.eb().buffer.size() - a.eb().write_offset;
    if cnt <= room {
        &&& b.ser_error is None
        &&& b.chain_head == a.chain_head
        &&& b.eb() == EncodeBuffer { write_offset: (a.eb().write_offset + cnt) as usize, ..a.eb() }
        &&& b@ == a@ + a.eb().buffer.part(a.eb().write_offset as int, a.eb().write_offset + cnt)
    } else {
        match b.ser_error {
            None => {
                &&& b@.len() == a@.len() + cnt
                &&& b@.take(a@.len() as int) == a@
                &&& b.eb().read_offset == 0
                &&& b.eb().write_offset == cnt - room
                &&& swapped(a.eb(), EncodeBuffer { write_offset: 0, ..b.eb() })
            },
            Some(_) => exhausted(EncodeBuffer { write_offset: a.eb().buffer.size() as usize, read_offset: a.eb().buffer.size() as usize, ..a.eb() }, b.eb())
                && b.eb().buffer_pool.full() && b@.len() == a@.len() + room,
        }
    }
}

impl<'a> BufferEncoder<'a> {
    spec fn eb(self) -> EncodeBuffer { *self.encode_buffer }
    spec fn inv(self) -> bool {
        &&& (*self.encode_buffer).inv()
        &&& self.chain_head matches Some(c) ==> c.inv() && c.read_pointer == 0 && c.bytes().len() > 0
    }
    /// What was written since the last chunk was taken.
    spec fn view(self) -> Seq<Held> {
        (match self.chain_head { None => Seq::empty(), Some(c) => c.bytes() }) + (*self.encode_buffer)@
    }
/*@ fn core/src/net/buffers/encode_buffer.rs :: impl<'a> BufferEncoder<'a> :: new
    requires old(encode_buffer).inv(), old(encode_buffer).read_offset == old(encode_buffer).write_offset,
    ensures r.inv(), r@ == Seq::<Held>::empty(), *r.encode_buffer == *old(encode_buffer), r.chain_head is None, r.ser_error is None,
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: impl<'a> BufferEncoder<'a> :: chain_and_swap
    requires old(self).inv(), old(self)@.len() <= usize::MAX,
    ensures final(self).ser_error == old(self).ser_error, final(self).inv(), final(self)@ == old(self)@,
        match r {
            Ok(_) => swapped(old(self).eb(), final(self).eb()),
            Err(_) => exhausted(EncodeBuffer { read_offset: old(self).eb().write_offset, ..old(self).eb() }, final(self).eb()),
        },
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: impl<'a> BufferEncoder<'a> :: get_chunk_lease
    requires old(self).inv(), old(self)@.len() <= usize::MAX,
    ensures final(self).inv(), 
        match r {
            Ok(l) => l.inv() && l.read_pointer == 0 && l@ == old(self)@ && old(self)@.len() > 0 && old(self).ser_error is None && final(self)@ == Seq::<Held>::empty(),
            Err(_) => old(self).ser_error is Some || old(self)@ == Seq::<Held>::empty(),
        },
        final(self).ser_error is None,
        final(self).eb().buffer == old(self).eb().buffer, final(self).eb().write_offset == old(self).eb().write_offset,
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: unsafe impl BufMut for BufferEncoder<'_> :: remaining_mut
    requires self.inv(),
    ensures r == self.eb().buffer.size() - self.eb().write_offset,
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: unsafe impl BufMut for BufferEncoder<'_> :: advance_mut
    requires old(self).inv(), old(self)@.len() + cnt <= usize::MAX, cnt <= old(self).eb().buffer_pool.chunk_allocator.chunk_len(),
    ensures final(self).inv(),
        old(self).ser_error is Some ==> *final(self) == *old(self),
        old(self).ser_error is None ==> advanced(*old(self), *final(self), cnt as int),
    @first proof { chunk_mem_len(self.encode_buffer.buffer.chunk); } let ghost before = self@;
    @after `self.encode_buffer.write_offset += remaining;` let ghost full = self@; proof { assert(self@ =~= before + self.eb().buffer.part(self.encode_buffer.write_offset - remaining, self.encode_buffer.write_offset as int)); assert(self@.take(before.len() as int) =~= before); }
    @before `} else { self.encode_buffer.write_offset += cnt` proof {
        if self.ser_error is None {
            assert(self@ =~= full + self.eb().buffer.part(0, self.encode_buffer.write_offset as int));
            assert(self@.take(before.len() as int) =~= before);
            assert(EncodeBuffer { write_offset: 0, ..self.eb() } == EncodeBuffer { write_offset: 0, ..self.eb() });
        }
    }
    @after `self.encode_buffer.write_offset += cnt;` proof { assert(self@ =~= before + self.eb().buffer.part(self.encode_buffer.write_offset - cnt, self.encode_buffer.write_offset as int)); assert(self@.take(before.len() as int) =~= before); }
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: unsafe impl BufMut for BufferEncoder<'_> :: chunk_mut
    requires old(self).inv(),
    ensures *final(self) == *old(self), r@.len() == old(self).eb().buffer.size() - old(self).eb().write_offset,
        final(r)@ == old(self).eb().buffer.mem().skip(old(self).eb().write_offset as int),
    @first proof { chunk_mem_len(self.encode_buffer.buffer.chunk); assert(self.eb().buffer.mem().skip(self.eb().write_offset as int).take(self.eb().buffer.size() - self.eb().write_offset) =~= self.eb().buffer.mem().skip(self.eb().write_offset as int)); }
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: unsafe impl BufMut for BufferEncoder<'_> :: put_slice
    requires old(self).inv(), old(self)@.len() + src@.len() <= usize::MAX,
    ensures final(self).inv(),
        old(self).ser_error is Some ==> *final(self) == *old(self) || src@.len() == 0,
        old(self).ser_error is None ==> match final(self).ser_error {
            None => plain(final(self)@) == plain(old(self)@) + src@ && final(self)@.take(old(self)@.len() as int) == old(self)@,
            Some(_) => final(self).eb().buffer_pool.full(),
        },
    @body 0 let ghost before = *self; let ghost at = off as int; let ghost wo = self.eb().write_offset as int;
    @after `self.advance_mut(cnt);` proof {
        let n = off - at;
        assert(self.eb().buffer.mem().subrange(wo, wo + n) =~= before.eb().buffer.mem().skip(wo).take(n));
        assert(plain(before.eb().buffer.part(wo, wo + n)) =~= src@.subrange(at, off as int));
        assert(plain(self@) =~= plain(before@) + src@.subrange(at, off as int));
        assert(src@.take(off as int) =~= src@.take(at) + src@.subrange(at, off as int));
        assert(self@.take(old(self)@.len() as int) =~= before@.take(old(self)@.len() as int));
    }
    @opt `let _ = self.chain_and_swap().map_err(|err| { self.ser_error = Some(err); });` => `match self.chain_and_swap() { Ok(_) => {}, Err(err) => { self.ser_error = Some(err); } }`
    @loop 0 invariant off <= src@.len(), self.inv(), old(self)@.len() + src@.len() <= usize::MAX,
        old(self).ser_error is Some ==> *self == *old(self),
        old(self).ser_error is None ==> match self.ser_error {
            None => plain(self@) == plain(old(self)@) + src@.take(off as int) && self@.take(old(self)@.len() as int) == old(self)@,
            Some(_) => self.eb().buffer_pool.full(),
        },
        decreases (if self.ser_error is None { 1int } else { 0 }), src@.len() - off, (if self.eb().buffer.size() == self.eb().write_offset { 1int } else { 0 }),
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: impl<'a> BufferEncoder<'a> :: pad
    requires old(self).inv(), old(self)@.len() + cnt <= usize::MAX, cnt <= old(self).eb().buffer_pool.chunk_allocator.chunk_len(),
    ensures final(self).inv(),
        old(self).ser_error is Some ==> *final(self) == *old(self),
        old(self).ser_error is None ==> advanced(*old(self), *final(self), cnt as int),
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: impl<'a> BufferEncoder<'a> :: try_reserve
    requires old(self).inv(), old(self)@.len() <= usize::MAX,
    ensures final(self).inv(), final(self)@ == old(self)@, final(self).ser_error == old(self).ser_error,
        match r {
            Ok(_) => ({
                let room = final(self).eb().buffer.size() - final(self).eb().write_offset;
                // it fits, or else the pool has free buffers for the rest
                ||| room > size
                ||| final(self).eb().buffer_pool.has_free(size - room)
            }),
            Err(_) => final(self).eb().buffer_pool.pool_size == final(self).eb().buffer_pool.max_pool_size
                || ceil(size as int - (old(self).eb().buffer.size() - old(self).eb().write_offset), old(self).eb().buffer_pool.chunk_size as int) > old(self).eb().buffer_pool.max_pool_size,
        },
    @opt `.map_err(|e| SerError::no_buffers_available(e.to_string()))` => `.map_err(|e: BufferError| -> (s: SerError) { no_buffers(e) })`
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: impl Drop for BufferEncoder<'_> :: drop as dropped
    requires old(self).inv(),
    ensures final(self).eb().inv(), final(self).eb() == (EncodeBuffer { read_offset: old(self).eb().write_offset, ..old(self).eb() }),
*/
/*@ fn core/src/net/buffers/encode_buffer.rs :: unsafe impl BufMut for BufferEncoder<'_> :: put
    requires old(self).inv(), src.inv(), old(self)@.len() + src.rest().len() <= usize::MAX,
    ensures final(self).inv(),
        old(self).ser_error is None ==> match final(self).ser_error {
            None => plain(final(self)@) == plain(old(self)@) + src.rest() && final(self)@.take(old(self)@.len() as int) == old(self)@,
            Some(_) => final(self).eb().buffer_pool.full(),
        },
    @loop 0 invariant self.inv(), src.inv(), old(self)@.len() + src0.rest().len() <= usize::MAX, src.rest().len() <= src0.rest().len(),
        old(self).ser_error is Some ==> self.ser_error is Some,
        old(self).ser_error is None ==> match self.ser_error {
            None => plain(self@) + src.rest() == plain(old(self)@) + src0.rest() && self@.take(old(self)@.len() as int) == old(self)@,
            Some(_) => self.eb().buffer_pool.full(),
        },
        decreases src.rest().len(),
    @first let ghost src0 = src; proof { assert(self@.take(self@.len() as int) =~= self@); }
    @body 0 let ghost was = self@; let ghost left = src.rest(); proof {
        assert((plain(self@) + src.rest()).len() == plain(self@).len() + src.rest().len());
        assert((plain(old(self)@) + src0.rest()).len() == plain(old(self)@).len() + src0.rest().len());
    }
    @after `src.advance(len);` proof { if self.ser_error is None {
        assert(left.take(len as int) + left.skip(len as int) =~= left);
        assert(plain(self@) + src.rest() =~= plain(was) + left);
        assert(self@.take(old(self)@.len() as int) =~= self@.take(was.len() as int).take(old(self)@.len() as int));
    } }
*/
}
#[verifier::external_body]
fn no_buffers(e: BufferError) -> SerError { unimplemented!() }

/// What `bytes::Buf` promises.
pub trait Buf: Sized {
    spec fn rest(&self) -> Seq<u8>;
    spec fn inv(&self) -> bool;
    /// The length of the contiguous part that comes next.
    spec fn next(&self) -> nat;
    fn remaining(&self) -> (r: usize)
        requires self.inv(),
        ensures r == self.rest().len();
    fn chunk(&self) -> (r: &[u8])
        requires self.inv(),
        ensures r@.len() == self.next(), r@.len() <= self.rest().len(), r@ == self.rest().take(r@.len() as int), self.rest().len() > 0 ==> r@.len() > 0;
    fn advance(&mut self, cnt: usize)
        requires old(self).inv(), cnt <= old(self).rest().len(),
        ensures final(self).inv(), final(self).rest() == old(self).rest().skip(cnt as int);
}
fn main() {}
}
