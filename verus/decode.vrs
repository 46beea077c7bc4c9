// C02: the receiving buffer yields the frames of the stream, however it is cut up and swapped.
use std::cmp::Ordering;
use vstd::prelude::*;
verus! {
//@ include chunks.frag
//@ include buffer.frag
//@ subst FRAME_HEAD_LEN as usize => (FRAME_HEAD_LEN as usize)
//@ subst B: Buf + ?Sized => B
//@ subst fn decode_from<B>(src: &mut B) => fn decode_from(src: &mut ChunkLease)
//@ subst src.chunk().to_vec() => to_vec(src.chunk())
//@ subst (std::io::Error) => (IoError)
//@ subst io::Result<bool> => Result<bool, FramingError>
//@ subst let frame_type: FrameType = src.get_u8().into(); => let frame_type: FrameType = FrameType::from(src.get_u8());
//@ subst fn from(byte: u8) -> Self => fn from(byte: u8) -> FrameType

#[verifier::external_body]
pub struct IoError { x: usize }

#[verifier::external_body]
fn to_vec(s: &[u8]) -> (r: Vec<u8>)
    ensures r@ == s@,
{ s.to_vec() }

spec fn be32(s: Seq<u8>) -> int
{ s[0] * 0x1000000 + s[1] * 0x10000 + s[2] * 0x100 + s[3] }

/// What the default methods of `bytes::Buf` do with a lease.
impl ChunkLease {
    #[verifier::external_body]
    fn get_u32(&mut self) -> (r: u32)
        requires old(self).inv(), old(self)@.len() >= 4,
        ensures r == be32(plain(old(self)@).take(4)), final(self).inv(), final(self)@ == old(self)@.skip(4),
    { unimplemented!() }
    #[verifier::external_body]
    fn get_u8(&mut self) -> (r: u8)
        requires old(self).inv(), old(self)@.len() >= 1,
        ensures r == old(self)@[0].0, final(self).inv(), final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    fn copy_to_slice(&mut self, dst: &mut [u8])
        requires old(self).inv(), old(dst)@.len() <= old(self)@.len(),
        ensures final(dst)@ == plain(old(self)@).take(old(dst)@.len() as int), final(dst)@.len() == old(dst)@.len(),
            final(self).inv(), final(self)@ == old(self)@.skip(old(dst)@.len() as int),
    { unimplemented!() }
}

/*@ const core/src/net/frames.rs FRAME_HEAD_LEN */
/*@ const core/src/net/frames.rs MAGIC_NUM */
/*@ const core/src/net/buffers/decode_buffer.rs MIN_WRITEABLE_LEN */
/*@ enum core/src/net/frames.rs FramingError */
#[derive(Copy, Clone)]
/*@ enum core/src/net/frames.rs FrameType */
/*@ struct core/src/net/frames.rs FrameHead */

impl FrameType {
    spec fn of(b: u8) -> FrameType {
        match b {
            0x02 => FrameType::Data,
            0x04 => FrameType::Hello,
            0x05 => FrameType::Start,
            0x06 => FrameType::Ack,
            0x07 => FrameType::Bye,
            _ => FrameType::Unknown,
        }
    }
/*@ fn core/src/net/frames.rs :: impl From<u8> for FrameType :: from
    ensures r == FrameType::of(byte),
*/
}

/// The head of the next frame and what follows it; None if there is no valid head.
spec fn awaited(h: Option<FrameHead>, s: Seq<Held>) -> Option<(Option<FrameHead>, Seq<Held>)> {
    if h is None && s.len() >= 9 {
        match FrameHead::of(plain(s.take(9))) {
            None => None,
            Some(h) => Some((Some(h), s.skip(9))),
        }
    } else {
        Some((h, s))
    }
}

impl FrameHead {
    /// The head nine bytes stand for.
    spec fn of(s: Seq<u8>) -> Option<FrameHead> {
        if be32(s.take(4)) == MAGIC_NUM {
            Some(FrameHead { frame_type: FrameType::of(s[8]), content_length: be32(s.skip(4).take(4)) as usize })
        } else {
            None
        }
    }
/*@ fn core/src/net/frames.rs :: impl FrameHead :: new
    ensures r == (FrameHead { frame_type, content_length }),
*/
/*@ fn core/src/net/frames.rs :: impl FrameHead :: decode_from
    requires old(src).inv(),
    ensures
        old(src)@.len() < 9 ==> r == Err::<FrameHead, _>(FramingError::NoData) && *final(src) == *old(src),
        old(src)@.len() >= 9 ==> match (r, FrameHead::of(plain(old(src)@).take(9))) {
            (Ok(h), Some(e)) => h == e && final(src).inv() && final(src)@ == old(src)@.skip(9),
            (Err(e), None) => e is InvalidMagicNum,
            _ => false,
        },
    @first let ghost b = src@; proof {
        if b.len() >= 9 {
            assert(b.skip(4).skip(4) =~= b.skip(8)); assert(b.skip(8).skip(1) =~= b.skip(9));
            assert(plain(b).take(9).take(4) =~= plain(b).take(4));
            assert(plain(b).take(9).skip(4).take(4) =~= plain(b.skip(4)).take(4));
            assert(b.skip(8)[0].0 == plain(b).take(9)[8]);
        }
    }
*/
/*@ fn core/src/net/frames.rs :: impl FrameHead :: content_length
    ensures r == self.content_length,
*/
/*@ fn core/src/net/frames.rs :: impl FrameHead :: frame_type
    ensures r == self.frame_type,
*/
}

// Frames other than their head: opaque functions of the bytes of the body (see C01).
#[verifier::external_body]
pub struct Hello { x: usize }
#[verifier::external_body]
pub struct Start { x: usize }
/*@ struct core/src/net/frames.rs Data */
/*@ enum core/src/net/frames.rs Frame */
uninterp spec fn hello_of(s: Seq<u8>) -> Option<Hello>;
uninterp spec fn start_of(s: Seq<u8>) -> Option<Start>;
impl Hello {
    #[verifier::external_body]
    fn decode_from(src: ChunkLease) -> (r: Result<Frame, FramingError>)
        requires src.inv(),
        ensures match (r, hello_of(plain(src@))) { (Ok(f), Some(h)) => f == Frame::Hello(h), (Err(_), None) => true, _ => false },
    { unimplemented!() }
}
impl Start {
    #[verifier::external_body]
    fn decode_from(src: ChunkLease) -> (r: Result<Frame, FramingError>)
        requires src.inv(),
        ensures match (r, start_of(plain(src@))) { (Ok(f), Some(h)) => f == Frame::Start(h), (Err(_), None) => true, _ => false },
    { unimplemented!() }
}
impl Data {
/*@ fn core/src/net/frames.rs :: impl Data :: new
    ensures r.payload == payload,
*/
/*@ fn core/src/net/frames.rs :: impl FrameExt for Data :: decode_from
    requires payload.inv(),
    ensures r == Ok::<Frame, FramingError>(Frame::Data(Data { payload })),
*/
}

/*@ struct core/src/net/buffers/mod.rs BufferConfig */

/*@ struct core/src/net/buffers/decode_buffer.rs DecodeBuffer */

impl DecodeBuffer {
    spec fn inv(self) -> bool {
        &&& self.read_offset <= self.write_offset <= self.buffer.size()
        &&& !self.buffer.locked
        &&& self.buffer.size() == self.buffer.mem().len()
        &&& self.chain_head is Some ==> self.chain_head.unwrap().inv() && self.chain_head.unwrap().read_pointer == 0
        &&& self@.len() <= usize::MAX
    }
    spec fn chained(self) -> Seq<Held> {
        match self.chain_head { None => Seq::empty(), Some(c) => c@ }
    }
    spec fn active(self) -> Seq<Held> { self.buffer.part(self.read_offset as int, self.write_offset as int) }
    /// The bytes of the stream that have arrived and are not decoded yet.
    spec fn view(self) -> Seq<Held> { self.chained() + self.active() }

/*@ fn core/src/net/buffers/decode_buffer.rs :: impl DecodeBuffer :: readable_len
    requires self.inv(),
    ensures r == self@.len(),
*/
/*@ fn core/src/net/buffers/decode_buffer.rs :: impl DecodeBuffer :: writeable_len
    requires self.inv(),
    ensures r == self.buffer.size() - self.write_offset,
*/
/*@ fn core/src/net/buffers/decode_buffer.rs :: impl DecodeBuffer :: advance_writeable
    requires old(self).inv(), num_bytes <= old(self).buffer.size() - old(self).write_offset, old(self)@.len() + num_bytes <= usize::MAX,
    ensures final(self).inv(), final(self).next_frame_head == old(self).next_frame_head,
        final(self)@ == old(self)@ + old(self).buffer.part(old(self).write_offset as int, old(self).write_offset + num_bytes),
        final(self).buffer == old(self).buffer, final(self).write_offset == old(self).write_offset + num_bytes,
    @first proof { chunk_mem_len(self.buffer.chunk); }
*/

/*@ fn core/src/net/buffers/decode_buffer.rs :: impl DecodeBuffer :: new
    requires buffer.mem().len() == buffer.size(), !buffer.locked,
    ensures r.inv(), r@ == Seq::<Held>::empty(), r.next_frame_head is None, r.buffer == buffer,
    @before `DecodeBuffer {` proof { assert(buffer.part(0, 0) =~= Seq::<Held>::empty()); }
    @opt `buffer_config.clone()` => `clone_config(buffer_config)`
*/
/*@ fn core/src/net/buffers/decode_buffer.rs :: impl DecodeBuffer :: is_writeable
    requires self.inv(),
    ensures r == (self.buffer.size() - self.write_offset > MIN_WRITEABLE_LEN),
*/
/*@ fn core/src/net/buffers/decode_buffer.rs :: impl DecodeBuffer :: get_writeable
    requires old(self).inv(),
    ensures *final(self) == *old(self),
        match r {
            Some(w) => w@.len() == old(self).buffer.size() - old(self).write_offset && w@.len() > MIN_WRITEABLE_LEN,
            None => old(self).buffer.size() - old(self).write_offset <= MIN_WRITEABLE_LEN,
        },
*/
/*@ fn core/src/net/buffers/decode_buffer.rs :: impl DecodeBuffer :: get_overflow
    requires old(self).inv(),
    ensures final(self).inv(), final(self).chain_head == old(self).chain_head, final(self).next_frame_head == old(self).next_frame_head,
        final(self).buffer == old(self).buffer, final(self).write_offset == old(self).write_offset, final(self).buffer_config == old(self).buffer_config,
        final(self).read_offset == final(self).write_offset,
        match r {
            Some(l) => l.inv() && l.read_pointer == 0 && l@ == old(self).active() && l@.len() > 0,
            None => old(self).active().len() == 0,
        },
*/
/*@ fn core/src/net/buffers/decode_buffer.rs :: impl DecodeBuffer :: read_chunk_lease
    requires old(self).inv(), length <= old(self)@.len(),
    ensures final(self).inv(), final(self).next_frame_head == old(self).next_frame_head,
        final(self).buffer == old(self).buffer, final(self).write_offset == old(self).write_offset,
        r.inv(), r.read_pointer == 0, r@ == old(self)@.take(length as int), final(self)@ == old(self)@.skip(length as int),
*/
/*@ fn core/src/net/buffers/decode_buffer.rs :: impl DecodeBuffer :: decode_frame_head
    requires old(self).inv(),
    ensures final(self).inv(), final(self).buffer == old(self).buffer, final(self).write_offset == old(self).write_offset,
        match awaited(old(self).next_frame_head, old(self)@) {
            Some((h, rest)) => r is Ok && final(self).next_frame_head == h && final(self)@ == rest,
            None => r is Err && final(self).next_frame_head is None && final(self)@ == old(self)@.skip(9),
        },
*/
/*@ fn core/src/net/buffers/decode_buffer.rs :: impl DecodeBuffer :: has_frame
    requires old(self).inv(),
    ensures final(self).inv(), final(self).buffer == old(self).buffer, final(self).write_offset == old(self).write_offset,
        match awaited(old(self).next_frame_head, old(self)@) {
            Some((h, rest)) => r is Ok && final(self).next_frame_head == h && final(self)@ == rest
                && r == Ok::<bool, FramingError>(h is Some && rest.len() >= h.unwrap().content_length),
            None => r is Err && final(self).next_frame_head is None && final(self)@ == old(self)@.skip(9),
        },
*/
/*@ fn core/src/net/buffers/decode_buffer.rs :: impl DecodeBuffer :: get_frame
    requires old(self).inv(),
    ensures final(self).inv(), final(self).buffer == old(self).buffer, final(self).write_offset == old(self).write_offset,
        match awaited(old(self).next_frame_head, old(self)@) {
            None => r is Err && final(self).next_frame_head is None && final(self)@ == old(self)@.skip(9),
            Some((h, rest)) =>
                if h is Some && rest.len() >= h.unwrap().content_length {
                    final(self).next_frame_head is None && got(h.unwrap(), rest, r, final(self)@)
                } else {
                    r == Err::<Frame, _>(FramingError::NoData) && final(self).next_frame_head == h && final(self)@ == rest
                },
        },
*/
/*@ fn core/src/net/buffers/decode_buffer.rs :: impl DecodeBuffer :: discard_readable
    requires old(self).inv(),
    ensures final(self).inv(), final(self)@ == Seq::<Held>::empty(), final(self).next_frame_head is None, final(self).buffer == old(self).buffer,
        final(self).write_offset == old(self).write_offset,
*/
/*@ fn core/src/net/buffers/decode_buffer.rs :: impl DecodeBuffer :: swap_buffer
    requires old(self).inv(), !old(other).locked, old(other).mem().len() == old(other).size(),
    ensures final(self).inv(), final(self).next_frame_head == old(self).next_frame_head,
        plain(final(self)@) == plain(old(self)@),
        final(self).buffer == *old(other),
        // The old buffer is locked; everything still unread in it is held by its lock.
        final(other).locked, final(other).chunk == old(self).buffer.chunk, final(other).ref_count == old(self).buffer.ref_count,
        final(self)@ == old(self)@ || final(self)@ == old(self).chained() + held(plain(old(self).active()), old(other).ref_count.id()),
        // There is room to write unless the new buffer is too small for that.
        old(other).size() > MIN_WRITEABLE_LEN ==> final(self).buffer.size() - final(self).write_offset > MIN_WRITEABLE_LEN,
*/
}

/// What decoding a complete frame gives.
spec fn got(h: FrameHead, rest: Seq<Held>, r: Result<Frame, FramingError>, left: Seq<Held>) -> bool {
    let body = rest.take(h.content_length as int);
    match h.frame_type {
        FrameType::Data => r is Ok && r->Ok_0 is Data && r->Ok_0->Data_0.payload.inv() && r->Ok_0->Data_0.payload@ == body && left == rest.skip(h.content_length as int),
        FrameType::Hello => left == rest.skip(h.content_length as int)
            && match hello_of(plain(body)) { Some(x) => r == Ok::<Frame, FramingError>(Frame::Hello(x)), None => r is Err },
        FrameType::Start => left == rest.skip(h.content_length as int)
            && match start_of(plain(body)) { Some(x) => r == Ok::<Frame, FramingError>(Frame::Start(x)), None => r is Err },
        FrameType::Bye => r == Ok::<Frame, FramingError>(Frame::Bye()) && left == rest,
        FrameType::Ack => r == Ok::<Frame, FramingError>(Frame::Ack()) && left == rest,
        FrameType::Unknown => r is Err && left == rest,
    }
}

#[verifier::external_body]
fn clone_config(c: &BufferConfig) -> (r: BufferConfig)
    ensures r == *c,
{ unimplemented!() }

// ---- Cutting the stream elsewhere changes nothing.

/// What is decoded from the bytes there are: the frame (if complete) and what is left.
spec fn complete(h: Option<FrameHead>, s: Seq<Held>) -> bool {
    match awaited(h, s) {
        Some((Some(h), rest)) => rest.len() >= h.content_length,
        _ => false,
    }
}

/// A frame that is complete stays the same whatever arrives after it.
proof fn later_bytes_do_not_matter(h: Option<FrameHead>, s: Seq<Held>, t: Seq<Held>)
    requires complete(h, s),
    ensures
        complete(h, s + t),
        awaited(h, s + t).unwrap().0 == awaited(h, s).unwrap().0,
        awaited(h, s + t).unwrap().1 == awaited(h, s).unwrap().1 + t,
        ({
            let n = awaited(h, s).unwrap().0.unwrap().content_length as int;
            let (a, b) = (awaited(h, s).unwrap().1, awaited(h, s + t).unwrap().1);
            b.take(n) == a.take(n) && b.skip(n) == a.skip(n) + t
        }),
{
    if h is None {
        assert((s + t).take(9) =~= s.take(9));
        assert((s + t).skip(9) =~= s.skip(9) + t);
    }
    let n = awaited(h, s).unwrap().0.unwrap().content_length as int;
    let (a, b) = (awaited(h, s).unwrap().1, awaited(h, s + t).unwrap().1);
    assert(b.take(n) =~= a.take(n));
    assert(b.skip(n) =~= a.skip(n) + t);
}

/// Looking for a frame too early only moves the head, and what is found later is the same.
proof fn waiting_does_not_matter(h: Option<FrameHead>, s: Seq<Held>, t: Seq<Held>)
    requires awaited(h, s) is Some,
    ensures awaited(awaited(h, s).unwrap().0, awaited(h, s).unwrap().1 + t) == awaited(h, s + t),
{
    let (h2, rest) = awaited(h, s).unwrap();
    if h is None && s.len() >= 9 {
        assert((s + t).take(9) =~= s.take(9));
        assert((s + t).skip(9) =~= rest + t);
    } else {
        assert(rest + t =~= s + t);
    }
}

/// What was sent is what is awaited: a head and its body give back exactly that body.
proof fn sent_is_complete(ty: u8, body: Seq<Held>, s: Seq<Held>)
    requires
        s.len() >= 9,
        s.skip(9) == body,
        // the head as FrameHead::encode_into writes it (C01)
        be32(plain(s.take(9)).take(4)) == MAGIC_NUM,
        be32(plain(s.take(9)).skip(4).take(4)) == body.len(),
        plain(s.take(9))[8] == ty,
    ensures
        awaited(None, s) == Some((Some(FrameHead { frame_type: FrameType::of(ty), content_length: body.len() as usize }), body)),
        complete(None, s),
{
    let b = plain(s.take(9)).skip(4).take(4);
    assert(0 <= be32(b) <= 0xffff_ffff);
}
fn main() {}
}
