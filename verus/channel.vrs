// C28: what a TCP channel and a UDP socket are given to send goes out once and in order; what comes in is read whole.
#![feature(allocator_api)]
#![verifier::exec_allows_no_decreases_clause]
use std::collections::VecDeque;
use vstd::prelude::*;
verus! {
//@ include frames.frag
//@ include std.frag
broadcast use {axioms::be16_back, axioms::be32_back, axioms::be128_back, axioms::skips};
//@ inline is_some_and verus/result.rs :: - :: is_some_and
//@ inline any verus/result.rs :: - :: any
//@ subst io::Result::Ok => Ok
//@ subst io::Result::Err => Err
//@ subst network_thread:: => 
//@ subst !&self.input_buffer => !self.input_buffer
//@ subst &RefCell<BufferPool> => &PoolCell
//@ subst .iter() => .line()
//@ subst std::mem::take(&mut self.partly_sent) => take_flag(&mut self.partly_sent)
//@ subst KompactLogger => Logger

// ---- the world outside
mod io {
    pub type Error = super::Error;
    pub type ErrorKind = super::ErrorKind;
    pub type Result<T> = core::result::Result<T, super::Error>;
}
#[derive(Copy, Clone, PartialEq, Eq)]
pub enum ErrorKind { WouldBlock, Interrupted, InvalidInput, InvalidData, Other }
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { x: usize }
impl Error {
    uninterp spec fn kind_(&self) -> ErrorKind;
    #[verifier::external_body]
    fn new(kind: ErrorKind, why: &str) -> (r: Error) ensures r.kind_() == kind, { unimplemented!() }
}
#[verifier::external_body]
fn would_block(err: &Error) -> (r: bool) ensures r == (err.kind_() is WouldBlock), { unimplemented!() }
#[verifier::external_body]
fn interrupted(err: &Error) -> (r: bool) ensures r == (err.kind_() is Interrupted), { unimplemented!() }
#[verifier::external_body]
fn no_buffer_space(err: &Error) -> (r: bool) ensures r == (err.kind_() is InvalidInput), { unimplemented!() }
#[verifier::external_body]
fn drop<T>(t: T) {}
fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b }, { if a <= b { a } else { b } }
fn take_flag(b: &mut bool) -> (r: bool) ensures r == *old(b), !*final(b), { let r = *b; *b = false; r }

/// A stream by its documented contract: what is written is sent as far as it says, from the beginning.
#[verifier::external_body]
pub struct TcpStream { x: usize }
pub enum Shutdown { Both }
use Shutdown::Both;
impl TcpStream {
    uninterp spec fn sent(&self) -> Seq<u8>;
    uninterp spec fn got(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>)
        ensures final(self).got() == old(self).got(),
            r matches Ok(n) ==> n <= buf@.len() && (buf@.len() > 0 ==> n > 0) && final(self).sent() == old(self).sent() + buf@.take(n as int),
            r is Err ==> final(self).sent() == old(self).sent(),
    { unimplemented!() }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
        ensures final(self).sent() == old(self).sent(), final(buf)@.len() == old(buf)@.len(),
            r matches Ok(n) ==> n <= old(buf)@.len() && final(self).got() == old(self).got() + final(buf)@.take(n as int),
            r is Err ==> final(self).got() == old(self).got(),
    { unimplemented!() }
    #[verifier::external_body]
    fn set_nodelay(&self, on: bool) -> (r: io::Result<()>) ensures r is Ok, { unimplemented!() }
    #[verifier::external_body]
    fn take_error(&self) -> io::Result<Option<Error>> { unimplemented!() }
    #[verifier::external_body]
    fn shutdown(&self, how: Shutdown) -> io::Result<()> { unimplemented!() }
}
#[verifier::external_body]
pub struct UdpSocket { x: usize }
pub struct Datagram { peer: SocketAddr, data: Seq<u8> }
impl UdpSocket {
    uninterp spec fn sent(&self) -> Seq<Datagram>;
    uninterp spec fn got(&self) -> Seq<Datagram>;
    #[verifier::external_body]
    fn send_to(&mut self, buf: &[u8], addr: SocketAddr) -> (r: io::Result<usize>)
        ensures final(self).got() == old(self).got(),
            r matches Ok(n) ==> n == buf@.len() && final(self).sent() == old(self).sent().push(Datagram { peer: addr, data: buf@ }),
            r is Err ==> final(self).sent() == old(self).sent(),
    { unimplemented!() }
    /// What does not fit is lost.
    #[verifier::external_body]
    fn recv_from(&mut self, buf: &mut [u8]) -> (r: io::Result<(usize, SocketAddr)>)
        ensures final(self).sent() == old(self).sent(), final(buf)@.len() == old(buf)@.len(),
            r matches Ok((n, a)) ==> n <= old(buf)@.len() && final(self).got().len() == old(self).got().len() + 1 && final(self).got().drop_last() == old(self).got()
                && (final(self).got().last().data.len() <= old(buf)@.len() ==> final(self).got().last() == (Datagram { peer: a, data: final(buf)@.take(n as int) }))
                && (final(self).got().last().data.len() >= old(buf)@.len() ==> n == old(buf)@.len()),
            r is Err ==> final(self).got() == old(self).got(),
    { unimplemented!() }
}

/// A buffer for writing frames to.
#[verifier::external_body]
pub struct BytesMut { x: usize }
impl BytesMut {
    uninterp spec fn put(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: BytesMut) ensures r.put() == Seq::<u8>::empty(), { unimplemented!() }
    #[verifier::external_body]
    fn truncate(&mut self, n: usize)
        ensures final(self).put() == if n < old(self).put().len() { old(self).put().take(n as int) } else { old(self).put() }, { unimplemented!() }
    #[verifier::external_body]
    fn freeze(self) -> (r: Bytes) ensures r.held() == self.put(), { unimplemented!() }
}
impl BufMut for BytesMut {
    spec fn written(&self) -> Seq<u8> { self.put() }
    spec fn room(&self) -> int { usize::MAX - self.put().len() }
    #[verifier::external_body]
    fn remaining_mut(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn put_u8(&mut self, x: u8) { unimplemented!() }
    #[verifier::external_body]
    fn put_u16(&mut self, x: u16) { unimplemented!() }
    #[verifier::external_body]
    fn put_u32(&mut self, x: u32) { unimplemented!() }
    #[verifier::external_body]
    fn put_u128(&mut self, x: u128) { unimplemented!() }
    #[verifier::external_body]
    fn put_slice<M: Memory + ?Sized>(&mut self, src: &M) { unimplemented!() }
}
impl<const KIND: u8> Stored<KIND> {
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.held().len(), { unimplemented!() }
    #[verifier::external_body]
    fn split_to(&mut self, n: usize) -> (r: Bytes)
        requires n <= old(self).held().len(),
        ensures r.held() == old(self).held().take(n as int), final(self).held() == old(self).held().skip(n as int),
    { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, at: usize) -> (r: Option<&u8>)
        ensures r is Some == (at < self.held().len()), r matches Some(b) ==> *b == self.held()[at as int],
    { unimplemented!() }
    #[verifier::external_body]
    fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes)
        requires n <= old(self).held().len(),
        ensures r.held() == old(self).held().take(n as int), final(self).held() == old(self).held().skip(n as int),
    { unimplemented!() }
}
/// The elements of an array, one after the other.
pub struct Line<T> { of: Vec<T>, at: usize }
impl<T> Line<T> {
    spec fn left(self) -> Seq<T> { self.of@.skip(self.at as int) }
    spec fn inv(self) -> bool { self.at <= self.of@.len() }
    fn next(&mut self) -> (r: Option<&T>)
        requires old(self).inv(),
        ensures final(self).inv(), final(self).of == old(self).of,
            match r { Some(x) => old(self).left().len() > 0 && *x == old(self).left()[0] && final(self).left() =~= old(self).left().skip(1), None => old(self).left().len() == 0 && *final(self) == *old(self) },
    {
        if self.at < self.of.len() { self.at = self.at + 1; Some(&self.of[self.at - 1]) } else { None }
    }
}
trait Lined<T> {
    spec fn all(&self) -> Seq<T>;
    fn line(&self) -> (r: Line<T>) ensures r.inv(), r.at == 0, r.of@ == self.all();
}
impl<T: Copy, const N: usize> Lined<T> for [T; N] {
    spec fn all(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn line(&self) -> Line<T> { unimplemented!() }
}

// ---- frames to be sent
/*@ enum core/src/messaging/serialised.rs SerialisedFrame */
impl SerialisedFrame {
    spec fn data(self) -> Seq<u8> { match self { SerialisedFrame::Bytes(b) => b.held(), SerialisedFrame::ChunkLease(b) => b.held(), SerialisedFrame::ChunkRef(b) => b.held() } }
    spec fn like(self, o: SerialisedFrame) -> bool { self is Bytes == o is Bytes && self is ChunkLease == o is ChunkLease }
    /// How much of it lies in one place.
    spec fn first(self) -> nat { match self { SerialisedFrame::Bytes(b) => b.first(), SerialisedFrame::ChunkLease(b) => b.first(), SerialisedFrame::ChunkRef(b) => b.first() } }
    /// Whether it is one of the frames a channel itself sends.
    spec fn control(self) -> bool { self is Bytes && self.data().len() > 8 && own(self.data()[8]) }
/*@ fn core/src/messaging/serialised.rs :: impl SerialisedFrame :: len
    ensures r == self.data().len(),
*/
/*@ fn core/src/messaging/serialised.rs :: impl SerialisedFrame :: is_empty
    ensures r == (self.data().len() == 0),
*/
/*@ fn core/src/messaging/serialised.rs :: impl SerialisedFrame :: bytes
    ensures r@.len() <= self.data().len(), r@ == self.data().take(r@.len() as int), self.data().len() > 0 ==> r@.len() > 0, r@.len() == self.first(), self.first() == self.data().len() ==> r@ =~= self.data(),
*/
/*@ fn core/src/messaging/serialised.rs :: impl SerialisedFrame :: make_contiguous
    ensures final(self).data() =~= old(self).data(), final(self).first() == final(self).data().len(),
*/
}

/// The bytes of these frames.
spec fn flat(q: Seq<SerialisedFrame>) -> Seq<u8>
    decreases q.len(),
{ if q.len() == 0 { Seq::empty() } else { flat(q.drop_last()) + q.last().data() } }
proof fn flat_push(q: Seq<SerialisedFrame>, f: SerialisedFrame)
    ensures flat(q.push(f)) == flat(q) + f.data(),
{ assert(q.push(f).drop_last() =~= q); }
proof fn flat_app(a: Seq<SerialisedFrame>, b: Seq<SerialisedFrame>)
    ensures flat(a + b) == flat(a) + flat(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(flat(a) + flat(b) =~= flat(a)); }
    else { flat_app(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((flat(a) + flat(b.drop_last())) + b.last().data() =~= flat(a) + flat(b)); }
}
proof fn flat_first(q: Seq<SerialisedFrame>)
    requires q.len() > 0,
    ensures flat(q) == q[0].data() + flat(q.skip(1)), q[0].data().len() <= flat(q).len(),
{
    flat_app(q.take(1), q.skip(1)); assert(q.take(1) + q.skip(1) =~= q);
    assert(q.take(1) =~= Seq::<SerialisedFrame>::empty().push(q[0])); flat_push(Seq::empty(), q[0]);
    assert(flat(Seq::<SerialisedFrame>::empty()) + q[0].data() =~= q[0].data());
}
/// Those frames which are not a channel's own.
spec fn messages_of(q: Seq<SerialisedFrame>) -> Seq<SerialisedFrame>
    decreases q.len(),
{ if q.len() == 0 { Seq::empty() } else if q[0].control() { messages_of(q.skip(1)) } else { seq![q[0]] + messages_of(q.skip(1)) } }

spec fn own(b: u8) -> bool { b == 0x04 || b == 0x05 || b == 0x06 || b == 0x07 }
/*@ fn network/src/transport/network_channel.rs :: - :: is_control_frame
    ensures r == frame.control(),
    @loop 0 invariant_except_break !found__, forall|i: int| 0 <= i < it__.at ==> #[trigger] it__.of@[i].byte() != *t,
        invariant it__.inv(), it__.of@.len() == 4, forall|b: u8| #[trigger] own(b) == (it__.of@[0].byte() == b || it__.of@[1].byte() == b || it__.of@[2].byte() == b || it__.of@[3].byte() == b),
        ensures found__ == own(*t),
*/

// ---- what arrives
#[verifier::external_body]
pub struct BufferChunk { x: usize }
#[verifier::external_body]
pub struct BufferPool { x: usize }
impl BufferPool {
    #[verifier::external_body]
    fn get_buffer(&mut self) -> Option<BufferChunk> { unimplemented!() }
    #[verifier::external_body]
    fn return_buffer(&mut self, b: BufferChunk) { unimplemented!() }
}
#[verifier::external_body]
pub struct PoolCell { x: usize }
impl PoolCell {
    #[verifier::external_body]
    fn borrow_mut(&self) -> BufferPool { unimplemented!() }
}
/// The head of the next frame and what follows it; None if there is no valid head.
spec fn awaited(h: Option<FrameHead>, s: Seq<u8>) -> Option<(Option<FrameHead>, Seq<u8>)> {
    if h is None && s.len() >= 9 {
        match FrameHead::read(s) { None => None, Some(h) => Some((Some(h), s.skip(9))) }
    } else {
        Some((h, s))
    }
}
spec fn complete(w: Option<(Option<FrameHead>, Seq<u8>)>) -> bool { w matches Some((Some(h), rest)) && rest.len() >= h.content_length }
/// What decoding a complete frame gives (proved of DecodeBuffer::get_frame and of the frames for C01 and C02).
spec fn decoded(h: FrameHead, rest: Seq<u8>, r: Result<Frame, FramingError>, left: Seq<u8>) -> bool {
    let n = h.content_length as int;
    match h.frame_type {
        FrameType::Data => Data::read(rest.take(n), r) && left == rest.skip(n),
        FrameType::Hello => Hello::read(rest.take(n), r) && left == rest.skip(n),
        FrameType::Start => Start::read(rest.take(n), r) && left == rest.skip(n),
        FrameType::Bye => r == Ok::<Frame, FramingError>(Frame::Bye()) && left == rest,
        FrameType::Ack => r == Ok::<Frame, FramingError>(Frame::Ack()) && left == rest,
        FrameType::Unknown => r is Err && !(r->Err_0 is NoData) && left == rest,
    }
}
/// What taking a frame does.
spec fn one_taken(h: Option<FrameHead>, s: Seq<u8>, r: Result<Frame, FramingError>, h2: Option<FrameHead>, s2: Seq<u8>) -> bool {
    match awaited(h, s) {
        None => r is Err && !(r->Err_0 is NoData) && h2 is None && s2 == s.skip(9),
        Some((h1, rest)) => if complete(Some((h1, rest))) {
            h2 is None && decoded(h1.unwrap(), rest, r, s2) && (r matches Err(e) ==> !(e is NoData))
        } else {
            r is Err && r->Err_0 is NoData && h2 == h1 && s2 == rest
        },
    }
}
/// The receiving buffer as proved for C02.
#[verifier::external_body]
pub struct DecodeBuffer { x: usize }
#[verifier::external_body]
pub struct BufferConfig { x: usize }
#[verifier::external_body]
pub struct NetworkConfig { x: usize }
impl BufferConfig {
    #[verifier::external_body]
    fn chunk_size_bytes(&self) -> usize { unimplemented!() }
}
impl NetworkConfig {
    #[verifier::external_body]
    fn get_buffer_config(&self) -> &BufferConfig { unimplemented!() }
    #[verifier::external_body]
    fn get_tcp_nodelay(&self) -> bool { unimplemented!() }
}
impl DecodeBuffer {
    #[verifier::external_body]
    fn new(chunk: BufferChunk, config: &BufferConfig) -> (r: DecodeBuffer) ensures r.held() == Seq::<u8>::empty(), r.head() is None, { unimplemented!() }
    uninterp spec fn held(&self) -> Seq<u8>;
    uninterp spec fn head(&self) -> Option<FrameHead>;
    uninterp spec fn free(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn writeable_len(&self) -> (r: usize) ensures r == self.free().len(), { unimplemented!() }
    #[verifier::external_body]
    fn get_writeable(&mut self) -> (r: Option<&mut [u8]>)
        ensures final(self).held() == old(self).held(), final(self).head() == old(self).head(),
            match r { Some(w) => w@ == old(self).free() && w@.len() > 0 && final(self).free() == final(w)@, None => *final(self) == *old(self) },
    { unimplemented!() }
    #[verifier::external_body]
    fn advance_writeable(&mut self, n: usize)
        requires n <= old(self).free().len(),
        ensures final(self).held() == old(self).held() + old(self).free().take(n as int), final(self).head() == old(self).head(), final(self).free() == old(self).free().skip(n as int),
    { unimplemented!() }
    #[verifier::external_body]
    fn swap_buffer(&mut self, other: &mut BufferChunk)
        ensures final(self).held() == old(self).held(), final(self).head() == old(self).head(),
    { unimplemented!() }
    #[verifier::external_body]
    fn has_frame(&mut self) -> (r: io::Result<bool>)
        ensures final(self).free() == old(self).free(), match awaited(old(self).head(), old(self).held()) {
            Some((h, rest)) => r is Ok && r->Ok_0 == complete(awaited(old(self).head(), old(self).held())) && final(self).head() == h && final(self).held() == rest
                && sought(final(self).head(), final(self).held(), old(self).head(), old(self).held()),
            None => r is Err && one_taken(old(self).head(), old(self).held(), Err(FramingError::InvalidFrame), final(self).head(), final(self).held()),
        },
    { unimplemented!() }
    #[verifier::external_body]
    fn get_frame(&mut self) -> (r: Result<Frame, FramingError>)
        ensures final(self).free() == old(self).free(), one_taken(old(self).head(), old(self).held(), r, final(self).head(), final(self).held()),
    { unimplemented!() }
    #[verifier::external_body]
    fn discard_readable(&mut self)
        ensures final(self).held() == Seq::<u8>::empty(), final(self).head() is None, final(self).free() == old(self).free(),
    { unimplemented!() }
}
proof fn waiting_does_not_matter(h: Option<FrameHead>, s: Seq<u8>, t: Seq<u8>)
    requires awaited(h, s) is Some,
    ensures awaited(awaited(h, s).unwrap().0, awaited(h, s).unwrap().1 + t) == awaited(h, s + t),
{
    let (h2, rest) = awaited(h, s).unwrap();
    if h is None && s.len() >= 9 {
        assert((s + t).take(4) =~= s.take(4)); assert((s + t).skip(4).take(4) =~= s.skip(4).take(4));
        assert((s + t).skip(9) =~= rest + t);
    }
}
/// Looking for a frame before it is complete, which may move its head out of what is held.
spec fn sought(h1: Option<FrameHead>, s1: Seq<u8>, h0: Option<FrameHead>, s0: Seq<u8>) -> bool { (h1 == h0 && s1 == s0) || awaited(h0, s0) == Some((h1, s1)) }
/// What is held of what was read, and what was read.
pub ghost struct In { head: Option<FrameHead>, held: Seq<u8>, got: Seq<u8> }
impl In {
    /// More arrived.
    spec fn arrived(self, o: In) -> bool { self.head == o.head && exists|x: Seq<u8>| self.got == #[trigger] (o.got + x) && self.held == o.held + x }
    /// More arrived, and perhaps a frame was sought, but none was taken.
    spec fn since(self, o: In) -> bool { exists|x: Seq<u8>| self.got == #[trigger] (o.got + x) && sought(self.head, self.held, o.head, o.held + x) }
    /// More arrived, and then one frame was taken, if it was complete.
    spec fn taken(self, o: In, r: Result<Frame, FramingError>) -> bool { exists|x: Seq<u8>| self.got == #[trigger] (o.got + x) && one_taken(o.head, o.held + x, r, self.head, self.held) }
    spec fn read_well(self, o: In, r: io::Result<Option<Frame>>) -> bool {
        match r {
            Ok(Some(f)) => self.taken(o, Ok(f)),
            Ok(None) => self.taken(o, Err(FramingError::NoData)),
            Err(_) => self.since(o) || exists|e: FramingError| #[trigger] self.taken(o, Err(e)),
        }
    }
    proof fn begins(self)
        ensures self.since(self), self.arrived(self),
    { assert(self.got + Seq::<u8>::empty() =~= self.got); assert(self.held + Seq::<u8>::empty() =~= self.held); }
    proof fn same_taken(self, p: In, o: In, r: Result<Frame, FramingError>)
        requires p.since(o), self.taken(p, r),
        ensures self.taken(o, r),
    {
        let x = choose|x: Seq<u8>| p.got == #[trigger] (o.got + x) && sought(p.head, p.held, o.head, o.held + x);
        let y = choose|y: Seq<u8>| self.got == #[trigger] (p.got + y) && one_taken(p.head, p.held + y, r, self.head, self.held);
        assert(self.got =~= o.got + (x + y)); assert((o.held + x) + y =~= o.held + (x + y));
        waits(p.head, p.held, o.head, o.held + x, y);
    }
}
broadcast proof fn since_sought(p: In, o: In, h2: Option<FrameHead>, s2: Seq<u8>)
    requires #[trigger] p.since(o), #[trigger] sought(h2, s2, p.head, p.held),
    ensures (In { head: h2, held: s2, got: p.got }).since(o),
{
    let x = choose|x: Seq<u8>| p.got == #[trigger] (o.got + x) && sought(p.head, p.held, o.head, o.held + x);
    assert(p.got == o.got + x);
}
broadcast proof fn since_arrived(c: In, p: In, o: In)
    requires #[trigger] p.since(o), #[trigger] c.arrived(p),
    ensures c.since(o),
{
    let x = choose|x: Seq<u8>| p.got == #[trigger] (o.got + x) && sought(p.head, p.held, o.head, o.held + x);
    let y = choose|y: Seq<u8>| c.got == #[trigger] (p.got + y) && c.held == p.held + y;
    assert(c.got =~= o.got + (x + y)); assert((o.held + x) + y =~= o.held + (x + y));
    waits(p.head, p.held, o.head, o.held + x, y);
}
broadcast proof fn since_taken(p: In, o: In, r: Result<Frame, FramingError>, h2: Option<FrameHead>, s2: Seq<u8>)
    requires #[trigger] p.since(o), #[trigger] one_taken(p.head, p.held, r, h2, s2),
    ensures (In { head: h2, held: s2, got: p.got }).taken(o, r),
{
    p.begins();
    let c = In { head: h2, held: s2, got: p.got };
    let e = Seq::<u8>::empty();
    assert(c.got =~= p.got + e); assert(p.held + e =~= p.held);
    c.same_taken(p, o, r);
}
broadcast proof fn since_well(c: In, p: In, o: In, r: io::Result<Option<Frame>>)
    requires #[trigger] p.since(o), #[trigger] c.read_well(p, r),
    ensures c.read_well(o, r),
{
    match r {
        Ok(Some(f)) => c.same_taken(p, o, Ok(f)),
        Ok(None) => c.same_taken(p, o, Err(FramingError::NoData)),
        Err(_) => {
            if c.since(p) {
                let y = choose|y: Seq<u8>| c.got == #[trigger] (p.got + y) && sought(c.head, c.held, p.head, p.held + y);
                let m = In { head: p.head, held: p.held + y, got: p.got + y };
                assert(m.arrived(p)); since_arrived(m, p, o); since_sought(m, o, c.head, c.held);
            } else {
                let e = choose|e: FramingError| #[trigger] c.taken(p, Err(e));
                c.same_taken(p, o, Err(e));
            }
        }
    }
}
/// What was sought before more arrived is no different from what is sought afterwards.
proof fn waits(h1: Option<FrameHead>, s1: Seq<u8>, h0: Option<FrameHead>, s0: Seq<u8>, x: Seq<u8>)
    requires sought(h1, s1, h0, s0),
    ensures sought(h1, s1 + x, h0, s0 + x),
{
    if !(h1 == h0 && s1 == s0) { waiting_does_not_matter(h0, s0, x); }
}

// ---- the channel
#[derive(Copy, Clone)]
pub struct Token(usize);
/*@ const network/src/transport/network_thread.rs MAX_INTERRUPTS */
/*@ enum network/src/transport/network_channel.rs ChannelState */
/*@ struct network/src/transport/network_channel.rs TcpChannel */
impl ChannelState {
    spec fn session(self) -> Option<SessionId> {
        match self {
            ChannelState::Requested(_, s) => Some(s), ChannelState::Initialised(_, s) => Some(s), ChannelState::Connected(_, s) => Some(s),
            ChannelState::CloseRequested(_, s) => Some(s), ChannelState::CloseReceived(_, s) => Some(s), ChannelState::Closed(_, s) => Some(s), _ => None,
        }
    }
    spec fn acked(self) -> ChannelState { match self { ChannelState::Initialised(a, id) => ChannelState::Connected(a, id), s => s } }
/*@ fn network/src/transport/network_channel.rs :: impl ChannelState :: session_id
    ensures r == self.session(),
*/
}
/// What a channel has sent and has still to send.
pub ghost struct Out { queue: Seq<SerialisedFrame>, partly: bool, sent: Seq<u8> }
impl Out {
    /// Everything sent and still to be sent, one byte after the other.
    spec fn all(self) -> Seq<u8> { self.sent + flat(self.queue) }
    spec fn sound(self) -> bool { flat(self.queue).len() < 0x4000_0000_0000_0000 && (self.partly ==> self.queue.len() > 0) }
    /// There is room for another frame.
    spec fn room(self) -> bool { self.sound() && flat(self.queue).len() < 0x3000_0000_0000_0000 }
    /// The first k frames have been sent, and m bytes of the one after them, and the rest is as it was.
    spec fn sending(self, o: Out, k: int, m: int) -> bool {
        let (q, p) = (o.queue, self.queue);
        &&& 0 <= k <= q.len() && p.len() == q.len() - k
        &&& forall|i: int| 0 < i < p.len() ==> p[i] == q[k + i]
        &&& if k < q.len() {
            &&& 0 <= m && (m == 0 || m < q[k].data().len())
            &&& p[0].like(q[k]) && p[0].data() == q[k].data().skip(m)
            &&& self.sent == o.sent + flat(q.take(k)) + q[k].data().take(m)
        } else {
            m == 0 && self.sent == o.sent + flat(q)
        }
        // the mark is set exactly if the first frame is not whole
        &&& self.partly == (k < q.len() && (m > 0 || k == 0 && o.partly))
    }
    spec fn drained(self, o: Out) -> bool { exists|k: int, m: int| #[trigger] self.sending(o, k, m) }
    /// A frame of the channel's own was added, and sending went on.
    spec fn added(self, o: Out, f: Seq<u8>) -> bool {
        exists|c: SerialisedFrame| c is Bytes && c.data() == f && self.drained(Out { queue: #[trigger] o.queue.push(c), partly: o.partly, sent: o.sent })
    }
    proof fn nothing_lost(self, o: Out)
        requires self.drained(o),
        ensures self.all() == o.all(), flat(self.queue).len() <= flat(o.queue).len(), self.partly ==> self.queue.len() > 0,
    {
        let (k, m) = choose|k: int, m: int| self.sending(o, k, m);
        let (q, p) = (o.queue, self.queue);
        if k < q.len() {
            flat_app(q.take(k), q.skip(k)); assert(q.take(k) + q.skip(k) =~= q);
            flat_first(q.skip(k)); flat_first(p);
            assert(q.skip(k).skip(1) =~= p.skip(1));
            assert(q[k].data() =~= q[k].data().take(m) + q[k].data().skip(m));
        } else {
            assert(p =~= Seq::empty());
        }
        assert(self.all() =~= o.all());
    }
    /// Nothing more was sent than some of the first frame, and that is noted.
    spec fn moved(self, p: Out) -> bool {
        let (q, n) = (self.queue, self.sent.len() - p.sent.len());
        let f = p.queue[0];
        if p.queue.len() == 0 {
            q =~= p.queue && self.partly == p.partly && self.sent == p.sent
        } else {
            &&& 0 <= n <= f.data().len() && self.sent =~= p.sent + f.data().take(n)
            &&& if n == f.data().len() && (n > 0 || q.len() < p.queue.len()) {
                !self.partly && q =~= p.queue.skip(1)
            } else {
                q.len() == p.queue.len() && q[0].like(f) && q[0].data() =~= f.data().skip(n) && q.skip(1) =~= p.queue.skip(1) && self.partly == (n > 0 || p.partly)
            }
        }
    }
    proof fn begins(self)
        requires self.sound(),
        ensures self.drained(self),
    {
        let q = self.queue;
        assert(q.take(0) =~= Seq::empty());
        if q.len() > 0 { assert(q[0].data().skip(0) =~= q[0].data()); assert(self.sent + flat(q.take(0)) + q[0].data().take(0) =~= self.sent); }
        else { assert(self.sent + flat(q) =~= self.sent); }
        assert(self.sending(self, 0, 0));
    }
    proof fn moves(self, p: Out, o: Out)
        requires p.drained(o), self.moved(p),
        ensures self.drained(o),
    {
        let (k, m) = choose|k: int, m: int| p.sending(o, k, m);
        if p.queue.len() == 0 { assert(self.sending(o, k, m)); }
        else if self.queue.len() == p.queue.len() { self.goes_on(p, o, k, m); }
        else { self.is_through(p, o, k, m); }
    }
    proof fn goes_on(self, p: Out, o: Out, k: int, m: int)
        requires p.sending(o, k, m), self.moved(p), self.queue.len() == p.queue.len(), p.queue.len() > 0,
        ensures self.drained(o),
    {
        let n = self.sent.len() - p.sent.len();
        let (q, c, f) = (o.queue, self.queue, p.queue[0]);
        assert(q[k].data().take(m) + f.data().take(n) =~= q[k].data().take(m + n));
        assert forall|i: int| 0 < i < c.len() implies c[i] == q[k + i] by { assert(c[i] == c.skip(1)[i - 1]); assert(p.queue[i] == p.queue.skip(1)[i - 1]); }
        assert(f.data().skip(n) =~= q[k].data().skip(m + n));
        assert(self.sent =~= o.sent + flat(q.take(k)) + (q[k].data().take(m) + f.data().take(n)));
        assert(self.sending(o, k, m + n));
    }
    proof fn is_through(self, p: Out, o: Out, k: int, m: int)
        requires p.sending(o, k, m), self.moved(p), self.queue.len() != p.queue.len(), p.queue.len() > 0,
        ensures self.drained(o),
    {
        let n = self.sent.len() - p.sent.len();
        let (q, c, f) = (o.queue, self.queue, p.queue[0]);
        assert(c =~= p.queue.skip(1));
        assert(q.take(k + 1) =~= q.take(k).push(q[k])); flat_push(q.take(k), q[k]);
        assert(q[k].data().take(m) + f.data().take(n) =~= q[k].data());
        assert(self.sent =~= o.sent + flat(q.take(k)) + (q[k].data().take(m) + f.data().take(n)));
        assert(self.sent =~= o.sent + flat(q.take(k + 1)));
        if k + 1 < q.len() { assert(c[0] == p.queue[1]); assert(q[k + 1].data().skip(0) =~= q[k + 1].data()); assert(self.sent =~= o.sent + flat(q.take(k + 1)) + q[k + 1].data().take(0)); }
        else { assert(q.take(k + 1) =~= q); }
        assert(self.sending(o, k + 1, 0));
    }
    spec fn moving(o: Out) -> bool { forall|c: Out, p: Out| #![trigger p.drained(o), c.drained(o)] p.drained(o) && c.moved(p) ==> c.drained(o) }
    proof fn may_move(o: Out)
        ensures Out::moving(o),
    { assert forall|c: Out, p: Out| #![trigger p.drained(o), c.drained(o)] p.drained(o) && c.moved(p) implies c.drained(o) by { c.moves(p, o); } }
    proof fn adds(self, o: Out, f: Seq<u8>)
        requires self.added(o, f),
        ensures self.all() == o.all() + f, flat(self.queue).len() <= flat(o.queue).len() + f.len(), self.partly ==> self.queue.len() > 0,
    {
        let c = choose|c: SerialisedFrame| c is Bytes && c.data() == f && self.drained(Out { queue: #[trigger] o.queue.push(c), partly: o.partly, sent: o.sent });
        self.nothing_lost(Out { queue: o.queue.push(c), partly: o.partly, sent: o.sent }); flat_push(o.queue, c);
        assert(self.all() =~= o.all() + f);
    }
}
/// What a channel itself sends is known as such while it waits, and messages are not.
proof fn control_frames(c: SerialisedFrame, f: Frame)
    requires c is Bytes, c.data() == f.wire(),
    ensures c.control() == !(f is Data),
{ assert(f.wire()[8] == f.kind().byte()); }

impl TcpChannel {
    spec fn out(self) -> Out { Out { queue: self.outbound_queue@, partly: self.partly_sent, sent: self.stream.sent() } }
    /// Nothing happened but sending.
    spec fn same_in(self, o: TcpChannel) -> bool { self.same_but_state(o) && self.state == o.state && self.address == o.address }
    spec fn same_but_state(self, o: TcpChannel) -> bool {
        self.token == o.token && self.input_buffer == o.input_buffer && self.messages == o.messages && self.own_addr == o.own_addr && self.nodelay == o.nodelay
            && self.stream.got() == o.stream.got()
    }
    spec fn same_but_input(self, o: TcpChannel) -> bool {
        self.token == o.token && self.address == o.address && self.state == o.state && self.messages == o.messages && self.own_addr == o.own_addr && self.nodelay == o.nodelay
    }
    spec fn same_but_input_and_count(self, o: TcpChannel) -> bool {
        self.token == o.token && self.address == o.address && self.state == o.state && self.own_addr == o.own_addr && self.nodelay == o.nodelay && self.stream == o.stream
    }
    /// A goodbye is answered, and all is over once the answer is sent.
    spec fn said_bye(self, o: TcpChannel) -> bool {
        match o.state {
            ChannelState::Connected(a, id) => self.out().added(o.out(), Frame::Bye().wire())
                && self.state == if self.outbound_queue@.len() == 0 { ChannelState::Closed(a, id) } else { ChannelState::CloseReceived(a, id) },
            ChannelState::CloseRequested(a, id) => self.state == ChannelState::Closed(a, id) && self.out() == o.out(),
            _ => self.state == o.state && self.out() == o.out(),
        }
    }
    spec fn input(self) -> In { In { head: self.input_buffer.head(), held: self.input_buffer.held(), got: self.stream.got() } }
    /// Of what was held before, one frame was taken, if it was complete.
    spec fn took(self, h: Option<FrameHead>, s: Seq<u8>, r: Result<Frame, FramingError>) -> bool { one_taken(h, s, r, self.input_buffer.head(), self.input_buffer.held()) }
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: new
    ensures r.state == state, r.address == address, r.token == token, r.own_addr == own_addr, r.stream == stream, r.messages == 0,
        r.out() =~= (Out { queue: Seq::empty(), partly: false, sent: stream.sent() }), r.input_buffer.held().len() == 0, r.input_buffer.head() is None,
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: write_serialized
    ensures final(self).same_in(*old(self)), final(self).outbound_queue == old(self).outbound_queue, final(self).partly_sent == old(self).partly_sent,
        r matches Ok(n) ==> n <= serialized.data().len() && (serialized.data().len() > 0 ==> n > 0) && final(self).stream.sent() == old(self).stream.sent() + serialized.data().take(n as int),
        r is Err ==> final(self).stream.sent() == old(self).stream.sent(),
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: try_drain
    requires old(self).out().sound(),
    ensures final(self).out().drained(old(self).out()), final(self).same_in(*old(self)),
        r matches Ok(n) ==> final(self).stream.sent().len() == old(self).stream.sent().len() + n,
    @first proof { self.out().begins(); Out::may_move(self.out()); }
    @loop 0 invariant Out::moving(old(self).out()), self.out().drained(old(self).out()), self.same_in(*old(self)), old(self).out().sound(), sent_bytes == self.stream.sent().len() - old(self).stream.sent().len(), 0 <= interrupts < MAX_INTERRUPTS,
    @body 0 let ghost prev = Out { queue: seq![serialized_frame] + self.outbound_queue@, partly: self.partly_sent, sent: self.stream.sent() }; proof {
        assert(prev.drained(old(self).out())) by { let p = choose|p: Out| #[trigger] p.drained(old(self).out()) && p.queue.len() > 0 && p.queue[0] == serialized_frame && self.outbound_queue@ =~= p.queue.skip(1) && p.partly == prev.partly && p.sent == prev.sent; assert(p.queue =~= prev.queue); }
        prev.nothing_lost(old(self).out()); flat_first(prev.queue); assert(prev.all().len() == old(self).out().all().len());
        assert(prev.queue.skip(1) =~= self.outbound_queue@);
    }
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: enqueue_serialised
    ensures final(self).same_in(*old(self)), final(self).out() == (Out { queue: old(self).out().queue.push(serialized), ..old(self).out() }),
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: take_outbound
    ensures final(self).same_in(*old(self)), final(self).stream == old(self).stream, final(self).outbound_queue@.len() == 0, !final(self).partly_sent,
        r@ == messages_of(if old(self).partly_sent && old(self).outbound_queue@.len() > 0 { old(self).outbound_queue@.skip(1) } else { old(self).outbound_queue@ }),
    @loop 0 invariant ret@ + messages_of(self.outbound_queue@) =~= messages_of(if old(self).partly_sent && old(self).outbound_queue@.len() > 0 { old(self).outbound_queue@.skip(1) } else { old(self).outbound_queue@ }),
        self.same_in(*old(self)), self.stream == old(self).stream, !self.partly_sent,
      ensures self.outbound_queue@.len() == 0,
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: send_frame
    requires old(self).out().room(), frame.body().len() <= 100,
    ensures final(self).same_in(*old(self)), final(self).out().added(old(self).out(), frame.wire()),
    @first let ghost whole = frame.wire();
    @before `let _ = self.try_drain();` proof { let c = self.outbound_queue@.last(); flat_push(old(self).outbound_queue@, c); assert(self.outbound_queue@ == old(self).outbound_queue@.push(c)); assert(c.data() =~= whole); }
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: send_bye
    requires old(self).out().room(),
    ensures final(self).same_in(*old(self)), final(self).out().added(old(self).out(), Frame::Bye().wire()), r is Ok == (final(self).outbound_queue@.len() == 0),
    @before `let _ = self.try_drain();` proof { let c = self.outbound_queue@.last(); flat_push(old(self).outbound_queue@, c); assert(self.outbound_queue@ == old(self).outbound_queue@.push(c)); assert(c.data() =~= Frame::Bye().wire()); }
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: read_state
    ensures final(self).out() == old(self).out(), final(self).same_but_state(*old(self)), final(self).address == old(self).address, *r == final(self).state,
        final(self).state == old(self).state || final(self).state is Error,
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: connected
    ensures r == (self.state is Connected),
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: session_id
    ensures r == self.state.session(),
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: address
    ensures r == self.address,
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: swap_buffer
    ensures final(self).out() == old(self).out(), final(self).same_but_input(*old(self)), final(self).stream == old(self).stream,
        final(self).input_buffer.held() == old(self).input_buffer.held(), final(self).input_buffer.head() == old(self).input_buffer.head(),
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: initialise
    requires old(self).out().room(),
    ensures final(self).same_in(*old(self)),
        if old(self).state is Initialising { final(self).out().added(old(self).out(), Frame::Hello(Hello { addr: *addr }).wire()) } else { final(self).out() == old(self).out() },
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: handle_hello
    requires old(self).out().room(),
    ensures final(self).same_but_state(*old(self)),
        match old(self).state {
            ChannelState::Requested(_, id) => final(self).state == ChannelState::Initialised(hello.addr, id) && final(self).address == hello.addr
                && final(self).out().added(old(self).out(), Frame::Start(Start { addr: old(self).own_addr, id }).wire()),
            _ => *final(self) == *old(self),
        },
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: handle_start
    requires old(self).out().room(),
    ensures final(self).same_but_state(*old(self)),
        match old(self).state {
            ChannelState::Initialising => final(self).state == ChannelState::Connected(start.addr, start.id) && final(self).address == start.addr
                && final(self).out().added(old(self).out(), Frame::Ack().wire()),
            _ => *final(self) == *old(self),
        },
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: handle_ack
    ensures final(self).same_but_state(*old(self)), final(self).address == old(self).address, final(self).out() == old(self).out(), final(self).state == old(self).state.acked(),
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: handle_bye
    requires old(self).out().room(),
    ensures final(self).same_but_state(*old(self)), final(self).address == old(self).address, final(self).said_bye(*old(self)),
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: initiate_graceful_shutdown
    requires old(self).out().room(),
    ensures final(self).same_but_state(*old(self)), final(self).address == old(self).address,
        match old(self).state {
            ChannelState::Connected(a, id) => final(self).state == ChannelState::CloseRequested(a, id) && final(self).out().added(old(self).out(), Frame::Bye().wire()),
            _ => *final(self) == *old(self),
        },
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: shutdown
    ensures final(self).same_but_state(*old(self)), final(self).address == old(self).address, final(self).out() == old(self).out(),
        final(self).state == match old(self).state { ChannelState::Connected(a, id) => ChannelState::Closed(a, id), s => s },
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: decode
    requires old(self).messages < u32::MAX,
    ensures final(self).same_but_input_and_count(*old(self)), final(self).out() == old(self).out(), final(self).took(old(self).input_buffer.head(), old(self).input_buffer.held(), r),
        final(self).messages == old(self).messages + if r is Ok && r->Ok_0 is Data { 1int } else { 0 },
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: receive
    ensures final(self).same_but_input(*old(self)), final(self).out() == old(self).out(), final(self).input().arrived(old(self).input()),
    @first proof { self.input().begins(); }
    @loop 0 invariant 0 <= interrupts < MAX_INTERRUPTS, self.same_but_input(*old(self)), self.out() == old(self).out(), self.input().arrived(old(self).input()),
    @body 0 let ghost (g, h) = (self.stream.got(), self.input_buffer.held()); let ghost x = choose|x: Seq<u8>| g == #[trigger] (old(self).stream.got() + x) && h == old(self).input_buffer.held() + x;
    @end 0 proof { let y = self.stream.got().skip(g.len() as int); assert(self.stream.got() =~= old(self).stream.got() + (x + y)); assert(self.input_buffer.held() =~= old(self).input_buffer.held() + (x + y)); }
*/
/*@ fn network/src/transport/network_channel.rs :: impl TcpChannel :: read_frame
    requires old(self).out().room(), old(self).messages < u32::MAX,
    ensures final(self).token == old(self).token, final(self).address == old(self).address, final(self).own_addr == old(self).own_addr, final(self).nodelay == old(self).nodelay,
        final(self).input().read_well(old(self).input(), r),
        match r {
            Ok(Some(Frame::Ack())) => final(self).state == old(self).state.acked() && final(self).out() == old(self).out(),
            Ok(Some(Frame::Bye())) => final(self).said_bye(*old(self)),
            _ => final(self).state == old(self).state && final(self).out() == old(self).out(),
        },
    @first broadcast use {since_sought, since_arrived, since_taken, since_well}; proof { self.input().begins(); }
*/
}

// ---- datagrams
#[verifier::external_body]
pub struct Logger { x: usize }
#[verifier::external_body]
pub struct NetMessage { x: usize }
#[verifier::external_body]
pub struct SerError { x: usize }
/// What is decoded for C04 and C07.
uninterp spec fn message_in(s: Seq<u8>) -> Option<NetMessage>;
#[verifier::external_body]
fn deserialise_chunk_lease(b: ChunkLease) -> (r: Result<NetMessage, SerError>)
    ensures match r { Ok(m) => message_in(b.held()) == Some(m), Err(_) => message_in(b.held()) is None },
{ unimplemented!() }
/*@ const network/src/transport/udp_state.rs MAX_PACKET_SIZE */
/*@ struct network/src/transport/udp_state.rs UdpState */

/// What waits to be sent, as datagrams.
spec fn letters(q: Seq<(SocketAddr, SerialisedFrame)>) -> Seq<Datagram> { q.map_values(|x: (SocketAddr, SerialisedFrame)| Datagram { peer: x.0, data: x.1.data() }) }
spec fn frames_in(q: Seq<(SocketAddr, SerialisedFrame)>) -> Seq<SerialisedFrame> { q.map_values(|x: (SocketAddr, SerialisedFrame)| x.1) }
/// The message a datagram stands for, if it does for one.
spec fn message_of(d: Seq<u8>) -> Option<NetMessage> {
    match awaited(None, d) {
        Some((Some(h), rest)) if rest.len() >= h.content_length && h.frame_type is Data => message_in(rest.take(h.content_length as int)),
        _ => None,
    }
}
spec fn received(ds: Seq<Datagram>) -> Seq<NetMessage>
    decreases ds.len(),
{ if ds.len() == 0 { Seq::empty() } else { match message_of(ds.last().data) { Some(m) => received(ds.drop_last()).push(m), None => received(ds.drop_last()) } } }
spec fn all_fit(ds: Seq<Datagram>, n: usize) -> bool { forall|i: int| 0 <= i < ds.len() ==> (#[trigger] ds[i]).data.len() <= n }

impl UdpState {
    spec fn line(self) -> Seq<Datagram> { self.socket.sent() + letters(self.outbound_queue@) }
    spec fn load(self) -> nat { flat(frames_in(self.outbound_queue@)).len() }
    /// Nothing of an earlier datagram is left.
    spec fn clean(self) -> bool { self.input_buffer.held().len() == 0 && self.input_buffer.head() is None }
    spec fn same_in(self, o: UdpState) -> bool { self.input_buffer == o.input_buffer && self.incoming_messages == o.incoming_messages && self.max_packet_size == o.max_packet_size && self.socket.got() == o.socket.got() }
    spec fn same_out(self, o: UdpState) -> bool { self.outbound_queue == o.outbound_queue && self.socket.sent() == o.socket.sent() && self.max_packet_size == o.max_packet_size }
    /// The datagrams that arrived since, each by itself, gave these messages.
    spec fn heard(self, o: UdpState) -> bool {
        let (n, g) = (o.socket.got().len() as int, self.socket.got());
        &&& g.len() >= n && g.take(n) == o.socket.got()
        &&& all_fit(g.skip(n), o.max_packet_size) ==> self.incoming_messages@ == o.incoming_messages@ + received(g.skip(n))
    }
    proof fn hears(self, p: UdpState, o: UdpState)
        requires p.heard(o), p.max_packet_size == o.max_packet_size, self.socket.got().len() == p.socket.got().len() + 1, self.socket.got().drop_last() == p.socket.got(),
            self.socket.got().last().data.len() <= o.max_packet_size ==> self.incoming_messages@ == match message_of(self.socket.got().last().data) { Some(m) => p.incoming_messages@.push(m), None => p.incoming_messages@ },
        ensures self.heard(o),
    {
        let (n, g, h) = (o.socket.got().len() as int, self.socket.got(), p.socket.got());
        assert(g.take(n) =~= h.take(n));
        assert(g.skip(n).drop_last() =~= h.skip(n));
        assert(g.skip(n).last() == g.last());
        if all_fit(g.skip(n), o.max_packet_size) {
            assert(all_fit(h.skip(n), o.max_packet_size)) by { assert forall|i: int| 0 <= i < h.skip(n).len() implies (#[trigger] h.skip(n)[i]).data.len() <= o.max_packet_size by { assert(h.skip(n)[i] == g.skip(n)[i]); } }
            assert(g.skip(n)[g.skip(n).len() - 1].data.len() <= o.max_packet_size);
            assert(self.incoming_messages@ =~= o.incoming_messages@ + received(g.skip(n)));
        }
    }
/*@ fn network/src/transport/udp_state.rs :: impl UdpState :: new
    ensures r.socket == socket, r.clean(), r.outbound_queue@.len() == 0, r.incoming_messages@.len() == 0, r.max_packet_size <= MAX_PACKET_SIZE,
*/
/*@ fn network/src/transport/udp_state.rs :: impl UdpState :: pending_messages
    ensures r == self.outbound_queue@.len(),
*/
/*@ fn network/src/transport/udp_state.rs :: impl UdpState :: enqueue_serialised
    ensures final(self).same_in(*old(self)), final(self).line() =~= old(self).line().push(Datagram { peer: addr, data: frame.data() }), final(self).socket == old(self).socket,
*/
/*@ fn network/src/transport/udp_state.rs :: impl UdpState :: try_write
    requires old(self).load() < 0x4000_0000_0000_0000,
    ensures final(self).same_in(*old(self)), final(self).line() == old(self).line(), final(self).socket.sent().len() >= old(self).socket.sent().len(),
    @loop 0 invariant self.same_in(*old(self)), self.line() == old(self).line(), self.socket.sent().len() >= old(self).socket.sent().len(), 0 <= interrupts < MAX_INTERRUPTS,
        sent_bytes + self.load() <= old(self).load(), old(self).load() < 0x4000_0000_0000_0000,
    @body 0 let ghost (d, s) = (frame.data(), self.socket.sent()); proof {
        let q = seq![(addr, frame)] + self.outbound_queue@;
        assert forall|p: Seq<(SocketAddr, SerialisedFrame)>| p.len() > 0 && p[0] == (addr, frame) && self.outbound_queue@ == p.skip(1) implies #[trigger] letters(p) == seq![Datagram { peer: addr, data: d }] + letters(self.outbound_queue@) by {
            assert(p =~= q); assert(letters(p) =~= seq![Datagram { peer: addr, data: d }] + letters(self.outbound_queue@)); }
        assert forall|p: Seq<(SocketAddr, SerialisedFrame)>| p.len() > 0 && p[0] == (addr, frame) && self.outbound_queue@ == p.skip(1) implies #[trigger] frames_in(p) == frames_in(q) by { assert(p =~= q); }
        flat_first(frames_in(q)); assert(frames_in(q).skip(1) =~= frames_in(self.outbound_queue@));
    }
    let ghost was = self.outbound_queue@;
    @end 0 proof {
        if self.outbound_queue@.len() == was.len() {
            assert(s + (seq![Datagram { peer: addr, data: d }] + letters(was)) =~= s.push(Datagram { peer: addr, data: d }) + letters(was));
        } else {
            assert(letters(self.outbound_queue@) =~= seq![Datagram { peer: addr, data: d }] + letters(was));
            flat_first(frames_in(self.outbound_queue@)); assert(frames_in(self.outbound_queue@).skip(1) =~= frames_in(was));
        }
    }
*/
/*@ fn network/src/transport/udp_state.rs :: impl UdpState :: swap_buffer
    ensures final(self).same_out(*old(self)), final(self).socket == old(self).socket, final(self).incoming_messages == old(self).incoming_messages,
        final(self).input_buffer.held() == old(self).input_buffer.held(), final(self).input_buffer.head() == old(self).input_buffer.head(),
*/
/*@ fn network/src/transport/udp_state.rs :: impl UdpState :: decode_message
    requires old(self).input_buffer.head() is None,
    ensures final(self).same_out(*old(self)), final(self).socket == old(self).socket, final(self).clean(),
        final(self).incoming_messages@ == match message_of(old(self).input_buffer.held()) { Some(m) => old(self).incoming_messages@.push(m), None => old(self).incoming_messages@ },
*/
/*@ fn network/src/transport/udp_state.rs :: impl UdpState :: try_read
    requires old(self).clean(),
    ensures final(self).same_out(*old(self)), final(self).clean(), final(self).heard(*old(self)),
    @first proof { let g = self.socket.got(); assert(g.take(g.len() as int) =~= g); assert(self.incoming_messages@ + received(g.skip(g.len() as int)) =~= self.incoming_messages@); }
    @loop 0 invariant self.same_out(*old(self)), self.clean(), self.heard(*old(self)), 0 <= interrupts < MAX_INTERRUPTS,
    @body 0 let ghost prev = *self; proof { assert forall|c: UdpState| (c.socket.got().len() == prev.socket.got().len() + 1 && c.socket.got().drop_last() == prev.socket.got()
            && (c.socket.got().last().data.len() <= old(self).max_packet_size ==> c.incoming_messages@ == match message_of(c.socket.got().last().data) { Some(m) => prev.incoming_messages@.push(m), None => prev.incoming_messages@ }))
            implies #[trigger] c.heard(*old(self)) by { c.hears(prev, *old(self)); } }
*/
}
fn main() {}
}
