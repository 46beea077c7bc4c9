//@ subst B: Buf + ?Sized => B: Buf
//@ subst (std::io::Error) => (IoError)
//@ subst src.chunk().to_vec() => to_vec(src.chunk())
//@ subst let frame_type: FrameType = src.get_u8().into(); => let frame_type: FrameType = FrameType::from(src.get_u8());
//@ subst fn from(byte: u8) -> Self => fn from(byte: u8) -> FrameType
global size_of usize == 8;

#[verifier::external_body]
pub struct IoError { x: usize }
#[verifier::external_body]
fn to_vec(s: &[u8]) -> (r: Vec<u8>)
    ensures r@ == s@,
{ s.to_vec() }

// ---- numbers on the wire
mod axioms {
use super::*;
pub uninterp spec fn be16(x: u16) -> Seq<u8>;
pub uninterp spec fn un16(s: Seq<u8>) -> u16;
pub uninterp spec fn be32(x: u32) -> Seq<u8>;
pub uninterp spec fn un32(s: Seq<u8>) -> u32;
pub uninterp spec fn be128(x: u128) -> Seq<u8>;
pub uninterp spec fn un128(s: Seq<u8>) -> u128;
#[verifier::external_body]
pub broadcast proof fn be16_back(x: u16)
    ensures #![trigger be16(x)] be16(x).len() == 2, un16(be16(x)) == x,
{}
#[verifier::external_body]
pub broadcast proof fn be32_back(x: u32)
    ensures #![trigger be32(x)] be32(x).len() == 4, un32(be32(x)) == x,
{}
#[verifier::external_body]
pub broadcast proof fn be128_back(x: u128)
    ensures #![trigger be128(x)] be128(x).len() == 16, un128(be128(x)) == x,
{}
pub broadcast proof fn skips(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b),
{
    assert(s.skip(a).skip(b) =~= s.skip(a + b));
}
}
use axioms::*;

trait Memory {
    spec fn bytes(&self) -> Seq<u8>;
}
impl<const N: usize> Memory for [u8; N] { spec fn bytes(&self) -> Seq<u8> { self@ } }
impl Memory for [u8] { spec fn bytes(&self) -> Seq<u8> { self@ } }

/// A source of bytes (`bytes::Buf`), by its documented contract.
trait Buf: Sized {
    spec fn rest(&self) -> Seq<u8>;
    fn remaining(&self) -> (r: usize)
        ensures r == self.rest().len();
    fn has_remaining(&self) -> (r: bool)
        ensures r == (self.rest().len() > 0);
    fn chunk(&self) -> (r: &[u8])
        ensures r@.len() <= self.rest().len(), r@ == self.rest().take(r@.len() as int), self.rest().len() > 0 ==> r@.len() > 0;
    fn advance(&mut self, cnt: usize)
        requires cnt <= old(self).rest().len(),
        ensures final(self).rest() == old(self).rest().skip(cnt as int);
    fn get_u8(&mut self) -> (r: u8)
        requires old(self).rest().len() >= 1,
        ensures r == old(self).rest()[0], final(self).rest() == old(self).rest().skip(1);
    fn get_u16(&mut self) -> (r: u16)
        requires old(self).rest().len() >= 2,
        ensures r == un16(old(self).rest().take(2)), final(self).rest() == old(self).rest().skip(2);
    fn get_u32(&mut self) -> (r: u32)
        requires old(self).rest().len() >= 4,
        ensures r == un32(old(self).rest().take(4)), final(self).rest() == old(self).rest().skip(4);
    fn get_u128(&mut self) -> (r: u128)
        requires old(self).rest().len() >= 16,
        ensures r == un128(old(self).rest().take(16)), final(self).rest() == old(self).rest().skip(16);
}
/// A place to write to (`bytes::BufMut`).
trait BufMut: Sized {
    spec fn written(&self) -> Seq<u8>;
    spec fn room(&self) -> int;
    fn remaining_mut(&self) -> (r: usize)
        ensures r == self.room();
    fn put_u8(&mut self, x: u8)
        requires old(self).room() >= 1,
        ensures final(self).written() == old(self).written() + seq![x], final(self).room() >= old(self).room() - 1;
    fn put_u16(&mut self, x: u16)
        requires old(self).room() >= 2,
        ensures final(self).written() == old(self).written() + be16(x), final(self).room() >= old(self).room() - 2;
    fn put_u32(&mut self, x: u32)
        requires old(self).room() >= 4,
        ensures final(self).written() == old(self).written() + be32(x), final(self).room() >= old(self).room() - 4;
    fn put_u128(&mut self, x: u128)
        requires old(self).room() >= 16,
        ensures final(self).written() == old(self).written() + be128(x), final(self).room() >= old(self).room() - 16;
    fn put_slice<M: Memory + ?Sized>(&mut self, src: &M)
        requires old(self).room() >= src.bytes().len(),
        ensures final(self).written() == old(self).written() + src.bytes(), final(self).room() >= old(self).room() - src.bytes().len();
}
/// The kinds of memory frames are kept in.
#[verifier::external_body]
pub struct Stored<const KIND: u8> { x: usize }
pub type ChunkLease = Stored<0>;
pub type Bytes = Stored<1>;
pub type ChunkRef = Stored<2>;
impl<const KIND: u8> Stored<KIND> {
    uninterp spec fn held(&self) -> Seq<u8>;
    /// How much of it lies in one place.
    spec fn first(&self) -> nat { if KIND == 1 { self.held().len() } else { self.slice() } }
    uninterp spec fn slice(&self) -> nat;
}
impl<const KIND: u8> Buf for Stored<KIND> {
    spec fn rest(&self) -> Seq<u8> { self.held() }
    #[verifier::external_body]
    fn remaining(&self) -> usize { unimplemented!() }
    #[verifier::external_body]
    fn has_remaining(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn chunk(&self) -> (r: &[u8])
        ensures KIND == 1 ==> r@ == self.held(), r@.len() == self.first(),
    { unimplemented!() }
    #[verifier::external_body]
    fn advance(&mut self, cnt: usize) { unimplemented!() }
    #[verifier::external_body]
    fn get_u8(&mut self) -> u8 { unimplemented!() }
    #[verifier::external_body]
    fn get_u16(&mut self) -> u16 { unimplemented!() }
    #[verifier::external_body]
    fn get_u32(&mut self) -> u32 { unimplemented!() }
    #[verifier::external_body]
    fn get_u128(&mut self) -> u128 { unimplemented!() }
}

// ---- addresses and ids
#[derive(Copy, Clone)]
pub struct Ipv4Addr { bits: u32 }
#[derive(Copy, Clone)]
pub struct Ipv6Addr { bits: u128 }
#[derive(Copy, Clone)]
pub enum IpAddr { V4(Ipv4Addr), V6(Ipv6Addr) }
#[derive(Copy, Clone)]
pub struct SocketAddrV4 { addr: Ipv4Addr, port_: u16 }
#[derive(Copy, Clone)]
pub struct SocketAddrV6 { addr: Ipv6Addr, port_: u16, flow: u32, scope: u32 }
#[derive(Copy, Clone)]
pub enum SocketAddr { V4(SocketAddrV4), V6(SocketAddrV6) }
#[derive(Copy, Clone)]
pub struct SessionId { bits: u128 }
impl Ipv4Addr {
    #[verifier::external_body]
    fn octets(&self) -> (r: [u8; 4]) ensures r@ == be32(self.bits), { unimplemented!() }
    fn from(bits: u32) -> (r: Ipv4Addr) ensures r.bits == bits, { Ipv4Addr { bits } }
}
impl Ipv6Addr {
    #[verifier::external_body]
    fn octets(&self) -> (r: [u8; 16]) ensures r@ == be128(self.bits), { unimplemented!() }
    fn from(bits: u128) -> (r: Ipv6Addr) ensures r.bits == bits, { Ipv6Addr { bits } }
}
impl SocketAddrV4 {
    fn ip(&self) -> (r: &Ipv4Addr) ensures *r == self.addr, { &self.addr }
    fn port(&self) -> (r: u16) ensures r == self.port_, { self.port_ }
}
impl SocketAddrV6 {
    fn ip(&self) -> (r: &Ipv6Addr) ensures *r == self.addr, { &self.addr }
    fn port(&self) -> (r: u16) ensures r == self.port_, { self.port_ }
}
impl SocketAddr {
    spec fn of(ip: IpAddr, port: u16) -> SocketAddr {
        match ip { IpAddr::V4(a) => SocketAddr::V4(SocketAddrV4 { addr: a, port_: port }), IpAddr::V6(a) => SocketAddr::V6(SocketAddrV6 { addr: a, port_: port, flow: 0, scope: 0 }) }
    }
    fn new(ip: IpAddr, port: u16) -> (r: SocketAddr) ensures r == SocketAddr::of(ip, port),
    { match ip { IpAddr::V4(a) => SocketAddr::V4(SocketAddrV4 { addr: a, port_: port }), IpAddr::V6(a) => SocketAddr::V6(SocketAddrV6 { addr: a, port_: port, flow: 0, scope: 0 }) } }
    spec fn wire(self) -> Seq<u8> {
        match self { SocketAddr::V4(a) => seq![4u8] + be32(a.addr.bits) + be16(a.port_), SocketAddr::V6(a) => seq![6u8] + be128(a.addr.bits) + be16(a.port_) }
    }
    /// The address these bytes begin with, and what is after it.
    spec fn read(s: Seq<u8>) -> Option<(SocketAddr, Seq<u8>)> {
        if s.len() >= 7 && s[0] == 4 {
            Some((SocketAddr::of(IpAddr::V4(Ipv4Addr { bits: un32(s.skip(1).take(4)) }), un16(s.skip(5).take(2))), s.skip(7)))
        } else if s.len() >= 19 && s[0] == 6 {
            Some((SocketAddr::of(IpAddr::V6(Ipv6Addr { bits: un128(s.skip(1).take(16)) }), un16(s.skip(17).take(2))), s.skip(19)))
        } else {
            None
        }
    }
    /// Flow and scope of IPv6 are not transmitted.
    spec fn plain(self) -> bool { self matches SocketAddr::V6(a) ==> a.flow == 0 && a.scope == 0 }
}
impl SessionId {
    fn from_u128(bits: u128) -> (r: SessionId) ensures r.bits == bits, { SessionId { bits } }
    fn as_u128(&self) -> (r: u128) ensures r == self.bits, { self.bits }
}

// ---- frames
/*@ const core/src/net/frames.rs FRAME_HEAD_LEN */
/*@ const core/src/net/frames.rs MAGIC_NUM */
/*@ enum core/src/net/frames.rs FramingError */
#[derive(Copy, Clone)]
/*@ enum core/src/net/frames.rs FrameType */
/*@ struct core/src/net/frames.rs FrameHead */
/*@ struct core/src/net/frames.rs Data */
/*@ struct core/src/net/frames.rs Hello */
/*@ struct core/src/net/frames.rs Start */
/*@ enum core/src/net/frames.rs Frame */
impl FrameType {
    spec fn byte(self) -> u8 { match self { FrameType::Data => 0x02, FrameType::Hello => 0x04, FrameType::Start => 0x05, FrameType::Ack => 0x06, FrameType::Bye => 0x07, FrameType::Unknown => 0x08 } }
    spec fn of(b: u8) -> FrameType {
        if b == 0x02 { FrameType::Data } else if b == 0x04 { FrameType::Hello } else if b == 0x05 { FrameType::Start } else if b == 0x06 { FrameType::Ack } else if b == 0x07 { FrameType::Bye } else { FrameType::Unknown }
    }
/*@ fn core/src/net/frames.rs :: impl From<u8> for FrameType :: from
    ensures r == FrameType::of(byte),
*/
}
impl FrameHead {
    /// Four bytes of magic number, four of length, one of type.
    spec fn wire(self) -> Seq<u8> { be32(MAGIC_NUM) + be32(self.content_length as u32) + seq![self.frame_type.byte()] }
    spec fn read(s: Seq<u8>) -> Option<FrameHead> {
        if s.len() >= 9 && un32(s.take(4)) == MAGIC_NUM { Some(FrameHead { frame_type: FrameType::of(s[8]), content_length: un32(s.skip(4).take(4)) as usize }) } else { None }
    }
/*@ fn core/src/net/frames.rs :: impl FrameHead :: new
    ensures r == (FrameHead { frame_type, content_length }),
*/
/*@ fn core/src/net/frames.rs :: impl FrameHead :: encode_into
    requires old(dst).room() >= 9,
    ensures final(dst).written() =~= old(dst).written() + old(self).wire(), final(dst).room() >= old(dst).room() - 9, *final(self) == *old(self),
*/
/*@ fn core/src/net/frames.rs :: impl FrameHead :: decode_from
    ensures r is Ok == FrameHead::read(old(src).rest()) is Some,
        r matches Ok(h) ==> FrameHead::read(old(src).rest()) == Some(h) && final(src).rest() == old(src).rest().skip(9),
        old(src).rest().len() < 9 ==> r is Err && r->Err_0 is NoData && *final(src) == *old(src),
*/
/*@ fn core/src/net/frames.rs :: impl FrameHead :: content_length
    ensures r == self.content_length,
*/
/*@ fn core/src/net/frames.rs :: impl FrameHead :: frame_type
    ensures r == self.frame_type,
*/
}
trait FrameExt: Sized {
    /// What it is written as, behind its head.
    spec fn body(&self) -> Seq<u8>;
    /// What it is read from.
    spec fn read(s: Seq<u8>, r: Result<Frame, FramingError>) -> bool;
    fn decode_from(src: ChunkLease) -> (r: Result<Frame, FramingError>)
        ensures Self::read(src.held(), r);
    fn encode_into<B: BufMut>(&mut self, dst: &mut B) -> (r: Result<(), FramingError>)
        requires old(dst).room() >= old(self).body().len(),
        ensures r is Ok, final(dst).written() =~= old(dst).written() + old(self).body();
    fn encoded_len(&self) -> (r: usize)
        ensures r == self.body().len();
}
impl Hello {
/*@ fn core/src/net/frames.rs :: impl Hello :: new
    ensures r == (Hello { addr }),
*/
/*@ fn core/src/net/frames.rs :: impl Hello :: addr
    ensures r == self.addr,
*/
}
impl Start {
/*@ fn core/src/net/frames.rs :: impl Start :: new
    ensures r == (Start { addr, id }),
*/
/*@ fn core/src/net/frames.rs :: impl Start :: addr
    ensures r == self.addr,
*/
/*@ fn core/src/net/frames.rs :: impl Start :: id
    ensures r == self.id,
*/
}
impl Data {
/*@ fn core/src/net/frames.rs :: impl Data :: new
    ensures r == (Data { payload }),
*/
/*@ fn core/src/net/frames.rs :: impl Data :: encoded_len
    ensures r == self.payload.held().len(),
*/
/*@ fn core/src/net/frames.rs :: impl Data :: payload
    ensures r == self.payload,
*/
}
impl FrameExt for Data {
    spec fn body(&self) -> Seq<u8> { self.payload.held() }
    spec fn read(s: Seq<u8>, r: Result<Frame, FramingError>) -> bool { r is Ok && r->Ok_0 is Data && r->Ok_0->Data_0.payload.held() == s }
/*@ fn core/src/net/frames.rs :: impl FrameExt for Data :: decode_from */
/*@ fn core/src/net/frames.rs :: impl FrameExt for Data :: encode_into
    @loop 0 invariant dst.room() >= self.payload.held().len(), dst.written() + self.payload.held() =~= old(dst).written() + old(self).payload.held(),
        decreases self.payload.held().len(),
*/
/*@ fn core/src/net/frames.rs :: impl FrameExt for Data :: encoded_len */
}
/*@ fn core/src/net/frames.rs :: - :: read_address_version
    requires extra <= 1000,
    ensures r is Ok == (SocketAddr::read(old(src).held()) matches Some(x) && x.1.len() >= extra),
        r matches Ok(v) ==> v == old(src).held()[0] && final(src).held() == old(src).held().skip(1),
*/
impl FrameExt for Hello {
    spec fn body(&self) -> Seq<u8> { self.addr.wire() }
    spec fn read(s: Seq<u8>, r: Result<Frame, FramingError>) -> bool {
        match SocketAddr::read(s) { Some((addr, _)) => r == Ok::<Frame, FramingError>(Frame::Hello(Hello { addr })), None => r is Err }
    }
/*@ fn core/src/net/frames.rs :: impl FrameExt for Hello :: decode_from */
/*@ fn core/src/net/frames.rs :: impl FrameExt for Hello :: encode_into */
/*@ fn core/src/net/frames.rs :: impl FrameExt for Hello :: encoded_len */
}
impl FrameExt for Start {
    spec fn body(&self) -> Seq<u8> { self.addr.wire() + be128(self.id.bits) }
    spec fn read(s: Seq<u8>, r: Result<Frame, FramingError>) -> bool {
        match SocketAddr::read(s) {
            Some((addr, more)) if more.len() >= 16 => r == Ok::<Frame, FramingError>(Frame::Start(Start { addr, id: SessionId { bits: un128(more.take(16)) } })),
            _ => r is Err,
        }
    }
/*@ fn core/src/net/frames.rs :: impl FrameExt for Start :: decode_from */
/*@ fn core/src/net/frames.rs :: impl FrameExt for Start :: encode_into */
/*@ fn core/src/net/frames.rs :: impl FrameExt for Start :: encoded_len */
}
impl Frame {
    spec fn kind(self) -> FrameType { match self { Frame::Data(_) => FrameType::Data, Frame::Hello(_) => FrameType::Hello, Frame::Start(_) => FrameType::Start, Frame::Ack() => FrameType::Ack, Frame::Bye() => FrameType::Bye } }
    spec fn body(self) -> Seq<u8> { match self { Frame::Data(f) => f.body(), Frame::Hello(f) => f.body(), Frame::Start(f) => f.body(), _ => Seq::empty() } }
    spec fn wire(self) -> Seq<u8> { FrameHead { frame_type: self.kind(), content_length: self.body().len() as usize }.wire() + self.body() }
/*@ fn core/src/net/frames.rs :: impl Frame :: frame_type
    ensures r == self.kind(),
*/
/*@ fn core/src/net/frames.rs :: impl Frame :: encoded_len
    ensures r == self.body().len(),
*/
/*@ fn core/src/net/frames.rs :: impl Frame :: encode_into
    requires old(dst).room() >= 9 + old(self).body().len(), old(self).body().len() <= u32::MAX,
    ensures r is Ok, final(dst).written() =~= old(dst).written() + old(self).wire(),
*/
}
proof fn head_back(h: FrameHead, more: Seq<u8>)
    requires h.content_length <= u32::MAX, !(h.frame_type is Unknown),
    ensures h.wire().len() == 9, FrameHead::read(h.wire() + more) == Some(h), (h.wire() + more).skip(9) == more,
{
    let s = h.wire() + more;
    assert(s.take(4) =~= be32(MAGIC_NUM));
    assert(s.skip(4).take(4) =~= be32(h.content_length as u32));
    assert(s.skip(9) =~= more);
}
proof fn address_back(a: SocketAddr, more: Seq<u8>)
    requires a.plain(),
    ensures SocketAddr::read(a.wire() + more) == Some((a, more)),
{
    let s = a.wire() + more;
    match a {
        SocketAddr::V4(x) => { assert(s.skip(1).take(4) =~= be32(x.addr.bits)); assert(s.skip(5).take(2) =~= be16(x.port_)); assert(s.skip(7) =~= more); }
        SocketAddr::V6(x) => { assert(s.skip(1).take(16) =~= be128(x.addr.bits)); assert(s.skip(17).take(2) =~= be16(x.port_)); assert(s.skip(19) =~= more); }
    }
}
/// Reading the body of a frame by the type its head names gives the frame that was written.
proof fn frame_back(f: Frame, r: Result<Frame, FramingError>)
    requires f matches Frame::Hello(h) ==> h.addr.plain(), f matches Frame::Start(s) ==> s.addr.plain(),
    ensures
        f is Hello && Hello::read(f.body(), r) ==> r == Ok::<Frame, FramingError>(f),
        f is Start && Start::read(f.body(), r) ==> r == Ok::<Frame, FramingError>(f),
        f is Data && Data::read(f.body(), r) ==> r is Ok && r->Ok_0 is Data && r->Ok_0.body() == f.body(),
{
    match f {
        Frame::Hello(h) => { address_back(h.addr, Seq::empty()); assert(h.addr.wire() + Seq::<u8>::empty() =~= f.body()); }
        Frame::Start(s) => { address_back(s.addr, be128(s.id.bits)); assert(be128(s.id.bits).take(16) =~= be128(s.id.bits)); }
        _ => {}
    }
}
