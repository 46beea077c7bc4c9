//! C01: frame heads and control frames on the wire.
use crate::nondet::*;
use kompact::net::{SessionId, buffers::*, frames::*};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

pub fn any_addr<S: Src>(s: &mut S) -> SocketAddr {
    let ip = if s.bool() {
        IpAddr::V4(Ipv4Addr::from(s.u32()))
    } else {
        IpAddr::V6(Ipv6Addr::from(s.u128()))
    };
    SocketAddr::new(ip, s.u16())
}

/// Address equality without byte loops.
pub fn same_addr(a: &SocketAddr, b: &SocketAddr) -> bool {
    a.port() == b.port()
        && match (a.ip(), b.ip()) {
            (IpAddr::V4(x), IpAddr::V4(y)) => u32::from(x) == u32::from(y),
            (IpAddr::V6(x), IpAddr::V6(y)) => u128::from(x) == u128::from(y),
            _ => false,
        }
}

/// The wire image the format documentation prescribes for an address.
pub fn spec_addr(a: &SocketAddr, out: &mut [u8; 19]) -> usize {
    match a {
        SocketAddr::V4(v) => {
            out[0] = 4;
            out[1..5].copy_from_slice(&v.ip().octets());
            out[5..7].copy_from_slice(&v.port().to_be_bytes());
            7
        }
        SocketAddr::V6(v) => {
            out[0] = 6;
            out[1..17].copy_from_slice(&v.ip().octets());
            out[17..19].copy_from_slice(&v.port().to_be_bytes());
            19
        }
    }
}

pub fn spec_head(t: u8, len: u32) -> [u8; 9] {
    let l = len.to_be_bytes();
    [0xC0, 0xA1, 0xBA, 0x11, l[0], l[1], l[2], l[3], t]
}

fn decode_one(bytes: &[u8]) -> Result<Frame, FramingError> {
    let cfg = BufferConfig::default();
    let mut d = DecodeBuffer::new(BufferChunk::new(64), &cfg);
    d.get_writeable().unwrap()[..bytes.len()].copy_from_slice(bytes);
    d.advance_writeable(bytes.len());
    let r = d.get_frame();
    if r.is_ok() {
        assert!(d.readable_len() == 0);
    }
    r
}

/// Encodes `f`, checking the declared length and the exact head.
fn encode<S: Src>(s: &mut S, f: &mut Frame, out: &mut [u8; 64], t: u8) -> usize {
    let content = f.encoded_len();
    let mut w = &mut out[..];
    assert!(f.encode_into(&mut w).is_ok());
    let left = w.len();
    let n = 64 - left;
    assert!(n == 9 + content);
    assert!(s.same(&out[..9], &spec_head(t, content as u32)));
    
    n
}

/// Hello: exact layout, and decoding gives back the address.
pub fn hello_round_trip<S: Src>(s: &mut S) {
    let addr = any_addr(s);
    let mut out = [0u8; 64];
    let n = encode(s, &mut Frame::Hello(Hello::new(addr)), &mut out, 4);
    let mut spec = [0u8; 19];
    let k = spec_addr(&addr, &mut spec);
    assert!(n == 9 + k);
    assert!(s.same(&out[9..n], &spec[..k]));
    match decode_one(&out[..n]) {
        Ok(Frame::Hello(h)) => assert!(same_addr(&h.addr(), &addr)),
        _ => panic!("Hello did not decode to Hello"),
    }
}

/// Start: exact layout, and decoding gives back the address and the session.
pub fn start_round_trip<S: Src>(s: &mut S) {
    let addr = any_addr(s);
    let id = s.u128();
    let mut out = [0u8; 64];
    let n = encode(
        s, &mut Frame::Start(Start::new(addr, SessionId::from_u128(id))),
        &mut out,
        5,
    );
    let mut spec = [0u8; 19];
    let k = spec_addr(&addr, &mut spec);
    assert!(n == 9 + k + 16);
    assert!(s.same(&out[9..9 + k], &spec[..k]));
    assert!(s.same(&out[9 + k..n], &id.to_be_bytes()));
    match decode_one(&out[..n]) {
        Ok(Frame::Start(st)) => {
            assert!(same_addr(&st.addr(), &addr));
            assert!(st.id().as_u128() == id);
        }
        _ => panic!("Start did not decode to Start"),
    }
}

/// Ack and Bye have an empty body.
pub fn empty_frames_round_trip<S: Src>(s: &mut S) {
    let mut out = [0u8; 64];
    if s.bool() {
        let n = encode(s, &mut Frame::Ack(), &mut out, 6);
        assert!(n == 9);
        assert!(matches!(decode_one(&out[..n]), Ok(Frame::Ack())));
    } else {
        let n = encode(s, &mut Frame::Bye(), &mut out, 7);
        assert!(n == 9);
        assert!(matches!(decode_one(&out[..n]), Ok(Frame::Bye())));
    }
}

/// Every byte names a frame type, and the five known ones are inverse to `as u8`.
pub fn frame_type_bytes<S: Src>(s: &mut S) {
    let b = s.u8();
    let t = FrameType::from(b);
    match b {
        2 => assert!(t == FrameType::Data),
        4 => assert!(t == FrameType::Hello),
        5 => assert!(t == FrameType::Start),
        6 => assert!(t == FrameType::Ack),
        7 => assert!(t == FrameType::Bye),
        _ => assert!(t == FrameType::Unknown),
    }
    if t != FrameType::Unknown {
        assert!(t as u8 == b);
    }
}

#[cfg(kompact_verif_net)]
fn any_type<S: Src>(s: &mut S) -> FrameType {
    match s.upto(5) {
        0 => FrameType::Data,
        1 => FrameType::Hello,
        2 => FrameType::Start,
        3 => FrameType::Ack,
        4 => FrameType::Bye,
        _ => FrameType::Unknown,
    }
}

/// Frame heads: nine bytes, magic, big-endian length, type; decoding is the inverse.
#[cfg(kompact_verif_net)]
pub fn head_round_trip<S: Src>(s: &mut S) {
    let t = any_type(s);
    let len = s.u32();
    let mut out = [0u8; 16];
    let mut w = &mut out[..];
    kompact::verif_hooks::net::encode_head(t, len as usize, &mut w);
    assert!(w.len() == 7);
    assert!(s.same(&out[..9], &spec_head(t as u8, len)));
    let mut r = &out[..12];
    let (t2, len2) = kompact::verif_hooks::net::decode_head(&mut r).unwrap();
    assert!(t2 == t && len2 == len as usize);
    assert!(r.len() == 3);
}

/// Decoding any bytes as a head: too short, wrong magic, or exactly the fields.
#[cfg(kompact_verif_net)]
pub fn head_decode_total<S: Src>(s: &mut S) {
    let bytes: [u8; 12] = s.arr();
    let n = s.upto(12);
    let fix_magic = s.bool();
    let mut bytes = bytes;
    if fix_magic {
        bytes[..4].copy_from_slice(&MAGIC_NUM.to_be_bytes());
    }
    let mut r = &bytes[..n];
    let magic = u32::from_be_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]);
    match kompact::verif_hooks::net::decode_head(&mut r) {
        Ok((t, len)) => {
            assert!(n >= 9 && magic == 0xC0A1BA11);
            assert!(t == FrameType::from(bytes[8]));
            assert!(len == u32::from_be_bytes([bytes[4], bytes[5], bytes[6], bytes[7]]) as usize);
            assert!(r.len() == n - 9);
        }
        Err(FramingError::NoData) => assert!(n < 9 && r.len() == n),
        Err(FramingError::InvalidMagicNum((m, _))) => assert!(n >= 9 && m == magic && m != 0xC0A1BA11),
        Err(_) => panic!("unexpected error kind"),
    }
}

/// A data frame carries its payload and says so in its head.
pub fn data_frame_round_trip<S: Src>(s: &mut S) {
    let n = s.upto(20) + 1;
    let body: [u8; 24] = s.arr();
    let mut chunk = BufferChunk::new(64);
    let mut cfg = BufferConfig::default();
    cfg.chunk_size(128);
    let lease = {
        let mut d = DecodeBuffer::new(BufferChunk::new(64), &cfg);
        let _ = &mut d;
        let mut l = chunk.get_lease(0, n);
        // leases are created "already written": fill them through the chunk
        fill(&mut l, &body[..n]);
        l
    };
    let mut f = Frame::Data(Data::new(lease));
    let mut out = [0u8; 64];
    let k = encode(s, &mut f, &mut out, 2);
    assert!(k == 9 + n);
    assert!(s.same(&out[9..k], &body[..n]));
    match decode_one(&out[..k]) {
        Ok(Frame::Data(d)) => {
            use bytes::Buf;
            let p = d.payload();
            assert!(p.remaining() == n);
            assert!(p.chunk() == &body[..n]);
        }
        _ => panic!("Data did not decode to Data"),
    }
}

fn fill(l: &mut ChunkLease, bytes: &[u8]) {
    use bytes::Buf;
    let p = l.chunk().as_ptr() as *mut u8;
    unsafe { std::ptr::copy_nonoverlapping(bytes.as_ptr(), p, bytes.len()) }
}

#[cfg(kompact_verif_net)]
fn lease_of(bytes: &[u8]) -> ChunkLease {
    let content: &'static mut [u8] = Box::leak(bytes.to_vec().into_boxed_slice());
    kompact::verif_hooks::net::new_lease(content, std::sync::Arc::new(()))
}

/// `Hello` bodies decode to the address they were written from.
#[cfg(kompact_verif_net)]
fn hello_body<S: Src>(addr: SocketAddr, s: &mut S) {
    let mut out = [0u8; 32];
    let mut w = &mut out[..];
    let mut f = Frame::Hello(Hello::new(addr));
    let content = f.encoded_len();
    assert!(f.encode_into(&mut w).is_ok());
    let left = w.len();
    let mut spec = [0u8; 19];
    let k = spec_addr(&addr, &mut spec);
    assert!(content == k && 32 - left == 9 + k);
    assert!(s.same(&out[..9], &spec_head(4, k as u32)));
    assert!(s.same(&out[9..9 + k], &spec[..k]));
    match kompact::verif_hooks::net::decode_hello(lease_of(&spec[..k])) {
        Ok(Frame::Hello(h)) => assert!(same_addr(&h.addr(), &addr)),
        _ => panic!("Hello did not decode to Hello"),
    }
}

#[cfg(kompact_verif_net)]
pub fn hello_v4<S: Src>(s: &mut S) {
    let a = SocketAddr::new(IpAddr::V4(Ipv4Addr::from(s.u32())), s.u16());
    hello_body(a, s)
}

#[cfg(kompact_verif_net)]
pub fn hello_v6<S: Src>(s: &mut S) {
    let a = SocketAddr::new(IpAddr::V6(Ipv6Addr::from(s.u128())), s.u16());
    hello_body(a, s)
}

/// `Start` bodies decode to the address and session they were written from.
#[cfg(kompact_verif_net)]
fn start_body<S: Src>(addr: SocketAddr, s: &mut S) {
    let id = s.u128();
    let mut out = [0u8; 48];
    let mut w = &mut out[..];
    let mut f = Frame::Start(Start::new(addr, SessionId::from_u128(id)));
    let content = f.encoded_len();
    assert!(f.encode_into(&mut w).is_ok());
    let left = w.len();
    let mut spec = [0u8; 19];
    let k = spec_addr(&addr, &mut spec);
    let mut full = [0u8; 35];
    full[..k].copy_from_slice(&spec[..k]);
    full[k..k + 16].copy_from_slice(&id.to_be_bytes());
    assert!(content == k + 16 && 48 - left == 9 + k + 16);
    assert!(s.same(&out[..9], &spec_head(5, k as u32 + 16)));
    assert!(s.same(&out[9..9 + k + 16], &full[..k + 16]));
    match kompact::verif_hooks::net::decode_start(lease_of(&full[..k + 16])) {
        Ok(Frame::Start(st)) => {
            assert!(same_addr(&st.addr(), &addr));
            assert!(st.id().as_u128() == id);
        }
        _ => panic!("Start did not decode to Start"),
    }
}

#[cfg(kompact_verif_net)]
pub fn start_v4<S: Src>(s: &mut S) {
    let a = SocketAddr::new(IpAddr::V4(Ipv4Addr::from(s.u32())), s.u16());
    start_body(a, s)
}

#[cfg(kompact_verif_net)]
pub fn start_v6<S: Src>(s: &mut S) {
    let a = SocketAddr::new(IpAddr::V6(Ipv6Addr::from(s.u128())), s.u16());
    start_body(a, s)
}

#[cfg(kani)]
mod proofs {
    crate::harness!(frames::frame_type_bytes, 4);
    #[cfg(kompact_verif_net)]
    mod hooked {
        crate::harness!(frames::hello_v4, 3);
        crate::harness!(frames::hello_v6, 3);
        crate::harness!(frames::start_v4, 3);
        crate::harness!(frames::start_v6, 3);
        crate::harness!(frames::head_round_trip, 3);
        crate::harness!(frames::head_decode_total, 3);
    }
}
