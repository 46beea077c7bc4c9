//! C03, C05, C06: system and actor paths on the wire, as text, and their validity rules.
use crate::{frames::same_addr, nondet::*};
use bytes::{Buf, BufMut};
use kompact::{
    messaging::bitfields::{BitField, BitFieldExt},
    prelude::*,
    prelude_bench::{parse_path, validate_insert_path, validate_lookup_path},
};
use std::{
    convert::TryFrom,
    net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr},
    str::FromStr,
};
use uuid::Uuid;

pub fn any_transport<S: Src>(s: &mut S) -> Transport {
    match s.upto(2) {
        0 => Transport::Local,
        1 => Transport::Tcp,
        _ => Transport::Udp,
    }
}

pub fn any_ip<S: Src>(s: &mut S) -> IpAddr {
    if s.bool() {
        IpAddr::V4(Ipv4Addr::from(s.u32()))
    } else {
        let mut v = s.u128();
        if !S::SYMBOLIC && s.bool() {
            // also addresses with zero runs and mapped addresses
            v = match s.upto(3) {
                0 => v & 0xFFFF_FFFF,
                1 => (v & 0xFFFF_FFFF) | 0xFFFF_0000_0000,
                2 => v & 0xFFFF_0000_0000_FFFF_0000_0000_FFFF_0000,
                _ => v << 96,
            };
        }
        IpAddr::V6(Ipv6Addr::from(v))
    }
}

pub fn any_system<S: Src>(s: &mut S) -> SystemPath {
    SystemPath::new(any_transport(s), any_ip(s), s.u16())
}

pub fn same_system(a: &SystemPath, b: &SystemPath) -> bool {
    a.protocol() as u8 == b.protocol() as u8
        && same_addr(
            &SocketAddr::new(*a.address(), a.port()),
            &SocketAddr::new(*b.address(), b.port()),
        )
}

const CHARS: [char; 24] = [
    'a', 'Z', '7', '-', '_', '.', ' ', ':', '%', '[', ']', '@', '\\', '"', '\n', '\u{0}', 'é', 'ß',
    '中', '🦀', '\u{301}', '\u{FEFF}', '\u{10FFFF}', '=',
];
const SPECIAL: [char; 4] = ['/', '#', '*', '?'];

/// An arbitrary non-empty string without reserved characters.
pub fn any_segment<S: Src>(s: &mut S) -> String {
    let n = 1 + if s.upto(40) == 0 { s.upto(600) } else { s.upto(6) };
    (0..n).map(|_| CHARS[s.upto(23)]).collect()
}

/// Any string, with reserved characters mixed in, possibly empty.
pub fn any_string<S: Src>(s: &mut S, max: usize) -> String {
    let n = s.upto(max);
    (0..n)
        .map(|_| {
            if s.upto(3) == 0 {
                SPECIAL[s.upto(3)]
            } else {
                CHARS[s.upto(23)]
            }
        })
        .collect()
}

/// A path that is valid for insertion.
pub fn any_insert_path<S: Src>(s: &mut S) -> Vec<String> {
    let n = s.upto(5);
    (0..n).map(|_| any_segment(s)).collect()
}

/// A path that is valid for lookup: possibly ending in a routing marker.
pub fn any_lookup_path<S: Src>(s: &mut S) -> Vec<String> {
    let mut p = any_insert_path(s);
    match s.upto(3) {
        0 => p.push("*".into()),
        1 => p.push("?".into()),
        _ => {}
    }
    p
}

pub fn any_actor_path<S: Src>(s: &mut S) -> ActorPath {
    let sys = any_system(s);
    if s.bool() {
        ActorPath::Unique(UniquePath::with_system(sys, Uuid::from_u128(s.u128())))
    } else {
        ActorPath::Named(NamedPath::with_system(sys, any_lookup_path(s)))
    }
}

/// The documented wire image of a system path.
pub fn spec_system(path_type: u8, p: &SystemPath) -> ([u8; 19], usize) {
    let mut out = [0u8; 19];
    let proto = match p.protocol() {
        Transport::Local => 0u8,
        Transport::Tcp => 1,
        Transport::Udp => 2,
    };
    let port = p.port().to_be_bytes();
    match p.address() {
        IpAddr::V4(a) => {
            out[0] = path_type << 7 | proto;
            out[1..5].copy_from_slice(&a.octets());
            out[5..7].copy_from_slice(&port);
            (out, 7)
        }
        IpAddr::V6(a) => {
            out[0] = path_type << 7 | 1 << 5 | proto;
            out[1..17].copy_from_slice(&a.octets());
            out[17..19].copy_from_slice(&port);
            (out, 19)
        }
    }
}

/// Serialises into a fixed array; returns the number of bytes written.
fn ser_into(v: &dyn Serialisable, out: &mut [u8]) -> Result<usize, SerError> {
    let total = out.len();
    let mut w: &mut [u8] = out;
    v.serialise(&mut w)?;
    let left = w.remaining_mut();
    Ok(total - left)
}

/// Every system path is written in the documented format and read back unchanged, wherever it
/// stands in a longer buffer; every strict prefix is an error.
fn system_body<S: Src>(s: &mut S, sys: SystemPath) {
    let mut out = [0xEEu8; 24];
    let n = ser_into(&sys, &mut out).expect("system paths always serialise");
    let (img, len) = spec_system(0, &sys);
    assert!(n == len && sys.size_hint() == Some(n));
    let i = s.upto(18);
    assert!(i >= len || out[i] == img[i]);
    let mut r: &[u8] = &out[..n + 3];
    let back = SystemPath::deserialise(&mut r).expect("own bytes are accepted");
    assert!(r.remaining() == 3);
    assert!(same_system(&back, &sys));
    let cut = if S::SYMBOLIC { n } else { s.upto(18) };
    if cut < n {
        let mut r: &[u8] = &out[..cut];
        assert!(SystemPath::deserialise(&mut r).is_err());
    }
}

/// Under the verifier the shape of a path is concrete, everything in it symbolic.
fn shapes<S: Src>(s: &mut S, a: IpAddr, body: impl Fn(&mut S, SystemPath)) {
    let port = s.u16();
    if S::SYMBOLIC {
        body(s, SystemPath::new(Transport::Local, a, port));
        body(s, SystemPath::new(Transport::Tcp, a, port));
        body(s, SystemPath::new(Transport::Udp, a, port));
    } else {
        let t = any_transport(s);
        body(s, SystemPath::new(t, a, port))
    }
}

pub fn system_v4<S: Src>(s: &mut S) {
    let a = IpAddr::V4(Ipv4Addr::from(s.u32()));
    shapes(s, a, system_body)
}
pub fn system_v6<S: Src>(s: &mut S) {
    let a = IpAddr::V6(Ipv6Addr::from(s.u128()));
    shapes(s, a, system_body)
}

fn unique_body<S: Src>(s: &mut S, sys: SystemPath) {
    let id = s.u128();
    let up = ActorPath::Unique(UniquePath::with_system(sys.clone(), Uuid::from_u128(id)));
    let mut out = [0xEEu8; 40];
    let n = ser_into(&up, &mut out).expect("unique paths always serialise");
    let (img, len) = spec_system(0, &sys);
    assert!(n == len + 16 && up.size_hint() == Some(n));
    let i = s.upto(18);
    assert!(i >= len || out[i] == img[i]);
    let i = s.upto(15);
    assert!(out[len + i] == (id >> (8 * (15 - i))) as u8);
    let mut r: &[u8] = &out[..n + 3];
    match ActorPath::deserialise(&mut r) {
        Ok(ActorPath::Unique(b)) => {
            assert!(same_system(b.system(), &sys));
            assert!(b.id().as_u128() == id);
        }
        _ => panic!("own bytes are accepted"),
    }
    assert!(r.remaining() == 3);
    let cut = if S::SYMBOLIC { n } else { s.upto(34) };
    if cut < n {
        let mut r: &[u8] = &out[..cut];
        assert!(ActorPath::deserialise(&mut r).is_err());
    }
}

pub fn unique_v4<S: Src>(s: &mut S) {
    let a = IpAddr::V4(Ipv4Addr::from(s.u32()));
    shapes(s, a, unique_body)
}
pub fn unique_v6<S: Src>(s: &mut S) {
    let a = IpAddr::V6(Ipv6Addr::from(s.u128()));
    shapes(s, a, unique_body)
}

/// Named paths: header bit 7, then a 16-bit length and the segments joined by slashes.
pub fn named_wire<S: Src>(s: &mut S) {
    let sys = any_system(s);
    let segs = any_lookup_path(s);
    let joined = segs.join("/");
    let p = ActorPath::Named(NamedPath::with_system(sys.clone(), segs.clone()));
    let mut buf: Vec<u8> = Vec::new();
    let r = p.serialise(&mut buf);
    if joined.len() > u16::MAX as usize {
        assert!(r.is_err());
        return;
    }
    r.expect("named paths that fit serialise");
    let (img, len) = spec_system(1, &sys);
    let mut want = img[..len].to_vec();
    want.extend_from_slice(&(joined.len() as u16).to_be_bytes());
    want.extend_from_slice(joined.as_bytes());
    assert_eq!(buf, want);
    buf.extend_from_slice(b"xyz");
    let mut r: &[u8] = &buf;
    let back = ActorPath::deserialise(&mut r).expect("own bytes are accepted");
    assert_eq!(back, p);
    assert_eq!(back.unwrap_named().path_ref(), &segs[..]);
    assert_eq!(r.remaining(), 3);
    let cut = s.upto(want.len() - 1);
    let mut r: &[u8] = &want[..cut];
    assert!(ActorPath::deserialise(&mut r).is_err());
}

/// Names longer than the length field are refused, the longest ones are not.
pub fn named_limit<S: Src>(s: &mut S) {
    let n = 65530 + s.upto(10);
    let p = ActorPath::Named(NamedPath::with_system(any_system(s), vec!["n".repeat(n)]));
    let mut buf: Vec<u8> = Vec::new();
    let r = p.serialise(&mut buf);
    if n > u16::MAX as usize {
        assert!(r.is_err());
    } else {
        r.expect("fits");
        let mut r: &[u8] = &buf;
        assert_eq!(ActorPath::deserialise(&mut r).expect("own bytes"), p);
    }
}

/// A path header byte is accepted iff its three fields have a documented value.
pub fn header_total<S: Src>(s: &mut S) {
    let b = s.u8();
    let r = kompact::messaging::framing::SystemPathHeader::try_from(b);
    let proto = b & 0x1F;
    let addr = b >> 5 & 3;
    assert!(r.is_ok() == (proto <= 2 && addr <= 1));
    if let Ok(h) = r {
        let mut out = [0u8; 1];
        h.put_into(&mut &mut out[..]);
        assert!(out[0] == b);
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub struct Field<const POS: usize, const WIDTH: usize>(pub u8);
impl<const POS: usize, const WIDTH: usize> BitField for Field<POS, WIDTH> {
    const POS: usize = POS;
    const WIDTH: usize = WIDTH;
}
impl<const POS: usize, const WIDTH: usize> From<Field<POS, WIDTH>> for u8 {
    fn from(f: Field<POS, WIDTH>) -> u8 {
        f.0
    }
}
impl<const POS: usize, const WIDTH: usize> From<u8> for Field<POS, WIDTH> {
    fn from(f: u8) -> Self {
        Field(f)
    }
}

/// A stored field reads back as its low bits and leaves every other bit alone.
fn field_body<S: Src, const P: usize, const W: usize>(s: &mut S) {
    let before: [u8; 3] = s.arr();
    let v = s.u8();
    let mut a = before;
    a[..].store(Field::<P, W>(v)).expect("the field lies inside the storage");
    let mask = if W >= 8 { 0xFFu8 } else { (1u8 << W) - 1 };
    let got = a[..].get_as::<Field<P, W>>().expect("the field lies inside the storage");
    assert!(got.0 == v & mask);
    let was = u32::from_le_bytes([before[0], before[1], before[2], 0]);
    let now = u32::from_le_bytes([a[0], a[1], a[2], 0]);
    assert!(now == was & !((mask as u32) << P) | ((v & mask) as u32) << P);
}
pub fn bitfields<S: Src>(s: &mut S) {
    field_body::<S, 7, 1>(s);
    field_body::<S, 5, 2>(s);
    field_body::<S, 0, 5>(s);
    field_body::<S, 6, 8>(s);
    field_body::<S, 13, 3>(s);
    let mut a = [0u8; 1];
    assert!(a[..].store(Field::<6, 3>(s.u8())).is_err());
    assert!(a[..].get_as::<Field<0, 9>>().is_err());
    assert!(a[0] == 0);
}

// ---- C05: text ------------------------------------------------------------------------------

fn spec_system_text(p: &SystemPath) -> String {
    let t = match p.protocol() {
        Transport::Local => "local",
        Transport::Tcp => "tcp",
        Transport::Udp => "udp",
    };
    format!("{}://{}", t, SocketAddr::new(*p.address(), p.port()))
}

/// Printing a path and parsing the text gives the same path, by every route.
pub fn text_round_trip<S: Src>(s: &mut S) {
    let p = any_actor_path(s);
    let text = p.to_string();
    let want = match &p {
        ActorPath::Unique(u) => format!("{}#{}", spec_system_text(p.system()), u.id()),
        ActorPath::Named(n) => n
            .path_ref()
            .iter()
            .fold(spec_system_text(p.system()), |acc, x| acc + "/" + x),
    };
    assert_eq!(text, want);
    let back: ActorPath = text.parse().expect("printed paths parse");
    assert_eq!(back, p);
    assert_eq!(ActorPath::try_from(text.clone()).expect("printed paths parse"), p);
    match p {
        ActorPath::Unique(u) => {
            assert_eq!(UniquePath::from_str(&text).expect("printed"), u);
            assert_eq!(UniquePath::try_from(text.clone()).expect("printed"), u);
            assert!(NamedPath::from_str(&text).is_err());
        }
        ActorPath::Named(n) => {
            assert_eq!(NamedPath::from_str(&text).expect("printed"), n);
            assert_eq!(NamedPath::try_from(text.clone()).expect("printed"), n);
            assert!(UniquePath::from_str(&text).is_err());
        }
    }
}

pub fn transport_text<S: Src>(s: &mut S) {
    let t = any_transport(s);
    assert_eq!(t.to_string().parse::<Transport>().expect("printed"), t);
    assert_eq!(t.is_local(), t == Transport::Local);
    assert_eq!(t.is_remote(), t != Transport::Local);
    let junk = any_string(s, 6);
    assert_eq!(
        junk.parse::<Transport>().is_ok(),
        ["local", "tcp", "udp"].contains(&junk.as_str())
    );
}

/// Arbitrary text either fails with an error or is accepted and denotes a path that prints and
/// parses as itself.
pub fn text_total<S: Src>(s: &mut S) {
    let text = match s.upto(2) {
        0 => any_string(s, 24),
        1 => {
            // a printed path with some characters replaced, removed or doubled
            let mut t: Vec<char> = any_actor_path(s).to_string().chars().collect();
            for _ in 0..=s.upto(2) {
                let i = s.upto(t.len() - 1);
                match s.upto(2) {
                    0 => t[i] = CHARS[s.upto(23)],
                    1 => t[i] = SPECIAL[s.upto(3)],
                    _ => {
                        let c = t[i];
                        t.insert(i, c);
                    }
                }
            }
            t.into_iter().collect()
        }
        _ => format!("tcp://127.0.0.1:80/{}", any_string(s, 16)),
    };
    if let Ok(p) = ActorPath::from_str(&text) {
        let again = ActorPath::from_str(&p.to_string()).expect("printed paths parse");
        assert_eq!(again, p);
        if let ActorPath::Named(n) = &p {
            assert!(spec_lookup_ok(n.path_ref()), "accepted an illegal path {:?}", text);
            let joined = n.path_ref().iter().fold(String::new(), |a, x| a + "/" + x);
            assert!(text.ends_with(&joined), "segments kept verbatim");
        }
    }
}

// ---- C06: validity --------------------------------------------------------------------------

fn reserved(c: char) -> bool {
    SPECIAL.contains(&c)
}
pub fn spec_insert_ok(p: &[String]) -> bool {
    p.iter().all(|x| !x.is_empty() && !x.chars().any(reserved))
}
pub fn spec_lookup_ok(p: &[String]) -> bool {
    match p.split_last() {
        None => true,
        Some((last, init)) => {
            spec_insert_ok(init)
                && (last == "*" || last == "?" || spec_insert_ok(std::slice::from_ref(last)))
        }
    }
}

fn any_raw_path<S: Src>(s: &mut S) -> Vec<String> {
    let mut p = any_lookup_path(s);
    for _ in 0..s.upto(2) {
        let i = s.upto(p.len());
        let seg = match s.upto(4) {
            0 => "*".to_string(),
            1 => "?".to_string(),
            2 => String::new(),
            3 => any_string(s, 3),
            _ => {
                let mut x: Vec<char> = any_segment(s).chars().collect();
                let at = s.upto(x.len());
                x.insert(at, SPECIAL[s.upto(3)]);
                x.into_iter().collect()
            }
        };
        if s.bool() || i == p.len() {
            p.insert(i, seg);
        } else {
            p[i] = seg;
        }
    }
    p
}

/// The validity checks decide exactly the documented rules.
pub fn validity_exact<S: Src>(s: &mut S) {
    let p = any_raw_path(s);
    assert_eq!(validate_lookup_path(&p).is_ok(), spec_lookup_ok(&p), "lookup {:?}", p);
    assert_eq!(validate_insert_path(&p).is_ok(), spec_insert_ok(&p), "insert {:?}", p);
}

/// Every way of extending a named path yields a path valid for lookup, or an error.
pub fn path_building<S: Src>(s: &mut S) {
    let sys = any_system(s);
    let mut model = any_lookup_path(s);
    let mut p = NamedPath::with_system(sys.clone(), model.clone());
    for _ in 0..=s.upto(3) {
        if s.bool() {
            let seg = any_raw_path(s).pop().unwrap_or_default();
            let mut want = model.clone();
            want.push(seg.clone());
            let r = p.push(seg);
            assert_eq!(r.is_ok(), spec_lookup_ok(&want), "push {:?}", want);
            if r.is_ok() {
                model = want;
            }
        } else {
            let ext = any_raw_path(s).join("/");
            let mut want = model.clone();
            want.extend(ext.split('/').map(|x| x.to_string()));
            let r = p.clone().append(&ext);
            assert_eq!(r.is_ok(), spec_lookup_ok(&want), "append {:?}", want);
            if let Ok(q) = r {
                assert_eq!(q, p.clone() / ext.as_str());
                p = q;
                model = want;
            }
        }
        assert_eq!(p.path_ref(), &model[..]);
        assert!(same_system(p.system(), &sys));
    }
    let t = model.join("/");
    let r = sys.clone().into_named_with_string(&t);
    let want: Vec<String> = t.split('/').map(|x| x.to_string()).collect();
    assert_eq!(r.is_ok(), spec_lookup_ok(&want));
    let raw = any_raw_path(s);
    let r = sys.into_named_with_vec(raw.clone());
    assert_eq!(r.is_ok(), spec_lookup_ok(&raw));
    if let Ok(q) = r {
        assert_eq!(q.path_ref(), &raw[..]);
    }
    assert_eq!(parse_path(&t), want);
}

/// A path that fails validation is never decoded from the wire.
pub fn wire_validity<S: Src>(s: &mut S) {
    let sys = any_system(s);
    let raw = any_raw_path(s);
    let joined = raw.join("/");
    let (img, len) = spec_system(1, &sys);
    let mut bytes = img[..len].to_vec();
    bytes.put_u16(joined.len() as u16);
    bytes.put_slice(joined.as_bytes());
    let mut r: &[u8] = &bytes;
    let want: Vec<String> = if joined.is_empty() {
        vec![]
    } else {
        joined.split('/').map(|x| x.to_string()).collect()
    };
    match ActorPath::deserialise(&mut r) {
        Ok(p) => {
            assert!(spec_lookup_ok(&want));
            assert_eq!(p.unwrap_named().path_ref(), &want[..]);
        }
        Err(_) => assert!(!spec_lookup_ok(&want)),
    }
}

/// All segments of up to `N` bytes, for the verifier.
pub fn short_segments<S: Src>(s: &mut S) {
    const N: usize = 2;
    let bytes: [u8; N] = s.arr();
    let n = s.upto(N);
    let mut i = 0;
    while i < N {
        s.assume(bytes[i] < 0x80);
        i += 1;
    }
    let seg = std::str::from_utf8(&bytes[..n]).expect("ascii").to_string();
    let res = |b: u8| b == b'/' || b == b'#' || b == b'*' || b == b'?';
    let plain = n > 0 && !(n > 0 && res(bytes[0])) && !(n > 1 && res(bytes[1]));
    let marker = n == 1 && (bytes[0] == b'*' || bytes[0] == b'?');
    let p = [seg];
    assert!(validate_insert_path(&p).is_ok() == plain);
    assert!(validate_lookup_path(&p).is_ok() == (plain || marker));
}

#[cfg(kani)]
mod proofs {
    crate::harness!(paths::system_v4, 9);
    crate::harness!(paths::system_v6, 9);
    crate::harness!(paths::unique_v4, 9);
    crate::harness!(paths::unique_v6, 9);
    crate::harness!(paths::bitfields, 9);
    crate::harness!(paths::short_segments, 4);
}
