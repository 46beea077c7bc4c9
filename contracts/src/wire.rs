//! C04, C07, C08, C09: values and messages in serialised form.
use crate::{nondet::*, paths::*};
use bytes::{Buf, BufMut, Bytes, BytesMut};
use kompact::{
    match_deser,
    messaging::{HeapOrSer, NetData, Serialised, SerialisedFrame},
    net::{buffers::*, frames::*},
    prelude::{ser_helpers::*, *},
    serde_serialisers::Serde,
};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};

// ---- values ---------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Unit;
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Newtype(pub u16);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Pair(pub i8, pub String);
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum Choice {
    A,
    B(u32),
    C(i64, bool),
    D { x: f64, y: Option<Box<Choice>> },
    E(Vec<Choice>),
}
/// One field of every shape the serialiser distinguishes.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Every {
    a: (u8, u16, u32, u64),
    b: (i8, i16, i32, i64),
    c: f32,
    d: f64,
    e: char,
    f: bool,
    g: String,
    h: Option<u16>,
    i: Vec<i32>,
    j: BTreeMap<String, Vec<u8>>,
    k: Choice,
    l: Unit,
    m: Newtype,
    n: Pair,
    o: (),
    p: Option<Option<String>>,
    q: [u16; 3],
    r: Vec<Option<Choice>>,
    s: HashMap<u8, Choice>,
    t: Blob,
    u: Result<u8, String>,
}

/// A byte string that goes through `serialize_bytes`/`deserialize_byte_buf`.
#[derive(Debug, Clone, PartialEq)]
pub struct Blob(pub Vec<u8>);
impl Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Blob;
            fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> Result<Blob, E> {
                Ok(Blob(v.to_vec()))
            }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Blob, E> {
                Ok(Blob(v))
            }
        }
        d.deserialize_byte_buf(V)
    }
}

impl SerialisationId for Every {
    const SER_ID: SerId = 901;
}
impl SerialisationId for Choice {
    const SER_ID: SerId = 902;
}

pub fn any_char<S: Src>(s: &mut S) -> char {
    char::from_u32(s.u32() % 0x11_0000).unwrap_or('\u{FFFD}')
}
pub fn any_text<S: Src>(s: &mut S) -> String {
    let n = if s.upto(30) == 0 { s.upto(3000) } else { s.upto(12) };
    (0..n).map(|_| any_char(s)).collect()
}
fn any_vec<S: Src, T>(s: &mut S, max: usize, f: impl Fn(&mut S) -> T) -> Vec<T> {
    let n = s.upto(max);
    (0..n).map(|_| f(s)).collect()
}
pub fn any_choice<S: Src>(s: &mut S, depth: usize) -> Choice {
    match s.upto(if depth == 0 { 2 } else { 4 }) {
        0 => Choice::A,
        1 => Choice::B(s.u32()),
        2 => Choice::C(s.u64() as i64, s.bool()),
        3 => Choice::D {
            x: f64::from_bits(s.u64() & 0x7FEF_FFFF_FFFF_FFFF),
            y: if s.bool() { Some(Box::new(any_choice(s, depth - 1))) } else { None },
        },
        _ => Choice::E(any_vec(s, 3, |s| any_choice(s, depth - 1))),
    }
}
pub fn any_every<S: Src>(s: &mut S) -> Every {
    Every {
        a: (s.u8(), s.u16(), s.u32(), s.u64()),
        b: (s.u8() as i8, s.u16() as i16, s.u32() as i32, s.u64() as i64),
        c: f32::from_bits(s.u32() & 0xFF7F_FFFF),
        d: f64::from_bits(s.u64() & 0xFFEF_FFFF_FFFF_FFFF),
        e: any_char(s),
        f: s.bool(),
        g: any_text(s),
        h: if s.bool() { Some(s.u16()) } else { None },
        i: any_vec(s, 5, |s| s.u32() as i32),
        j: any_vec(s, 3, |s| (any_text(s), any_vec(s, 4, |s| s.u8()))).into_iter().collect(),
        k: any_choice(s, 3),
        l: Unit,
        m: Newtype(s.u16()),
        n: Pair(s.u8() as i8, any_text(s)),
        o: (),
        p: match s.upto(2) {
            0 => None,
            1 => Some(None),
            _ => Some(Some(any_text(s))),
        },
        q: [s.u16(), s.u16(), s.u16()],
        r: any_vec(s, 3, |s| if s.bool() { Some(any_choice(s, 1)) } else { None }),
        s: any_vec(s, 4, |s| (s.u8(), any_choice(s, 1))).into_iter().collect(),
        t: Blob(any_vec(s, 40, |s| s.u8())),
        u: if s.bool() { Ok(s.u8()) } else { Err(any_text(s)) },
    }
}

fn encode_buffer<S: Src>(s: &mut S) -> EncodeBuffer {
    let mut cfg = BufferConfig::default();
    cfg.chunk_size(128 + s.upto(100));
    cfg.encode_buf_min_free_space(s.upto(127));
    cfg.initial_chunk_count(1);
    cfg.max_chunk_count(4000);
    EncodeBuffer::with_config(&cfg, &None)
}

/// `bytes` behind one of the buffer types values are read from, cut at arbitrary places.
/// Also returns what keeps the memory alive.
fn any_buf<S: Src>(s: &mut S, bytes: &[u8]) -> (Box<dyn Buf>, EncodeBuffer) {
    let mut eb = encode_buffer(s);
    let b: Box<dyn Buf> = match s.upto(4) {
        0 => Box::new(Bytes::copy_from_slice(bytes)),
        1 => {
            let k = s.upto(bytes.len());
            let l = k + s.upto(bytes.len() - k);
            let part = |a: usize, b: usize| Bytes::copy_from_slice(&bytes[a..b]);
            Box::new(part(0, k).chain(part(k, l)).chain(part(l, bytes.len())))
        }
        2 if !bytes.is_empty() => Box::new(lease(&mut eb, bytes, s.upto(1))),
        _ if !bytes.is_empty() => Box::new(chunk_ref(s, &mut eb, bytes)),
        _ => Box::new(Bytes::new()),
    };
    (b, eb)
}

/// A lease holding `bytes`, which spans chunks if it is longer than one.
fn lease(eb: &mut EncodeBuffer, bytes: &[u8], by_byte: usize) -> ChunkLease {
    let mut e = eb.get_buffer_encoder().expect("memory");
    if by_byte == 1 {
        for b in bytes {
            e.put_u8(*b)
        }
    } else {
        e.put_slice(bytes);
    }
    e.get_chunk_lease().expect("memory")
}

/// A reference to `bytes`, possibly of several pieces.
fn chunk_ref<S: Src>(s: &mut S, eb: &mut EncodeBuffer, bytes: &[u8]) -> ChunkRef {
    let k = s.upto(bytes.len() - 1);
    let tail = lease(eb, &bytes[k..], 0).into_chunk_ref();
    if k == 0 {
        return tail;
    }
    lease(eb, &bytes[..k], 0).into_chunk_ref_with_tail(tail)
}

/// Serialising and deserialising gives the value back, from every kind of buffer, without
/// touching the bytes that follow it; a truncated image is an error.
fn round_trip<S: Src, T, D>(s: &mut S, v: &dyn Serialisable, same: impl Fn(&T) -> bool)
where
    D: Deserialiser<T>,
{
    assert!(v.ser_id() == D::SER_ID);
    let mut image: Vec<u8> = Vec::new();
    v.serialise(&mut image).expect("serialises");
    // the same bytes through every kind of target
    let mut bm = BytesMut::with_capacity(1);
    v.serialise(&mut bm).expect("serialises");
    assert!(bm[..] == image[..]);
    let mut eb = encode_buffer(s);
    {
        let mut e = eb.get_buffer_encoder().expect("memory");
        v.serialise(&mut e).expect("serialises");
        if !image.is_empty() {
            let l = e.get_chunk_lease().expect("memory");
            assert!(l.create_byte_clone()[..] == image[..]);
        }
    }
    let n = image.len();
    let tail = s.upto(9);
    image.extend((0..tail).map(|i| 0xA0 + i as u8));
    let (mut b, _keep) = any_buf(s, &image);
    let back = D::deserialise(&mut *b).expect("own bytes are accepted");
    assert!(same(&back), "a value changed on its way through its bytes");
    assert!(b.remaining() == tail, "read {} of {} bytes", image.len() - b.remaining(), n);
    for i in 0..tail {
        assert!(b.get_u8() == 0xA0 + i as u8);
    }
    if n > 0 {
        let cut = s.upto(n - 1);
        let (mut b, _keep) = any_buf(s, &image[..cut]);
        assert!(D::deserialise(&mut *b).is_err(), "accepted {} of {} bytes", cut, n);
    }
}

pub fn builtin_values<S: Src>(s: &mut S) {
    match s.upto(3) {
        0 => {
            let v = s.u64();
            round_trip::<S, u64, u64>(s, &v, |b| *b == v)
        }
        1 => {
            let v = any_text(s);
            round_trip::<S, String, String>(s, &v.clone(), |b| *b == v)
        }
        2 => round_trip::<S, (), ()>(s, &(), |_| true),
        _ => {
            let v = any_actor_path(s);
            round_trip::<S, ActorPath, ActorPath>(s, &v.clone(), |b| *b == v);
            let v = any_system(s);
            round_trip::<S, SystemPath, SystemPath>(s, &v.clone(), |b| *b == v)
        }
    }
}

pub fn serde_values<S: Src>(s: &mut S) {
    let v = any_every(s);
    let w = v.clone();
    let sv: SerialisableValue<Every, Serde> = (v, Serde).into();
    round_trip::<S, Every, Serde>(s, &sv, |b| *b == w)
}

pub fn serde_enums<S: Src>(s: &mut S) {
    let v = any_choice(s, 4);
    let w = v.clone();
    let sv: SerialisableValue<Choice, Serde> = (v, Serde).into();
    round_trip::<S, Choice, Serde>(s, &sv, |b| *b == w)
}

/// One-off serialisation yields the id and the bytes of the value.
pub fn serialised_helpers<S: Src>(s: &mut S) {
    let v = any_choice(s, 3);
    let mut image: Vec<u8> = Vec::new();
    Serde.serialise(&v, &mut image).expect("serialises");
    let check = |x: Result<Serialised, SerError>| {
        let x = x.expect("serialises");
        assert!(x.ser_id == 902 && x.data[..] == image[..]);
    };
    check(serialiser_to_serialised(&v, &Serde));
    check(Serialised::try_from((&v, &Serde)));
    let sv: SerialisableValue<Choice, Serde> = (v.clone(), Serde).into();
    check(serialise_to_serialised(&sv));
    check(sv.serialised());
    check(Serialised::try_from(&sv as &dyn Serialisable));
    let m = serialise_to_msg(any_actor_path(s), any_actor_path(s), Box::new(sv)).expect("serialises");
    assert!(*m.ser_id() == 902);
    assert!(m.try_deserialise::<Choice, Serde>().expect("own bytes") == v);
}

// ---- C04 ------------------------------------------------------------------------------------

fn any_bytes<S: Src>(s: &mut S, max: usize) -> Vec<u8> {
    let n = s.upto(max);
    (0..n).map(|_| s.u8()).collect()
}

/// A valid image with some bytes changed, cut or inserted, or plain noise.
fn mangle<S: Src>(s: &mut S, mut v: Vec<u8>) -> Vec<u8> {
    if s.upto(5) == 0 {
        return any_bytes(s, 90);
    }
    for _ in 0..=s.upto(3) {
        if v.is_empty() {
            break;
        }
        let i = if s.bool() { s.upto(v.len() - 1) } else { s.upto((v.len() - 1).min(60)) };
        match s.upto(4) {
            0 => v[i] = s.u8(),
            1 => v[i] ^= 1 << s.upto(7),
            2 => v.truncate(i),
            3 => v.insert(i, s.u8()),
            _ => {
                // a hostile length
                let k = (i + 8).min(v.len());
                for (j, b) in v[i..k].iter_mut().enumerate() {
                    *b = [0u8, 0, 0, 0, 0xFF, 0xFF, 0xFF, 0xF0][j] | if j > 5 { s.u8() } else { 0 };
                }
            }
        }
    }
    v
}

/// Deserialisers answer any bytes with a value or an error.
pub fn values_total<S: Src>(s: &mut S) {
    let mut v: Vec<u8> = Vec::new();
    match s.upto(4) {
        0 => any_every_image(s, &mut v),
        1 => Serde.serialise(&any_choice(s, 3), &mut v).unwrap(),
        2 => any_actor_path(s).serialise(&mut v).unwrap_or(()),
        3 => any_text(s).serialise(&mut v).unwrap(),
        _ => any_system(s).serialise(&mut v).unwrap(),
    }
    let v = mangle(s, v);
    let which = s.upto(6);
    let (mut b, _keep) = any_buf(s, &v);
    let b = &mut *b;
    match which {
        0 => drop(<Serde as Deserialiser<Every>>::deserialise(b)),
        1 => drop(<Serde as Deserialiser<Choice>>::deserialise(b)),
        2 => {
            if let Ok(p) = ActorPath::deserialise(b) {
                let mut again: Vec<u8> = Vec::new();
                p.serialise(&mut again).expect("a path that was read can be written");
                assert!(again[..] == v[..again.len()], "accepted a path that is written differently");
            }
        }
        3 => drop(String::deserialise(b)),
        4 => drop(SystemPath::deserialise(b)),
        5 => drop(u64::deserialise(b)),
        _ => drop(<()>::deserialise(b)),
    }
}

fn any_every_image<S: Src>(s: &mut S, v: &mut Vec<u8>) {
    Serde.serialise(&any_every(s), v).unwrap()
}

/// Whole messages of arbitrary bytes are unpacked or refused, by every entry point alike.
pub fn messages_total<S: Src>(s: &mut S) {
    let mut v: Vec<u8> = Vec::new();
    any_actor_path(s).serialise(&mut v).unwrap_or(());
    any_actor_path(s).serialise(&mut v).unwrap_or(());
    v.put_ser_id(match s.upto(3) {
        0 => 901,
        1 => 902,
        2 => String::SER_ID,
        _ => s.u64(),
    });
    Serde.serialise(&any_choice(s, 2), &mut v).unwrap();
    let v = mangle(s, v);
    let mut eb = encode_buffer(s);
    let a = deserialise_bytes(Bytes::copy_from_slice(&v));
    if v.is_empty() {
        assert!(a.is_err());
        return;
    }
    let b = deserialise_chunk_lease(lease(&mut eb, &v, 0));
    let c = deserialise_chunk_ref(chunk_ref(s, &mut eb, &v));
    match (a, b, c) {
        (Ok(a), Ok(b), Ok(c)) => {
            for m in [&b, &c] {
                assert!(a.sender == m.sender && a.receiver == m.receiver && a.ser_id() == m.ser_id());
            }
            let (x, y, z) = (data_of(a), data_of(b), data_of(c));
            assert!(x == y && y == z);
        }
        (Err(_), Err(_), Err(_)) => (),
        _ => panic!("the entry points disagree"),
    }
}

/// Takes the remaining bytes out of a message as some deserialiser would see them.
struct Raw;
impl Deserialiser<Vec<u8>> for Raw {
    const SER_ID: SerId = 0;
    fn deserialise(buf: &mut dyn Buf) -> Result<Vec<u8>, SerError> {
        let mut v = vec![0; buf.remaining()];
        buf.copy_to_slice(&mut v);
        Ok(v)
    }
}
fn data_of(m: NetMessage) -> Vec<u8> {
    m.try_deserialise_unchecked::<Vec<u8>, Raw>().expect("serialised")
}

/// Frames of arbitrary bytes are decoded, incomplete or refused, and control frames likewise.
pub fn frames_total<S: Src>(s: &mut S) {
    let mut v: Vec<u8> = Vec::new();
    for _ in 0..s.upto(3) {
        let mut body = any_bytes(s, 60);
        let t = s.upto(9) as u8;
        if t == 5 && s.bool() {
            let mut b = [0u8; 19];
            let k = crate::frames::spec_addr(&crate::frames::any_addr(s), &mut b);
            body = b[..k].to_vec();
            body.extend_from_slice(&any_bytes(s, 20));
        }
        v.extend_from_slice(&crate::frames::spec_head(t, body.len() as u32));
        v.extend_from_slice(&body);
    }
    let v = mangle(s, v);
    let mut cfg = BufferConfig::default();
    cfg.chunk_size(128 + s.upto(60));
    cfg.encode_buf_min_free_space(s.upto(60));
    let mut pool = BufferPool::with_config(&cfg, &None);
    let mut d = DecodeBuffer::new(pool.get_buffer().expect("memory"), &cfg);
    let mut at = 0;
    let mut steps = 0;
    while at < v.len() {
        steps += 1;
        assert!(steps < 100_000, "no progress");
        if let Some(w) = d.get_writeable() {
            let n = w.len().min(v.len() - at).min(1 + s.upto(63));
            w[..n].copy_from_slice(&v[at..at + n]);
            d.advance_writeable(n);
            at += n;
        } else {
            let mut b = match pool.get_buffer() {
                Some(b) => b,
                None => break,
            };
            d.swap_buffer(&mut b);
            pool.return_buffer(b);
        }
        loop {
            match d.get_frame() {
                Ok(f) => drop(f),
                Err(FramingError::NoData) => break,
                Err(_) => return, // the connection would be closed
            }
        }
    }
}

// ---- C08 ------------------------------------------------------------------------------------

/// A value with a caller-chosen id.
#[derive(Debug, Clone, PartialEq)]
pub struct Tagged<const ID: u64>(pub u64);
impl<const ID: u64> Serialisable for Tagged<ID> {
    fn ser_id(&self) -> SerId {
        ID
    }
    fn size_hint(&self) -> Option<usize> {
        Some(8)
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        buf.put_u64(self.0);
        Ok(())
    }
    fn local(self: Box<Self>) -> Result<Box<dyn std::any::Any + Send>, Box<dyn Serialisable>> {
        Ok(self)
    }
}
impl<const ID: u64> Deserialiser<Tagged<ID>> for Tagged<ID> {
    const SER_ID: SerId = ID;
    fn deserialise(buf: &mut dyn Buf) -> Result<Tagged<ID>, SerError> {
        if buf.remaining() < 8 {
            return Err(SerError::invalid_data("short"));
        }
        Ok(Tagged(buf.get_u64()))
    }
}

/// A message carrying `v` in one of the four representations.
fn message_of<S: Src>(s: &mut S, kind: usize, v: Box<dyn Serialisable>, from: ActorPath, to: ActorPath) -> (NetMessage, EncodeBuffer) {
    let mut eb = encode_buffer(s);
    let id = v.ser_id();
    let mut image: Vec<u8> = Vec::new();
    v.serialise(&mut image).unwrap();
    let m = match kind {
        0 => NetMessage::with_box(id, from, to, v),
        2 if !image.is_empty() => NetMessage::with_chunk_lease(id, from, to, lease(&mut eb, &image, 0)),
        3 if !image.is_empty() => {
            let r = chunk_ref(s, &mut eb, &image);
            NetMessage::with_chunk_ref(id, from, to, r)
        }
        _ => NetMessage::with_bytes(id, from, to, Bytes::from(image)),
    };
    (m, eb)
}

/// Unpacking to a type with another id returns the very same message; with the right id it gives
/// the value, however often that was tried before.
pub fn unpack_by_id<S: Src>(s: &mut S) {
    let x = s.u64();
    let (from, to) = (any_actor_path(s), any_actor_path(s));
    let kind = s.upto(3);
    let (mut m, _keep) = message_of(s, kind, Box::new(Tagged::<77>(x)), from.clone(), to.clone());
    let session = if s.bool() {
        let id = SessionId::from_u128(s.u128());
        m.set_session(id);
        Some(id)
    } else {
        None
    };
    for _ in 0..s.upto(3) {
        if s.upto(3) == 0 {
            m = match m.try_clone() {
                Ok(c) => c,
                Err(_) => panic!("messages can be cloned"),
            };
        }
        m = match s.upto(3) {
            0 => match m.try_deserialise::<Tagged<78>, Tagged<78>>() {
                Err(UnpackError::NoIdMatch(m)) => m,
                o => panic!("{:?}", o),
            },
            1 => match m.try_into_deserialised::<Tagged<78>, Tagged<78>>() {
                Err(UnpackError::NoIdMatch(m)) => m,
                _ => panic!("unpacked by the wrong id"),
            },
            2 => match m.try_deserialise::<String, String>() {
                Err(e) => e.get().expect("the message comes back"),
                o => panic!("{:?}", o),
            },
            _ => {
                let NetMessage { sender, receiver, data, session } = m;
                match data.try_deserialise::<u64, u64>() {
                    Err(UnpackError::NoIdMatch(data)) => NetMessage { sender, receiver, data, session },
                    o => panic!("{:?}", o),
                }
            }
        };
        assert!(*m.ser_id() == 77 && m.session() == session);
        assert!(m.sender == from && m.receiver == to && *m.sender() == from);
    }
    match s.upto(4) {
        0 => assert!(m.try_deserialise::<Tagged<77>, Tagged<77>>().expect("right id") == Tagged(x)),
        1 => {
            let d = m.try_into_deserialised::<Tagged<77>, Tagged<77>>().expect("right id");
            assert!(d.sender == from && d.receiver == to && d.content == Tagged(x));
        }
        2 => assert!(m.data.try_deserialise::<Tagged<77>, Tagged<77>>().expect("right id") == Tagged(x)),
        3 => assert!(
            m.try_deserialise_unchecked::<Tagged<77>, Tagged<77>>().expect("right id") == Tagged(x)
        ),
        _ => {
            let r = match_deser! {
                m {
                    msg(_a): Tagged<78> [using Tagged<78>] => panic!("matched the wrong id"),
                    msg(_b): u64 => panic!("matched the wrong id"),
                    msg(t): Tagged<77> [using Tagged<77>] => t.0,
                    err(e) => panic!("{:?}", e),
                    default(_) => panic!("matched no id"),
                }
            };
            assert!(r == x);
        }
    }
}

/// A message no branch of `match_deser!` names reaches the default branch untouched, and one
/// whose data does not fit its id reaches the error branch.
pub fn match_default<S: Src>(s: &mut S) {
    let x = s.u64();
    let (from, to) = (any_actor_path(s), any_actor_path(s));
    let kind = s.upto(3);
    let (m, _keep) = message_of(s, kind, Box::new(Tagged::<77>(x)), from, to);
    let r = match_deser! {
        m {
            msg(_a): Tagged<78> [using Tagged<78>] => 0,
            msg(_b): String => 1,
            err(_e) => 2,
            default(_) => 3,
        }
    };
    assert!(r == 3);
    let short = NetMessage::with_bytes(77, any_actor_path(s), any_actor_path(s), Bytes::from(vec![1; s.upto(7)]));
    let r = match_deser! {
        short {
            msg(_a): Tagged<78> [using Tagged<78>] => 0,
            msg(_b): Tagged<77> [using Tagged<77>] => 1,
            err(_e) => 2,
            default(_) => 3,
        }
    };
    assert!(r == 2);
}

/// All builtin values carry different ids, and reading by id always finds the type written.
pub fn builtin_ids<S: Src>(s: &mut S) {
    let kind = s.upto(3);
    let (from, to) = (any_actor_path(s), any_actor_path(s));
    let (p, sp, t, n) = (any_actor_path(s), any_system(s), any_text(s), s.u64());
    let which = s.upto(4);
    let v: Box<dyn Serialisable> = match which {
        0 => Box::new(p.clone()),
        1 => Box::new(sp.clone()),
        2 => Box::new(t.clone()),
        3 => Box::new(n),
        _ => Box::new(()),
    };
    let mut probe: Vec<u8> = Vec::new();
    s.assume(v.serialise(&mut probe).is_ok());
    let (m, _keep) = message_of(s, kind, v, from, to);
    let got = match_deser! {
        m {
            msg(x): SystemPath => { assert!(x == sp); 1 },
            msg(_x): () => 4,
            msg(x): u64 => { assert!(x == n); 3 },
            msg(x): String => { assert!(x == t); 2 },
            msg(x): ActorPath => { assert!(x == p); 0 },
            err(e) => panic!("{:?}", e),
            default(_) => panic!("no id matched"),
        }
    };
    assert!(got == which, "read type {} where {} was written", got, which);
}

// ---- C09 ------------------------------------------------------------------------------------

fn flat(f: &SerialisedFrame) -> Vec<u8> {
    match f {
        SerialisedFrame::Bytes(b) => b.to_vec(),
        SerialisedFrame::ChunkLease(l) => l.create_byte_clone().to_vec(),
        SerialisedFrame::ChunkRef(r) => {
            let mut v = vec![0; r.remaining()];
            r.clone().copy_to_slice(&mut v);
            v
        }
    }
}

/// Every way of framing a message writes head, sender, receiver, id and data in this order.
pub fn framing<S: Src>(s: &mut S) {
    let (from, to) = (any_actor_path(s), any_actor_path(s));
    let v = any_choice(s, 3);
    let sv = || -> SerialisableValue<Choice, Serde> { (v.clone(), Serde).into() };
    let mut body: Vec<u8> = Vec::new();
    s.assume(from.serialise(&mut body).is_ok() && to.serialise(&mut body).is_ok());
    body.put_u64(902);
    let mut image: Vec<u8> = Vec::new();
    Serde.serialise(&v, &mut image).unwrap();
    body.extend_from_slice(&image);
    let mut want = crate::frames::spec_head(2, body.len() as u32).to_vec();
    want.extend_from_slice(&body);

    let mut eb = encode_buffer(s);
    // leave the write position anywhere
    let k = s.upto(120);
    if k > 0 {
        drop(lease(&mut eb, &vec![7; k], 0));
    }
    let kind = s.upto(3);
    let mut older = None;
    let frame = match s.upto(2) {
        0 => {
            let mut e = eb.get_buffer_encoder().expect("memory");
            SerialisedFrame::ChunkLease(serialise_msg(&from, &to, &sv(), &mut e).expect("serialises"))
        }
        1 => {
            let mut e = eb.get_buffer_encoder().expect("memory");
            let c = preserialise_msg(&sv(), &mut e).expect("serialises");
            let again = c.clone();
            let one = serialise_msg_with_preserialised(&to, &from, again, &mut e).expect("serialises");
            let r = serialise_msg_with_preserialised(&from, &to, c, &mut e).expect("serialises");
            assert!(one.remaining() == r.remaining());
            SerialisedFrame::ChunkRef(r)
        }
        _ => {
            let (m, keep) = message_of(s, kind, Box::new(sv()), from.clone(), to.clone());
            let mut e = eb.get_buffer_encoder().expect("memory");
            let r = embed_msg(m, &mut e).expect("serialises");
            older = Some(keep);
            SerialisedFrame::ChunkRef(r)
        }
    };
    assert!(frame.len() == want.len() && !frame.is_empty());
    assert!(flat(&frame) == want, "the frame differs from the documented format");
    let mut frame = frame;
    if s.bool() {
        frame.make_contiguous();
        assert!(frame.bytes().len() == want.len());
        assert!(frame.bytes() == &want[..]);
    }
    let m = match frame {
        SerialisedFrame::Bytes(mut b) => {
            b.advance(9);
            deserialise_bytes(b)
        }
        SerialisedFrame::ChunkLease(mut l) => {
            l.advance(9);
            deserialise_chunk_lease(l)
        }
        SerialisedFrame::ChunkRef(mut r) => {
            r.advance(9);
            deserialise_chunk_ref(r)
        }
    }
    .expect("own bytes are accepted");
    assert!(m.sender == from && m.receiver == to && *m.ser_id() == 902 && m.session().is_none());
    // forward it once more, partly read or not
    let again = s.bool();
    if again {
        let mut e = eb.get_buffer_encoder().expect("memory");
        let r = embed_msg(m, &mut e).expect("serialises");
        assert!(flat(&SerialisedFrame::ChunkRef(r)) == want, "the forwarded frame differs");
    } else {
        let back = m.try_deserialise::<Choice, Serde>().expect("own bytes are accepted");
        assert!(back == v);
    }
}

/// Cloning keeps the data of a message in every representation.
pub fn clones<S: Src>(s: &mut S) {
    let v = any_choice(s, 2);
    let sv: SerialisableValue<Choice, Serde> = (v.clone(), Serde).into();
    let (from, to) = (any_actor_path(s), any_actor_path(s));
    let kind = s.upto(3);
    let (m, _keep) = message_of(s, kind, Box::new(sv), from.clone(), to.clone());
    let c = m.try_clone().expect("messages can be cloned");
    assert!(c.sender == from && c.receiver == to && c.ser_id() == m.ser_id());
    assert!(c.try_deserialise::<Choice, Serde>().expect("clone") == v);
    let d: NetData = m.data;
    let e: HeapOrSer = match d.try_clone() {
        Ok(_) => HeapOrSer::Serialised(Bytes::new()),
        Err(_) => panic!("data can be cloned"),
    };
    drop(e);
    assert!(d.try_deserialise::<Choice, Serde>().expect("original") == v);
}
