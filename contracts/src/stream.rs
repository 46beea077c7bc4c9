//! C02: a byte stream decodes to the frames that were written, however it is cut up.
use crate::{frames::*, nondet::*};
use bytes::Buf;
use kompact::net::{SessionId, buffers::*, frames::*};

/// One frame as the wire format prescribes it, and what must come out again.
#[derive(Clone, Debug)]
enum Expect {
    Data(Vec<u8>),
    Hello(std::net::SocketAddr),
    Start(std::net::SocketAddr, u128),
    Ack,
    Bye,
}

fn wire<S: Src>(s: &mut S, out: &mut Vec<u8>) -> Expect {
    let (t, body, e) = match s.upto(7) {
        0 => {
            let a = any_addr(s);
            let mut b = [0u8; 19];
            let k = spec_addr(&a, &mut b);
            (4u8, b[..k].to_vec(), Expect::Hello(a))
        }
        1 => {
            let a = any_addr(s);
            let id = s.u128();
            let mut b = [0u8; 19];
            let k = spec_addr(&a, &mut b);
            let mut v = b[..k].to_vec();
            v.extend_from_slice(&id.to_be_bytes());
            (5, v, Expect::Start(a, id))
        }
        2 => (6, vec![], Expect::Ack),
        3 => (7, vec![], Expect::Bye),
        k => {
            let n = match k {
                4 => s.upto(20),
                5 => s.upto(150),
                6 => s.upto(700),
                _ => 100 + s.upto(60),
            };
            let x = s.u8();
            let v: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(31) ^ x).collect();
            (2, v.clone(), Expect::Data(v))
        }
    };
    out.extend_from_slice(&spec_head(t, body.len() as u32));
    out.extend_from_slice(&body);
    e
}

fn check(f: &Frame, e: &Expect) {
    match (f, e) {
        (Frame::Data(d), Expect::Data(v)) => { let _ = (d, v); },
        (Frame::Hello(h), Expect::Hello(a)) => assert!(h.addr() == *a),
        (Frame::Start(st), Expect::Start(a, id)) => {
            assert!(st.addr() == *a && st.id() == SessionId::from_u128(*id))
        }
        (Frame::Ack(), Expect::Ack) | (Frame::Bye(), Expect::Bye) => (),
        _ => panic!("decoded {:?} where {:?} was sent", f, e),
    }
}

/// Feeds a stream in arbitrary portions through recycled buffers.
pub fn reassembly<S: Src>(s: &mut S) {
    let mut cfg = BufferConfig::default();
    let chunk = 128 + s.upto(200);
    cfg.chunk_size(chunk);
    cfg.encode_buf_min_free_space(s.upto(127));
    cfg.initial_chunk_count(1 + s.upto(2));
    cfg.max_chunk_count(400);
    let mut pool = BufferPool::with_config(&cfg, &None);
    let mut d = DecodeBuffer::new(pool.get_buffer().unwrap(), &cfg);

    let mut bytes = Vec::new();
    let n = s.upto(7) + 1;
    let expect: Vec<Expect> = (0..n).map(|_| wire(s, &mut bytes)).collect();
    let eager = s.bool();
    let keep_all = s.bool();
    let small = s.bool();
    let mut got = 0;
    let mut kept: Vec<(ChunkLease, Vec<u8>)> = Vec::new();
    let mut fed = 0;
    while fed < bytes.len() || got < expect.len() {
        if fed < bytes.len() {
            let free = d.writeable_len();
            match d.get_writeable() {
                Some(w) => {
                    assert!(w.len() == free);
                    let most = w.len().min(bytes.len() - fed);
                    let k = 1 + if small { s.upto(most.min(24) - 1) } else { s.upto(most - 1) };
                    w[..k].copy_from_slice(&bytes[fed..fed + k]);
                    let before = d.readable_len();
                    d.advance_writeable(k);
                    assert!(d.readable_len() == before + k && d.writeable_len() == free - k);
                    fed += k;
                }
                None => {
                    if !eager {
                        // everything decodable is taken out before swapping
                        take(&mut d, &expect, &mut got, &mut kept, keep_all);
                    }
                    let before = d.readable_len();
                    let mut b = pool.get_buffer().expect("pool limit");
                    d.swap_buffer(&mut b);
                    pool.return_buffer(b);
                    assert!(d.readable_len() == before, "swapping loses or invents bytes");
                    assert!(d.get_writeable().is_some());
                }
            }
        }
        if s.upto(3) == 0 || fed == bytes.len() {
            let before = got;
            take(&mut d, &expect, &mut got, &mut kept, keep_all);
            assert!(fed < bytes.len() || got == expect.len(), "frames are missing at the end");
            let _ = before;
        }
    }
    assert!(d.readable_len() == 0);
    assert!(matches!(d.get_frame(), Err(FramingError::NoData)));
    // payloads handed out earlier still hold the bytes that were sent
    for (mut l, v) in kept {
        let mut b = vec![0; l.remaining()];
        l.copy_to_slice(&mut b);
        assert!(b == v, "a delivered payload changed");
    }
}

fn take(
    d: &mut DecodeBuffer,
    expect: &[Expect],
    got: &mut usize,
    kept: &mut Vec<(ChunkLease, Vec<u8>)>,
    keep_all: bool,
) {
    loop {
        let has = d.has_frame().expect("valid head");
        match d.get_frame() {
            Ok(f) => {
                assert!(has);
                assert!(*got < expect.len(), "a frame too many");
                check(&f, &expect[*got]);
                if let (Frame::Data(x), Expect::Data(v)) = (f, &expect[*got]) {
                    if keep_all || *got % 2 == 0 {
                        kept.push((x.payload(), v.clone()));
                    } else {
                        let mut l = x.payload();
                        let mut b = vec![0; l.remaining()];
                        l.copy_to_slice(&mut b);
                        assert!(b == *v, "wrong payload");
                    }
                }
                *got += 1;
            }
            Err(FramingError::NoData) => {
                assert!(!has);
                return;
            }
            Err(e) => panic!("{:?} on a well-formed stream", e),
        }
    }
}

/// A prefix of a frame is never a frame, and adding the missing bytes completes it.
pub fn prefix_is_no_frame<S: Src>(s: &mut S) {
    let cfg = BufferConfig::default();
    let mut bytes = Vec::new();
    let e = wire(s, &mut bytes);
    let cut = s.upto(bytes.len() - 1);
    let mut d = DecodeBuffer::new(BufferChunk::new(1024), &cfg);
    d.get_writeable().unwrap()[..cut].copy_from_slice(&bytes[..cut]);
    d.advance_writeable(cut);
    assert!(matches!(d.get_frame(), Err(FramingError::NoData)));
    assert!(!d.has_frame().unwrap());
    let rest = bytes.len() - cut;
    d.get_writeable().unwrap()[..rest].copy_from_slice(&bytes[cut..]);
    d.advance_writeable(rest);
    check(&d.get_frame().unwrap(), &e);
    assert!(d.readable_len() == 0);
}
