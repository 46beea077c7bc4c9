//! C10: the encode buffer hands out exactly what was written, and never rewrites it.
use crate::nondet::*;
use bytes::{Buf, BufMut};
use kompact::net::buffers::*;

fn drain(l: &ChunkLease) -> Vec<u8> {
    l.create_byte_clone().to_vec()
}

/// Any sequence of messages written into one encode buffer.
pub fn leases_exact<S: Src>(s: &mut S) {
    let mut cfg = BufferConfig::default();
    cfg.chunk_size(128 + s.upto(60));
    cfg.encode_buf_min_free_space(s.upto(127));
    cfg.initial_chunk_count(1 + s.upto(1));
    let max = 2 + s.upto(6);
    cfg.max_chunk_count(max);
    let mut buf = EncodeBuffer::with_config(&cfg, &None);
    let mut live: Vec<(ChunkLease, Vec<u8>)> = Vec::new();
    let mut refs: Vec<(ChunkRef, Vec<u8>)> = Vec::new();
    let mut x = s.u8();
    let rounds = s.upto(14) + 1;
    for _ in 0..rounds {
        if s.upto(3) == 0 && !live.is_empty() {
            let i = s.upto(live.len() - 1);
            let (l, v) = live.swap_remove(i);
            if s.bool() {
                refs.push((l.into_chunk_ref(), v));
            }
        }
        if s.upto(5) == 0 {
            let _ = buf.swap_buffer();
        }
        if let Ok(mut e) = buf.get_buffer_encoder() {
            let mut model = Vec::new();
            let parts = s.upto(4);
            for _ in 0..parts {
                let n = match s.upto(4) {
                    0 => 0,
                    1 => s.upto(10),
                    2 => s.upto(130),
                    3 => 120 + s.upto(20),
                    _ => s.upto(300),
                };
                let v: Vec<u8> = (0..n)
                    .map(|_| {
                        x = x.wrapping_mul(5).wrapping_add(17);
                        x
                    })
                    .collect();
                match s.upto(4) {
                    0 => e.put_slice(&v),
                    1 => e.put(&v[..]),
                    2 => {
                        for b in &v {
                            e.put_u8(*b)
                        }
                    }
                    3 => {
                        // a source that is itself chained
                        let k = s.upto(n);
                        e.put((&v[..k]).chain(&v[k..]))
                    }
                    _ => {
                        for c in v.chunks_exact(8) {
                            e.put_u64(u64::from_be_bytes(c.try_into().unwrap()))
                        }
                        e.put_slice(v.chunks_exact(8).remainder());
                    }
                }
                model.extend_from_slice(&v);
            }
            if s.upto(7) > 0 {
                match e.get_chunk_lease() {
                    Ok(l) => {
                        assert!(!model.is_empty(), "a lease without data");
                        assert!(l.remaining() == model.len() && l.capacity() == model.len());
                        assert!(drain(&l) == model, "a lease differs from what was written");
                        live.push((l, model));
                    }
                    Err(err) => {
                        // only if nothing was written or memory ran out
                        assert!(
                            model.is_empty() || kompact_out_of_buffers(&err),
                            "unexpected error {:?}",
                            err
                        );
                    }
                }
            }
            drop(e);
        }
        for (l, v) in &live {
            assert!(drain(l) == *v, "a live lease was overwritten");
        }
        for (r, v) in &refs {
            let mut b = vec![0; v.len()];
            r.clone().copy_to_slice(&mut b);
            assert!(b == *v, "a live reference was overwritten");
        }
    }
}

fn kompact_out_of_buffers(e: &kompact::prelude::SerError) -> bool {
    e.kind() == kompact::prelude::SerErrorKind::NoBuffersAvailable
}

/// With enough buffers every write succeeds.
pub fn enough_memory_never_fails<S: Src>(s: &mut S) {
    let mut cfg = BufferConfig::default();
    cfg.chunk_size(128);
    cfg.encode_buf_min_free_space(s.upto(127));
    cfg.initial_chunk_count(1);
    cfg.max_chunk_count(40);
    let mut buf = EncodeBuffer::with_config(&cfg, &None);
    let mut live = Vec::new();
    for k in 0..s.upto(5) + 1 {
        let n = s.upto(400) + 1;
        let v = vec![k as u8 + 1; n];
        let mut e = buf.get_buffer_encoder().expect("enough buffers");
        e.put_slice(&v);
        let l = e.get_chunk_lease().expect("enough buffers");
        assert!(drain(&l) == v);
        live.push((l, v));
    }
    for (l, v) in &live {
        assert!(drain(l) == *v);
    }
}

/// Reserving space and padding keep the framing: pad, body, head in front.
#[cfg(kompact_verif_pool)]
pub fn reserve_and_pad<S: Src>(s: &mut S) {
    use kompact::verif_hooks::pool::*;
    let mut cfg = BufferConfig::default();
    cfg.chunk_size(128 + s.upto(20));
    cfg.encode_buf_min_free_space(s.upto(127));
    cfg.initial_chunk_count(1);
    let max = 2 + s.upto(4);
    cfg.max_chunk_count(max);
    let mut buf = EncodeBuffer::with_config(&cfg, &None);
    let mut live: Vec<(ChunkLease, Vec<u8>)> = Vec::new();
    for k in 0..s.upto(5) + 1 {
        let n = s.upto(500);
        let v = vec![k as u8 + 1; n];
        let Ok(mut e) = buf.get_buffer_encoder() else { break };
        let reserved = encoder_try_reserve(&mut e, n + 9).is_ok();
        if reserved {
            encoder_pad(&mut e, 9);
            e.put_slice(&v);
            match e.get_chunk_lease() {
                Ok(l) => {
                    assert!(l.remaining() == n + 9);
                    let mut w = vec![0u8; 0];
                    w.extend_from_slice(&drain(&l)[..9]);
                    w.extend_from_slice(&v);
                    assert!(drain(&l)[9..] == v[..]);
                    live.push((l, w));
                }
                Err(err) => panic!("reserved {} bytes, but writing them failed: {:?}", n + 9, err),
            }
        }
        for (l, v) in &live {
            assert!(drain(l) == *v, "a live lease was overwritten");
        }
    }
}
