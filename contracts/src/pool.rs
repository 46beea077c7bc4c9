//! C12: the buffer pool.
use crate::nondet::*;
use bytes::Buf;
use kompact::net::buffers::*;
use std::{
    panic,
    sync::{
        Arc,
        atomic::{AtomicIsize, Ordering},
    },
};

#[derive(Debug)]
struct Counting {
    size: usize,
    live: AtomicIsize,
    made: AtomicIsize,
}

struct Mem(Vec<u8>);

impl Chunk for Mem {
    fn as_mut_ptr(&mut self) -> *mut u8 {
        self.0.as_mut_ptr()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}

impl ChunkAllocator for Counting {
    fn get_chunk(&self) -> *mut dyn Chunk {
        self.live.fetch_add(1, Ordering::SeqCst);
        self.made.fetch_add(1, Ordering::SeqCst);
        Box::into_raw(Box::new(Mem(vec![0; self.size])))
    }
    unsafe fn release(&self, ptr: *mut dyn Chunk) {
        self.live.fetch_sub(1, Ordering::SeqCst);
        drop(unsafe { Box::from_raw(ptr) });
    }
}

fn ptr_of(l: &ChunkLease) -> usize {
    l.chunk().as_ptr() as usize
}

/// Arbitrary histories of taking, leasing, returning and releasing buffers.
pub fn never_hands_out_leased_memory<S: Src>(s: &mut S) {
    let size = 128;
    let max = 2 + s.upto(3);
    let initial = s.upto(max);
    let alloc = Arc::new(Counting { size, live: AtomicIsize::new(0), made: AtomicIsize::new(0) });
    let mut cfg = BufferConfig::default();
    cfg.chunk_size(size);
    cfg.initial_chunk_count(initial);
    cfg.max_chunk_count(max);
    let dynalloc: Arc<dyn ChunkAllocator> = alloc.clone();
    {
        let mut pool = BufferPool::with_config(&cfg, &Some(dynalloc));
        assert!(pool.get_pool_sizes() == (initial, initial));
        // buffers currently out, by address, and the leases alive on each address
        let mut out: Vec<(BufferChunk, usize)> = Vec::new();
        let mut leases: Vec<(ChunkLease, usize)> = Vec::new();
        for _ in 0..s.upto(24) + 1 {
            match s.upto(5) {
                0 | 1 => {
                    let locked: std::collections::BTreeSet<usize> =
                        leases.iter().map(|l| l.1).filter(|a| !out.iter().any(|o| o.1 == *a)).collect();
                    let (alive, idle) = pool.get_pool_sizes();
                    assert!(alive <= max && alive as isize == alloc.made.load(Ordering::SeqCst));
                    assert!(idle + out.len() == alive);
                    match pool.get_buffer() {
                        Some(mut b) => {
                            assert!(b.len() == size && b.free());
                            let l = b.get_lease(0, 1);
                            let a = ptr_of(&l);
                            drop(l);
                            assert!(!locked.contains(&a), "handed out memory that is still leased");
                            assert!(!out.iter().any(|o| o.1 == a), "handed out twice");
                            out.push((b, a));
                        }
                        None => {
                            assert!(
                                alive == max && out.len() + locked.len() == max,
                                "refused although memory was available"
                            );
                        }
                    }
                }
                2 if !out.is_empty() => {
                    let i = s.upto(out.len() - 1);
                    let (b, _) = out.swap_remove(i);
                    pool.return_buffer(b);
                }
                3 if !out.is_empty() => {
                    let i = s.upto(out.len() - 1);
                    let from = s.upto(size - 1);
                    let to = from + 1 + s.upto(size - from - 1);
                    let l = out[i].0.get_lease(from, to);
                    assert!(l.remaining() == to - from && ptr_of(&l) == out[i].1 + from);
                    let a = out[i].1;
                    leases.push((l, a));
                }
                4 if !leases.is_empty() => {
                    let i = s.upto(leases.len() - 1);
                    leases.swap_remove(i);
                }
                _ => {
                    // reserving never loses buffers
                    let n = s.upto(size * (max + 1));
                    reserve(s, &mut pool, n, size, max, &out, &leases);
                }
            }
        }
        drop(leases);
        drop(out);
    }
    assert!(alloc.live.load(Ordering::SeqCst) == 0, "chunks leaked or released twice");
}

#[cfg(not(kompact_verif_pool))]
fn reserve<S: Src>(_: &mut S, _: &mut BufferPool, _: usize, _: usize, _: usize, _: &[(BufferChunk, usize)], _: &[(ChunkLease, usize)]) {}

#[cfg(kompact_verif_pool)]
fn reserve<S: Src>(
    s: &mut S,
    pool: &mut BufferPool,
    n: usize,
    size: usize,
    max: usize,
    out: &[(BufferChunk, usize)],
    leases: &[(ChunkLease, usize)],
) {
    let (alive, _) = pool.get_pool_sizes();
    let ok = kompact::verif_hooks::pool::pool_try_reserve(pool, n);
    let (alive2, idle2) = pool.get_pool_sizes();
    assert!(alive2 >= alive && alive2 <= max, "the pool outgrew its limit");
    assert!(idle2 + out.len() == alive2, "reserving lost a buffer");
    let locked: std::collections::BTreeSet<usize> =
        leases.iter().map(|l| l.1).filter(|a| !out.iter().any(|o| o.1 == *a)).collect();
    let available = max - out.len() - locked.len();
    let need = n.div_ceil(size);
    assert!(ok == (need <= available), "reserved {} of {} available: {}", need, available, ok);
    if ok && s.bool() {
        let mut got = Vec::new();
        for _ in 0..need {
            got.push(pool.get_buffer().expect("a reserved buffer is missing"));
        }
        for b in got {
            pool.return_buffer(b);
        }
    }
}

/// A configuration is accepted exactly if its documented constraints hold.
pub fn config_validation<S: Src>(s: &mut S) {
    let mut cfg = BufferConfig::default();
    let (chunk, initial, max, free) = if S::SYMBOLIC {
        (s.u64() as usize, s.u64() as usize, s.u64() as usize, s.u64() as usize)
    } else {
        (
            if s.bool() { 120 + s.upto(16) } else { s.u64() as usize },
            s.upto(6),
            s.upto(6),
            if s.bool() { 120 + s.upto(16) } else { s.u64() as usize },
        )
    };
    cfg.chunk_size(chunk);
    cfg.initial_chunk_count(initial);
    cfg.max_chunk_count(max);
    cfg.encode_buf_min_free_space(free);
    assert!(cfg.chunk_size_bytes() == chunk);
    let valid = initial <= max && chunk > free && chunk >= 128 && max >= 2;
    #[cfg(kani)]
    {
        s.assume(valid);
        cfg.validate();
    }
    #[cfg(not(kani))]
    {
        let r = panic::catch_unwind(|| cfg.validate());
        assert!(r.is_ok() == valid, "validation is wrong about {:?}", cfg);
    }
}

#[cfg(kani)]
mod proofs {
    crate::harness!(pool::config_validation, 2);
}
