//! C11: chains of leased memory behave like one byte string.
use crate::nondet::*;
use bytes::Buf;
use kompact::{
    net::buffers::{ChunkLease, ChunkRef},
    verif_hooks::net::*,
};
use std::sync::Arc;

/// A lease over its own copy of `bytes`.
pub fn lease_of(bytes: &[u8], lock: &Arc<()>) -> ChunkLease {
    let content: &'static mut [u8] = Box::leak(bytes.to_vec().into_boxed_slice());
    new_lease(content, lock.clone())
}

/// The remaining bytes of `b` are exactly `model`, from every position on.
pub fn check_view<S: Src, B: Buf>(s: &mut S, mut b: B, model: &[u8]) {
    assert!(b.remaining() == model.len());
    assert!(b.has_remaining() == !model.is_empty());
    let i = s.upto(model.len());
    b.advance(i);
    assert!(b.remaining() == model.len() - i);
    let c = b.chunk();
    assert!(c.is_empty() == (i == model.len()));
    assert!(c.len() <= model.len() - i);
    assert!(s.same(c, &model[i..i + c.len()]));
    if !S::SYMBOLIC {
        let mut rest = vec![0u8; model.len() - i];
        b.copy_to_slice(&mut rest);
        assert!(rest == model[i..]);
        assert!(!b.has_remaining() && b.chunk().is_empty());
    }
}

/// A chain of one or two (Kani), up to six (replay) segments.
fn any_chain<S: Src>(s: &mut S, lock: &Arc<()>, model: &mut [u8], max_segs: usize) -> (ChunkLease, usize) {
    let seg = model.len() / max_segs;
    let mut n = s.upto(seg - 1) + 1;
    fill(s, &mut model[..n]);
    let mut lease = lease_of(&model[..n], lock);
    let mut k = 1;
    while k < max_segs {
        if s.bool() {
            let l = s.upto(seg - 1) + 1;
            fill(s, &mut model[n..n + l]);
            append_to_chain(&mut lease, lease_of(&model[n..n + l], lock));
            n += l;
        }
        k += 1;
    }
    (lease, n)
}

fn fill<S: Src>(s: &mut S, b: &mut [u8]) {
    let mut i = 0;
    while i < b.len() {
        b[i] = s.u8();
        i += 1;
    }
}

/// Reading a chain yields its bytes; its length and capacity are theirs.
pub fn lease_view<S: Src>(s: &mut S) {
    let lock = Arc::new(());
    if S::SYMBOLIC {
        let mut m = [0u8; 4];
        let (l, n) = any_chain(s, &lock, &mut m, 2);
        assert!(l.capacity() == n);
        check_view(s, l, &m[..n]);
    } else {
        let mut m = [0u8; 120];
        let (l, n) = any_chain(s, &lock, &mut m, 6);
        assert!(l.capacity() == n);
        assert!(&l.create_byte_clone()[..] == &m[..n]);
        check_view(s, l, &m[..n]);
        // releasing the lease releases the lock
        assert!(Arc::strong_count(&lock) == 1);
    }
}

/// Splitting a chain cuts its byte string in two.
pub fn lease_split<S: Src>(s: &mut S) {
    let lock = Arc::new(());
    let mut m = [0u8; 120];
    let (mut l, n) = if S::SYMBOLIC {
        any_chain(s, &lock, &mut m[..4], 2)
    } else {
        any_chain(s, &lock, &mut m, 6)
    };
    let p = s.upto(n);
    let tail = split_at(&mut l, p);
    assert!(l.capacity() == p && tail.capacity() == n - p);
    if !S::SYMBOLIC && p > 0 && p < n {
        // both halves keep the memory locked on their own
        assert!(Arc::strong_count(&lock) >= 3);
    }
    if s.bool() {
        check_view(s, l, &m[..p]);
    } else {
        check_view(s, tail, &m[p..n]);
    }
}

/// Turning a partly read lease into a reference keeps exactly the unread bytes.
pub fn lease_into_ref<S: Src>(s: &mut S) {
    let lock = Arc::new(());
    let mut m = [0u8; 120];
    let (mut l, n) = if S::SYMBOLIC {
        any_chain(s, &lock, &mut m[..4], 2)
    } else {
        any_chain(s, &lock, &mut m, 6)
    };
    let p = s.upto(n);
    l.advance(p);
    assert!(l.remaining() == n - p);
    let r = l.into_chunk_ref();
    assert!(r.capacity() == n - p);
    if !S::SYMBOLIC && p < n {
        assert!(Arc::strong_count(&lock) > 1);
    }
    check_view(s, r, &m[p..n]);
}

/// Chaining references appends their unread bytes; clones read independently.
pub fn ref_chain<S: Src>(s: &mut S) {
    let lock = Arc::new(());
    let mut a = [0u8; 60];
    let mut b = [0u8; 60];
    let (la, na, lb, nb) = if S::SYMBOLIC {
        a[0] = s.u8();
        b[0] = s.u8();
        b[1] = s.u8();
        let n = s.upto(1) + 1;
        (lease_of(&a[..1], &lock), 1, lease_of(&b[..n], &lock), n)
    } else {
        let (la, na) = any_chain(s, &lock, &mut a, 4);
        let (lb, nb) = any_chain(s, &lock, &mut b, 4);
        (la, na, lb, nb)
    };
    // the second part may have been read from before it is chained
    let p = s.upto(nb);
    let mut rb = lb.into_chunk_ref();
    rb.advance(p);
    let mut model = [0u8; 120];
    let (joined, n): (ChunkRef, usize) = if s.bool() {
        model[..na].copy_from_slice(&a[..na]);
        model[na..na + nb - p].copy_from_slice(&b[p..nb]);
        (la.into_chunk_ref_with_tail(rb), na + nb - p)
    } else {
        // a partly read head keeps only its unread bytes in view
        model[..nb - p].copy_from_slice(&b[p..nb]);
        model[nb - p..nb - p + na].copy_from_slice(&a[..na]);
        (la.into_chunk_ref_with_head(rb), na + nb - p)
    };
    assert!(joined.remaining() == n);
    if !S::SYMBOLIC {
        let mut c = joined.clone();
        let q = s.upto(n);
        c.advance(q);
        check_view(s, joined.clone(), &model[..n]);
        check_view(s, c, &model[q..n]);
        let _ = joined.capacity();
    }
    check_view(s, joined, &model[..n]);
}

/// Three-way nesting: chains of chains of references.
pub fn ref_nested<S: Src>(s: &mut S) {
    let lock = Arc::new(());
    let mut parts: Vec<Vec<u8>> = Vec::new();
    let mut acc: Option<ChunkRef> = None;
    let mut model: Vec<u8> = Vec::new();
    let k = s.upto(5) + 1;
    for _ in 0..k {
        let mut m = [0u8; 40];
        let (mut l, n) = any_chain(s, &lock, &mut m, 4);
        let p = s.upto(n);
        l.advance(p);
        let part = m[p..n].to_vec();
        acc = Some(match acc.take() {
            None => {
                model = part.clone();
                l.into_chunk_ref()
            }
            Some(mut r) => {
                if s.bool() {
                    let q = s.upto(model.len());
                    r.advance(q);
                    model.drain(..q);
                }
                if s.bool() {
                    model.extend_from_slice(&part);
                    l.into_chunk_ref_with_head(r)
                } else {
                    let mut v = part.clone();
                    v.extend_from_slice(&model);
                    model = v;
                    l.into_chunk_ref_with_tail(r)
                }
            }
        });
        parts.push(part);
    }
    check_view(s, acc.unwrap(), &model);
    assert!(Arc::strong_count(&lock) == 1);
}

#[cfg(kani)]
mod proofs {
    crate::harness!(chunks::lease_view, 4);
    crate::harness!(chunks::lease_split, 4);
    crate::harness!(chunks::lease_into_ref, 4);
    crate::harness!(chunks::ref_chain, 4);
}
