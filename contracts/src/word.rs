//! C18: the word holding a component's lifecycle state and work count, and the scheduling
//! decisions taken from it. C17: the interval of the actor-reference collector.
use crate::nondet::Src;
#[cfg(kompact_verif_lifecycle)]
use kompact::verif_hooks::lifecycle::{self as lc, State};
use kompact::{
    component::SchedulingDecision as D,
    lookup::gc::{ActorRefReaper, FeedbackAlgorithm, UpdateStrategy},
};
#[cfg(kompact_verif_lifecycle)]
use std::sync::atomic::AtomicU64;

/// The largest number of outstanding work items a component supports.
pub const MAX_WORK: u64 = (1 << 61) - 1;

#[cfg(kompact_verif_lifecycle)]
fn set(w: &AtomicU64, k: u8) {
    match k {
        0 => lc::set_active(w),
        1 => lc::set_passive(w),
        2 => lc::set_destroyed(w),
        3 => lc::set_faulty(w),
        _ => lc::set_blocking(w),
    }
}

#[cfg(kompact_verif_lifecycle)]
fn is(w: &AtomicU64, k: u8) {
    assert_eq!(lc::is_active(w), k == 0, "active is reported exactly in that state");
    assert_eq!(lc::is_destroyed(w), k == 2, "destroyed is reported exactly in that state");
    assert_eq!(lc::is_faulty(w), k == 3, "faulty is reported exactly in that state");
    assert_eq!(lc::is_blocking(w), k == 4, "blocking is reported exactly in that state");
    let l = lc::load(w);
    assert!(
        match l {
            State::Active(_) => k == 0,
            State::Passive(_) => k == 1,
            State::Destroyed => k == 2,
            State::Faulty => k == 3,
            State::Blocking => k == 4,
        },
        "the state read is the one set last"
    );
}

/// The work count, read through the only states that show it.
#[cfg(kompact_verif_lifecycle)]
fn count(w: &AtomicU64) -> Option<u64> {
    match lc::load(w) {
        State::Active(n) | State::Passive(n) => Some(n),
        _ => None,
    }
}

/// A word in state `k` with `n` outstanding work items, reached through the real operations
/// where that is one step, and by its only other representation-independent route otherwise.
#[cfg(kompact_verif_lifecycle)]
fn any_word<S: Src>(s: &mut S) -> (AtomicU64, u8, u64) {
    // Every 64-bit word in one of the five states.
    let raw = s.u64();
    let w = AtomicU64::new(raw);
    let k = s.u8();
    s.assume(k <= 4);
    set(&w, k);
    // The count is what an active word shows.
    let probe = AtomicU64::new(raw);
    lc::set_active(&probe);
    let n = count(&probe).expect("active words show their count");
    (w, k, n)
}

/// Setting a state shows that state and keeps the work count.
#[cfg(kompact_verif_lifecycle)]
pub fn states_keep_counts<S: Src>(s: &mut S) {
    let (w, k, n) = any_word(s);
    is(&w, k);
    assert!(n <= MAX_WORK, "counts stay in range");
    if k <= 1 {
        assert_eq!(count(&w), Some(n), "changing state keeps the work count");
    }
    let k2 = s.u8();
    s.assume(k2 <= 4);
    set(&w, k2);
    is(&w, k2);
    lc::set_passive(&w);
    assert_eq!(count(&w), Some(n), "no state change loses or invents work");
}

/// New work is scheduled exactly when the component was idle and able to run.
#[cfg(kompact_verif_lifecycle)]
pub fn work_is_scheduled_once<S: Src>(s: &mut S) {
    let (w, k, n) = any_word(s);
    s.assume(n < MAX_WORK);
    let expected = if k > 1 {
        D::NoWork
    } else if n == 0 {
        D::Schedule
    } else {
        D::AlreadyScheduled
    };
    let before = lc::load_decision(&w);
    assert!(before == expected, "the decision read from the word");
    let d = lc::increment_work(&w);
    assert!(d == expected, "only the first work item of an idle component schedules it");
    is(&w, k);
    lc::set_active(&w);
    assert_eq!(count(&w), Some(n + 1), "one more work item");
}

/// Finished work is subtracted; the component is rescheduled exactly when work is left.
#[cfg(kompact_verif_lifecycle)]
pub fn finished_work_is_subtracted<S: Src>(s: &mut S) {
    let (w, k, n) = any_word(s);
    let done = s.u64();
    let done = if S::SYMBOLIC { done } else { done % (n + 1) };
    s.assume(done <= n);
    let d = lc::decrement_work(&w, done as usize);
    let expected = if n - done > 0 { D::Schedule } else { D::NoWork };
    assert!(d == expected, "work that is left schedules the component again");
    is(&w, k);
    lc::set_active(&w);
    assert_eq!(count(&w), Some(n - done), "exactly the finished work is gone");
}

/// A new component is passive without work, and its first work item schedules it.
#[cfg(kompact_verif_lifecycle)]
pub fn initial<S: Src>(s: &mut S) {
    let w = lc::initial_state();
    is(&w, 1);
    assert_eq!(count(&w), Some(0));
    assert!(lc::load_decision(&w) == D::Schedule);
    let k = s.u8();
    s.assume(k <= 4);
    set(&w, k);
    let d = lc::increment_work(&w);
    assert!(d == if k <= 1 { D::Schedule } else { D::NoWork });
    let d = lc::increment_work(&w);
    assert!(d == if k <= 1 { D::AlreadyScheduled } else { D::NoWork });
    assert!(lc::decrement_work(&w, 1) == D::Schedule);
    assert!(lc::decrement_work(&w, 1) == D::NoWork);
    is(&w, k);
}

/// Coming out of blocking: a definite decision stands, otherwise any work resumes the component.
pub fn decisions_combine<S: Src>(s: &mut S) {
    let all = [D::Schedule, D::AlreadyScheduled, D::NoWork, D::Blocked, D::Resume];
    let (i, j) = (s.u8(), s.u8());
    s.assume(i < 5 && j < 5);
    let (a, b) = (all[i as usize], all[j as usize]);
    let expected = if a != D::NoWork {
        a
    } else if b == D::NoWork || b == D::Blocked {
        b
    } else {
        D::Resume
    };
    assert!(a.or_use(b) == expected, "combined decision");
    let asked = std::cell::Cell::new(0);
    let r = a.or_from(|| {
        asked.set(asked.get() + 1);
        b
    });
    assert!(r == expected, "combined decision, computed on demand");
    assert!(asked.get() == if a == D::NoWork { 1 } else { 0 }, "computed only when needed");
}

fn algo(mimd: bool) -> FeedbackAlgorithm {
    if mimd { FeedbackAlgorithm::Mimd } else { FeedbackAlgorithm::Aimd }
}

/// One adjustment moves the interval as configured and clamps it.
pub fn interval_step<S: Src>(s: &mut S) {
    let (curr, min, max) = (s.u64(), s.u64(), s.u64());
    let (incr, mimd, up) = (s.u64(), s.bool(), s.bool());
    // A constant divisor keeps the division within the verifier's reach; others in `interval_walk`.
    let decr = if S::SYMBOLIC { 2 } else { s.u64().max(1) };
    let mut u = UpdateStrategy::new(curr, min, max, incr, decr, algo(mimd));
    assert_eq!(u.curr(), curr, "starts with the configured interval");
    if S::SYMBOLIC && mimd && up {
        // Factors of the multiplicative variant: powers of two and the identities.
        s.assume(incr <= 2);
    }
    let r = if up { u.incr() } else { u.decr() };
    assert_eq!(r, u.curr(), "the returned interval is the current one");
    if up {
        let ideal = if mimd { curr as u128 * incr as u128 } else { curr as u128 + incr as u128 };
        assert_eq!(r as u128, ideal.min(max as u128), "increase, clamped at the maximum");
    } else {
        assert_eq!(r, (curr / decr).max(min), "decrease, clamped at the minimum");
    }
}

/// Within sane bounds every history of adjustments stays within the bounds.
pub fn interval_walk<S: Src>(s: &mut S) {
    let a = s.u64();
    let b = s.u64();
    let small = !S::SYMBOLIC && s.bool();
    let f = |x: u64| if small { x % 10_000 } else { x };
    let (min, max) = (f(a).min(f(b)), f(a).max(f(b)));
    let c = s.u64();
    let curr = c.clamp(min, max);
    let incr = if s.bool() { s.u64() } else { s.u64() % 16 };
    let decr = if s.bool() { s.u64().max(1) } else { s.u64() % 7 + 1 };
    let mimd = s.bool();
    if mimd {
        s.assume(incr >= 1);
    }
    let mut u = UpdateStrategy::new(curr, min, max, incr, decr, algo(mimd));
    let n = s.u8() % 40;
    let mut at = curr;
    for _ in 0..n {
        let up = s.bool();
        let r = if up { u.incr() } else { u.decr() };
        assert!(min <= r && r <= max, "the interval stays within its bounds");
        assert!(if up { r >= at } else { r <= at }, "moves in the requested direction");
        assert_eq!(r, u.curr());
        at = r;
    }
    let mut d = ActorRefReaper::default();
    assert!(!d.is_scheduled());
    let n = s.u8() % 40;
    for _ in 0..n {
        let r = if s.bool() { d.strategy_mut().incr() } else { d.strategy_mut().decr() };
        assert!((20..=5000).contains(&r), "default bounds");
        assert_eq!(r, d.strategy().curr());
    }
    d.schedule();
    assert!(d.is_scheduled());
}

#[cfg(kani)]
mod proofs {
    #[cfg(kompact_verif_lifecycle)]
    mod states {
        crate::harness!(word::states_keep_counts, 2);
        crate::harness!(word::work_is_scheduled_once, 2);
        crate::harness!(word::finished_work_is_subtracted, 2);
        crate::harness!(word::initial, 2);
    }
    mod interval {
        crate::harness!(word::decisions_combine, 6);
        crate::harness!(word::interval_step, 2);
    }
}
