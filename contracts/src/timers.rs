//! C19: timers fire when they are due, once or periodically, and not after they are cancelled.
use crate::{nondet::*, sys::*};
use kompact::prelude::*;
use std::{
    sync::{Arc, Mutex},
    time::Duration,
};

/// What a timeout handler does besides noting that it ran.
#[derive(Clone, Debug)]
enum Then {
    Nothing,
    Cancel(usize),
    Once(u64),
    Fail,
}

#[derive(Default)]
struct Shared {
    fired: Vec<usize>,
    handles: Vec<ScheduledTimer>,
    /// Numbers of timers scheduled from handlers: they continue the driver's numbering.
    scheduled: Vec<(usize, u64)>,
}

#[derive(ComponentDefinition)]
pub struct Clock {
    ctx: ComponentContext<Self>,
    sh: Arc<Mutex<Shared>>,
}
ignore_lifecycle!(Clock);
impl Actor for Clock {
    type Message = Never;
    fn receive_local(&mut self, _: Never) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}
#[derive(Debug)]
struct Oops;
impl std::fmt::Display for Oops {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "oops")
    }
}
impl std::error::Error for Oops {}

impl Clock {
    fn fire(&mut self, n: usize, h: ScheduledTimer, then: &Then) -> HandlerResult {
        {
            let mut sh = self.sh.lock().unwrap();
            assert_eq!(sh.handles[n], h, "a handler is told which timer fired");
            sh.fired.push(n);
        }
        match then {
            Then::Nothing => (),
            Then::Cancel(k) => {
                let h = self.sh.lock().unwrap().handles.get(*k).cloned();
                if let Some(h) = h {
                    self.cancel_timer(h);
                }
            }
            Then::Once(d) => {
                let n = self.sh.lock().unwrap().handles.len();
                let h = self.once(n, *d, Then::Nothing);
                let mut sh = self.sh.lock().unwrap();
                sh.handles.push(h);
                sh.scheduled.push((n, *d));
            }
            Then::Fail => return Err(HandlerError::benign(Oops)),
        }
        Handled::OK
    }
    fn once(&mut self, n: usize, d: u64, then: Then) -> ScheduledTimer {
        self.schedule_once(Duration::from_millis(d), move |me, h| me.fire(n, h, &then))
    }
    fn periodic(&mut self, n: usize, d: u64, p: u64, then: Then) -> ScheduledTimer {
        self.schedule_periodic(Duration::from_millis(d), Duration::from_millis(p), move |me, h| me.fire(n, h, &then))
    }
}

#[derive(Clone)]
struct Entry {
    /// Due next; None: over or cancelled.
    due: Option<u64>,
    period: Option<u64>,
    then: Then,
}

struct Model {
    timers: Vec<Entry>,
    /// Timeouts that are due but not handled yet.
    queued: Vec<(u64, usize)>,
    now: u64,
}
impl Model {
    fn advance(&mut self, d: u64) {
        self.now += d;
        for (i, t) in self.timers.iter_mut().enumerate() {
            while let Some(x) = t.due.filter(|x| *x <= self.now) {
                self.queued.push((x, i));
                t.due = t.period.map(|p| x + p);
            }
        }
        self.queued.sort();
    }
    fn cancel(&mut self, i: usize) {
        self.timers[i].due = None;
        self.queued.retain(|q| q.1 != i);
    }
}

fn duration<S: Src>(s: &mut S) -> u64 {
    match s.upto(5) {
        0 | 1 => 1 + s.upto(9) as u64,
        2 => 1 + s.upto(300) as u64,
        3 => 250 + s.upto(12) as u64,
        4 => 65_530 + s.upto(12) as u64,
        _ => 1 + s.upto(100_000) as u64,
    }
}

pub fn timers_fire_when_due<S: Src>(s: &mut S) {
    let sys = sys();
    let sh: Arc<Mutex<Shared>> = Arc::default();
    let s2 = sh.clone();
    let c = sys.system.create(move || Clock { ctx: ComponentContext::uninitialised(), sh: s2 });
    sys.system.start(&c);
    sys.settle();
    let mut m = Model { timers: Vec::new(), queued: Vec::new(), now: 0 };
    let mut seen = 0;
    let ops = 3 + s.upto(20);
    for op in 0..=ops {
        let then = |s: &mut S, n: usize| match s.upto(7) {
            0 | 1 => Then::Cancel(s.upto(n)),
            2 => Then::Once(duration(s)),
            3 => Then::Fail,
            _ => Then::Nothing,
        };
        let k = if op == ops { 9 } else { s.upto(9) };
        match k {
            0..=2 => {
                let (d, n) = (duration(s), m.timers.len());
                let t = then(s, n);
                let h = c.on_definition(|x| x.once(n, d, t.clone()));
                sh.lock().unwrap().handles.push(h);
                m.timers.push(Entry { due: Some(m.now + d), period: None, then: t });
            }
            3 => {
                let (d, p, n) = (duration(s), duration(s).max(40), m.timers.len());
                let mut t = then(s, n);
                if let Then::Once(_) = t {
                    t = Then::Cancel(n);
                }
                let h = c.on_definition(|x| x.periodic(n, d, p, t.clone()));
                sh.lock().unwrap().handles.push(h);
                m.timers.push(Entry { due: Some(m.now + d), period: Some(p), then: t });
            }
            4 => {
                if m.timers.is_empty() {
                    continue;
                }
                let i = s.upto(m.timers.len() - 1);
                let h = sh.lock().unwrap().handles[i].clone();
                c.on_definition(|x| x.cancel_timer(h));
                m.cancel(i);
            }
            5..=7 => {
                let d = match s.upto(3) {
                    0 => m.timers.iter().filter_map(|t| t.due).min().map_or(1, |d| d - m.now),
                    1 => m.timers.iter().filter_map(|t| t.due).min().map_or(1, |d| (d - m.now).saturating_sub(1)),
                    _ => duration(s).min(2000),
                };
                // Periodic timers must not pile up without end.
                let shortest = m.timers.iter().filter_map(|t| t.due.and(t.period)).min().unwrap_or(u64::MAX);
                let d = d.min(shortest.saturating_mul(20));
                sys.timer.advance_by(Duration::from_millis(d));
                m.advance(d);
            }
            8 => {
                let n = s.upto(2);
                sys.steps(s, n);
            }
            _ => sys.settle(),
        }
        // What ran since?
        let fired = sh.lock().unwrap().fired[seen..].to_vec();
        seen += fired.len();
        for n in fired {
            let first = m.queued.first().map(|q| q.0);
            let at = m.queued.iter().position(|q| q.1 == n);
            let Some(at) = at else { panic!("timer {n} fired although nothing is due") };
            assert_eq!(Some(m.queued[at].0), first, "timeouts run in the order they were due");
            m.queued.remove(at);
            match m.timers[n].then.clone() {
                Then::Cancel(k) if k < m.timers.len() => m.cancel(k),
                Then::Once(d) => {
                    let (i, d2) = sh.lock().unwrap().scheduled.remove(0);
                    assert_eq!((i, d2), (m.timers.len(), d));
                    m.timers.push(Entry { due: Some(m.now + d), period: None, then: Then::Nothing });
                }
                _ => (),
            }
        }
        if k == 9 {
            assert!(m.queued.is_empty(), "whatever is due has run");
        }
    }
    // Timers of a component that is gone are gone as well.
    sys.system.kill(c);
    sys.settle();
    sys.timer.advance_by(Duration::from_millis(200_000));
    assert!(sys.timer.is_idle(), "no timer outlives its component");
    assert_eq!(sh.lock().unwrap().fired.len(), seen);
}
