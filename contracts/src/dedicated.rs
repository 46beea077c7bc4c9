//! C27: a component with a thread of its own runs everything there, and nothing is lost.
use crate::{
    comp::{Gate},
    nondet::*,
    sys::*,
};
use kompact::prelude::*;
use std::{
    collections::VecDeque,
    sync::{Arc, Mutex},
    thread::{self, ThreadId},
    time::{Duration, Instant},
};

/// Messages, requests, indications of two ports, timeouts.
const SOURCES: usize = 5;

#[derive(Default)]
struct Shared {
    ran: Vec<(Vec<u64>, ThreadId)>,
}

/// What the component is to do: log the number; then perhaps wait, start a future, or a timer.
#[derive(Clone, Debug)]
pub enum Do {
    Log,
    Block(Arc<Gate>),
    Spawn(Arc<Gate>, u64),
    Timer(u64, u64),
}

#[derive(ComponentDefinition)]
pub struct Own {
    ctx: ComponentContext<Self>,
    provided: ProvidedPort<OwnPort>,
    required: RequiredPort<OwnPort>,
    second: RequiredPort<OwnOther>,
    sh: Arc<Mutex<Shared>>,
}
pub struct OwnPort;
impl Port for OwnPort {
    type Indication = (u64, Do);
    type Request = (u64, Do);
}
pub struct OwnOther;
impl Port for OwnOther {
    type Indication = (u64, Do);
    type Request = Never;
}

impl Own {
    fn note(&self, source: u64, id: u64) {
        self.sh.lock().unwrap().ran.push((vec![source, id], thread::current().id()));
    }
    fn act(&mut self, source: u64, id: u64, what: Do) -> HandlerResult {
        self.note(source, id);
        match what {
            Do::Log => Handled::OK,
            Do::Block(g) => Handled::block_on(self, move |me| async move {
                Gate::through(g).await;
                me.note(10, id);
                Handled::OK
            }),
            Do::Spawn(g, n) => {
                self.spawn_local(move |me| async move {
                    Gate::through(g).await;
                    me.note(11, n);
                    Handled::OK
                });
                Handled::OK
            }
            Do::Timer(ms, n) => {
                self.schedule_once(Duration::from_millis(ms), move |me, _| {
                    me.note(4, n);
                    Handled::OK
                });
                Handled::OK
            }
        }
    }
}
impl ComponentLifecycle for Own {
    fn on_start(&mut self) -> HandlerResult {
        self.note(20, 0);
        Handled::OK
    }
    fn on_stop(&mut self) -> HandlerResult {
        self.note(21, 0);
        Handled::OK
    }
    fn on_kill(&mut self) -> HandlerResult {
        self.note(22, 0);
        Handled::OK
    }
}
impl Actor for Own {
    type Message = (u64, Do);
    fn receive_local(&mut self, (id, w): (u64, Do)) -> HandlerResult {
        self.act(0, id, w)
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}
impl Provide<OwnPort> for Own {
    fn handle(&mut self, (id, w): (u64, Do)) -> HandlerResult {
        self.act(1, id, w)
    }
}
impl Require<OwnPort> for Own {
    fn handle(&mut self, (id, w): (u64, Do)) -> HandlerResult {
        self.act(2, id, w)
    }
}
impl Require<OwnOther> for Own {
    fn handle(&mut self, (id, w): (u64, Do)) -> HandlerResult {
        self.act(3, id, w)
    }
}

fn patiently(sys: &Sys, what: &str, mut done: impl FnMut() -> bool) {
    let t0 = Instant::now();
    let mut n = 0u32;
    loop {
        if done() {
            return;
        }
        sys.settle();
        if done() {
            return;
        }
        assert!(t0.elapsed() < Duration::from_secs(20), "{what}");
        n += 1;
        if n < 2000 {
            thread::yield_now();
        } else {
            thread::sleep(Duration::from_millis(1));
        }
    }
}

/// A gate; some futures wake themselves often before they look at it.
fn yielding<S: Src>(s: &mut S) -> Arc<Gate> {
    Gate::yielding(if s.upto(2) == 0 { s.upto(40) } else { 0 })
}

pub fn runs_on_its_own_thread<S: Src>(s: &mut S) {
    let sys = sys();
    let sh: Arc<Mutex<Shared>> = Arc::default();
    let s2 = sh.clone();
    let c = sys.system.create_dedicated(move || Own {
        ctx: ComponentContext::uninitialised(),
        provided: ProvidedPort::uninitialised(),
        required: RequiredPort::uninitialised(),
        second: RequiredPort::uninitialised(),
        sh: s2,
    });
    let refs = (c.actor_ref(), c.on_definition(|d| (d.provided.share(), d.required.share(), d.second.share())));
    // What has to be logged, per source, in order; futures in any order.
    let mut want: [VecDeque<u64>; SOURCES] = Default::default();
    let mut loose: Vec<Vec<u64>> = Vec::new();
    let mut gates: Vec<Arc<Gate>> = Vec::new();
    let mut seen = 0;
    let mut next = 0;
    let mut life: Vec<u64> = Vec::new();
    let mut thread_id = None;
    let mut started = false;
    let ops = 2 + s.upto(14);
    for op in 0..=ops {
        match if op == ops { 9 } else { s.upto(9) } {
            0..=4 => {
                next += 1;
                let id = next;
                let source = s.upto(3);
                let w = match s.upto(6) {
                    0 => {
                        let g = yielding(s);
                        gates.push(g.clone());
                        loose.push(vec![10, id]);
                        Do::Block(g)
                    }
                    1 => {
                        let g = yielding(s);
                        gates.push(g.clone());
                        loose.push(vec![11, id]);
                        Do::Spawn(g, id)
                    }
                    2 => {
                        loose.push(vec![4, id]);
                        Do::Timer(1 + s.upto(20) as u64, id)
                    }
                    _ => Do::Log,
                };
                want[source].push_back(id);
                match source {
                    0 => refs.0.tell((id, w)),
                    1 => sys.system.trigger_r((id, w), &refs.1.0),
                    2 => sys.system.trigger_i((id, w), &refs.1.1),
                    _ => sys.system.trigger_i((id, w), &refs.1.2),
                }
            }
            5 => {
                if !started {
                    started = true;
                    life.push(20);
                    sys.system.start(&c);
                }
            }
            6 => {
                if !gates.is_empty() {
                    let g = gates.remove(s.upto(gates.len() - 1));
                    g.open();
                }
            }
            7 => sys.timer.advance_by(Duration::from_millis(1 + s.upto(10) as u64)),
            8 => sys.settle(),
            _ => {
                // Everything is done in the end.
                if !started {
                    started = true;
                    life.push(20);
                    sys.system.start(&c);
                }
                gates.drain(..).for_each(|g| g.open());
                let total = life.len() + loose.len() + want.iter().map(|w| w.len()).sum::<usize>();
                patiently(&sys, "a dedicated component has work but does not run", || {
                    sys.timer.advance_by(Duration::from_millis(7));
                    sh.lock().unwrap().ran.len() >= seen + total
                });
            }
        }
        // What has run so far is right, and ran on the same foreign thread.
        let ran = sh.lock().unwrap().ran[seen..].to_vec();
        seen += ran.len();
        for (e, t) in ran {
            assert_ne!(t, thread::current().id(), "{e:?} ran on a thread of the pool");
            assert_eq!(*thread_id.get_or_insert(t), t, "{e:?} ran on another thread");
            let ok = match e[0] {
                0..=3 => want[e[0] as usize].pop_front() == Some(e[1]),
                20..=22 => (!life.is_empty()).then(|| life.remove(0)) == Some(e[0]),
                _ => match loose.iter().position(|l| *l == e) {
                    Some(i) => {
                        loose.remove(i);
                        true
                    }
                    None => false,
                },
            };
            assert!(ok, "{e:?} ran twice, unasked or out of order");
        }
        if op == ops {
            assert!(life.is_empty() && loose.is_empty() && want.iter().all(|w| w.is_empty()));
        }
    }
    if s.bool() {
        let mut f = sys.system.stop_notify(&c);
        patiently(&sys, "a dedicated component does not stop", || poll(&mut f).is_some());
        life.push(21);
    }
    let mut f = sys.system.kill_notify(c.clone());
    patiently(&sys, "a dedicated component does not end", || poll(&mut f).is_some());
    life.push(22);
    patiently(&sys, "a killed component is not destroyed", || c.is_destroyed());
    refs.0.tell((0, Do::Log));
    for (e, t) in &sh.lock().unwrap().ran[seen..] {
        assert_eq!(Some(*t), thread_id, "{e:?} ran on another thread");
        assert_eq!((!life.is_empty()).then(|| life.remove(0)), Some(e[0]));
    }
    assert!(life.is_empty());
    drop((c, refs));
    // The thread lets go of the component.
    patiently(&sys, "the thread of a killed component keeps it alive", || Arc::strong_count(&sh) == 1);
}
