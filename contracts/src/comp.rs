//! C25: what a component is sent is handled exactly once and in order. C26: what a handler
//! returns, or a lifecycle command asks for, decides what becomes of the component.
//!
//! One component is driven through arbitrary histories on the deterministic scheduler of `sys`;
//! every handler it runs is logged and the log is judged by the monitor below.
use crate::{nondet::*, sys::*};
use kompact::prelude::*;
use std::{
    cell::RefCell,
    collections::{HashMap, VecDeque},
    pin::Pin,
    rc::Rc,
    sync::{
        Arc, Mutex,
        atomic::{AtomicBool, AtomicUsize, Ordering},
    },
    task::{Context, Poll, Waker},
};

/// Something a component can wait for.
#[derive(Default)]
pub struct Gate {
    open: AtomicBool,
    waker: Mutex<Option<Waker>>,
    /// How often the future gives way, and wakes itself, before it looks at the gate.
    yields: AtomicUsize,
}
impl std::fmt::Debug for Gate {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "gate")
    }
}
impl Gate {
    fn is_open(&self) -> bool {
        self.open.load(Ordering::SeqCst)
    }
    pub fn yielding(n: usize) -> Arc<Gate> {
        Arc::new(Gate { yields: AtomicUsize::new(n), ..Gate::default() })
    }
    pub async fn through(g: Arc<Gate>) {
        Through(g).await
    }
    pub fn open(&self) {
        self.open.store(true, Ordering::SeqCst);
        let w = self.waker.lock().unwrap().take();
        if let Some(w) = w {
            w.wake();
        }
    }
}
struct Through(Arc<Gate>);
impl std::future::Future for Through {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let n = self.0.yields.load(Ordering::SeqCst);
        if n > 0 {
            self.0.yields.store(n - 1, Ordering::SeqCst);
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        // Opened by another thread, the gate must find the waker or be found open.
        let mut w = self.0.waker.lock().unwrap();
        if self.0.is_open() {
            Poll::Ready(())
        } else {
            *w = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}

/// What a handler does before it returns, and what it returns.
#[derive(Clone, Debug)]
pub enum Act {
    Ok,
    Benign,
    Recoverable,
    Unrecoverable,
    Shutdown,
    Panic,
    /// Blocks the component on the gate; the rest follows once it is open.
    Block(Arc<Gate>, Box<Act>),
    /// Starts a future that waits for the gate, and carries on.
    Spawn(u64, Arc<Gate>, Box<Act>),
}

#[derive(Clone, Debug)]
pub struct Cmd {
    id: u64,
    act: Act,
}

pub struct Pipe;
impl Port for Pipe {
    type Indication = Cmd;
    type Request = Cmd;
}
pub struct Other;
impl Port for Other {
    type Indication = Cmd;
    type Request = Cmd;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ctl {
    Start,
    Stop,
    Kill,
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Ev {
    Handled(usize, u64),
    Resumed(u64),
    Spawned(u64),
    Life(Ctl),
    Recovery(String),
    Recovered,
}

/// Sources of work: messages, requests, indications, events on a second port.
const SOURCES: usize = 4;

#[derive(Default)]
struct Shared {
    log: Vec<Ev>,
    /// What the next lifecycle handlers do.
    plan: [VecDeque<Act>; 3],
}
type Log = Arc<Mutex<Shared>>;

#[derive(ComponentDefinition)]
pub struct Probe {
    ctx: ComponentContext<Self>,
    provided: ProvidedPort<Pipe>,
    required: RequiredPort<Pipe>,
    second: RequiredPort<Other>,
    log: Log,
}

#[derive(Debug)]
struct Planned(u64);
impl std::fmt::Display for Planned {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "planned {}", self.0)
    }
}
impl std::error::Error for Planned {}

fn life_id(c: Ctl) -> u64 {
    1_000_000 + c as u64
}

impl Probe {
    fn note(&self, e: Ev) {
        self.log.lock().unwrap().log.push(e);
    }
    fn perform(&mut self, id: u64, act: Act) -> HandlerResult {
        match act {
            Act::Ok => Handled::OK,
            Act::Benign => Err(HandlerError::benign(Planned(id))),
            Act::Recoverable => Err(HandlerError::recoverable(Planned(id))),
            Act::Unrecoverable => Err(HandlerError::unrecoverable(Planned(id))),
            Act::Shutdown => Ok(Handled::Shutdown),
            Act::Panic => std::panic::resume_unwind(Box::new(format!("planned {id}"))),
            Act::Block(gate, then) => Handled::block_on(self, move |mut me| async move {
                Through(gate).await;
                me.note(Ev::Resumed(id));
                me.perform(id, *then)
            }),
            Act::Spawn(sid, gate, then) => {
                self.spawn_local(move |mut me| async move {
                    Through(gate).await;
                    me.note(Ev::Spawned(sid));
                    me.perform(sid, *then)
                });
                Handled::OK
            }
        }
    }
    fn life(&mut self, c: Ctl) -> HandlerResult {
        self.note(Ev::Life(c));
        let act = self.log.lock().unwrap().plan[c as usize].pop_front().unwrap_or(Act::Ok);
        self.perform(life_id(c), act)
    }
    fn handle_cmd(&mut self, src: usize, c: Cmd) -> HandlerResult {
        self.note(Ev::Handled(src, c.id));
        self.perform(c.id, c.act)
    }
}
impl ComponentLifecycle for Probe {
    fn on_start(&mut self) -> HandlerResult {
        self.life(Ctl::Start)
    }
    fn on_stop(&mut self) -> HandlerResult {
        self.life(Ctl::Stop)
    }
    fn on_kill(&mut self) -> HandlerResult {
        self.life(Ctl::Kill)
    }
}
impl Actor for Probe {
    type Message = Cmd;
    fn receive_local(&mut self, msg: Cmd) -> HandlerResult {
        self.handle_cmd(0, msg)
    }
    fn receive_network(&mut self, _msg: NetMessage) -> HandlerResult {
        Handled::OK
    }
}
impl Provide<Pipe> for Probe {
    fn handle(&mut self, event: Cmd) -> HandlerResult {
        self.handle_cmd(1, event)
    }
}
impl Require<Pipe> for Probe {
    fn handle(&mut self, event: Cmd) -> HandlerResult {
        self.handle_cmd(2, event)
    }
}
impl Require<Other> for Probe {
    fn handle(&mut self, event: Cmd) -> HandlerResult {
        self.handle_cmd(3, event)
    }
}

thread_local! {
    static SYSTEMS: RefCell<HashMap<usize, Rc<Sys>>> = RefCell::new(HashMap::new());
}

pub fn reset() {
    SYSTEMS.with(|m| std::mem::forget(std::mem::take(&mut *m.borrow_mut())));
}

/// Systems that run a component for one, a few, or many work items at a time.
fn system(k: usize) -> Rc<Sys> {
    SYSTEMS.with(|m| {
        m.borrow_mut()
            .entry(k)
            .or_insert_with(|| {
                let (t, p) = [(50, 0.5), (1, 0.5), (3, 0.4), (4, 0.99), (5, 0.01)][k];
                Rc::new(Sys::build(|c| {
                    c.throughput(t).msg_priority(p);
                }))
            })
            .clone()
    })
}

/// The state the log shows.
#[derive(Clone, Debug)]
enum St {
    Passive,
    Active,
    Blocked { id: u64, gate: Arc<Gate>, then: Act, after: After },
    Faulty,
    Dead,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum After {
    Active,
    Started,
    Stopped,
    Killed,
    /// A spawned future ends: nothing changes.
    Same,
}

struct Monitor {
    st: St,
    seen: usize,
    sent: [VecDeque<Cmd>; SOURCES],
    ctl: VecDeque<Ctl>,
    plan: [VecDeque<Act>; 3],
    spawned: HashMap<u64, (Arc<Gate>, Act)>,
    /// The fault the recovery function has to be told about next.
    fault: Option<String>,
    faults: usize,
    recovered: usize,
    /// on_kill has to run next, as part of a shutdown the handler asked for.
    dying: bool,
    done: [usize; 3],
    /// Completed without a fault.
    ended: bool,
}

impl Monitor {
    fn apply(&mut self, id: u64, act: Act, after: After) {
        match act {
            Act::Ok | Act::Benign => self.finish(after),
            Act::Spawn(sid, gate, then) => {
                self.spawned.insert(sid, (gate, *then));
                self.finish(after)
            }
            Act::Recoverable | Act::Panic => {
                self.st = St::Faulty;
                self.fault = Some(format!("planned {id}"));
                self.faults += 1;
            }
            Act::Unrecoverable => {
                self.st = St::Dead;
                self.ended = true;
            }
            Act::Shutdown => {
                self.st = St::Dead;
                self.ended = true;
                self.dying = after != After::Killed;
            }
            Act::Block(gate, then) => self.st = St::Blocked { id, gate, then: *then, after },
        }
    }
    fn finish(&mut self, after: After) {
        match after {
            After::Active => self.st = St::Active,
            After::Started => {
                self.st = St::Active;
                self.done[0] += 1;
            }
            After::Stopped => {
                self.st = St::Passive;
                self.done[1] += 1;
            }
            After::Killed => {
                self.st = St::Dead;
                self.ended = true;
                self.done[2] += 1;
            }
            After::Same => (),
        }
    }
    fn step(&mut self, e: &Ev) {
        if let Some(f) = self.fault.take() {
            assert_eq!(*e, Ev::Recovery(f), "a fault is passed to the recovery function at once");
            return;
        }
        if self.dying {
            assert_eq!(*e, Ev::Life(Ctl::Kill), "a component that shuts down is cleaned up next");
            self.dying = false;
            self.plan[2].pop_front();
            return;
        }
        match e {
            Ev::Recovered => {
                self.recovered += 1;
                assert!(self.recovered <= self.faults, "recovery runs once per fault");
            }
            Ev::Recovery(f) => panic!("recovery without a fault: {f}"),
            Ev::Handled(src, id) => {
                assert!(matches!(self.st, St::Active), "events are handled only while active, not {:?}: {e:?}", self.st);
                let c = self.sent[*src].pop_front().expect("only what was sent is handled");
                assert_eq!(c.id, *id, "events are handled in the order they were sent");
                self.apply(c.id, c.act, After::Active);
            }
            Ev::Resumed(i) => match self.st.clone() {
                St::Blocked { id, gate, then, after } => {
                    assert_eq!(id, *i, "only the future that is waited for goes on");
                    assert!(gate.is_open());
                    self.apply(id, then, after);
                }
                s => panic!("a future went on while the component was {s:?}"),
            },
            Ev::Spawned(id) => {
                assert!(matches!(self.st, St::Active | St::Passive), "futures make no progress while the component is {:?}", self.st);
                let (gate, then) = self.spawned.remove(id).expect("futures end once");
                assert!(gate.is_open());
                self.apply(*id, then, match self.st {
                    St::Active => After::Active,
                    _ => After::Same,
                });
            }
            Ev::Life(c) => {
                assert!(matches!(self.st, St::Active | St::Passive), "lifecycle handlers do not run while the component is {:?}", self.st);
                assert_eq!(self.ctl.pop_front(), Some(*c), "lifecycle events are handled in the order they were given");
                let act = self.plan[*c as usize].pop_front().unwrap_or(Act::Ok);
                self.apply(life_id(*c), act, [After::Started, After::Stopped, After::Killed][*c as usize]);
            }
        }
    }
}

struct Run {
    sys: Rc<Sys>,
    component: Arc<Component<Probe>>,
    log: Log,
    m: Monitor,
    refs: (ProvidedRef<Pipe>, RequiredRef<Pipe>, RequiredRef<Other>),
    gates: Vec<Arc<Gate>>,
    next: u64,
    /// Who waits for a lifecycle event: its number, and how many there were at the time.
    waits: Vec<(Ctl, usize, usize, KFuture<()>)>,
    given: [usize; 3],
    /// Kills have outcomes of their own; then no handler asks to shut down.
    kills: bool,
    killing: bool,
}

impl Run {
    fn new(sys: Rc<Sys>) -> Run {
        let log: Log = Arc::default();
        let l2 = log.clone();
        let component = sys.system.create(move || Probe {
            ctx: ComponentContext::uninitialised(),
            provided: ProvidedPort::uninitialised(),
            required: RequiredPort::uninitialised(),
            second: RequiredPort::uninitialised(),
            log: l2,
        });
        let l3 = log.clone();
        component.set_recovery_function(move |ctx| {
            let text = match &ctx.fault {
                Fault::Panic(p) => p.downcast_ref::<String>().cloned().unwrap_or_default(),
                Fault::Handler(f) => f.to_string(),
            };
            l3.lock().unwrap().log.push(Ev::Recovery(text));
            let l4 = l3.clone();
            ctx.recover_with(move |_, _, _| l4.lock().unwrap().log.push(Ev::Recovered))
        });
        let refs = component.on_definition(|d| (d.provided.share(), d.required.share(), d.second.share()));
        Run {
            refs,
            sys,
            component,
            log,
            m: Monitor {
                st: St::Passive,
                seen: 0,
                sent: Default::default(),
                ctl: VecDeque::new(),
                plan: Default::default(),
                spawned: HashMap::new(),
                fault: None,
                faults: 0,
                recovered: 0,
                dying: false,
                done: [0; 3],
                ended: false,
            },
            gates: Vec::new(),
            next: 0,
            waits: Vec::new(),
            given: [0; 3],
            kills: false,
            killing: false,
        }
    }

    fn gate<S: Src>(&mut self, s: &mut S) -> Arc<Gate> {
        let g = Gate::yielding(if s.upto(3) == 0 { s.upto(3) } else { 0 });
        if s.u8() % 3 == 0 {
            g.open();
        } else {
            self.gates.push(g.clone());
        }
        g
    }

    /// `mild`: nothing that ends the component.
    fn act<S: Src>(&mut self, s: &mut S, mild: bool, depth: usize) -> Act {
        let k = s.upto(if mild { 9 } else { 15 });
        match k {
            0..=4 => Act::Ok,
            5 => Act::Benign,
            6 | 7 if depth < 2 => {
                let g = self.gate(s);
                Act::Block(g, Box::new(self.act(s, mild, depth + 1)))
            }
            8 | 9 if depth < 2 => {
                let g = self.gate(s);
                self.next += 1;
                let id = 2_000_000 + self.next;
                Act::Spawn(id, g, Box::new(self.act(s, mild, 2)))
            }
            10 | 11 => Act::Recoverable,
            12 => Act::Unrecoverable,
            13 if self.kills && !self.killing => Act::Ok,
            13 => Act::Shutdown,
            14 | 15 => Act::Panic,
            _ => Act::Ok,
        }
    }

    fn kill<S: Src>(&mut self, s: &mut S) {
        let mut a = None;
        if self.kills {
            self.killing = true;
            a = Some(self.act(s, false, 0));
            self.killing = false;
        }
        self.control(s, Ctl::Kill, a);
    }

    fn control<S: Src>(&mut self, s: &mut S, c: Ctl, act: Option<Act>) {
        let over = matches!(self.m.st, St::Dead | St::Faulty);
        if let Some(act) = act {
            self.log.lock().unwrap().plan[c as usize].push_back(act.clone());
            self.m.plan[c as usize].push_back(act);
        } else {
            self.log.lock().unwrap().plan[c as usize].push_back(Act::Ok);
            self.m.plan[c as usize].push_back(Act::Ok);
        }
        self.m.ctl.push_back(c);
        let sys = &self.sys.system;
        self.given[c as usize] += 1;
        if s.bool() && !over {
            let f = match c {
                Ctl::Start => sys.start_notify(&self.component),
                Ctl::Stop => sys.stop_notify(&self.component),
                Ctl::Kill => sys.kill_notify(self.component.clone()),
            };
            self.waits.push((c, self.given[c as usize], self.m.done[c as usize], f));
        } else {
            match c {
                Ctl::Start => sys.start(&self.component),
                Ctl::Stop => sys.stop(&self.component),
                Ctl::Kill => sys.kill(self.component.clone()),
            }
        }
    }

    fn send<S: Src>(&mut self, s: &mut S, src: usize, act: Act) {
        self.next += 1;
        let c = Cmd { id: self.next, act };
        self.m.sent[src].push_back(c.clone());
        match src {
            0 => match s.u8() % 3 {
                0 => self.component.actor_ref().tell(c),
                1 => self.component.actor_ref().hold().expect("live").tell(c),
                _ => self.component.actor_ref().recipient::<Cmd>().tell(c),
            },
            1 => {
                self.sys.system.trigger_r(c, &self.refs.0);
            }
            2 => {
                self.sys.system.trigger_i(c, &self.refs.1);
            }
            _ => {
                self.sys.system.trigger_i(c, &self.refs.2);
            }
        }
    }

    fn watch(&mut self) {
        let log = self.log.lock().unwrap().log[self.m.seen..].to_vec();
        self.m.seen += log.len();
        for e in &log {
            self.m.step(e);
        }
    }

    fn waiting(&self) -> bool {
        self.m.sent.iter().any(|q| !q.is_empty())
    }

    /// Runs until nothing happens any more and judges the result.
    fn settle<S: Src>(&mut self, s: &mut S) {
        // A stopped component with work left keeps being scheduled: give it a number of turns.
        for _ in 0..3 {
            if !self.sys.steps(s, 40) {
                self.watch();
                if matches!(self.m.st, St::Passive) && self.m.ctl.is_empty() {
                    continue;
                }
                let mut n = 0;
                while !self.sys.steps(s, 40) {
                    self.watch();
                    if matches!(self.m.st, St::Passive) && self.m.ctl.is_empty() && self.waiting() {
                        break;
                    }
                    n += 1;
                    assert!(n < 1000, "the component keeps running without work");
                }
            }
        }
        self.watch();
        assert!(self.m.fault.is_none() && !self.m.dying, "recovery and cleanup happen at once");
        let c = &self.component;
        match &self.m.st {
            St::Active => {
                assert!(c.is_active(), "the component is active");
                assert!(!self.waiting(), "everything sent to an active component is handled");
                assert!(self.m.ctl.is_empty(), "lifecycle events are handled");
            }
            St::Passive => {
                assert!(!c.is_active() && !c.is_faulty() && !c.is_destroyed(), "the component is stopped");
                assert!(self.m.ctl.is_empty(), "lifecycle events are handled");
            }
            St::Blocked { gate, .. } => {
                assert!(!gate.is_open(), "a future that can go on lets the component go on; log: {:?}", self.log.lock().unwrap().log);
                assert!(!c.is_active() && !c.is_faulty() && !c.is_destroyed(), "the component is blocked");
            }
            St::Faulty => assert!(c.is_faulty() && !c.is_destroyed(), "the component is faulty"),
            St::Dead => assert!(c.is_destroyed() && !c.is_faulty(), "the component is destroyed"),
        }
        if matches!(self.m.st, St::Active | St::Passive) {
            assert!(!self.m.spawned.values().any(|(g, _)| g.is_open()), "futures that can end have ended");
        }
        assert_eq!(self.m.recovered, self.m.faults, "the supervisor recovers every fault");
        let done = self.m.done;
        let ended = self.m.ended;
        self.waits.retain_mut(|(c, n, before, f)| {
            let r = poll(f);
            if done[*c as usize] >= *n || (*c == Ctl::Kill && ended) {
                assert!(matches!(r, Some(Ok(()))), "whoever waits for {c:?} is told: {r:?}");
                false
            } else {
                assert!(!matches!(r, Some(Ok(()))) || done[*c as usize] > *before, "nobody is told of {c:?} before it happened");
                r.is_none()
            }
        });
    }
}

fn history<S: Src>(s: &mut S, mild: bool) {
    let k = s.upto(4);
    let mut r = Run::new(system(k));
    r.kills = !mild && s.bool();
    let n = 4 + s.upto(20);
    if s.upto(7) > 0 {
        let a = if s.bool() { Some(r.act(s, mild, 0)) } else { None };
        r.control(s, Ctl::Start, a);
    }
    for _ in 0..n {
        match s.upto(11) {
            0..=3 => {
                let burst = 1 + s.upto(4);
                for _ in 0..burst {
                    let src = s.upto(SOURCES - 1);
                    let a = r.act(s, mild, 0);
                    r.send(s, src, a);
                }
            }
            4 => {
                let src = s.upto(SOURCES - 1);
                for _ in 0..s.upto(9) {
                    r.send(s, src, Act::Ok);
                }
            }
            5 => {
                let m = s.upto(4);
                r.sys.clone().steps(s, m);
                r.watch();
            }
            6 => r.settle(s),
            7 | 8 => {
                if !r.gates.is_empty() {
                    let i = s.upto(r.gates.len() - 1);
                    let g = r.gates.remove(i);
                    g.open();
                }
            }
            9 => {
                let a = if s.bool() { Some(r.act(s, mild, 0)) } else { None };
                r.control(s, Ctl::Stop, a);
            }
            10 => {
                let a = if s.bool() { Some(r.act(s, mild, 0)) } else { None };
                r.control(s, Ctl::Start, a);
            }
            _ => {
                if !mild && s.upto(3) == 0 {
                    r.kill(s);
                }
            }
        }
    }
    r.settle(s);
    for g in std::mem::take(&mut r.gates) {
        g.open();
    }
    r.settle(s);
    // Let it finish its work, then get rid of it.
    if matches!(r.m.st, St::Passive) {
        r.control(s, Ctl::Start, None);
        r.settle(s);
    }
    if !matches!(r.m.st, St::Dead | St::Faulty) {
        r.kill(s);
        r.settle(s);
        for g in std::mem::take(&mut r.gates) {
            g.open();
        }
        r.settle(s);
        assert!(matches!(r.m.st, St::Dead | St::Faulty), "a component that is killed ends");
    }
    let c = r.component.clone();
    drop(r);
    drop(c);
}

/// Messages, port events and futures of a component that never fails.
pub fn mailbox<S: Src>(s: &mut S) {
    history(s, true)
}

/// The same with handlers that fail, panic or shut down, and with kills.
pub fn outcomes<S: Src>(s: &mut S) {
    history(s, false)
}

/// Events waiting on several ports are handled in turns, whatever the throughput.
pub fn turns<S: Src>(s: &mut S) {
    let k = s.upto(4);
    let mut r = Run::new(system(k));
    r.control(s, Ctl::Start, None);
    r.settle(s);
    let mut left = [0usize; SOURCES];
    for src in 1..SOURCES {
        left[src] = s.upto(12);
        for _ in 0..left[src] {
            r.send(s, src, Act::Ok);
        }
    }
    let from = r.m.seen;
    r.settle(s);
    let log = r.log.lock().unwrap().log[from..].to_vec();
    // How often others were served since it was last the turn of each port.
    let mut since = [[0usize; SOURCES]; SOURCES];
    for e in &log {
        let Ev::Handled(src, _) = e else { panic!("only events are handled") };
        left[*src] -= 1;
        since[*src] = [0; SOURCES];
        for other in 1..SOURCES {
            if other != *src && left[other] > 0 {
                since[other][*src] += 1;
                assert!(since[other][*src] <= 2, "a port with events waiting gets its turn");
            }
        }
    }
    r.control(s, Ctl::Kill, None);
    r.settle(s);
}

#[derive(ComponentDefinition)]
struct Mortal {
    ctx: ComponentContext<Self>,
    me: usize,
    log: Arc<Mutex<Vec<(usize, &'static str)>>>,
    kill: Act,
}
impl Mortal {
    fn note(&self, what: &'static str) {
        self.log.lock().unwrap().push((self.me, what));
    }
}
impl ComponentLifecycle for Mortal {
    fn on_stop(&mut self) -> HandlerResult {
        self.note("stop");
        Handled::OK
    }
    fn on_kill(&mut self) -> HandlerResult {
        self.note("kill");
        match self.kill.clone() {
            Act::Ok => Handled::OK,
            Act::Benign => Err(HandlerError::benign(Planned(0))),
            Act::Shutdown => Ok(Handled::Shutdown),
            Act::Block(g, _) => Handled::block_on(self, move |mut me| async move {
                Through(g).await;
                me.note("killed");
                Handled::OK
            }),
            Act::Recoverable => Err(HandlerError::recoverable(Planned(0))),
            _ => Err(HandlerError::unrecoverable(Planned(0))),
        }
    }
}
impl Actor for Mortal {
    type Message = Act;
    fn receive_local(&mut self, a: Act) -> HandlerResult {
        self.note("message");
        match a {
            Act::Benign => Err(HandlerError::benign(Planned(0))),
            Act::Recoverable => Err(HandlerError::recoverable(Planned(0))),
            Act::Unrecoverable => Err(HandlerError::unrecoverable(Planned(0))),
            Act::Shutdown => Ok(Handled::Shutdown),
            Act::Block(g, _) => Handled::block_on(self, move |mut me| async move {
                Through(g).await;
                me.note("unblocked");
                Handled::OK
            }),
            _ => Handled::OK,
        }
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

/// Shutting the system down kills every component that lives, and then is done.
pub fn shutdown_ends_everything<S: Src>(s: &mut S) {
    let mut y = Sys::build(|_| ());
    let log: Arc<Mutex<Vec<(usize, &'static str)>>> = Arc::default();
    let mut gates: Vec<Arc<Gate>> = Vec::new();
    let mut gate = |gates: &mut Vec<Arc<Gate>>| {
        let g: Arc<Gate> = Arc::default();
        gates.push(g.clone());
        g
    };
    let n = s.upto(5);
    let all: Vec<Arc<Component<Mortal>>> = (0..n)
        .map(|me| {
            let l2 = log.clone();
            let kill = match s.upto(6) {
                0 => Act::Benign,
                1 => Act::Shutdown,
                2 => Act::Block(gate(&mut gates), Box::new(Act::Ok)),
                3 => Act::Unrecoverable,
                4 => Act::Recoverable,
                _ => Act::Ok,
            };
            y.system.create(move || Mortal { ctx: ComponentContext::uninitialised(), me, log: l2, kill })
        })
        .collect();
    let started: Vec<bool> = all
        .iter()
        .map(|c| {
            let start = s.upto(7) > 0;
            if start {
                y.system.start(c);
            }
            start
        })
        .collect();
    y.settle();
    let mut ended: Vec<bool> = vec![false; n];
    let mut failing = ended.clone();
    for _ in 0..s.upto(8) {
        if n == 0 {
            break;
        }
        let i = s.upto(n - 1);
        let k = s.upto(9);
        failing[i] |= matches!(k, 2 | 8 | 9);
        match k {
            8 => all[i].actor_ref().tell(Act::Recoverable),
            9 => all[i].actor_ref().tell(Act::Unrecoverable),
            0 => all[i].actor_ref().tell(Act::Block(gate(&mut gates), Box::new(Act::Ok))),
            1 => all[i].actor_ref().tell(Act::Benign),
            2 => all[i].actor_ref().tell(Act::Shutdown),
            3 if !ended[i] => y.system.stop(&all[i]),
            4 if !ended[i] => {
                ended[i] = true;
                y.system.kill(all[i].clone());
            }
            5 => {
                if !gates.is_empty() {
                    gates.remove(s.upto(gates.len() - 1)).open();
                }
            }
            6 => {
                y.steps(s, 4);
            }
            _ => all[i].actor_ref().tell(Act::Ok),
        }
    }
    let mut f = y.system.clone().shutdown();
    let mut done = false;
    for i in 0..20_000 {
        if let Some(r) = poll(&mut f) {
            r.expect("shutdown");
            done = true;
            break;
        }
        y.steps(s, 40);
        if i % 3 == 0 && !gates.is_empty() {
            gates.remove(s.upto(gates.len() - 1)).open();
        }
        if i > 100 {
            std::thread::sleep(std::time::Duration::from_micros(if i > 2000 { 1000 } else { 100 }));
        }
    }
    let trace = log.lock().unwrap().clone();
    assert!(done, "shutting down does not end; log: {trace:?}");
    for (i, c) in all.iter().enumerate() {
        let kills = trace.iter().filter(|(me, w)| *me == i && *w == "kill").count();
        if c.is_faulty() {
            assert!(kills <= 1, "on_kill of {i}; log: {trace:?}");
        } else if started[i] {
            assert!(c.is_destroyed(), "{i} survives the shutdown; log: {trace:?}");
            assert!(kills == 1 || kills == 0 && failing[i], "on_kill of {i}: {kills}; log: {trace:?}");
        } else {
            assert!(kills <= 1, "on_kill of {i}; log: {trace:?}");
        }
        if started[i] {
            c.actor_ref().tell(Act::Ok);
        }
    }
    y.steps(s, 100);
    let more: Vec<_> = log.lock().unwrap()[trace.len()..].iter().filter(|(me, _)| started[*me]).copied().collect();
    assert!(more.is_empty(), "after the shutdown: {more:?}, before: {trace:?}");
    y.sinks.clear();
}
