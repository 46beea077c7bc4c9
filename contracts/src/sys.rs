//! A Kompact system whose components only run when the contract says so, on its own thread.
use crate::nondet::*;
use kompact::{
    component::SchedulingDecision,
    default_components::install_manual_timer,
    messaging::NetMessage,
    prelude::*,
    runtime::{Scheduler, SchedulerShutdownError},
    timer::ManualTimer,
};
use uuid::Uuid;
use std::{
    cell::RefCell,
    collections::VecDeque,
    future::Future,
    pin::Pin,
    rc::Rc,
    sync::{Arc, Mutex, MutexGuard},
    task::{Context, Poll, Waker},
};

type Task = Pin<Box<dyn Future<Output = ()> + Send>>;

#[derive(Default)]
struct Inner {
    ready: VecDeque<Arc<dyn CoreContainer>>,
    tasks: Vec<Task>,
    poisoned: bool,
    /// A component was handed over while it was still waiting to run.
    twice: bool,
    /// Schedule calls seen, by component.
    calls: u64,
}

#[derive(Clone, Default)]
pub struct Steps(Arc<Mutex<Inner>>);

impl Steps {
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}

impl Scheduler for Steps {
    fn schedule(&self, c: Arc<dyn CoreContainer>) {
        let mut i = self.lock();
        i.calls += 1;
        if i.ready.iter().any(|x| x.id() == c.id()) {
            i.twice = true;
        }
        i.ready.push_back(c);
    }
    fn shutdown_async(&self) {}
    fn shutdown(&self) -> Result<(), SchedulerShutdownError> {
        Ok(())
    }
    fn box_clone(&self) -> Box<dyn Scheduler> {
        Box::new(self.clone())
    }
    fn poison(&self) {
        self.lock().poisoned = true;
    }
    fn spawn(&self, future: Task) {
        self.lock().tasks.push(future);
    }
}

pub struct Sys {
    pub system: KompactSystem,
    pub timer: ManualTimer,
    steps: Steps,
    pub sinks: Vec<Sink>,
}

/// Polls a future once.
pub fn poll<F: Future + Unpin>(f: &mut F) -> Option<F::Output> {
    let mut cx = Context::from_waker(Waker::noop());
    match Pin::new(f).poll(&mut cx) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}

impl Sys {
    pub fn build(change: impl FnOnce(&mut KompactConfig)) -> Sys {
        Self::try_build(change).expect("system")
    }

    /// None: the configuration is refused.
    pub fn try_build(change: impl FnOnce(&mut KompactConfig)) -> Option<Sys> {
        let steps = Steps::default();
        let mut cfg = KompactConfig::default();
        cfg.logger(kompact_logger());
        let s2 = steps.clone();
        cfg.scheduler(move |_| Box::new(s2.clone()));
        let timer = install_manual_timer(&mut cfg);
        change(&mut cfg);
        let mut f = cfg.build();
        for _ in 0..1000 {
            if let Some(r) = poll(&mut f) {
                return Some(Sys { system: r.ok()?, timer, steps, sinks: Vec::new() });
            }
            run(&steps, 1000, |_| 0);
        }
        panic!("the system does not start");
    }

    /// Shuts the system down.
    pub fn end(self) {
        let mut f = self.system.clone().shutdown();
        // The scheduler is shut down on a thread of its own.
        for i in 0..20_000 {
            if let Some(r) = poll(&mut f) {
                return r.expect("shutdown");
            }
            run(&self.steps, 20_000, |_| 0);
            if i > 50 {
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
        }
        panic!("shutdown does not complete");
    }

    /// Runs components until none is ready.
    pub fn settle(&self) {
        assert!(run(&self.steps, 20_000, |_| 0), "components keep running without work");
        self.check();
    }

    /// Runs ready components in an arbitrary order, at most `max` executions.
    pub fn steps<S: Src>(&self, s: &mut S, max: usize) -> bool {
        let r = run(&self.steps, max, |n| if n > 1 { s.u8() as usize % n } else { 0 });
        self.check();
        r
    }

    fn check(&self) {
        let mut i = self.steps.lock();
        let t = std::mem::take(&mut i.twice);
        drop(i);
        assert!(!t, "a component that is waiting to run is not scheduled again");
    }

    pub fn ready(&self) -> usize {
        self.steps.lock().ready.len()
    }

    pub fn is_ready(&self, id: Uuid) -> bool {
        self.steps.lock().ready.iter().any(|c| c.id() == id)
    }

    pub fn poisoned(&self) -> bool {
        self.steps.lock().poisoned
    }

    /// Runs until the future is done.
    pub fn wait<F: Future + Unpin>(&self, mut f: F, what: &str) -> F::Output {
        for _ in 0..1000 {
            if let Some(r) = poll(&mut f) {
                return r;
            }
            run(&self.steps, 20_000, |_| 0);
        }
        panic!("{what} does not complete");
    }

    pub fn grow_sinks(&mut self, n: usize) {
        while self.sinks.len() < n {
            let sink = Sink::start(self);
            self.sinks.push(sink);
        }
    }

    /// The messages every sink got since the last call.
    pub fn received(&self) -> Vec<Vec<u64>> {
        self.settle();
        self.sinks.iter().map(|s| s.take()).collect()
    }
}

fn run(steps: &Steps, max: usize, mut pick: impl FnMut(usize) -> usize) -> bool {
    for _ in 0..max {
        let (c, tasks) = {
            let mut i = steps.lock();
            let tasks = std::mem::take(&mut i.tasks);
            if i.ready.is_empty() {
                (None, tasks)
            } else {
                let n = i.ready.len();
                let at = pick(n);
                (i.ready.remove(at), tasks)
            }
        };
        let mut pending = Vec::new();
        let mut cx = Context::from_waker(Waker::noop());
        for mut t in tasks {
            if t.as_mut().poll(&mut cx).is_pending() {
                pending.push(t);
            }
        }
        steps.lock().tasks.append(&mut pending);
        match c {
            None => return true,
            Some(c) => loop {
                match c.execute() {
                    SchedulingDecision::Schedule => {
                        steps.schedule(c);
                        break;
                    }
                    SchedulingDecision::Resume => continue,
                    _ => break,
                }
            },
        }
    }
    let i = steps.lock();
    i.ready.is_empty()
}

pub fn kompact_logger() -> kompact::KompactLogger {
    // Quiet, but the drain type must be the one Kompact uses.
    use slog::Drain;
    static ONE: std::sync::OnceLock<kompact::KompactLogger> = std::sync::OnceLock::new();
    ONE.get_or_init(|| slog::Logger::root_typed(Arc::new(slog_async::Async::new(slog::Discard).chan_size(1).build().fuse()), slog::o!()))
        .clone()
}

thread_local! {
    static SYS: RefCell<Option<Rc<Sys>>> = const { RefCell::new(None) };
}

/// Forgets the shared systems: what failed in them must not disturb the next run.
pub fn reset() {
    SYS.with(|s| std::mem::forget(s.borrow_mut().take()));
    crate::comp::reset();
    crate::local::reset();
}

/// The shared system, with eight sinks.
pub fn sys() -> Rc<Sys> {
    SYS.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            let mut y = Sys::build(|_| ());
            y.grow_sinks(8);
            *s = Some(Rc::new(y));
        }
        s.as_ref().unwrap().clone()
    })
}

/// Records the numbers in the network messages it receives.
#[derive(ComponentDefinition)]
pub struct SinkDef {
    ctx: ComponentContext<Self>,
    log: Arc<Mutex<Vec<u64>>>,
}
ignore_lifecycle!(SinkDef);
impl Actor for SinkDef {
    type Message = u64;
    fn receive_local(&mut self, msg: u64) -> HandlerResult {
        self.log.lock().unwrap().push(msg);
        Handled::OK
    }
    fn receive_network(&mut self, msg: NetMessage) -> HandlerResult {
        let v = msg.try_deserialise::<u64, u64>().unwrap_or(u64::MAX);
        self.log.lock().unwrap().push(v);
        Handled::OK
    }
}

pub struct Sink {
    pub component: Arc<Component<SinkDef>>,
    pub dyn_ref: DynActorRef,
    log: Arc<Mutex<Vec<u64>>>,
}

impl Sink {
    /// A sink that is not started.
    pub fn create(sys: &Sys) -> Sink {
        let log = Arc::new(Mutex::new(Vec::new()));
        let l2 = log.clone();
        let component = sys.system.create(move || SinkDef { ctx: ComponentContext::uninitialised(), log: l2 });
        let dyn_ref = component.actor_ref().dyn_ref();
        Sink { component, dyn_ref, log }
    }
    pub fn start(sys: &Sys) -> Sink {
        let sink = Self::create(sys);
        sys.system.start(&sink.component);
        sys.settle();
        assert!(sink.component.is_active());
        sink
    }
    pub fn take(&self) -> Vec<u64> {
        std::mem::take(&mut *self.log.lock().unwrap())
    }
}
