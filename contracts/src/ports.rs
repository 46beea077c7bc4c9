//! C21: events triggered on a port reach exactly the connected components.
//! C22: every ask is answered with its own reply, or fails.
use crate::{comp, nondet::*, sys::*};
use kompact::prelude::*;
use std::sync::{Arc, Mutex};

pub struct Wire;
impl Port for Wire {
    type Indication = u64;
    type Request = u64;
}

type Log = Arc<Mutex<Vec<u64>>>;

#[derive(ComponentDefinition)]
pub struct Node {
    ctx: ComponentContext<Self>,
    up: ProvidedPort<Wire>,
    down: RequiredPort<Wire>,
    requests: Log,
    indications: Log,
}
ignore_lifecycle!(Node);
impl Actor for Node {
    type Message = Never;
    fn receive_local(&mut self, _: Never) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}
impl Provide<Wire> for Node {
    fn handle(&mut self, e: u64) -> HandlerResult {
        self.requests.lock().unwrap().push(e);
        Handled::OK
    }
}
impl Require<Wire> for Node {
    fn handle(&mut self, e: u64) -> HandlerResult {
        self.indications.lock().unwrap().push(e);
        Handled::OK
    }
}

struct Peer {
    c: Option<Arc<Component<Node>>>,
    requests: Log,
    indications: Log,
    refs: (ProvidedRef<Wire>, RequiredRef<Wire>),
    /// Whom its provided port is connected to (required ports), and the other way round.
    up: Vec<usize>,
    down: Vec<usize>,
    want_requests: Vec<u64>,
    want_indications: Vec<u64>,
}

fn peer(sys: &Sys) -> Peer {
    let (requests, indications): (Log, Log) = Default::default();
    let (r2, i2) = (requests.clone(), indications.clone());
    let c = sys.system.create(move || Node {
        ctx: ComponentContext::uninitialised(),
        up: ProvidedPort::uninitialised(),
        down: RequiredPort::uninitialised(),
        requests: r2,
        indications: i2,
    });
    sys.system.start(&c);
    sys.settle();
    let refs = c.on_definition(|d| (d.up.share(), d.down.share()));
    Peer { c: Some(c), requests, indications, refs, up: vec![], down: vec![], want_requests: vec![], want_indications: vec![] }
}

struct Link {
    /// None for one-way channels.
    provider: Option<usize>,
    requirer: Option<usize>,
    /// The other end of a one-way channel.
    other: usize,
    ch: Box<dyn Channel + Send>,
}

/// Every event triggered on a port reaches each port connected to it at that time once per
/// connection, in order, and no other.
pub fn events_follow_connections<S: Src>(s: &mut S) {
    let sys = sys();
    let n = 2 + s.upto(2);
    let mut p: Vec<Peer> = (0..n).map(|_| peer(&sys)).collect();
    let mut links: Vec<Link> = Vec::new();
    let mut next = 0;
    for _ in 0..5 + s.upto(25) {
        let (a, b) = (s.upto(n - 1), s.upto(n - 1));
        match s.upto(11) {
            0 | 1 => {
                let (Some(x), Some(y)) = (p[a].c.clone(), p[b].c.clone()) else { continue };
                match biconnect_components::<Wire, _, _>(&x, &y) {
                    Ok(ch) => {
                        assert!(a != b, "a component cannot be locked twice");
                        links.push(Link { provider: Some(a), requirer: Some(b), other: 0, ch: ch.boxed() });
                        p[a].up.push(b);
                        p[b].down.push(a);
                    }
                    Err(_) => assert_eq!(a, b, "idle components can be connected"),
                }
            }
            2 => {
                let Some(x) = p[a].c.clone() else { continue };
                let r = p[b].refs.1.clone();
                let ch = x.connect_to_required(r);
                links.push(Link { provider: Some(a), requirer: None, other: b, ch: ch.boxed() });
                p[a].up.push(b);
            }
            3 => {
                let Some(y) = p[b].c.clone() else { continue };
                let r = p[a].refs.0.clone();
                let ch = y.connect_to_provided(r);
                links.push(Link { provider: None, requirer: Some(b), other: a, ch: ch.boxed() });
                p[b].down.push(a);
            }
            4 => {
                if links.is_empty() {
                    continue;
                }
                let i = s.upto(links.len() - 1);
                let l = links.remove(i);
                assert!(l.ch.disconnect().is_ok(), "channels between idle components can be disconnected");
                let (x, y) = (l.provider.unwrap_or(l.other), l.requirer.unwrap_or(l.other));
                if l.provider.is_some() {
                    p[x].up.retain(|k| *k != y);
                }
                if l.requirer.is_some() {
                    p[y].down.retain(|k| *k != x);
                }
            }
            5 => {
                // One side forgets everything it is connected to in another component.
                let (Some(x), Some(y)) = (p[a].c.clone(), p[b].c.clone()) else { continue };
                // Entries of components that are gone go, too.
                let gone: Vec<bool> = p.iter().map(|q| q.c.is_none()).collect();
                if s.bool() {
                    let had = p[a].up.iter().any(|k| *k == b || gone[*k]);
                    let c = x.on_definition(|d| d.up.disconnect_component(&*y));
                    if !p[a].up.iter().any(|k| gone[*k]) {
                        assert_eq!(c, had, "disconnecting reports whether anything was connected");
                    }
                    p[a].up.retain(|k| *k != b);
                } else {
                    let had = p[a].down.iter().any(|k| *k == b || gone[*k]);
                    let c = x.on_definition(|d| d.down.disconnect_component(&*y));
                    if !p[a].down.iter().any(|k| gone[*k]) {
                        assert_eq!(c, had, "disconnecting reports whether anything was connected");
                    }
                    p[a].down.retain(|k| *k != b);
                }
            }
            6 | 7 => {
                let Some(x) = p[a].c.clone() else { continue };
                next += 1;
                x.on_definition(|d| d.up.trigger(next));
                for k in p[a].up.clone() {
                    p[k].want_indications.push(next);
                }
            }
            8 | 9 => {
                let Some(x) = p[a].c.clone() else { continue };
                next += 1;
                x.on_definition(|d| d.down.trigger(next));
                for k in p[a].down.clone() {
                    p[k].want_requests.push(next);
                }
            }
            10 => {
                next += 1;
                if p[a].c.is_some() {
                    sys.system.trigger_r(next, &p[a].refs.0);
                    p[a].want_requests.push(next);
                    sys.system.trigger_i(next, &p[a].refs.1);
                    p[a].want_indications.push(next);
                }
            }
            _ => {
                if s.upto(3) == 0 {
                    // A component goes away; the others must not notice.
                    sys.settle();
                    if let Some(c) = p[a].c.take() {
                        sys.system.kill(c);
                        sys.settle();
                    }
                } else if s.bool() {
                    let m = s.upto(3);
                    sys.steps(s, m);
                }
            }
        }
    }
    sys.settle();
    for q in &p {
        if q.c.is_some() {
            assert_eq!(*q.indications.lock().unwrap(), q.want_indications, "indications follow the connections");
            assert_eq!(*q.requests.lock().unwrap(), q.want_requests, "requests follow the connections");
        } else {
            let (i, r) = (q.indications.lock().unwrap(), q.requests.lock().unwrap());
            assert!(q.want_indications.starts_with(&i) && q.want_requests.starts_with(&r), "nothing reaches a component that is gone");
        }
    }
    for q in &mut p {
        if let Some(c) = q.c.take() {
            sys.system.kill(c);
        }
    }
    sys.settle();
}

/// The ports of a component are served in turns.
pub fn ports_take_turns<S: Src>(s: &mut S) {
    comp::turns(s)
}

#[derive(Debug)]
pub enum Question {
    Now(Ask<u64, u64>),
    /// Answered later, in any order.
    Keep(Ask<u64, u64>),
    /// Never answered.
    Drop(Ask<u64, u64>),
    Answer(usize),
    Block(Ask<u64, u64>, Arc<comp::Gate>),
}

#[derive(ComponentDefinition)]
pub struct Oracle {
    ctx: ComponentContext<Self>,
    kept: Vec<Ask<u64, u64>>,
    replies: Arc<Mutex<Vec<(u64, bool)>>>,
}
ignore_lifecycle!(Oracle);
impl Actor for Oracle {
    type Message = Question;
    fn receive_local(&mut self, q: Question) -> HandlerResult {
        match q {
            Question::Now(a) => {
                let n = *a.request();
                let r = if n % 2 == 0 { a.reply(n ^ 0xABCD) } else { a.complete(|n| n ^ 0xABCD) };
                self.replies.lock().unwrap().push((n, r.is_ok()));
            }
            Question::Keep(a) => self.kept.push(a),
            Question::Drop(_) => (),
            Question::Answer(i) => {
                if !self.kept.is_empty() {
                    let a = self.kept.remove(i % self.kept.len());
                    let (p, n) = a.take();
                    let r = p.fulfil(n ^ 0xABCD);
                    self.replies.lock().unwrap().push((n, r.is_ok()));
                }
            }
            Question::Block(a, g) => {
                return Handled::block_on(self, move |me| async move {
                    let n = *a.request();
                    let r = a
                        .complete_with(|n| async move {
                            comp::Gate::through(g).await;
                            n ^ 0xABCD
                        })
                        .await;
                    me.replies.lock().unwrap().push((n, r.is_ok()));
                    Handled::OK
                });
            }
        }
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    Answered,
    Open,
    Never,
}

/// Every ask is answered with the reply to its own request, exactly once, or fails.
pub fn asks_are_answered<S: Src>(s: &mut S) {
    let sys = sys();
    let replies: Arc<Mutex<Vec<(u64, bool)>>> = Arc::default();
    let r2 = replies.clone();
    let c = sys.system.create(move || Oracle { ctx: ComponentContext::uninitialised(), kept: Vec::new(), replies: r2 });
    sys.system.start(&c);
    sys.settle();
    let weak = c.actor_ref();
    // Asks in the order they were made: number, future, what becomes of them.
    let mut asks: Vec<(u64, Option<KFuture<u64>>, Fate, bool)> = Vec::new();
    let mut kept: Vec<usize> = Vec::new();
    let mut blocked: Option<(usize, Arc<comp::Gate>)> = None;
    for i in 0..1 + s.upto(15) {
        let n = i as u64 * 7 + s.upto(6) as u64;
        let k = s.upto(8);
        if blocked.is_some() && k < 6 {
            continue;
        }
        let strong = s.bool();
        let via = |f: &dyn Fn(KPromise<u64>) -> Question| {
            if strong { weak.hold().expect("live").ask_with(f) } else { weak.ask_with(f) }
        };
        match k {
            0 | 1 => {
                let f = via(&|p| Question::Now(Ask::new(p, n)));
                asks.push((n, Some(f), Fate::Answered, false));
            }
            2 | 3 => {
                let f = via(&|p| Question::Keep(Ask::of(n)(p)));
                kept.push(asks.len());
                asks.push((n, Some(f), Fate::Open, false));
            }
            4 => {
                let f = via(&|p| Question::Drop(Ask::new(p, n)));
                asks.push((n, Some(f), Fate::Never, false));
            }
            5 => {
                let g = Arc::new(comp::Gate::default());
                let g2 = g.clone();
                let f = via(&move |p| Question::Block(Ask::new(p, n), g2.clone()));
                blocked = Some((asks.len(), g));
                asks.push((n, Some(f), Fate::Open, false));
            }
            6 => {
                if let Some((at, g)) = blocked.take() {
                    g.open();
                    asks[at].2 = Fate::Answered;
                } else if !kept.is_empty() {
                    let i = s.upto(kept.len() - 1);
                    weak.tell(Question::Answer(i));
                    let at = kept.remove(i);
                    asks[at].2 = Fate::Answered;
                }
            }
            7 => {
                // Somebody loses interest before it is answered.
                if let Some(a) = asks.iter_mut().rev().find(|a| a.1.is_some() && a.2 == Fate::Open) {
                    a.1 = None;
                    a.3 = true;
                }
            }
            _ => {
                sys.settle();
                for (n, f, fate, _) in &mut asks {
                    let Some(f2) = f else { continue };
                    match (poll(f2), *fate) {
                        (None, Fate::Open) => (),
                        (Some(Ok(v)), Fate::Answered) => {
                            assert_eq!(v, *n ^ 0xABCD, "the reply belongs to the request");
                            *f = None;
                        }
                        (Some(Err(_)), Fate::Never) => *f = None,
                        (r, fate) => panic!("ask {n} is {fate:?} but the future shows {r:?}"),
                    }
                }
            }
        }
    }
    if let Some((at, g)) = blocked.take() {
        g.open();
        asks[at].2 = Fate::Answered;
    }
    sys.settle();
    for (n, ok) in replies.lock().unwrap().iter() {
        if let Some(a) = asks.iter().find(|a| a.0 == *n) {
            assert_eq!(*ok, !a.3, "replying fails exactly if nobody waits for it any more");
        }
    }
    // The component goes away: what it did not answer fails.
    sys.system.kill(c);
    sys.settle();
    let late = weak.ask_with(|p| Question::Now(Ask::new(p, 1)));
    asks.push((1, Some(late), Fate::Never, false));
    for (n, f, fate, _) in &mut asks {
        let Some(f2) = f else { continue };
        match (poll(f2), *fate) {
            (Some(Ok(v)), Fate::Answered) => assert_eq!(v, *n ^ 0xABCD, "the reply belongs to the request"),
            (Some(Err(_)), Fate::Never | Fate::Open) => (),
            (r, fate) => panic!("ask {n} is {fate:?} but the future shows {r:?} at the end"),
        }
    }
}
