//! C29: what is registered with a system is reached under its path.
use crate::{nondet::*, sys::*};
use kompact::{
    messaging::{DispatchEnvelope, NetMessage, PathResolvable, RegistrationEnvelope, RegistrationError, RegistrationResult},
    prelude::*,
    routing::groups::*,
};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap},
    sync::{Arc, Mutex},
    time::Duration,
};
use uuid::Uuid;

/// Who got which message, from whom, at which address.
#[derive(Clone, Debug)]
struct Got {
    at: usize,
    text: Result<String, String>,
    sender: ActorPath,
    receiver: ActorPath,
}
type Log = Arc<Mutex<Vec<Got>>>;

fn note(log: &Log, at: usize, msg: NetMessage) {
    let (sender, receiver) = (msg.sender.clone(), msg.receiver.clone());
    let text = msg.try_deserialise::<String, String>().map_err(|e| format!("{e:?}"));
    log.lock().unwrap().push(Got { at, text, sender, receiver });
}

const DEAD: usize = 99;

#[derive(ComponentDefinition)]
struct Dead {
    ctx: ComponentContext<Self>,
    ready: Option<KPromise<()>>,
    log: Log,
}
impl ComponentLifecycle for Dead {
    fn on_start(&mut self) -> HandlerResult {
        if let Some(p) = self.ready.take() {
            p.complete().unwrap();
        }
        Handled::OK
    }
}
impl Actor for Dead {
    type Message = Never;
    fn receive_local(&mut self, _: Never) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, msg: NetMessage) -> HandlerResult {
        note(&self.log, DEAD, msg);
        Handled::OK
    }
}

/// Records what it gets; passes on what the plan says.
#[derive(ComponentDefinition)]
struct Here {
    ctx: ComponentContext<Self>,
    me: usize,
    log: Log,
    /// Where the next messages go: nowhere, on with their sender, or on with this one as the sender.
    plan: Arc<Mutex<HashMap<usize, (u8, ActorPath)>>>,
}
ignore_lifecycle!(Here);
impl Actor for Here {
    type Message = Never;
    fn receive_local(&mut self, _: Never) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, msg: NetMessage) -> HandlerResult {
        let plan = self.plan.lock().unwrap().get(&self.me).cloned();
        match plan {
            Some((1, to)) => to.forward_with_original_sender(msg, self),
            Some((_, to)) => {
                let from = ActorPathFactory::actor_path(&*self);
                to.forward_with_sender(msg, self, from)
            }
            None => note(&self.log, self.me, msg),
        }
        Handled::OK
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Entry {
    Actor(usize),
    RoundRobin,
    Hash,
    Broadcast,
}
impl Entry {
    fn policy(self) -> StorePolicy {
        match self {
            Entry::RoundRobin => RoundRobinRouting::default().into(),
            Entry::Hash => SenderDefaultHashBucketRouting::default().into(),
            _ => BroadcastRouting.into(),
        }
    }
}

/// Members of groups, and a last one that is sent to by those that pass messages on.
const ACTORS: usize = 5;

struct Place {
    sys: Sys,
    log: Log,
    plan: Arc<Mutex<HashMap<usize, (u8, ActorPath)>>>,
    /// The last one receives what is passed on, the ones before it pass on; all are registered.
    steady: Vec<(Arc<Component<Here>>, ActorPath)>,
    runs: usize,
}

impl Place {
    fn build(networked: bool) -> Place {
        let log: Log = Arc::default();
        let l2 = log.clone();
        let dead = move |p| Dead { ctx: ComponentContext::uninitialised(), ready: Some(p), log: l2.clone() };
        let sys = Sys::build(|c| {
            #[cfg(feature = "net")]
            if networked {
                c.system_components(dead, kompact_net::NetworkConfig::new("127.0.0.1:0".parse().unwrap()).build());
                return;
            }
            let _ = networked;
            c.system_components(dead, LocalDispatcher::new);
        });
        let mut p = Place { sys, log, plan: Arc::default(), steady: Vec::new(), runs: 0 };
        for me in 10..13 {
            let c = p.actor(me);
            let f = p.sys.system.register(&c);
            let path = p.sys.wait(f, "registration").expect("answered").expect("registered");
            p.steady.push((c, path));
        }
        let to = p.steady[2].1.clone();
        p.plan.lock().unwrap().extend([(10, (1, to.clone())), (11, (2, to))]);
        p
    }
    fn actor(&self, me: usize) -> Arc<Component<Here>> {
        let (log, plan) = (self.log.clone(), self.plan.clone());
        let c = self.sys.system.create(move || Here { ctx: ComponentContext::uninitialised(), me, log, plan });
        self.sys.system.start(&c);
        self.sys.settle();
        c
    }
}

thread_local! {
    static PLACES: RefCell<HashMap<bool, Place>> = RefCell::new(HashMap::new());
    static NEXT: RefCell<u64> = const { RefCell::new(0) };
}
pub fn reset() {
    PLACES.with(|p| std::mem::forget(std::mem::take(&mut *p.borrow_mut())));
}

fn well_formed(p: &[String]) -> bool {
    !p.is_empty() && p.iter().all(|s| !s.is_empty() && !s.contains(['/', '*', '?', '#']))
}

/// What a message sent to this name now will do.
#[derive(Clone, Debug, PartialEq)]
enum To {
    /// One copy to each.
    All(Vec<usize>),
    /// One of these gets it.
    Any(Vec<usize>),
}

struct Model {
    names: BTreeMap<Vec<String>, Entry>,
    ids: BTreeMap<Uuid, usize>,
}
impl Model {
    fn reach(&self, p: &[String]) -> To {
        if p.is_empty() {
            return To::All(vec![DEAD]);
        }
        let marker = p.last().map(|x| x.as_str()).filter(|x| *x == "*" || *x == "?");
        let base = if marker.is_some() { &p[..p.len() - 1] } else { p };
        let members = || {
            let below = self.names.iter().filter(|(k, _)| k.len() > base.len() && k.starts_with(base));
            below.filter_map(|(_, e)| if let Entry::Actor(i) = e { Some(*i) } else { None }).collect::<Vec<_>>()
        };
        match (self.names.get(base), marker) {
            (Some(Entry::Actor(i)), None) => To::All(vec![*i]),
            (Some(Entry::Broadcast), None | Some("*")) => To::All(members()),
            (Some(Entry::RoundRobin | Entry::Hash), None | Some("?")) => To::Any(members()),
            _ => To::All(vec![DEAD]),
        }
    }
}

/// Registering and sending, on a system without a network.
pub fn registered_is_reached<S: Src>(s: &mut S) {
    exchange(s, false);
}

/// The same with the dispatcher of a networked system.
#[cfg(feature = "net")]
pub fn registered_is_reached_networked<S: Src>(s: &mut S) {
    exchange(s, true);
}

fn exchange<S: Src>(s: &mut S, networked: bool) {
    let mut place = PLACES.with(|p| p.borrow_mut().remove(&networked)).unwrap_or_else(|| Place::build(networked));
    place.runs += 1;
    let y = &place.sys;
    let here = y.system.system_path();
    let run = NEXT.with(|n| {
        *n.borrow_mut() += 1;
        *n.borrow()
    });
    let top = format!("r{run}");
    let actors: Vec<_> = (0..ACTORS).map(|i| place.actor(i)).collect();
    let refs: Vec<_> = actors.iter().map(|a| a.actor_ref().dyn_ref()).collect();
    let foreign: Vec<Uuid> = (0..2).map(|i| Uuid::from_u128(((run as u128) << 8) + i)).collect();
    let mut m = Model { names: BTreeMap::new(), ids: BTreeMap::new() };
    let mut answers: Vec<(KFuture<RegistrationResult>, Result<ActorPath, bool>, String)> = Vec::new();
    // By number: the sender, the address, and who is to get it.
    let mut sent: Vec<(String, ActorPath, ActorPath, To)> = Vec::new();
    let ops = 1 + s.upto(18);
    for _ in 0..ops {
        let name = {
            let mut n = vec![top.clone()];
            for _ in 0..s.upto(3) {
                n.push(["a", "b", "ab", "a.b", "é"][s.upto(4)].to_string());
            }
            n
        };
        // Now and then not a name.
        let name_or_not = |s: &mut S| {
            let mut n = name.clone();
            if s.upto(6) == 0 {
                let at = s.upto(n.len());
                n.insert(at, ["", "*", "?", "x?", "#", "a*b"][s.upto(5)].to_string());
            }
            n
        };
        let k = s.upto(12);
        match k {
            0 => {
                let i = s.upto(ACTORS - 1);
                let id = actors[i].id();
                let free = !m.ids.contains_key(&id);
                if free {
                    m.ids.insert(id, i);
                }
                let path: ActorPath = UniquePath::with_system(here.clone(), id).into();
                answers.push((y.system.register(&actors[i]), if free { Ok(path) } else { Err(true) }, format!("actor {i}")));
            }
            1 | 2 | 3 => {
                let i = s.upto(ACTORS - 1);
                let n = name_or_not(s);
                let (way, update) = (s.upto(3), s.upto(2) == 0);
                let alias = n.join("/");
                let (p, f) = promise();
                let raw = |path| {
                    let env = RegistrationEnvelope::actor_with_promise(refs[i].clone(), path, update, p);
                    actors[0].on_definition(|d| d.ctx().dispatcher_ref()).tell(DispatchEnvelope::Registration(env));
                };
                let f = match way {
                    0 if update => y.system.update_alias_registration(&actors[i], alias.clone()),
                    0 => y.system.register_by_alias(&actors[i], alias.clone()),
                    1 => {
                        raw(PathResolvable::Alias(alias.clone()));
                        f
                    }
                    2 if well_formed(&n) => {
                        raw(PathResolvable::Path(NamedPath::with_system(here.clone(), n.clone()).into()));
                        f
                    }
                    _ => {
                        raw(PathResolvable::Segments(n.clone()));
                        f
                    }
                };
                let r = enter(&mut m, &n, Entry::Actor(i), update, &here);
                answers.push((f, r, format!("actor {i} at {n:?}, update {update}")));
            }
            4 => {
                // Somebody else's id.
                let (i, id, update) = (s.upto(ACTORS - 1), foreign[s.upto(1)], s.bool());
                let path: ActorPath = UniquePath::with_system(here.clone(), id).into();
                let (p, f) = promise();
                let by = if s.bool() { PathResolvable::ActorId(id) } else { PathResolvable::Path(path.clone()) };
                let env = RegistrationEnvelope::actor_with_promise(refs[i].clone(), by, update, p);
                actors[1].on_definition(|d| d.ctx().dispatcher_ref()).tell(DispatchEnvelope::Registration(env));
                let ok = update || !m.ids.contains_key(&id);
                if ok {
                    m.ids.insert(id, i);
                }
                answers.push((f, if ok { Ok(path) } else { Err(true) }, format!("actor {i} at {id}, update {update}")));
            }
            5 | 6 => {
                let e = [Entry::RoundRobin, Entry::Hash, Entry::Broadcast][s.upto(2)];
                let n = name_or_not(s);
                let n = n[..n.len().min(2)].to_vec();
                let update = s.upto(2) == 0;
                let f = if s.bool() {
                    y.system.set_routing_policy(e.policy(), &n.join("/"), update)
                } else {
                    let (p, f) = promise();
                    let env = RegistrationEnvelope::policy_with_promise(e.policy(), n.clone(), update, p);
                    actors[2].on_definition(|d| d.ctx().dispatcher_ref()).tell(DispatchEnvelope::Registration(env));
                    f
                };
                let r = enter(&mut m, &n, e, update, &here);
                answers.push((f, r, format!("{e:?} at {n:?}, update {update}")));
            }
            7..=10 => {
                let mut to = To::All(vec![DEAD]);
                let mut relay = 0;
                let mut path: ActorPath = match s.upto(7) {
                    0 => {
                        let i = s.upto(ACTORS - 1);
                        if let Some(j) = m.ids.get(&actors[i].id()) {
                            to = To::All(vec![*j]);
                        }
                        UniquePath::with_system(here.clone(), actors[i].id()).into()
                    }
                    1 => {
                        let id = foreign[s.upto(1)];
                        if let Some(j) = m.ids.get(&id) {
                            to = To::All(vec![*j]);
                        }
                        UniquePath::with_system(here.clone(), id).into()
                    }
                    2 => {
                        relay = 1 + s.upto(1);
                        to = To::All(vec![12]);
                        place.steady[relay - 1].1.clone()
                    }
                    3 => y.system.deadletter_path(),
                    _ => {
                        let mut n = if s.bool() && !m.names.is_empty() {
                            let x = s.upto(m.names.len() - 1);
                            m.names.keys().nth(x).unwrap().clone()
                        } else {
                            name.clone()
                        };
                        if s.upto(2) == 0 {
                            n.push(["*", "?"][s.upto(1)].into());
                        }
                        to = m.reach(&n);
                        NamedPath::with_system(here.clone(), n).into()
                    }
                };
                match s.upto(9) {
                    0..=2 => path.via_local(),
                    // Local paths stay in the system whatever the address says.
                    3 => path = elsewhere(&path, Transport::Local),
                    4 if !networked && relay == 0 => {
                        path = elsewhere(&path, Transport::Tcp);
                        to = To::All(vec![DEAD]);
                    }
                    _ => (),
                }
                let from = s.upto(ACTORS);
                let mut sender: ActorPath = match actors.get(from) {
                    Some(a) => UniquePath::with_system(here.clone(), a.id()).into(),
                    None => y.system.deadletter_path(),
                };
                sender.set_protocol(path.protocol());
                let text = format!("{}:{}", sent.len(), "x".repeat(s.upto(60)));
                let message = text.clone();
                let way = s.upto(4);
                match actors.get(from) {
                    None => path.tell(message, &y.system),
                    Some(a) => a.on_definition(|d| match way {
                        0 | 4 => path.tell(message, d),
                        1 => path.tell_serialised(message, d).expect("serialised"),
                        2 => {
                            let c = d.ctx().preserialise(&message).expect("preserialised");
                            path.tell_preserialised(c, d).expect("told")
                        }
                        _ => {
                            let as_other: ActorPath = UniquePath::with_system(here.clone(), foreign[0]).into();
                            sender = as_other.clone();
                            path.tell_with_sender(message, d, as_other)
                        }
                    }),
                }
                if relay > 0 {
                    if relay == 2 {
                        sender = place.steady[1].1.clone();
                    }
                    path = place.steady[2].1.clone();
                }
                sent.push((text, sender, path, to));
            }
            11 => {
                y.steps(s, 1);
            }
            _ => y.timer.advance_by(Duration::from_millis(s.upto(10_000) as u64)),
        }
    }
    y.settle();
    for (mut f, want, what) in answers {
        let r = poll(&mut f).unwrap_or_else(|| panic!("no answer: {what}")).expect("answered");
        match (&r, &want) {
            (Ok(p), Ok(q)) if p == q => (),
            (Err(RegistrationError::DuplicateEntry), Err(true)) => (),
            (Err(RegistrationError::InvalidPath(_)), Err(false)) => (),
            _ => panic!("registering {what}: {r:?} instead of {want:?}"),
        }
    }
    let got = std::mem::take(&mut *place.log.lock().unwrap());
    let mut reached: Vec<Vec<usize>> = vec![Vec::new(); sent.len()];
    let mut last: HashMap<usize, usize> = HashMap::new();
    for g in got {
        let text = g.text.unwrap_or_else(|e| panic!("damaged at {}: {e}", g.at));
        let n: usize = text.split(':').next().unwrap().parse().expect("a number");
        let (t, sender, path, _) = &sent[n];
        assert_eq!((t, sender, path), (&text, &g.sender, &g.receiver), "content, sender, receiver");
        // In the order sent, wherever it comes from: all go through one dispatcher.
        let before = last.insert(g.at, n);
        assert!(before.is_none_or(|b| b <= n) || g.at == 12, "{n} after {before:?} at {}", g.at);
        reached[n].push(g.at);
    }
    for (n, (.., path, to)) in sent.iter().enumerate() {
        let r = &mut reached[n];
        r.sort();
        match to {
            To::All(a) => {
                let mut a = a.clone();
                a.sort();
                assert_eq!(*r, a, "message {n} to {path} reaches");
            }
            To::Any(a) => assert!(if a.is_empty() { r.is_empty() } else { r.len() == 1 && a.contains(&r[0]) }, "message {n} to {path} reaches {r:?} of {a:?}"),
        }
    }
    for a in actors {
        y.system.kill(a);
    }
    y.settle();
    if place.runs < 400 {
        PLACES.with(|p| p.borrow_mut().insert(networked, place));
    } else {
        place.steady.clear();
        place.sys.end();
    }
}

fn elsewhere(p: &ActorPath, by: Transport) -> ActorPath {
    let other = SystemPath::new(by, "10.1.2.3".parse().unwrap(), 45);
    match p {
        ActorPath::Unique(u) => UniquePath::with_system(other, u.id()).into(),
        ActorPath::Named(n) => NamedPath::with_system(other, n.path_ref().to_vec()).into(),
    }
}

/// The answer to a registration: the path, or whether the name was taken (true) or not a name.
fn enter(m: &mut Model, n: &[String], e: Entry, update: bool, here: &SystemPath) -> Result<ActorPath, bool> {
    if !well_formed(n) {
        return Err(false);
    }
    if m.names.contains_key(n) && !update {
        return Err(true);
    }
    m.names.insert(n.to_vec(), e);
    Ok(NamedPath::with_system(here.clone(), n.to_vec()).into())
}
