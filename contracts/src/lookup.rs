//! C13: the table of local actors is a map. C14: group lookups. C15: collecting dead references.
//! C16: routing policies.
use crate::{nondet::*, paths::*, sys::*};
use arc_swap::ArcSwap;
use kompact::{
    lookup::{gc::ActorRefReaper, *},
    messaging::{NetMessage, PathResolvable},
    prelude::*,
    routing::groups::*,
};
use std::collections::{BTreeMap, hash_map::DefaultHasher};
use uuid::Uuid;
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};

const SINKS: usize = 8;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Entry {
    Actor(usize),
    RoundRobin,
    Hash,
    Broadcast,
}

fn seg<S: Src>(s: &mut S) -> String {
    // Few names, so that paths collide, share prefixes and nest.
    ["a", "b", "ab", "a.b", "é", "*b"][s.u8() as usize % 5].to_string()
}

fn path<S: Src>(s: &mut S) -> Vec<String> {
    let n = s.u8() as usize % 4 + 1;
    (0..n).map(|_| seg(s)).collect()
}

fn system_path() -> SystemPath {
    SystemPath::new(Transport::Local, "127.0.0.1".parse().unwrap(), 0)
}

/// The same name in any of the forms the table resolves.
fn resolvable<S: Src>(s: &mut S, p: &[String]) -> PathResolvable {
    match s.u8() % 4 {
        0 => PathResolvable::Alias(p.join("/")),
        1 => PathResolvable::Segments(p.to_vec()),
        2 => PathResolvable::Path(ActorPath::Named(NamedPath::with_system(system_path(), p.to_vec()))),
        _ => PathResolvable::Segments(p.to_vec()),
    }
}

fn resolvable_id<S: Src>(s: &mut S, id: Uuid) -> PathResolvable {
    if s.bool() {
        PathResolvable::ActorId(id)
    } else {
        PathResolvable::Path(ActorPath::Unique(UniquePath::with_system(system_path(), id)))
    }
}

fn policy(e: Entry) -> StorePolicy {
    match e {
        Entry::RoundRobin => RoundRobinRouting::default().into(),
        Entry::Hash => SenderDefaultHashBucketRouting::default().into(),
        Entry::Broadcast => BroadcastRouting.into(),
        Entry::Actor(_) => unreachable!(),
    }
}

fn policy_kind(p: &StorePolicy) -> Entry {
    if p.broadcast().is_some() {
        assert!(p.select().is_none());
        Entry::Broadcast
    } else {
        assert!(p.select().is_some());
        let t = format!("{:?}", p);
        if t.contains("RoundRobin") { Entry::RoundRobin } else { Entry::Hash }
    }
}

#[derive(Clone)]
struct Model {
    names: BTreeMap<Vec<String>, Entry>,
    ids: BTreeMap<Uuid, usize>,
    dead: Option<usize>,
}

fn same(sinks: &[Sink], r: &DynActorRef, i: usize) -> bool {
    (0..sinks.len()).all(|j| (*r == sinks[j].dyn_ref) == (i == j))
}

fn prev_ref(sinks: &[Sink], got: InsertResult, expected: Option<Entry>) {
    match (got, expected) {
        (InsertResult::None, None) => {}
        (InsertResult::Ref(r), Some(Entry::Actor(i))) => {
            assert!(same(sinks, &r, i), "the replaced actor is returned")
        }
        (InsertResult::Policy(p), Some(e)) => assert_eq!(policy_kind(&p), e, "the replaced policy is returned"),
        (g, e) => panic!("replaced {e:?} but returned {g:?}"),
    }
}

fn net_msg(sender: &ActorPath, v: u64) -> NetMessage {
    NetMessage::with_box(<u64 as Deserialiser<u64>>::SER_ID, sender.clone(), sender.clone(), Box::new(v))
}

fn check_lookup<S: Src>(s: &mut S, y: &Sys, st: &ActorStore, m: &Model, p: &[String]) {
    if p.is_empty() {
        return; // the system's own path, see `lookup_deadletter`
    }
    let e = m.names.get(p).copied();
    assert_eq!(st.contains(&resolvable(s, p)), e.is_some(), "contained exactly if inserted");
    let by_actor_path = s.bool();
    let ap = ActorPath::Named(NamedPath::with_system(system_path(), p.to_vec()));
    let r = if by_actor_path { st.get_by_actor_path(&ap) } else { st.get_by_named_path(p) };
    match (r, e) {
        (LookupResult::None, None) => {}
        (LookupResult::Ref(r), Some(Entry::Actor(i))) => {
            assert!(same(&y.sinks, r, i), "the actor inserted last is found")
        }
        (LookupResult::Group(_), Some(Entry::RoundRobin | Entry::Hash | Entry::Broadcast)) => {}
        (r, e) => panic!("lookup of {p:?} gave {r:?} instead of {e:?}"),
    }
}

fn check_all<S: Src>(s: &mut S, y: &Sys, st: &ActorStore, m: &Model, ids: &[Uuid]) {
    for p in m.names.keys() {
        check_lookup(s, y, st, m, p);
        check_lookup(s, y, st, m, &p[..p.len() - 1].to_vec());
        let mut longer = p.clone();
        longer.push(seg(s));
        check_lookup(s, y, st, m, &longer);
    }
    for id in ids {
        let e = m.ids.get(id);
        let r = st.get_by_uuid(id);
        assert_eq!(r.is_some(), e.is_some());
        if let (Some(r), Some(i)) = (r, e) {
            assert!(same(&y.sinks, r, *i), "the actor inserted last under an id is found");
        }
        assert_eq!(st.contains(&resolvable_id(s, *id)), e.is_some());
        match st.get_by_actor_path(&ActorPath::Unique(UniquePath::with_system(system_path(), *id))) {
            LookupResult::Ref(r) => assert!(same(&y.sinks, r, *e.unwrap())),
            LookupResult::None => assert!(e.is_none()),
            x => panic!("unexpected {x:?}"),
        }
    }
    assert_eq!(st.contains(&PathResolvable::System), m.dead.is_some());
}

fn lookup_deadletter(y: &Sys, st: &ActorStore, m: &Model) {
    match st.get_by_named_path(&[]) {
        LookupResult::Ref(r) => assert!(same(&y.sinks, r, m.dead.unwrap()), "the system's own path"),
        LookupResult::None => assert!(m.dead.is_none()),
        x => panic!("unexpected {x:?}"),
    }
}

/// Every history of table operations agrees with a map from names and ids to entries.
pub fn table_is_a_map<S: Src>(s: &mut S) {
    let y = sys();
    let mut st = ActorStore::new();
    let mut m = Model { names: BTreeMap::new(), ids: BTreeMap::new(), dead: None };
    let mut snapshots: Vec<(ActorStore, Model)> = Vec::new();
    let ids: Vec<Uuid> = (0..4).map(|_| Uuid::from_u128(s.u128())).collect();
    let n = s.u8() % 24;
    for _ in 0..n {
        let i = s.u8() as usize % SINKS;
        let a = y.sinks[i].dyn_ref.clone();
        match s.u8() % 14 {
            0..=3 => {
                let p = path(s);
                let got = st.insert(resolvable(s, &p), a).expect("valid path");
                prev_ref(&y.sinks, got, m.names.insert(p, Entry::Actor(i)));
            }
            4..=5 => {
                let p = path(s);
                let e = [Entry::RoundRobin, Entry::Hash, Entry::Broadcast][s.u8() as usize % 3];
                let got = st.set_routing_policy(&p, policy(e)).expect("valid path");
                prev_ref(&y.sinks, got, m.names.insert(p, e));
            }
            6 => {
                let id = ids[s.u8() as usize % ids.len()];
                let got = st.insert(resolvable_id(s, id), a).expect("ids are valid");
                prev_ref(&y.sinks, got, m.ids.insert(id, i).map(Entry::Actor));
            }
            7 => {
                let got = st.insert(PathResolvable::System, a).expect("system path");
                prev_ref(&y.sinks, got, m.dead.replace(i).map(Entry::Actor));
            }
            8..=9 => {
                let p = path(s);
                let r = st.remove_by_named_path(&p);
                assert_eq!(r, m.names.remove(&p).is_some(), "removal reports whether there was an entry");
            }
            10 => {
                let id = ids[s.u8() as usize % ids.len()];
                assert_eq!(st.remove_by_uuid(&id), m.ids.remove(&id).is_some());
            }
            11 => {
                let before = m.names.len() + m.ids.len();
                m.names.retain(|_, e| *e != Entry::Actor(i));
                m.ids.retain(|_, e| *e != i);
                let r = st.remove(a);
                assert_eq!(r, before - m.names.len() - m.ids.len(), "every entry of the actor is removed and counted");
            }
            12 => {
                // An invalid name changes nothing.
                let mut p = path(s);
                let k = s.u8() as usize % p.len();
                p[k] = ["", "*", "?", "a/b", "#", "a#", "x?", "x*"][s.u8() as usize % 8].to_string();
                s.assume(!spec_insert_ok(&p));
                let r = match s.u8() % 3 {
                    0 => st.insert(PathResolvable::Segments(p), a).is_err(),
                    1 => st.set_routing_policy(&p, policy(Entry::Broadcast)).is_err(),
                    _ => {
                        s.assume(!spec_insert_ok(&kompact_alias_segments(&p.join("/"))));
                        st.insert(PathResolvable::Alias(p.join("/")), a).is_err()
                    }
                };
                assert!(r, "invalid names are rejected");
            }
            _ => {
                assert_eq!(st.cleanup(), 0, "live actors are never collected");
                snapshots.push((st.clone(), m.clone()));
            }
        }
        let p = path(s);
        check_lookup(s, &y, &st, &m, &p);
    }
    check_all(s, &y, &st, &m, &ids);
    lookup_deadletter(&y, &st, &m);
    for (st, m) in &snapshots {
        check_all(s, &y, st, m, &ids);
        lookup_deadletter(&y, st, m);
    }
}

/// An alias is split at every slash.
pub fn kompact_alias_segments(a: &str) -> Vec<String> {
    a.split('/').map(|x| x.to_string()).collect()
}

// ---- C14 ------------------------------------------------------------------------------------

#[derive(PartialEq, Debug, Clone, Copy)]
enum Outcome {
    Nothing,
    Error,
    One(usize),
    Group(Entry),
}

fn expect(m: &Model, p: &[String]) -> (Outcome, Vec<String>) {
    let marker = p.last().map(|x| x.as_str()).filter(|x| *x == "*" || *x == "?");
    let base = if marker.is_some() { &p[..p.len() - 1] } else { p };
    let o = match (m.names.get(base), marker) {
        (None, _) => Outcome::Nothing,
        (Some(Entry::Actor(i)), None) => Outcome::One(*i),
        (Some(Entry::Actor(_)), Some(_)) => Outcome::Error,
        (Some(e), None) => Outcome::Group(*e),
        (Some(Entry::Broadcast), Some("*")) => Outcome::Group(Entry::Broadcast),
        (Some(Entry::Broadcast), Some(_)) => Outcome::Error,
        (Some(e), Some("?")) => Outcome::Group(*e),
        (Some(_), Some(_)) => Outcome::Error,
    };
    (o, base.to_vec())
}

/// A group lookup finds the policy asked for and exactly the actors registered below its name.
pub fn groups_reach_exactly_their_members<S: Src>(s: &mut S) {
    let y = sys();
    y.received();
    let mut st = ActorStore::new();
    let mut m = Model { names: BTreeMap::new(), ids: BTreeMap::new(), dead: None };
    let n = s.u8() % 14;
    for _ in 0..n {
        let p = path(s);
        if s.u8() % 8 == 0 {
            st.remove_by_named_path(&p);
            m.names.remove(&p);
        } else if s.u8() % 3 == 0 {
            let p = p[..p.len().min(2)].to_vec();
            let e = [Entry::RoundRobin, Entry::Hash, Entry::Broadcast][s.u8() as usize % 3];
            st.set_routing_policy(&p, policy(e)).expect("valid path");
            m.names.insert(p, e);
        } else {
            let i = s.u8() as usize % SINKS;
            st.insert(PathResolvable::Segments(p.clone()), y.sinks[i].dyn_ref.clone()).expect("valid path");
            m.names.insert(p, Entry::Actor(i));
        }
    }
    let k = s.u8() % 4 + 1;
    for q in 0..k {
        let mut p = if !m.names.is_empty() && s.bool() {
            let x = s.u8() as usize % m.names.len();
            m.names.keys().nth(x).unwrap().clone()
        } else {
            path(s)
        };
        match s.u8() % 4 {
            0 => p.push("*".into()),
            1 => p.push("?".into()),
            _ => {}
        }
        let (o, base) = expect(&m, &p);
        let members: Vec<usize> = m
            .names
            .iter()
            .filter(|(k, _)| k.starts_with(&base))
            .filter_map(|(_, e)| if let Entry::Actor(i) = e { Some(*i) } else { None })
            .collect();
        match (st.get_by_named_path(&p), o) {
            (LookupResult::None, Outcome::Nothing) => {}
            (LookupResult::Err(_), Outcome::Error) => {}
            (LookupResult::Ref(r), Outcome::One(i)) => assert!(same(&y.sinks, r, i)),
            (LookupResult::Group(g), Outcome::Group(e)) => {
                let sender = any_actor_path(s);
                let rounds = members.len().max(1);
                for _ in 0..rounds {
                    g.route(net_msg(&sender, q as u64), y.system.logger());
                }
                let got: Vec<usize> = y.received().iter().map(|v| v.len()).collect();
                let mut want = vec![0; SINKS];
                for i in &members {
                    want[*i] += 1;
                }
                match e {
                    Entry::Broadcast => {
                        for w in &mut want {
                            *w *= rounds;
                        }
                        assert_eq!(got, want, "broadcasts reach every member once");
                    }
                    Entry::RoundRobin => assert_eq!(got, want, "a full round reaches every member once"),
                    _ => {
                        assert_eq!(got.iter().sum::<usize>(), if members.is_empty() { 0 } else { rounds });
                        for i in 0..SINKS {
                            assert!(got[i] == 0 || want[i] > 0, "only members are selected");
                        }
                        assert!(got.iter().filter(|x| **x > 0).count() <= 1, "one sender, one member");
                    }
                }
            }
            (r, o) => panic!("lookup of {p:?} gave {r:?} instead of {o:?}"),
        }
    }
}

// ---- C15 ------------------------------------------------------------------------------------

/// Collecting removes exactly the entries of deallocated actors and counts them.
pub fn only_dead_references_are_collected<S: Src>(s: &mut S) {
    let y = sys();
    let mut st = ActorStore::new();
    let mut doomed: Vec<Option<Sink>> = (0..3).map(|_| Some(Sink::start(&y))).collect();
    let mut names: BTreeMap<Vec<String>, (usize, bool)> = BTreeMap::new();
    let mut ids: BTreeMap<Uuid, (usize, bool)> = BTreeMap::new();
    let mut policies: Vec<Vec<String>> = Vec::new();
    let n = s.u8() % 14;
    for _ in 0..n {
        let dead = s.bool();
        let i = s.u8() as usize % 3;
        let r = if dead { doomed[i].as_ref().unwrap().dyn_ref.clone() } else { y.sinks[i].dyn_ref.clone() };
        if s.u8() % 4 == 0 {
            let id = Uuid::from_u128(s.u128());
            st.insert(PathResolvable::ActorId(id), r).unwrap();
            ids.insert(id, (i, dead));
        } else {
            let p = path(s);
            if s.u8() % 5 == 0 {
                st.set_routing_policy(&p, policy(Entry::Broadcast)).unwrap();
                names.remove(&p);
                policies.push(p);
            } else {
                st.insert(PathResolvable::Segments(p.clone()), r).unwrap();
                policies.retain(|x| *x != p);
                names.insert(p, (i, dead));
            }
        }
    }
    policies.sort();
    policies.dedup();
    let kill: Vec<bool> = (0..3).map(|_| s.bool()).collect();
    for i in 0..3 {
        if kill[i] {
            let d = doomed[i].take().unwrap();
            assert!(d.dyn_ref.can_upgrade_component());
            let r = d.dyn_ref.clone();
            y.system.kill(d.component.clone());
            y.settle();
            assert!(d.component.is_destroyed());
            assert!(r.can_upgrade_component(), "a component that is held is not deallocated");
            drop(d);
            assert!(!r.can_upgrade_component());
        }
    }
    let gone = |e: &(usize, bool)| e.1 && kill[e.0];
    let expected = names.values().filter(|e| gone(e)).count() + ids.values().filter(|e| gone(e)).count();
    let shared = ArcSwap::from_pointee(st);
    let before = shared.load_full();
    let removed = if s.bool() {
        ActorRefReaper::default().run(&shared)
    } else {
        let mut c = ActorStore::clone(&before);
        let r = c.cleanup();
        shared.store(c.into());
        r
    };
    assert_eq!(removed, expected, "every dead entry is removed and counted");
    let st = shared.load_full();
    for (p, e) in &names {
        assert_eq!(st.contains(&PathResolvable::Segments(p.clone())), !gone(e), "exactly dead names go");
        assert!(before.contains(&PathResolvable::Segments(p.clone())), "the table in use is not changed");
        match st.get_by_named_path(p) {
            LookupResult::Ref(r) => {
                let t = if e.1 { doomed[e.0].as_ref().unwrap() } else { &y.sinks[e.0] };
                assert!(*r == t.dyn_ref, "live names keep their actor");
            }
            LookupResult::None => assert!(gone(e)),
            x => panic!("unexpected {x:?}"),
        }
    }
    for (id, e) in &ids {
        assert_eq!(st.get_by_uuid(id).is_some(), !gone(e), "exactly dead ids go");
    }
    for p in &policies {
        assert!(st.contains(&PathResolvable::Segments(p.clone())), "policies are not actors and stay");
        let live = names.iter().filter(|(k, e)| k.starts_with(p) && !gone(e)).count();
        if live > 0 {
            y.received();
            match st.get_by_named_path(p) {
                LookupResult::Group(g) => {
                    g.route(net_msg(&y.system.deadletter_path(), 1), y.system.logger());
                    let got: usize = y.received().iter().map(|v| v.len()).sum();
                    let rest: usize = doomed.iter().flatten().map(|d| d.take().len()).sum();
                    assert_eq!(got + rest, live, "groups keep their live members");
                }
                x => panic!("unexpected {x:?}"),
            }
        }
    }
    let mut c = ActorStore::clone(&st);
    assert_eq!(c.cleanup(), 0, "nothing is left to collect");
}

// ---- C16 ------------------------------------------------------------------------------------

fn group<S: Src>(s: &mut S, y: &Sys) -> Vec<usize> {
    let n = s.u8() as usize % (SINKS + 1);
    // Members may repeat.
    (0..n).map(|_| s.u8() as usize % y.sinks.len()).collect()
}

/// Round robin hands every message to one member, in turns, whatever the number of messages.
pub fn round_robin<S: Src>(s: &mut S) {
    let y = sys();
    y.received();
    let router = RoundRobinRouting::default();
    let mut m = group(s, &y);
    let sender = any_actor_path(s);
    let mut other: Option<Box<dyn RoutingPolicy<DynActorRef, NetMessage> + Send + Sync>> = None;
    let mut next: Option<usize> = None;
    let n = s.u8() as usize % 40;
    for k in 0..n {
        if s.u8() % 16 == 0 {
            m = group(s, &y);
            next = None;
        }
        if s.u8() % 12 == 0 {
            other = Some(match &other {
                None => router.boxed_clone(),
                Some(o) => o.boxed_clone(),
            });
        }
        let p: &dyn RoutingPolicy<DynActorRef, NetMessage> = match &other {
            Some(o) => &**o,
            None => &router,
        };
        let p: &dyn RoutingPolicy<DynActorRef, NetMessage> =
            if s.u8() % 4 == 0 { p.select().expect("round robin selects") } else { p };
        assert!(p.broadcast().is_none(), "round robin does not broadcast");
        let members: Vec<&DynActorRef> = m.iter().map(|i| &y.sinks[*i].dyn_ref).collect();
        let msg = net_msg(&sender, k as u64);
        if s.bool() {
            RoutingGroup::new(members, p).route(msg, y.system.logger());
        } else {
            p.route(&members, msg, y.system.logger());
        }
        let got = y.received();
        let total: usize = got.iter().map(|v| v.len()).sum();
        if m.is_empty() {
            assert_eq!(total, 0);
            continue;
        }
        assert_eq!(total, 1, "every message reaches exactly one member");
        let at = got.iter().position(|v| !v.is_empty()).unwrap();
        assert_eq!(got[at], vec![k as u64], "unchanged");
        match next {
            Some(i) => {
                assert_eq!(at, m[i], "members take turns");
                next = Some((i + 1) % m.len());
            }
            None => {
                // Where a round starts is up to the policy; it is known once it is unambiguous.
                let c: Vec<usize> = (0..m.len()).filter(|i| m[*i] == at).collect();
                assert!(!c.is_empty(), "only members receive messages");
                if c.len() == 1 {
                    next = Some((c[0] + 1) % m.len());
                }
            }
        }
    }
}

/// The index used for turns is always one of the members'.
pub fn round_robin_index<S: Src>(s: &mut S) {
    let r = RoundRobinRouting::new();
    let len = s.u64() as usize;
    s.assume(len > 0);
    let n = s.u8() % 4;
    for k in 0..n as usize {
        let i = r.get_and_increment_index(len);
        assert!(i < len, "always a member");
        assert_eq!(i, k % len, "one after the other");
    }
}

#[derive(Clone, Copy)]
pub struct FixedHash(pub u64);
impl BuildHasher for FixedHash {
    type Hasher = FixedHasher;
    fn build_hasher(&self) -> FixedHasher {
        FixedHasher(self.0)
    }
}
pub struct FixedHasher(u64);
impl Hasher for FixedHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _b: &[u8]) {}
}

/// Whatever the hash, the bucket is one of the buckets, and depends on nothing else.
pub fn bucket_in_range<S: Src>(s: &mut S) {
    let h = s.u64();
    let len = s.u64() as usize;
    s.assume(len > 0);
    let r: FieldHashBucketRouting<u32, u32, FixedHash> = FieldHashBucketRouting::new(FixedHash(h), |x| x);
    let v = s.u32();
    assert_eq!(r.hash_field(&v), h);
    assert_eq!(r.hash_message(&v), h);
    let b = r.get_bucket(&v, len);
    assert!(b < len, "always a member");
    if !S::SYMBOLIC {
        assert_eq!(b as u64, h % len as u64, "determined by the hash");
    }
}

/// Messages of one sender reach one member, whoever else sends and however often.
pub fn hash_buckets<S: Src>(s: &mut S) {
    let y = sys();
    y.received();
    let m = group(s, &y);
    let senders: Vec<ActorPath> = (0..4).map(|_| any_actor_path(s)).collect();
    let router = SenderDefaultHashBucketRouting::default();
    let router2: SenderHashBucketRouting<FixedHash> =
        FieldHashBucketRouting::new(FixedHash(s.u64()), NetMessage::sender);
    let default_select = &DEFAULT_SELECT_POLICY;
    let which = s.u8() % 3;
    let base: &dyn RoutingPolicy<DynActorRef, NetMessage> = match which {
        0 => &router,
        1 => &router2,
        _ => default_select,
    };
    assert!(base.broadcast().is_none(), "hash buckets do not broadcast");
    let clone = base.boxed_clone();
    let mut at: Vec<Option<usize>> = vec![None; 4];
    let n = s.u8() % 12;
    for k in 0..n {
        let who = s.u8() as usize % 4;
        let p: &dyn RoutingPolicy<DynActorRef, NetMessage> = match s.u8() % 3 {
            0 => base,
            1 => &*clone,
            _ => base.select().expect("hash buckets select"),
        };
        let members: Vec<&DynActorRef> = m.iter().map(|i| &y.sinks[*i].dyn_ref).collect();
        let msg = net_msg(&senders[who], k as u64);
        p.route(&members, msg, y.system.logger());
        let got = y.received();
        let total: usize = got.iter().map(|v| v.len()).sum();
        assert_eq!(total, if m.is_empty() { 0 } else { 1 }, "exactly one member gets the message");
        if let Some(i) = got.iter().position(|v| !v.is_empty()) {
            assert_eq!(got[i], vec![k as u64]);
            assert!(m.contains(&i), "only members receive messages");
            for o in 0..4 {
                if senders[o] == senders[who] {
                    assert!(at[o].is_none_or(|x| x == i), "one sender, one member");
                    at[o] = Some(i);
                }
            }
            if which != 1 {
                let mut h = DefaultHasher::new();
                senders[who].hash(&mut h);
                assert_eq!(i, m[(h.finish() % m.len() as u64) as usize], "the sender's hash decides");
            }
        }
    }
    let _: BuildHasherDefault<DefaultHasher> = Default::default();
}

/// Broadcasts hand one copy to every member.
pub fn broadcast<S: Src>(s: &mut S) {
    let y = sys();
    y.received();
    let m = group(s, &y);
    let p: &dyn RoutingPolicy<DynActorRef, NetMessage> = &DEFAULT_BROADCAST_POLICY;
    let b = BroadcastRouting::default().boxed_clone();
    assert!(p.select().is_none(), "broadcasts do not select");
    let p = match s.u8() % 3 {
        0 => p,
        1 => &*b,
        _ => p.broadcast().expect("broadcasts broadcast"),
    };
    let sender = any_actor_path(s);
    let v = s.u64();
    let msg = net_msg(&sender, v);
    let members: Vec<&DynActorRef> = m.iter().map(|i| &y.sinks[*i].dyn_ref).collect();
    if s.bool() {
        RoutingGroup::new(members, p).route(msg, y.system.logger());
    } else {
        p.route(&members, msg, y.system.logger());
    }
    let got = y.received();
    for i in 0..SINKS {
        let want = m.iter().filter(|x| **x == i).count();
        assert_eq!(got[i], vec![v; want], "every member gets its copy");
    }
}

#[cfg(kani)]
mod proofs {
    crate::harness!(lookup::round_robin_index, 4);
    crate::harness!(lookup::bucket_in_range, 4);
}
