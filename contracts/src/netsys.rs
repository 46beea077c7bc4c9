//! C28: messages between systems arrive intact, in order and once.
use crate::{nondet::*, sys::kompact_logger};
use bytes::{Buf, BufMut};
use kompact::{net::buffers::BufferConfig, prelude::*};
use kompact_net::{NetworkConfig, NetworkStatus, NetworkStatusPort, NetworkStatusRequest, prelude::*};
use std::{
    any::Any,
    cell::RefCell,
    collections::{BTreeMap, HashMap},
    sync::{Arc, Mutex},
    thread,
    time::{Duration, Instant},
};

#[derive(Clone, Debug, PartialEq)]
pub struct Blob {
    id: u64,
    /// What the receiver does: 0 nothing, 1 replies, 2 and 3 forwards it to another node.
    then: u8,
    len: u32,
    hint: bool,
    cut: u32,
}

fn byte(id: u64, i: u32) -> u8 {
    (id.wrapping_mul(0x9E37_79B9) as u32 ^ i.wrapping_mul(0x85EB_CA6B)).to_le_bytes()[2]
}

impl Serialisable for Blob {
    fn ser_id(&self) -> SerId {
        if self.then < 2 { 4711 } else { 4710 + self.then as u64 }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint.then_some(17 + self.len as usize)
    }
    fn serialise(&self, buf: &mut dyn BufMut) -> Result<(), SerError> {
        buf.put_u64(self.id);
        buf.put_u8(self.then);
        buf.put_u32(self.len);
        buf.put_u32(self.cut);
        // In pieces of different sizes.
        let all: Vec<u8> = (0..self.len).map(|i| byte(self.id, i)).collect();
        for c in all.chunks(self.cut.max(1) as usize) {
            match c {
                [b] => buf.put_u8(*b),
                c => buf.put_slice(c),
            }
        }
        Ok(())
    }
    fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
        Ok(self)
    }
}
struct BlobDe<const ID: u64>;
impl<const ID: u64> Deserialiser<Blob> for BlobDe<ID> {
    const SER_ID: SerId = ID;
    fn deserialise(buf: &mut dyn Buf) -> Result<Blob, SerError> {
        if buf.remaining() < 17 {
            return Err(SerError::invalid_data("short"));
        }
        let (id, then, len, cut) = (buf.get_u64(), buf.get_u8(), buf.get_u32(), buf.get_u32());
        if buf.remaining() != len as usize {
            return Err(SerError::invalid_data(format!("{len} bytes announced, {} there", buf.remaining())));
        }
        for i in 0..len {
            if buf.get_u8() != byte(id, i) {
                return Err(SerError::invalid_data(format!("byte {i} of {len} is wrong")));
            }
        }
        Ok(Blob { id, then, len, hint: true, cut })
    }
}

/// Who sent what to whom by which way; the messages of one flow keep their order.
type Flow = (usize, usize, &'static str);

#[derive(Default)]
struct Shared {
    got: Vec<(usize, ActorPath, Result<Blob, String>)>,
}

#[derive(ComponentDefinition)]
pub struct Node {
    ctx: ComponentContext<Self>,
    me: usize,
    sh: Arc<Mutex<Shared>>,
    /// Where messages marked 2 and 3 go.
    onward: [Option<ActorPath>; 2],
}
ignore_lifecycle!(Node);
impl Actor for Node {
    type Message = Never;
    fn receive_local(&mut self, _: Never) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, msg: NetMessage) -> HandlerResult {
        let from = msg.sender.clone();
        let r = match *msg.ser_id() {
            4711 => msg.try_deserialise::<Blob, BlobDe<4711>>().map_err(|e| format!("{e:?}")),
            // To be passed on unread, where there is somewhere to pass it on to.
            id => match &self.onward[(id & 1) as usize] {
                Some(to) => {
                    to.clone().forward_with_original_sender(msg, self);
                    return Handled::OK;
                }
                None if id == 4712 => msg.try_deserialise::<Blob, BlobDe<4712>>().map_err(|e| format!("{e:?}")),
                None => msg.try_deserialise::<Blob, BlobDe<4713>>().map_err(|e| format!("{e:?}")),
            },
        };
        if let Ok(b) = &r {
            if b.then == 1 {
                let reply = Blob { id: b.id | 1 << 63, then: 0, len: b.len / 2, hint: !b.hint, cut: 7 };
                if b.len % 2 == 0 {
                    from.tell(reply, self);
                } else {
                    from.tell_serialised(reply, self).expect("reply");
                }
            }
        }
        self.sh.lock().unwrap().got.push((self.me, from, r));
        Handled::OK
    }
}

/// Closes connections.
#[derive(ComponentDefinition)]
pub struct Closer {
    ctx: ComponentContext<Self>,
    net: RequiredPort<NetworkStatusPort>,
    seen: Vec<NetworkStatus>,
}
ignore_lifecycle!(Closer);
impl Require<NetworkStatusPort> for Closer {
    fn handle(&mut self, e: NetworkStatus) -> HandlerResult {
        self.seen.push(e);
        Handled::OK
    }
}
impl Actor for Closer {
    type Message = Never;
    fn receive_local(&mut self, _: Never) -> HandlerResult {
        Handled::OK
    }
    fn receive_network(&mut self, _: NetMessage) -> HandlerResult {
        Handled::OK
    }
}

/// Nodes: three on system A, three on system B (one of them passes messages on), in this order.
const NODES: usize = 6;
const RELAY: usize = 5;

struct Net {
    systems: [KompactSystem; 2],
    nodes: Vec<Arc<Component<Node>>>,
    paths: Vec<ActorPath>,
    /// Reachable by name as well.
    names: Vec<ActorPath>,
    sh: Arc<Mutex<Shared>>,
    closers: Vec<Arc<Component<Closer>>>,
}

fn config(k: usize) -> NetworkConfig {
    let mut b = BufferConfig::default();
    match k {
        0 => (),
        1 => {
            b.chunk_size(128);
            b.encode_buf_min_free_space(64);
            b.max_chunk_count(100_000);
        }
        _ => {
            b.chunk_size(1000);
            b.initial_chunk_count(1);
            b.max_chunk_count(100_000);
        }
    }
    let mut c = NetworkConfig::with_buffer_config("127.0.0.1:0".parse().unwrap(), b);
    c.set_connection_retry_interval(100);
    c
}

impl Net {
    fn build(k: usize) -> Net {
        let sh: Arc<Mutex<Shared>> = Arc::default();
        let system = || {
            let mut c = KompactConfig::default();
            c.logger(kompact_logger());
            c.threads(2);
            c.system_components(DeadletterBox::new, config(k).build());
            c.build().wait().expect("system")
        };
        let systems = [system(), system()];
        let (mut nodes, mut paths, mut names) = (Vec::new(), Vec::new(), Vec::new());
        for me in 0..NODES {
            let sys = &systems[me / 3];
            let s2 = sh.clone();
            let n = sys.create(move || Node { ctx: ComponentContext::uninitialised(), me, sh: s2, onward: [None, None] });
            if k > 0 {
                let mut b = BufferConfig::default();
                b.chunk_size(if k == 1 { 128 } else { 1000 });
                b.encode_buf_min_free_space(64);
                b.max_chunk_count(100_000);
                n.on_definition(|d| d.ctx_mut().init_buffers(Some(b), None));
            }
            let limit = Duration::from_secs(20);
            paths.push(sys.register(&n).wait_timeout(limit).expect("registered").expect("path"));
            names.push(sys.register_by_alias(&n, format!("node/{me}")).wait_timeout(limit).expect("registered").expect("path"));
            sys.start_notify(&n).wait_timeout(limit).expect("started");
            nodes.push(n);
        }
        let onward = [Some(paths[0].clone()), Some(names[3].clone())];
        nodes[RELAY].on_definition(|d| d.onward = onward);
        let closers = systems
            .iter()
            .map(|s| {
                let c = s.create(|| Closer { ctx: ComponentContext::uninitialised(), net: RequiredPort::uninitialised(), seen: Vec::new() });
                c.on_definition(|c| s.connect_network_status_port(&mut c.net));
                s.start_notify(&c).wait_timeout(Duration::from_secs(20)).expect("started");
                c
            })
            .collect();
        Net { systems, nodes, paths, names, sh, closers }
    }
    fn end(self) {
        drop((self.nodes, self.closers));
        for s in self.systems {
            s.shutdown().wait().expect("shutdown");
        }
    }
}

thread_local! {
    static NETS: RefCell<HashMap<usize, Net>> = RefCell::new(HashMap::new());
    static NEXT: RefCell<u64> = const { RefCell::new(1) };
}

fn size<S: Src>(s: &mut S) -> u32 {
    (match s.upto(9) {
        0..=3 => s.upto(30),
        4..=5 => 20 + s.upto(250),
        6..=7 => 850 + s.upto(300),
        8 => s.upto(9000),
        _ => if s.upto(3) == 0 { 60_000 + s.upto(160_000) } else { s.upto(20_000) },
    }) as u32
}

/// Over connections which stay open.
pub fn messages_arrive<S: Src>(s: &mut S) {
    exchange(s, false);
}

/// Over connections closed and opened again: what arrives was sent, and arrives once.
pub fn closing_damages_nothing<S: Src>(s: &mut S) {
    exchange(s, true);
}

fn exchange<S: Src>(s: &mut S, closing: bool) {
    let k = s.upto(2);
    let fresh = s.upto(3) == 0;
    let net = if fresh { Net::build(k) } else { NETS.with(|n| n.borrow_mut().remove(&k)).unwrap_or_else(|| Net::build(k)) };
    let mut want: BTreeMap<Flow, Vec<Blob>> = BTreeMap::new();
    let mut maybe: Vec<(usize, usize, Blob)> = Vec::new();
    let mut expected = 0;
    let most = if s.upto(5) == 0 { 80 } else { 12 };
    // Sometimes many small messages before the connection is there.
    let burst = if fresh && s.bool() { 20 + s.upto(150) } else { 0 };
    let n = burst + 1 + s.upto(most);
    // A message in thousands of chunks overflows the stack (see known-findings.json).
    let mut room: u32 = if k == 1 { 100_000 } else { 10_000_000 };
    for at in 0..n {
        if at >= burst && closing && s.upto(5) == 0 {
            let by = s.upto(1);
            let other = net.paths[3 - 3 * by].system().clone();
            net.closers[by].on_definition(|c| c.net.trigger(NetworkStatusRequest::DisconnectSystem(other)));
            if s.bool() {
                thread::sleep(Duration::from_micros(s.upto(20_000) as u64));
            }
        }
        let (from, mut to) = if at < burst { (at % 2, 3 + at % 2) } else { (s.upto(4), s.upto(5)) };
        let udp = at >= burst && k == 0 && s.upto(15) == 0;
        let then = if to == RELAY && !udp { 2 + s.upto(1) as u8 } else { if to == RELAY { to = 4 } (s.upto(5) == 0) as u8 };
        let len = (if udp { s.upto(30_000) as u32 } else if at < burst { s.upto(3) as u32 } else { size(s) }).min(room);
        room -= len;
        let id = NEXT.with(|n| {
            *n.borrow_mut() += 1;
            *n.borrow()
        });
        let b = Blob { id, then: if udp { 0 } else { then }, len, hint: s.bool(), cut: 1 + s.upto(40) as u32 };
        let mut path = if s.bool() { net.paths[to].clone() } else { net.names[to].clone() };
        let local = from / 3 == to / 3;
        if udp {
            path.via_udp();
        }
        let mode = s.upto(2);
        let seen = Blob { hint: true, ..b.clone() };
        if udp && !local {
            maybe.push((from, to, seen));
        } else {
            let flow = match (to, b.then) {
                (RELAY, 2) => (from, 0, "relayed"),
                (RELAY, _) => (from, 3, "relayed"),
                _ => (from, to, if udp { "by datagram" } else { "sent" }),
            };
            want.entry(flow).or_default().push(seen);
            expected += 1;
            if b.then == 1 {
                want.entry((to, from, "replied")).or_default().push(Blob { id: id | 1 << 63, then: 0, len: len / 2, hint: true, cut: 7 });
                expected += 1;
            }
        }
        net.nodes[from].on_definition(|d| match mode {
            0 => path.tell(b, d),
            1 => path.tell_serialised(b, d).expect("serialised"),
            _ => {
                let c = d.ctx().preserialise(&b).expect("preserialised");
                path.tell_preserialised(c, d).expect("told")
            }
        });
    }
    let t0 = Instant::now();
    let mut got: Vec<(usize, ActorPath, Result<Blob, String>)> = Vec::new();
    let mut sure = 0;
    let mut last = Instant::now();
    while sure < expected && t0.elapsed() < Duration::from_secs(15) && !(closing && last.elapsed() > Duration::from_millis(300)) {
        let new = std::mem::take(&mut net.sh.lock().unwrap().got);
        if new.is_empty() {
            thread::sleep(Duration::from_micros(200));
        }
        for g in new {
            last = Instant::now();
            let datagram = matches!(&g.2, Ok(b) if maybe.iter().any(|(_, _, m)| m.id == b.id));
            sure += !datagram as usize;
            got.push(g);
        }
    }
    let mut have: BTreeMap<Flow, Vec<Blob>> = BTreeMap::new();
    for (at, sender, r) in got {
        let b = r.unwrap_or_else(|e| panic!("a message arrives damaged at {at} from {sender:?} k {k}: {}", &e[..800.min(e.len())]));
        let from = net.paths.iter().position(|p| p.id_part() == sender.id_part()).expect("the sender is a node");
        let b = Blob { hint: true, ..b };
        if let Some(i) = maybe.iter().position(|m| *m == (from, at, b.clone())) {
            maybe.remove(i);
            continue;
        }
        let what = if b.id >> 63 == 1 { "replied" } else if b.then >= 2 { "relayed" } else if sender.protocol() == Transport::Udp { "by datagram" } else { "sent" };
        have.entry((from, at, what)).or_default().push(b);
    }
    if closing {
        for (flow, h) in have {
            let w = want.entry(flow).or_default();
            for b in h {
                let i = w.iter().position(|x| *x == b);
                w.remove(i.unwrap_or_else(|| panic!("from {} to {} {}: arrived twice, or never sent: {b:?}", flow.0, flow.1, flow.2)));
            }
        }
        if want.values().any(|w| !w.is_empty()) || !maybe.is_empty() || fresh {
            net.end();
        } else {
            NETS.with(|n| n.borrow_mut().insert(k, net));
        }
        return;
    }
    for (flow, w) in &want {
        let h = have.remove(flow).unwrap_or_default();
        let ids = |v: &[Blob]| v.iter().map(|b| b.id & !(1 << 63)).collect::<Vec<_>>();
        assert!(h == *w, "from {} to {} {}: sent {:?}, arrived {:?}", flow.0, flow.1, flow.2, ids(w), ids(&h));
    }
    assert!(have.is_empty(), "messages nobody sent: {have:?}");
    // Datagrams may still be under way.
    if fresh || !maybe.is_empty() {
        net.end();
    } else {
        NETS.with(|n| n.borrow_mut().insert(k, net));
    }
}

trait IdPart {
    fn id_part(&self) -> String;
}
impl IdPart for ActorPath {
    fn id_part(&self) -> String {
        let t = self.to_string();
        t[t.find("://").unwrap()..].to_string()
    }
}
