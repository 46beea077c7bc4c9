//! C23: outgoing queues of connections being established. C24: the list of blocked addresses.
use crate::{frames::any_addr, nondet::*, paths::*};
#[cfg(kompact_verif_netqueue)]
use ipnet::{IpNet, Ipv4Net, Ipv6Net};
use kompact::{messaging::*, prelude::*};
#[cfg(kompact_verif_netqueue)]
use kompact_net::{net::network_thread::BlockList, verif_hooks::QueueManager};
use std::{
    collections::VecDeque,
    net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr},
};

fn data(path: &ActorPath, id: u64) -> DispatchData {
    match id % 3 {
        0 => DispatchData::Lazy(Box::new(id), path.clone(), path.clone()),
        1 => DispatchData::NetMessage(NetMessage::with_box(
            <u64 as Deserialiser<u64>>::SER_ID,
            path.clone(),
            path.clone(),
            Box::new(id),
        )),
        _ => DispatchData::Serialised(SerialisedFrame::Bytes(bytes::Bytes::copy_from_slice(&id.to_le_bytes()))),
    }
}

fn id_of(d: DispatchData) -> u64 {
    match d {
        DispatchData::Lazy(b, _, _) => *b.local().ok().unwrap().downcast::<u64>().unwrap(),
        DispatchData::NetMessage(m) => m.try_deserialise::<u64, u64>().unwrap(),
        DispatchData::Serialised(SerialisedFrame::Bytes(b)) => {
            u64::from_le_bytes(b.as_ref().try_into().unwrap())
        }
        _ => panic!("data changed its form"),
    }
}

#[derive(Default, Clone)]
struct Queues {
    addr: Option<SocketAddr>,
    prio: VecDeque<u64>,
    rest: VecDeque<u64>,
}

/// Every history of queue operations agrees with two FIFO queues per address.
#[cfg(kompact_verif_netqueue)]
pub fn queues_are_fifo<S: Src>(s: &mut S) {
    let n_addr = s.u8() as usize % 4 + 1;
    let mut model: Vec<Queues> = (0..n_addr)
        .map(|_| Queues { addr: Some(any_addr(s)), ..Default::default() })
        .collect();
    for i in 0..n_addr {
        // Addresses that differ in the port or the host only.
        if i > 0 && s.bool() {
            let a = model[i - 1].addr.unwrap();
            model[i].addr = Some(SocketAddr::new(a.ip(), a.port().wrapping_add(1)));
        }
        for j in 0..i {
            s.assume(model[j].addr != model[i].addr);
        }
    }
    let path = any_actor_path(s);
    let mut q = QueueManager::new();
    let ops = s.u8() % 60;
    let mut next = 0u64;
    for _ in 0..ops {
        let i = s.u8() as usize % n_addr;
        let a = model[i].addr.unwrap();
        match s.u8() % 16 {
            0..=4 => {
                q.enqueue_data(data(&path, next), a);
                model[i].rest.push_back(next);
                next += 1;
            }
            5..=8 => {
                q.enqueue_priority_data(data(&path, next), a);
                model[i].prio.push_back(next);
                next += 1;
            }
            9..=14 => {
                let expected = model[i].prio.pop_front().or_else(|| model[i].rest.pop_front());
                let got = q.pop_data(&a).map(id_of);
                assert_eq!(got, expected, "queued data comes out in order, prioritised data first");
            }
            _ => {
                q.drop_queue(&a);
                model[i].prio.clear();
                model[i].rest.clear();
            }
        }
        for m in &model {
            assert_eq!(
                q.has_data(&m.addr.unwrap()),
                !m.prio.is_empty() || !m.rest.is_empty(),
                "data is reported exactly while some is queued"
            );
        }
    }
    for m in &mut model {
        let a = m.addr.unwrap();
        while let Some(d) = q.pop_data(&a) {
            let e = m.prio.pop_front().or_else(|| m.rest.pop_front());
            assert_eq!(Some(id_of(d)), e, "the rest comes out in order");
        }
        assert!(m.prio.is_empty() && m.rest.is_empty(), "no queued data is lost");
        assert!(!q.has_data(&a));
    }
}

fn near_ip<S: Src>(s: &mut S) -> IpAddr {
    let b = s.u8();
    let low = (b & 7) as u32 | ((b as u32 >> 3) & 3) << 8;
    let wild = s.u8() == 0;
    if b & 0x20 == 0 {
        IpAddr::V4(Ipv4Addr::from(if wild { s.u32() } else { 0x0A00_0000 | low }))
    } else {
        IpAddr::V6(Ipv6Addr::from(if wild {
            s.u128()
        } else if b & 0x40 == 0 {
            0x2001_0db8 << 96 | low as u128
        } else {
            // v4-mapped: another address than the v4 one
            0xffff_0a00_0000 | low as u128
        }))
    }
}

#[cfg(kompact_verif_netqueue)]
fn near_net<S: Src>(s: &mut S) -> IpNet {
    match near_ip(s) {
        IpAddr::V4(a) => {
            let p = match s.u8() % 8 {
                0 => 0,
                1 => 8,
                n => 22 + n + s.u8() % 4,
            };
            IpNet::V4(Ipv4Net::new(a, p.min(32)).unwrap().trunc())
        }
        IpAddr::V6(a) => {
            let p = match s.u8() % 8 {
                0 => 0,
                1 => 64,
                n => 118 + n + s.u8() % 4,
            };
            IpNet::V6(Ipv6Net::new(a, p.min(128)).unwrap().trunc())
        }
    }
}

#[cfg(kompact_verif_netqueue)]
enum Rule {
    Net(IpNet, bool),
    Sock(SocketAddr, bool),
}

#[cfg(kompact_verif_netqueue)]
fn ip_blocked(rules: &[Rule], ip: &IpAddr) -> bool {
    rules
        .iter()
        .rev()
        .find_map(|r| match r {
            Rule::Net(n, b) if n.contains(ip) => Some(*b),
            _ => None,
        })
        .unwrap_or(false)
}

#[cfg(kompact_verif_netqueue)]
fn sock_rule(rules: &[Rule], a: &SocketAddr) -> Option<bool> {
    rules.iter().rev().find_map(|r| match r {
        Rule::Sock(x, b) if x == a => Some(*b),
        _ => None,
    })
}

/// The last matching rule wins, and rules for a system beat rules for its host or network.
#[cfg(kompact_verif_netqueue)]
pub fn last_rule_wins<S: Src>(s: &mut S) {
    let mut l = BlockList::default();
    let mut rules: Vec<Rule> = Vec::new();
    let n = s.u8() % 24;
    let sock = |s: &mut S| SocketAddr::new(near_ip(s), s.u8() as u16 % 3);
    let mut seen: Vec<SocketAddr> = Vec::new();
    for _ in 0..n {
        match s.u8() % 6 {
            0 => {
                let ip = near_ip(s);
                let changed = l.verif_block_ip_addr(ip);
                assert_eq!(changed, !ip_blocked(&rules, &ip), "reports whether blocking changed anything");
                rules.push(Rule::Net(ip.into(), true));
            }
            1 => {
                let ip = near_ip(s);
                let changed = l.verif_allow_ip_addr(&ip);
                assert_eq!(changed, ip_blocked(&rules, &ip), "reports whether allowing changed anything");
                rules.push(Rule::Net(ip.into(), false));
            }
            2 => {
                let net = near_net(s);
                l.verif_block_ip_net(net);
                rules.push(Rule::Net(net, true));
            }
            3 => {
                let net = near_net(s);
                l.verif_allow_ip_net(net);
                rules.push(Rule::Net(net, false));
            }
            4 => {
                let a = if !seen.is_empty() && s.bool() { seen[s.u8() as usize % seen.len()] } else { sock(s) };
                let changed = l.verif_block_socket_addr(a);
                assert_eq!(changed, sock_rule(&rules, &a) != Some(true), "reports whether blocking changed anything");
                rules.push(Rule::Sock(a, true));
                seen.push(a);
            }
            _ => {
                let a = if !seen.is_empty() && s.bool() { seen[s.u8() as usize % seen.len()] } else { sock(s) };
                let changed = l.verif_allow_socket_addr(&a);
                assert_eq!(changed, sock_rule(&rules, &a) != Some(false), "reports whether allowing changed anything");
                rules.push(Rule::Sock(a, false));
                seen.push(a);
            }
        }
        for _ in 0..3 {
            let a = if !seen.is_empty() && s.bool() { seen[s.u8() as usize % seen.len()] } else { sock(s) };
            check(&l, &rules, &a);
        }
    }
    for a in seen {
        check(&l, &rules, &a);
        check(&l, &rules, &SocketAddr::new(a.ip(), a.port() + 1));
    }
}

#[cfg(kompact_verif_netqueue)]
fn check(l: &BlockList, rules: &[Rule], a: &SocketAddr) {
    let by_ip = ip_blocked(rules, &a.ip());
    assert_eq!(
        l.verif_socket_addr_is_blocked(a),
        sock_rule(rules, a).unwrap_or(by_ip),
        "a system is blocked exactly as the last rule for it says"
    );
    let exempt = rules.iter().any(|r| {
        matches!(r, Rule::Sock(x, _) if x.ip() == a.ip() && sock_rule(rules, x) == Some(false))
    });
    assert_eq!(
        l.verif_ip_addr_is_blocked(&a.ip()),
        by_ip && !exempt,
        "a host is blocked entirely unless one of its systems is allowed"
    );
}
