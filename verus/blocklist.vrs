// C24: the last rule about a remote system or network decides whether it is blocked.
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use vstd::prelude::*;
verus! {
//@ subst FxHashSet<SocketAddr> => AddrSet
//@ subst IpRange<Ipv4Net> => IpRange<Ipv4Net>
//@ subst self.allowed_socket_addr.iter().any(|socket_addr| socket_addr.ip() == *ip_addr) => self.allowed_socket_addr.any_with_ip(ip_addr)

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExV4(Ipv4Addr);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExV6(Ipv6Addr);
#[verifier::external_type_specification]
pub struct ExIp(IpAddr);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExSock(SocketAddr);

pub uninterp spec fn host(s: SocketAddr) -> IpAddr;
pub assume_specification [SocketAddr::ip] (s: &SocketAddr) -> (r: IpAddr)
    ensures r == host(*s);

/// A network: the addresses in it.
pub trait Net: Sized {
    type Addr;
    spec fn has(&self, a: Self::Addr) -> bool;
    /// A network of one address.
    spec fn only(&self, a: Self::Addr) -> bool;
}
#[verifier::external_body]
pub struct Ipv4Net { x: usize }
#[verifier::external_body]
pub struct Ipv6Net { x: usize }
uninterp spec fn has4(n: Ipv4Net, a: Ipv4Addr) -> bool;
uninterp spec fn has6(n: Ipv6Net, a: Ipv6Addr) -> bool;
impl Net for Ipv4Net {
    type Addr = Ipv4Addr;
    closed spec fn has(&self, a: Ipv4Addr) -> bool { has4(*self, a) }
    closed spec fn only(&self, a: Ipv4Addr) -> bool { forall|b: Ipv4Addr| #[trigger] has4(*self, b) <==> b == a }
}
impl Net for Ipv6Net {
    type Addr = Ipv6Addr;
    closed spec fn has(&self, a: Ipv6Addr) -> bool { has6(*self, a) }
    closed spec fn only(&self, a: Ipv6Addr) -> bool { forall|b: Ipv6Addr| #[trigger] has6(*self, b) <==> b == a }
}
trait ToNetwork<N: Net> { fn to_network(&self) -> N; }
impl ToNetwork<Ipv4Net> for Ipv4Addr {
    #[verifier::external_body]
    fn to_network(&self) -> (r: Ipv4Net)
        ensures r.only(*self),
    { unimplemented!() }
}
impl ToNetwork<Ipv6Net> for Ipv6Addr {
    #[verifier::external_body]
    fn to_network(&self) -> (r: Ipv6Net)
        ensures r.only(*self),
    { unimplemented!() }
}
pub enum IpNet { V4(Ipv4Net), V6(Ipv6Net) }
impl IpNet {
    spec fn covers(self, a: IpAddr) -> bool {
        match (self, a) { (IpNet::V4(n), IpAddr::V4(a)) => n.has(a), (IpNet::V6(n), IpAddr::V6(a)) => n.has(a), _ => false }
    }
}

/// `iprange::IpRange` as the set of the addresses in it.
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
pub struct IpRange<N: Net> { x: std::marker::PhantomData<N> }
impl<N: Net> IpRange<N> {
    pub uninterp spec fn has(self, a: N::Addr) -> bool;
    /// Only asked about single addresses.
    #[verifier::external_body]
    fn contains(&self, n: &N) -> (r: bool)
        requires exists|a: N::Addr| n.only(a),
        ensures forall|a: N::Addr| n.only(a) ==> r == self.has(a),
    { unimplemented!() }
    #[verifier::external_body]
    fn add(&mut self, n: N)
        ensures forall|a: N::Addr| #[trigger] final(self).has(a) <==> (old(self).has(a) || n.has(a)),
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, n: N)
        ensures forall|a: N::Addr| #[trigger] final(self).has(a) <==> (old(self).has(a) && !n.has(a)),
    { unimplemented!() }
}

/// A hash set of socket addresses.
#[verifier::external_body]
pub struct AddrSet { x: usize }
impl View for AddrSet { type V = Set<SocketAddr>; uninterp spec fn view(&self) -> Set<SocketAddr>; }
impl AddrSet {
    #[verifier::external_body]
    fn contains(&self, a: &SocketAddr) -> (r: bool)
        ensures r == self@.contains(*a),
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, a: SocketAddr) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(a), r == !old(self)@.contains(a),
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, a: &SocketAddr) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(*a), r == old(self)@.contains(*a),
    { unimplemented!() }
    #[verifier::external_body]
    fn any_with_ip(&self, ip: &IpAddr) -> (r: bool)
        ensures r == exists|a: SocketAddr| self@.contains(a) && host(a) == *ip,
    { unimplemented!() }
}

/*@ struct network/src/transport/network_thread.rs BlockList */

impl BlockList {
    /// No address has two rules of its own.
    spec fn inv(self) -> bool { forall|a: SocketAddr| !(self.blocked_socket_addr@.contains(a) && #[trigger] self.allowed_socket_addr@.contains(a)) }
    /// Whether the rules for hosts and networks say that the host is blocked.
    spec fn host_blocked(self, a: IpAddr) -> bool {
        match a { IpAddr::V4(a) => self.ipv4_set.has(a), IpAddr::V6(a) => self.ipv6_set.has(a) }
    }
    /// The rule for exactly this address, if there is one.
    spec fn own_rule(self, a: SocketAddr) -> Option<bool> {
        if self.allowed_socket_addr@.contains(a) { Some(false) } else if self.blocked_socket_addr@.contains(a) { Some(true) } else { None }
    }
    spec fn blocked(self, a: SocketAddr) -> bool {
        match self.own_rule(a) { Some(b) => b, None => self.host_blocked(host(a)) }
    }
    spec fn same_own(self, o: BlockList) -> bool {
        self.blocked_socket_addr == o.blocked_socket_addr && self.allowed_socket_addr == o.allowed_socket_addr
    }
    spec fn same_hosts(self, o: BlockList) -> bool { self.ipv4_set == o.ipv4_set && self.ipv6_set == o.ipv6_set }

/*@ fn network/src/transport/network_thread.rs :: impl BlockList :: block_ip_addr
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_own(*old(self)), r == !old(self).host_blocked(ip_addr),
        forall|h: IpAddr| #[trigger] final(self).host_blocked(h) == (h == ip_addr || old(self).host_blocked(h)),
*/
/*@ fn network/src/transport/network_thread.rs :: impl BlockList :: block_ip_net
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_own(*old(self)),
        forall|h: IpAddr| #[trigger] final(self).host_blocked(h) == (ip_net.covers(h) || old(self).host_blocked(h)),
*/
/*@ fn network/src/transport/network_thread.rs :: impl BlockList :: allow_ip_net
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_own(*old(self)),
        forall|h: IpAddr| #[trigger] final(self).host_blocked(h) == (!ip_net.covers(h) && old(self).host_blocked(h)),
*/
/*@ fn network/src/transport/network_thread.rs :: impl BlockList :: allow_ip_addr
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_own(*old(self)), r == old(self).host_blocked(*ip_addr),
        forall|h: IpAddr| #[trigger] final(self).host_blocked(h) == (h != *ip_addr && old(self).host_blocked(h)),
*/
/*@ fn network/src/transport/network_thread.rs :: impl BlockList :: block_socket_addr
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_hosts(*old(self)), final(self).own_rule(socket_addr) == Some(true),
        forall|a: SocketAddr| a != socket_addr ==> #[trigger] final(self).own_rule(a) == old(self).own_rule(a),
        r == (old(self).own_rule(socket_addr) != Some(true)),
*/
/*@ fn network/src/transport/network_thread.rs :: impl BlockList :: allow_socket_addr
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_hosts(*old(self)), final(self).own_rule(*socket_addr) == Some(false),
        forall|a: SocketAddr| a != *socket_addr ==> #[trigger] final(self).own_rule(a) == old(self).own_rule(a),
        r == (old(self).own_rule(*socket_addr) != Some(false)),
*/
/*@ fn network/src/transport/network_thread.rs :: impl BlockList :: ip_addr_is_blocked
    requires self.inv(),
    ensures r == (self.host_blocked(*ip_addr) && !exists|a: SocketAddr| host(a) == *ip_addr && self.own_rule(a) == Some(false)),
*/
/*@ fn network/src/transport/network_thread.rs :: impl BlockList :: socket_addr_is_blocked
    requires self.inv(),
    ensures r == self.blocked(*socket_addr),
*/
/*@ fn network/src/transport/network_thread.rs :: impl BlockList :: ip_sets_contains_ip_addr
    ensures r == self.host_blocked(*ip_addr),
*/
}
fn main() {}
}
