// V13: the cached topology and the lifecycle hooks that maintain connection states and the peer map (C26).
// Real code: crates/connection/connection/src/{network_topology,client,server}.rs.
use vstd::prelude::*;
use vstd::multiset::Multiset;
verus! {
//@@ include maps.inc
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Entity { pub index: u32, pub generation: u32 }
impl Entity { pub fn index_u32(&self) -> (r: u32) ensures r == self.index { self.index } }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum PeerId { Entity(u64), Raw(u64), Netcode(u64), Steam(u64), Local(u64), Server }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct LinkOf { pub server: Entity }
//@@ source crates/connection/connection/src/p2p.rs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@@ item enum P2P
/// SmallVec<[Entity; 4]>
#[verifier::external_body]
pub struct SmallVec { v: Vec<Entity> }
impl View for SmallVec { type V = Seq<Entity>; uninterp spec fn view(&self) -> Seq<Entity>; }
pub open spec fn sorted(s: Seq<Entity>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).index <= (#[trigger] s[j]).index }
impl SmallVec {
    #[verifier::external_body]
    pub fn new() -> (r: SmallVec) ensures r@ == Seq::<Entity>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, e: Entity) ensures final(self)@ == old(self)@.push(e) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_pair(a: Entity, b: Entity) -> (r: SmallVec) ensures r@ == seq![a, b] { unimplemented!() }
    /// extend() by the entities of the clients that are left
    #[verifier::external_body]
    pub fn vx_extend_clients(&mut self, it: ClientIter) ensures final(self)@ == old(self)@ + ents(it.rest()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_extend(&mut self, it: EntIter) ensures final(self)@ == old(self)@ + it.rest() { unimplemented!() }
    /// sort_unstable_by_key(index)
    #[verifier::external_body]
    pub fn vx_sort(&mut self) ensures sorted(final(self)@), final(self)@.to_multiset() == old(self)@.to_multiset(), final(self)@.len() == old(self)@.len() { unimplemented!() }
}
//@@ source crates/connection/connection/src/network_topology.rs

//@@ item enum NetworkTopologyError SmallVec < [ Entity ; 4 ] >=>SmallVec
//@@ item enum NetworkTopology SmallVec < [ Entity ; 4 ] >=>SmallVec
#[derive(Clone, Copy)]
//@@ item struct ReadyClient
/// equality of two topologies (derived), entity lists by content
pub open spec fn same(a: NetworkTopology, b: NetworkTopology) -> bool {
    match (a, b) {
        (NetworkTopology::P2P(x), NetworkTopology::P2P(y)) => x@ == y@,
        (NetworkTopology::Invalid(NetworkTopologyError::MultipleConnectedClients(x)), NetworkTopology::Invalid(NetworkTopologyError::MultipleConnectedClients(y))) => x@ == y@,
        (NetworkTopology::Invalid(NetworkTopologyError::MultipleStartedServers(x)), NetworkTopology::Invalid(NetworkTopologyError::MultipleStartedServers(y))) => x@ == y@,
        _ => a == b,
    }
}
#[verifier::external_body]
fn vx_same(a: &NetworkTopology, b: &NetworkTopology) -> (r: bool) ensures r == same(*a, *b) { unimplemented!() }
/// ResMut<NetworkingMetadata>: `changed` is whether change detection saw a write
pub struct NetworkingMetadata { pub mode: NetworkTopology, pub peer_map: HashMap<PeerId, Entity>, pub dirty: bool, pub changed: bool }
impl NetworkingMetadata {
    pub fn vx_set_mode(&mut self, m: NetworkTopology) ensures *final(self) == (NetworkingMetadata { mode: m, changed: true, ..*old(self) }) { self.mode = m; self.changed = true; }
}
// ---------------------------------------------------------------- what the world holds
pub struct EntIter { pub l: Vec<Entity>, pub i: usize }
impl EntIter {
    pub open spec fn rest(&self) -> Seq<Entity> { if self.i <= self.l@.len() { self.l@.skip(self.i as int) } else { Seq::empty() } }
    pub fn next(&mut self) -> (r: Option<Entity>)
        ensures match r { Some(e) => old(self).rest().len() > 0 && e == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() }
    {
        if self.i < self.l.len() { let e = self.l[self.i]; self.i = self.i + 1; proof { assert(self.l@.skip(self.i as int) =~= self.l@.skip(self.i as int - 1).skip(1)); } Some(e) } else { None }
    }
}
pub struct ClientIter { pub l: Vec<ReadyClient>, pub i: usize }
impl ClientIter {
    pub open spec fn rest(&self) -> Seq<ReadyClient> { if self.i <= self.l@.len() { self.l@.skip(self.i as int) } else { Seq::empty() } }
    pub fn next(&mut self) -> (r: Option<ReadyClient>)
        ensures match r { Some(e) => old(self).rest().len() > 0 && e == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() }
    {
        if self.i < self.l.len() { let e = self.l[self.i]; self.i = self.i + 1; proof { assert(self.l@.skip(self.i as int) =~= self.l@.skip(self.i as int - 1).skip(1)); } Some(e) } else { None }
    }
}
pub open spec fn ents(l: Seq<ReadyClient>) -> Seq<Entity> { l.map_values(|c: ReadyClient| c.entity) }
/// the lowest of these entities
pub open spec fn is_lowest(o: Option<Entity>, s: Seq<Entity>) -> bool {
    match o { Some(e) => s.contains(e) && forall|i: int| 0 <= i < s.len() ==> e.index <= (#[trigger] s[i]).index, None => s.len() == 0 }
}
/// all of these entities, lowest first
pub open spec fn ordered(v: Seq<Entity>, s: Seq<Entity>) -> bool { sorted(v) && v.to_multiset() == s.to_multiset() }
/// min_by_key(vx_key): the keys are checked at each call of it
fn vx_min(l: &Vec<Entity>) -> (r: Option<Entity>) ensures is_lowest(r, l@)
{
    if l.len() == 0 { return None; }
    let mut e = l[0];
    let mut i: usize = 1;
    while i < l.len() invariant 1 <= i <= l@.len(), l@.contains(e), forall|k: int| 0 <= k < i ==> e.index <= (#[trigger] l@[k]).index decreases l@.len() - i
    { if l[i].index < e.index { e = l[i]; } i += 1; }
    Some(e)
}
/// the clients, servers, hosts and peer links of a world; the iteration orders are arbitrary
pub struct Hosts { pub l: Vec<Entity> }
pub struct Servers { pub l: Vec<Entity> }
pub struct Clients { pub l: Vec<(Entity, bool, bool, Option<LinkOf>)> }
pub struct P2PLinks { pub l: Vec<(Entity, P2P, bool)> }
impl Hosts { fn vx_lowest(&self) -> (r: Option<Entity>) ensures is_lowest(r, self.l@) { vx_min(&self.l) } }
impl Servers {
    fn vx_lowest(&self) -> (r: Option<Entity>) ensures is_lowest(r, self.l@) { vx_min(&self.l) }
    pub fn iter(&self) -> (r: EntIter) ensures r.rest() == self.l@ {
        let mut v: Vec<Entity> = Vec::new();
        let mut i: usize = 0;
        while i < self.l.len() invariant 0 <= i <= self.l@.len(), v@ =~= self.l@.take(i as int) decreases self.l@.len() - i { v.push(self.l[i]); i += 1; }
        proof { assert(v@ =~= self.l@); assert(v@.skip(0) =~= v@); }
        EntIter { l: v, i: 0 }
    }
}
/// the links in any state but Inactive
pub open spec fn active(l: Seq<(Entity, P2P, bool)>) -> Seq<Entity> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { let p = active(l.drop_last()); if l.last().1 is Inactive { p } else { p.push(l.last().0) } }
}
pub open spec fn joined_of(l: Seq<(Entity, P2P, bool)>) -> Seq<Entity> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { let p = joined_of(l.drop_last()); if l.last().1 is Joined && l.last().2 { p.push(l.last().0) } else { p } }
}
pub open spec fn is_candidate(p: (Entity, P2P, bool)) -> bool { p.1 is Candidate }
pub open spec fn any_candidate(l: Seq<(Entity, P2P, bool)>) -> bool { exists|i: int| 0 <= i < l.len() && is_candidate(#[trigger] l[i]) }
/// connected clients that are not peers, or are hosts
pub open spec fn conventional(l: Seq<(Entity, bool, bool, Option<LinkOf>)>) -> Seq<Entity> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { let p = conventional(l.drop_last()); if !l.last().1 || l.last().2 { p.push(l.last().0) } else { p } }
}
/// connected clients that are not peers
pub open spec fn plain(l: Seq<(Entity, bool, bool, Option<LinkOf>)>) -> Seq<ReadyClient> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else {
        let p = plain(l.drop_last());
        if l.last().1 { p } else { p.push(ReadyClient { entity: l.last().0, is_host: l.last().2, server: match l.last().3 { Some(x) => Some(x.server), None => None } }) } }
}
/// the topology of one connected client and one started server
pub open spec fn standard(client: Option<ReadyClient>, server: Option<Entity>) -> NetworkTopology {
    match client {
        None => match server { None => NetworkTopology::Undefined, Some(s) => NetworkTopology::Server(s) },
        Some(c) => if c.is_host {
            match c.server {
                None => NetworkTopology::Invalid(NetworkTopologyError::HostClientMissingLinkOf { client: c.entity }),
                Some(l) => if server == Some(l) { NetworkTopology::HostClient { server: l, client: c.entity } } else { NetworkTopology::Invalid(NetworkTopologyError::HostClientServerNotStarted { client: c.entity, server: l }) } }
        } else { match server { None => NetworkTopology::Client(c.entity), Some(s) => NetworkTopology::Invalid(NetworkTopologyError::MixedClientServer { client: c.entity, server: s }) } },
    }
}
/// the topology a world implies
pub open spec fn implied(m: NetworkTopology, p2p: Seq<(Entity, P2P, bool)>, clients: Seq<(Entity, bool, bool, Option<LinkOf>)>, servers: Seq<Entity>, hosts: Seq<Entity>) -> bool {
    if hosts.len() > 0 {
        // a connected host client that is no client
        m is Invalid && m->Invalid_0 is HostClientWithoutClient && is_lowest(Some(m->Invalid_0->HostClientWithoutClient_client), hosts)
    } else if active(p2p).len() > 0 {
        if conventional(clients).len() > 0 || servers.len() > 0 {
            match m { NetworkTopology::Invalid(NetworkTopologyError::MixedP2PAndConventional { p2p: e, conventional_client: c, server: s }) => is_lowest(Some(e), active(p2p)) && is_lowest(c, conventional(clients)) && is_lowest(s, servers), _ => false }
        } else if any_candidate(p2p) || joined_of(p2p).len() == 0 { m is Undefined }
        else { match m { NetworkTopology::P2P(v) => ordered(v@, joined_of(p2p)), _ => false } }
    } else if plain(clients).len() > 1 {
        match m { NetworkTopology::Invalid(NetworkTopologyError::MultipleConnectedClients(v)) => ordered(v@, ents(plain(clients))), _ => false }
    } else if servers.len() > 1 {
        match m { NetworkTopology::Invalid(NetworkTopologyError::MultipleStartedServers(v)) => ordered(v@, servers), _ => false }
    } else { m == standard(if plain(clients).len() == 1 { Some(plain(clients)[0]) } else { None }, if servers.len() == 1 { Some(servers[0]) } else { None }) }
}
impl P2PLinks {
    /// iter().filter_map(vx_active).min_by_key(index)
    fn vx_first_active(&self) -> (r: Option<Entity>) ensures is_lowest(r, active(self.l@))
    {
        let mut v: Vec<Entity> = Vec::new();
        let mut i: usize = 0;
        proof { assert(self.l@.take(0) =~= Seq::empty()); }
        while i < self.l.len() invariant 0 <= i <= self.l@.len(), v@ == active(self.l@.take(i as int)) decreases self.l@.len() - i
        {
            proof { assert(self.l@.take(i + 1).drop_last() =~= self.l@.take(i as int)); }
            let (e, s, c) = self.l[i];
            if let Some(x) = vx_active((e, &s, c)) { v.push(x); }
            i += 1;
        }
        proof { assert(self.l@.take(self.l@.len() as int) =~= self.l@); }
        vx_min(&v)
    }
    /// iter().any(vx_candidate)
    fn vx_any_candidate(&self) -> (r: bool) ensures r == any_candidate(self.l@)
    {
        let mut i: usize = 0;
        while i < self.l.len() invariant 0 <= i <= self.l@.len(), forall|k: int| 0 <= k < i ==> !is_candidate(#[trigger] self.l@[k]) decreases self.l@.len() - i
        { let (e, s, c) = self.l[i]; if vx_candidate((e, &s, c)) { assert(is_candidate(self.l@[i as int])); return true; } i += 1; }
        false
    }
    fn vx_iter(&self) -> (r: P2PIter) ensures r.all() == self.l@, r.at() == 0 {
        let mut v: Vec<(Entity, P2P, bool)> = Vec::new();
        let mut i: usize = 0;
        while i < self.l.len() invariant 0 <= i <= self.l@.len(), v@ =~= self.l@.take(i as int) decreases self.l@.len() - i { v.push(self.l[i]); i += 1; }
        proof { assert(v@ =~= self.l@); }
        P2PIter { l: v, i: 0 }
    }
}
pub struct P2PIter { pub l: Vec<(Entity, P2P, bool)>, pub i: usize }
impl P2PIter {
    pub open spec fn all(&self) -> Seq<(Entity, P2P, bool)> { self.l@ }
    pub open spec fn at(&self) -> int { self.i as int }
    pub fn next(&mut self) -> (r: Option<(Entity, P2P, bool)>)
        ensures final(self).l == old(self).l, match r {
            Some(e) => old(self).i < old(self).l@.len() && e == old(self).l@[old(self).i as int] && final(self).i == old(self).i + 1,
            None => old(self).i >= old(self).l@.len() && final(self).i == old(self).i }
    { if self.i < self.l.len() { let e = self.l[self.i]; self.i = self.i + 1; Some(e) } else { None } }
}
pub trait VxThen: Sized { fn vx_then_some<T>(self, e: T) -> Option<T>; }
impl VxThen for bool { fn vx_then_some<T>(self, e: T) -> (r: Option<T>) ensures r == (if self { Some(e) } else { None }) { if self { Some(e) } else { None } } }
impl Clients {
    /// iter().filter(vx_is_conventional).map(vx_client_entity).min_by_key(index)
    fn vx_first_conventional(&self) -> (r: Option<Entity>) ensures is_lowest(r, conventional(self.l@))
    {
        let mut v: Vec<Entity> = Vec::new();
        let mut i: usize = 0;
        proof { assert(self.l@.take(0) =~= Seq::empty()); }
        while i < self.l.len() invariant 0 <= i <= self.l@.len(), v@ == conventional(self.l@.take(i as int)) decreases self.l@.len() - i
        {
            proof { assert(self.l@.take(i + 1).drop_last() =~= self.l@.take(i as int)); }
            let c = self.l[i];
            if vx_is_conventional(&c) { v.push(vx_client_entity(c)); }
            i += 1;
        }
        proof { assert(self.l@.take(self.l@.len() as int) =~= self.l@); }
        vx_min(&v)
    }
    /// iter().filter_map(vx_plain)
    fn vx_plain(&self) -> (r: ClientIter) ensures r.rest() == plain(self.l@)
    {
        let mut v: Vec<ReadyClient> = Vec::new();
        let mut i: usize = 0;
        proof { assert(self.l@.take(0) =~= Seq::empty()); }
        while i < self.l.len() invariant 0 <= i <= self.l@.len(), v@ == plain(self.l@.take(i as int)) decreases self.l@.len() - i
        {
            proof { assert(self.l@.take(i + 1).drop_last() =~= self.l@.take(i as int)); }
            let (e, p, h, l) = self.l[i];
            if let Some(x) = vx_plain((e, p, h, l.as_ref())) { v.push(x); }
            i += 1;
        }
        proof { assert(self.l@.take(self.l@.len() as int) =~= self.l@); assert(v@.skip(0) =~= v@); }
        ClientIter { l: v, i: 0 }
    }
}
//@@ closure refresh_network_topology min_by_key#0
//@@ sig: fn vx_key0($0: &Entity) -> u32
//@@ spec: ensures r == $0.index
//@@ end
//@@ closure refresh_network_topology min_by_key#1
//@@ sig: fn vx_key1($0: &Entity) -> u32
//@@ spec: ensures r == $0.index
//@@ end
//@@ closure refresh_network_topology min_by_key#2
//@@ sig: fn vx_key2($0: &Entity) -> u32
//@@ spec: ensures r == $0.index
//@@ end
//@@ closure refresh_network_topology min_by_key#3
//@@ sig: fn vx_key3($0: &Entity) -> u32
//@@ spec: ensures r == $0.index
//@@ end
//@@ closure refresh_network_topology sort_unstable_by_key
//@@ sig: fn vx_key4($0: &Entity) -> u32
//@@ spec: ensures r == $0.index
//@@ end
//@@ closure unique_ready_client sort_unstable_by_key
//@@ sig: fn vx_key5($0: &Entity) -> u32
//@@ spec: ensures r == $0.index
//@@ end
//@@ closure unique_ready_client map
//@@ sig: fn vx_entity_of($0: ReadyClient) -> Entity
//@@ spec: ensures r == $0.entity
//@@ end
//@@ closure unique_ready_server sort_unstable_by_key
//@@ sig: fn vx_key6($0: &Entity) -> u32
//@@ spec: ensures r == $0.index
//@@ end
//@@ closure refresh_network_topology filter_map#0
//@@ sig: fn vx_active(vx_p: (Entity, &P2P, bool)) -> Option<Entity>
//@@ rename: . then_some => .vx_then_some
//@@ start: let $0 = vx_p;
//@@ spec: ensures r == (if *vx_p.1 is Inactive { None } else { Some(vx_p.0) })
//@@ end
//@@ closure refresh_network_topology any
//@@ sig: fn vx_candidate(vx_p: (Entity, &P2P, bool)) -> bool
//@@ start: let $0 = vx_p;
//@@ spec: ensures r == (*vx_p.1 is Candidate)
//@@ end
//@@ closure refresh_network_topology filter
//@@ sig: fn vx_is_conventional(vx_p: &(Entity, bool, bool, Option<LinkOf>)) -> bool
//@@ start: let $0 = vx_p;
//@@ spec: ensures r == (!vx_p.1 || vx_p.2)
//@@ end
//@@ closure refresh_network_topology map#0
//@@ sig: fn vx_client_entity(vx_p: (Entity, bool, bool, Option<LinkOf>)) -> Entity
//@@ start: let $0 = vx_p;
//@@ spec: ensures r == vx_p.0
//@@ end
//@@ closure refresh_network_topology filter_map#1
//@@ sig: fn vx_plain(vx_p: (Entity, bool, bool, Option<&LinkOf>)) -> Option<ReadyClient>
//@@ rename: . then_some => .vx_then_some
//@@ closures: map
//@@ start: let $0 = vx_p;
//@@ spec: ensures r == (if vx_p.1 { None } else { Some(ReadyClient { entity: vx_p.0, is_host: vx_p.2, server: match vx_p.3 { Some(x) => Some(x.server), None => None } }) })
//@@ end
//@@ fn unique_ready_client
//@@ hoist: map over clients => clients
//@@ rename: impl Iterator < Item = ReadyClient > => ClientIter ;; SmallVec < [ Entity ; 4 ] > => SmallVec ;; SmallVec :: from_slice ( & [ first . entity , second . entity ] ) => SmallVec::vx_pair(first.entity, second.entity) ;; entities . extend => entities.vx_extend_clients
//@@ hoist: sort_unstable_by_key over entities => entities.vx_sort()
//@@ start: let ghost all = clients.rest();
//@@ after "entities.vx_sort": proof { assert(ents(all) =~= seq![first.entity, second.entity] + ents(clients.rest())); }
//@@ spec:
//@@ | ensures ({ let l = clients.rest();
//@@ |   if l.len() == 0 { r == Ok::<Option<ReadyClient>, NetworkTopologyError>(None) } else if l.len() == 1 { r == Ok::<Option<ReadyClient>, NetworkTopologyError>(Some(l[0])) }
//@@ |   else { match r { Err(NetworkTopologyError::MultipleConnectedClients(v)) => ordered(v@, ents(l)), _ => false } } })
//@@ end
//@@ fn unique_ready_server
//@@ rename: impl Iterator < Item = Entity > => EntIter ;; SmallVec < [ Entity ; 4 ] > => SmallVec ;; SmallVec :: from_slice ( & [ first , second ] ) => SmallVec::vx_pair(first, second) ;; entities . extend => entities.vx_extend
//@@ hoist: sort_unstable_by_key over entities => entities.vx_sort()
//@@ start: let ghost all = servers.rest();
//@@ after "entities.vx_sort": proof { assert(all =~= seq![first, second] + servers.rest()); }
//@@ spec:
//@@ | ensures ({ let l = servers.rest();
//@@ |   if l.len() == 0 { r == Ok::<Option<Entity>, NetworkTopologyError>(None) } else if l.len() == 1 { r == Ok::<Option<Entity>, NetworkTopologyError>(Some(l[0])) }
//@@ |   else { match r { Err(NetworkTopologyError::MultipleStartedServers(v)) => ordered(v@, l), _ => false } } })
//@@ end
//@@ fn infer_standard_topology
//@@ spec: ensures r == standard(client, server)
//@@ end
//@@ fn refresh_network_topology
//@@ hoist: min_by_key over malformed_hosts.iter() => malformed_hosts.vx_lowest()
//@@ hoist: min_by_key over p2p_links.iter().filter_map($C) => p2p_links.vx_first_active()
//@@ hoist: min_by_key over ready_clients.iter().filter($C).map($C) => ready_clients.vx_first_conventional()
//@@ hoist: min_by_key over ready_servers.iter() => ready_servers.vx_lowest()
//@@ hoist: any over p2p_links.iter() => p2p_links.vx_any_candidate()
//@@ hoist: sort_unstable_by_key over joined => joined.vx_sort()
//@@ hoist: filter_map over ready_clients.iter() => ready_clients.vx_plain()
//@@ stepped: vx_it
//@@ rename: mut metadata : ResMut < NetworkingMetadata > => metadata: &mut NetworkingMetadata ;; Query < ( Entity , & P2P , Has < Connected > ) > => P2PLinks ;; Query < ( Entity , Has < P2P > , Has < HostClient > , Option < & LinkOf > ) , ( With < Client > , With < Connected > ) , > => Clients ;; Query < Entity , ( With < Server > , With < Started > ) > => Servers ;; Query < Entity , ( With < HostClient > , With < Connected > , Without < Client > ) > => Hosts ;; SmallVec :: < [ Entity ; 4 ] > :: new ( ) => SmallVec::new() ;; in & p2p_links => in p2p_links.vx_iter() ;; * state == P2P :: Joined => state == P2P::Joined ;; metadata . mode != next => !vx_same(&metadata.mode, &next) ;; metadata . bypass_change_detection ( ) . dirty => metadata.dirty ;; metadata . mode = next => metadata.vx_set_mode(next)
//@@ loop 0:
//@@ | invariant vx_it.all() == p2p_links.l@, 0 <= vx_it.at() <= p2p_links.l@.len(), joined@ == joined_of(p2p_links.l@.take(vx_it.at()))
//@@ | ensures vx_it.at() == p2p_links.l@.len()
//@@ | decreases p2p_links.l@.len() - vx_it.at()
//@@ loopbody 0: proof { let n = vx_it.at(); if n < p2p_links.l@.len() { assert(p2p_links.l@.take(n + 1).drop_last() =~= p2p_links.l@.take(n)); } }
//@@ afterloop 0: proof { assert(p2p_links.l@.take(p2p_links.l@.len() as int) =~= p2p_links.l@); }
//@@ spec:
//@@ | ensures implied(final(metadata).mode, p2p_links.l@, ready_clients.l@, ready_servers.l@, malformed_hosts.l@), !final(metadata).dirty, final(metadata).peer_map@ == old(metadata).peer_map@,
//@@ |   // listeners are told exactly when it differs
//@@ |   final(metadata).changed == (old(metadata).changed || !same(old(metadata).mode, final(metadata).mode)), same(old(metadata).mode, final(metadata).mode) ==> final(metadata).mode == old(metadata).mode
//@@ end

// ---------------------------------------------------------------- the lifecycle markers, and the hooks that run when one is added
#[derive(Clone, Copy)]
pub struct RemoteId(pub PeerId);
#[derive(Clone, Copy)]
pub struct HookContext { pub entity: Entity }
pub enum Marker { Connected, Connecting, Disconnecting, Disconnected, Starting, Started, Stopping, Stopped }
pub trait Bundle { spec fn markers() -> Set<Marker>; }
impl<A: Bundle, B: Bundle> Bundle for (A, B) { open spec fn markers() -> Set<Marker> { A::markers().union(B::markers()) } }
impl<A: Bundle, B: Bundle, C: Bundle> Bundle for (A, B, C) { open spec fn markers() -> Set<Marker> { A::markers().union(B::markers()).union(C::markers()) } }
pub struct Connected;
pub struct Connecting;
pub struct Disconnecting;
pub struct Starting;
pub struct Started;
pub struct Stopping;
pub struct Stopped;
impl Bundle for Connected { open spec fn markers() -> Set<Marker> { set![Marker::Connected] } }
impl Bundle for Connecting { open spec fn markers() -> Set<Marker> { set![Marker::Connecting] } }
impl Bundle for Disconnecting { open spec fn markers() -> Set<Marker> { set![Marker::Disconnecting] } }
impl Bundle for Disconnected { open spec fn markers() -> Set<Marker> { set![Marker::Disconnected] } }
impl Bundle for Starting { open spec fn markers() -> Set<Marker> { set![Marker::Starting] } }
impl Bundle for Started { open spec fn markers() -> Set<Marker> { set![Marker::Started] } }
impl Bundle for Stopping { open spec fn markers() -> Set<Marker> { set![Marker::Stopping] } }
impl Bundle for Stopped { open spec fn markers() -> Set<Marker> { set![Marker::Stopped] } }
/// text
pub struct String { pub x: u64 }
pub struct UnlinkReason { pub x: u64 }
impl UnlinkReason { fn clone(&self) -> (r: Self) ensures r == *self { UnlinkReason { x: self.x } } }
pub struct Unlinked { pub reason: UnlinkReason }
//@@ source crates/connection/connection/src/client.rs
//@@ item enum DisconnectedReason
//@@ item struct Disconnected
pub enum Op { Disconnected(Entity, DisconnectedReason), Stopped(Entity), Despawn(Entity), LinkStart(Entity) }
pub trait Added: Sized { spec fn op(self, e: Entity) -> Op; }
impl Added for Disconnected { open spec fn op(self, e: Entity) -> Op { Op::Disconnected(e, self.reason) } }
impl Added for Stopped { open spec fn op(self, e: Entity) -> Op { Op::Stopped(e) } }
pub struct LinkStart { pub entity: Entity }
/// the queued commands; `cur` is the entity the chain is on
#[verifier::external_body]
pub struct Commands { x: u64 }
impl Commands {
    /// markers that will be gone
    pub uninterp spec fn removed(&self) -> Set<(Entity, Marker)>;
    pub uninterp spec fn ops(&self) -> Seq<Op>;
    pub uninterp spec fn cur(&self) -> Entity;
    #[verifier::external_body]
    pub fn entity(&mut self, e: Entity) -> (r: &mut Commands)
        ensures r.cur() == e, r.removed() == old(self).removed(), r.ops() == old(self).ops(), *final(self) == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<B: Bundle>(&mut self) -> (r: &mut Commands)
        ensures r.cur() == old(self).cur(), forall|x: Entity, m: Marker| #[trigger] r.removed().contains((x, m)) <==> old(self).removed().contains((x, m)) || (x == old(self).cur() && B::markers().contains(m)), r.ops() == old(self).ops(), *final(self) == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<C: Added>(&mut self, c: C) -> (r: &mut Commands)
        ensures r.cur() == old(self).cur(), r.removed() == old(self).removed(), r.ops() == old(self).ops().push(c.op(old(self).cur())), *final(self) == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn despawn(&mut self)
        ensures final(self).cur() == old(self).cur(), final(self).removed() == old(self).removed(), final(self).ops() == old(self).ops().push(Op::Despawn(old(self).cur()))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn trigger(&mut self, c: LinkStart)
        ensures final(self).cur() == old(self).cur(), final(self).removed() == old(self).removed(), final(self).ops() == old(self).ops().push(Op::LinkStart(c.entity))
    { unimplemented!() }
}
pub struct DeferredWorld { pub remote: Ghost<Map<Entity, RemoteId>>, pub metadata: NetworkingMetadata, pub cmd: Commands }
impl DeferredWorld {
    #[verifier::external_body]
    pub fn vx_remote(&self, e: Entity) -> (r: Option<&RemoteId>)
        ensures self.remote@.contains_key(e) ==> r == Some(&self.remote@[e]), !self.remote@.contains_key(e) ==> r is None
    { unimplemented!() }
    pub fn commands(&mut self) -> (r: &mut Commands)
        ensures *r == old(self).cmd, *final(self) == (DeferredWorld { cmd: *final(r), ..*old(self) })
    { &mut self.cmd }
    pub fn vx_metadata(&mut self) -> (r: &mut NetworkingMetadata)
        ensures *r == old(self).metadata, *final(self) == (DeferredWorld { metadata: *final(r), ..*old(self) })
    { &mut self.metadata }
    pub fn vx_metadata_opt(&mut self) -> (r: Option<&mut NetworkingMetadata>)
        ensures match r { Some(m) => *m == old(self).metadata && *final(self) == (DeferredWorld { metadata: *final(m), ..*old(self) }), None => false }
    { Some(&mut self.metadata) }
}
fn vx_is(a: Option<&Entity>, b: &Entity) -> (r: bool) ensures r == (match a { Some(x) => *x == *b, None => false }) { match a { Some(x) => *x == *b, None => false } }
fn vx_remote_of<'a>(r: Option<&'a RemoteId>) -> (q: &'a RemoteId) requires r is Some ensures Some(q) == r { r.unwrap() }
/// the hook queues the removal of these markers of its entity, and nothing else of any other entity
pub open spec fn displaces(w0: DeferredWorld, w1: DeferredWorld, e: Entity, must: Set<Marker>, may: Set<Marker>) -> bool {
    &&& w1.cmd.ops() == w0.cmd.ops() && w1.remote == w0.remote
    &&& forall|m: Marker| #[trigger] w1.cmd.removed().contains((e, m)) ==> w0.cmd.removed().contains((e, m)) || may.contains(m)
    &&& forall|m: Marker| must.contains(m) ==> #[trigger] w1.cmd.removed().contains((e, m))
    &&& forall|x: Entity, m: Marker| x != e ==> (#[trigger] w1.cmd.removed().contains((x, m)) <==> w0.cmd.removed().contains((x, m)))
}
/// the entry of this peer, if it leads to this entity, is gone
pub open spec fn unmapped(m0: Map<PeerId, Entity>, m1: Map<PeerId, Entity>, p: PeerId, e: Entity) -> bool {
    m1 == if m0.contains_key(p) && m0[p] == e { m0.remove(p) } else { m0 }
}
pub open spec fn only_map(m0: NetworkingMetadata, m1: NetworkingMetadata) -> bool { m1 == (NetworkingMetadata { peer_map: m1.peer_map, ..m0 }) }
impl Connected {
//@@ fn Connected::on_add
//@@ rename: mut world : DeferredWorld => world: &mut DeferredWorld ;; world . get :: < RemoteId > => world.vx_remote ;; world . resource_mut :: < NetworkingMetadata > ( ) => world.vx_metadata() ;; world . get_resource_mut :: < NetworkingMetadata > ( ) => world.vx_metadata_opt() ;; Some ( mut metadata ) => Some(metadata) ;; peer_map . get ( & peer_id ) == Some ( & context . entity ) => vx_is(peer_map.get(&peer_id), &context.entity)
//@@ hoist: unwrap_or_else over world.get::<RemoteId>(context.entity) => vx_remote_of(world.vx_remote(context.entity))
//@@ spec:
//@@ | requires old(world).remote@.contains_key(context.entity)
//@@ | ensures displaces(*old(world), *final(world), context.entity, set![Marker::Connecting, Marker::Disconnected], set![Marker::Connecting, Marker::Disconnecting, Marker::Disconnected]),
//@@ |   only_map(old(world).metadata, final(world).metadata), final(world).metadata.peer_map@ == old(world).metadata.peer_map@.insert(old(world).remote@[context.entity].0, context.entity)
//@@ end
}
impl Connecting {
//@@ fn Connecting::on_add
//@@ rename: mut world : DeferredWorld => world: &mut DeferredWorld ;; world . get :: < RemoteId > => world.vx_remote ;; world . resource_mut :: < NetworkingMetadata > ( ) => world.vx_metadata() ;; world . get_resource_mut :: < NetworkingMetadata > ( ) => world.vx_metadata_opt() ;; Some ( mut metadata ) => Some(metadata) ;; peer_map . get ( & peer_id ) == Some ( & context . entity ) => vx_is(peer_map.get(&peer_id), &context.entity)
//@@ spec:
//@@ | requires true
//@@ | ensures displaces(*old(world), *final(world), context.entity, set![Marker::Connected, Marker::Disconnecting, Marker::Disconnected], set![Marker::Connected, Marker::Disconnecting, Marker::Disconnected]),
//@@ |   final(world).metadata == old(world).metadata
//@@ end
}
impl Disconnecting {
//@@ fn Disconnecting::on_add
//@@ rename: mut world : DeferredWorld => world: &mut DeferredWorld ;; world . get :: < RemoteId > => world.vx_remote ;; world . resource_mut :: < NetworkingMetadata > ( ) => world.vx_metadata() ;; world . get_resource_mut :: < NetworkingMetadata > ( ) => world.vx_metadata_opt() ;; Some ( mut metadata ) => Some(metadata) ;; peer_map . get ( & peer_id ) == Some ( & context . entity ) => vx_is(peer_map.get(&peer_id), &context.entity)
//@@ spec:
//@@ | requires true
//@@ | ensures displaces(*old(world), *final(world), context.entity, set![Marker::Connected, Marker::Connecting, Marker::Disconnected], set![Marker::Connected, Marker::Connecting, Marker::Disconnected]),
//@@ |   final(world).metadata == old(world).metadata
//@@ end
}
impl Disconnected {
//@@ fn Disconnected::on_add
//@@ rename: mut world : DeferredWorld => world: &mut DeferredWorld ;; world . get :: < RemoteId > => world.vx_remote ;; world . resource_mut :: < NetworkingMetadata > ( ) => world.vx_metadata() ;; world . get_resource_mut :: < NetworkingMetadata > ( ) => world.vx_metadata_opt() ;; Some ( mut metadata ) => Some(metadata) ;; peer_map . get ( & peer_id ) == Some ( & context . entity ) => vx_is(peer_map.get(&peer_id), &context.entity)
//@@ closures: map
//@@ spec:
//@@ | requires true
//@@ | ensures displaces(*old(world), *final(world), context.entity, set![Marker::Connected, Marker::Connecting, Marker::Disconnecting], set![Marker::Connected, Marker::Connecting, Marker::Disconnecting]),
//@@ |   only_map(old(world).metadata, final(world).metadata), match old(world).remote@.contains_key(context.entity) { true => unmapped(old(world).metadata.peer_map@, final(world).metadata.peer_map@, old(world).remote@[context.entity].0, context.entity), false => final(world).metadata == old(world).metadata }
//@@ end
}
//@@ source crates/connection/connection/src/server.rs
//@@ fn clear_server_mapping
//@@ rename: peer_map . get ( & PeerId :: Server ) == Some ( & entity ) => vx_is(peer_map.get(&PeerId::Server), &entity)
//@@ spec: ensures unmapped(old(peer_map)@, final(peer_map)@, PeerId::Server, entity)
//@@ end
//@@ fn clear_server_mapping_on_despawn
//@@ rename: mut world : DeferredWorld => world: &mut DeferredWorld ;; world . resource_mut :: < NetworkingMetadata > ( ) => world.vx_metadata()
//@@ spec: ensures only_map(old(world).metadata, final(world).metadata), unmapped(old(world).metadata.peer_map@, final(world).metadata.peer_map@, PeerId::Server, context.entity), final(world).cmd == old(world).cmd, final(world).remote == old(world).remote
//@@ end
impl Starting {
//@@ fn Starting::on_add
//@@ rename: mut world : DeferredWorld => world: &mut DeferredWorld ;; world . get :: < RemoteId > => world.vx_remote ;; world . resource_mut :: < NetworkingMetadata > ( ) => world.vx_metadata() ;; world . get_resource_mut :: < NetworkingMetadata > ( ) => world.vx_metadata_opt() ;; Some ( mut metadata ) => Some(metadata) ;; peer_map . get ( & peer_id ) == Some ( & context . entity ) => vx_is(peer_map.get(&peer_id), &context.entity)
//@@ spec:
//@@ | requires true
//@@ | ensures displaces(*old(world), *final(world), context.entity, set![Marker::Started, Marker::Stopping, Marker::Stopped], set![Marker::Started, Marker::Stopping, Marker::Stopped]),
//@@ |   final(world).metadata == old(world).metadata
//@@ end
}
impl Started {
//@@ fn Started::on_add
//@@ rename: mut world : DeferredWorld => world: &mut DeferredWorld ;; world . get :: < RemoteId > => world.vx_remote ;; world . resource_mut :: < NetworkingMetadata > ( ) => world.vx_metadata() ;; world . get_resource_mut :: < NetworkingMetadata > ( ) => world.vx_metadata_opt() ;; Some ( mut metadata ) => Some(metadata) ;; peer_map . get ( & peer_id ) == Some ( & context . entity ) => vx_is(peer_map.get(&peer_id), &context.entity)
//@@ spec:
//@@ | requires true
//@@ | ensures displaces(*old(world), *final(world), context.entity, set![Marker::Starting, Marker::Stopping, Marker::Stopped], set![Marker::Starting, Marker::Stopping, Marker::Stopped]),
//@@ |   only_map(old(world).metadata, final(world).metadata), final(world).metadata.peer_map@ == old(world).metadata.peer_map@.insert(PeerId::Server, context.entity)
//@@ end
}
impl Stopping {
//@@ fn Stopping::on_add
//@@ rename: mut world : DeferredWorld => world: &mut DeferredWorld ;; world . get :: < RemoteId > => world.vx_remote ;; world . resource_mut :: < NetworkingMetadata > ( ) => world.vx_metadata() ;; world . get_resource_mut :: < NetworkingMetadata > ( ) => world.vx_metadata_opt() ;; Some ( mut metadata ) => Some(metadata) ;; peer_map . get ( & peer_id ) == Some ( & context . entity ) => vx_is(peer_map.get(&peer_id), &context.entity)
//@@ spec:
//@@ | requires true
//@@ | ensures displaces(*old(world), *final(world), context.entity, set![Marker::Starting, Marker::Started, Marker::Stopped], set![Marker::Starting, Marker::Started, Marker::Stopped]),
//@@ |   final(world).metadata == old(world).metadata
//@@ end
}
impl Stopped {
//@@ fn Stopped::on_add
//@@ rename: mut world : DeferredWorld => world: &mut DeferredWorld ;; world . get :: < RemoteId > => world.vx_remote ;; world . resource_mut :: < NetworkingMetadata > ( ) => world.vx_metadata() ;; world . get_resource_mut :: < NetworkingMetadata > ( ) => world.vx_metadata_opt() ;; Some ( mut metadata ) => Some(metadata) ;; peer_map . get ( & peer_id ) == Some ( & context . entity ) => vx_is(peer_map.get(&peer_id), &context.entity)
//@@ spec:
//@@ | requires true
//@@ | ensures displaces(*old(world), *final(world), context.entity, set![Marker::Starting, Marker::Started, Marker::Stopping], set![Marker::Starting, Marker::Started, Marker::Stopping]),
//@@ |   only_map(old(world).metadata, final(world).metadata), unmapped(old(world).metadata.peer_map@, final(world).metadata.peer_map@, PeerId::Server, context.entity)
//@@ end
}

// ---------------------------------------------------------------- links that fail, clients that are leaving, requests to connect
/// what the query sees: unlinked entities that are neither disconnected nor servers
#[verifier::external_body]
pub struct Failing { x: u64 }
impl Failing {
    pub uninterp spec fn all(&self) -> Map<Entity, Unlinked>;
    #[verifier::external_body]
    pub fn get(&self, e: Entity) -> (r: Result<&Unlinked, ()>) ensures self.all().contains_key(e) ==> r == Ok::<&Unlinked, ()>(&self.all()[e]), !self.all().contains_key(e) ==> r is Err { unimplemented!() }
}
/// started servers
#[verifier::external_body]
pub struct StartedServers { x: u64 }
impl StartedServers {
    pub uninterp spec fn all(&self) -> Set<Entity>;
    #[verifier::external_body]
    pub fn get(&self, e: Entity) -> (r: Result<(), ()>) ensures r == (if self.all().contains(e) { Ok::<(), ()>(()) } else { Err::<(), ()>(()) }) { unimplemented!() }
}
/// disconnected with the user as the reason, then gone
pub open spec fn leave(s: Seq<Entity>) -> Seq<Op> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { leave(s.drop_last()).push(Op::Disconnected(s.last(), DisconnectedReason::UserRequested(None))).push(Op::Despawn(s.last())) }
}
//@@ source crates/connection/connection/src/client.rs
pub struct ClientPlugin;
impl ClientPlugin {
//@@ fn ConnectionPlugin::connect
//@@ rename: connect : On < Connect > => connect: HookContext ;; mut commands : Commands => commands: &mut Commands
//@@ spec: ensures final(commands).ops() == old(commands).ops().push(Op::LinkStart(connect.entity)), final(commands).removed() == old(commands).removed()
//@@ end
//@@ fn ConnectionPlugin::disconnect_if_link_fails
//@@ rename: trigger : On < Add , Unlinked > => trigger: HookContext ;; mut commands : Commands => commands: &mut Commands ;; Query < & Unlinked , ( Without < Disconnected > , Without < Server > ) > => Failing
//@@ spec: ensures final(commands).removed() == old(commands).removed(), final(commands).ops() == if query.all().contains_key(trigger.entity) { old(commands).ops().push(Op::Disconnected(trigger.entity, DisconnectedReason::LinkFailed(query.all()[trigger.entity].reason))) } else { old(commands).ops() }
//@@ end
}
//@@ source crates/connection/connection/src/server.rs
pub struct ServerPlugin;
impl ServerPlugin {
//@@ fn ConnectionPlugin::start
//@@ rename: trigger : On < Start > => trigger: HookContext ;; mut commands : Commands => commands: &mut Commands
//@@ spec: ensures final(commands).ops() == old(commands).ops().push(Op::LinkStart(trigger.entity)), final(commands).removed() == old(commands).removed()
//@@ end
//@@ fn ConnectionPlugin::stop_if_link_fails
//@@ rename: trigger : On < Add , Unlinked > => trigger: HookContext ;; mut commands : Commands => commands: &mut Commands ;; Query < ( ) , ( With < Server > , With < Started > ) > => StartedServers
//@@ spec: ensures final(commands).removed() == old(commands).removed(), final(commands).ops() == if query.all().contains(trigger.entity) { old(commands).ops().push(Op::Stopped(trigger.entity)) } else { old(commands).ops() }
//@@ end
//@@ fn ConnectionPlugin::disconnect
//@@ stepped: vx_it
//@@ rename: mut commands : Commands => commands: &mut Commands ;; Query < Entity , ( With < Disconnecting > , With < ClientOf > ) > => Servers
//@@ start: let ghost mut n: int = 0; proof { assert(query.l@.skip(0) =~= query.l@); assert(query.l@.take(0) =~= Seq::empty()); assert(old(commands).ops() + leave(query.l@.take(0)) =~= old(commands).ops()); }
//@@ loop 0:
//@@ | invariant 0 <= n <= query.l@.len(), vx_it.rest() == query.l@.skip(n), commands.ops() == old(commands).ops() + leave(query.l@.take(n)), commands.removed() == old(commands).removed()
//@@ | ensures n == query.l@.len()
//@@ | decreases query.l@.len() - n
//@@ loopend 0: proof { assert(query.l@.take(n + 1).drop_last() =~= query.l@.take(n)); assert(query.l@.take(n + 1).last() == query.l@[n]); assert(query.l@.skip(n).skip(1) =~= query.l@.skip(n + 1)); assert(commands.ops() =~= old(commands).ops() + leave(query.l@.take(n + 1))); n = n + 1; }
//@@ afterloop 0: proof { assert(query.l@.take(query.l@.len() as int) =~= query.l@); }
//@@ spec: ensures final(commands).removed() == old(commands).removed(), final(commands).ops() == old(commands).ops() + leave(query.l@)
//@@ end
}
}
fn main() {}
