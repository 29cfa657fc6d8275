// V21: the netcode server's sessions: who is admitted, under which key and number packets go, what is handed over (N19).
// Real code: crates/connection/netcode/src/server.rs.
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@@ include maps.inc
//@@ include f32.inc
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Entity { pub index: u32, pub generation: u32 }
pub type ClientId = u64;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Key { k: [u8; 32] }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct UserData { x: [u8; 4] }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SocketAddr { x: u64 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Mac { x: u64 }
pub uninterp spec fn neg_inf() -> F32;
#[verifier::external_body]
fn vx_neg_inf() -> (r: F32) ensures r == neg_inf() { unimplemented!() }
pub uninterp spec fn fint(i: int) -> F32;
#[verifier::external_body]
fn vx_f64(i: i32) -> (r: F32) ensures r == fint(i as int) { unimplemented!() }
#[derive(Clone, Copy)]
pub enum PeerId { Netcode(u64) }
#[derive(Clone, Copy)]
pub struct DeniedReason { pub x: u64 }
impl DeniedReason { #[allow(non_snake_case)] pub const ServerFull: DeniedReason = DeniedReason { x: 0 }; }
pub enum Error { SizeMismatch(usize, usize), ClientNotFound(PeerId), EntityNotFound(Entity), ClientNotConnected(PeerId), ConnectTokenInUse(PeerId), ConnectTokenEncryptionFailure(PeerId), ConnectTokenDecryptionFailure, ClientEntityInUse(Entity), ClientIdInUse(PeerId), UnknownClient(PeerId), ServerIsFull(PeerId), Denied(PeerId), Ignored(Entity), Other }
pub type Result<T> = core::result::Result<T, Error>;

//@@ include netpk.inc
/// what waits for a link
pub type Queues = HashMap<Entity, Vec<SendPayload>>;
/// self.send_queue.entry(e).or_default().push(p)
#[verifier::external_body]
fn vx_queue(q: &mut Queues, e: Entity, p: SendPayload)
    ensures final(q)@.contains_key(e), final(q)@ =~= old(q)@.insert(e, final(q)@[e]), final(q)@[e]@ == (if old(q)@.contains_key(e) { old(q)@[e]@ } else { Seq::empty() }).push(p)
{ unimplemented!() }
pub open spec fn queued(q: Queues, e: Entity) -> Seq<SendPayload> { if q@.contains_key(e) { q@[e]@ } else { Seq::empty() } }
/// one more packet waits for this link, nothing else changed
pub open spec fn one_queued(q0: Queues, q1: Queues, e: Entity, b: Bytes) -> bool {
    queued(q1, e).len() == queued(q0, e).len() + 1 && queued(q1, e).drop_last() =~= queued(q0, e) && queued(q1, e).last()@ == b
    && forall|x: Entity| x != e ==> #[trigger] queued(q1, x) == queued(q0, x)
}

// ---------------------------------------------------------------- tokens
pub struct ConnectTokenPrivate { pub client_id: u64, pub timeout_seconds: i32, pub server_addresses: AddressList, pub client_to_server_key: Key, pub server_to_client_key: Key, pub user_data: UserData }
pub struct AddressList { pub l: Vec<SocketAddr> }
pub uninterp spec fn token_of(d: TokenData) -> ConnectTokenPrivate;
#[verifier::external_body]
fn vx_token(d: &TokenData) -> (r: Result<ConnectTokenPrivate>) ensures r matches Ok(t) ==> t == token_of(*d) { unimplemented!() }
#[verifier::external_body]
fn vx_mac(d: &TokenData) -> Mac { unimplemented!() }
pub struct ChallengeToken { pub client_id: u64, pub user_data: UserData }
/// a challenge for this client, sealed with this key and number; it opens to nothing else
pub uninterp spec fn challenge(t: ChallengeToken, sequence: u64, k: Key) -> TokenBytes;
impl ChallengeToken {
    #[verifier::external_body]
    pub fn encrypt(&self, sequence: u64, k: &Key) -> (r: Result<TokenBytes>) ensures r matches Ok(b) ==> b == challenge(*self, sequence, *k) { unimplemented!() }
    #[verifier::external_body]
    pub fn decrypt(b: &TokenBytes, sequence: u64, k: &Key) -> (r: Result<ChallengeToken>) ensures r matches Ok(t) ==> *b == challenge(t, sequence, *k) { unimplemented!() }
}
pub struct Connecting;
/// a link's entity, and how often Connecting was put on it
pub struct EntityCommands { pub e: Entity, pub connecting: Ghost<nat> }
impl EntityCommands {
    pub fn id(&self) -> (r: Entity) ensures r == self.e { self.e }
    #[verifier::external_body]
    pub fn insert(&mut self, c: Connecting) ensures final(self).e == old(self).e, final(self).connecting@ == old(self).connecting@ + 1 { unimplemented!() }
}
#[verifier::external_body]
pub struct RequestHandler { x: u64 }
impl RequestHandler {
    pub uninterp spec fn refuses(&self, p: PeerId) -> bool;
    #[verifier::external_body]
    pub fn handle_request(&self, p: PeerId) -> (r: Option<DeniedReason>) ensures r is Some <==> self.refuses(p) { unimplemented!() }
}

// ---------------------------------------------------------------- the table of connections
//@@ source crates/connection/netcode/src/server.rs
//@@ item struct Connection f64=>F32 ;; [ u8 ; USER_DATA_BYTES ]=>UserData
//@@ item struct ConnectionCache f64=>F32
pub type Clients = Map<ClientId, Connection>;
pub open spec fn connected_ids(m: Clients) -> Set<ClientId> { m.dom().filter(|i: ClientId| m[i].connected) }
impl Connection {
//@@ fn Connection::confirm
//@@ spec: ensures *final(self) == (Connection { confirmed: true, ..*old(self) })
//@@ end
//@@ fn Connection::connect
//@@ spec: ensures *final(self) == (Connection { connected: true, ..*old(self) })
//@@ end
//@@ fn Connection::is_confirmed
//@@ spec: ensures r == self.confirmed
//@@ end
//@@ fn Connection::is_connected
//@@ spec: ensures r == self.connected
//@@ end
}
/// the ids of a table, each once
#[verifier::external_body]
fn vx_ids(m: &HashMap<ClientId, Connection>) -> (r: Vec<ClientId>) ensures r@.no_duplicates(), forall|i: ClientId| r@.contains(i) <==> m@.contains_key(i) { unimplemented!() }
fn vx_extend_ids(v: &mut Vec<ClientId>, m: &HashMap<ClientId, Connection>)
    requires old(v)@.len() == 0
    ensures final(v)@.no_duplicates(), forall|i: ClientId| final(v)@.contains(i) <==> m@.contains_key(i)
{ *v = vx_ids(m); }
#[verifier::external_body]
fn vx_take_ids(v: &mut Vec<ClientId>) -> (r: Vec<ClientId>) ensures r@ == old(v)@, final(v)@ == Seq::<ClientId>::empty() { unimplemented!() }
/// what a new session starts with
pub open spec fn starts(c: Connection, id: ClientId, e: Entity, timeout: i32, sk: Key, rk: Key, u: UserData, t: F32) -> bool {
    c == (Connection { confirmed: false, connected: false, client_id: id, entity: e, timeout, last_access_time: t, last_send_time: neg_inf(), last_receive_time: neg_inf(), send_key: sk, receive_key: rk, sequence: 1u64 << 62, user_data: u })
}
impl ConnectionCache {
/// an entity hosts one client and a client lives on one entity; every session has its replay filter
pub open spec fn wf(self) -> bool {
    &&& forall|e: Entity| #[trigger] self.client_id_map@.contains_key(e) ==> self.clients@.contains_key(self.client_id_map@[e]) && self.clients@[self.client_id_map@[e]].entity == e
    &&& forall|i: ClientId| #[trigger] self.clients@.contains_key(i) ==> self.clients@[i].client_id == i && self.client_id_map@.contains_key(self.clients@[i].entity) && self.client_id_map@[self.clients@[i].entity] == i
    &&& self.replay_protection@.dom() =~= self.clients@.dom()
}
/// the client of this link
pub open spec fn of(self, e: Entity) -> Option<Connection> { if self.client_id_map@.contains_key(e) { Some(self.clients@[self.client_id_map@[e]]) } else { None } }
//@@ fn ConnectionCache::new
//@@ rename: f64 => F32
//@@ spec: ensures r.wf(), r.clients@ == Map::<ClientId, Connection>::empty(), r.time == server_time
//@@ end
//@@ fn ConnectionCache::find_by_entity
//@@ closures: and_then
//@@ spec:
//@@ | requires self.wf()
//@@ | ensures match r { Some(c) => self.of(*entity) == Some(*c), None => self.of(*entity) is None }
//@@ end
//@@ fn ConnectionCache::mut_by_entity
//@@ closures: and_then
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures match r {
//@@ |   Some(c) => old(self).of(*entity) == Some(*c) && final(self).clients@ == old(self).clients@.insert(old(self).client_id_map@[*entity], *final(c)) && *final(self) == (ConnectionCache { clients: final(self).clients, ..*old(self) }),
//@@ |   None => old(self).of(*entity) is None && *final(self) == *old(self) }
//@@ end
//@@ fn ConnectionCache::find_by_id
//@@ spec: ensures match r { Some(c) => self.clients@.contains_key(client_id) && *c == self.clients@[client_id], None => !self.clients@.contains_key(client_id) }
//@@ end
//@@ fn ConnectionCache::mut_by_id
//@@ spec:
//@@ | ensures match r {
//@@ |   Some(c) => old(self).clients@.contains_key(client_id) && *c == old(self).clients@[client_id] && final(self).clients@ == old(self).clients@.insert(client_id, *final(c)) && *final(self) == (ConnectionCache { clients: final(self).clients, ..*old(self) }),
//@@ |   None => !old(self).clients@.contains_key(client_id) && final(self).clients@ == old(self).clients@ && *final(self) == (ConnectionCache { clients: final(self).clients, ..*old(self) }) }
//@@ end
//@@ fn ConnectionCache::add
//@@ rename: f64 :: NEG_INFINITY => vx_neg_inf() ;; [ u8 ; USER_DATA_BYTES ] => UserData
//@@ closures: filter
//@@ spec:
//@@ | requires old(self).wf(), old(self).of(entity) matches Some(c) ==> !c.connected, old(self).clients@.contains_key(client_id) ==> !old(self).clients@[client_id].connected
//@@ | ensures final(self).wf(), final(self).clients@.contains_key(client_id), final(self).of(entity) == Some(final(self).clients@[client_id]), final(self).time == old(self).time,
//@@ |   // a repeated request of the same client on the same link keeps the session; any other starts one with a new filter
//@@ |   (old(self).of(entity) matches Some(c) && c.client_id == client_id) ==> final(self).clients@[client_id] == (Connection { timeout, send_key, receive_key, last_access_time: old(self).time, user_data, ..old(self).clients@[client_id] }) && final(self).replay_protection@ == old(self).replay_protection@,
//@@ |   !(old(self).of(entity) matches Some(c) && c.client_id == client_id) ==> starts(final(self).clients@[client_id], client_id, entity, timeout, send_key, receive_key, user_data, old(self).time) && final(self).replay_protection@[client_id].fresh(),
//@@ |   // every other session is as it was, but for a pending one that had this link
//@@ |   forall|i: ClientId| i != client_id ==> (#[trigger] final(self).clients@.contains_key(i) <==> old(self).clients@.contains_key(i) && old(self).clients@[i].entity != entity),
//@@ |   forall|i: ClientId| i != client_id && final(self).clients@.contains_key(i) ==> #[trigger] final(self).clients@[i] == old(self).clients@[i] && final(self).replay_protection@[i] == old(self).replay_protection@[i],
//@@ end
//@@ fn ConnectionCache::remove
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), final(self).time == old(self).time, final(self).client_ids_scratch == old(self).client_ids_scratch,
//@@ |   // a connected client goes, with its link and its filter; nothing else does
//@@ |   if old(self).clients@.contains_key(client_id) && old(self).clients@[client_id].connected { final(self).clients@ == old(self).clients@.remove(client_id) && final(self).replay_protection@ == old(self).replay_protection@.remove(client_id) } else { *final(self) == *old(self) }
//@@ end
//@@ fn ConnectionCache::clear
//@@ spec: ensures final(self).wf(), final(self).clients@ == Map::<ClientId, Connection>::empty(), final(self).client_id_map@ == Map::<Entity, ClientId>::empty(), final(self).time == old(self).time
//@@ end
//@@ fn ConnectionCache::take_client_ids
//@@ rename: core :: mem :: take => vx_take_ids ;; client_ids . extend ( self . clients . keys ( ) . copied ( ) ) => vx_extend_ids(&mut client_ids, &self.clients)
//@@ spec: ensures r@.no_duplicates(), forall|i: ClientId| r@.contains(i) <==> old(self).clients@.contains_key(i), *final(self) == (ConnectionCache { client_ids_scratch: final(self).client_ids_scratch, ..*old(self) })
//@@ end
//@@ fn ConnectionCache::recycle_client_ids
//@@ spec: ensures *final(self) == (ConnectionCache { client_ids_scratch: client_ids, ..*old(self) })
//@@ end
//@@ fn ConnectionCache::update
//@@ rename: f64 => F32 ;; self . time += => self.time = self.time +
//@@ spec: ensures *final(self) == (ConnectionCache { time: fadd(old(self).time, delta_ms), ..*old(self) })
//@@ end
}

// ---------------------------------------------------------------- the server
pub enum Event { Connect(ClientId, Entity, UserData), Disconnect(ClientId, Entity) }
pub struct Context { pub events: Ghost<Seq<Event>> }
/// the clients announced and not taken back
pub open spec fn live(s: Seq<Event>) -> Map<ClientId, (Entity, UserData)> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { match s.last() {
        Event::Connect(i, e, u) => live(s.drop_last()).insert(i, (e, u)),
        Event::Disconnect(i, e) => live(s.drop_last()).remove(i) } }
}
/// a client announced twice without having been taken back in between, or on another link than its session's
pub open spec fn once(s: Seq<Event>) -> bool decreases s.len() {
    s.len() == 0 || (once(s.drop_last()) && (s.last() matches Event::Connect(i, e, u) ==> !live(s.drop_last()).contains_key(i)))
}
pub broadcast proof fn live_push(s: Seq<Event>, v: Event)
    ensures #[trigger] live(s.push(v)) == (match v { Event::Connect(i, e, u) => live(s).insert(i, (e, u)), Event::Disconnect(i, e) => live(s).remove(i) })
{ assert(s.push(v).drop_last() =~= s); assert(s.push(v).last() == v); }
pub broadcast proof fn once_push(s: Seq<Event>, v: Event)
    ensures #[trigger] once(s.push(v)) <==> once(s) && (v matches Event::Connect(i, e, u) ==> !live(s).contains_key(i))
{ assert(s.push(v).drop_last() =~= s); assert(s.push(v).last() == v); }
/// a session that ends, and nothing else
pub broadcast proof fn one_gone(a: Clients, i: ClientId)
    ensures #[trigger] connected_ids(a.remove(i)) == connected_ids(a).remove(i)
{ assert(connected_ids(a.remove(i)) =~= connected_ids(a).remove(i)); }
pub struct ConnectCb;
impl ConnectCb { pub fn vx_call(&mut self, i: ClientId, e: Entity, u: UserData, c: &mut Context) ensures final(c).events@ == old(c).events@.push(Event::Connect(i, e, u)), *final(self) == *old(self) { proof { c.events@ = c.events@.push(Event::Connect(i, e, u)); } } }
pub struct DisconnectCb;
impl DisconnectCb { pub fn vx_call(&mut self, i: ClientId, e: Entity, c: &mut Context) ensures final(c).events@ == old(c).events@.push(Event::Disconnect(i, e)), *final(self) == *old(self) { proof { c.events@ = c.events@.push(Event::Disconnect(i, e)); } } }
#[verifier::external_body]
pub struct TokenEntries { x: u64 }
//@@ item struct TokenEntry f64=>F32 ;; [ u8 ; 16 ]=>Mac
impl TokenEntries {
    /// any answer; see DESIGN.md (a token may be used again)
    #[verifier::external_body]
    fn find_or_insert(&mut self, e: TokenEntry) -> bool { unimplemented!() }
    #[verifier::external_body]
    fn vx_clear(&mut self) { unimplemented!() }
}
//@@ source crates/connection/netcode/src/lib.rs
//@@ item const MAC_BYTES
//@@ item const MAX_PKT_BUF_SIZE
//@@ item const MAX_PACKET_SIZE
//@@ source crates/connection/netcode/src/server.rs
//@@ item struct ServerConfig ServerConfig < Ctx >=>ServerConfig ;; f64=>F32 ;; Arc < dyn ConnectionRequestHandler >=>RequestHandler ;; Option < ConnectCallback < Ctx > >=>Option<ConnectCb> ;; Option < Callback < Ctx > >=>Option<DisconnectCb> ;; context : Ctx=>context: Context
//@@ item struct Server Server < Ctx = ( ) >=>Server ;; f64=>F32 ;; ServerConfig < Ctx >=>ServerConfig
/// the next number: numbers are assumed not to run out (2^62 packets)
#[verifier::external_body]
fn vx_num(n: u64) -> (r: u64) ensures r == n + 1 { unimplemented!() }
#[verifier::external_body]
fn vx_global(n: u64) -> (r: u64) ensures r == n + 1, n < 1u64 << 62 ==> r < 1u64 << 62 { unimplemented!() }
#[verifier::external_body]
fn vx_now() -> (r: Result<u64>) { unimplemented!() }
#[verifier::external_body]
fn vx_new_key() -> Key { unimplemented!() }
pub struct Link { pub recv: LinkReceiver }
/// some packet of these is a payload packet with these contents
pub open spec fn carried(q: Seq<Bytes>, proto: u64, p: Bytes) -> bool { exists|k: int, key: Key, x: PayloadPacket| 0 <= k < q.len() && #[trigger] opened(q[k], key, proto, Packet::Payload(x)) && x.buf@ == p }
#[verifier::external_body]
fn vx_take_errors(v: &mut Vec<Error>) -> (r: Vec<Error>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
pub struct Cursor { pub b: RecvPayload }
impl Cursor {
    pub fn new(b: RecvPayload) -> (r: Self) ensures r.b == b { Cursor { b } }
    #[verifier::external_body]
    pub fn read_u8(&mut self) -> (r: Result<u8>) ensures final(self).b == old(self).b, r matches Ok(x) ==> x == first_of(old(self).b@) { unimplemented!() }
    pub fn into_inner(self) -> (r: RecvPayload) ensures r == self.b { self.b }
}
pub uninterp spec fn addr_matches(a: SocketAddr, b: SocketAddr) -> bool;
#[verifier::external_body]
fn server_addr_matches(a: SocketAddr, b: SocketAddr) -> (r: bool) ensures r == addr_matches(a, b) { unimplemented!() }
/// this address of the token is one of ours
pub open spec fn ours(s: Server, a: SocketAddr, t: SocketAddr) -> bool { addr_matches(a, t) || exists|k: int| 0 <= k < s.cfg.additional_expected_addresses@.len() && addr_matches(s.cfg.additional_expected_addresses@[k], t) }
pub open spec fn listed(s: Server, a: SocketAddr, l: AddressList) -> bool { exists|k: int| 0 <= k < l.l@.len() && ours(s, a, l.l@[k]) }
pub open spec fn views(q: Seq<SendPayload>) -> Seq<Bytes> { Seq::new(q.len(), |k: int| q[k]@) }
/// the ids of a list of clients, in order
pub struct Ids<'a> { pub v: &'a Vec<ClientId>, pub i: usize }
fn vx_iter<'a>(v: &'a Vec<ClientId>) -> (r: Ids<'a>) ensures r.v == v, r.i == 0 { Ids { v, i: 0 } }
impl<'a> Ids<'a> {
    fn next(&mut self) -> (r: Option<ClientId>)
        requires old(self).i <= old(self).v@.len()
        ensures final(self).v == old(self).v, final(self).i <= final(self).v@.len(),
            match r { Some(x) => old(self).i < old(self).v@.len() && x == old(self).v@[old(self).i as int] && final(self).i == old(self).i + 1, None => old(self).i == old(self).v@.len() && final(self).i == old(self).i }
    { if self.i < self.v.len() { self.i = self.i + 1; Some(self.v[self.i - 1]) } else { None } }
}
/// the tables differ in numbers and times only
pub open spec fn same_sessions(a: Clients, b: Clients) -> bool {
    a.dom() =~= b.dom() && forall|i: ClientId| #[trigger] a.contains_key(i) ==> b[i].connected == a[i].connected && b[i].entity == a[i].entity && b[i].client_id == a[i].client_id && b[i].user_data == a[i].user_data && b[i].sequence >= a[i].sequence && b[i].send_key == a[i].send_key && b[i].receive_key == a[i].receive_key
}
pub broadcast proof fn sessions_kept(a: Clients, b: Clients)
    ensures same_sessions(a, b) ==> #[trigger] connected_ids(a) == #[trigger] connected_ids(b)
{ if same_sessions(a, b) { assert(connected_ids(a) =~= connected_ids(b)); } }
/// this session expired
pub open spec fn expired(c: Connection, now: F32) -> bool { c.connected && c.timeout > 0 && fcmp(fadd(c.last_receive_time, fint(c.timeout as int)), now) == Some(Ordering::Less) }
impl Server {
pub open spec fn m(self) -> Clients { self.conn_cache.clients@ }
pub open spec fn events(self) -> Seq<Event> { self.cfg.context.events@ }
/// the clients announced are the clients connected, each on its link and with its token's data, and each was announced once
pub open spec fn told(self) -> bool {
    self.cfg.on_connect is Some && self.cfg.on_disconnect is Some ==> once(self.events()) && live(self.events()).dom() =~= connected_ids(self.m())
        && forall|i: ClientId| #[trigger] connected_ids(self.m()).contains(i) ==> live(self.events())[i] == (self.m()[i].entity, self.m()[i].user_data)
}
pub open spec fn inv(self) -> bool {
    &&& self.conn_cache.wf()
    &&& self.told()
    &&& connected_ids(self.m()).len() <= self.cfg.max_clients
    &&& self.writer@.len() == 0
    // the two families of packet numbers do not meet
    &&& self.sequence < 1u64 << 62
    &&& forall|i: ClientId| #[trigger] self.m().contains_key(i) ==> self.m()[i].sequence >= 1u64 << 62
}
/// only sessions' numbers and times, and what was written, may differ
pub open spec fn but_packets(self, o: Server) -> bool {
    o == (Server { conn_cache: ConnectionCache { clients: o.conn_cache.clients, ..self.conn_cache }, writer: o.writer, send_queue: o.send_queue, ..self })
}
/// the session of this client after a packet to it
pub open spec fn sent(self, id: ClientId) -> Connection { Connection { sequence: (self.m()[id].sequence + 1) as u64, last_access_time: self.time, last_send_time: self.time, ..self.m()[id] } }
//@@ item const Server::ALLOWED_PACKETS
//@@ fn Server::on_connect
//@@ rename: [ u8 ; USER_DATA_BYTES ] => UserData ;; cb ( => cb.vx_call(
//@@ spec: ensures *final(self) == (Server { cfg: ServerConfig { context: final(self).cfg.context, ..old(self).cfg }, ..*old(self) }), final(self).events() == (if old(self).cfg.on_connect is Some { old(self).events().push(Event::Connect(client_id, entity, user_data)) } else { old(self).events() })
//@@ end
//@@ fn Server::on_disconnect
//@@ rename: cb ( => cb.vx_call(
//@@ spec: ensures *final(self) == (Server { cfg: ServerConfig { context: final(self).cfg.context, ..old(self).cfg }, ..*old(self) }), final(self).events() == (if old(self).cfg.on_disconnect is Some { old(self).events().push(Event::Disconnect(client_id, entity)) } else { old(self).events() })
//@@ end
//@@ fn Server::handle_client_error
//@@ spec: ensures *final(self) == (Server { client_errors: final(self).client_errors, ..*old(self) }), final(self).client_errors@ == old(self).client_errors@.push(error)
//@@ end
//@@ fn Server::touch_client
//@@ start: broadcast use sessions_kept;
//@@ spec:
//@@ | requires old(self).inv()
//@@ | ensures final(self).inv(), old(self).but_packets(*final(self)), final(self).send_queue == old(self).send_queue, same_sessions(old(self).m(), final(self).m()),
//@@ |   final(self).m() == (if old(self).m().contains_key(client_id) { old(self).m().insert(client_id, Connection { last_receive_time: old(self).time, confirmed: true, ..old(self).m()[client_id] }) } else { old(self).m() })
//@@ end
//@@ fn Server::send_netcode_packet
//@@ rename: [ 0u8 ; MAX_PKT_BUF_SIZE ] => vx_buf() ;; extend_from_slice ( & buf [ .. size ] ) => vx_extend(&buf, size) ;; self . send_queue . entry ( entity ) . or_default ( ) . push ( => vx_queue(&mut self.send_queue, entity, ;; self . sequence += 1 => self.sequence = vx_global(self.sequence)
//@@ start: broadcast use sessions_kept;
//@@ spec:
//@@ | requires old(self).inv()
//@@ | ensures final(self).inv(), *final(self) == (Server { send_queue: final(self).send_queue, writer: final(self).writer, sequence: final(self).sequence, ..*old(self) }),
//@@ |   // sealed with a number used for nothing else
//@@ |   r is Ok ==> one_queued(old(self).send_queue, final(self).send_queue, entity, sealed(packet, old(self).sequence, key, old(self).protocol_id)) && final(self).sequence == old(self).sequence + 1,
//@@ |   r is Err ==> final(self).send_queue == old(self).send_queue && final(self).sequence == old(self).sequence,
//@@ end
//@@ fn Server::send_to_client
//@@ rename: let conn = & mut self . conn_cache . clients . get_mut ( & id ) . ok_or => let conn = self.conn_cache.clients.get_mut(&id).ok_or ;; id :: PeerId => PeerId ;; [ 0u8 ; MAX_PKT_BUF_SIZE ] => vx_buf() ;; extend_from_slice ( & buf [ .. size ] ) => vx_extend(&buf, size) ;; conn . sequence += 1 => conn.sequence = vx_num(conn.sequence)
//@@ start: broadcast use sessions_kept;
//@@ spec:
//@@ | requires old(self).conn_cache.wf(), old(self).writer@.len() == 0
//@@ | ensures old(self).inv() ==> final(self).inv(), final(self).conn_cache.wf(), final(self).writer@.len() == 0, old(self).but_packets(*final(self)), final(self).send_queue == old(self).send_queue, same_sessions(old(self).m(), final(self).m()),
//@@ |   r is Ok ==> old(self).m().contains_key(id) && final(self).m()[id].sequence == old(self).m()[id].sequence + 1 && final(self).m() == old(self).m().insert(id, old(self).sent(id)) && final(sender)@ == old(sender)@.push(sealed(packet, old(self).m()[id].sequence, old(self).m()[id].send_key, old(self).protocol_id)),
//@@ |   old(self).m().contains_key(id) && packet is KeepAlive ==> r is Ok,
//@@ |   r is Err ==> final(self).m() == old(self).m() && final(sender)@ == old(sender)@,
//@@ end
//@@ fn Server::send_payload_to_client
//@@ rename: let conn = & mut self . conn_cache . clients . get_mut ( & id ) . ok_or => let conn = self.conn_cache.clients.get_mut(&id).ok_or ;; id :: PeerId => PeerId ;; [ 0u8 ; MAX_PKT_BUF_SIZE ] => vx_buf() ;; extend_from_slice ( & buf [ .. size ] ) => vx_extend(&buf, size) ;; conn . sequence += 1 => conn.sequence = vx_num(conn.sequence)
//@@ start: broadcast use sessions_kept;
//@@ spec:
//@@ | requires old(self).conn_cache.wf(), old(self).writer@.len() == 0
//@@ | ensures old(self).inv() ==> final(self).inv(), final(self).conn_cache.wf(), final(self).writer@.len() == 0, old(self).but_packets(*final(self)), final(self).send_queue == old(self).send_queue, same_sessions(old(self).m(), final(self).m()),
//@@ |   r is Ok ==> old(self).m().contains_key(id) && final(self).m()[id].sequence == old(self).m()[id].sequence + 1 && final(self).m() == old(self).m().insert(id, old(self).sent(id)) && final(sender)@ == old(sender)@.push(sealed_payload(payload@, old(self).m()[id].sequence, old(self).m()[id].send_key, old(self).protocol_id)),
//@@ |   r is Err ==> final(self).m() == old(self).m() && final(sender)@ == old(sender)@,
//@@ end
//@@ fn Server::send_netcode_to_client
//@@ rename: let conn = & mut self . conn_cache . clients . get_mut ( & id ) . ok_or => let conn = self.conn_cache.clients.get_mut(&id).ok_or ;; id :: PeerId => PeerId ;; [ 0u8 ; MAX_PKT_BUF_SIZE ] => vx_buf() ;; extend_from_slice ( & buf [ .. size ] ) => vx_extend(&buf, size) ;; self . send_queue . entry ( entity ) . or_default ( ) . push ( => vx_queue(&mut self.send_queue, entity, ;; conn . sequence += 1 => conn.sequence = vx_num(conn.sequence)
//@@ start: broadcast use sessions_kept;
//@@ spec:
//@@ | requires old(self).conn_cache.wf(), old(self).writer@.len() == 0
//@@ | ensures final(self).conn_cache.wf(), final(self).writer@.len() == 0, old(self).but_packets(*final(self)), same_sessions(old(self).m(), final(self).m()),
//@@ |   r is Ok ==> old(self).m().contains_key(id) && final(self).m() == old(self).m().insert(id, old(self).sent(id)) && one_queued(old(self).send_queue, final(self).send_queue, entity, sealed(packet, old(self).m()[id].sequence, old(self).m()[id].send_key, old(self).protocol_id)),
//@@ |   old(self).m().contains_key(id) && packet is KeepAlive ==> r is Ok,
//@@ |   r is Err ==> final(self).m() == old(self).m() && final(self).send_queue == old(self).send_queue,
//@@ end
//@@ closure Server::num_connected_clients filter
//@@ sig: fn vx_counts(vx_p: (&ClientId, &Connection)) -> bool
//@@ start: let $0 = vx_p;
//@@ spec: ensures r == vx_p.1.connected
//@@ end
/// .iter().filter(..)
fn vx_filtered(m: &HashMap<ClientId, Connection>) -> (r: Vec<ClientId>)
    ensures r@.len() == connected_ids(m@).len()
{
    let ids = vx_ids(m);
    let mut out: Vec<ClientId> = Vec::new();
    let mut k = 0;
    while k < ids.len()
        invariant k <= ids@.len(), ids@.no_duplicates(), forall|i: ClientId| ids@.contains(i) <==> m@.contains_key(i),
            out@.no_duplicates(), forall|i: ClientId| #[trigger] out@.contains(i) <==> (exists|j: int| 0 <= j < k && ids@[j] == i) && m@[i].connected
        decreases ids@.len() - k
    {
        let id = ids[k];
        assert(ids@.contains(id));
        let c = m.get(&id).unwrap();
        let ghost o0 = out@;
        if Self::vx_counts((&id, c)) {
            assert(!out@.contains(id));
            out.push(id);
            proof {
                assert forall|i: ClientId| #[trigger] out@.contains(i) <==> o0.contains(i) || i == id by {
                    if o0.contains(i) { let j = o0.index_of(i); assert(out@[j] == i); }
                    if i == id { assert(out@[o0.len() as int] == i); }
                }
            }
        }
        k = k + 1;
    }
    proof {
        out@.unique_seq_to_set();
        assert forall|i: ClientId| out@.to_set().contains(i) <==> connected_ids(m@).contains(i) by {
            assert(out@.to_set().contains(i) <==> out@.contains(i));
            if connected_ids(m@).contains(i) { assert(ids@.contains(i)); let j = ids@.index_of(i); assert(ids@[j] == i); }
            if out@.contains(i) { let j = choose|j: int| 0 <= j < k && ids@[j] == i; assert(ids@.contains(i)); }
        }
        assert(out@.to_set() =~= connected_ids(m@));
    }
    out
}
//@@ fn Server::num_connected_clients
//@@ hoist: filter over self.conn_cache.clients.iter() => Self::vx_filtered(&self.conn_cache.clients)
//@@ rename: . count ( ) => . len ( )
//@@ spec: ensures r == connected_ids(self.m()).len()
//@@ end
//@@ closure Server::process_connection_request any#1
//@@ sig: fn vx_extra(expected_addr: &SocketAddr, token_addr: SocketAddr) -> bool
//@@ spec: ensures r == addr_matches(*expected_addr, token_addr)
//@@ end
//@@ closure Server::process_connection_request any#0
//@@ sig: fn vx_lists(&self, vx_p: (usize, SocketAddr), server_addr: SocketAddr) -> bool
//@@ hoist: any over self.cfg.additional_expected_addresses.iter() => Self::vx_any_extra(&self.cfg.additional_expected_addresses, token_addr)
//@@ start: let $0 = vx_p;
//@@ spec: ensures r == ours(*self, server_addr, vx_p.1)
//@@ end
fn vx_any_extra(l: &Vec<SocketAddr>, token_addr: SocketAddr) -> (r: bool)
    ensures r <==> exists|k: int| 0 <= k < l@.len() && addr_matches(l@[k], token_addr)
{
    let mut k = 0;
    while k < l.len() invariant k <= l@.len(), forall|j: int| 0 <= j < k ==> !addr_matches(l@[j], token_addr) decreases l@.len() - k
    {
        if Self::vx_extra(&l[k], token_addr) { return true; }
        k = k + 1;
    }
    false
}
fn vx_any_listed(&self, l: &AddressList, server_addr: SocketAddr) -> (r: bool)
    ensures r <==> listed(*self, server_addr, *l)
{
    let mut k = 0;
    while k < l.l.len() invariant k <= l.l@.len(), forall|j: int| 0 <= j < k ==> !ours(*self, server_addr, l.l@[j]) decreases l.l@.len() - k
    {
        if self.vx_lists((k, l.l[k]), server_addr) { return true; }
        k = k + 1;
    }
    false
}
//@@ fn Server::process_connection_request
//@@ hoist: any#0 over token.server_addresses.iter() => self.vx_any_listed(&token.server_addresses, server_addr)
//@@ closures: is_some_and
//@@ rename: mut packet : RequestPacket => packet: RequestPacket ;; let mut reader = io :: Cursor :: new ( & mut packet . token_data [ .. ] ) ; => ;; ConnectTokenPrivate :: read_from ( & mut reader ) => vx_token(&packet.token_data) ;; id :: PeerId => PeerId ;; packet . token_data [ ConnectTokenPrivate :: SIZE - MAC_BYTES .. ConnectTokenPrivate :: SIZE ] . try_into ( ) ? => vx_mac(&packet.token_data) ;; self . challenge_sequence += 1 => self.challenge_sequence = vx_num(self.challenge_sequence)
//@@ start: broadcast use sessions_kept; let ghost m0 = self.m(); let ghost c0 = self.conn_cache; let ghost en = entity_mut.e;
//@@ spec:
//@@ | requires old(self).inv()
//@@ | ensures final(self).inv(), final(entity_mut).e == old(entity_mut).e, final(self).events() == old(self).events(), connected_ids(final(self).m()) == connected_ids(old(self).m()),
//@@ |   final(self).cfg == old(self).cfg, final(self).protocol_id == old(self).protocol_id, final(self).time == old(self).time, final(self).challenge_key == old(self).challenge_key, final(self).private_key == old(self).private_key, final(self).client_errors == old(self).client_errors, final(self).conn_cache.time == old(self).conn_cache.time,
//@@ |   // connected sessions are not touched by a request
//@@ |   forall|i: ClientId| #[trigger] connected_ids(old(self).m()).contains(i) ==> final(self).m()[i] == old(self).m()[i] && final(self).conn_cache.replay_protection@[i] == old(self).conn_cache.replay_protection@[i],
//@@ |   final(entity_mut).connecting@ == old(entity_mut).connecting@ ==> final(self).conn_cache == old(self).conn_cache && final(self).challenge_sequence == old(self).challenge_sequence,
//@@ |   // a session starts only for an acceptable token, for its client, on this link; the client is challenged under the token's key
//@@ |   final(entity_mut).connecting@ != old(entity_mut).connecting@ ==> {
//@@ |     let t = token_of(packet.token_data); let e = old(entity_mut).e; let s0 = *old(self);
//@@ |     &&& r is Ok && final(entity_mut).connecting@ == old(entity_mut).connecting@ + 1
//@@ |     &&& server_addr matches Some(a) ==> listed(s0, a, t.server_addresses)
//@@ |     &&& connected_ids(s0.m()).len() < s0.cfg.max_clients
//@@ |     &&& !s0.cfg.connection_request_handler.refuses(PeerId::Netcode(t.client_id))
//@@ |     &&& !connected_ids(s0.m()).contains(t.client_id) && (s0.conn_cache.of(e) matches Some(c) ==> !c.connected)
//@@ |     &&& final(self).m().contains_key(t.client_id) && final(self).conn_cache.of(e) == Some(final(self).m()[t.client_id])
//@@ |     &&& final(self).m()[t.client_id].send_key == t.server_to_client_key && final(self).m()[t.client_id].receive_key == t.client_to_server_key && final(self).m()[t.client_id].user_data == t.user_data && final(self).m()[t.client_id].timeout == t.timeout_seconds
//@@ |     &&& one_queued(s0.send_queue, final(self).send_queue, e, sealed(Packet::Challenge(ChallengePacket { sequence: s0.challenge_sequence, token: challenge(ChallengeToken { client_id: t.client_id, user_data: t.user_data }, s0.challenge_sequence, s0.challenge_key) }), s0.sequence, t.server_to_client_key, s0.protocol_id))
//@@ |     &&& final(self).challenge_sequence == s0.challenge_sequence + 1
//@@ |   },
//@@ before "entity_mut\s*\.\s*insert":
//@@ | proof {
//@@ |     assert forall|i: ClientId| #[trigger] connected_ids(m0).contains(i) implies self.m().contains_key(i) && self.m()[i] == m0[i] && self.conn_cache.replay_protection@[i] == c0.replay_protection@[i] by {
//@@ |         if m0[i].entity == en { assert(c0.client_id_map@[en] == i); assert(c0.of(en) == Some(m0[i])); }
//@@ |         assert(i != token.client_id);
//@@ |         assert(self.m().contains_key(i));
//@@ |     }
//@@ |     assert forall|i: ClientId| #[trigger] connected_ids(self.m()).contains(i) implies connected_ids(m0).contains(i) by { assert(self.m().contains_key(i)); }
//@@ |     assert(connected_ids(self.m()) =~= connected_ids(m0));
//@@ | }
//@@ end
//@@ fn Server::process_connection_response
//@@ rename: mut packet : ResponsePacket => packet: ResponsePacket ;; ChallengeToken :: decrypt ( & mut packet . token , => ChallengeToken::decrypt(&packet.token, ;; id :: PeerId => PeerId
//@@ start: broadcast use sessions_kept; broadcast use live_push; broadcast use once_push; let ghost m0 = self.m();
//@@ spec:
//@@ | requires old(self).inv()
//@@ | ensures final(self).inv(),
//@@ |   *final(self) == (Server { conn_cache: ConnectionCache { clients: final(self).conn_cache.clients, ..old(self).conn_cache }, writer: final(self).writer, send_queue: final(self).send_queue, sequence: final(self).sequence, cfg: ServerConfig { context: final(self).cfg.context, ..old(self).cfg }, ..*old(self) }),
//@@ |   // nobody becomes connected but the client the challenge names, on the link the challenge was sent to, while there is room; it is announced
//@@ |   ({ let s0 = *old(self); let s1 = *final(self);
//@@ |   ||| s1.m() == s0.m() && s1.events() == s0.events()
//@@ |   ||| exists|t: ChallengeToken| #[trigger] challenge(t, packet.sequence, s0.challenge_key) == packet.token && s0.m().contains_key(t.client_id) && s0.m()[t.client_id].entity == entity && !s0.m()[t.client_id].connected
//@@ |       && connected_ids(s0.m()).len() < s0.cfg.max_clients && r is Ok
//@@ |       && s1.m().dom() =~= s0.m().dom() && (forall|i: ClientId| i != t.client_id && s0.m().contains_key(i) ==> #[trigger] s1.m()[i] == s0.m()[i])
//@@ |       && s1.m()[t.client_id].connected && same_sessions(s0.m(), s1.m().insert(t.client_id, Connection { connected: false, ..s1.m()[t.client_id] }))
//@@ |       && (s0.cfg.on_connect is Some ==> s1.events() == s0.events().push(Event::Connect(t.client_id, entity, s0.m()[t.client_id].user_data)))
//@@ |       && one_queued(s0.send_queue, s1.send_queue, entity, sealed(Packet::KeepAlive(KeepAlivePacket { client_id: t.client_id }), s0.m()[t.client_id].sequence, s0.m()[t.client_id].send_key, s0.protocol_id))
//@@ |   })
//@@ before "self\s*\.\s*on_connect": proof { assert(connected_ids(self.m()) =~= connected_ids(m0).insert(id)); assert(!connected_ids(m0).contains(id)); }
//@@ end
//@@ fn Server::check_for_timeouts
//@@ rename: & id in & client_ids => id in vx_iter(&client_ids) ;; client . timeout . is_positive ( ) => (client.timeout > 0) ;; ( client . timeout as f64 ) => vx_f64(client.timeout)
//@@ stepped: vx_it
//@@ start: broadcast use sessions_kept; broadcast use live_push; broadcast use once_push; broadcast use one_gone; let ghost s0 = *self;
//@@ spec:
//@@ | requires old(self).inv()
//@@ | ensures final(self).inv(),
//@@ |   // exactly the sessions that expired end, each told; the others go on as they were
//@@ |   forall|i: ClientId| #[trigger] final(self).m().contains_key(i) <==> old(self).m().contains_key(i) && !expired(old(self).m()[i], old(self).time),
//@@ |   forall|i: ClientId| #[trigger] final(self).m().contains_key(i) ==> final(self).m()[i] == old(self).m()[i] && final(self).conn_cache.replay_protection@[i] == old(self).conn_cache.replay_protection@[i],
//@@ |   final(self).send_queue == old(self).send_queue && final(self).sequence == old(self).sequence && final(self).time == old(self).time && final(self).conn_cache.time == old(self).conn_cache.time && final(self).private_key == old(self).private_key && final(self).challenge_key == old(self).challenge_key && final(self).challenge_sequence == old(self).challenge_sequence && final(self).protocol_id == old(self).protocol_id && final(self).client_errors == old(self).client_errors,
//@@ loop 0:
//@@ | invariant
//@@ |   vx_it.v == &client_ids, vx_it.i <= client_ids@.len(), client_ids@.no_duplicates(), forall|i: ClientId| client_ids@.contains(i) <==> s0.m().contains_key(i),
//@@ |   self.inv(),
//@@ |   *self == (Server { conn_cache: self.conn_cache, cfg: ServerConfig { context: self.cfg.context, on_connect: self.cfg.on_connect, on_disconnect: self.cfg.on_disconnect, ..s0.cfg }, ..s0 }), self.conn_cache.time == s0.conn_cache.time, self.cfg.on_connect is Some <==> s0.cfg.on_connect is Some,
//@@ |   forall|i: ClientId| #[trigger] self.m().contains_key(i) <==> s0.m().contains_key(i) && !(expired(s0.m()[i], s0.time) && exists|k: int| 0 <= k < vx_it.i && client_ids@[k] == i),
//@@ |   forall|i: ClientId| #[trigger] self.m().contains_key(i) ==> self.m()[i] == s0.m()[i] && self.conn_cache.replay_protection@[i] == s0.conn_cache.replay_protection@[i],
//@@ | ensures vx_it.i == client_ids@.len()
//@@ | decreases client_ids@.len() - vx_it.i
//@@ loopbody 0: broadcast use sessions_kept; broadcast use live_push; broadcast use once_push; broadcast use one_gone;
//@@ before "self \. conn_cache \. recycle|self\.conn_cache\s*\.recycle": proof { assert forall|i: ClientId| s0.m().contains_key(i) implies exists|k: int| 0 <= k < client_ids@.len() && client_ids@[k] == i by { assert(client_ids@.contains(i)); } }
//@@ end
//@@ fn Server::process_packet
//@@ closures: map filter
//@@ start: broadcast use sessions_kept; broadcast use live_push; broadcast use once_push; broadcast use one_gone;
//@@ spec:
//@@ | requires old(self).inv(), taken(packet)
//@@ | ensures final(self).inv(), final(entity_mut).e == old(entity_mut).e, final(self).client_errors == old(self).client_errors, final(self).protocol_id == old(self).protocol_id, final(self).private_key == old(self).private_key,
//@@ |   // only a payload packet of a connected client is handed over, as it is
//@@ |   r matches Ok(Some(p)) ==> packet == Packet::Payload(PayloadPacket { buf: p }) && (old(self).conn_cache.of(old(entity_mut).e) matches Some(c) && c.connected),
//@@ |   (packet is Payload && (old(self).conn_cache.of(old(entity_mut).e) matches Some(c) && c.connected)) ==> r matches Ok(Some(p)),
//@@ |   packet is Request ==> connected_ids(final(self).m()) == connected_ids(old(self).m()),
//@@ |   packet is Payload ==> same_sessions(old(self).m(), final(self).m()),
//@@ |   !(packet is Request) ==> forall|i: ClientId| #[trigger] final(self).m().contains_key(i) ==> final(self).conn_cache.replay_protection@[i] == old(self).conn_cache.replay_protection@[i],
//@@ |   forall|i: ClientId| #[trigger] connected_ids(final(self).m()).contains(i) && connected_ids(old(self).m()).contains(i) ==> final(self).conn_cache.replay_protection@[i] == old(self).conn_cache.replay_protection@[i],
//@@ |   // only a request starts a session, only a response connects, and a packet of a link ends no session but its own
//@@ |   !(packet is Request) ==> forall|i: ClientId| #[trigger] final(self).m().contains_key(i) ==> old(self).m().contains_key(i) && final(self).m()[i].receive_key == old(self).m()[i].receive_key && final(self).m()[i].send_key == old(self).m()[i].send_key && final(self).m()[i].entity == old(self).m()[i].entity && final(self).m()[i].user_data == old(self).m()[i].user_data && final(self).m()[i].sequence >= old(self).m()[i].sequence,
//@@ |   !(packet is Response) ==> forall|i: ClientId| #[trigger] connected_ids(final(self).m()).contains(i) ==> connected_ids(old(self).m()).contains(i),
//@@ |   forall|i: ClientId| #[trigger] connected_ids(old(self).m()).contains(i) && old(self).m()[i].entity != old(entity_mut).e ==> connected_ids(final(self).m()).contains(i) && final(self).m()[i] == old(self).m()[i],
//@@ |   !(packet is Disconnect) ==> forall|i: ClientId| #[trigger] connected_ids(old(self).m()).contains(i) ==> connected_ids(final(self).m()).contains(i),
//@@ |   packet is Disconnect && (old(self).conn_cache.of(old(entity_mut).e) matches Some(c) && c.connected) ==> final(self).conn_cache.of(old(entity_mut).e) is None,
//@@ |   final(entity_mut).connecting@ != old(entity_mut).connecting@ ==> packet is Request,
//@@ end
//@@ fn Server::recv_packet
//@@ rename: io :: Cursor => Cursor ;; id :: PeerId => PeerId
//@@ start: broadcast use sessions_kept; assert(Self::ALLOWED_PACKETS & 6 == 0) by (compute_only);
//@@ spec:
//@@ | requires old(self).inv()
//@@ | ensures final(self).inv(), final(entity_mut).e == old(entity_mut).e, final(self).client_errors == old(self).client_errors, final(self).protocol_id == old(self).protocol_id, final(self).private_key == old(self).private_key,
//@@ |   // what is handed over opens under the key of this link's connected client and was not seen before
//@@ |   r matches Ok(Some(p)) ==> ({ let s0 = *old(self); let e = old(entity_mut).e;
//@@ |     &&& s0.conn_cache.of(e) matches Some(c) && c.connected && opened(buf@, c.receive_key, s0.protocol_id, Packet::Payload(PayloadPacket { buf: p }))
//@@ |     &&& s0.conn_cache.replay_protection@[s0.conn_cache.client_id_map@[e]].passes(buf@)
//@@ |     &&& !final(self).conn_cache.replay_protection@[s0.conn_cache.client_id_map@[e]].passes(buf@) }),
//@@ |   forall|i: ClientId, b: Bytes| #![trigger final(self).conn_cache.replay_protection@[i].passes(b)] connected_ids(old(self).m()).contains(i) && connected_ids(final(self).m()).contains(i) && final(self).conn_cache.replay_protection@[i].passes(b) ==> old(self).conn_cache.replay_protection@[i].passes(b),
//@@ |   // another link's packet leaves connected sessions alone
//@@ |   forall|i: ClientId| #[trigger] connected_ids(old(self).m()).contains(i) && old(self).m()[i].entity != old(entity_mut).e ==> connected_ids(final(self).m()).contains(i) && final(self).m()[i] == old(self).m()[i],
//@@ |   // a session starts only with a request sealed with the server's key, a client becomes connected or not only by a packet under its session's key
//@@ |   final(entity_mut).connecting@ != old(entity_mut).connecting@ ==> exists|p: Packet| #[trigger] opened(buf@, old(self).private_key, old(self).protocol_id, p) && p is Request,
//@@ |   connected_ids(final(self).m()) != connected_ids(old(self).m()) ==> (old(self).conn_cache.of(old(entity_mut).e) matches Some(c) && under_session(buf@, c.receive_key, old(self).protocol_id)),
//@@ end
//@@ fn Server::recv_packets
//@@ rename: super :: utils :: now ( ) => vx_now()
//@@ start: let ghost q0 = receiver@; let ghost n = receiver@.len();
//@@ spec:
//@@ | requires old(self).inv()
//@@ | ensures final(self).inv(), final(entity_mut).e == old(entity_mut).e,
//@@ |   // what is left for the application is what packets of this link carried
//@@ |   r is Ok ==> forall|j: int| 0 <= j < final(receiver)@.len() ==> #[trigger] carried(old(receiver)@, old(self).protocol_id, final(receiver)@[j]),
//@@ |   r is Err ==> final(receiver)@ == old(receiver)@,
//@@ iter 0: it
//@@ loop 0:
//@@ | invariant self.inv(), entity_mut.e == old(entity_mut).e, self.protocol_id == old(self).protocol_id, q0 == old(receiver)@, q0.len() == n, it.snapshot@.end == n,
//@@ |   receiver@.len() >= n - it.index@, forall|j: int| 0 <= j < n - it.index@ ==> #[trigger] receiver@[j] == q0[j + it.index@],
//@@ |   forall|j: int| n - it.index@ <= j < receiver@.len() ==> #[trigger] carried(q0, old(self).protocol_id, receiver@[j]),
//@@ end
//@@ fn Server::receive
//@@ rename: core :: mem :: take => vx_take_errors
//@@ spec:
//@@ | requires old(self).inv()
//@@ | ensures final(self).inv(), r is Ok ==> forall|j: int| 0 <= j < final(link).recv@.len() ==> #[trigger] carried(old(link).recv@, old(self).protocol_id, final(link).recv@[j]),
//@@ end
//@@ fn Server::send_keepalives
//@@ rename: id :: PeerId => PeerId
//@@ start: broadcast use sessions_kept;
//@@ spec:
//@@ | requires old(self).inv()
//@@ | ensures final(self).inv(), old(self).but_packets(*final(self)), final(self).send_queue == old(self).send_queue, same_sessions(old(self).m(), final(self).m()),
//@@ |   // a keep-alive goes to a connected client nothing was sent to for the configured time
//@@ |   ({ let due = old(self).m().contains_key(id) && old(self).m()[id].connected && !(fcmp(fadd(old(self).m()[id].last_send_time, old(self).cfg.keep_alive_send_rate), old(self).time) matches Some(o) && (o is Greater || o is Equal));
//@@ |   &&& !due ==> final(sender)@ == old(sender)@ && final(self).m() == old(self).m()
//@@ |   &&& due ==> final(self).m() == old(self).m().insert(id, old(self).sent(id)) && final(sender)@ == old(sender)@.push(sealed(Packet::KeepAlive(KeepAlivePacket { client_id: id }), old(self).m()[id].sequence, old(self).m()[id].send_key, old(self).protocol_id)) }),
//@@ end
//@@ fn Server::send
//@@ rename: id :: PeerId => PeerId
//@@ start: broadcast use sessions_kept;
//@@ spec:
//@@ | requires old(self).inv()
//@@ | ensures final(self).inv(), old(self).but_packets(*final(self)), final(self).send_queue == old(self).send_queue, same_sessions(old(self).m(), final(self).m()),
//@@ |   // only to a connected client, under its session's key, with a number of its own; the unconfirmed are reminded first
//@@ |   r is Ok ==> ({ let m = old(self).m(); let c = m[client_id]; let p = old(self).protocol_id;
//@@ |     &&& m.contains_key(client_id) && c.connected && buf@.len() <= MAX_PACKET_SIZE
//@@ |     &&& if c.confirmed { final(sender)@ == old(sender)@.push(sealed_payload(buf@, c.sequence, c.send_key, p)) && final(self).m()[client_id].sequence == c.sequence + 1 }
//@@ |         else { final(sender)@ == old(sender)@.push(sealed(Packet::KeepAlive(KeepAlivePacket { client_id }), c.sequence, c.send_key, p)).push(sealed_payload(buf@, (c.sequence + 1) as u64, c.send_key, p)) && final(self).m()[client_id].sequence == c.sequence + 2 } }),
//@@ |   r is Err && !(old(self).m().contains_key(client_id) && old(self).m()[client_id].connected) ==> final(sender)@ == old(sender)@,
//@@ |   !old(self).m().contains_key(client_id) || !old(self).m()[client_id].connected || buf@.len() > MAX_PACKET_SIZE ==> r is Err && final(self).m() == old(self).m(),
//@@ |   forall|i: ClientId| i != client_id && old(self).m().contains_key(i) ==> #[trigger] final(self).m()[i] == old(self).m()[i],
//@@ end
//@@ closure Server::send_netcode_packets for_each
//@@ sig: fn vx_push_one(sender: &mut LinkSender, $0: SendPayload)
//@@ spec: ensures final(sender)@ == old(sender)@.push($0@)
//@@ end
/// .drain(..).for_each(..)
fn vx_push_all(queue: &mut Vec<SendPayload>, sender: &mut LinkSender)
    ensures final(queue)@.len() == 0, final(sender)@ =~= old(sender)@ + views(old(queue)@)
{
    let ghost q0 = queue@;
    while queue.len() > 0
        invariant queue@.len() <= q0.len(), queue@ =~= q0.skip(q0.len() - queue@.len()), sender@ =~= old(sender)@ + views(q0.take(q0.len() - queue@.len()))
        decreases queue@.len()
    {
        let ghost k = q0.len() - queue@.len();
        let p = queue.remove(0);
        proof { assert(q0.take(k + 1) =~= q0.take(k).push(q0[k])); }
        Self::vx_push_one(sender, p);
    }
    proof { assert(q0.take(q0.len() as int) =~= q0); }
}
//@@ fn Server::send_netcode_packets
//@@ hoist: for_each over queue.drain(..) => Self::vx_push_all(queue, sender)
//@@ spec:
//@@ | ensures *final(self) == (Server { send_queue: final(self).send_queue, ..*old(self) }),
//@@ |   // what waited for this link goes on it, in order, once; what waits for others stays
//@@ |   final(sender)@ =~= old(sender)@ + views(queued(old(self).send_queue, entity)), queued(final(self).send_queue, entity).len() == 0,
//@@ |   forall|x: Entity| x != entity ==> #[trigger] queued(final(self).send_queue, x) == queued(old(self).send_queue, x),
//@@ end
//@@ fn Server::disconnect
//@@ rename: . inspect_err ( | e | { } ) =>
//@@ start: broadcast use sessions_kept; broadcast use live_push; broadcast use once_push; broadcast use one_gone; let ghost s0 = *self;
//@@ spec:
//@@ | requires old(self).inv()
//@@ | ensures final(self).inv(), r is Ok,
//@@ |   // a connected client's session ends: it is told, its place is free; nothing else happens to the others
//@@ |   if old(self).m().contains_key(client_id) && old(self).m()[client_id].connected {
//@@ |     final(self).m() =~= old(self).m().remove(client_id) && (old(self).cfg.on_disconnect is Some ==> final(self).events() == old(self).events().push(Event::Disconnect(client_id, old(self).m()[client_id].entity))) && queued(final(self).send_queue, old(self).m()[client_id].entity).len() == 0
//@@ |   } else { final(self).m() == old(self).m() && final(self).events() == old(self).events() && final(sender)@ == old(sender)@ },
//@@ after "self\s*\.\s*on_disconnect": let ghost s2 = *self;
//@@ iter 0: it
//@@ loop 0:
//@@ | invariant s0.inv(), self.conn_cache.wf(), self.writer@.len() == 0, same_sessions(s0.m(), self.m()), forall|i: ClientId| i != client_id && #[trigger] self.m().contains_key(i) ==> self.m()[i] == s0.m()[i], s2.but_packets(*self), self.send_queue == s2.send_queue, s2 == (Server { conn_cache: ConnectionCache { clients: s2.conn_cache.clients, ..s0.conn_cache }, cfg: ServerConfig { context: s2.cfg.context, on_disconnect: s2.cfg.on_disconnect, ..s0.cfg }, ..s0 }), s0.m().contains_key(client_id), s0.m()[client_id].connected, entity == s0.m()[client_id].entity,
//@@ end
//@@ fn Server::update_state
//@@ rename: f64 => F32 ;; self . time += => self.time = self.time +
//@@ spec:
//@@ | requires old(self).inv()
//@@ | ensures final(self).inv(), final(self).time == fadd(old(self).time, delta_ms), forall|i: ClientId| #[trigger] final(self).m().contains_key(i) <==> old(self).m().contains_key(i) && !expired(old(self).m()[i], final(self).time),
//@@ end
//@@ fn Server::reset
//@@ rename: crypto :: generate_key => vx_new_key ;; self . token_entries . inner . clear => self.token_entries.vx_clear
//@@ spec:
//@@ | ensures final(self).conn_cache.wf(), final(self).m() == Map::<ClientId, Connection>::empty(), final(self).send_queue@ == Map::<Entity, Vec<SendPayload>>::empty(), final(self).writer@.len() == 0, final(self).client_errors@.len() == 0,
//@@ |   // numbers go on, so that no number is used twice with a key
//@@ |   final(self).sequence == old(self).sequence && final(self).challenge_sequence == old(self).challenge_sequence && final(self).time == old(self).time && final(self).private_key == old(self).private_key && final(self).cfg == old(self).cfg,
//@@ end
}
}
fn main() {}
