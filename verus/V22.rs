// V22: the netcode client: its state machine, what it sends in each state, what it hands over (N19).
// Real code: crates/connection/netcode/src/client.rs.
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@@ include maps.inc
//@@ include f32.inc
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Entity { pub index: u32, pub generation: u32 }
pub type ClientId = u64;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Key { k: [u8; 32] }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct UserData { x: [u8; 4] }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SocketAddr { x: u64 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Mac { x: u64 }
pub uninterp spec fn neg_inf() -> F32;
#[verifier::external_body]
fn vx_neg_inf() -> (r: F32) ensures r == neg_inf() { unimplemented!() }
pub uninterp spec fn fint(i: int) -> F32;
#[verifier::external_body]
fn vx_f64(i: i32) -> (r: F32) ensures r == fint(i as int) { unimplemented!() }
#[derive(Clone, Copy)]
pub enum PeerId { Netcode(u64) }
#[derive(Clone, Copy)]
pub struct DeniedReason { pub x: u64 }
impl DeniedReason { #[allow(non_snake_case)] pub const ServerFull: DeniedReason = DeniedReason { x: 0 }; }
#[verifier::external_body]
pub struct CryptoError { x: u64 }
pub enum Error { SizeMismatch(usize, usize), Crypto(CryptoError), Other }
pub type Result<T> = core::result::Result<T, Error>;
//@@ include netpk.inc
pub struct Link { pub recv: LinkReceiver }
/// some packet of these is a payload packet with these contents
pub open spec fn carried(q: Seq<Bytes>, proto: u64, p: Bytes) -> bool { exists|k: int, key: Key, x: PayloadPacket| 0 <= k < q.len() && #[trigger] opened(q[k], key, proto, Packet::Payload(x)) && x.buf@ == p }
pub open spec fn views(q: Seq<SendPayload>) -> Seq<Bytes> { Seq::new(q.len(), |k: int| q[k]@) }
// ---------------------------------------------------------------- the client
pub struct AddressList { pub l: Vec<SocketAddr> }
impl AddressList { pub fn len(&self) -> (r: usize) ensures r == self.l@.len() { self.l.len() } }
pub struct ConnectToken { pub protocol_id: u64, pub create_timestamp: u64, pub expire_timestamp: u64, pub nonce: Nonce, pub private_data: TokenData, pub timeout_seconds: i32, pub server_addresses: AddressList, pub client_to_server_key: Key, pub server_to_client_key: Key }
#[verifier::external_body]
fn vx_lit(i: i32) -> (r: F32) ensures r == fint(i as int) { unimplemented!() }
#[verifier::external_body]
fn vx_u64(i: u64) -> (r: F32) ensures r == fint(i as int) { unimplemented!() }
#[verifier::external_body]
fn vx_num(n: u64) -> (r: u64) ensures r == n + 1 { unimplemented!() }
#[verifier::external_body]
fn vx_now() -> (r: Result<u64>) { unimplemented!() }
/// bool::then_some
pub trait VxThen: Sized {
    spec fn vx_b(self) -> bool;
    fn vx_then_some(self, f: &mut ReplayProtection) -> (r: Option<&mut ReplayProtection>)
        ensures match r { Some(g) => self.vx_b() && *g == *old(f) && *final(f) == *final(g), None => !self.vx_b() && *final(f) == *old(f) };
}
impl VxThen for bool {
    open spec fn vx_b(self) -> bool { self }
    fn vx_then_some(self, f: &mut ReplayProtection) -> (r: Option<&mut ReplayProtection>) { if self { Some(f) } else { None } }
}
#[verifier::external_body]
fn vx_drain(v: &mut Vec<SendPayload>) -> (r: Vec<SendPayload>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
//@@ source crates/connection/netcode/src/lib.rs
//@@ item const MAX_PKT_BUF_SIZE
//@@ item const MAX_PACKET_SIZE
//@@ source crates/connection/netcode/src/client.rs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@@ item enum ClientState
/// the changes a listener was told of
pub struct Context { pub events: Ghost<Seq<(ClientState, ClientState)>> }
pub struct StateCb;
impl StateCb { pub fn vx_call(&mut self, a: ClientState, b: ClientState, c: &mut Context) ensures final(c).events@ == old(c).events@.push((a, b)), *final(self) == *old(self) { proof { c.events@ = c.events@.push((a, b)); } } }
pub struct ClientConfig { pub num_disconnect_packets: usize, pub packet_send_rate: F32, pub context: Context, pub on_state_change: Option<StateCb> }
//@@ item struct Client Client < Ctx = ( ) >=>Client ;; f64=>F32 ;; [ u8 ; ChallengeToken :: SIZE ]=>TokenBytes ;; ClientConfig < Ctx >=>ClientConfig
pub open spec fn chained(s: Seq<(ClientState, ClientState)>, last: ClientState) -> bool {
    (forall|k: int| 0 <= k < s.len() - 1 ==> #[trigger] s[k].1 == s[k + 1].0) && (s.len() > 0 ==> s.last().1 == last)
}
pub open spec fn pending(s: ClientState) -> bool { s is SendingConnectionRequest || s is SendingChallengeResponse }
/// what goes out in each state
pub open spec fn due_packet(c: Client) -> Option<Packet> {
    match c.state {
        ClientState::SendingConnectionRequest => Some(Packet::Request(RequestPacket { protocol_id: c.token.protocol_id, expire_timestamp: c.token.expire_timestamp, token_nonce: c.token.nonce, token_data: c.token.private_data })),
        ClientState::SendingChallengeResponse => Some(Packet::Response(ResponsePacket { token: c.challenge_token_data, sequence: c.challenge_token_sequence })),
        ClientState::Connected => Some(Packet::KeepAlive(KeepAlivePacket { client_id: 0 })),
        _ => None,
    }
}
pub open spec fn ge(a: F32, b: F32) -> bool { fcmp(a, b) matches Some(o) && (o is Greater || o is Equal) }
pub open spec fn lt(a: F32, b: F32) -> bool { fcmp(a, b) == Some(Ordering::Less) }
impl Client {
pub open spec fn told(self) -> bool { self.cfg.on_state_change is Some ==> chained(self.cfg.context.events@, self.state) }
pub open spec fn inv(self) -> bool { self.told() && self.writer@.len() == 0 }
pub open spec fn expired(self) -> bool { ge(fsub(self.time, self.start_time), fsub(fint(self.token.expire_timestamp as int), fint(self.token.create_timestamp as int))) }
pub open spec fn silent(self) -> bool { self.token.timeout_seconds > 0 && lt(fadd(self.last_receive_time, fint(self.token.timeout_seconds as int)), self.time) }
/// where the client goes next: None when it stays
pub open spec fn goes(self) -> Option<ClientState> {
    if pending(self.state) && self.expired() { Some(ClientState::ConnectTokenExpired) }
    else if self.should_disconnect { Some(self.should_disconnect_state) }
    else if self.state is SendingConnectionRequest && self.silent() { Some(ClientState::ConnectionRequestTimedOut) }
    else if self.state is SendingChallengeResponse && self.silent() { Some(ClientState::ChallengeResponseTimedOut) }
    else if self.state is Connected && self.silent() { Some(ClientState::ConnectionTimedOut) }
    else { None }
}
/// another address of the token is tried first
pub open spec fn retries(self) -> bool { (self.should_disconnect || self.state != ClientState::Connected) && !(pending(self.state) && self.expired()) && self.server_addr_idx + 1 < self.token.server_addresses.l@.len() }
/// a new connection: nothing of the last one is left, a new replay filter
pub open spec fn renewed(self, o: Client) -> bool {
    o.start_time == self.time && o.last_send_time == fsub(self.time, fint(1)) && o.last_receive_time == self.time && !o.should_disconnect && o.should_disconnect_state is Disconnected && o.challenge_token_sequence == 0 && o.replay_protection.fresh()
}
/// what no step of a connection changes
pub open spec fn still(self, o: Client) -> bool { o.token == self.token && o.cfg.packet_send_rate == self.cfg.packet_send_rate && o.cfg.num_disconnect_packets == self.cfg.num_disconnect_packets && (o.cfg.on_state_change is Some <==> self.cfg.on_state_change is Some) }
/// one more packet sealed with the connection's number and key
pub open spec fn sent(self, o: Client) -> bool { o == (Client { last_send_time: self.time, sequence: o.sequence, send_queue: o.send_queue, writer: o.writer, ..self }) && o.sequence == self.sequence + 1 && o.writer@.len() == 0 }
//@@ item const Client::ALLOWED_PACKETS
//@@ fn Client::set_state
//@@ rename: let Some ( ref mut cb ) = self . cfg . on_state_change => let Some(cb) = &mut self.cfg.on_state_change ;; cb ( => cb.vx_call(
//@@ spec:
//@@ | ensures final(self).state == state, *final(self) == (Client { state, cfg: ClientConfig { context: final(self).cfg.context, on_state_change: final(self).cfg.on_state_change, ..old(self).cfg }, ..*old(self) }), old(self).still(*final(self)),
//@@ |   old(self).told() ==> final(self).told(),
//@@ |   old(self).cfg.on_state_change is Some ==> final(self).cfg.context.events@ == old(self).cfg.context.events@.push((old(self).state, state)),
//@@ end
//@@ fn Client::reset_connection
//@@ rename: 1.0 => vx_lit(1)
//@@ spec: ensures old(self).renewed(*final(self)), *final(self) == (Client { start_time: final(self).start_time, last_send_time: final(self).last_send_time, last_receive_time: final(self).last_receive_time, should_disconnect: false, should_disconnect_state: ClientState::Disconnected, challenge_token_sequence: 0, replay_protection: final(self).replay_protection, ..*old(self) })
//@@ end
//@@ fn Client::reset
//@@ rename: 0.0 => vx_lit(0)
//@@ spec: ensures old(self).renewed(*final(self)), final(self).state == new_state, final(self).server_addr_idx == 0, old(self).still(*final(self)), old(self).inv() ==> final(self).inv(), final(self).send_queue == old(self).send_queue, final(self).id == old(self).id, final(self).time == old(self).time
//@@ end
//@@ fn Client::connect
//@@ spec: ensures old(self).renewed(*final(self)), final(self).state is SendingConnectionRequest, old(self).still(*final(self)), old(self).inv() ==> final(self).inv(), final(self).send_queue == old(self).send_queue, final(self).sequence == old(self).sequence, final(self).server_addr_idx == old(self).server_addr_idx, final(self).time == old(self).time
//@@ end
//@@ fn Client::connect_to_next_server
//@@ spec:
//@@ | requires old(self).server_addr_idx < usize::MAX
//@@ | ensures r is Ok <==> old(self).server_addr_idx + 1 < old(self).token.server_addresses.l@.len(), old(self).inv() ==> final(self).inv(), old(self).still(*final(self)),
//@@ |   r is Ok ==> final(self).state is SendingConnectionRequest && old(self).renewed(*final(self)) && final(self).server_addr_idx == old(self).server_addr_idx + 1 && final(self).sequence == old(self).sequence && final(self).send_queue == old(self).send_queue && final(self).time == old(self).time,
//@@ |   r is Err ==> *final(self) == *old(self),
//@@ end
//@@ fn Client::send_netcode_packet
//@@ rename: [ 0u8 ; MAX_PKT_BUF_SIZE ] => vx_buf() ;; extend_from_slice ( & buf [ .. size ] ) => vx_extend(&buf, size) ;; self . sequence += 1 => self.sequence = vx_num(self.sequence)
//@@ spec:
//@@ | requires old(self).writer@.len() == 0
//@@ | ensures r is Ok ==> old(self).sent(*final(self)) && views(final(self).send_queue@) =~= views(old(self).send_queue@).push(sealed(packet, old(self).sequence, old(self).token.client_to_server_key, old(self).token.protocol_id)),
//@@ |   r is Err ==> *final(self) == *old(self),
//@@ end
//@@ fn Client::send_packet
//@@ rename: [ 0u8 ; MAX_PKT_BUF_SIZE ] => vx_buf() ;; extend_from_slice ( & buf [ .. size ] ) => vx_extend(&buf, size) ;; self . sequence += 1 => self.sequence = vx_num(self.sequence)
//@@ spec:
//@@ | requires old(self).writer@.len() == 0
//@@ | ensures final(self).send_queue == old(self).send_queue, r is Ok ==> old(self).sent(*final(self)) && final(sender)@ == old(sender)@.push(sealed(packet, old(self).sequence, old(self).token.client_to_server_key, old(self).token.protocol_id)),
//@@ |   r is Err ==> *final(self) == *old(self) && final(sender)@ == old(sender)@,
//@@ end
//@@ fn Client::send_payload_packet
//@@ rename: [ 0u8 ; MAX_PKT_BUF_SIZE ] => vx_buf() ;; extend_from_slice ( & buf [ .. size ] ) => vx_extend(&buf, size) ;; self . sequence += 1 => self.sequence = vx_num(self.sequence)
//@@ spec:
//@@ | requires old(self).writer@.len() == 0
//@@ | ensures final(self).send_queue == old(self).send_queue, r is Ok ==> old(self).sent(*final(self)) && final(sender)@ == old(sender)@.push(sealed_payload(payload@, old(self).sequence, old(self).token.client_to_server_key, old(self).token.protocol_id)),
//@@ |   r is Err ==> *final(self) == *old(self) && final(sender)@ == old(sender)@,
//@@ end
//@@ fn Client::send_packets
//@@ spec:
//@@ | requires old(self).inv()
//@@ | ensures final(self).inv(), final(self).state == old(self).state, old(self).still(*final(self)),
//@@ |   // what this state sends, when nothing was sent for a while
//@@ |   ({ let s0 = *old(self); let s1 = *final(self);
//@@ |   if ge(fadd(s0.last_send_time, s0.cfg.packet_send_rate), s0.time) || due_packet(s0) is None { s1 == s0 && r is Ok }
//@@ |   else { r is Ok ==> s0.sent(s1) && views(s1.send_queue@) =~= views(s0.send_queue@).push(sealed(due_packet(s0)->0, s0.sequence, s0.token.client_to_server_key, s0.token.protocol_id)) } }),
//@@ |   r is Err ==> *final(self) == *old(self),
//@@ end
//@@ fn Client::process_packet
//@@ spec:
//@@ | requires old(self).inv(), !(packet is Request), !(packet is Response)
//@@ | ensures final(self).inv(), r is Ok, old(self).still(*final(self)), final(self).sequence == old(self).sequence, final(self).replay_protection == old(self).replay_protection, final(self).send_queue == old(self).send_queue, final(self).server_addr_idx == old(self).server_addr_idx, final(self).time == old(self).time, final(self).start_time == old(self).start_time,
//@@ |   ({ let s0 = *old(self); let s1 = *final(self);
//@@ |   // payloads are handed over once connected
//@@ |   &&& (r matches Ok(Some(p)) ==> s0.state is Connected && packet == Packet::Payload(PayloadPacket { buf: p }))
//@@ |   &&& (packet is Payload && s0.state is Connected ==> r matches Ok(Some(_)))
//@@ |   // request, challenge, response, keep-alive: in this order, and the challenge is answered as it came
//@@ |   &&& (packet is Challenge && s0.state is SendingConnectionRequest ==> s1.state is SendingChallengeResponse && s1.challenge_token_sequence == packet->Challenge_0.sequence && s1.challenge_token_data == packet->Challenge_0.token)
//@@ |   &&& (!(packet is Challenge && s0.state is SendingConnectionRequest) ==> s1.challenge_token_sequence == s0.challenge_token_sequence && s1.challenge_token_data == s0.challenge_token_data)
//@@ |   &&& (packet is KeepAlive && s0.state is SendingChallengeResponse ==> s1.state is Connected && s1.id == packet->KeepAlive_0.client_id)
//@@ |   &&& (s1.state != s0.state ==> (packet is Challenge && s0.state is SendingConnectionRequest) || (packet is KeepAlive && s0.state is SendingChallengeResponse))
//@@ |   &&& (!(packet is KeepAlive && s0.state is SendingChallengeResponse) ==> s1.id == s0.id)
//@@ |   // a denial while pending or a disconnection while connected ends it
//@@ |   &&& (packet is Denied && pending(s0.state) ==> s1.should_disconnect && s1.should_disconnect_state is ConnectionDenied)
//@@ |   &&& (packet is Disconnect && s0.state is Connected ==> s1.should_disconnect && s1.should_disconnect_state is Disconnected)
//@@ |   &&& (!(packet is Denied && pending(s0.state)) && !(packet is Disconnect && s0.state is Connected) ==> s1.should_disconnect == s0.should_disconnect && s1.should_disconnect_state == s0.should_disconnect_state)
//@@ |   // hearing from the server keeps the connection
//@@ |   &&& (s0.state is Connected && !(packet is Denied) && !(packet is Challenge) ==> s1.last_receive_time == s0.time)
//@@ |   &&& (s1.last_receive_time == s0.time || s1.last_receive_time == s0.last_receive_time) }),
//@@ end
//@@ fn Client::update_state
//@@ rename: self . token . timeout_seconds . is_positive ( ) => (self.token.timeout_seconds > 0) ;; self . token . expire_timestamp as f64 => vx_u64(self.token.expire_timestamp) ;; self . token . create_timestamp as f64 => vx_u64(self.token.create_timestamp) ;; self . token . timeout_seconds as f64 => vx_lit(self.token.timeout_seconds) ;; return , } ; => { let vx_s = &mut *self; return; } } ;
//@@ spec:
//@@ | requires old(self).inv(), old(self).server_addr_idx < usize::MAX
//@@ | ensures final(self).inv(), old(self).still(*final(self)), final(self).send_queue == old(self).send_queue,
//@@ |   ({ let s0 = *old(self); let s1 = *final(self);
//@@ |   match s0.goes() {
//@@ |     None => s1 == s0,
//@@ |     Some(g) => s0.renewed(s1) && if s0.retries() { s1.state is SendingConnectionRequest && s1.server_addr_idx == s0.server_addr_idx + 1 && s1.sequence == s0.sequence } else { s1.state == g && s1.server_addr_idx == 0 } } }),
//@@ end
//@@ fn Client::recv_packet
//@@ rename: . then_some ( => .vx_then_some(
//@@ start: assert(Self::ALLOWED_PACKETS & 9 == 0) by (compute_only);
//@@ spec:
//@@ | requires old(self).inv()
//@@ | ensures final(self).inv(), r is Ok, old(self).still(*final(self)), final(self).sequence == old(self).sequence, final(self).send_queue == old(self).send_queue, final(self).server_addr_idx == old(self).server_addr_idx, final(self).time == old(self).time,
//@@ |   // what is handed over opens under the server's key and was not seen in this connection
//@@ |   r matches Ok(Some(p)) ==> old(self).state is Connected && opened(buf@, old(self).token.server_to_client_key, old(self).token.protocol_id, Packet::Payload(PayloadPacket { buf: p })) && old(self).replay_protection.passes(buf@) && !final(self).replay_protection.passes(buf@),
//@@ |   forall|b: Bytes| #[trigger] final(self).replay_protection.passes(b) ==> old(self).replay_protection.passes(b),
//@@ |   // nothing else happens without a packet under the server's key
//@@ |   final(self).state != old(self).state || final(self).should_disconnect != old(self).should_disconnect || final(self).last_receive_time != old(self).last_receive_time ==> under_session(buf@, old(self).token.server_to_client_key, old(self).token.protocol_id),
//@@ |   final(self).state is Connected && !(old(self).state is Connected) ==> old(self).state is SendingChallengeResponse,
//@@ end
//@@ fn Client::recv_packets
//@@ rename: utils :: now ( ) => vx_now()
//@@ start: let ghost q0 = receiver@; let ghost n = receiver@.len(); let ghost s0 = *self;
//@@ spec:
//@@ | requires old(self).inv()
//@@ | ensures final(self).inv(), old(self).still(*final(self)), final(self).sequence == old(self).sequence, final(self).server_addr_idx == old(self).server_addr_idx, final(self).send_queue == old(self).send_queue, final(self).time == old(self).time,
//@@ |   r is Ok ==> forall|j: int| 0 <= j < final(receiver)@.len() ==> #[trigger] carried(old(receiver)@, old(self).token.protocol_id, final(receiver)@[j]),
//@@ iter 0: it
//@@ loop 0:
//@@ | invariant self.inv(), s0.still(*self), self.sequence == s0.sequence, self.server_addr_idx == s0.server_addr_idx, self.send_queue == s0.send_queue, self.time == s0.time, q0.len() == n, it.snapshot@.end == n,
//@@ |   receiver@.len() >= n - it.index@, forall|j: int| 0 <= j < n - it.index@ ==> #[trigger] receiver@[j] == q0[j + it.index@],
//@@ |   forall|j: int| n - it.index@ <= j < receiver@.len() ==> #[trigger] carried(q0, s0.token.protocol_id, receiver@[j]),
//@@ end
//@@ fn Client::try_update
//@@ rename: f64 => F32 ;; self . time += => self.time = self.time +
//@@ spec:
//@@ | requires old(self).inv(), old(self).server_addr_idx < usize::MAX
//@@ | ensures final(self).inv(), old(self).still(*final(self)), r matches Ok(s) ==> s == final(self).state && forall|j: int| 0 <= j < final(receiver)@.len() ==> #[trigger] carried(old(receiver)@, old(self).token.protocol_id, final(receiver)@[j])
//@@ end
//@@ fn Client::drain_send_netcode_packets
//@@ start: let ghost q0 = self.send_queue@;
//@@ rename: in self . send_queue . drain ( .. ) => in vx_it: vx_drain(&mut self.send_queue)
//@@ spec:
//@@ | ensures *final(self) == (Client { send_queue: final(self).send_queue, ..*old(self) }), final(self).send_queue@.len() == 0, final(sender)@ =~= old(sender)@ + views(old(self).send_queue@)
//@@ loop 0:
//@@ | invariant vx_it.seq() == q0, sender@ =~= old(sender)@ + views(q0.take(vx_it.index@))
//@@ loopbody 0: proof { let k = vx_it.index@; assert(q0.take(k + 1) =~= q0.take(k).push(q0[k])); }
//@@ afterloop 0: proof { assert(q0.take(q0.len() as int) =~= q0); }
//@@ end
//@@ fn Client::send
//@@ spec:
//@@ | requires old(self).inv()
//@@ | ensures final(self).inv(), old(self).still(*final(self)),
//@@ |   !(old(self).state is Connected) ==> *final(self) == *old(self) && final(sender)@ == old(sender)@ && r is Ok,
//@@ |   old(self).state is Connected && r is Ok ==> buf@.len() <= MAX_PACKET_SIZE && old(self).sent(*final(self)) && final(sender)@ == old(sender)@.push(sealed_payload(buf@, old(self).sequence, old(self).token.client_to_server_key, old(self).token.protocol_id)),
//@@ |   r is Err ==> *final(self) == *old(self) && final(sender)@ == old(sender)@,
//@@ end
//@@ fn Client::disconnect
//@@ start: let ghost s0 = *self;
//@@ spec:
//@@ | requires old(self).inv()
//@@ | ensures final(self).inv(), old(self).still(*final(self)), r is Ok ==> final(self).state is Disconnected && old(self).renewed(*final(self)) && final(self).send_queue@.len() == old(self).send_queue@.len() + old(self).cfg.num_disconnect_packets
//@@ iter 0: it
//@@ loop 0:
//@@ | invariant *self == (Client { last_send_time: self.last_send_time, sequence: self.sequence, send_queue: self.send_queue, writer: self.writer, ..s0 }), self.writer@.len() == 0, s0.inv(), s0 == *old(self), it.snapshot@.end == s0.cfg.num_disconnect_packets, self.send_queue@.len() == s0.send_queue@.len() + it.index@
//@@ end
//@@ fn Client::state
//@@ spec: ensures r == self.state
//@@ end
//@@ fn Client::is_pending
//@@ spec: ensures r == pending(self.state)
//@@ end
//@@ fn Client::is_connected
//@@ spec: ensures r == (self.state is Connected)
//@@ end
//@@ fn Client::is_disconnected
//@@ spec: ensures r == (self.state is Disconnected)
//@@ end
}
}
fn main() {}
