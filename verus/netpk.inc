// ---------------------------------------------------------------- packets: sealed and opened (under contract elsewhere: N16, N17)
pub type Bytes = Seq<u8>;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct TokenData { x: u64 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Nonce { x: u64 }
pub struct RequestPacket { pub protocol_id: u64, pub expire_timestamp: u64, pub token_nonce: Nonce, pub token_data: TokenData }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct TokenBytes { x: u64 }
impl RequestPacket { pub fn create(protocol_id: u64, expire_timestamp: u64, token_nonce: Nonce, token_data: TokenData) -> (r: Packet) ensures r == Packet::Request(RequestPacket { protocol_id, expire_timestamp, token_nonce, token_data }) { Packet::Request(RequestPacket { protocol_id, expire_timestamp, token_nonce, token_data }) } }
impl ResponsePacket { pub fn create(sequence: u64, token: TokenBytes) -> (r: Packet) ensures r == Packet::Response(ResponsePacket { token, sequence }) { Packet::Response(ResponsePacket { token, sequence }) } }
pub struct ResponsePacket { pub token: TokenBytes, pub sequence: u64 }
pub struct DeniedPacket { pub reason: DeniedReason }
pub struct ChallengePacket { pub sequence: u64, pub token: TokenBytes }
pub struct KeepAlivePacket { pub client_id: ClientId }
pub struct PayloadPacket { pub buf: RecvPayload }
pub struct DisconnectPacket { }
impl DeniedPacket { pub fn create(reason: DeniedReason) -> (r: Packet) ensures r == Packet::Denied(DeniedPacket { reason }) { Packet::Denied(DeniedPacket { reason }) } }
impl ChallengePacket { pub fn create(sequence: u64, token: TokenBytes) -> (r: Packet) ensures r == Packet::Challenge(ChallengePacket { sequence, token }) { Packet::Challenge(ChallengePacket { sequence, token }) } }
impl KeepAlivePacket { pub fn create(client_id: ClientId) -> (r: Packet) ensures r == Packet::KeepAlive(KeepAlivePacket { client_id }) { Packet::KeepAlive(KeepAlivePacket { client_id }) } }
impl DisconnectPacket { pub fn create() -> (r: Packet) ensures r == Packet::Disconnect(DisconnectPacket {}) { Packet::Disconnect(DisconnectPacket {}) } }
impl PayloadPacket { pub fn into_recv(self) -> (r: RecvPayload) ensures r == self.buf { self.buf } }
//@@ source crates/connection/netcode/src/packet.rs
//@@ item enum Packet
pub type PacketKind = u8;
#[verifier::external_body]
pub struct RecvPayload { x: u64 }
impl View for RecvPayload { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl RecvPayload { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() } }
#[verifier::external_body]
pub struct SendPayload { x: u64 }
impl SendPayload { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl View for SendPayload { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl SendPayload { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() } }
/// [u8; MAX_PKT_BUF_SIZE]
#[verifier::external_body]
pub struct PktBuf { x: u64 }
impl View for PktBuf { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
fn vx_buf() -> PktBuf { unimplemented!() }
/// the bytes of a packet under this number, key and protocol
pub uninterp spec fn sealed(p: Packet, sequence: u64, k: Key, protocol: u64) -> Bytes;
pub uninterp spec fn sealed_payload(p: Bytes, sequence: u64, k: Key, protocol: u64) -> Bytes;
/// these bytes open with this key to this packet
pub uninterp spec fn opened(b: Bytes, k: Key, protocol: u64, p: Packet) -> bool;
pub uninterp spec fn first_of(b: Bytes) -> u8;
pub open spec fn under_session(b: Bytes, k: Key, protocol: u64) -> bool { exists|p: Packet| #[trigger] opened(b, k, protocol, p) && !(p is Request) }
/// the kinds a server takes
pub open spec fn taken(p: Packet) -> bool { !(p is Denied) && !(p is Challenge) }
impl Packet {
//@@ item const Packet::REQUEST
//@@ item const Packet::DENIED
//@@ item const Packet::CHALLENGE
//@@ item const Packet::RESPONSE
//@@ item const Packet::KEEP_ALIVE
//@@ item const Packet::PAYLOAD
//@@ item const Packet::DISCONNECT
    #[verifier::external_body]
    pub fn write(&self, out: &mut PktBuf, sequence: u64, packet_key: &Key, protocol_id: u64) -> (r: Result<usize>)
        ensures r matches Ok(n) ==> n <= final(out)@.len() && final(out)@.take(n as int) == sealed(*self, sequence, *packet_key, protocol_id),
            // a keep-alive always fits the buffer
            *self is KeepAlive ==> r is Ok { unimplemented!() }
    #[verifier::external_body]
    pub fn write_payload(payload: &SendPayload, out: &mut PktBuf, sequence: u64, packet_key: &Key, protocol_id: u64) -> (r: Result<usize>)
        ensures r matches Ok(n) ==> n <= final(out)@.len() && final(out)@.take(n as int) == sealed_payload(payload@, sequence, *packet_key, protocol_id) { unimplemented!() }
    /// the filter, when there is one, refuses a number it has seen (N17)
    #[verifier::external_body]
    pub fn read(buf: RecvPayload, protocol_id: u64, now: u64, key: Key, replay: Option<&mut ReplayProtection>, allowed: u8) -> (r: Result<Packet>)
        ensures r matches Ok(p) ==> opened(buf@, key, protocol_id, p) && (allowed & 6 == 0 ==> taken(p)) && (allowed & 9 == 0 ==> !(p is Request) && !(p is Response)) && (p is Request <==> first_of(buf@) == 0),
            match replay { Some(f) => (r matches Ok(p) ==> p is Request || ((*f).passes(buf@) && !final(f).passes(buf@))) && (forall|b: Bytes| #[trigger] final(f).passes(b) ==> (*f).passes(b)), None => true } { unimplemented!() }
}
#[verifier::external_body]
pub struct ReplayProtection { x: u64 }
impl ReplayProtection {
    pub uninterp spec fn fresh(&self) -> bool;
    /// the number of these bytes has not been accepted by this filter
    pub uninterp spec fn passes(&self, b: Bytes) -> bool;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.fresh() { unimplemented!() }
}
#[verifier::external_body]
pub struct Writer { x: u64 }
impl View for Writer { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Writer {
    /// extend_from_slice(&buf[..n])
    #[verifier::external_body]
    pub fn vx_extend(&mut self, b: &PktBuf, n: usize) requires n <= b@.len() ensures final(self)@ == old(self)@ + b@.take(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn take_written(&mut self) -> (r: SendPayload) ensures r@ == old(self)@, final(self)@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
}
#[verifier::external_body]
pub struct LinkSender { x: u64 }
impl View for LinkSender { type V = Seq<Bytes>; uninterp spec fn view(&self) -> Seq<Bytes>; }
impl LinkSender { #[verifier::external_body] pub fn push(&mut self, p: SendPayload) ensures final(self)@ == old(self)@.push(p@) { unimplemented!() } }
#[verifier::external_body]
pub struct LinkReceiver { x: u64 }
impl View for LinkReceiver { type V = Seq<Bytes>; uninterp spec fn view(&self) -> Seq<Bytes>; }
impl LinkReceiver {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<RecvPayload>) ensures match r { Some(p) => old(self)@.len() > 0 && p@ == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn push_raw(&mut self, p: RecvPayload) ensures final(self)@ == old(self)@.push(p@) { unimplemented!() }
}
