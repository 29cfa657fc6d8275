use super::*;
use alloc::vec::Vec;
/// Packet with its contents, kind by kind.
#[derive(Clone, Debug, PartialEq)]
pub enum VPkt {
    Request { protocol_id: u64, expire: u64, nonce: [u8; 24], token: Vec<u8> },
    Denied(DeniedReason),
    Challenge(u64, Vec<u8>),
    Response(u64, Vec<u8>),
    KeepAlive(u64),
    Payload(Vec<u8>),
    Disconnect,
}
impl VPkt {
    pub fn kind(&self) -> u8 {
        match self {
            VPkt::Request { .. } => Packet::REQUEST,
            VPkt::Denied(_) => Packet::DENIED,
            VPkt::Challenge(..) => Packet::CHALLENGE,
            VPkt::Response(..) => Packet::RESPONSE,
            VPkt::KeepAlive(_) => Packet::KEEP_ALIVE,
            VPkt::Payload(_) => Packet::PAYLOAD,
            VPkt::Disconnect => Packet::DISCONNECT,
        }
    }
    fn real(&self) -> Packet {
        match self {
            VPkt::Request { protocol_id, expire, nonce, token } => {
                let mut t = [0u8; ConnectTokenPrivate::SIZE];
                t.copy_from_slice(token);
                RequestPacket::create(*protocol_id, *expire, (*nonce).into(), t)
            }
            VPkt::Denied(r) => DeniedPacket::create(r.clone()),
            VPkt::Challenge(s, t) => { let mut b = [0u8; ChallengeToken::SIZE]; b.copy_from_slice(t); ChallengePacket::create(*s, b) }
            VPkt::Response(s, t) => { let mut b = [0u8; ChallengeToken::SIZE]; b.copy_from_slice(t); ResponsePacket::create(*s, b) }
            VPkt::KeepAlive(c) => KeepAlivePacket::create(*c),
            VPkt::Payload(b) => Packet::Payload(PayloadPacket { buf: lightyear_link::recv_payload_from_bytes(b.clone().into()) }),
            VPkt::Disconnect => DisconnectPacket::create(),
        }
    }
    fn of(p: Packet) -> Self {
        match p {
            Packet::Request(r) => VPkt::Request { protocol_id: r.protocol_id, expire: r.expire_timestamp, nonce: r.token_nonce.into(), token: r.token_data.to_vec() },
            Packet::Denied(d) => VPkt::Denied(d.reason),
            Packet::Challenge(c) => VPkt::Challenge(c.sequence, c.token.to_vec()),
            Packet::Response(c) => VPkt::Response(c.sequence, c.token.to_vec()),
            Packet::KeepAlive(k) => VPkt::KeepAlive(k.client_id),
            Packet::Payload(p) => VPkt::Payload(p.into_recv().to_vec()),
            Packet::Disconnect(_) => VPkt::Disconnect,
        }
    }
}
pub fn write(p: &VPkt, out: &mut [u8], sequence: u64, key: &Key, protocol_id: u64) -> Option<usize> {
    p.real().write(out, sequence, key, protocol_id).ok()
}
pub fn write_payload(p: &[u8], out: &mut [u8], sequence: u64, key: &Key, protocol_id: u64) -> Option<usize> {
    Packet::write_payload(p, out, sequence, key, protocol_id).ok()
}
pub fn read(buf: &[u8], protocol_id: u64, timestamp: u64, key: Key, replay: Option<&mut ReplayProtection>, allowed: u8) -> Option<VPkt> {
    let b = lightyear_link::recv_payload_from_bytes(buf.to_vec().into());
    Packet::read(b, protocol_id, timestamp, key, replay, allowed).ok().map(VPkt::of)
}
/// Encrypt an arbitrary body under an arbitrary prefix byte: what an authenticated but hostile peer can send.
pub fn hostile(prefix: u8, seq_bytes: &[u8], sequence: u64, body: &[u8], key: &Key, protocol_id: u64) -> Vec<u8> {
    let mut v = Vec::new();
    v.push(prefix);
    v.extend_from_slice(seq_bytes);
    let mut b = body.to_vec();
    b.extend_from_slice(&[0; MAC_BYTES]);
    crypto::chacha_encrypt(&mut b, Some(&Packet::aead(protocol_id, prefix).ok().unwrap()), sequence, key).ok().unwrap();
    v.extend_from_slice(&b);
    v
}
pub fn seq_len(s: u64) -> u8 { sequence_len(s) }
pub fn prefix(kind: u8, s: u64) -> u8 { Packet::prefix(kind, s) }
pub fn get_prefix(b: u8) -> (usize, u8) { Packet::get_prefix(b) }
pub fn seq_write(s: u64) -> ([u8; 9], usize) {
    let mut out = [0u8; 9];
    let mut c = io::Cursor::new(&mut out[..]);
    let ok = c.write_sequence(s).is_ok();
    assert!(ok);
    let n = c.position() as usize;
    (out, n)
}
pub fn seq_read(b: &[u8], len: usize) -> Option<u64> {
    let mut c = io::Cursor::new(b);
    c.read_sequence(len).ok()
}
pub fn aead(protocol_id: u64, prefix: u8) -> [u8; 22] { Packet::aead(protocol_id, prefix).ok().unwrap() }
/// Ok(()) as 0, otherwise which rule rejected the request
pub fn request_validate(version: [u8; 13], pid: u64, expire: u64, protocol_id: u64, now: u64) -> u8 {
    let r = RequestPacket { version_info: version, protocol_id: pid, expire_timestamp: expire, token_nonce: XNonce::default(), token_data: Box::new([0; ConnectTokenPrivate::SIZE]) };
    match r.validate(protocol_id, now) {
        Ok(()) => 0,
        Err(Error::BadVersion) => 1,
        Err(Error::BadProtocolId { .. }) => 2,
        Err(Error::TokenExpired) => 3,
        Err(_) => 4,
    }
}
