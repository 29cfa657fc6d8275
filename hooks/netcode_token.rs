use super::*;
use alloc::vec::Vec;
pub use super::{AddressList, ChallengeToken, ConnectTokenPrivate};
pub struct VPriv { pub client_id: u64, pub timeout: i32, pub addrs: Vec<SocketAddr>, pub c2s: Key, pub s2c: Key, pub user: [u8; USER_DATA_BYTES] }
impl VPriv {
    fn real(&self) -> ConnectTokenPrivate {
        ConnectTokenPrivate { client_id: self.client_id, timeout_seconds: self.timeout, server_addresses: AddressList::new(&self.addrs[..]).ok().unwrap(),
            client_to_server_key: self.c2s, server_to_client_key: self.s2c, user_data: self.user }
    }
    fn of(p: ConnectTokenPrivate) -> Self {
        VPriv { client_id: p.client_id, timeout: p.timeout_seconds, addrs: p.server_addresses.iter().map(|(_, a)| a).collect(), c2s: p.client_to_server_key, s2c: p.server_to_client_key, user: p.user_data }
    }
    pub fn encrypt(&self, pid: u64, expire: u64, nonce: [u8; 24], key: &Key) -> Option<Vec<u8>> {
        self.real().encrypt(pid, expire, nonce.into(), key).ok().map(|b| b.to_vec())
    }
    pub fn decrypt(enc: &mut [u8], pid: u64, expire: u64, nonce: [u8; 24], key: &Key) -> Option<Self> {
        ConnectTokenPrivate::decrypt(enc, pid, expire, nonce.into(), key).ok().map(VPriv::of)
    }
}
pub fn challenge(client_id: u64, user: [u8; USER_DATA_BYTES], seq: u64, key: &Key) -> Vec<u8> {
    ChallengeToken { client_id, user_data: user }.encrypt(seq, key).ok().unwrap().to_vec()
}
pub fn unchallenge(enc: &[u8], seq: u64, key: &Key) -> Option<(u64, [u8; USER_DATA_BYTES])> {
    let mut b = [0u8; ChallengeToken::SIZE];
    b.copy_from_slice(enc);
    ChallengeToken::decrypt(&mut b, seq, key).ok().map(|t| (t.client_id, t.user_data))
}
pub struct VToken { pub pid: u64, pub create: u64, pub expire: u64, pub timeout: i32, pub addrs: Vec<SocketAddr>, pub c2s: Key, pub s2c: Key, pub nonce: [u8; 24], pub private: Vec<u8> }
pub fn token_parts(t: &ConnectToken) -> VToken {
    VToken { pid: t.protocol_id, create: t.create_timestamp, expire: t.expire_timestamp, timeout: t.timeout_seconds, addrs: t.server_addresses.iter().map(|(_, a)| a).collect(),
        c2s: t.client_to_server_key, s2c: t.server_to_client_key, nonce: t.nonce.into(), private: t.private_data.to_vec() }
}
